from base import *
import itertools, random
import c26, c27
from interp import Diverges

FLOOR = 120
SIMPLE = "Polygon2::<T>::is_simple"


def run(k):
    k.rules = ["for every arrangement type of the edges of a closed polygon with two to four vertices (sampled ones of five to eight) — simple and convex, simple and not convex, self-crossing, touching itself with a vertex, repeating a vertex, folding back — is_simple holds exactly when consecutive edges share only their vertex and the others share nothing",
               "the pairwise intersection and the point-on-segment location are taken by their contracts, the sweep and the polygon's own code are interpreted; comparisons are decided by the signs the type fixes", "no path panics and nothing is printed"]
    gs = []
    for n, cases in types(k.tier).items():
        step = 20 if n < 7 else 4
        for i in range(0, len(cases), step):
            gs.append(("%d vertices, types from %d" % (n, i), lambda n=n, c=cases[i:i + step]: sized(k, n, c)))
    k.groups(gs)


def edges(ps):
    return [(p, ps[(i + 1) % len(ps)]) for i, p in enumerate(ps)]


def simple(ps):
    n = len(ps)
    if len(set(ps)) < n:
        return False
    if n < 3:
        return True
    es = edges(ps)
    for i, j in itertools.combinations(range(n), 2):
        c = c27.common(*[tuple(sorted(es[x])) for x in (i, j)])
        shared = [ps[j]] if j == i + 1 else [ps[0]] if (j + 1) % n == i else []
        if n == 3 and i == 0 and j == 2:
            shared = [ps[0]]
        if c != shared:
            return False
    return True


def interest(ps):
    """how deceptive a polygon is: as many common points as vertices without being simple, or many collinear triples while simple"""
    m = len(c27.expected(edges(ps)))
    flat = sum(c26.orient3(*t) == 0 for t in itertools.combinations(ps, 3))
    return (not simple(ps)) * (m == len(ps)) * 10 + flat


def types(tier):
    rnd = random.Random(5)
    out = {2: [[(0, 0), (1, 0)], [(0, 1), (0, 0)], [(0, 0), (1, 1)]]}
    for n, g, tries, cap in ((3, 3, 0, 60), (4, 4, 6000, 140), (5, 5, 8000, 120), (6, 6, 8000, 80)):
        if tier != "quick":
            tries, cap = tries * 4, cap * 5
        cells = [(x, y) for x in range(g) for y in range(g)]
        pool = itertools.permutations(cells, 3) if n == 3 else ([rnd.choice(cells) for _ in range(n)] for _ in range(tries))
        seen, yes, no = set(), [], []
        for ps in pool:
            ps = list(ps)
            if any(p == ps[i - 1] for i, p in enumerate(ps)):
                continue
            t = c27.signature(edges(ps))
            if t not in seen:
                seen.add(t)
                (yes if simple(ps) else no).append(ps)
        for l in (yes, no):
            l.sort(key=interest, reverse=True)
            if len(l) > cap // 2:
                l[:] = l[:cap // 4] + l[cap // 4::max(1, (len(l) - cap // 4) // (cap // 4))][:cap // 4]
        out[n] = yes + no
    for n in (7, 8) if tier == "quick" else (7, 8, 9, 10):
        out[n] = longer(n)
    # a vertex repeated at once: an edge without extent
    a, b, c, d = (0, 0), (2, 0), (2, 2), (0, 2)
    out[2] += [[a, a]]
    out[3] += [[a, a, b], [a, b, b], [a, b, a], [a, a, a], [b, b, c], [d, a, a]]
    out[4] += [[a, a, b, c], [a, b, b, c], [a, b, c, c], [a, b, c, a], [a, b, a, b], [a, a, b, b], [a, b, c, b]]
    return out


def longer(n):
    """longer polygons: simple ones with every vertex first in turn, and ones in which just two edges cross, every pair in turn"""
    rnd = random.Random(3)
    cells = [(x, y) for x in range(9) for y in range(9)]
    yes, no = [], {}
    for _ in range(20000):
        ps = rnd.sample(cells, n)
        for _ in range(40):  # uncross
            es = edges(ps)
            x = next(((i, j) for i, j in itertools.combinations(range(n), 2) if 1 < j - i < n - 1 and c27.common(tuple(sorted(es[i])), tuple(sorted(es[j])))), None)
            if x is None:
                break
            i, j = x
            if len(no) < n * (n - 3) // 2 and x not in no and not any(c26.orient3(*t) == 0 for t in itertools.combinations(ps, 3)):
                if sum(len(c27.common(tuple(sorted(es[a])), tuple(sorted(es[b])))) for a, b in itertools.combinations(range(n), 2)) == n + 1:
                    no[x] = list(ps)
            ps[i + 1:j + 1] = ps[i + 1:j + 1][::-1]
        if len(yes) < 2 and simple(ps):
            yes.append(ps)
        if len(yes) == 2 and len(no) == n * (n - 3) // 2:
            break
    return [ps[i:] + ps[:i] for ps in yes for i in range(0, n, 1 if ps is yes[0] else 3)] + list(no.values())


def sized(k, n, cases):
    name = "a polygon of %d vertices is simple exactly when its edges only meet in their shared ends" % n
    for ps in cases:
        c = c27.Arrangement(k, edges(ps))
        want = simple(ps)
        T.ASSUME = c.type
        try:
            poly = c.w.val("Polygon2::<T>::new", seqlit(*[c.sym[p].v for p in ps]))
            r = k.call(c.w.cx, SIMPLE, [poly])
        except Diverges as e:
            k.ob("deciding simplicity ends", SIMPLE, "refuted", "for the polygon %s: %s" % (ps, e))
            continue
        finally:
            T.ASSUME = {}
        k.nopanic("deciding the simplicity of %d vertices never panics" % n, r)
        if r.eff:
            k.ob("deciding simplicity has no effect", r.site(), "refuted", "for %s it performs %s" % (ps, [e[1] for e in r.eff][:3]))
        if r.v not in (TRUE, FALSE):
            k.ob(name, r.site(), "undecided", "%s: %s" % (ps, show(r.v)[:200]))
            continue
        ok = r.v is mkbool(want)
        k.ob(name, r.site(), "proved" if ok else "refuted", None if ok else "the polygon %s is %ssimple, is_simple returns %s" % (ps, "" if want else "not ", r.v is TRUE))
