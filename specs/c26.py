from base import *
import itertools, random
import models

FLOOR = 40
LOCT = "algorithm::location::point_2_triangle_2::locate_point_2_triangle_2"
SIMPLE = "kernel::polygon_2::Polygon2::<T>::is_simple"


def run(k):
    k.rules = ["for every order type of a simple counter-clockwise polygon with three to six vertices (sampled exhaustively up to five, collinear triples included), ear clipping yields n-2 triangles of distinct vertex indices, each in increasing order and counter-clockwise, together covering every edge once and every diagonal twice: a triangulation", "a polygon that is not simple is refused", "no path panics or prints"]
    k.group("refusal", lambda: refusal(k))
    gs = []
    for n in (3, 4, 5, 6, 7, 8):
        cases = list(ordertypes(n).values())
        if k.tier == "quick":
            if n == 6:
                cases = cases[::3]
            if n > 6:  # those with many reflex corners
                cases = sorted(cases, key=lambda ps: -reflex(ps))
                cases = cases[:60] + covering(cases[60:], 3)
        for i in range(0, len(cases), 30):
            gs.append(("%d vertices, order types from %d" % (n, i), lambda n=n, c=cases[i:i + 30]: sized(k, n, c)))
    k.groups(gs)


def reflex(ps):
    n = len(ps)
    return sum(orient3(ps[i - 1], ps[i], ps[(i + 1) % n]) <= 0 for i in range(n))


def blockers(ps):
    """(i, d): the triangle at corner i contains the corner i + d and no other"""
    n = len(ps)
    out = set()
    for i in range(n):
        a, b, c = ps[i - 1], ps[i], ps[(i + 1) % n]
        if orient3(a, b, c) > 0:
            ins = [d for d in range(2, n - 1) for p in [ps[(i + d) % n]] if min(orient3(a, b, p), orient3(b, c, p), orient3(c, a, p)) >= 0]
            if len(ins) == 1:
                out.add((i, ins[0]))
    return out


def covering(cases, times):
    """cases in which every corner is kept from being an ear by every other one alone, some times over"""
    seen, out = {}, []
    for ps, f in sorted([(ps, blockers(ps)) for ps in cases], key=lambda t: -len(t[1])):
        if any(seen.get(x, 0) < times for x in f):
            out.append(ps)
            for x in f:
                seen[x] = seen.get(x, 0) + 1
    return out


def orient3(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)


def between(a, b, p):
    return min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def meet(a, b, c, d):
    o = orient3(a, b, c), orient3(a, b, d), orient3(c, d, a), orient3(c, d, b)
    if o[0] * o[1] < 0 and o[2] * o[3] < 0:
        return True
    return (o[0] == 0 and between(a, b, c)) or (o[1] == 0 and between(a, b, d)) or (o[2] == 0 and between(c, d, a)) or (o[3] == 0 and between(c, d, b))


def simple(ps):
    n = len(ps)
    if len(set(ps)) < n:
        return False
    for i in range(n):
        a, b, c = ps[i], ps[(i + 1) % n], ps[(i + 2) % n]
        if orient3(a, b, c) == 0 and ((b[0] - a[0]) * (c[0] - b[0]) + (b[1] - a[1]) * (c[1] - b[1])) <= 0:
            return False
        for j in range(i + 2, n):
            if (j + 1) % n != i and meet(ps[i], ps[(i + 1) % n], ps[j], ps[(j + 1) % n]):
                return False
    return sum(ps[i][0] * ps[(i + 1) % n][1] - ps[(i + 1) % n][0] * ps[i][1] for i in range(n)) > 0


def ordertypes(n):
    """one representative per order type (signs of all triples) of simple counter-clockwise polygons over a small grid"""
    out = {}
    rnd = random.Random(7)
    g = {3: 3, 4: 4, 5: 5, 6: 7, 7: 8, 8: 8}[n]
    cells = [(x, y) for x in range(g) for y in range(g)]
    pool = itertools.permutations(cells, n) if n <= 4 else ([rnd.choice(cells) for _ in range(n)] for _ in range({5: 60000, 6: 40000, 7: 60000, 8: 100000}[n]))
    trip = list(itertools.combinations(range(n), 3))
    for ps in pool:
        ps = list(ps)
        key = tuple(orient3(*[ps[i] for i in t]) for t in trip)
        if key in out or not simple(ps):
            continue
        out[key] = ps
    return out



def sign_of(P, ps):
    return (P > 0) - (P < 0)


class Case:
    """a polygon whose order type is assumed; predicates are decided from it"""

    def __init__(self, k, ps, w=None):
        self.k, self.ps = k, ps
        self.w = W(k, [LOCT, SIMPLE])
        self.pts = [self.w.pt("p%d" % i) for i in range(len(ps))]
        self.tab = {}
        n = len(ps)
        for i, j in itertools.combinations(range(n), 2):
            self.assume(self.pts[i].x - self.pts[j].x, ps[i][0] - ps[j][0])
            self.assume(self.pts[i].y - self.pts[j].y, ps[i][1] - ps[j][1])
        for a, b, c in itertools.combinations(range(n), 3):
            self.assume(orient(self.pts[a], self.pts[b], self.pts[c]), orient3(ps[a], ps[b], ps[c]))
        self.w.cx.ufhook = self.hook
        self.simple = TRUE

    def assume(self, e, s):
        r = T.canon_ord(e)
        P, sg, th = r
        if th.a[0]:
            return
        s = sg * ((s > 0) - (s < 0))
        self.tab[P] = (0.0, 0.0) if s == 0 else (1.0, float("inf")) if s > 0 else (float("-inf"), -1.0)

    def which(self, v):
        for i, p in enumerate(self.pts):
            if p.v is v:
                return i
        raise Undecided("a location query about a point that is no vertex")

    def hook(self, cx, fn, env, args, dargs, st, site):
        if fn["p"] == SIMPLE:
            return self.simple, TRUE
        if fn["p"] != LOCT:
            return None
        p = self.which(models.deref_full(cx, st, args[0]))
        t = models.deref_full(cx, st, args[1])
        vs = [self.which(x) for x in t.a[1:] if isinstance(x, V) and x.k == "struct"]
        if len(vs) != 3:
            raise Undecided("Triangle2 has another representation")
        q = [self.ps[i] for i in vs]
        o = orient3(*q)
        if o == 0:
            raise Undecided("location in a triangle without area")
        x = self.ps[p]
        s = [o * orient3(q[i], q[(i + 1) % 3], x) for i in range(3)]
        n = "Outside" if min(s) < 0 else "On" if min(s) == 0 else "Inside"
        return self.w.en("Point2Triangle2Location", n), TRUE

    def run(self):
        w = self.w
        T.ASSUME.update(self.tab)
        try:
            poly = w.val("Polygon2::<T>::new", seqlit(*[p.v for p in self.pts]))
            return self.k.call(w.cx, "earcut_2::earcut_2", [poly])
        finally:
            T.ASSUME.clear()


def triangles(v):
    if v.k != "seqlit" or any(t.k != "seqlit" for t in v.a):
        raise Undecided("the triangles are not determined: " + show(v)[:100])
    out = []
    for t in v.a:
        if any(x.k != "num" or not isconst(x) for x in t.a):
            raise Undecided("the indices are not determined")
        out.append([int(cval(x)) for x in t.a])
    return out


def judge(ts, ps):
    """None when the index triangles are a triangulation of the polygon"""
    n = len(ps)
    if len(ts) != n - 2:
        return "there are %d triangles, not %d" % (len(ts), n - 2)
    edges = {}
    for t in ts:
        if len(t) != 3 or sorted(set(t)) != t or t[0] < 0 or t[2] >= n:
            return "%s is not an increasing triple of vertex indices" % t
        if orient3(*[ps[i] for i in t]) < 0:
            return "the triangle %s lies outside (it is clockwise)" % t
        for e in ((t[0], t[1]), (t[1], t[2]), (t[0], t[2])):
            edges[e] = edges.get(e, 0) + 1
    for e, m in edges.items():
        border = e[1] - e[0] in (1, n - 1)
        if m != (1 if border else 2):
            return "the %s %s belongs to %d of the triangles" % ("edge" if border else "diagonal", e, m)
    return None


def sized(k, n, cases):
    for ps in cases:
        c = Case(k, ps)
        r = c.run()
        k.nopanic("ear clipping of %d vertices never panics" % n, r)
        if r.eff:
            k.ob("ear clipping of %d vertices has no effect" % n, r.site(), "refuted", "for %s it performs %s" % (ps, [e[1] for e in r.eff][:3]))
        try:
            ts = triangles(r.v)
        except Undecided as e:
            k.ob("the result triangulates every polygon of %d vertices" % n, r.site(), "undecided", str(e))
            continue
        why = judge(ts, ps)
        k.ob("the result triangulates every polygon of %d vertices" % n, r.site(), "refuted" if why else "proved", "for the order type of %s the triangles are %s: %s" % (ps, ts, why) if why else None)


def refusal(k):
    c = Case(k, [(0, 0), (1, 0), (0, 1)])
    c.simple = FALSE
    r = c.run()
    k.ob("a polygon that is not simple is refused", r.site(), "proved" if r.v is BOT else "refuted", None if r.v is BOT else "earcut_2 returns %s for a polygon that is not simple" % show(r.v)[:80])
