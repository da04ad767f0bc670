from base import *
import itertools

FLOOR = 10
CH = adt("algorithm::convex_hull::convex_hull_2::ConvexHull2")


def run(k):
    k.rules = ["for point sets of up to five points with arbitrary coordinates, given in any order and with any ties of abscissae, the result is the lexicographically least point, the points below every chord over them, the greatest point and the points above every chord, that is the strict convex hull counter-clockwise; the stack loops are unrolled on the explicit stack, all branches kept"]
    k.group("few", lambda: few(k))
    for n in (3, 4, 5):
        k.group("%d points" % n, lambda: many(k, n))


def layout(w, n, ties):
    """n distinct points in sweep order: the next one is to the right, or (where ties says so) straight above"""
    x, y = nsym("x"), nsym("y0")
    out = [w.pt(x, y)]
    for i in range(1, n):
        if ties[i - 1]:
            y = y + nnsym("rise%d" % i) + NEPS
        else:
            x, y = x + nnsym("gap%d" % i) + NEPS, nsym("y%d" % i)
        out.append(w.pt(x, y))
    return out


def call(k, w, pts):
    v = w.val("ConvexHull2::<T>::new", seqlit(*[p.v for p in pts]))
    st = {}
    ref = k.mutarg(w.cx, st, "hull", v, CH)
    return k.call(w.cx, "ConvexHull2::<T>::convex_hull", [ref], None, st)


def points_after(w, r):
    h = w.cx.get(r.st, ("S", ("arg", "hull")))
    fl = w.cx.F.adts[CH[1]][1][0][2]
    i = [i for i, f in enumerate(fl) if f[0] == "points"]
    return w.cx.field(h, ("f", i[0])) if i else None


def few(k):
    w = W(k)
    r = call(k, w, [])
    k.same("the hull of no point is empty", r, r.v, EMPTY)
    k.nopanic("the hull of no point never panics", r)
    p = w.pt("p")
    r = call(k, w, [p])
    k.same("the hull of one point is that point", r, r.v, seqlit(p.v))
    k.nopanic("the hull of one point never panics", r)
    for n in (2, 3, 4):
        r = call(k, w, [p] * n)
        k.same("a repeated point does not change the hull", r, r.v, seqlit(p.v))
        k.nopanic("a repeated point never panics", r)
    for t in (0, 1):
        w = W(k)
        a, b = layout(w, 2, [t])
        for q in ((a, a, b), (b, a, b), (b, b, a, a)):
            r = call(k, w, q)
            k.same("a repeated point does not change the hull", r, r.v, seqlit(a.v, b.v))
            k.nopanic("a repeated point never panics", r)
        for q in ((a, b), (b, a)):
            r = call(k, w, q)
            k.same("the hull of two points is both", r, r.v, seqlit(a.v, b.v))
            k.nopanic("the hull of two points never panics", r)


def chords(pts, sign):
    """which points lie strictly below (sign 1) or above (sign -1) every chord passing over (under) them"""
    n = len(pts)
    out = []
    for i in range(n):
        out.append(AND(*[GT(orient(pts[a], pts[i], pts[b]) * sign, 0) for a in range(i) for b in range(i + 1, n)]))
    return out


def definition(pts):
    lo, up = chords(pts, 1), chords(pts, -1)
    n = len(pts)
    s = seqlit(pts[0].v)
    for i in range(1, n - 1):
        s = bind(ITE(lo[i], seqlit(pts[i].v), EMPTY), lambda x, s=s: seq_cat2(s, x))
    s = seq_cat2(s, seqlit(pts[-1].v))
    for i in range(n - 2, 0, -1):
        s = bind(ITE(up[i], seqlit(pts[i].v), EMPTY), lambda x, s=s: seq_cat2(s, x))
    return s


def seq_cat2(a, b):
    return bind(a, lambda x: bind(b, lambda y: seq_cat(x, y)))


def chain(pts):
    def go(st, i):
        if i == len(pts):
            return seqlit(*[p.v for p in st[:-1]])
        if len(st) < 2:
            return go(st + [pts[i]], i + 1)
        return ITE(LE(orient(st[-2], st[-1], pts[i]), 0), go(st[:-1], i), go(st + [pts[i]], i + 1))
    return go([], 0)


def many(k, n):
    for ties in itertools.product((0, 1), repeat=n - 1):
        if n == 5 and sum(ties) not in (0, 4) and ties not in ((1, 0, 0, 1), (0, 1, 1, 0)):
            continue
        w = W(k)
        pts = layout(w, n, ties)
        wants = [definition(pts), seq_cat2(chain(pts), chain(pts[::-1]))]
        perms = list(itertools.permutations(pts)) if n < 4 or not any(ties) and n == 4 else [pts, pts[::-1], pts[1:] + pts[:1], pts[::2] + pts[1::2]]
        first = None
        for q in perms:
            r = call(k, w, q)
            if first is None:
                first = r
                k.same_any("the hull of %d points is the strict hull, counter-clockwise from the least point" % n, r, r.v, wants)
                k.nopanic("the hull of %d points never panics" % n, r)
                after = points_after(w, r)
                if after is not None and after.k == "seqlit":
                    ok = len(after.a) == n and {x for x in after.a} == {p.v for p in pts}
                    k.ob("the points stay the same set", r.site(), "proved" if ok else "refuted", None if ok else "for %d distinct points the stored points become %s" % (n, show(after)[:200]))
            else:
                k.same("the hull of %d points does not depend on their order" % n, r, r.v, first.v)
    # coinciding points do not change the hull
    if n == 3:
        w = W(k)
        pts = layout(w, 3, (0, 0))
        base = call(k, w, pts)
        for q in (pts[:1] + pts, pts + pts[2:], pts[:2] + pts[1:]):
            r = call(k, w, q)
            k.same("a repeated point does not change the hull", r, r.v, base.v)
            k.nopanic("a repeated point never panics", r)
