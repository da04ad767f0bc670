from base import *
from c08 import poly, elem

FLOOR = 10
LOC = "algorithm::location::"


def run(k):
    k.rules = ["a point is On a polygon or triangle iff it is On one of its edges; otherwise Inside a polygon iff the edges cross the rightward ray from it an odd number of times, and inside a triangle iff it lies on one same side of all three edges", "the three predicates are the three outcomes"]
    k.group("triangle", lambda: triangle(k))
    k.group("polygon", lambda: polygon(k))
    k.group("kinds", lambda: kinds(k))


def is_(v, *es):
    return cleanb(cond_of(v, lambda x: x in es))


def edge_loc(k, w, p, s, t):
    return w.val(LOC + "point_2_line_segment_2::locate_point_2_line_segment_2", p.v, w.segof(s, t).v, env={1: KIND["L"]})


def triangle(k):
    w = W(k)
    p, t = w.pt("p"), w.tri()
    en = lambda n: w.en("Point2Triangle2Location", n)
    le = lambda n: w.en("Point2Segment2Location", n)
    f = LOC + "point_2_triangle_2::locate_point_2_triangle_2"
    r = w.call(f, p.v, t.v)
    es = [edge_loc(k, w, p, a, b) for a, b in ((t.a, t.b), (t.b, t.c), (t.c, t.a))]
    # exact: classify by the signs, edges visited in any order agree outside the tolerance bands of the edges
    o = [orient(a, b, p) for a, b in ((t.a, t.b), (t.b, t.c), (t.c, t.a))]
    m = NEPS * 2
    clear = AND(*[GT(Abs(x), m) for x in o])
    ins = OR(AND(*[GT(x, m) for x in o]), AND(*[LT(x, -m) for x in o]))
    k.same("a point off the edges' lines is Inside a triangle iff it is on the same side of all three edges", r, r.v, ITE(ins, en("Inside"), en("Outside")), pre=clear)
    L, R, C, O = (lambda e, n=n: is_(e, le(n)) for n in ("Left", "Right", "Collinear", "On"))
    direct = en("Inside")
    for i in (2, 1, 0):
        e = es[i]
        mixed = OR(*[OR(AND(L(e), R(x)), AND(R(e), L(x))) for x in es[:i]])
        direct = ITE(O(e), en("On"), ITE(OR(C(e), mixed), en("Outside"), direct))

    def edge():
        for a, b, c in ((t.a, t.b, t.c), (t.b, t.c, t.a), (t.c, t.a, t.b)):
            lam = nsym("lambda")
            q = w.pt(a.x + (b.x - a.x) * lam, a.y + (b.y - a.y) * lam)
            g = w.call(f, q.v, t.v)
            fat = GT(Abs(orient(a, b, c)), NEPS * 4 + 1)
            yield (g, g.v, en("On"), AND(GT(lam * 8, 1), LT(lam * 8, 7), fat), None)
            yield (g, g.v, en("Outside"), AND(OR(GT(lam, 2), LT(lam, -1)), fat), None)
        # the same holds when the corners are in line
        lam, mu = nsym("lambda"), nsym("mu")
        at = lambda x: w.pt(t.a.x + (t.b.x - t.a.x) * x, t.a.y + (t.b.y - t.a.y) * x)
        g = w.call(f, at(lam).v, w.val("Triangle2::<T>::new", t.a.v, t.b.v, at(mu).v))
        L2 = (t.b.x - t.a.x) * (t.b.x - t.a.x) + (t.b.y - t.a.y) * (t.b.y - t.a.y)
        wide = AND(GE(L2, 1), OR(GT(mu * 8, 9), LT(mu * 8, -1), AND(GT(mu * 8, 1), LT(mu * 8, 7))))
        yield (g, g.v, en("Outside"), AND(wide, OR(GT(lam, MAX(1, mu) + 1), LT(lam, MIN(0, mu) - 1))), None)
        yield (g, g.v, en("On"), AND(wide, LT(lam * 8, 7), GT(lam * 8, 1)), None)

    k.proved_or("points of an edge are On the triangle, points of its line beyond it are Outside", r, r.v, [direct], edge)
    for i, a in enumerate((t.a, t.b, t.c)):
        g = w.call(f, a.v, t.v)
        k.same("vertex %s is On the triangle" % "abc"[i], g, g.v, en("On"), pre=GT(Abs(orient(t.a, t.b, t.c)), NEPS))
    g = w.call(f, p.v, w.val("Triangle2::<T>::new", t.c.v, t.b.v, t.a.v))
    k.same("the location does not depend on the triangle's orientation", r, r.v, g.v, pre=clear)
    k.nopanic("locating in a triangle never panics", r)
    k.pure("locating in a triangle has no side effect", r)


def polygon(k):
    w = W(k)
    vs, pl = poly(w)
    n = seq_len(vs)
    p = w.pt("p")
    en = lambda x: w.en("Point2Polygon2Location", x)
    le = lambda x: w.en("Point2Segment2Location", x)
    f = LOC + "point_2_polygon_2::locate_point_2_polygon_2"
    r = w.call(f, p.v, pl)

    def cls(i):
        s, t = elem(w, vs, i), elem(w, vs, nmod(i + 1, n))
        loc = edge_loc(k, w, p, s, t)
        cr = (t - s).cross(p - s)
        up = AND(LE(s.y, p.y), LT(p.y, t.y), is_(loc, le("Left")))
        down = AND(LE(t.y, p.y), LT(p.y, s.y), is_(loc, le("Right")))
        return is_(loc, le("On")), OR(up, down)

    def step(i, on, odd):
        a, c = cls(i)
        return [OR(on, a), AND(OR(odd, c), NOT(AND(odd, c)))]
    B = ("prim", "bool")
    want = fold(w.cx, n, [B, B], [FALSE, FALSE], step, lambda on, odd: ITE(on, en("On"), ITE(odd, en("Inside"), en("Outside"))))
    k.same("a point is On iff on an edge, otherwise Inside iff an odd number of edges cross the rightward ray from it", r, r.v, want)
    k.nopanic("locating in a polygon never panics", r)
    k.pure("locating in a polygon has no side effect", r)
    for nm, e in (("on", "On"), ("inside", "Inside"), ("outside", "Outside")):
        q = w.call(LOC + "point_2_polygon_2::is_point_2_%s_polygon_2" % nm, p.v, pl)
        k.same("is_point_2_%s_polygon_2 is location == %s" % (nm, e), q, q.v, is_(r.v, en(e)))


def kinds(k):
    w = W(k)
    for n in ("Point2Triangle2Location", "Point2Polygon2Location"):
        enum_eq(k, w, n)
