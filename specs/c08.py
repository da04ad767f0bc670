from base import *

FLOOR = 8


def run(k):
    k.rules = ["the summaries of the polygon's accessors, edge list, area and convexity equal their definitions over an arbitrary vertex list (closed forms of the loops; any length)"]
    k.group("edges", lambda: edges(k))
    k.group("area", lambda: area(k))
    k.group("convex", lambda: convex(k))


def poly(w, n="v"):
    vs = w.cx.sym(("adt", "alloc::vec::Vec", (P2,)), n)
    return vs, w.val("Polygon2::<T>::new", vs)


def elem(w, vs, i):
    return w.rd(w.cx.seq_get(vs, num(i), P2))


def edges(k):
    w = W(k)
    vs, p = poly(w)
    n = seq_len(vs)
    r = w.call("Polygon2::<T>::vertices", p)
    k.same("vertices() is the vertex list given", r, r.v, vs)
    r = w.call("Polygon2::<T>::edges", p)
    k.same("there are as many edges as vertices", r, seq_len(r.v), n)
    i = numatom(bnd(0))
    e = w.val("LineSegment2::<T>::new", w.cx.seq_get(vs, i, P2), w.cx.seq_get(vs, nmod(i + 1, n), P2))
    k.same("edge i runs from vertex i to vertex i+1, the last back to vertex 0", r, r.v, mkflat(w.cx, 0, n, seqlit(e)))
    k.nopanic("edges never panics", r)


def area(k):
    w = W(k)
    vs, p = poly(w)
    n = seq_len(vs)
    r = w.call("Polygon2::<T>::area", p)
    i = numatom(bnd(0))
    v0 = elem(w, vs, ZERO)
    # the fan triangulation of the shoelace formula
    a, b = elem(w, vs, nmod(i + 1, n)), elem(w, vs, nmod(i + 2, n))
    c = orient(v0, a, b)
    fan = mksum(w.cx, 0, n - 2, ITE(GT(c, 0), Abs(c) / 2, -Abs(c) / 2))
    x, y = elem(w, vs, i), elem(w, vs, nmod(i + 1, n))
    shoe = mksum(w.cx, 0, n, x.cross(y) / 2)
    few = LT(n, 3)
    k.same_any("the area is the signed shoelace area (zero below three vertices)", r, r.v, [ITE(few, 0, shoe), ITE(few, 0, fan)])
    k.nopanic("area never panics", r)


def convex(k):
    w = W(k)
    vs, p = poly(w)
    n = seq_len(vs)
    r = w.call("Polygon2::<T>::is_convex", p)
    def triple(i):
        t = orient(elem(w, vs, i), elem(w, vs, nmod(i + 1, n)), elem(w, vs, nmod(i + 2, n)))
        return AND(NOT(near(t, 0)), GT(t, 0)), AND(NOT(near(t, 0)), LT(t, 0))

    def step(i, l, g):
        left, right = triple(i)
        return [OR(l, left), OR(g, right)]
    B = ("prim", "bool")
    want = fold(w.cx, n, [B, B], [FALSE, FALSE], step, lambda l, g: NOT(AND(l, g)))
    k.same("a polygon is convex iff its consecutive vertex triples do not turn both ways", r, r.v, want)
    k.nopanic("is_convex never panics", r)
