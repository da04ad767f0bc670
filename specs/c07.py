from base import *

FLOOR = 14


def run(k):
    k.rules = ["the triangle's accessors, edges, orientation and area have the normal forms of their definitions"]
    k.group("triangle", lambda: tri(k))
    k.group("equality", lambda: equality(k))


def tri(k):
    w = W(k)
    t = w.tri()
    a, b, c = t.a, t.b, t.c
    for n in "abc":
        r = w.call("Triangle2::<T>::" + n, t.v)
        ptcmp(k, "vertex %s is the one given" % n, r, w.rd(r.v), getattr(t, n))
    r = w.call("Triangle2::<T>::vertices", t.v)
    for i, p in enumerate((a, b, c)):
        q = w.rd(w.cx.seq_get(r.v, const(i), P2))
        ptcmp(k, "vertices()[%d]" % i, r, q, p)
    r = w.call("Triangle2::<T>::edges", t.v)
    for i, (p, q) in enumerate(((a, b), (b, c), (c, a))):
        e = w.cx.seq_get(r.v, const(i), KIND["L"])
        s, g = w.tval("LineSegment2", "Segment2", "source", e), w.tval("LineSegment2", "Segment2", "target", e)
        ptcmp(k, "edges()[%d] starts at vertex %d" % (i, i), r, w.rd(s), p)
        ptcmp(k, "edges()[%d] ends at the next vertex" % i, r, w.rd(g), q)
    cr = orient(a, b, c)
    cw, ccw = w.en("Orientation", "Clockwise"), w.en("Orientation", "CounterClockwise")
    r = w.call("Triangle2::<T>::orientation", t.v)
    k.same("the orientation is counter-clockwise iff the signed area is positive", r, r.v, ITE(GT(cr, 0), ccw, cw))
    r = w.call("Triangle2::<T>::area", t.v)
    k.same("the area is half the cross product, signed by the orientation", r, r.v, ITE(GT(cr, 0), Abs(cr) / 2, -Abs(cr) / 2))
    k.nopanic("area never panics", r)
    st = {}
    ref = k.mutarg(w.cx, st, "t", t.v)
    f = k.fn("Triangle2::<T>::reverse_orientation")
    rr = k.call(w.cx, f, [ref], None, st)
    t2 = w.cx.get(rr.st, ("S", ("arg", "t")))
    r = w.call("Triangle2::<T>::orientation", t2)
    k.same("reverse_orientation flips the orientation", rr, r.v, ITE(GT(cr, 0), cw, ccw))
    r = w.call("Triangle2::<T>::area", t2)
    k.same("reverse_orientation negates the area", rr, r.v, ITE(GT(cr, 0), -Abs(cr) / 2, Abs(cr) / 2))
    for n in "abc":
        r = w.call("Triangle2::<T>::" + n, t2)
        ptcmp(k, "reverse_orientation keeps vertex %s" % n, rr, w.rd(r.v), getattr(t, n))
    st = {}
    ref = k.mutarg(w.cx, st, "t", t2)
    rr = k.call(w.cx, f, [ref], None, st)
    k.same("reversing twice restores the triangle", rr, w.cx.get(rr.st, ("S", ("arg", "t"))), t.v)


def equality(k):
    w = W(k)
    t, u = w.tri("t"), w.tri("u")
    r = w.tcall("Triangle2", "PartialEq", "eq", t.v, u.v)
    up, uq = (GT(orient(x.a, x.b, x.c), 0) for x in (t, u))
    k.same("triangles are equal iff their vertices and orientations agree, in order", r, r.v, AND(peq(t.a, u.a), peq(t.b, u.b), peq(t.c, u.c), OR(AND(up, uq), AND(NOT(up), NOT(uq)))))
    enum_eq(k, w, "Orientation")
