from base import *

FLOOR = 14


def run(k):
    k.rules = ["each vector operation's value graph has the normal form of its definition over the coordinates"]
    k.group("vectors", lambda: vectors(k))


def vectors(k):
    w = W(k)
    a, b, s = w.vec("a"), w.vec("b"), nsym("s")
    r = w.last
    ptcmp(k, "a vector's coordinates are those it was built from", r, w.rdv(a.v), a)
    for op, want in (("Add", Pt(a.x + b.x, a.y + b.y)), ("Sub", Pt(a.x - b.x, a.y - b.y))):
        r = w.tcall("Vector2", op, op.lower(), a.v, b.v)
        ptcmp(k, "vector %s is coordinate-wise" % op, r, w.rdv(r.v), want)
    for op, want in (("Mul", Pt(a.x * s, a.y * s)), ("Div", Pt(a.x / s, a.y / s))):
        r = w.tcall("Vector2", op, op.lower(), a.v, s)
        ptcmp(k, "vector %s by a scalar scales both coordinates" % op, r, w.rdv(r.v), want)
    r = w.call("Vector2::<T>::dot", a.v, b.v)
    k.same("dot product", r, r.v, a.dot(b))
    r = w.call("Vector2::<T>::cross", a.v, b.v)
    k.same("cross product", r, r.v, a.cross(b))
    r = w.call("Vector2::<T>::length", a.v)
    k.same("length is the Euclidean norm", r, r.v, a.length())
    r = w.call("Vector2::<T>::normalize", a.v)
    L = a.length()
    short = LT(L, NEPS)
    ptcmp(k, "normalize divides by the length, and keeps vectors shorter than the tolerance", r, w.rdv(r.v), Pt(ITE(short, a.x, a.x / L), ITE(short, a.y, a.y / L)))
    k.nopanic("normalize never panics", r)
    r = w.tcall("Vector2", "PartialEq", "eq", a.v, b.v)
    k.same("vector equality is coordinate-wise tolerance equality", r, r.v, AND(near(a.x, b.x), near(a.y, b.y)))
    # algebraic laws of the summaries themselves
    X = w.val("Vector2::<T>::cross", b.v, a.v)
    Y = w.call("Vector2::<T>::cross", a.v, b.v)
    k.same("cross is antisymmetric", Y, Y.v, -X)
    D = w.val("Vector2::<T>::dot", b.v, a.v)
    Y = w.call("Vector2::<T>::dot", a.v, b.v)
    k.same("dot is symmetric", Y, Y.v, D)
    sm = w.tval("Vector2", "Add", "add", a.v, b.v)
    r = w.tcall("Vector2", "Sub", "sub", sm, b.v)
    ptcmp(k, "(a+b)-b is a", r, w.rdv(r.v), a)
    r = w.call("Vector2::<T>::radian_to", a.v, b.v)
    d = Atan2(b.y, b.x) - Atan2(a.y, a.x)
    k.same("radian_to is the counter-clockwise angle from self to other in [0, 2pi)", r, r.v, ITE(LT(d, 0), d + 2 * NPI, d), AND(OR(NOT(EQ(a.x, 0)), NOT(EQ(a.y, 0))), OR(NOT(EQ(b.x, 0)), NOT(EQ(b.y, 0)))))
