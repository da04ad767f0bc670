from base import *

FLOOR = 12


def run(k):
    k.rules = ["each point operation's value graph has the normal form of its definition over the coordinates"]
    k.group("points", lambda: points(k))
    k.group("vertices", lambda: vertices(k))


def points(k):
    w = W(k)
    a, b = w.pt("a"), w.pt("b")
    ptcmp(k, "a point's coordinates are those it was built from", w.last, w.rd(a.v), a)
    r = w.call("Point2::<T>::distance", a.v, b.v)
    k.same("distance is the Euclidean distance", r, r.v, (a - b).length())
    k.same("distance is symmetric", r, r.v, w.val("Point2::<T>::distance", b.v, a.v))
    r = w.call("Point2::<T>::equals", a.v, b.v)
    k.same("equals is coordinate-wise tolerance equality", r, r.v, peq(a, b))
    k.same("equals is symmetric", r, r.v, w.val("Point2::<T>::equals", b.v, a.v))
    r = w.call("Point2::<T>::equals", a.v, a.v)
    k.same("equals is reflexive", r, r.v, TRUE)
    r = w.tcall("Point2", "PartialEq", "eq", a.v, b.v)
    k.same("== is equals", r, r.v, peq(a, b))
    r = w.tcall("Point2", "Add", "add", a.v, b.v)
    ptcmp(k, "point + point is the vector of coordinate sums", r, w.rdv(r.v), a + b)
    r = w.tcall("Point2", "Sub", "sub", a.v, b.v)
    ptcmp(k, "point - point is the vector of coordinate differences", r, w.rdv(r.v), a - b)
    r = w.call("Point2::<T>::get_vector", a.v)
    ptcmp(k, "get_vector has the point's coordinates", r, w.rdv(r.v), a)


def vertices(k):
    w = W(k)
    n = [nsym(x) for x in ("a.x", "a.y", "b.x", "b.y")]
    a, b = w.val("Vertex2::<T>::new", n[0], n[1]), w.val("Vertex2::<T>::new", n[2], n[3])
    r = w.call("Vertex2::<T>::x", a)
    k.same("a vertex keeps its x", r, r.v, n[0])
    r = w.call("Vertex2::<T>::y", a)
    k.same("a vertex keeps its y", r, r.v, n[1])
    r = w.call("Vertex2::<T>::to_point", a)
    ptcmp(k, "to_point has the vertex's coordinates", r, w.rd(r.v), Pt(n[0], n[1]))
    r = w.call("Vertex2::<T>::equals", a, b)
    k.same("vertex equality is coordinate-wise tolerance equality", r, r.v, peq(Pt(n[0], n[1]), Pt(n[2], n[3])))
    r = w.tcall("Vertex2", "PartialEq", "eq", a, b)
    k.same("vertex == is equals", r, r.v, peq(Pt(n[0], n[1]), Pt(n[2], n[3])))
