from base import *

FLOOR = 8


def run(k):
    k.rules = ["the line built from two points has zero residual at the first point, residual within tolerance at the second, and a non-zero normal", "line equality is proportionality of the coefficient triples"]
    k.group("from_points", lambda: fp(k))
    k.group("equality", lambda: eq(k))


def fp(k):
    w = W(k)
    s, e = w.pt("s"), w.pt("e")
    r = w.call("Line2::<T>::from_points", s.v, e.v)
    a, b, c = (w.val("Line2::<T>::" + n, r.v) for n in "abc")
    diff = NOT(AND(near(s.x, e.x), near(s.y, e.y)))
    k.same("the line passes through its first point", r, a * s.x + b * s.y + c, ZERO)
    res = a * e.x + b * e.y + c
    k.holds("the line passes through its second point within tolerance", r, near(res, 0), pre=diff)
    gen = NOT(OR(near(s.x, e.x), near(s.y, e.y)))
    k.same("the line passes exactly through its second point unless axis-parallel", r, res, ZERO, pre=gen)
    k.holds("the line has a non-zero normal", r, NOT(AND(EQ(a, 0), EQ(b, 0))))
    k.same("points on one vertical give a vertical line", r, b, ZERO, pre=near(s.x, e.x))
    k.same("points on one horizontal give a horizontal line", r, a, ZERO, pre=AND(near(s.y, e.y), NOT(near(s.x, e.x))))
    k.nopanic("from_points never panics", r)


def eq(k):
    w = W(k)
    l, m = w.line("l"), w.line("m")
    for n in "abc":
        r = w.call("Line2::<T>::" + n, l.v)
        k.same("%s() is the coefficient the line was built from" % n, r, r.v, getattr(l, n))
    r = w.tcall("Line2", "PartialEq", "eq", l.v, m.v)
    k.same("lines are equal iff all three 2x2 minors vanish within tolerance", r, r.v, AND(near(l.a * m.b - l.b * m.a, 0), near(l.c * m.b - l.b * m.c, 0), near(l.a * m.c - l.c * m.a, 0)))
    q = w.tval("Line2", "PartialEq", "eq", m.v, l.v)
    k.same("line equality is symmetric", r, q, r.v)
    t = nsym("t")
    m2 = w.val("Line2::<T>::new", l.a * t, l.b * t, l.c * t)
    q = w.tcall("Line2", "PartialEq", "eq", l.v, m2)
    k.same("a line equals itself under any scaling of its equation", q, q.v, TRUE)
