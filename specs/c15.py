from base import *

FLOOR = 8
PRJ = "algorithm::projection::"


def run(k):
    k.rules = ["the projection on a line or segment is the nearest point of its line", "a segment has a projection exactly when the foot of the perpendicular lies within it"]
    k.group("line", lambda: line(k))
    k.group("segment", lambda: segment(k))


def line(k):
    w = W(k)
    p, l = w.pt("p"), w.line("l")
    r = w.call(PRJ + "point_2_line_2::point_2_project_line_2", p.v, l.v)
    q = w.rd(r.v)
    res = (l.a * p.x + l.b * p.y + l.c) / (l.a * l.a + l.b * l.b)
    want = Pt(p.x - l.a * res, p.y - l.b * res)
    za, zb = near(l.a, 0), near(l.b, 0)
    ptcmp(k, "the projection on a line in general position is the foot of the perpendicular", r, q, want, pre=AND(NOT(za), NOT(zb)))
    ptcmp(k, "the projection on a vertical line keeps the ordinate", r, q, Pt(-l.c / l.a, p.y), pre=AND(NOT(za), zb))
    ptcmp(k, "the projection on a horizontal line keeps the abscissa", r, q, Pt(p.x, -l.c / l.b), pre=AND(za, NOT(zb)))
    k.nopanic("projecting on a line never panics", r, pre=NOT(AND(za, zb)))
    k.pure("projecting on a line has no side effect", r)


def segment(k):
    w = W(k)
    p, g = w.pt("p"), w.seg("s")
    r = w.call(PRJ + "point_2_line_segment_2::point_2_project_line_segment_2", p.v, g.v, env={1: KIND["L"]})
    v, u = g.t - g.s, p - g.s
    c1, c2 = u.dot(v), v.len2()
    proper = GT(c2, 0)
    some = cleanb(cond_of(r.v, lambda x: x.k == "enum" and x.a[1] == 1))
    k.same("a foot strictly inside the segment is returned", r, some, TRUE, pre=AND(proper, GE(c1, 0), LE(c1, c2)))
    k.same("a foot outside the segment by more than the tolerance is not returned", r, some, FALSE, pre=AND(proper, OR(LT(c1, -NEPS), GT(c1, c2 + NEPS))))
    t = c1 / c2
    q = w.rd(w.cx.field(r.v, ("v", 1, 0)))
    foot = Pt(g.s.x + v.x * t, g.s.y + v.y * t)
    ptcmp(k, "the projection on a segment is the foot of the perpendicular on its line", r, q, foot, pre=AND(some, proper))
    k.nopanic("projecting on a segment never panics", r)
    k.pure("projecting on a segment has no side effect", r)
    rev = w.segof(g.t, g.s)
    r2 = w.call(PRJ + "point_2_line_segment_2::point_2_project_line_segment_2", p.v, rev.v, env={1: KIND["L"]})
    q2 = w.rd(w.cx.field(r2.v, ("v", 1, 0)))
    k.same("reversing the segment does not change whether there is a projection", r, cleanb(cond_of(r2.v, lambda x: x.k == "enum" and x.a[1] == 1)), some, pre=AND(proper, GE(c1, 0), LE(c1, c2)))
