from base import *

FLOOR = 14
INT = "algorithm::intersection::"
PRJ = "algorithm::projection::"
LOC = "algorithm::location::"
SWM = INT + "sweep_segment_2_intersection::"


def run(k):
    k.rules = ["a square root is only taken of a number that cannot be negative on that path, a division only made by one that cannot be zero, an arc cosine only taken within [-1, 1], for all inputs that are proper figures: distinct ends, non-zero directions and normals, positive radii"]
    for n, f in (("lengths", lengths), ("lines", lines), ("projections", projections), ("segments and rays", straight), ("circles", circles), ("arcs", arcs), ("sweep", sweep), ("areas and turns", areas)):
        k.group(n, lambda f=f: f(k))


def world(k, uf=()):
    w = W(k, uf)
    w.cx.domain = True
    return w


def dom(k, name, r, pre=TRUE, sampler=None):
    """no partial function of the reals leaves its domain on any path"""
    n = len({s for _, s in r.cx.domained})
    r.pan = [p for p in r.pan if p[3].startswith("domain: ")]
    st = k.nopanic("%s: every square root, division and arc cosine is within its domain" % name, r, pre=pre, sampler=sampler)
    r.cx.domained.clear()
    return st


def apart(a, b):
    return OR(GE(Abs(a.x - b.x), NEPS), GE(Abs(a.y - b.y), NEPS))


def lengths(k):
    w = world(k)
    p, q, u, v = w.pt("p"), w.pt("q"), w.vec("u"), w.vec("v")
    dom(k, "distance of points", w.call("Point2::<T>::distance", p.v, q.v))
    dom(k, "length of a vector", w.call("Vector2::<T>::length", u.v))
    dom(k, "normalising a vector", w.call("Vector2::<T>::normalize", u.v))
    dom(k, "angle between vectors", w.call("Vector2::<T>::radian_to", u.v, v.v))
    dom(k, "building a ray", w.call("Ray2::<T>::new", p.v, u.v))


def lines(k):
    w = world(k)
    p, q = w.pt("p"), w.pt("q")
    dom(k, "the line through two points", w.call("Line2::<T>::from_points", p.v, q.v))
    a, b = w.line("a"), w.line("b")
    dom(k, "intersection of lines", w.call(INT + "line_2_line_2::line_2_line_2_intersection", a.v, b.v))
    dom(k, "equality of lines", w.tcall("Line2", "PartialEq", "eq", a.v, b.v))
    ray = w.ray("r")
    dom(k, "intersection of a line and a ray", w.call(INT + "line_2_ray_2::line_2_ray_2_intersection", a.v, ray.v), pre=normal(a))


def normal(l):
    return OR(GE(Abs(l.a), NEPS), GE(Abs(l.b), NEPS))


def projections(k):
    w = world(k)
    p, l, g = w.pt("p"), w.line("l"), w.seg("s")
    dom(k, "projection on a line", w.call(PRJ + "point_2_line_2::point_2_project_line_2", p.v, l.v), pre=normal(l))
    dom(k, "projection on a segment", w.call(PRJ + "point_2_line_segment_2::point_2_project_line_segment_2", p.v, g.v, env={1: KIND["L"]}), pre=apart(g.s, g.t))


def straight(k):
    w = world(k)
    g, h, ray = w.seg("s"), w.seg("t"), w.ray("r")
    E = {1: KIND["L"], 2: KIND["L"]}
    pre = AND(apart(g.s, g.t), apart(h.s, h.t))
    for n in ("is_line_segment_2_line_segment_2_intersected", "line_segment_2_line_segment_2_intersection"):
        dom(k, n, w.call(INT + "line_segment_2_line_segment_2::" + n, g.v, h.v, env=E), pre=pre)
    for n in ("is_line_segment_2_ray_2_intersected", "line_segment_2_ray_2_intersection"):
        dom(k, n, w.call(INT + "line_segment_2_ray_2::" + n, g.v, ray.v, env={1: KIND["L"]}), pre=apart(g.s, g.t))
    p = w.pt("p")
    for n in ("locate_point_2_line_segment_2", "is_point_2_on_line_segment_2"):
        dom(k, n, w.call(LOC + "point_2_line_segment_2::" + n, p.v, g.v, env={1: KIND["L"]}))


def circles(k):
    w = world(k)
    g, a, b, p = w.seg("s"), w.circle("a"), w.circle("b"), w.pt("p")
    pos = AND(GE(a.r, NEPS), GE(b.r, NEPS))
    for n in ("is_line_segment_2_circle_segment_2_intersected", "line_segment_2_circle_segment_2_intersection"):
        dom(k, n, w.call(INT + "line_segment_2_circle_segment_2::" + n, g.v, a.v, env={1: KIND["L"], 2: KIND["C"]}), pre=AND(pos, apart(g.s, g.t)))
    for n in ("is_circle_segment_2_circle_segment_2_intersected", "circle_segment_2_circle_segment_2_intersection"):
        dom(k, n, w.call(INT + "circle_segment_2_circle_segment_2::" + n, a.v, b.v, env={1: KIND["C"], 2: KIND["C"]}), pre=pos)
    dom(k, "locating in a circle", w.call(LOC + "point_2_circle_segment_2::locate_point_2_circle_segment_2", p.v, a.v, env={1: KIND["C"]}))
    dom(k, "pieces of a circle", w.call("CircleSegment2::<T>::monotone", a.v))


def arcs(k):
    w = world(k)
    a, p = w.arc("a"), w.pt("p")
    for n in ("source", "target"):
        dom(k, n + " of an arc", w.tcall("ArcSegment2", "Segment2", n, a.v))
    dom(k, "locating on an arc", w.call(LOC + "point_2_arc_segment_2::locate_point_2_arc_segment_2", p.v, a.v, env={1: KIND["A"]}), pre=GE(a.r, NEPS))


def sweep(k):
    g = world(k, [LOC + "point_2_arc_segment_2::is_point_2_on_arc_segment_2"])
    q = g.pt("q")
    for kind, v in (("L", g.seg("s").v), ("A", g.arc("a").v)):
        f = k.fn(SWM + "calculate_segment_value", optional=True)
        if f:
            dom(k, "height of a curve at the sweep line, which rounding may put beyond its end (%s)" % kind, g.call(f["p"], v, q.v, env={1: KIND[kind]}))
    f = k.fn(SWM + "calculate_slope", optional=True)
    if f:
        dom(k, "slope of a segment", g.call(f["p"], g.pt("a").v, q.v))
    f = k.fn(SWM + "calculate_tangent_slope", optional=True)
    if f:
        dom(k, "slope of a tangent", g.call(f["p"], g.pt("a").v, q.v))


def areas(k):
    w = world(k)
    t, p = w.tri(), w.pt("p")
    dom(k, "area of a triangle", w.call("Triangle2::<T>::area", t.v))
    dom(k, "turn of three points", w.call("Point2::<T>::turn", t.a.v, t.b.v, t.c.v))
    dom(k, "locating in a triangle", w.call(LOC + "point_2_triangle_2::locate_point_2_triangle_2", p.v, t.v))
