from base import *

FLOOR = 15
LOC = "algorithm::location::"


def run(k):
    k.rules = ["location relative to a directed line, segment or ray is decided by the cross product (side) and the projection (extent)", "each is-on predicate is exactly 'the location is On'"]
    k.group("line", lambda: line(k))
    k.group("segment", lambda: segment(k))
    k.group("ray", lambda: ray(k))


def line(k):
    w = W(k)
    p, l = w.pt("p"), w.line("l")
    en = lambda n: w.en("Point2Line2Location", n)
    res = l.a * p.x + l.b * p.y + l.c
    r = w.call(LOC + "point_2_line_2::locate_point_2_line_2", p.v, l.v)
    k.same("a point is on a line iff the line's equation vanishes there (within tolerance)", r, r.v, ITE(near(res, 0), en("On"), en("NotOn")))
    q = w.call(LOC + "point_2_line_2::is_point_2_on_line_2", p.v, l.v)
    k.same("is_point_2_on_line_2 is location == On", q, q.v, is_(r.v, en("On")))
    k.pure("locating on a line has no side effect", r)


def is_(v, *es):
    return cleanb(cond_of(v, lambda x: x in es))


def lseg(k, w, p, g):
    return w.call(LOC + "point_2_line_segment_2::locate_point_2_line_segment_2", p, g, env={1: KIND["L"]})


def segment(k):
    w = W(k)
    p, g = w.pt("p"), w.seg("s")
    en = lambda n: w.en("Point2Segment2Location", n)
    s, t = g.s, g.t
    ab, ac = t - s, p - s
    cr = ab.cross(ac)
    r = lseg(k, w, p.v, g.v)
    k.same("a point left of the directed segment is Left", r, is_(r.v, en("Left")), GT(cr, NEPS))
    k.same("a point right of the directed segment is Right", r, is_(r.v, en("Right")), LT(cr, -NEPS))
    flat = AND(NOT(GT(cr, NEPS)), NOT(LT(cr, -NEPS)))
    inside = between(ab.dot(ac), 0, ab.len2())
    k.same("a collinear point between the end points is On", r, r.v, en("On"), pre=AND(flat, inside))
    beyond = OR(GT(ab.dot(ac), ab.len2() + NEPS), LT(ab.dot(ac), -NEPS))
    k.same("a collinear point beyond an end point is Collinear", r, r.v, en("Collinear"), pre=AND(flat, beyond))
    for n, e in (("source", s), ("target", t)):
        q = lseg(k, w, e.v, g.v)
        k.same("the %s of a segment is On it" % n, q, q.v, en("On"))
    rev = w.segof(t, s)
    q = lseg(k, w, p.v, rev.v)
    swap = {en("Left"): en("Right"), en("Right"): en("Left")}
    k.same("reversing a segment swaps Left and Right and keeps On and Collinear", r, q.v, bind(r.v, lambda x: BOT if x is BOT else swap.get(x, x)))
    lam = nsym("lambda")
    L2 = ab.len2()
    for e, sg in ((t, 1), (s, -1)):  # just beyond an end
        b = w.pt(e.x + ab.x * lam * NEPS / L2 * sg, e.y + ab.y * lam * NEPS / L2 * sg)
        u, v = lseg(k, w, b.v, g.v), lseg(k, w, b.v, rev.v)
        k.same("reversing a segment changes nothing just beyond its %s" % ("target" if sg > 0 else "source"), u, v.v, bind(u.v, lambda x: BOT if x is BOT else swap.get(x, x)), pre=AND(GT(lam, 0), LT(lam, 1), GT(L2, 1)), sampler=lam_sampler)
    d = w.pt("d")
    sh = lambda a: Pt(a.x + d.x, a.y + d.y, w.val("Point2::<T>::new", a.x + d.x, a.y + d.y))
    q = lseg(k, w, sh(p).v, w.segof(sh(s), sh(t)).v)
    k.same("location on a segment is invariant under translation", r, q.v, r.v)
    q = w.call(LOC + "point_2_line_segment_2::is_point_2_on_line_segment_2", p.v, g.v, env={1: KIND["L"]})
    k.same("is_point_2_on_line_segment_2 is location == On", q, q.v, is_(r.v, en("On")))
    k.nopanic("locating on a segment never panics", r)
    k.pure("locating on a segment has no side effect", r)


def ray(k):
    w = W(k)
    p, y = w.pt("p"), w.ray()
    en = lambda n: w.en("Point2Ray2Location", n)
    v = p - y.o
    cr, dt = y.d.cross(v), y.d.dot(v)
    at = peq(p, y.o)
    r = w.call(LOC + "point_2_ray_2::locate_point_2_ray_2", p.v, y.v)
    k.same("the origin of a ray is On it", r, r.v, en("On"), pre=at)
    on = AND(GT(dt, 0), near(cr, 0))
    k.same("a point is On a ray iff it lies on its line, on the forward side (or at the origin)", r, is_(r.v, en("On")), OR(at, on))
    off = NOT(OR(at, on))
    k.same("a point left of a ray is Left", r, is_(r.v, en("Left")), GT(cr, NEPS), pre=off)
    k.same("a point right of a ray is Right", r, is_(r.v, en("Right")), LT(cr, -NEPS), pre=off)
    k.same("a point behind the origin on the ray's line is Collinear", r, r.v, en("Collinear"), pre=AND(off, near(cr, 0)))
    q = w.call(LOC + "point_2_ray_2::is_point_2_on_ray_2", p.v, y.v)
    k.same("is_point_2_on_ray_2 is location == On", q, q.v, is_(r.v, en("On")))
    k.nopanic("locating on a ray never panics", r)
    k.pure("locating on a ray has no side effect", r)
