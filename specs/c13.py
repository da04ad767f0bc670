from base import *

FLOOR = 10
LOC = "algorithm::location::"


def run(k):
    k.rules = ["location on a circle is the comparison of the distance with the radius within tolerance", "a point is on an arc iff it is on the arc's circle and its angle lies between the arc's angles, end points included"]
    k.group("circle", lambda: circle(k))
    k.group("arc", lambda: arc(k))


def is_(v, *es):
    return cleanb(cond_of(v, lambda x: x in es))


def circle(k):
    w = W(k)
    p, c = w.pt("p"), w.circle("c")
    en = lambda n: w.en("Point2Circle2Location", n)
    d = (p - c.c).length()
    on = near(d, c.r)
    r = w.call(LOC + "point_2_circle_segment_2::locate_point_2_circle_segment_2", p.v, c.v, env={1: KIND["C"]})
    k.same("a point is on a circle iff its distance from the centre is the radius, within tolerance; else Inside iff nearer", r, r.v, ITE(on, en("On"), ITE(LT(d, c.r), en("Inside"), en("Outside"))))
    k.nopanic("locating on a circle never panics", r)
    k.pure("locating on a circle has no side effect", r)
    q = w.call(LOC + "point_2_circle_segment_2::is_point_2_on_circle_segment_2", p.v, c.v)
    k.same("is_point_2_on_circle_segment_2 is location == On", q, q.v, is_(r.v, en("On")))
    a = w.arc()
    q = w.call(LOC + "point_2_circle_segment_2::locate_point_2_circle_segment_2", p.v, a.v, env={1: KIND["A"]})
    d = (p - a.c).length()
    k.same("the circle location of an arc is that of its circle", q, q.v, ITE(near(d, a.r), en("On"), ITE(LT(d, a.r), en("Inside"), en("Outside"))))


def ang(w, a, b):
    """the counter-clockwise angle from vector a to vector b (C02)"""
    return w.val("Vector2::<T>::radian_to", a, b)


def arc(k):
    w = W(k)
    p, a = w.pt("p"), w.arc()
    en = lambda n: w.en("Point2ArcSegment2Location", n)
    f = LOC + "point_2_arc_segment_2::locate_point_2_arc_segment_2"
    r = w.call(f, p.v, a.v, env={1: KIND["A"]})
    V2 = lambda q: w.val("Vector2::<T>::new", q.x, q.y)
    s = w.rd(w.tval("ArcSegment2", "Segment2", "source", a.v)) - a.c
    t = w.rd(w.tval("ArcSegment2", "Segment2", "target", a.v)) - a.c
    v = p - a.c
    sv, tv, vv = V2(s), V2(t), V2(v)
    span = ITE(peq(s, t), NPI * 2, ang(w, sv, tv))
    ends = OR(*[near(ang(w, x, y), 0) for x, y in ((vv, sv), (vv, tv), (sv, vv), (tv, vv))])
    onc = near(v.length(), a.r)
    direct = AND(onc, OR(ends, near(ang(w, sv, vv) + ang(w, vv, tv), span)))

    def sem():
        """points on the circle at an arbitrary angle, away from the arc's ends by more than the tolerance bands"""
        for kind in ("inside the angle range", "outside"):
            w2 = W(k)
            b = w2.arc()
            th = nsym("p.radian")
            q = w2.pt(b.c.x + b.r * Cos(th), b.c.y + b.r * Sin(th))
            g = w2.call(f, q.v, b.v, env={1: KIND["A"]})
            e2 = lambda n: w2.en("Point2ArcSegment2Location", n)
            m = NEPS * 4
            ins = OR(*[AND(GT(th + NPI * (2 * j), b.sr + m), LT(th + NPI * (2 * j), b.tr - m)) for j in range(-3, 4)])
            out = AND(*[OR(LT(th + NPI * (2 * j), b.sr - m), GT(th + NPI * (2 * j), b.tr + m)) for j in range(-3, 4)])
            valid = AND(GE(b.sr, 0), LE(b.tr, NPI * 4), GT(b.tr - b.sr, m), LE(b.tr - b.sr, NPI * 2), GE(th, 0), LE(th, NPI * 2), GT(b.r, NEPS * 10))
            yield (g, g.v, e2("On") if kind[0] == "i" else e2("NotOn"), AND(valid, ins if kind[0] == "i" else out), ang_sampler)
            # an end angle below the start angle is reached past a full turn
            ins = OR(*[AND(GT(th + NPI * (2 * j), b.sr + m), LT(th + NPI * (2 * j), b.tr + NPI * 2 - m)) for j in range(-3, 5)])
            out = AND(*[OR(LT(th + NPI * (2 * j), b.sr - m), GT(th + NPI * (2 * j), b.tr + NPI * 2 + m)) for j in range(-3, 5)])
            wrap = AND(GE(b.tr, 0), LE(b.sr, NPI * 4), GT(b.sr - b.tr, m), LT(b.sr - b.tr, NPI * 2 - m), GE(th, 0), LE(th, NPI * 2), GT(b.r, NEPS * 10))
            yield (g, g.v, e2("On") if kind[0] == "i" else e2("NotOn"), AND(wrap, ins if kind[0] == "i" else out), ang_sampler)
        w2 = W(k)
        c, s0, th = w2.circle("c"), nsym("s.radian"), nsym("p.radian")
        full = w2.val("ArcSegment2::<T>::new", c.v, s0, s0 + NPI * 2)
        g = w2.call(f, w2.pt(c.c.x + c.r * Cos(th), c.c.y + c.r * Sin(th)).v, full, env={1: KIND["A"]})
        yield (g, g.v, w2.en("Point2ArcSegment2Location", "On"), AND(GT(c.r * 2, 1), GE(s0, 0), LE(s0, NPI), GE(th, 0), LE(th, NPI * 2)), ang_sampler)
        # off the circle by less than the tolerance
        w2 = W(k)
        b = w2.arc()
        th, off = nsym("p.radian"), nsym("p.offset")
        g = w2.call(f, w2.pt(b.c.x + (b.r + off) * Cos(th), b.c.y + (b.r + off) * Sin(th)).v, b.v, env={1: KIND["A"]})
        m = NEPS * 4
        near_ = AND(LT(off, NEPS), GT(off, -NEPS), GE(b.sr, 0), LE(b.tr, NPI * 4), GT(b.tr - b.sr, m), LE(b.tr - b.sr, NPI * 2), GE(th, 0), LE(th, NPI * 2), GT(b.r * 4, 1))
        ins = OR(*[AND(GT(th + NPI * (2 * j), b.sr + m), LT(th + NPI * (2 * j), b.tr - m)) for j in range(-3, 4)])
        yield (g, g.v, w2.en("Point2ArcSegment2Location", "On"), AND(near_, ins), ranges(p__offset=(-0.9e-4, 0.9e-4)))
        w2 = W(k)
        b, q = w2.arc(), w2.pt("p")
        g = w2.call(f, q.v, b.v, env={1: KIND["A"]})
        yield (g, g.v, w2.en("Point2ArcSegment2Location", "NotOn"), GT(Abs((q - b.c).length() - b.r), NEPS), ang_sampler)

    k.proved_or("a point is on an arc iff it is on its circle and between its angles", r, r.v, [ITE(direct, en("On"), en("NotOn"))], sem)
    for n, e in (("source", s), ("target", t)):
        pre = AND(GE(a.sr, 0), LT(a.sr, a.tr), LE(a.tr, NPI * 4))
        q = w.rd(w.tval("ArcSegment2", "Segment2", n, a.v))
        g = w.call(f, q.v, a.v, env={1: KIND["A"]})
        k.same("the %s of an arc is on the arc" % n, g, w.pos(g.v, a.r), en("On"), pre=pre, sampler=ang_sampler)
    q = w.call(LOC + "point_2_arc_segment_2::is_point_2_on_arc_segment_2", p.v, a.v, env={1: KIND["A"]})
    k.same("is_point_2_on_arc_segment_2 is location == On", q, q.v, is_(r.v, en("On")), sampler=ang_sampler)
    k.nopanic("locating on an arc never panics", r)
    k.pure("locating on an arc has no side effect", r)
