from base import *

FLOOR = 4
INT = "algorithm::intersection::"
SC = INT + "line_segment_2_circle_segment_2::"
LOC = "algorithm::location::"
E2 = {1: KIND["L"], 2: KIND["C"]}


def run(k):
    k.rules = ["a segment meets a circle in its On end points, in the crossing towards the outside end point, in the tangent foot, or in the two chord points around the foot of the centre", "the predicate holds exactly when one of these exists"]
    k.group("segment-circle", lambda: sc(k))


def sc(k):
    w = W(k)
    g, c = w.seg("s"), w.circle("c")
    s, t = g.s, g.t
    p = w.call(SC + "is_line_segment_2_circle_segment_2_intersected", g.v, c.v, env=E2)
    r = w.call(SC + "line_segment_2_circle_segment_2_intersection", g.v, c.v, env=E2)
    en = lambda n: w.en("Point2Circle2Location", n)
    loc = lambda q: w.val(LOC + "point_2_circle_segment_2::locate_point_2_circle_segment_2", q.v, c.v, env={1: KIND["C"]})
    is_ = lambda v, n: cleanb(cond_of(v, lambda x: x is en(n)))
    ls, lt_ = loc(s), loc(t)
    si, ti, so, to = is_(ls, "Inside"), is_(lt_, "Inside"), is_(ls, "On"), is_(lt_, "On")
    sx, tx = is_(ls, "Outside"), is_(lt_, "Outside")
    v = t - s
    PT = lambda x, y: w.val("Point2::<T>::new", x, y)
    r2 = c.r * c.r

    def leave(a, b):
        """the point in which the segment from the inside point a to b leaves the circle"""
        d = b - a
        m = (c.c - a).dot(d) / d.len2()
        f = Pt(a.x + d.x * m, a.y + d.y * m)
        h = Sqrt(r2 - dist(c.c, f) * dist(c.c, f))
        L = d.length()
        z = LT(L, NEPS)
        return PT(f.x + ITE(z, d.x, d.x / L) * h, f.y + ITE(z, d.y, d.y / L) * h)

    pr = w.val("algorithm::projection::point_2_line_segment_2::point_2_project_line_segment_2", c.c.v, g.v, env={1: KIND["L"]})
    has = cleanb(cond_of(pr, lambda x: x.k == "enum" and x.a[1] == 1))
    fv = w.cx.field(pr, ("v", 1, 0))
    f = w.rd(fv)
    lf = loc(f)
    h = Sqrt(r2 - dist(c.c, f) * dist(c.c, f))
    L = v.length()
    z = LT(L, NEPS)
    ux, uy = ITE(z, v.x, v.x / L), ITE(z, v.y, v.y / L)
    one = lambda q: bind(q, lambda x: BOT if x is BOT else seqlit(x))
    two = pushes((TRUE, PT(f.x + ux * h, f.y + uy * h)), (TRUE, PT(f.x - ux * h, f.y - uy * h)))
    ends = pushes((so, s.v), (AND(NOT(so), to), t.v))
    chord = ITE(has, ITE(is_(lf, "On"), one(fv), ITE(is_(lf, "Inside"), two, EMPTY)), ends)
    direct = ITE(AND(si, ti), EMPTY, ITE(AND(so, to), pushes((TRUE, s.v), (TRUE, t.v)), ITE(ti, one(leave(t, s)), ITE(si, one(leave(s, t)), chord))))
    meets = AND(has, OR(is_(lf, "On"), is_(lf, "Inside")))
    dpred = ITE(AND(si, ti), FALSE, ITE(OR(so, to, AND(si, tx), AND(sx, ti)), TRUE, meets))

    def cases():
        w2 = W(k)
        s, t, c = w2.pt("s"), w2.pt("t"), w2.circle("c")
        I = lambda a, b: w2.call(SC + "line_segment_2_circle_segment_2_intersection", w2.segof(a, b).v, c.v, env=E2)
        B = lambda a, b: w2.call(SC + "is_line_segment_2_circle_segment_2_intersected", w2.segof(a, b).v, c.v, env=E2)
        lit = lambda *ps: pushes(*[(TRUE, q.v) for q in ps])
        r = c.r
        valid = GE(r * 2, 1)
        ins = lambda q: LT(dist(c.c, q) + Q8, r)
        out = lambda q: GT(dist(c.c, q), r + Q8)

        def roots(a, b):
            d = b - a
            L2 = d.len2()
            m = (c.c - a).dot(d) / L2
            F = Pt(a.x + d.x * m, a.y + d.y * m)
            h2 = r * r - (c.c - F).len2()
            e = Sqrt(MAX(h2, 0)) / Sqrt(L2)
            return m, e, h2, F, w2.pt(F.x + d.x * e, F.y + d.y * e), w2.pt(F.x - d.x * e, F.y - d.y * e)
        m, e, h2, F, hi, lo = roots(s, t)
        long = GT((t - s).len2(), 1)
        yield I, B, (s, t), EMPTY, AND(valid, long, ins(s), ins(t))
        yield I, B, (s, t), lit(hi), AND(valid, long, ins(s), out(t))
        yield I, B, (t, s), lit(hi), AND(valid, long, ins(s), out(t))
        yield I, B, (s, t), lit(hi, lo), AND(valid, long, out(s), out(t), GT(h2, Q8), GT(m * 8, 1), LT(m * 8, 7))
        yield I, B, (s, t), EMPTY, AND(valid, long, out(s), out(t), OR(LT(h2, -Q8), LT(m * 8, -1), GT(m * 8, 9)))
        # tangents and end points on the circle
        th = nsym("t.radian")
        u = Pt(Cos(th), Sin(th))
        a, b = nsym("lambda"), nsym("mu")
        foot = w2.pt(c.c.x + u.x * r, c.c.y + u.y * r)
        on = lambda q: w2.pt(foot.x - u.y * q, foot.y + u.x * q)
        fwd = lambda q: GT(q * 2, 1)
        yield I, B, (on(a), on(-b)), lit(foot), AND(valid, fwd(a), fwd(b))
        yield I, B, (on(a), on(a + b)), EMPTY, AND(valid, fwd(a), fwd(b))
        ray = lambda q: w2.pt(c.c.x + u.x * (r + q), c.c.y + u.y * (r + q))
        yield I, B, (foot, ray(a)), lit(foot), AND(valid, fwd(a))
        yield I, B, (ray(a), foot), lit(foot), AND(valid, fwd(a))
        inn = w2.pt(c.c.x + u.x * r * Q8 * 4, c.c.y + u.y * r * Q8 * 4)
        yield I, B, (inn, foot), lit(foot), valid
        yield I, B, (foot, inn), lit(foot), valid
        anti = w2.pt(c.c.x - u.x * r, c.c.y - u.y * r)
        yield I, B, (foot, anti), lit(foot, anti), valid
        far = w2.pt(c.c.x - u.x * (r + a), c.c.y - u.y * (r + a))
        yield I, B, (foot, far), lit(foot, anti), AND(valid, fwd(a))
        yield I, B, (far, foot), lit(foot, anti), AND(valid, fwd(a))

    def inter():
        for I, B, e, want, pre in cases():
            yield late(lambda I=I, e=e: I(*e), lambda q, want=want, pre=pre: (q, q.v, want, pre, lam_sampler, setrel))

    def predi():
        for I, B, e, want, pre in cases():
            yield late(lambda B=B, e=e: B(*e), lambda q, want=want, pre=pre: (q, q.v, mkbool(want is not EMPTY), pre, lam_sampler))

    k.proved_or("a segment intersects a circle exactly when it has a point on it", p, p.v, [dpred], predi)
    k.proved_or("the intersection of a segment and a circle is the set of its points on the circle", r, r.v, [direct], inter)
    k.nopanic("testing a segment and a circle never panics", p)
    k.nopanic("intersecting a segment and a circle never panics", r)
    k.pure("intersecting a segment and a circle has no side effect", r)


Q8 = num(1) / 8


def dist(a, b):
    return (a - b).length()
