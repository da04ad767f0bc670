from base import *
from c18 import Q8, dist

FLOOR = 8
INT = "algorithm::intersection::"
LOC = "algorithm::location::"


def run(k):
    k.rules = ["the common points of an arc and another segment are the common points of its circle and the other that lie on the arc (and, for two arcs of one circle, the end points of either lying on the other, each once)", "each predicate is exactly 'there is a common point'"]
    k.group("segment-arc", lambda: la(k))
    k.group("circle-arc", lambda: ca(k))
    k.group("arc-arc", lambda: aa(k), seconds=330 if k.tier == "quick" else 1500)


def on_arc(w, p, a):
    v = w.val(LOC + "point_2_arc_segment_2::locate_point_2_arc_segment_2", p, a.v, env={1: KIND["A"]})
    return cleanb(cond_of(v, lambda x: x is w.en("Point2ArcSegment2Location", "On")))


# the pairwise results on full circles and the arc location are used through their own summaries (C13, C18, C19)
UF = [LOC + "point_2_arc_segment_2::locate_point_2_arc_segment_2", LOC + "point_2_circle_segment_2::locate_point_2_circle_segment_2",
      INT + "line_segment_2_circle_segment_2::line_segment_2_circle_segment_2_intersection", INT + "circle_segment_2_circle_segment_2::circle_segment_2_circle_segment_2_intersection"]


def filt(w, seq, *conds):
    """the elements of a sequence satisfying every condition"""
    return fmap(w, seq, lambda x: pushes((AND(*[c(x) for c in conds]), x)))


def nonempty(s):
    return NOT(EQ(seq_len(s), 0))


def circ_of(w, a):
    return w.val("CircleSegment2::<T>::new", a.c.v, a.r)


def la(k):
    w = W(k, UF)
    g, a = w.seg("s"), w.arc()
    f = INT + "line_segment_2_arc_segment_2::"
    env = {1: KIND["L"], 2: KIND["A"]}
    r = w.call(f + "line_segment_2_arc_segment_2_intersection", g.v, a.v, env=env)
    base = w.val(INT + "line_segment_2_circle_segment_2::line_segment_2_circle_segment_2_intersection", g.v, circ_of(w, a), env={1: KIND["L"], 2: KIND["C"]})
    want = filt(w, base, lambda p: on_arc(w, p, a))

    def cases():
        w2 = W(k, UF)
        b = w2.arc()
        s, th = w2.pt("s"), nsym("t.radian")
        q = w2.pt(b.c.x + b.r * Cos(th), b.c.y + b.r * Sin(th))
        u = nsym("lambda")
        ins, out, valid = angles(b, th)
        # radial segments through the circle at the angle th
        e1 = w2.pt(b.c.x + b.r * Cos(th) / 2, b.c.y + b.r * Sin(th) / 2)
        e2 = w2.pt(b.c.x + b.r * Cos(th) * 2, b.c.y + b.r * Sin(th) * 2)
        yield w2, b, (e1, e2), pushes((TRUE, q.v)), AND(valid, ins)
        yield w2, b, (e1, e2), EMPTY, AND(valid, out)
        yield w2, b, (e2, e1), pushes((TRUE, q.v)), AND(valid, ins)
        yield w2, b, (e1, q), pushes((TRUE, q.v)), AND(valid, ins)
        yield w2, b, (q, e2), EMPTY, AND(valid, out)

    def inter():
        for w2, b, e, wnt, pre in cases():
            yield late(lambda w2=w2, e=e, b=b: w2.call(f + "line_segment_2_arc_segment_2_intersection", w2.segof(*e).v, b.v, env=env), lambda q, wnt=wnt, pre=pre: (q, q.v, wnt, pre, ang_sampler, setrel))

    def predi():
        for w2, b, e, wnt, pre in cases():
            yield late(lambda w2=w2, e=e, b=b: w2.call(f + "is_line_segment_2_arc_segment_2_intersected", w2.segof(*e).v, b.v, env=env), lambda q, wnt=wnt, pre=pre: (q, q.v, mkbool(wnt is not EMPTY), pre, ang_sampler))
    k.proved_or("the common points of a segment and an arc are those of its circle that lie on the arc", r, r.v, [want], inter)
    p = w.call(f + "is_line_segment_2_arc_segment_2_intersected", g.v, a.v, env=env)
    k.proved_or("a segment and an arc intersect exactly when they have a common point", p, p.v, [nonempty(r.v)], predi)
    k.nopanic("intersecting a segment and an arc never panics", r)
    k.pure("intersecting a segment and an arc has no side effect", r)


def angles(b, th, m=None):
    m = Q8 if m is None else m
    ins = OR(*[AND(GT(th + NPI * (2 * j), b.sr + m), LT(th + NPI * (2 * j), b.tr - m)) for j in range(-3, 4)])
    out = AND(*[OR(LT(th + NPI * (2 * j), b.sr - m), GT(th + NPI * (2 * j), b.tr + m)) for j in range(-3, 4)])
    valid = AND(GE(b.sr, 0), LE(b.tr, NPI * 4), GT(b.tr - b.sr, m), LE(b.tr - b.sr, NPI * 2), GE(th, 0), LE(th, NPI * 2), GE(b.r * 2, 1))
    return ins, out, valid


SM = ranges(phi__radian=(0.26, 2.74), t__radian=(0, 6.28), arc__source_radian=(0, 6.3), arc__target_radian=(3, 12.5))


def ca(k):
    w = W(k, UF)
    c, a = w.circle("c"), w.arc()
    f = INT + "circle_segment_2_arc_segment_2::"
    env = {1: KIND["C"], 2: KIND["A"]}
    cc = INT + "circle_segment_2_circle_segment_2::circle_segment_2_circle_segment_2_intersection"
    r = w.call(f + "circle_segment_2_arc_segment_2_intersection", c.v, a.v, env=env)
    on_c = lambda p: cleanb(cond_of(w.val(LOC + "point_2_circle_segment_2::locate_point_2_circle_segment_2", p, c.v, env={1: KIND["C"]}), lambda x: x is w.en("Point2Circle2Location", "On")))
    base = w.val(cc, circ_of(w, a), c.v, env={1: KIND["C"], 2: KIND["C"]})
    base2 = w.val(cc, c.v, circ_of(w, a), env={1: KIND["C"], 2: KIND["C"]})
    wants = [filt(w, base, lambda p: on_arc(w, p, a), on_c), filt(w, base, lambda p: on_arc(w, p, a)), filt(w, base2, lambda p: on_arc(w, p, a))]

    def cases():
        w2 = W(k, UF)
        b = w2.arc()
        th, rc = nsym("t.radian"), nsym("c.radius")
        q = w2.pt(b.c.x + b.r * Cos(th), b.c.y + b.r * Sin(th))
        ins, out, valid = angles(b, th)
        valid = AND(valid, GE(rc * 2, 1))
        o = w2.pt(b.c.x + (b.r + rc) * Cos(th), b.c.y + (b.r + rc) * Sin(th))
        C = lambda o, rc: w2.val("CircleSegment2::<T>::new", o.v, rc)
        yield w2, b, C(o, rc), pushes((TRUE, q.v)), AND(valid, ins)
        yield w2, b, C(o, rc), EMPTY, AND(valid, out)
        # two crossings at the angles th +- phi
        phi = nsym("phi.radian")
        d = nsym("c.distance.radius")
        o2 = w2.pt(b.c.x + b.r * Cos(th), b.c.y + b.r * Sin(th))
        r2 = b.r * Sqrt(num(2) - Cos(phi) * 2)
        P = [w2.pt(b.c.x + b.r * Cos(th + phi * s), b.c.y + b.r * Sin(th + phi * s)) for s in (1, -1)]
        A = [angles(b, th + phi * s) for s in (1, -1)]
        v2 = AND(GE(b.sr, 0), LE(b.tr, NPI * 4), GT(b.tr - b.sr, Q8), LE(b.tr - b.sr, NPI * 2), GE(b.r * 2, 1), GT(phi, num(1) / 4), LT(phi, num(11) / 4), GE(th, 0), LE(th, NPI * 2))
        yield w2, b, C(o2, r2), pushes((TRUE, P[0].v), (TRUE, P[1].v)), AND(v2, A[0][0], A[1][0])
        yield w2, b, C(o2, r2), pushes((TRUE, P[0].v)), AND(v2, A[0][0], A[1][1])
        yield w2, b, C(o2, r2), pushes((TRUE, P[1].v)), AND(v2, A[0][1], A[1][0])
        yield w2, b, C(o2, r2), EMPTY, AND(v2, A[0][1], A[1][1])

    def inter():
        for w2, b, e, wnt, pre in cases():
            yield late(lambda w2=w2, e=e, b=b: w2.call(f + "circle_segment_2_arc_segment_2_intersection", e, b.v, env=env), lambda q, wnt=wnt, pre=pre: (q, q.v, wnt, pre, SM, setrel))

    def predi():
        for w2, b, e, wnt, pre in cases():
            yield late(lambda w2=w2, e=e, b=b: w2.call(f + "is_circle_segment_2_arc_segment_2_intersected", e, b.v, env=env), lambda q, wnt=wnt, pre=pre: (q, q.v, mkbool(wnt is not EMPTY), pre, SM))
    k.proved_or("the common points of a circle and an arc are those of the two circles that lie on the arc", r, r.v, wants, inter)
    p = w.call(f + "is_circle_segment_2_arc_segment_2_intersected", c.v, a.v, env=env)
    k.proved_or("a circle and an arc intersect exactly when they have a common point", p, p.v, [nonempty(r.v)], predi)
    k.nopanic("intersecting a circle and an arc never panics", r)
    k.pure("intersecting a circle and an arc has no side effect", r)


def aa(k):
    w = W(k, UF)
    a, b = w.arc("a"), w.arc("b")
    f = INT + "arc_segment_2_arc_segment_2::"
    env = {1: KIND["A"], 2: KIND["A"]}
    r = w.call(f + "arc_segment_2_arc_segment_2_intersection", a.v, b.v, env=env)
    base = w.val(INT + "circle_segment_2_circle_segment_2::circle_segment_2_circle_segment_2_intersection", circ_of(w, a), circ_of(w, b), env={1: KIND["C"], 2: KIND["C"]})
    end = lambda x, n: w.tval("ArcSegment2", "Segment2", n, x.v)
    es = [(end(x, n), y) for x, y in ((a, b), (b, a)) for n in ("source", "target")]
    ends = sortdedup(w, pushes(*[(on_arc(w, p, y), p) for p, y in es]))

    def f2(s):
        if s is BOT:
            return BOT
        return ITE(EQ(seq_len(s), 0), ends, filt(w, s, lambda p: on_arc(w, p, a), lambda p: on_arc(w, p, b)))
    want = bind(base, f2)

    def cases():
        w2 = W(k, UF)
        a = w2.arc("a")
        ph, sp = nsym("b.source_radian"), nsym("b.span_radian")
        r2 = nsym("b.radius")
        th = nsym("t.radian")
        mk_arc = lambda o, r, s, t: w2.val("ArcSegment2::<T>::new", w2.val("CircleSegment2::<T>::new", o.v, r), s, t)
        q = w2.pt(a.c.x + a.r * Cos(th), a.c.y + a.r * Sin(th))
        ins, out, valid = angles(a, th)
        # externally tangent at the angle th: the other arc is centred behind it and covers (or not) the tangent point
        S2 = ranges(b__span_radian=(0.51, 2.3), t__radian=(0, 6.28), a__source_radian=(0, 6.3), a__target_radian=(3, 12.5))
        o = w2.pt(a.c.x + (a.r + r2) * Cos(th), a.c.y + (a.r + r2) * Sin(th))
        v2 = AND(valid, GE(r2 * 2, 1), GT(sp, num(1) / 2), LT(sp, NPI))
        B1 = mk_arc(o, r2, th + NPI - sp, th + NPI + sp)
        B0 = mk_arc(o, r2, th + NPI + sp, th + NPI * 3 - sp)
        yield w2, (a.v, B1), pushes((TRUE, q.v)), AND(v2, ins, LT(sp * 4, NPI * 3)), S2
        yield w2, (B1, a.v), pushes((TRUE, q.v)), AND(v2, ins, LT(sp * 4, NPI * 3)), S2
        yield w2, (a.v, B1), EMPTY, AND(v2, out, LT(sp * 4, NPI * 3)), S2
        yield w2, (B0, a.v), EMPTY, AND(v2, out, LT(sp * 4, NPI * 3), LE(th + NPI * 3 - sp, NPI * 4)), S2
        yield w2, (B0, a.v), EMPTY, AND(v2, ins, LT(sp * 4, NPI * 3), LE(th + NPI * 3 - sp, NPI * 4)), S2
        yield w2, (a.v, B0), EMPTY, AND(v2, ins, LT(sp * 4, NPI * 3), LE(th + NPI * 3 - sp, NPI * 4)), S2
        c, r, s1, w1 = w2.pt("c"), nsym("c.radius"), nsym("s.source_radian"), nsym("w.width_radian")
        A = mk_arc(c, r, s1, s1 + w1)
        B = lambda s, t: mk_arc(c, r, s, t)
        t1 = s1 + w1
        half = AND(GE(s1, 0), GT(r * 2, 1), GT(sp * 4, 1), LT(sp * 4, 3), GT(w1, 1), LT(w1, NPI), LT(t1 + 1, NPI * 4))
        sm = ranges(b__span_radian=(0.26, 0.74), s__source_radian=(0, 9), w__width_radian=(1.01, 3.13))
        Z = lambda x: w2.pt(c.x + r * Cos(x), c.y + r * Sin(x)).v
        yield w2, (A, B(s1 + sp, t1 + sp)), pushes((TRUE, Z(s1 + sp)), (TRUE, Z(t1))), half, sm
        yield w2, (B(s1 + sp, t1 + sp), A), pushes((TRUE, Z(s1 + sp)), (TRUE, Z(t1))), half, sm
        yield w2, (A, B(s1 + sp, t1 - sp)), pushes((TRUE, Z(s1 + sp)), (TRUE, Z(t1 - sp))), AND(half, GT(w1, 2)), sm
        yield w2, (A, B(t1 + sp, t1 + 1)), EMPTY, half, sm
        yield w2, (A, B(t1, t1 + sp)), pushes((TRUE, Z(t1))), half, sm
        # each reaches over both ends of the other; each begins where the other ends; the same arc twice
        round_ = B(t1 - sp, s1 + NPI * 2 + sp)
        four = pushes((TRUE, Z(s1)), (TRUE, Z(t1)), (TRUE, Z(t1 - sp)), (TRUE, Z(s1 + sp)))
        turn = AND(half, GT(w1, 2), LE(s1, NPI))
        sm4 = ranges(b__span_radian=(0.26, 0.74), s__source_radian=(0, 3.1), w__width_radian=(2.01, 3.13))
        yield w2, (A, round_), four, turn, sm4
        yield w2, (round_, A), four, turn, sm4
        yield w2, (A, B(t1, s1 + NPI * 2)), pushes((TRUE, Z(s1)), (TRUE, Z(t1))), turn, sm4
        yield w2, (A, A), pushes((TRUE, Z(s1)), (TRUE, Z(t1))), half, sm
        # crossing circles: the second arc covers one or both of the crossings at the angles th +- phi of the first
        phi = nsym("phi.radian")
        ob = w2.pt(a.c.x + a.r * Cos(th), a.c.y + a.r * Sin(th))
        rb = a.r * Sqrt(num(2) - Cos(phi) * 2)
        P = [w2.pt(a.c.x + a.r * Cos(th + phi * s), a.c.y + a.r * Sin(th + phi * s)).v for s in (1, -1)]
        V = [angles(a, th + phi * s) for s in (1, -1)]
        at = [th + phi / 2 + NPI / 2, th - phi / 2 + NPI * 3 / 2]
        ok = AND(GE(a.sr, 0), LE(a.tr, NPI * 4), GT(a.tr - a.sr, Q8), LE(a.tr - a.sr, NPI * 2), GE(a.r * 2, 1), GT(phi, num(1) / 4), LT(phi, num(11) / 4), GE(th, NPI), LE(th, NPI * 2), GT(sp * 8, 1), LT(sp * 4, 1))
        sm5 = ranges(b__span_radian=(0.13, 0.24), t__radian=(3.15, 6.28), phi__radian=(0.26, 2.74), a__source_radian=(0, 6.3), a__target_radian=(3, 12.5))
        for j in (0, 1):
            one = mk_arc(ob, rb, at[j] - sp, at[j] + sp)
            yield w2, (a.v, one), pushes((TRUE, P[j])), AND(ok, V[j][0]), sm5
            yield w2, (one, a.v), EMPTY, AND(ok, V[j][1]), sm5
        both = mk_arc(ob, rb, at[0] - sp, at[1] + sp)
        yield w2, (a.v, both), pushes((TRUE, P[0]), (TRUE, P[1])), AND(ok, V[0][0], V[1][0]), sm5
        yield w2, (both, a.v), pushes((TRUE, P[0])), AND(ok, V[0][0], V[1][1]), sm5
        yield w2, (a.v, both), pushes((TRUE, P[1])), AND(ok, V[0][1], V[1][0]), sm5
        yield w2, (a.v, both), EMPTY, AND(ok, V[0][1], V[1][1]), sm5
        far = w2.pt(a.c.x + a.r * 3, a.c.y)
        yield w2, (a.v, mk_arc(far, a.r, a.sr, a.tr)), EMPTY, AND(valid), ang_sampler

    def inter():
        for w2, e, wnt, pre, sm in cases():
            yield late(lambda w2=w2, e=e: w2.call(f + "arc_segment_2_arc_segment_2_intersection", *e, env=env), lambda q, wnt=wnt, pre=pre, sm=sm: (q, q.v, wnt, pre, sm, setrel))

    def predi():
        for w2, e, wnt, pre, sm in cases():
            yield late(lambda w2=w2, e=e: w2.call(f + "is_arc_segment_2_arc_segment_2_intersected", *e, env=env), lambda q, wnt=wnt, pre=pre, sm=sm: (q, q.v, mkbool(wnt is not EMPTY), pre, sm))
    k.proved_or("the common points of two arcs are those of their circles lying on both, or the shared end points on one circle", r, r.v, [want], inter)
    p = w.call(f + "is_arc_segment_2_arc_segment_2_intersected", a.v, b.v, env=env)
    k.proved_or("two arcs intersect exactly when they have a common point", p, p.v, [nonempty(r.v)], predi)
    k.nopanic("intersecting two arcs never panics", r)
    k.pure("intersecting two arcs has no side effect", r)
