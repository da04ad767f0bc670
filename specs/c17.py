from base import *

FLOOR = 4
INT = "algorithm::intersection::"
SS = INT + "line_segment_2_line_segment_2::"
SR = INT + "line_segment_2_ray_2::"
LOC = "algorithm::location::"


def run(k):
    k.rules = ["two segments intersect exactly when neither lies strictly on one side of the other's line (and, if parallel, when they share an end point of one)", "the intersection is the crossing point, or the end points lying on the other segment, each once and in sweep order", "a segment and a ray meet where the segment crosses the ray's line on the forward side"]
    k.group("segment-segment", lambda: ss(k))
    k.group("segment-ray", lambda: sr(k))


def on_seg(w, p, s, t):
    return w.val(LOC + "point_2_line_segment_2::is_point_2_on_line_segment_2", p.v, w.segof(s, t).v, env={1: KIND["L"]})


def ss(k):
    E2 = {1: KIND["L"], 2: KIND["L"]}
    w = W(k)
    g, h = w.seg("s"), w.seg("t")
    a, b, c, d = g.s, g.t, h.s, h.t
    p = w.call(SS + "is_line_segment_2_line_segment_2_intersected", g.v, h.v, env=E2)
    r = w.call(SS + "line_segment_2_line_segment_2_intersection", g.v, h.v, env=E2)
    side = lambda x, y: OR(AND(GT(x, NEPS), GT(y, NEPS)), AND(LT(x, -NEPS), LT(y, -NEPS)))
    apart = OR(side(orient(a, b, c), orient(a, b, d)), side(orient(c, d, a), orient(c, d, b)))
    par = near((b - a).cross(d - c), 0)
    ons = [(on_seg(w, a, c, d), a), (on_seg(w, b, c, d), b), (on_seg(w, c, a, b), c), (on_seg(w, d, a, b), d)]
    pred = ITE(apart, FALSE, ITE(par, OR(*[x for x, _ in ons]), TRUE))
    t = (c - a).cross(d - c) / (b - a).cross(d - c)
    X = w.val("Point2::<T>::new", a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t)
    ends = pushes(*[(x, q.v) for x, q in ons])
    direct = ITE(pred, bind(ends, lambda s: s if s is BOT or s.k != "seqlit" or s.a else seqlit(X)), EMPTY)
    direct = ITE(pred, ITE(OR(*[x for x, _ in ons]), sortdedup(w, ends), bind(X, lambda x: BOT if x is BOT else seqlit(x))), EMPTY)

    def cases():
        w2 = W(k)
        I = lambda a, b, c, d: w2.call(SS + "line_segment_2_line_segment_2_intersection", w2.segof(a, b).v, w2.segof(c, d).v, env=E2)
        B = lambda a, b, c, d: w2.call(SS + "is_line_segment_2_line_segment_2_intersected", w2.segof(a, b).v, w2.segof(c, d).v, env=E2)
        a, b, c, d = (w2.pt(n) for n in "abcd")
        lam, mu = nsym("lambda"), nsym("mu")
        at = lambda l: w2.pt(a.x + (b.x - a.x) * l, a.y + (b.y - a.y) * l)
        lit = lambda *ps: pushes(*[(TRUE, q.v) for q in ps])
        long = GT((b - a).len2(), 1)
        o = [orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)]
        gen = AND(*[GT(Abs(x) * 8, 1) for x in o])
        cross = AND(LT(o[0] * o[1], 0), LT(o[2] * o[3], 0))
        t = (c - a).cross(d - c) / (b - a).cross(d - c)
        X = w2.pt(a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t)
        yield I, B, (a, b, c, d), lit(X), AND(gen, cross)
        yield I, B, (a, b, c, d), EMPTY, AND(gen, NOT(cross))
        off = lambda q: GT(Abs(orient(a, b, q)), 1)
        ins = lambda l: AND(GT(l * 8, 1), LT(l * 8, 7))
        out = lambda l: OR(LT(l * 8, -1), GT(l * 8, 9))
        ab = lambda *q: (a, b) + q
        m = at(lam)
        for sw in (0, 1, 2):
            e = [(a, b, m, d), (m, d, a, b), (b, a, d, m)][sw]
            yield I, B, e, lit(m), AND(long, off(d), ins(lam))
            yield I, B, e, EMPTY, AND(long, off(d), out(lam))
        for q in (a, b):
            yield I, B, (a, b, q, d), lit(q), AND(long, off(d))
            yield I, B, (a, b, d, q), lit(q), AND(long, off(d))
        sh = w2.pt(c.x + (b.x - a.x) * mu, c.y + (b.y - a.y) * mu)
        yield I, B, (a, b, c, sh), EMPTY, AND(long, off(c), GT(Abs(mu) * 8, 1))
        n = at(mu)
        big, neg = (lambda l: GT(l * 8, 9)), (lambda l: LT(l * 8, -1))
        far = GT(Abs(lam - mu) * 8, 1)
        yield I, B, (a, b, m, n), lit(m, b), AND(long, ins(lam), big(mu))
        yield I, B, (a, b, m, n), lit(m, a), AND(long, ins(lam), neg(mu))
        yield I, B, (a, b, n, m), lit(m, a), AND(long, ins(lam), neg(mu))
        yield I, B, (a, b, m, n), lit(m, n), AND(long, ins(lam), ins(mu), far)
        yield I, B, (a, b, m, n), lit(a, b), AND(long, neg(lam), big(mu))
        yield I, B, (a, b, m, n), EMPTY, AND(long, far, OR(AND(neg(lam), neg(mu)), AND(big(lam), big(mu))))
        yield I, B, (a, b, b, n), lit(b), AND(long, big(mu))
        yield I, B, (a, b, b, n), lit(b, n), AND(long, ins(mu))
        yield I, B, (a, b, b, a), lit(a, b), long

    def inter():
        for I, B, e, want, pre in cases():
            g = I(*e)
            yield g, g.v, want, pre, lam_sampler, setrel

    def predi():
        for I, B, e, want, pre in cases():
            g = B(*e)
            yield g, g.v, mkbool(want is not EMPTY), pre, lam_sampler

    k.proved_or("two segments intersect exactly when they share a point", p, p.v, [pred], predi)
    k.proved_or("the intersection of two segments is the set of the crossing point or shared end points, each once", r, r.v, [direct], inter)
    k.nopanic("testing two segments never panics", p)
    k.nopanic("intersecting two segments never panics", r)
    k.pure("intersecting two segments has no side effect", r)


def sr(k):
    w = W(k)
    g, y = w.seg("s"), w.ray()
    p = w.call(SR + "is_line_segment_2_ray_2_intersected", g.v, y.v)
    r = w.call(SR + "line_segment_2_ray_2_intersection", g.v, y.v)
    en = lambda n: w.en("Point2Ray2Location", n)
    loc = lambda q: w.val(LOC + "point_2_ray_2::locate_point_2_ray_2", q.v, y.v)
    is_ = lambda v, n: cleanb(cond_of(v, lambda x: x is en(n)))
    ls, lt_ = loc(g.s), loc(g.t)
    v1, v2 = g.t - g.s, g.s - y.o
    t = v2.cross(v1) / y.d.cross(v1)
    X = w.val("Point2::<T>::new", y.o.x + y.d.x * t, y.o.y + y.d.y * t)
    opposite = OR(AND(is_(ls, "Left"), is_(lt_, "Right")), AND(is_(ls, "Right"), is_(lt_, "Left")))
    direct = pushes((is_(ls, "On"), g.s.v), (is_(lt_, "On"), g.t.v), (AND(opposite, GE(t, 0)), X))

    def cases():
        w2 = W(k)
        a, b, o, d = (w2.pt(n) for n in ("a", "b", "o", "d"))
        L = d.length()
        ray = w2.val("Ray2::<T>::new", o.v, w2.val("Vector2::<T>::new", d.x, d.y))
        I = lambda s, t: w2.call(SR + "line_segment_2_ray_2_intersection", w2.segof(s, t).v, ray)
        B = lambda s, t: w2.call(SR + "is_line_segment_2_ray_2_intersected", w2.segof(s, t).v, ray)
        lit = lambda *ps: pushes(*[(TRUE, q.v) for q in ps])
        oa, ob = d.cross(a - o) / L, d.cross(b - o) / L
        fat = GT(L * 4, 1)
        t = (a - o).cross(b - a) / d.cross(b - a)
        X = w2.pt(o.x + d.x * t, o.y + d.y * t)
        gen = AND(fat, GT(Abs(oa) * 8, 1), GT(Abs(ob) * 8, 1))
        hit = AND(LT(oa * ob, 0), GT(t * 8, 1))
        yield I, B, (a, b), lit(X), AND(gen, hit)
        yield I, B, (a, b), EMPTY, AND(gen, OR(GT(oa * ob, 0), LT(t * 8, -1)))
        lam, mu = nsym("lambda"), nsym("mu")
        at = lambda l: w2.pt(o.x + d.x * l, o.y + d.y * l)
        m, n = at(lam), at(mu)
        offb = GT(Abs(ob) * 8, 1)
        fwd, bwd = (lambda l: GT(l * 8, 1)), (lambda l: LT(l * 8, -1))
        for s, e in ((m, b), (b, m)):
            yield I, B, (s, e), lit(m), AND(fat, offb, fwd(lam))
            yield I, B, (s, e), EMPTY, AND(fat, offb, bwd(lam))
        yield I, B, (m, n), lit(m, n), AND(fat, fwd(lam), fwd(mu), GT(Abs(lam - mu) * 8, 1))
        yield I, B, (m, n), EMPTY, AND(fat, bwd(lam), bwd(mu))
        # through the origin itself: the first point of the ray belongs to it
        e1, e2 = w2.pt(o.x + a.x, o.y + a.y), w2.pt(o.x - a.x, o.y - a.y)
        yield I, B, (e1, e2), lit(o), AND(fat, GT(Abs(d.cross(a) / L) * 8, 1))

    def inter():
        for I, B, e, want, pre in cases():
            yield late(lambda I=I, e=e: I(*e), lambda q, want=want, pre=pre: (q, q.v, want, pre, lam_sampler, setrel))

    def predi():
        for I, B, e, want, pre in cases():
            yield late(lambda B=B, e=e: B(*e), lambda q, want=want, pre=pre: (q, q.v, mkbool(want is not EMPTY), pre, lam_sampler))

    k.proved_or("a segment and a ray meet where the segment crosses the ray's line ahead of the origin, or in an end point", r, r.v, [direct], inter)
    k.proved_or("the predicate of a segment and a ray holds iff the intersection is not empty", p, p.v, [NOT(EQ(seq_len(r.v), 0))], predi)
    k.nopanic("intersecting a segment with a ray never panics", r)
    k.pure("intersecting a segment with a ray has no side effect", r)
