from base import *
import math
from realize import Realizer, Unrealized
from compare import equal, canon

FLOOR = 20


def run(k):
    k.rules = ["circle and arc accessors, the arc normalisation, the end points, the upper-half test and the monotone decomposition equal their definitions"]
    k.group("circle", lambda: circle(k))
    k.group("arc", lambda: arc(k))
    k.group("normalise", lambda: norm(k))
    k.group("is_top", lambda: top(k))
    k.group("monotone", lambda: mono(k))


def circle(k):
    w = W(k)
    c = w.circle("c")
    r = w.tcall("CircleSegment2", "Segment2", "center", c.v)
    ptcmp(k, "a circle keeps its centre", r, w.rd(r.v), c.c)
    r = w.tcall("CircleSegment2", "Segment2", "radius", c.v)
    k.same("a circle keeps its radius", r, r.v, c.r)
    r = w.call("CircleSegment2::<T>::monotone", c.v)
    arcs = [w.val("ArcSegment2::<T>::new", c.v, num(a), num(b)) for a, b in ((ZERO, NPI), (NPI, NPI * 2))]
    k.same("a circle splits into its upper and its lower half", r, r.v, seqlit(*arcs))
    k.nopanic("splitting a circle never panics", r)


def get(w, v, n):
    return w.tval("ArcSegment2", "Segment2", n, v)


def arc(k):
    w = W(k)
    c = w.circle("c")
    s, t = nsym("s.radian"), nsym("t.radian")
    v = w.val("ArcSegment2::<T>::new", c.v, s, t)
    r = w.last
    ptcmp(k, "an arc keeps its circle's centre", r, w.rd(get(w, v, "center")), c.c)
    k.same("an arc keeps its circle's radius", r, get(w, v, "radius"), c.r)
    a = w.arc()
    for n, ang in (("source", a.sr), ("target", a.tr)):
        r = w.tcall("ArcSegment2", "Segment2", n, a.v)
        ptcmp(k, "the %s of an arc lies on its circle at the %s angle" % (n, n), r, w.rd(r.v), Pt(a.c.x + a.r * Cos(ang), a.c.y + a.r * Sin(ang)), sampler=ang_sampler)
        k.nopanic("%s never panics" % n, r)
    b = w.arc("b")
    r = w.tcall("ArcSegment2", "PartialEq", "eq", a.v, b.v)
    k.same("arcs are equal iff centre, radius and both angles agree", r, r.v, AND(peq(a.c, b.c), EQ(a.r, b.r), near(a.sr, b.sr), near(a.tr, b.tr)), sampler=ang_sampler)


def reduced(w, x):
    """x minus the least multiple of 4 pi that brings it to at most 4 pi (within tolerance)"""
    u = atom(("idx", "spec"), True, True)
    y = x - NPI * 4 * numatom(u)
    stop_eq = near(y, NPI * 4)
    stop_le = AND(NOT(stop_eq), NOT(GT(y, NPI * 4)))
    h, cs = close(w.cx, u, stop_eq, stop_le)
    return x - NPI * 4 * mkfidx(w.cx, INF, tuple(cs), h)


def norm(k):
    w = W(k)
    c = w.circle("c")
    s, t = nsym("s.radian"), nsym("t.radian")
    r = w.call("ArcSegment2::<T>::new", c.v, s, t)
    four = NPI * 4
    pre = AND(LE(s, four), LE(t, four))
    full = near(s, t)
    k.same("angles up to 4 pi are kept; equal angles mean the full circle (start)", r, get(w, r.v, "source_radian"), ITE(full, 0, s), pre=pre, sampler=ang_sampler)
    k.same("angles up to 4 pi are kept; equal angles mean the full circle (end)", r, get(w, r.v, "target_radian"), ITE(full, NPI * 2, t), pre=pre, sampler=ang_sampler)
    s2, t2 = reduced(w, s), reduced(w, t)
    k.same("larger start angles are reduced by whole multiples of 4 pi", r, get(w, r.v, "source_radian"), ITE(near(s2, t2), 0, s2), sampler=ang_sampler)
    k.same("larger end angles are reduced by whole multiples of 4 pi", r, get(w, r.v, "target_radian"), ITE(near(s2, t2), NPI * 2, t2), sampler=ang_sampler)
    k.nopanic("building an arc never panics", r)


def top(k):
    w = W(k)
    a = w.arc()
    r = w.call("ArcSegment2::<T>::is_top", a.v)
    s, t = a.sr, a.tr
    # monotone pieces: 0 <= s < t <= 4 pi inside one half turn
    for i in range(4):
        pre = AND(GE(s, NPI * i), LT(s, t), LE(t, NPI * (i + 1)), GT(t - s, NEPS * 8), LT(s, NPI * (i + 1) - NEPS * 2), GT(t, NPI * i + NEPS * 2))
        k.same("a monotone arc between %d pi and %d pi is %s" % (i, i + 1, "upper" if i % 2 == 0 else "lower"), r, r.v, TRUE if i % 2 == 0 else FALSE, pre=pre, sampler=ang_sampler)


def mono(k):
    w = W(k)
    a = w.arc()
    r = w.call("ArcSegment2::<T>::monotone", a.v)
    s, t = a.sr, a.tr
    u = atom(("idx", "spec"), True, True)
    x = NPI * numatom(u)
    e1 = near(x, t)
    e2 = AND(NOT(e1), GE(x, t))
    h, cs = close(w.cx, u, e1, e2)
    N = mkfidx(w.cx, INF, tuple(cs), h)
    mid = AND(NOT(near(x, t)), LT(x, t), NOT(near(x, s)), GT(x, s))
    h, (cb,) = close(w.cx, u, ite(mid, seqlit(x), EMPTY))
    cuts = mkflat(w.cx, h, N, cb)
    angles = seq_cat(seq_cat(seqlit(s), cuts), seqlit(t))
    v = atom(("idx", "spec2"), True, True)
    i = numatom(v)
    sup = w.val("CircleSegment2::<T>::new", a.c.v, a.r)
    h, (body,) = close(w.cx, v, seqlit(w.val("ArcSegment2::<T>::new", sup, w.cx.seq_get(angles, i, TPARAM), w.cx.seq_get(angles, i + 1, TPARAM))))
    want = mkflat(w.cx, h, seq_len(angles) - 1, body)
    pre = AND(GE(s, 0), LT(s, t), LE(t, NPI * 4), GT(t - s, NEPS * 4))
    if k.same("an arc splits exactly at the multiples of pi inside its range, keeping its ends", r, r.v, want, sampler=ang_sampler, pre=pre) == "undecided":
        k.obs.pop()
        monotypes(k)
    k.nopanic("splitting an arc never panics", r)


def monotypes(k):
    """every way the ends of an arc can lie between the multiples of pi, each decided for all arcs of that type"""
    name = "an arc splits exactly at the multiples of pi inside its range, keeping its ends"
    pi = math.pi
    for i in range(0, 9):
        for j in range(0, 9):
            lo, hi = ((i // 2) * pi + (0.375 * pi if i % 2 else 0)), ((j // 2) * pi + (0.625 * pi if j % 2 else 0))
            if not lo < hi or hi - lo > 4 * pi:
                continue
            w = W(k)
            a = w.arc()
            at = {}
            for v, x in ((a.sr, lo), (a.tr, hi), (a.r, 2)):
                (m, c), = v.a[0]
                (q, e), = m
                at[T.ATOMS[q][1]] = x
            T.ASSUME = Realizer(at)
            try:
                r = w.call("ArcSegment2::<T>::monotone", a.v)
                cuts = [NPI * n for n in range(1, 4) if lo + 1e-6 < n * pi < hi - 1e-6]
                ang = [a.sr] + cuts + [a.tr]
                sup = w.val("CircleSegment2::<T>::new", a.c.v, a.r)
                want = seqlit(*[w.val("ArcSegment2::<T>::new", sup, x, y) for x, y in zip(ang, ang[1:])])
                ok = r.v is want
                if not ok and r.v.k != "seqlit":
                    k.ob(name, r.site(), "undecided", "source %.3f, target %.3f: %s" % (lo, hi, show(r.v)[:200]))
                    continue
                if not ok:
                    rd = lambda v: [[x for x in (get(w, p, "source_radian"), get(w, p, "target_radian"), get(w, p, "radius"))] for p in v.a]
                    val = lambda v: [[round(float(T.ASSUME.value(x)), 6) for x in p] for p in rd(v)]
                    try:
                        g, h = val(r.v), val(want)
                    except Unrealized as e:
                        k.ob(name, r.site(), "undecided", str(e)[:200])
                        continue
                    ok = g == h and len(r.v.a) == len(want.a)
                    k.ob(name, r.site(), "proved" if ok else "refuted", None if ok else "for an arc from %.3f to %.3f: pieces %s instead of %s" % (lo, hi, g, h))
                    continue
                k.ob(name, r.site(), "proved")
            except Unrealized as e:
                k.ob(name, "ArcSegment2::monotone", "undecided", str(e)[:200])
            finally:
                T.ASSUME = {}
