from base import *

FLOOR = 10


def run(k):
    k.rules = ["every segment kind reports its own type tag and returns the data it was built from", "operations a kind does not have abort instead of returning a value", "a ray keeps its origin and the normalised direction"]
    k.group("segments", lambda: segs(k))
    k.group("tags", lambda: tags(k))
    k.group("missing", lambda: missing(k))
    k.group("ray", lambda: ray(k))


def segs(k):
    w = W(k)
    g, h = w.seg("s"), w.seg("r")
    for n, p in (("source", g.s), ("target", g.t)):
        r = w.tcall("LineSegment2", "Segment2", n, g.v)
        ptcmp(k, "a line segment keeps its %s" % n, r, w.rd(r.v), p)
        k.pure("reading the %s of a segment has no side effect" % n, r)
    r = w.tcall("LineSegment2", "PartialEq", "eq", g.v, h.v)
    k.same("line segments are equal iff they have the same source and the same target", r, r.v, AND(peq(g.s, h.s), peq(g.t, h.t)))


def tags(k):
    w = W(k)
    for kind, n in KN.items():
        v = w.cx.sym(KIND[kind], "s")
        r = w.tcall(n, "Segment2", "segment_type", v)
        k.same("%s reports its own kind" % n, r, r.v, w.en("Segment2Type", n))


def missing(k):
    """a kind without some datum panics rather than inventing one"""
    F = k.F
    tr = lambda n: k.fn("kernel::segment_2::Segment2::" + n, optional=True)
    for kind, ops in (("L", ("source_radian", "target_radian", "center", "radius")), ("C", ("source", "target", "source_radian", "target_radian"))):
        for o in ops:
            own = method(k, KN[kind], "Segment2", o, optional=True)
            f = own or tr(o)
            if f is None:
                continue
            w = W(k)
            v = w.cx.sym(KIND[kind], "s")
            r = k.call(w.cx, f, [v], {0: KIND[kind], 1: TPARAM} if own is None else None)
            ok = r.v is BOT or OR(*[c for c, f_, l, m in r.pan]) is TRUE
            if own is not None and not ok:
                continue  # the kind gained the datum: nothing to require
            k.ob("%s has no %s: asking for it aborts" % (KN[kind], o), r.site(), "proved" if ok else "refuted", None if ok else "it returns %s" % show(r.v)[:200])


def ray(k):
    w = W(k)
    o, d = w.pt("o"), w.vec("d")
    r = w.call("Ray2::<T>::new", o.v, d.v)
    v = r.v
    q = w.call("Ray2::<T>::origin", v)
    ptcmp(k, "a ray keeps its origin", q, w.rd(q.v), o)
    q = w.call("Ray2::<T>::direction", v)
    L = d.length()
    short = LT(L, NEPS)
    ptcmp(k, "a ray keeps its direction, normalised", q, w.rdv(q.v), Pt(ITE(short, d.x, d.x / L), ITE(short, d.y, d.y / L)))
    k.nopanic("building a ray never panics", r)
