from base import *
from c18 import Q8, dist

FLOOR = 4
INT = "algorithm::intersection::"
CC = INT + "circle_segment_2_circle_segment_2::"
E2 = {1: KIND["C"], 2: KIND["C"]}


def run(k):
    k.rules = ["two circles meet in the two points at equal height over their centre line when the distance of the centres lies strictly between the difference and the sum of the radii, in one point when it equals one of them, and not at all otherwise (nor when concentric)"]
    k.group("circle-circle", lambda: cc(k))


def cc(k):
    w = W(k)
    a, b = w.circle("a"), w.circle("b")
    p = w.call(CC + "is_circle_segment_2_circle_segment_2_intersected", a.v, b.v, env=E2)
    r = w.call(CC + "circle_segment_2_circle_segment_2_intersection", a.v, b.v, env=E2)
    d = dist(a.c, b.c)
    S, D = a.r + b.r, Abs(a.r - b.r)
    conc, outer, inner = near(d, 0), near(d, S), near(d, D)
    proper = AND(LT(d, S), GT(d, D))
    dpred = AND(NOT(conc), OR(outer, inner, proper))
    PT = lambda x, y: w.val("Point2::<T>::new", x, y)
    v = b.c - a.c
    L = v.length()
    z = LT(L, NEPS)
    ux, uy = ITE(z, v.x, v.x / L), ITE(z, v.y, v.y / L)
    q = b.c
    one = lambda q: bind(q, lambda x: BOT if x is BOT else seqlit(x))
    touch = PT(a.c.x + ux * a.r, a.c.y + uy * a.r)
    tin = ITE(GT(a.r, b.r), PT(b.c.x + ux * b.r, b.c.y + uy * b.r), PT(a.c.x - ux * a.r, a.c.y - uy * a.r))
    al = (a.r * a.r + d * d - b.r * b.r) / (num(2) * d)
    h = Sqrt(a.r * a.r - al * al)
    mx, my = a.c.x + ux * al, a.c.y + uy * al
    two = pushes((TRUE, PT(mx - uy * h, my + ux * h)), (TRUE, PT(mx + uy * h, my - ux * h)))
    direct = ITE(conc, EMPTY, ITE(outer, one(touch), ITE(inner, one(tin), ITE(proper, two, EMPTY))))

    def cases():
        w2 = W(k)
        a, b = w2.circle("a"), w2.circle("b")
        call = lambda n, x, y: w2.call(CC + n, x.v, y.v, env=E2)
        I = lambda x, y: call("circle_segment_2_circle_segment_2_intersection", x, y)
        B = lambda x, y: call("is_circle_segment_2_circle_segment_2_intersected", x, y)
        circ = lambda c, r: Obj(c=c, r=r, v=w2.val("CircleSegment2::<T>::new", c.v, r))
        lit = lambda *ps: pushes(*[(TRUE, q.v) for q in ps])
        d = dist(a.c, b.c)
        S, D = a.r + b.r, Abs(a.r - b.r)
        valid = AND(GE(a.r * 2, 1), GE(b.r * 2, 1))
        v = b.c - a.c
        al = (a.r * a.r - b.r * b.r + d * d) / (d * d * 2)
        h = Sqrt(MAX(a.r * a.r / (d * d) - al * al, 0))
        P1 = w2.pt(a.c.x + v.x * al - v.y * h, a.c.y + v.y * al + v.x * h)
        P2_ = w2.pt(a.c.x + v.x * al + v.y * h, a.c.y + v.y * al - v.x * h)
        yield I, B, (a, b), lit(P1, P2_), AND(valid, LT(d + Q8, S), GT(d, D + Q8))
        yield I, B, (a, b), EMPTY, AND(valid, OR(GT(d, S + Q8), LT(d + Q8, D)))
        th = nsym("t.radian")
        u = Pt(Cos(th), Sin(th))
        off = lambda x: w2.pt(a.c.x + u.x * x, a.c.y + u.y * x)
        yield I, B, (a, circ(off(a.r + b.r), b.r)), lit(off(a.r)), valid
        lam = nsym("b.radius2")
        big = circ(off(-lam), a.r + lam)
        yield I, B, (a, big), lit(off(a.r)), AND(valid, GE(lam * 4, 1))
        yield I, B, (big, a), lit(off(a.r)), AND(valid, GE(lam * 4, 1))
        yield I, B, (a, circ(a.c, b.r)), EMPTY, valid

    def inter():
        for I, B, e, want, pre in cases():
            yield late(lambda I=I, e=e: I(*e), lambda q, want=want, pre=pre: (q, q.v, want, pre, lam_sampler, setrel))

    def predi():
        for I, B, e, want, pre in cases():
            yield late(lambda B=B, e=e: B(*e), lambda q, want=want, pre=pre: (q, q.v, mkbool(want is not EMPTY), pre, lam_sampler))

    k.proved_or("two circles intersect exactly when they share finitely many points, at least one", p, p.v, [dpred], predi)
    k.proved_or("the intersection of two circles is the set of their common points", r, r.v, [direct], inter)
    k.nopanic("testing two circles never panics", p)
    k.nopanic("intersecting two circles never panics", r)
    k.pure("intersecting two circles has no side effect", r)
