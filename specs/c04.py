from base import *

FLOOR = 5


def run(k):
    k.rules = ["turn(p,q,r) is decided by the sign of the cross product of pq and qr with the tolerance band around zero"]
    k.group("turn", lambda: turn(k))


def turn(k):
    w = W(k)
    p, q, s = w.pt("p"), w.pt("q"), w.pt("r")
    en = lambda n: w.en("TurnDirection", n)
    r = w.call("Point2::<T>::turn", p.v, q.v, s.v)
    c = orient(p, q, s)
    k.same("turn is the tolerance sign of the cross product", r, r.v, ITE(near(c, 0), en("Collinear"), ITE(GT(c, 0), en("Left"), en("Right"))))
    k.nopanic("turn never panics", r)
    k.pure("turn has no side effect", r)
    t2 = w.val("Point2::<T>::turn", q.v, s.v, p.v)
    k.same("turn is invariant under cyclic shifts of the three points", r, t2, r.v)
    t3 = w.val("Point2::<T>::turn", s.v, q.v, p.v)
    flip = ITE(leafcond(r.v, en("Left")), en("Right"), ITE(leafcond(r.v, en("Right")), en("Left"), en("Collinear")))
    k.same("reversing the three points flips the turn", r, t3, flip)
    d = w.pt("d")
    sh = lambda a: w.val("Point2::<T>::new", a.x + d.x, a.y + d.y)
    k.same("turn is invariant under translation", r, w.val("Point2::<T>::turn", sh(p), sh(q), sh(s)), r.v)


def leafcond(v, e):
    return cleanb(cond_of(v, lambda x: x is e))
