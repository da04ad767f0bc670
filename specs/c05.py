from base import *

FLOOR = 8


def run(k):
    k.rules = ["the comparison's value graph is the tolerance-lexicographic order", "reversing the arguments reverses the outcome", "partial_cmp is Some(cmp)", "== holds exactly where cmp is Equal"]
    for ty in ("Point2", "Vertex2"):
        k.group(ty, lambda: order(k, ty))


def order(k, ty):
    w = W(k)
    a, b = [Pt(nsym(n + ".x"), nsym(n + ".y")) for n in "ab"]
    mkp = lambda p: w.val("%s::<T>::new" % ty, p.x, p.y)
    av, bv = mkp(a), mkp(b)
    r = w.tcall(ty, "Ord", "cmp", av, bv)
    O = [mk("enum", "Ordering", i) for i in range(3)]
    rev = lambda v: bind(v, lambda x: BOT if x is BOT else O[2 - x.a[1]])
    q = w.tval(ty, "Ord", "cmp", bv, av)
    k.same("%s: cmp(b,a) is the reverse of cmp(a,b)" % ty, r, q, rev(r.v))
    p = w.tcall(ty, "PartialOrd", "partial_cmp", av, bv)
    k.same("%s: partial_cmp is Some(cmp)" % ty, p, p.v, SOME(r.v) if r.v.k != "node" else bind(r.v, SOME))
    e = w.tcall(ty, "PartialEq", "eq", av, bv)
    iseq = cleanb(cond_of(r.v, lambda x: x is O[1]))
    k.same("%s: == agrees with cmp == Equal" % ty, r, e.v, iseq)
    far = AND(NOT(near(a.x, b.x)))
    k.same("%s: the point further left (sweep order) is Greater" % ty, r, r.v, ITE(LT(a.x, b.x), O[2], O[0]), pre=far)
    k.same("%s: on the same abscissa the lower point (sweep order) is Greater" % ty, r, r.v, ITE(LT(a.y, b.y), O[2], O[0]), pre=AND(near(a.x, b.x), NOT(near(a.y, b.y))))
    k.nopanic("%s: comparing never panics" % ty, r)
