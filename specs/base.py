"""Builders of abstract inputs through the public constructors, and readers through the public accessors."""
from dsl import *
from msub import MSubst
import terms as T
import re

P2 = adt("kernel::point_2::Point2")
KIND = {
    "L": ("adt", "kernel::line_segment_2::LineSegment2", (TPARAM,)),
    "C": ("adt", "kernel::circle_segment_2::CircleSegment2", (TPARAM,)),
    "A": ("adt", "kernel::arc_segment_2::ArcSegment2", (TPARAM,)),
}
KN = {"L": "LineSegment2", "C": "CircleSegment2", "A": "ArcSegment2"}


def method(k, ty, trait, name, optional=False):
    """the implementation of trait::name for the type"""
    for f in k.F.fns if isinstance(k.F.fns, list) else k.F.fns.values():
        p = f["p"]
        m = re.match(r"<(.*) as (.*)>::(\w+)$", p)
        if m and m.group(3) == name and re.search(r"(^|::|&)%s(<|$)" % re.escape(ty), m.group(1)) and re.search(r"(^|::)%s(<|$)" % re.escape(trait), m.group(2)):
            return f
    if optional:
        return None
    k.ob("anchor <%s as %s>::%s" % (ty, trait, name), ty, "refuted", "%s no longer implements %s::%s" % (ty, trait, name))
    raise Stop()


class W:
    def __init__(self, k, uf=()):
        self.k = k
        self.cx = k.ctx(uf)
        self.last = None

    def call(self, fn, *args, env=None):
        r = self.k.call(self.cx, fn, args, env)
        self.last = r
        return r

    def val(self, fn, *args, env=None):
        return self.call(fn, *args, env=env).v

    def tval(self, ty, trait, name, *args, env=None):
        return self.val(method(self.k, ty, trait, name), *args, env=env)

    def tcall(self, ty, trait, name, *args, env=None):
        return self.call(method(self.k, ty, trait, name), *args, env=env)

    # ---- builders
    def pt(self, x, y=None):
        if y is None:
            x, y = nsym(x + ".x"), nsym(x + ".y")
        return Pt(x, y, self.val("Point2::<T>::new", num(x), num(y)))

    def vec(self, x, y=None):
        if y is None:
            x, y = nsym(x + ".x"), nsym(x + ".y")
        return Pt(x, y, self.val("Vector2::<T>::new", num(x), num(y)))

    def line(self, n):
        a, b, c = (nsym(n + "." + s) for s in "abc")
        o = Obj(a=a, b=b, c=c, v=self.val("Line2::<T>::new", a, b, c))
        return o

    def seg(self, n):
        s, t = self.pt(n + ".source"), self.pt(n + ".target")
        return Obj(s=s, t=t, v=self.val("LineSegment2::<T>::new", s.v, t.v))

    def segof(self, s, t):
        return Obj(s=s, t=t, v=self.val("LineSegment2::<T>::new", s.v, t.v))

    def circle(self, n):
        c, r = self.pt(n + ".center"), nsym(n + ".radius")
        return Obj(c=c, r=r, v=self.val("CircleSegment2::<T>::new", c.v, r))

    def tri(self, n="t"):
        a, b, c = self.pt(n + ".a"), self.pt(n + ".b"), self.pt(n + ".c")
        return Obj(a=a, b=b, c=c, v=self.val("Triangle2::<T>::new", a.v, b.v, c.v))

    def ray(self, n="r"):
        o, d = self.pt(n + ".origin"), self.vec(n + ".direction")
        v = self.val("Ray2::<T>::new", o.v, d.v)
        dv = self.val("Ray2::<T>::direction", v)
        return Obj(o=o, raw=d, d=Pt(self.vx(dv), self.vy(dv)), v=v)

    def arc(self, n="arc"):
        """an arbitrary arc value (any stored start and end angle)"""
        v = self.cx.sym(KIND["A"], n)
        c = self.rd(self.tval("ArcSegment2", "Segment2", "center", v))
        return Obj(v=v, c=c, r=self.tval("ArcSegment2", "Segment2", "radius", v), sr=self.tval("ArcSegment2", "Segment2", "source_radian", v), tr=self.tval("ArcSegment2", "Segment2", "target_radian", v))

    # ---- readers
    def x(self, p):
        return self.val("Point2::<T>::x", p)

    def y(self, p):
        return self.val("Point2::<T>::y", p)

    def vx(self, p):
        return self.val("Vector2::<T>::x", p)

    def vy(self, p):
        return self.val("Vector2::<T>::y", p)

    def rd(self, v):
        return Pt(self.x(v), self.y(v), v)

    def rdv(self, v):
        return Pt(self.vx(v), self.vy(v), v)

    def pos(self, v, x):
        """v with the symbol x known to be non-negative"""
        (m, c), = x.a[0]
        (a, e), = m
        return MSubst(self.cx, {a: numatom(atom(("pos", T.ATOMS[a]), False, True))}).val(v)

    # ---- enums
    def en(self, suffix, name, *payload):
        for p in self.cx.F.adts:
            if p == suffix or p.endswith("::" + suffix):
                for i, vv in enumerate(self.cx.F.adts[p][1]):
                    if vv[0] == name:
                        return mk("enum", p, i, *payload)
        self.k.ob("anchor %s::%s" % (suffix, name), suffix, "refuted", "no variant %s in %s" % (name, suffix))
        raise Stop()


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def ptcmp(k, name, r, got, want, pre=TRUE, **kw):
    k.same(name, r, mk("struct", "()", got.x, got.y), mk("struct", "()", num(want.x), num(want.y)), pre, **kw)


import math as _math
import random as _random


def ang_sampler(env, key, kind):
    """angles come in multiples of pi/4, sometimes off by a fraction of the tolerance"""
    if kind == "real" and "radian" in str(key):
        rng = _random.Random(hkey(env.seed, ("ang", str(key))))
        m = env.seed % 4
        x = rng.choice(range(-2, 17) if m == 3 else range(0, 17)) * _math.pi / 4
        if m == 1:
            x += rng.choice([0, 0.5, -0.5, 1.5, -1.5]) * env.eps
        if m == 2:
            x = rng.uniform(0, 4 * _math.pi)
        if env.seed % 11 == 0:
            x += rng.choice([0, 4, 8]) * _math.pi
        return x
    if kind == "real" and "radius" in str(key):
        rng = _random.Random(hkey(env.seed, ("rad", str(key))))
        return rng.choice([1.0, 2.0, 0.5, 3.0, 5.0])
    return None


def late(call, case):
    """a case whose call is analysed in the process that decides it"""
    return lambda: case(call())


def setrel(a, b):
    """the same points, in any order"""
    import evalv
    if not isinstance(a, list) or not isinstance(b, list) or len(a) != len(b):
        return False
    rest = list(b)
    for x in a:
        for i, y in enumerate(rest):
            if evalv.same(x, y, 1e-6):
                del rest[i]
                break
        else:
            return False
    return True


def sortdedup(w, seq):
    """the sequence sorted by the point order, adjacent equal points merged"""
    import models
    cx = w.cx
    site = ("spec", 0)
    o = models.symcmp(cx, None, P2, {}, TRUE, site)
    e1, e2 = cx.sym(P2, ("e1",)), cx.sym(P2, ("e2",))
    q = models.struct_eq(cx, P2, mk("ref", ("A", e1), ()), mk("ref", ("A", e2), ()), {}, TRUE, site)
    one = lambda s: s is BOT or (s.k == "seqlit" and len(s.a) <= 1)
    s = bind(seq, lambda s: s if one(s) else mk("sort", s, o, mk("ty", P2)))
    return bind(s, lambda s: s if one(s) else mk("dedup", s, q, mk("ty", P2)))


def pushes(*cs):
    """the elements whose condition holds, in order"""
    r = EMPTY
    for c, v in cs:
        r = mapn(lambda x, y: BOT if BOT in (x, y) else seq_cat(x, y), r, ITE(c, bind(v, lambda x: BOT if x is BOT else seqlit(x)), EMPTY))
    return r


def lam_sampler(env, key, kind):
    """ratios along a segment"""
    if kind == "real" and ("lambda" in str(key) or "mu" in str(key)):
        rng = _random.Random(hkey(env.seed, ("lam", str(key))))
        return rng.choice([rng.randint(-6, 14) / 4.0, rng.uniform(-1, 2)])
    return ang_sampler(env, key, kind)


def fmap(w, seq, f, ty=None):
    """the concatenation of f(x) over the elements x of a sequence"""
    def g(s):
        if s is BOT:
            return BOT
        if s.k == "seqlit":
            r = EMPTY
            for x in s.a:
                r = bind2(r, f(x), seq_cat)
            return r
        u = atom(("idx", "fmap"), True, True)
        h, (b,) = close(w.cx, u, f(w.cx.seq_get(s, numatom(u), ty or P2)))
        return mkflat(w.cx, h, seq_len(s), b)
    return bind(seq, g)


def bind2(a, b, f):
    return mapn(lambda x, y: BOT if BOT in (x, y) else f(x, y), a, b)


def ranges(**kw):
    """a sampler drawing the named symbols uniformly from ranges (others as ang_sampler does)"""
    kw = {k.replace("__", "."): v for k, v in kw.items()}

    def f(env, key, kind):
        for n, (a, b) in kw.items():
            if kind == "real" and n in str(key):
                return _random.Random(hkey(env.seed, ("rng", str(key)))).uniform(a, b)
        return ang_sampler(env, key, kind)
    return f


def enum_eq(k, w, suffix):
    """values of a fieldless enumeration are equal iff they are the same variant"""
    p = next((p for p in w.cx.F.adts if p == suffix or p.endswith("::" + suffix)), None)
    f = p and method(k, suffix, "PartialEq", "eq", optional=True)
    if not f:
        return
    n = len(w.cx.F.adts[p][1])
    r = None
    for i in range(n):
        for j in range(n):
            r = w.call(f, mk("enum", p, i), mk("enum", p, j))
            k.same("%s values are equal iff they are the same variant (%d, %d)" % (suffix, i, j), r, r.v, TRUE if i == j else FALSE)
