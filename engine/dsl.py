"""Vocabulary of the specifications: exact reals, conditions, points."""
from fractions import Fraction
from interp import *
from terms import *
import terms as T
from checklib import *


def num(x):
    if isinstance(x, V):
        return x
    return const(Fraction(x))


def _bin(f):
    def g(a, b):
        a, b = num(a), num(b)
        if a.k == "num" and b.k == "num":
            return f(a, b)
        return mapn(lambda x, y: BOT if BOT in (x, y) else f(x, y), a, b)
    return g


def _un(f):
    def g(a):
        a = num(a)
        return f(a) if a.k == "num" else bind(a, lambda x: BOT if x is BOT else f(x))
    return g


add, sub, mul = _bin(nadd), _bin(nsub), _bin(nmul)
div = _bin(ndiv)
V.__add__ = add
V.__radd__ = lambda a, b: add(b, a)
V.__sub__ = sub
V.__rsub__ = lambda a, b: sub(b, a)
V.__mul__ = mul
V.__rmul__ = lambda a, b: mul(b, a)
V.__truediv__ = div
V.__rtruediv__ = lambda a, b: div(b, a)
V.__neg__ = _un(nneg)
Abs, Sqrt, Sin, Cos = _un(nabs), _un(nsqrt), _un(nsin), _un(ncos)
Acos = _un(lambda a: nfn("acos", a))
Atan2 = _bin(natan2)


def _cmp(f):
    def g(a, b):
        return vcmp(f, num(a), num(b))
    return g


LT, LE, GT, GE, EQ = _cmp(T.lt), _cmp(T.le), _cmp(T.gt), _cmp(T.ge), _cmp(T.eq0)


def AND(*c):
    r = TRUE
    for x in c:
        r = band(r, x)
    return cleanb(r)


def OR(*c):
    r = FALSE
    for x in c:
        r = bor(r, x)
    return cleanb(r)


NOT = bnot


def ITE(c, a, b):
    return ite(c, num(a) if isinstance(a, (int, float)) else a, num(b) if isinstance(b, (int, float)) else b)


def IFF(a, b):
    return bnot(bxor(a, b))


def IMPL(a, b):
    return OR(bnot(a), b)


def MIN(a, b):
    return ITE(LE(a, b), a, b)


def MAX(a, b):
    return ITE(GE(a, b), a, b)


def near(a, b):
    """the library's tolerance equality of numbers"""
    return LT(Abs(num(a) - num(b)), NEPS)


def between(a, lo, hi):
    return AND(LE(lo, a), LE(a, hi))


TV = TPARAM
NONE = mk("enum", "Option", 0)


def SOME(x):
    return mk("enum", "Option", 1, x)


def adt(p, *args):
    return ("adt", p, tuple(args) or (TPARAM,))


class Pt:
    """a point given by coordinates, in specifications"""

    def __init__(self, x, y, v=None):
        self.x, self.y, self.v = num(x), num(y), v

    def __sub__(self, o):
        return Pt(self.x - o.x, self.y - o.y)

    def __add__(self, o):
        return Pt(self.x + o.x, self.y + o.y)

    def scale(self, k):
        return Pt(self.x * k, self.y * k)

    def dot(self, o):
        return self.x * o.x + self.y * o.y

    def cross(self, o):
        return self.x * o.y - self.y * o.x

    def len2(self):
        return self.x * self.x + self.y * self.y

    def length(self):
        return Sqrt(self.len2())


def orient(p, q, r):
    return (q - p).cross(r - p)


def peq(a, b):
    """the library's equality of points"""
    return AND(near(a.x, b.x), near(a.y, b.y))


def nsym(name):
    return numatom(atom(("opq", name)))


def isym(name):
    return numatom(atom(("opq", name), True, True))


def nnsym(name):
    """an arbitrary non-negative number"""
    return numatom(atom(("opq", name), False, True))
