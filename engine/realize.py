"""An order type given by a representative: the sign of every quantity the analysed code compares is the one the
quantity has at the representative. The analysis stays on arbitrary inputs of that type: values remain symbolic and
only the comparisons are decided."""
import math
from fractions import Fraction
import terms as T
from terms import ATOMS, EPS, PI, fval, issymconst


class Unrealized(Exception):
    pass


SNAP = 1e-9
MARGIN = 1e-4


class Realizer:
    def __init__(self, at):
        self.at = dict(at)  # opaque name -> number at the representative
        self.memo = {}
        self.num = {}

    def __bool__(self):
        return True

    def atom(self, x):
        if x in self.memo:
            return self.memo[x]
        d = ATOMS[x]
        k = d[0]
        if k == "opq":
            if d[1] not in self.at:
                raise Unrealized(d[1])
            r = self.at[d[1]]
        elif k == "eps":
            r = 0
        elif k == "pi":
            r = math.pi
        else:
            a = [self.value(y) for y in d[1:]]
            if k == "sqrt":
                r = root(a[0])
            elif k == "abs":
                r = abs(a[0])
            elif k in ("sin", "cos"):
                r = snap(getattr(math, k)(a[0]))
            elif k == "acos":
                r = math.acos(max(-1.0, min(1.0, a[0])))
            elif k == "atan2":
                r = math.atan2(snap(float(a[0])), snap(float(a[1])))
            else:
                raise Unrealized(k)
        self.memo[x] = r
        return r

    def poly(self, p):
        s = 0
        for m, c in p:
            t = c
            for x, e in m:
                t = t * self.atom(x) ** e
            s = s + t
        return s

    def value(self, v):
        r = self.num.get(v)
        if r is None:
            if getattr(v, "k", None) != "num":
                raise Unrealized(v)
            n, d = self.poly(v.a[0]), self.poly(v.a[1])
            if isinstance(d, float):
                d = snap(d)
            if d == 0:
                raise Unrealized("a division by zero at the representative")
            r = Fraction(n) / d if isinstance(n, int) and isinstance(d, int) else n / d
            if isinstance(r, float):
                r = snap(r)
            self.num[v] = r
        return r

    def __contains__(self, v):
        try:
            x = self.value(v)
        except Unrealized:
            return False
        return not (x != 0 and abs(x) < MARGIN)

    def __getitem__(self, v):
        x = float(self.value(v))
        return x, x


def snap(x):
    """the nearest multiple of 1/1024 when it is that up to rounding"""
    y = round(x * 1024) / 1024
    return y if abs(x - y) < SNAP else x


def root(x):
    if isinstance(x, Fraction) or isinstance(x, int):
        x = Fraction(x)
        if x >= 0:
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
    x = float(x)
    if x < 0:
        if x > -SNAP:
            return 0.0
        raise Unrealized("the square root of a negative number at the representative")
    return snap(math.sqrt(x))
