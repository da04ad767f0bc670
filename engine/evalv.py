"""Concretisation of value graphs at a point: used only to confirm that a region in which two normal
forms differ is inhabited (a mismatch without an inhabited region is 'undecided', never a violation)."""
from interp import *
from msub import *
import terms as T
import math, random, functools, hashlib


class NoEval(Exception):
    pass


class Absent(NoEval):
    """projection of a payload that is not there: the decision on it cannot matter"""


class DivZero(NoEval):
    """the value itself (not a decision) is a quotient by zero or the root of a negative number"""


EPSC = 1e-4


def hkey(seed, key):
    h = hashlib.blake2b(repr((seed, key)).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big")


class Env:
    LENGTHS = []  # lengths to try besides short ones

    def __init__(self, cx, seed, sampler=None, eps=EPSC):
        self.cx = cx
        self.seed = seed
        self.sampler = sampler
        self.tm = {}
        self.b = {}
        self.cache = {}
        self.eps = eps
        self.vals = {}
        self.budget = 200000
        self.noise = 1e-9
        self.trace = None

    def sub(self):
        e = Env.__new__(Env)
        e.__dict__.update(self.__dict__)
        e.tm = dict(self.tm)
        e.b = dict(self.b)
        e.cache = {}
        return e

    def draw(self, key, kind):
        v = self.vals.get((key, kind))
        if v is None:
            v = self.sample(key, kind)
            self.vals[(key, kind)] = v
        return v

    def sample(self, key, kind):
        if self.sampler:
            r = self.sampler(self, key, kind)
            if r is not None:
                return r
        h = hkey(self.seed, (key, kind))
        rng = random.Random(h)
        mode = self.seed % 5
        if kind == "len":
            if Env.LENGTHS and self.seed % 13 in (2, 4, 9) and rng.random() < 0.7:
                return rng.choice(Env.LENGTHS)
            return rng.choice([7, 8, 9, 11] if self.seed % 13 == 9 else [0, 1, 2, 3, 3, 4, 4, 5, 6])
        if kind == "int":
            return rng.choice([0, 1, 2, 3, 4])
        if kind == "case":
            return rng.randrange(1 << 30)
        g = [-2, -1, 0, 1, 2, 3] if mode < 2 else [-4, -3, -2, -1, -0.5, 0, 0.5, 1, 2, 3, 4, 5]
        if self.seed % 7 == 6:
            # many coincidences
            x = float(rng.choice([0, 0, 0, 1]))
            return x + rng.choice([-0.25, 0.25]) * self.eps if rng.random() < 0.1 else x
        x = float(rng.choice(g))
        if mode == 3 and rng.random() < 0.5:
            x += rng.choice([-3, -1.5, -0.8, -0.5, -0.25, 0.25, 0.5, 0.8, 1.5, 3]) * self.eps
        if mode == 4:
            x = rng.uniform(-5, 5)
        return x

    # ---- terms
    def term(self, t):
        """concrete value or key of a symbolic term"""
        if isinstance(t, tuple):
            if t in self.tm:
                return ("val", self.tm[t])
            if t and t[0] == "." and len(t) == 3:
                b = self.term(t[1])
                if isinstance(b, tuple) and b and b[0] == "val":
                    return ("val", self.proj(b[1], t[2]))
                return (".", b, t[2])
            if t and t[0] == "as" and len(t) == 4:
                b = self.term(t[1])
                if isinstance(b, tuple) and b and b[0] == "val":
                    return ("val", self.projas(b[1], t[2], t[3]))
                return ("as", b, t[2], t[3])
            if t and t[0] == "discr" and len(t) == 2:
                b = self.term(t[1])
                if isinstance(b, tuple) and b and b[0] == "val":
                    v = b[1]
                    return ("val", v)
                return ("discr", b)
            if t and t[0] == "elem" and len(t) == 3 and isinstance(t[1], V):
                i = self.ev(t[2]) if isinstance(t[2], V) else t[2]
                i = int(round(i))
                s = t[1]
                if s.k == "symseq":
                    b = self.term(s.a[0])
                    if not (isinstance(b, tuple) and b and b[0] == "val"):
                        return ("elem", b, i)
                    lst = b[1]
                else:
                    lst = self.ev(s)
                if not isinstance(lst, list) or not 0 <= i < len(lst):
                    raise NoEval("element out of range")
                return ("val", lst[i])
            if t and t[0] == "*" and len(t) == 2:
                b = self.term(t[1])
                return ("*", b) if not (isinstance(b, tuple) and b and b[0] == "val") else b
            if t and t[0] in ("call", "callpanics") and len(t) >= 2 and isinstance(t[1], str):
                r = self.callval(t)
                if r is None and t[1] in FREE and t[0] == "call":
                    return (t[0], t[1]) + tuple(self.term(x) for x in t[2:])
                if r is None:
                    raise NoEval("callee without a summary")
                return ("val", r[0])
            if t and t[0] in ("lout", "lexit", "lcount", "first", "fidx", "lpanic", "leff"):
                return ("val", self.special(t))
            return tuple(self.term(x) for x in t)
        if isinstance(t, V):
            if t.k == "ty":
                return "ty"
            return self.keyof(self.ev(t))
        return t

    def keyof(self, v):
        if isinstance(v, float):
            return round(v, 9) + 0.0
        if isinstance(v, (list, tuple)):
            return tuple(self.keyof(x) for x in v)
        return v

    def proj(self, v, n):
        if isinstance(v, tuple) and v and v[0] == "S":
            if v[1] in self.cx.F.adts:
                for i, (fn, _, _) in enumerate(self.cx.F.adts[v[1]][1][0][2]):
                    if fn == n:
                        return v[2 + i]
            if str(n).isdigit():
                return v[2 + int(n)]
        raise NoEval("projection")

    def projas(self, v, vn, n):
        if isinstance(v, tuple) and v and v[0] == "E":
            if v[1] == "Option":
                if v[2] == 1:
                    return v[3]
                raise Absent("none")
            vs = self.cx.F.adts[v[1]][1]
            if vs[v[2]][0] != vn:
                raise Absent("none")
            for i, (fn, _, _) in enumerate(vs[v[2]][2]):
                if fn == n:
                    if 3 + i >= len(v):
                        raise Absent("none")
                    return v[3 + i]
        raise NoEval("projection")

    def callval(self, t):
        """value of a modular summary at the point: the callee's own summary evaluated on the arguments' values"""
        name = t[1]
        ts = ()
        rest = t[2:]
        if rest and isinstance(rest[0], V) and rest[0].k == "ty":
            ts = rest[0].a[0]
            rest = rest[1:]
        S = callee_summary(self.cx, name, ts)
        if S is None:
            return None
        v, names = S[0] if t[0] == "call" else S[2], S[1]
        vals = [self.ev(x) for x in rest]
        key = (t[0], name, ts, self.keyof(vals))
        memo = self.__dict__.setdefault("ufmemo", {})
        if key not in memo:
            e = self.sub()
            e.b = {}
            e.tm = dict(zip(names, vals))
            memo[key] = e.ev(v)
        return (memo[key],)

    def special(self, t):
        k = t[0]
        if k in ("first", "fidx"):
            n, conds, h = t[1], t[2], t[3]
            N = 60 if n is INF else int(round(self.ev(n)))
            key = ("first", n, conds, h)
            for i in range(max(N, 0)):
                e = self.sub()
                e.b[h] = float(i)
                for j, c in enumerate(conds):
                    if e.ev(c) is True:
                        return j + 1 if k == "first" else float(i)
            if n is INF:
                raise NoEval("unbounded search")
            return 0 if k == "first" else float(N)
        if k in ("lout", "lexit", "lcount"):
            L = t[1]
            r = self.runloop(L)
            if k == "lexit":
                return r[0]
            if k == "lcount":
                return float(r[2])
            return r[1][t[2]]
        if k in ("lpanic", "leff"):
            return 1 if self.runloop(t[1], True) else 0
        raise NoEval(k)

    def runloop(self, L, seek=None):
        """seek: the last condition is looked for in any iteration up to the exit"""
        key = ("loop", L, seek)
        if key in self.cache:
            return self.cache[key]
        h, inits, nexts, conds, tys = L.a
        if seek:
            conds, seek = conds[:-1], conds[-1]
        st = [self.ev(x) for x in inits]
        for it in range(300):
            e = self.sub()
            e.b[h] = float(it)
            for k, v in enumerate(st):
                e.tm[("lm", h, k)] = v
            if seek is not None and it == 0:
                self.cache[key] = False
            hit = None
            for j, c in enumerate(conds):
                if e.ev(c) is True:
                    hit = j
                    break
            if seek is not None and (hit is None or True) and e.ev(seek) is True:
                self.cache[key] = True
                return True
            if hit is not None and seek is not None:
                return False
            if hit is not None:
                r = (hit, st, it)
                self.cache[key] = r
                return r
            st = [e.ev(x) for x in nexts]
        raise NoEval("loop bound")

    # ---- values
    def ev(self, v):
        r = self.cache.get(v)
        if r is None:
            self.budget -= 1
            if self.budget < 0:
                raise NoEval("budget")
            r = self._ev(v)
            self.cache[v] = r
        return r

    def atomv(self, x):
        d = ATOMS[x]
        k = d[0]
        if k == "eps":
            return self.eps
        if k == "pi":
            return math.pi
        if k == "b":
            if d[1] in self.b:
                return self.b[d[1]]
            raise NoEval("free bound variable")
        if k in ("sym",):
            return self.draw(d[1], "int" if AINT[x] else "real")
        if k == "opq":
            t = d[1]
            if isinstance(t, V):
                key = self.term(t)
            else:
                key = self.term(t) if isinstance(t, tuple) else t
            if isinstance(key, tuple) and key and key[0] == "val":
                r = key[1]
                if isinstance(r, (int, float)):
                    return float(r)
                raise NoEval("kind")
            r = self.draw(key, "len" if isinstance(key, tuple) and key[:1] == ("baglen",) else "int" if AINT[x] else "real")
            return abs(float(r)) if T.ANONNEG[x] else float(r)
        if k == "pos":
            return abs(float(self.draw(("pos", repr(d[1])), "real")))
        if k == "len":
            s = d[1]
            if s.k == "symseq":
                b = self.term(s.a[0])
                if not (isinstance(b, tuple) and b and b[0] == "val"):
                    return float(self.draw(b, "len"))
            l = self.ev(s)
            return float(len(l))
        if k == "sum":
            _, h, n, body = d
            N = int(round(self.ev(n)))
            r = 0.0
            for i in range(max(N, 0)):
                e = self.sub()
                e.b[h] = float(i)
                r += e.ev(body)
            return r
        if k in ("fidx", "lcount"):
            return float(self.special(d))
        if k == "idx":
            raise NoEval("idx")
        a = [self.ev(y) if isinstance(y, V) else y for y in d[1:]]
        if k == "sqrt":
            if a[0] < 0:
                if a[0] > -1e-9:
                    return 0.0
                if a[0] < -1e-3:
                    raise DivZero("root of a negative number")
                raise NoEval("sqrt")
            return math.sqrt(a[0])
        if k == "abs":
            return abs(a[0])
        if k == "sin":
            return math.sin(a[0])
        if k == "cos":
            return math.cos(a[0])
        if k in ("acos", "asin"):
            if abs(a[0]) > 1:
                if abs(a[0]) < 1 + 1e-9:
                    a[0] = math.copysign(1, a[0])
                else:
                    raise NoEval("acos")
            return getattr(math, k)(a[0])
        if k == "atan":
            return math.atan(a[0])
        if k == "atan2":
            return math.atan2(a[0], a[1])
        if k == "mod":
            if a[1] == 0:
                raise NoEval("mod 0")
            return float(int(round(a[0])) % int(round(a[1])))
        if k == "idiv":
            if a[1] == 0:
                raise NoEval("div 0")
            return float(int(a[0]) // int(a[1]))
        if k == "fmod":
            if a[1] == 0:
                raise NoEval("div 0")
            return math.fmod(a[0], a[1])
        if k == "floor":
            return float(math.floor(a[0]))
        if k == "ceil":
            return float(math.ceil(a[0]))
        if k == "signum":
            return math.copysign(1.0, a[0])
        if k == "trunc":
            return float(math.trunc(a[0]))
        raise NoEval("atom " + str(k))

    def poly(self, pk):
        r = 0.0
        for m, c in pk:
            t = float(c)
            for x, e in m:
                key = ("atom", x)
                y = self.cache.get(key)
                if y is None:
                    y = self.atomv(x)
                    self.cache[key] = y
                t *= y ** e
            r += t
        if r != r or abs(r) > 1e150:
            raise NoEval("overflow")
        return r

    def _ev(self, v):
        k = v.k
        if k == "num":
            n = self.poly(v.a[0])
            if isone(v.a[1]):
                return n
            d = self.poly(v.a[1]) if v.a[1] else 0.0
            if abs(d) < 1e-11:
                raise DivZero("division by zero")
            return n / d
        if k == "bool":
            return v.a[0]
        if k == "bot":
            return None
        if k == "node":
            var, cuts, ch = v.a
            if var.k == "fv":
                t = var.a[0]
                try:
                    r = self.term(t) if isinstance(t, tuple) else t
                except DivZero:
                    raise NoEval("undefined decision")
                except Absent:
                    return self.ev(ch[0])
                if isinstance(r, tuple) and r and r[0] == "val":
                    r = r[1]
                    if isinstance(r, tuple) and r and r[0] == "E":
                        r = r[2]
                    if r is None:
                        raise NoEval("undefined case")
                    i = int(r)
                else:
                    i = int(self.draw(r, "case")) % var.a[1]
                return self.ev(ch[i])
            try:
                p = self.ev(var.a[0])
            except DivZero:
                raise NoEval("undefined decision")
            except Absent:
                return self.ev(ch[0])
            i = 0
            for t, s in cuts:
                tv = self.ev(t)
                d = p - tv
                if self.trace is not None:
                    self.trace.setdefault((var.a[0], t, tuple(self.b.items())), d)
                if 0 < abs(d) < self.noise * max(1.0, abs(tv)):
                    if abs(d) < 1e-12 * max(1.0, abs(p)) * 50:
                        d = 0.0
                        self.exact = False
                    raise NoEval("threshold")
                if d > 0 or (d == 0 and s == 0):
                    i += 1
                else:
                    break
            return self.ev(ch[i])
        if k == "struct":
            return ("S", v.a[0]) + tuple(self.ev(x) for x in v.a[1:])
        if k == "enum":
            return ("E", v.a[0], v.a[1]) + tuple(self.ev(x) for x in v.a[2:])
        if k == "seqlit":
            return [self.ev(x) for x in v.a]
        if k == "cat":
            r = []
            for x in v.a:
                r = r + self.ev(x)
            return r
        if k == "symseq":
            b = self.term(v.a[0])
            if isinstance(b, tuple) and b and b[0] == "val":
                return b[1]
            n = int(self.draw(b, "len"))
            ety = v.a[1].a[0]
            return [self.ev(self.cx.sym(ety, ("elem", v, const(i)))) for i in range(n)]
        if k == "flat":
            h, n, body = v.a
            N = int(round(self.ev(n)))
            r = []
            for i in range(max(N, 0)):
                e = self.sub()
                e.b[h] = float(i)
                x = e.ev(body)
                if x is None:
                    raise NoEval("undefined")
                r = r + x
            return r
        if k == "rev":
            return list(reversed(self.ev(v.a[0])))
        if k == "slice":
            s = self.ev(v.a[0])
            return s[int(self.ev(v.a[1])):int(self.ev(v.a[2]))]
        if k == "sort":
            s = self.ev(v.a[0])

            def cmpf(a, b):
                e = self.sub()
                e.tm[("e1",)] = a
                e.tm[("e2",)] = b
                r = e.ev(v.a[1])
                return r[2] - 1
            return sorted(s, key=functools.cmp_to_key(cmpf))
        if k == "dedup":
            s = self.ev(v.a[0])
            out = []
            for x in s:
                if out:
                    e = self.sub()
                    e.tm[("e1",)] = x
                    e.tm[("e2",)] = out[-1]
                    if e.ev(v.a[1]):
                        continue
                out.append(x)
            return out
        if k == "filt":
            s = self.ev(v.a[0])
            out = []
            for x in s:
                e = self.sub()
                e.tm[("e1",)] = x
                if e.ev(v.a[1]):
                    out.append(x)
            return out
        if k == "removed":
            s = list(self.ev(v.a[0]))
            i = int(self.ev(v.a[1]))
            if not 0 <= i < len(s):
                raise NoEval("index")
            return s[:i] + s[i + 1:]
        if k == "upd":
            s = list(self.ev(v.a[0]))
            i = int(self.ev(v.a[1]))
            if not 0 <= i < len(s):
                raise NoEval("index")
            s[i] = self.ev(v.a[2])
            return s
        if k == "ref":
            root, path = v.a
            if root[0] == "A":
                return self.ev(self.cx.read(root[1], path))
            return ("ref", root[0], self.term(root[1]) if isinstance(root[1], tuple) else root[1:], self.term(tuple(path)))
        if k == "rc":
            root = v.a[0]
            return ("rc", root[0], self.term(root[1]) if isinstance(root[1], tuple) else root[1:])
        if k == "str":
            return v.a[0]
        if k == "opq":
            return ("opq", self.term(v.a[0]) if isinstance(v.a[0], tuple) else self.term(v.a[0]) if isinstance(v.a[0], V) else v.a[0])
        if k == "bag":
            return ("bag",) + tuple(self.ev(x) for x in v.a)
        raise NoEval("value " + k)


def same(a, b, tol=1e-7):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return a == b


def evseq(x):
    return x


_SUM = {}
# operations without a summary whose result may be anything (the same for the same arguments)
FREE = set()


def callee_summary(cx, name, ts):
    import mireval
    fe = mireval.ufenv(cx).get((name, ts))
    return summary_of(cx, *fe) if fe else None


def summary_of(cx, fn, env):
    """(value, parameter names, panic condition, effects) of a callee on symbolic parameters, in its own universe; None when
    it is not a function of its arguments that can be summarised"""
    key = (id(cx.F), fn["p"], tuple(sorted(env.items(), key=repr)), frozenset(cx.uf))
    if key not in _SUM:
        _SUM[key] = _summary_of(cx, fn, env)
    return _SUM[key]


def _summary_of(cx, fn, env):
    import mireval, models
    cx2 = Ctx(cx.F, cx.uf - {fn["p"], fn["u"]})
    cx2.kit = getattr(cx, "kit", None)
    args, names = [], []
    for i, l in enumerate(fn["body"]["locals"][1:1 + fn["body"]["argc"]]):
        t = tsub(hty(l["ty"]), env)
        n = ("ufp", fn["p"], i)
        names.append(n)
        if t[0] == "ref":
            if t[1]:
                return None
            args.append(mk("ref", ("A", cx2.sym(t[2], n)), ()))
        else:
            args.append(cx2.sym(t, n))
    try:
        v, st, pan, eff, rc = mireval.evaluate(cx2, fn, args, env, {})
        v = cx2.deepres(st, v)
    except (Imprecise, Undecided, T.TooBig, RecursionError):
        return None
    finally:
        mireval.setcx(cx)
        models.setup(cx)
    cx.analysed |= cx2.analysed
    p = FALSE
    for c, *_ in pan:
        p = bor(p, c)
    return v, names, cleanb(p), eff
