from base import *
import itertools, random, math
import models
from mireval import setcx
from realize import Realizer, Unrealized
import c27

FLOOR = 40
LOCA = "algorithm::location::point_2_arc_segment_2::is_point_2_on_arc_segment_2"
TOL = 1e-7


def run(k):
    k.rules = ["for sampled arrangement types of two or three circles, arcs and line segments — tangencies, shared ends, crossings at the ends of half circles, ends on other curves included — the sweep reports exactly the points that lie on two or more of them, each once, in point order", "a second call reports the same", "no path panics or prints"]
    gs = []
    for n, cases in types(k.tier).items():
        step = {2: 12, 3: 6}.get(n, 3)
        for i in range(0, len(cases), step):
            gs.append(("%d curves, types from %d" % (n, i), lambda n=n, c=cases[i:i + step]: sized(k, n, c)))
    k.groups(gs)


# ---------------------------------------------------------------- geometry of the representatives
def at(c, a):
    return c[1] + c[3] * math.cos(a), c[2] + c[3] * math.sin(a)


def same(p, q):
    return abs(p[0] - q[0]) < TOL and abs(p[1] - q[1]) < TOL


def within(c, p):
    """a point of the circle lies on the arc"""
    lo, hi = c[4], c[5]
    if hi - lo > 2 * math.pi - TOL:
        return True
    a = math.atan2(p[1] - c[2], p[0] - c[1])
    return any(lo - TOL <= a + 2 * math.pi * k <= hi + TOL for k in range(-1, 5))


def lies(p, c):
    if c[0] == "L":
        (ax, ay), (bx, by) = c[1], c[2]
        l = math.hypot(bx - ax, by - ay)
        d = ((bx - ax) * (p[1] - ay) - (by - ay) * (p[0] - ax)) / l
        t = ((bx - ax) * (p[0] - ax) + (by - ay) * (p[1] - ay)) / l
        return abs(d) < TOL and -TOL < t < l + TOL
    return abs(math.hypot(p[0] - c[1], p[1] - c[2]) - c[3]) < TOL and within(c, p)


def ends(c):
    return [c[1], c[2]] if c[0] == "L" else [] if c[0] == "C" else [at(c, c[4]), at(c, c[5])]


def meets(c, d):
    """the common points of two curves, not on one circle or line"""
    if c[0] == "L" and d[0] == "L":
        return [tuple(map(float, p)) for p in c27.common(*[tuple(sorted((s[1], s[2]))) for s in (c, d)])]
    if c[0] == "L":
        c, d = d, c
    if d[0] == "L":
        (ax, ay), (bx, by) = d[1], d[2]
        l = math.hypot(bx - ax, by - ay)
        ux, uy = (bx - ax) / l, (by - ay) / l
        t = (c[1] - ax) * ux + (c[2] - ay) * uy
        f = ax + t * ux, ay + t * uy
        h2 = c[3] ** 2 - (f[0] - c[1]) ** 2 - (f[1] - c[2]) ** 2
        w = (ux, uy)
    else:
        dx, dy = d[1] - c[1], d[2] - c[2]
        D = math.hypot(dx, dy)
        if D < TOL:
            return []
        t = (D * D + c[3] ** 2 - d[3] ** 2) / (2 * D)
        f = c[1] + dx * t / D, c[2] + dy * t / D
        h2 = c[3] ** 2 - t * t
        w = (-dy / D, dx / D)
    if h2 < -TOL:
        return []
    h = math.sqrt(max(0.0, h2)) if h2 > TOL else 0.0
    ps = [(f[0] + w[0] * h, f[1] + w[1] * h)] + ([(f[0] - w[0] * h, f[1] - w[1] * h)] if h else [])
    return [p for p in ps if lies(p, c) and lies(p, d)]


def monotone(c):
    """end points and crossings decide the type; half circles end where the circle is vertical"""
    if c[0] == "L":
        return [c[1], c[2]]
    lo, hi = (0, 2 * math.pi) if c[0] == "C" else (c[4], c[5])
    return [at(c, a) for a in [lo, hi] + [k * math.pi for k in range(0, 5) if lo < k * math.pi < hi]]


def expected(cs):
    out = []
    for c, d in itertools.combinations(cs, 2):
        for p in meets(c, d):
            if not any(same(p, q) for q in out):
                out.append(p)
    return sorted(out, key=lambda p: (-round(p[0], 6), -round(p[1], 6)))


def fair(cs):
    """no coincident supports, and every two of the event points are equal or well apart in x and in y"""
    for c, d in itertools.combinations(cs, 2):
        if "L" not in (c[0], d[0]) and abs(c[3] - d[3]) < TOL and abs(c[1] - d[1]) + abs(c[2] - d[2]) < TOL:
            return False
    ps = expected(cs) + [p for c in cs for p in monotone(c)]
    for p, q in itertools.combinations(ps, 2):
        for a, b in zip(p, q):
            if TOL < abs(a - b) < 1e-2:
                return False
    return True


def signature(cs):
    ps = []
    for p in expected(cs) + [p for c in cs for p in monotone(c)]:
        if not any(same(p, q) for q in ps):
            ps.append(p)
    ps.sort(key=lambda p: (round(p[0], 6), round(p[1], 6)))
    xs, ys = sorted({round(p[0], 6) for p in ps}), sorted({round(p[1], 6) for p in ps})
    return (tuple(c[0] for c in cs), tuple((xs.index(round(p[0], 6)), ys.index(round(p[1], 6))) + tuple(lies(p, c) for c in cs) for p in ps))


def types(tier):
    rnd = random.Random(5)
    out = {}

    def curve(g):
        n = lambda: rnd.randint(0, g)
        k = rnd.choice("LCCAA")
        if k == "L":
            a, b = (n(), n()), (n(), n())
            return curve(g) if a == b else ("L", a, b)
        r = rnd.choice((0.5, 1, 1.5, 2, 2.5))
        if k == "C":
            return ("C", float(n()), float(n()), r, 0.0, 2 * math.pi)
        lo = rnd.randint(0, 7)
        return ("A", float(n()), float(n()), r, lo * math.pi / 4, (lo + rnd.randint(1, 8)) * math.pi / 4)
    for n, tries, cap in ((2, 6000, 150), (3, 3000, 90)):
        if tier != "quick":
            tries, cap = tries * 8, cap * 6
        seen, got = set(), []
        for _ in range(tries):
            cs = [curve(3 if n == 2 else 4) for _ in range(n)]
            if all(c[0] == "L" for c in cs) or not fair(cs) or len(expected(cs)) < n - 1:
                continue
            t = signature(cs)
            if t not in seen:
                seen.add(t)
                got.append(cs)
        got.sort(key=lambda cs: -special(cs))
        out[n] = got[:cap * 2 // 3] + got[cap * 2 // 3:][:: max(1, (len(got) - cap * 2 // 3) // max(1, cap // 3))][:cap // 3]
    for cs in c27.chosen("curves"):
        out.setdefault(len(cs), []).insert(0, [read(c) for c in cs])
    return out


def read(c):
    if c[0] == "L":
        return ("L", tuple(c[1]), tuple(c[2]))
    lo, hi = c[4:] or (0, 8)
    return (c[0], float(c[1]), float(c[2]), c[3], lo * math.pi / 4, hi * math.pi / 4)


def special(cs):
    """how many curves' ends or half-circle ends lie on other curves, and tangencies"""
    s = 0
    for c in cs:
        for p in monotone(c):
            s += sum(lies(p, d) for d in cs if d is not c)
    for c, d in itertools.combinations(cs, 2):
        s += len(meets(c, d)) == 2
    return s + len(expected(cs))


# ---------------------------------------------------------------- the analysed case
class Curves(c27.Arrangement):
    def __init__(self, k, cs):
        self.k, self.cs = k, cs
        self.w = W(k, [c27.INTER, c27.ON, LOCA] + c27.HOOKED)
        self.q = W(k)
        self.type = Realizer({})
        self.sym = []
        self.w.cx.ufhook = self.hook
        for p in expected(cs) + [p for c in cs if c[0] == "L" for p in (c[1], c[2])]:
            self.symbol(p)

    def symbol(self, p):
        for q, s in self.sym:
            if same(p, q):
                return s
        s = self.q.pt("p%d" % len(self.sym))
        for v, x in ((s.x, p[0]), (s.y, p[1])):
            self.real(v, x)
        self.sym.append((p, s))
        return s

    def real(self, v, x):
        (m, c), = v.a[0]
        (a, e), = m
        self.type.at[T.ATOMS[a][1]] = Fraction(x) if float(x * 1024).is_integer() else float(x)

    def number(self, name, x):
        v = nsym(name)
        self.real(v, x)
        return v

    def build(self, i, c):
        w = self.w
        if c[0] == "L":
            return KIND["L"], w.val("LineSegment2::<T>::new", self.symbol(c[1]).v, self.symbol(c[2]).v)
        n = "curve%d." % i
        ctr = w.val("Point2::<T>::new", self.number(n + "x", c[1]), self.number(n + "y", c[2]))
        circ = w.val("CircleSegment2::<T>::new", ctr, self.number(n + "radius", c[3]))
        if c[0] == "C":
            return KIND["C"], circ
        return KIND["A"], w.val("ArcSegment2::<T>::new", circ, self.number(n + "source", c[4]), self.number(n + "target", c[5]))

    def pos(self, v):
        """where a point is at the representative"""
        try:
            return tuple(float(self.type.value(self.q.val("Point2::<T>::" + c, v))) for c in "xy")
        except Unrealized as e:
            raise Undecided("a point of unknown origin: %s" % e)

    def shape(self, v, kind):
        q = self.q
        if kind == "L":
            return ("L",) + tuple(self.pos(q.tval("LineSegment2", "Segment2", n, v)) for n in ("source", "target"))
        c = self.pos(q.tval(KN[kind], "Segment2", "center", v))
        r = [float(self.type.value(q.tval(KN[kind], "Segment2", n, v))) for n in ["radius"] + (["source_radian", "target_radian"] if kind == "A" else [])]
        return (kind,) + c + tuple(r) + ((0.0, 2 * math.pi) if kind == "C" else ())

    def curve(self, cx, st, a, env, i):
        v = models.deref_full(cx, st, a)
        kind = {KIND[x][1]: x for x in "LCA"}.get(v.a[0])
        if v.k != "struct" or kind is None:
            raise Undecided("a curve of unknown shape")
        try:
            return self.shape(v, kind)
        except Unrealized as e:
            raise Undecided("a curve of unknown origin: %s" % e)

    def hook(self, cx, fn, *a):
        try:
            return self.contract(cx, fn, *a)
        finally:
            setcx(cx)
            models.setup(cx)

    def contract(self, cx, fn, env, args, dargs, st, site):
        if fn["p"] in (c27.ON, LOCA):
            c = self.curve(cx, st, args[1], env, 1)
            if c[0] == "A" and not (-TOL < c[4] <= c[5] + TOL and c[5] < 4 * math.pi + TOL and c[5] - c[4] < 2 * math.pi + TOL):  # beyond the contract
                r = self.q.val(LOCA, models.deref_full(cx, st, args[0]), models.deref_full(cx, st, args[1]), env={1: KIND["A"]})
                if r not in (TRUE, FALSE):
                    raise Undecided("a point on an improper arc: " + show(r)[:200])
                return r, TRUE
            p = self.pos(models.deref_full(cx, st, args[0]))
            return mkbool(lies(p, c)), TRUE
        if fn["p"] == c27.INTER:
            c, d = (self.curve(cx, st, a, env, i) for i, a in enumerate(args))
            ps = sorted(meets(c, d))
            if "L" not in (c[0], d[0]) and same(c[1:3], d[1:3]) and abs(c[3] - d[3]) < TOL:  # two pieces of one circle
                ps = [p for p in ends(c) if lies(p, d)]
            return seqlit(*[self.symbol(p).v for p in ps]), TRUE
        if fn["p"].startswith(c27.TREE):
            return self.tree(cx, fn["p"][len(c27.TREE):], env, args, st, site)
        return None

    def run(self, again, early=False):
        k, w = self.k, self.w
        T.ASSUME = self.type
        try:
            st = {}
            ref = k.mutarg(w.cx, st, "sweep", w.val(c27.SWP + "new"), c27.SW)
            for i, c in enumerate(self.cs):
                kind, g = self.build(i, c)
                if early and i and i == len(self.cs) - 1:
                    st = k.call(w.cx, c27.SWP + "intersection", [ref], None, st).st
                st = k.call(w.cx, c27.SWP + "push_segment", [ref, g], {1: kind}, st).st
            r = k.call(w.cx, c27.SWP + "intersection", [ref], None, st)
            return r, k.call(w.cx, c27.SWP + "intersection", [ref], None, r.st) if again else None
        finally:
            T.ASSUME = {}


def sized(k, n, cases):
    for i, cs in enumerate(cases):
        c = Curves(k, cs)
        name = "the sweep of %d curves reports the points on two or more of them, each once" % n
        try:
            r, r2 = c.run(i % 5 == 0, i % 5 == 2)
            k.nopanic("the sweep of %d curves never panics" % n, r)
            if r.eff:
                k.ob("the sweep of %d curves has no effect" % n, r.site(), "refuted", "for %s it performs %s" % (cs, [e[1] for e in r.eff][:3]))
            if r.v.k != "seqlit":
                raise Undecided("the reported points are not determined: " + show(r.v)[:200])
            got = [c.pos(x) for x in r.v.a]
        except Diverges as e:
            k.ob("the sweep of %d curves ends" % n, c27.SWP, "refuted", "for the arrangement of %s: %s" % (cs, e))
            continue
        except (Undecided, Imprecise) as e:
            k.ob(name, c27.SWP, "undecided", "%s: %s" % (cs, e))
            continue
        want = expected(cs)
        ok = len(got) == len(want) and all(same(p, q) for p, q in zip(got, want))
        k.ob(name, r.site(), "proved" if ok else "refuted", None if ok else "for the arrangement of %s it reports %s, the points on two or more of them are %s" % (cs, got, want))
        if r2:
            k.nopanic("a second call of the sweep never panics", r2)
            if r2.v.k == "seqlit":
                two = [c.pos(x) for x in r2.v.a]
                ok = len(two) == len(want) and all(same(p, q) for p, q in zip(two, want))
                k.ob("a second call reports the same points", r2.site(), "proved" if ok else "refuted", None if ok else "for the arrangement of %s the second call reports %s, not %s" % (cs, two, want))
