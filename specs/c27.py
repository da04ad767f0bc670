from base import *
import itertools, json, os, random
import models
from mireval import setcx
from realize import Realizer, Unrealized
from c26 import orient3

FLOOR = 40
ROUNDING, MARGIN = Fraction(1, 10 ** 14), Fraction(1, 10 ** 4)
SW = adt("algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection")
SWP = "SweepSegment2Intersection::<T>::"
INTER = "algorithm::intersection::segment_2_segment_2::segment_2_segment_2_intersection"
TREE = "data_structure::avl_tree::AVLTree::<T>::"
HOOKED = [TREE + n for n in ("new", "insert", "delete", "clear", "mid_order_traversal")]
ON = "algorithm::location::point_2_line_segment_2::is_point_2_on_line_segment_2"


def run(k):
    k.rules = ["for every arrangement type of two or three line segments (and sampled ones of four and five) — shared ends, ends on other segments, verticals, overlaps and repeated segments included — the sweep reports exactly the points that lie on two or more segments (ends of common parts for overlapping ones), each once, in point order", "the same when every computed crossing is off by rounding far below the tolerance, and the sweep ends", "a second call reports the same", "no path panics or prints"]
    gs = []
    for n, cases in types(k.tier).items():
        step = {2: 40, 3: 20, 4: 10, 5: 5}.get(n, 3)
        for i in range(0, len(cases), step):
            gs.append(("%d segments, types from %d" % (n, i), lambda n=n, c=cases[i:i + step]: sized(k, n, c)))
            some = cases[i:i + step] if k.tier != "quick" else cases[i:i + step:2]
            gs.append(("%d segments with rounding, types from %d" % (n, i), lambda n=n, c=some: sized(k, n, c, 1)))
    for ss in chosen("lines"):
        ss = [(tuple(c[1]), tuple(c[2])) for c in ss]
        for seed in range(2, 7 if k.tier == "quick" else 30):
            gs.append(("%s with rounding %d" % (ss, seed), lambda ss=ss, seed=seed: sized(k, len(ss), [ss], seed)))
    k.groups(gs)


def types(tier):
    """one representative per arrangement type (the signs of everything the sweep compares)"""
    rnd = random.Random(11)
    out = {}
    for n, g, tries, cap in ((2, 3, 0, 0), (3, 3, 4000, 120), (3, 6, 3000, 160), (4, 5, 600, 40), (5, 6, 200, 15)):
        if tier != "quick":
            tries, cap = tries * 6, cap * 6
        cells = [(x, y) for x in range(g) for y in range(g)]
        segs = [(a, b) for a in cells for b in cells if a < b]
        seen, got = set(), []
        pool = itertools.combinations_with_replacement(segs, 2) if n == 2 else ([rnd.choice(segs) for _ in range(n)] for _ in range(tries))
        for ss in pool:
            ss = [rnd.choice((s, s[::-1])) for s in ss]
            t = signature(ss)
            if t not in seen:
                seen.add(t)
                got.append(ss)
        if cap and len(got) > cap:  # those with the most meeting points first, then spread
            got.sort(key=lambda ss: -len(expected(ss)))
            got = got[:cap // 2] + got[cap // 2::max(1, (len(got) - cap // 2) // (cap // 2))][:cap // 2]
        out[n] = out.get(n, []) + got
    for ss in stars(1 if tier == "quick" else 6):
        out[len(ss)].append(ss)
    for ss in chosen("lines"):
        out.setdefault(len(ss), []).insert(0, [(tuple(c[1]), tuple(c[2])) for c in ss])
    return out


def stars(times):
    """several segments through, into and out of one point, and another that passes it first and later crosses the
    first, last or a middle one of those leaving it — every combination of kinds, on either side"""
    rnd = random.Random(5)
    out, count, seen, p = [], {}, set(), (0, 0)
    dirs = [(-a, b) for a in (0, 1, 2, 3) for b in (-3, -2, -1, 0, 1, 2, 3) if a or b < 0]
    for _ in range(40000):
        kinds = rnd.choice(["CC", "SC", "SS", "TC", "TCC", "CCS", "SSC", "TSC", "TTS", "TSS", "CCC", "SSCC", "TSSC", "TTC", "TTCC"])
        ss = []
        for m in kinds:
            d, e, f = rnd.choice(dirs), rnd.choice(dirs), rnd.choice((1, 1, 2))
            ss.append((p, d) if m == "S" else ((-e[0], -e[1]), p) if m == "T" else ((-d[0] * f, -d[1] * f), d))
        for _ in range(rnd.choice((1, 1, 2)) if len(kinds) < 3 else 1):
            ss.append(((rnd.randint(0, 4), rnd.randint(-4, 4)), (rnd.randint(-4, 0), rnd.randint(-4, 4))))
        if any(s[0] == s[1] for s in ss) or len({tuple(sorted(s)) for s in ss}) < len(ss):
            continue
        through, others = ss[:len(kinds)], ss[len(kinds):]
        if any(on(p, s) for s in others):
            continue
        leaving = sorted({min(s) for s in through if min(s) < p}, key=lambda e: Fraction(e[1], -e[0]) if e[0] else -99)
        feats = set()
        for o in others:
            for i, s in enumerate(through):
                if min(s) in leaving and any(q < p < max(o) for q in common(tuple(sorted(o)), tuple(sorted(s)))):
                    at = leaving.index(min(s))
                    feats.add((kinds, kinds[i], "first" if at == 0 else "last" if at == len(leaving) - 1 else "", orient3(max(o), min(o), p), len(leaving)))
        feats = {f for f in feats if count.get(f, 0) < times}
        t = signature(ss)
        if feats and t not in seen:
            seen.add(t)
            for f in feats:
                count[f] = count.get(f, 0) + 1
            rnd.shuffle(ss)
            neg = lambda p: (-p[0], -p[1])  # the sweep goes from the smallest coordinates to the greatest
            out.append([rnd.choice((s, s[::-1])) for s in [(neg(a), neg(b)) for a, b in ss]])
    return out


def chosen(kind):
    """arrangements picked by hand: those on which earlier wrong variants of the sweep differ from the right one"""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "sweep_cases.json")) as f:
        return json.load(f)[kind]


def signature(ss):
    norm = [tuple(sorted(s)) for s in ss]
    pts = {p for s in norm for p in s} | {p for s, t in itertools.combinations(norm, 2) for p in common(s, t)}
    pts = sorted(pts)
    xs, ys = sorted({p[0] for p in pts}), sorted({p[1] for p in pts})
    sig = [tuple((xs.index(p[0]), ys.index(p[1])) for p in pts)]
    for s in norm:
        a, b = s
        sig.append((pts.index(a), pts.index(b)))
        sig.append(tuple(orient3(a, b, p) for p in pts))
    return tuple(sig)


def expected(ss):
    norm = [tuple(sorted(s)) for s in ss]
    c = {p for s, t in itertools.combinations(norm, 2) for p in common(s, t)}
    return sorted(c, reverse=True)  # the library's point order: greater coordinates first


def on(p, s):
    a, b = s
    return orient3(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def common(s, t):
    """the crossing point, or the ends of each on the other"""
    ends = {p for p in s if on(p, t)} | {p for p in t if on(p, s)}
    if ends:
        return sorted(ends)
    (a, b), (c, d) = s, t
    if orient3(a, b, c) * orient3(a, b, d) < 0 and orient3(c, d, a) * orient3(c, d, b) < 0:
        den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
        l = Fraction((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0])) / Fraction(den)
        return [(a[0] + l * (b[0] - a[0]), a[1] + l * (b[1] - a[1]))]
    return []


def inorder(t):
    return [] if t is EMPTY else inorder(t.a[2]) + [t.a[1]] + inorder(t.a[3])


def height(t):
    return -1 if t is EMPTY else 1 + max(height(t.a[2]), height(t.a[3]))


def balanced(x, l, r):
    n = lambda v, a, b: mk("struct", "tree node", v, a, b)
    d = height(l) - height(r)
    if d > 1:
        if height(l.a[2]) < height(l.a[3]):
            m = l.a[3]
            return n(m.a[1], n(l.a[1], l.a[2], m.a[2]), n(x, m.a[3], r))
        return n(l.a[1], l.a[2], n(x, l.a[3], r))
    if d < -1:
        if height(r.a[3]) < height(r.a[2]):
            m = r.a[2]
            return n(m.a[1], n(x, l, m.a[2]), n(r.a[1], m.a[3], r.a[3]))
        return n(r.a[1], n(x, l, r.a[2]), r.a[3])
    return n(x, l, r)


def insert(t, x, cmp, once):
    if t is EMPTY:
        return mk("struct", "tree node", x, EMPTY, EMPTY)
    y, l, r = t.a[1:]
    c = cmp(x, y)
    if c == 1 and once:
        return t
    return balanced(y, insert(l, x, cmp, once), r) if c == 0 else balanced(y, l, insert(r, x, cmp, once))


def delete(t, x, cmp):
    if t is EMPTY:
        return t
    y, l, r = t.a[1:]
    c = cmp(x, y)
    if c == 0:
        return balanced(y, delete(l, x, cmp), r)
    if c == 2:
        return balanced(y, l, delete(r, x, cmp))
    if l is EMPTY or r is EMPTY:
        return r if l is EMPTY else l
    y = inorder(r)[0]
    return balanced(y, l, delete(r, y, cmp))


class Rounded(Realizer):
    """a representative with computed points off by far less than the tolerance; everything is exact here"""
    def __contains__(self, v):
        try:
            x = abs(self.value(v))
        except Unrealized:
            return False
        return x == 0 or isinstance(x, Fraction) and (x < ROUNDING * 1000 or x > MARGIN)


class Arrangement:
    def __init__(self, k, segs, rounded=None):
        self.k, self.segs = k, [tuple(sorted(s)) for s in segs]
        self.given = segs
        self.w, self.q = W(k, [INTER, ON] + HOOKED), W(k)
        pts = {p for s in segs for p in s}
        self.meets = set()
        for s, t in itertools.combinations(self.segs, 2):
            self.meets |= set(common(s, t))
        self.sym = {p: self.w.pt("p%d" % i) for i, p in enumerate(sorted(pts | self.meets))}
        self.type = Realizer({"p%d.%s" % (i, c): Fraction(p["xy".index(c)]) for i, p in enumerate(self.sym) for c in "xy"})
        if rounded is not None:
            self.type = Rounded(self.type.at)
        self.rounded, self.computed = rounded, {}
        self.w.cx.ufhook = self.hook

    def near(self, p, s, t):
        """the crossing as computed from these two segments: ends are passed on exactly"""
        if self.rounded is None or p in s + t:
            return self.sym[p].v
        key = (p, s, t)
        if key not in self.computed:
            rnd = random.Random("%s %s" % (self.rounded, key))
            n = "q%d" % len(self.computed)
            for c, x in zip("xy", p):
                self.type.at[n + "." + c] = Fraction(x) + (0 if s[0]["xy".index(c)] == s[1]["xy".index(c)] else rnd.randint(-3, 3) * ROUNDING)
            self.computed[key] = self.q.pt(n)
            setcx(self.w.cx)
            models.setup(self.w.cx)
        return self.computed[key].v

    def point(self, v):
        for p, s in self.sym.items():
            if s.v is v:
                return p
        for (p, _, _), s in self.computed.items():
            if s.v is v:
                return p
        raise Undecided("a point that is neither an end nor a meeting point: " + show(v)[:60])

    def seg(self, v):
        ps = [self.point(x) for x in v.a[1:] if isinstance(x, V) and x.k == "struct"]
        if len(ps) != 2:
            raise Undecided("LineSegment2 has another representation")
        return tuple(sorted(ps))

    def hook(self, cx, fn, env, args, dargs, st, site):
        if fn["p"] == ON:
            p = self.point(models.deref_full(cx, st, args[0]))
            s = self.seg(models.deref_full(cx, st, args[1]))
            return mkbool(on(p, s)), TRUE
        if fn["p"] == INTER:
            s, t = (self.seg(models.deref_full(cx, st, a)) for a in args)
            return seqlit(*[self.near(p, s, t) for p in common(s, t)]), TRUE
        if fn["p"].startswith(TREE):
            return self.tree(cx, fn["p"][len(TREE):], env, args, st, site)
        return None

    def tree(self, cx, name, env, args, st, site):
        """the balanced search tree: elements are looked up by the order they have now"""
        if name == "new":
            return mk("struct", "sorted tree", args[0], EMPTY), TRUE
        t = cx.load(st, args[0])
        if t.k != "struct" or t.a[0] != "sorted tree":
            raise Undecided("a tree of another origin")
        opt, root = t.a[1:]
        if root is not EMPTY and (root.k != "struct" or root.a[0] != "tree node"):
            raise Undecided("the tree's contents are not determined")
        if name == "mid_order_traversal":
            return seqlit(*inorder(root)), TRUE
        if name == "clear":
            root = EMPTY
        else:
            cmp = lambda x, y: self.order(cx, env, x, y, st, site)
            if name == "insert":
                if opt.k != "enum":
                    opt = models.deref_full(cx, st, opt)
                root = insert(root, args[1], cmp, cx.F.adts[opt.a[0]][1][opt.a[1]][0] == "DisableSameNode")
            else:
                root = delete(root, args[1], cmp)
        cx.store(st, args[0], mk("struct", "sorted tree", opt, root))
        return mk("unit"), TRUE

    def order(self, cx, env, a, b, st, site):
        o = models.value_cmp(cx, env[0], a, b, st, TRUE, site)
        if o.k != "enum":
            raise Undecided("the order of two elements is not determined")
        return o.a[1]

    def run(self, again, early=False):
        k, w = self.k, self.w
        T.ASSUME = self.type
        try:
            st = {}
            ref = k.mutarg(w.cx, st, "sweep", w.val(SWP + "new"), SW)
            for i, (a, b) in enumerate(self.given):
                if early and i and i == len(self.given) - 1:
                    st = k.call(w.cx, SWP + "intersection", [ref], None, st).st
                g = w.val("LineSegment2::<T>::new", self.sym[a].v, self.sym[b].v)
                st = k.call(w.cx, SWP + "push_segment", [ref, g], {1: KIND["L"]}, st).st
            r = k.call(w.cx, SWP + "intersection", [ref], None, st)
            return r, k.call(w.cx, SWP + "intersection", [ref], None, r.st) if again else None
        finally:
            T.ASSUME = {}


def sized(k, n, cases, rounded=None):
    for i, ss in enumerate(cases):
        c = Arrangement(k, ss, rounded)
        try:
            r, r2 = c.run(i % 5 == 0, i % 5 == 2)
        except Diverges as e:
            k.ob("the sweep of %d segments ends" % n, SWP, "refuted", "for the arrangement of %s: %s" % (ss, e))
            continue
        k.nopanic("the sweep of %d segments never panics" % n, r)
        if r.eff:
            k.ob("the sweep of %d segments has no effect" % n, r.site(), "refuted", "for %s it performs %s" % (ss, [e[1] for e in r.eff][:3]))
        name = "the sweep of %d segments reports the points on two or more of them, each once" % n
        try:
            if r.v.k != "seqlit":
                raise Undecided("the reported points are not determined: " + show(r.v)[:200])
            got = [c.point(x) for x in r.v.a]
        except Undecided as e:
            k.ob(name, r.site(), "undecided", str(e))
            continue
        want = expected(ss)
        sh = lambda ps: [tuple(str(x) for x in p) for p in ps]
        k.ob(name, r.site(), "proved" if got == want else "refuted", None if got == want else "for the arrangement of %s it reports %s, the points on two or more segments are %s" % (ss, sh(got), sh(want)))
        if r2:
            k.nopanic("a second call of the sweep never panics", r2)
            if r2.v.k == "seqlit":
                two = [c.point(x) for x in r2.v.a]
                k.ob("a second call reports the same points", r2.site(), "proved" if two == want else "refuted", None if two == want else "for the arrangement of %s the second call reports %s, not %s" % (ss, sh(two), sh(want)))
