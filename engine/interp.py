"""Abstract evaluation of MIR into gated value graphs.

Every basic block of a function is evaluated once, in topological order of the loop-collapsed control
flow graph; joins merge the incoming states with gates on the branch conditions; calls are summarised
by evaluating the callee on the abstract arguments; loops are summarised (see loops.py part below).
No statement is executed on concrete data.
"""
from terms import *
import terms as T

# ------------------------------------------------------------------ types as hashable tuples


def hty(t):
    k = t["k"]
    if k == "prim":
        return ("prim", t["n"])
    if k == "adt":
        return ("adt", t["p"], tuple(hty(a) for a in t["a"]))
    if k == "array":
        return ("array", hty(t["t"]), t["n"])
    if k == "slice":
        return ("slice", hty(t["t"]))
    if k in ("ref", "rawptr"):
        return ("ref", bool(t["m"]), hty(t["t"]))
    if k == "tuple":
        return ("tuple", tuple(hty(a) for a in t["a"]))
    if k == "param":
        return ("param", t["n"], t["i"])
    if k == "closure":
        return ("closure", t["p"], tuple(hty(a) for a in t.get("up", [])))
    if k == "fndef":
        return ("fndef", t.get("u"), t.get("p"), tuple(hty(a) for a in t.get("a", [])), t.get("trait"), t.get("name"), bool(t.get("local")))
    return ("other", t.get("n", "?"))


def tsub(t, env):
    k = t[0]
    if k == "param":
        return env.get(t[2], t)
    if k == "adt":
        return ("adt", t[1], tuple(tsub(a, env) for a in t[2]))
    if k in ("array",):
        return ("array", tsub(t[1], env), t[2])
    if k == "slice":
        return ("slice", tsub(t[1], env))
    if k == "ref":
        return ("ref", t[1], tsub(t[2], env))
    if k == "tuple":
        return ("tuple", tuple(tsub(a, env) for a in t[1]))
    if k == "closure":
        return ("closure", t[1], tuple(tsub(a, env) for a in t[2]))
    if k == "fndef":
        return t[:3] + (tuple(tsub(a, env) for a in t[3]),) + t[4:]
    return t


INTS = {"usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128"}
UNSIGNED = {"usize", "u8", "u16", "u32", "u64", "u128"}
TPARAM = ("param", "T", 0)


def short(p):
    return p.split("::")[-1]


class Imprecise(Exception):
    pass


class Undecided(Exception):
    pass


class Diverges(Exception):
    """a loop of the analysed case never ends"""


class Facts:
    def __init__(self, d):
        self.d = d
        self.fns = {}
        self.byp = {}
        for f in d["fns"]:
            self.fns[f["u"]] = f
            self.byp.setdefault(f["p"], f)
        self.adts = {}
        for a in d["adts"]:
            self.adts[a["p"]] = (
                a["kind"],
                [(v["n"], v["d"], [(x["n"], hty(x["ty"]), x["pub"]) for x in v["f"]]) for v in a["v"]],
                a,
            )
        self.impls = {}
        for im in d["impls"]:
            self.impls.setdefault(im["trait"], []).append(im)
        self.traits = {t["p"]: {n: (u, dflt) for n, u, dflt in t["items"]} for t in d["traits"]}
        self.cfg = {}

    def find(self, suffix):
        """unique function whose path ends with the given suffix"""
        r = [f for f in self.d["fns"] if f.get("body") and (f["p"] == suffix or f["p"].endswith("::" + suffix))]
        return r[0] if len(r) == 1 else None

    def findall(self, pred):
        return [f for f in self.d["fns"] if f.get("body") and pred(f)]


# ------------------------------------------------------------------ sequences
def seqlit(*xs):
    return mk("seqlit", *xs)


EMPTY = seqlit()


def seq_cat(a, b):
    if a is EMPTY:
        return b
    if b is EMPTY:
        return a
    if a.k == "node" or b.k == "node":
        if a.k == "node":
            return bind(a, lambda x: BOT if x is BOT else seq_cat(x, b))
        return bind(b, lambda x: BOT if x is BOT else seq_cat(a, x))
    if a is BOT or b is BOT:
        return BOT
    pa = list(a.a) if a.k == "cat" else [a]
    pb = list(b.a) if b.k == "cat" else [b]
    if pa[-1].k == "seqlit" and pb[0].k == "seqlit":
        pa[-1:] = [seqlit(*(pa[-1].a + pb[0].a))]
        pb = pb[1:]
    ps = pa + pb
    return ps[0] if len(ps) == 1 else mk("cat", *ps)


def seq_len(s):
    k = s.k
    if k == "node":
        return bind(s, lambda x: BOT if x is BOT else seq_len(x))
    if k == "seqlit":
        return const(len(s.a))
    if k == "cat":
        r = ZERO
        for x in s.a:
            r = vadd(r, seq_len(x))
        return r
    if k == "flat":
        h, n, body = s.a
        ls = leaves(seq_len(body)) if body.k != "bot" else [ZERO]
        if len(ls) == 1 and isconst(ls[0]) and n.k == "num":
            return nmul(n, ls[0])
    if k in ("sort", "rev", "upd"):
        return seq_len(s.a[0])
    if k == "slice":
        return vsub(s.a[2], s.a[1])
    return numatom(atom(("len", s), True, True))


def vadd(a, b):
    if a.k == "num" and b.k == "num":
        return nadd(a, b)
    return mapn(lambda x, y: BOT if BOT in (x, y) else nadd(x, y), a, b)


def vsub(a, b):
    if a.k == "num" and b.k == "num":
        return nsub(a, b)
    return mapn(lambda x, y: BOT if BOT in (x, y) else nsub(x, y), a, b)


def vmul(a, b):
    if a.k == "num" and b.k == "num":
        return nmul(a, b)
    return mapn(lambda x, y: BOT if BOT in (x, y) else nmul(x, y), a, b)


def vcmp(f, a, b):
    if a.k == "num" and b.k == "num":
        return f(a, b)
    return bindn(lambda x, y: BOT if BOT in (x, y) else f(x, y), a, b)


BND = {}


def bnd(h):
    """bound index variable of height h"""
    if h not in BND:
        BND[h] = atom(("b", h), True, True)
    return BND[h]


def height(v):
    """largest bound height inside a value"""
    r = -1
    for x in atoms_of(v):
        d = ATOMS[x]
        if d[0] == "b":
            r = max(r, d[1])
    return r


class Ctx:
    """one analysis universe: facts + configuration"""

    def __init__(self, facts, uf=(), inline_limit=60):
        self.F = facts
        self.uf = set(uf)  # function paths kept uninterpreted
        self.rtype = {}  # root -> type
        self.hcnt = 0
        self.fcnt = 0
        self.lcnt = 0
        self.memo = {}
        self.stack = []
        self.imprecise = []  # notes
        self.effects = []  # frames' effect lists (stack of lists)
        self.panics = []
        self.domain, self.domained = False, []  # whether partial functions are checked, and where they are applied
        self.calls = []  # analysed functions
        self.analysed = set()
        self.norec = 6  # recursive calls followed before the call is left uninterpreted
        self.selfty = {}
        self.loops = {}
        self.loopdepth = 0

    def note(self, s):
        if s not in self.imprecise:
            self.imprecise.append(s)

    # -------------------------------------------------------------- symbolic values by type
    def sym(self, ty, term):
        k = ty[0]
        name = term
        if k == "param" or (k == "prim" and ty[1] in ("f32", "f64")):
            return numatom(atom(("opq", term)))
        if k == "prim":
            n = ty[1]
            if n in INTS:
                return numatom(atom(("opq", term), True, n in UNSIGNED))
            if n == "bool":
                return finnode(term, [FALSE, TRUE])
            if n == "!" or n == "never":
                return BOT
            return mk("opq", term)
        if k == "tuple":
            return mk("struct", "()", *[self.sym(t, (".", term, str(i))) for i, t in enumerate(ty[1])])
        if k == "adt":
            p = ty[1]
            env = dict(enumerate(ty[2]))
            if p in self.F.adts:
                kind, vs, _ = self.F.adts[p]
                if kind == "Struct":
                    return mk("struct", p, *[self.sym(tsub(ft, env), (".", term, fn)) for fn, ft, _ in vs[0][2]])
                out = []
                for i, (vn, d, fl) in enumerate(vs):
                    out.append(mk("enum", p, i, *[self.sym(tsub(ft, env), ("as", term, vn, fn)) for fn, ft, _ in fl]))
                return finnode(("discr", term), out) if len(out) > 1 else out[0]
            s = short(p)
            if s == "Option":
                return finnode(("discr", term), [mk("enum", "Option", 0), mk("enum", "Option", 1, self.sym(ty[2][0], ("as", term, "Some", "0")))])
            if s == "Ordering":
                return finnode(("discr", term), [mk("enum", "Ordering", i) for i in range(3)])
            if s in ("Vec", "VecDeque"):
                return mk("symseq", term, mk("ty", ty[2][0]))
            if s == "Rc":
                return self.rcsym(ty[2][0], term)
            if s == "RefCell" or s == "Cell":
                return self.sym(ty[2][0], term)
            if s in ("Ref", "RefMut"):
                root = ("S", ("*", term))
                self.rtype[root] = ty[2][0]
                return mk("ref", root, ())
            if s == "Box":
                return self.sym(ty[2][0], term)
            return mk("opq", term)
        if k == "slice":
            return mk("symseq", term, mk("ty", ty[1]))
        if k == "array":
            n = ty[2]
            if isinstance(n, int) and n <= 16:
                return seqlit(*[self.sym(ty[1], ("elem", term, i)) for i in range(n)])
            return mk("symseq", term, mk("ty", ty[1]))
        if k == "ref":
            root = ("S", ("*", term))
            self.rtype[root] = ty[2]
            return mk("ref", root, ())
        return mk("opq", term)

    def rcsym(self, inner, term):
        root = ("S", ("*", term))
        self.rtype[root] = inner
        return mk("rc", root)

    # -------------------------------------------------------------- sequence access
    def seq_get(self, s, i, ety):
        """element i (Num) of sequence s"""
        k = s.k
        if k == "node":
            return bind(s, lambda x: BOT if x is BOT else self.seq_get(x, i, ety))
        if i.k == "node":
            return bind(i, lambda x: BOT if x is BOT else self.seq_get(s, x, ety))
        if s is BOT or i is BOT:
            return BOT
        if k == "seqlit":
            if isconst(i):
                c = cval(i)
                return s.a[int(c)] if c.denominator == 1 and 0 <= c < len(s.a) else BOT
            r = BOT
            for j, x in enumerate(s.a):
                r = x if j == 0 else ite(eq0(i, const(j)), x, r)
            return r
        if k == "cat":
            off = ZERO
            for j, x in enumerate(s.a):
                l = seq_len(x)
                if l.k != "num" or off.k != "num":
                    break
                rel = nsub(i, off)
                inside = nsub(nsub(l, rel), ONE)
                if isconst(rel) and isconst(l):
                    if 0 <= cval(rel) < cval(l):
                        return self.seq_get(x, rel, ety)
                elif T.nonneg(inside) and T.nonneg(rel):
                    return self.seq_get(x, rel, ety)
                off = nadd(off, l)
        if k == "flat":
            h, n, body = s.a
            if body.k == "seqlit" and len(body.a) == 1:
                return subst(body.a[0], {bnd(h): i})
        if k == "rev":
            return self.seq_get(s.a[0], nsub(nsub(seq_len(s.a[0]), ONE), i), ety)
        if k == "slice":
            return self.seq_get(s.a[0], nadd(s.a[1], i), ety)
        if k == "upd":  # (base, index, value)
            b, j, v = s.a
            return ite(eq0(i, j), v, self.seq_get(b, i, ety))
        if k == "symseq" and isinstance(s.a[0], tuple) and False:
            pass
        return self.sym(ety, ("elem", s, i))

    def seq_set(self, s, i, v):
        if s.k == "node":
            return bind(s, lambda x: self.seq_set(x, i, v))
        if s is BOT:
            return BOT
        if i.k == "node":
            return bind(i, lambda x: BOT if x is BOT else self.seq_set(s, x, v))
        if s.k == "seqlit":
            if isconst(i):
                c = int(cval(i))
                if 0 <= c < len(s.a):
                    return seqlit(*(s.a[:c] + (v,) + s.a[c + 1:]))
                return BOT
            return seqlit(*[ite(eq0(i, const(j)), v, x) for j, x in enumerate(s.a)])
        return mk("upd", s, i, v)

    # -------------------------------------------------------------- fields
    def field(self, v, e, ety=None):
        k = v.k
        if k == "node":
            return bind(v, lambda x: self.field(x, e, ety))
        if v is BOT:
            return BOT
        if e[0] == "f":
            if k == "struct":
                return v.a[1 + e[1]] if 1 + e[1] < len(v.a) else BOT
            if k == "enum":
                return v.a[2 + e[1]] if 2 + e[1] < len(v.a) else BOT
            if k == "clo":
                return v.a[2 + e[1]]
            if k == "ref" and e[1] == 0:
                return v  # Box.0, Unique, NonNull …
            if k == "opq":
                return mk("opq", (".", v, e[1]))
            return v
        if e[0] == "v":
            if k == "enum":
                if v.a[1] != e[1]:
                    return BOT
                return v.a[2 + e[2]]
            return mk("opq", ("as", v, e[1], e[2]))
        if e[0] == "i":
            return self.seq_get(v, e[1], ety if ety is not None else ("other", "?"))
        raise Undecided("field %r of %s" % (e, k))

    def setfield(self, v, e, x):
        k = v.k
        if k == "node":
            return bind(v, lambda l: self.setfield(l, e, x))
        if e[0] == "f":
            if k in ("struct",):
                a = list(v.a)
                a[1 + e[1]] = x
                return mk(k, *a)
            if k == "clo" or k == "enum":
                a = list(v.a)
                a[2 + e[1]] = x
                return mk(k, *a)
            if v is BOT:
                return BOT
            return x
        if e[0] == "v":
            if k == "enum" and v.a[1] == e[1]:
                a = list(v.a)
                a[2 + e[2]] = x
                return mk(k, *a)
            return BOT
        if e[0] == "i":
            return self.seq_set(v, e[1], x)
        raise Undecided("set %r" % (e,))

    def read(self, v, path, tys=None):
        for e in path:
            v = self.field(v, e[:3], e[3] if len(e) > 3 else None)
        return v

    def write(self, v, path, x):
        if not path:
            return x
        if v is BOT and path[0][0] == "f":
            return None  # partial initialisation: handled by caller
        e = path[0]
        if v.k == "node":
            memo = {}
            return bind(v, lambda l: BOT if l is BOT else self.write(l, path, x), memo)
        if e[0] == "v" and v.k == "enum" and v.a[1] != e[1]:
            return BOT
        inner = self.field(v, e[:3], e[3] if len(e) > 3 else None)
        w = self.write(inner, path[1:], x)
        return self.setfield(v, e[:3], w)

    # -------------------------------------------------------------- state access
    def get(self, st, root):
        v = st.get(root)
        if v is None:
            if root[0] == "A":
                return root[1]
            if root[0] == "S":
                ty = self.rtype.get(root)
                if ty is None:
                    return mk("opq", root[1])
                v = self.sym(ty, root[1])
                return v
            return BOT
        return v

    def load(self, st, ref):
        if ref.k == "ref":
            return self.read(self.get(st, ref.a[0]), ref.a[1])
        if ref.k == "rc":
            return self.get(st, ref.a[0])
        if ref.k == "node":
            return bind(ref, lambda r: self.load(st, r))
        if ref is BOT:
            return BOT
        return ref  # boxes and other transparent pointers

    def store(self, st, ref, v, cond=TRUE):
        if ref.k == "node":
            # conditional strong update per target
            for leaf in leaves(ref):
                if leaf is BOT:
                    continue
                c = cleanb(cond_of(ref, lambda x, l=leaf: x is l))
                self.store(st, leaf, v, band(cond, c))
            return
        if ref is BOT:
            return
        if ref.k == "rc":
            ref = mk("ref", ref.a[0], ())
        if ref.k != "ref":
            raise Undecided("store through " + ref.k)
        root, path = ref.a
        old = self.get(st, root)
        if root[0] == "A":
            raise Undecided("store through shared content")
        new = self.write(old, path, v)
        if new is None:
            new = v
        st[root] = new if cond is TRUE else ite(cond, new, old)

    def ptr(self, v):
        """pointer value for a deref"""
        return v

    def addref(self, ref, e):
        if ref.k == "ref":
            return mk("ref", ref.a[0], ref.a[1] + (e,))
        if ref.k == "rc":
            return mk("ref", ref.a[0], (e,))
        if ref.k == "node":
            return bind(ref, lambda r: self.addref(r, e))
        if ref is BOT:
            return BOT
        raise Undecided("projection of " + ref.k)

    def deepres(self, st, v, depth=0):
        """replace references by their contents (arguments of uninterpreted functions, comparisons)"""
        if depth > 8:
            return v
        if v.k == "node":
            return bind(v, lambda x: self.deepres(st, x, depth))
        if v.k == "ref":
            return self.deepres(st, self.load(st, v), depth + 1)
        if v.k == "struct":
            return mk("struct", v.a[0], *[self.deepres(st, x, depth + 1) for x in v.a[1:]])
        if v.k == "enum":
            return mk("enum", v.a[0], v.a[1], *[self.deepres(st, x, depth + 1) for x in v.a[2:]])
        if v.k == "seqlit":
            return seqlit(*[self.deepres(st, x, depth + 1) for x in v.a])
        if v.k == "flat":
            return mk("flat", v.a[0], v.a[1], self.deepres(st, v.a[2], depth + 1))
        if v.k == "cat":
            r = EMPTY
            for x in v.a:
                r = seq_cat(r, self.deepres(st, x, depth + 1))
            return r
        return v


def has_ref(v, seen=None):
    return bool(terms_in(v, lambda x: x.k in ("ref", "rc", "iter", "clo")))
