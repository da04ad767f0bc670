"""Substitution of atoms and symbolic terms with re-normalisation (element access, lengths, sums …)."""
from interp import *
import interp as I
import terms as T


def mentions(v, pred):
    """does a value mention a term (tuple) satisfying pred anywhere"""
    seen = set()

    def rec(x):
        if isinstance(x, tuple):
            if x in seen:
                return False
            seen.add(x)
            if pred(x):
                return True
            return any(rec(y) for y in x if isinstance(y, (tuple, V)))
        if not isinstance(x, V) or x in seen:
            return False
        seen.add(x)
        if x.k == "num":
            for pk in x.a:
                for m, _ in pk:
                    for a, _e in m:
                        d = ATOMS[a]
                        if d in seen:
                            continue
                        seen.add(d)
                        if pred(d) or any(rec(y) for y in d[1:] if isinstance(y, (tuple, V))):
                            return True
            return False
        return any(rec(y) for y in x.a if isinstance(y, (tuple, V)))

    return rec(v)


def collect_terms(v, pred, out):
    seen = set()

    def rec(x):
        if isinstance(x, tuple):
            if x in seen:
                return
            seen.add(x)
            if pred(x):
                out[x] = None
            for y in x:
                if isinstance(y, (tuple, V)):
                    rec(y)
            return
        if not isinstance(x, V) or x in seen:
            return
        seen.add(x)
        if x.k == "num":
            for pk in x.a:
                for m, _ in pk:
                    for a, _e in m:
                        rec(ATOMS[a])
            return
        for y in x.a:
            if isinstance(y, (tuple, V)):
                rec(y)

    rec(v)
    return out


class MSubst:
    def __init__(self, cx, amap=None, tmap=None):
        self.cx = cx
        self.am = amap or {}
        self.tm = tmap or {}
        self.memo = {}
        self.amemo = {}

    def tup(self, t):
        if t in self.tm:
            return self.tm[t]
        return tuple(self.val(x) if isinstance(x, (V, tuple)) else x for x in t)

    def val(self, v):
        if isinstance(v, tuple):
            return self.tup(v)
        if not isinstance(v, V):
            return v
        r = self.memo.get(v)
        if r is None:
            r = self._val(v)
            self.memo[v] = r
        return r

    def termval(self, t):
        """value denoted by a symbolic term, if the substitution makes it concrete: used for projections of mapped terms"""
        if not isinstance(t, tuple) or not t:
            return None
        if t in self.tm:
            return self.tm[t]
        if t[0] == "." and len(t) == 3:
            b = self.termval(t[1])
            if b is None:
                return None
            return self.projf(b, t[2])
        if t[0] == "as" and len(t) == 4:
            b = self.termval(t[1])
            if b is None:
                return None
            return self.proja(b, t[2], t[3])
        if t[0] == "elem" and len(t) == 3 and isinstance(t[1], V):
            s = self.val(t[1])
            i = t[2]
            i = self.val(i) if isinstance(i, V) else const(i)
            if s is t[1] and i is t[2]:
                return None
            if s.k in ("symseq",) and i.k == "num":
                return None
            ety = self.cx_ety(s)
            if s.k in ("seqlit", "node", "cat", "flat", "rev", "slice", "upd") or i.k == "node":
                if ety is None and s.k != "seqlit":
                    return None
                return self.cx.seq_get(s, i, ety)
            return None
        if t[0] == "*" and len(t) == 2:
            return None
        return None

    def cx_ety(self, s):
        for x in terms_in(s, lambda x: x.k == "symseq"):
            return x.a[1].a[0]
        for x in terms_in(s, lambda x: x.k == "seqlit" and len(x.a) > 0):
            for y in x.a:
                t = self.vty(y)
                if t is not None:
                    return t
        return ("other", "?")

    def vty(self, y):
        for l in leaves(y):
            if l.k == "num":
                return ("prim", "usize") if isint(l) and nonneg(l) and l.a[0] and not isconst(l) else TPARAM
            if l.k == "bool":
                return ("prim", "bool")
            if l.k == "struct" and l.a[0] in self.cx.F.adts:
                return ("adt", l.a[0], (TPARAM,) if self.cx.F.adts[l.a[0]][2].get("g", 1) else ())
        return None

    def projf(self, b, n):
        def f(x):
            if x is BOT:
                return BOT
            if x.k == "struct":
                if x.a[0] in self.cx.F.adts:
                    for i, (fn, _, _) in enumerate(self.cx.F.adts[x.a[0]][1][0][2]):
                        if fn == n:
                            return x.a[1 + i]
                if str(n).isdigit():
                    return x.a[1 + int(n)]
            return mk("opq", (".", x, n))
        return bind(b, f)

    def proja(self, b, vn, n):
        def f(x):
            if x is BOT:
                return BOT
            if x.k == "enum":
                if x.a[0] == "Option":
                    return x.a[2] if x.a[1] == 1 and vn == "Some" else BOT
                vs = self.cx.F.adts[x.a[0]][1]
                if vs[x.a[1]][0] != vn:
                    return BOT
                for i, (fn, _, _) in enumerate(vs[x.a[1]][2]):
                    if fn == n:
                        return x.a[2 + i]
            return mk("opq", ("as", x, vn, n))
        return bind(b, f)

    def _val(self, v):
        k = v.k
        if k == "num":
            return self.num(v)
        if k in ("bool", "bot", "ty", "str"):
            return v
        if k == "node":
            var, cuts, ch = v.a
            ch = [self.val(x) for x in ch]
            if var.k == "fv":
                t = var.a[0]
                tv = None
                if t in self.tm:
                    tv = self.tm[t]
                elif isinstance(t, tuple) and t and t[0] == "discr":
                    tv = self.termval(t[1])
                elif isinstance(t, tuple):
                    tv = self.termval(t)
                if tv is not None:
                    def sel(x):
                        if x is BOT:
                            return BOT
                        if x.k == "bool":
                            return ch[int(x.a[0])]
                        if x.k == "enum":
                            return ch[x.a[1]]
                        if x.k == "num" and isconst(x):
                            return ch[int(cval(x))]
                        raise Undecided("case on " + x.k)
                    return bind(tv, sel)
                nt = self.tup(t) if isinstance(t, tuple) else self.val(t)
                if nt is t or nt == t:
                    return rebuild(var, (), ch)
                if isinstance(nt, tuple) and nt and nt[0] == "first":
                    return mkfirst(self.cx, nt[1], nt[2], ch, nt[3])
                return rebuild(finvar(nt, var.a[1]), (), ch)
            p = self.val(var.a[0])
            def build(pv):
                if pv is BOT:
                    return BOT
                r = ch[-1]
                for c, x in zip(reversed(cuts), reversed(ch[:-1])):
                    cond = lt(pv, c[0]) if c[1] == 0 else le(pv, c[0])
                    r = ite(cond, x, r)
                return r
            if p is var.a[0]:
                return rebuild(var, cuts, ch)
            return bind(p, build)
        if k == "symseq":
            if v.a[0] in self.tm:
                return self.tm[v.a[0]]
            tv = self.termval(v.a[0])
            if tv is not None:
                return tv
            nt = self.tup(v.a[0]) if isinstance(v.a[0], tuple) else v.a[0]
            return mk("symseq", nt, v.a[1])
        if k in ("ref", "rc"):
            root = v.a[0]
            if root[0] == "S" and isinstance(root[1], tuple) and root[1][0] == "*":
                tv = self.tm.get(root[1][1])
                if tv is None:
                    tv = self.termval(root[1][1])
                if tv is not None:
                    if k == "rc":
                        return tv
                    path = tuple(self.pe(e) for e in v.a[1])
                    def add(r):
                        for e in path:
                            r = self.cx.addref(r, e)
                        return r
                    return bind(tv, add)
                nt = ("S", self.tup(root[1]))
                if nt != root and root in self.cx.rtype:
                    self.cx.rtype[nt] = self.cx.rtype[root]
                root = nt
            elif root[0] == "A":
                root = ("A", self.val(root[1]))
            if k == "rc":
                return mk("rc", root)
            r = mk("ref", root, ())
            for e in v.a[1]:
                e2 = self.pe(e)
                if e2[0] == "i" and e2[1].k == "node":
                    r = bindn(lambda i, rr: self.cx.addref(rr, ("i", i) + e2[2:]), e2[1], r)
                else:
                    r = self.cx.addref(r, e2)
            return r
        if k == "struct":
            return mk("struct", v.a[0], *[self.val(x) for x in v.a[1:]])
        if k == "enum":
            return mk("enum", v.a[0], v.a[1], *[self.val(x) for x in v.a[2:]])
        if k == "seqlit":
            return mk("seqlit", *[self.val(x) for x in v.a])
        if k == "cat":
            r = EMPTY
            for x in v.a:
                r = seq_cat(r, self.val(x))
            return r
        if k == "flat":
            n = self.val(v.a[1])
            b = self.val(v.a[2])
            return mkflat(self.cx, v.a[0], n, b)
        if k == "clo":
            return mk("clo", *[self.val(x) if isinstance(x, V) else x for x in v.a])
        return mk(k, *[self.val(x) if isinstance(x, (V, tuple)) else x for x in v.a])

    def pe(self, e):
        if e[0] == "i":
            return ("i", self.val(e[1])) + tuple(e[2:])
        return e

    def poly(self, pk):
        r = ZERO
        for m, c in pk:
            t = const(c)
            for x, e in m:
                a = self.atom(x)
                for _ in range(e):
                    t = vmul(t, a)
            r = vadd(r, t)
        return r

    def num(self, v):
        hit = False
        for pk in v.a:
            for m, _ in pk:
                for x, _e in m:
                    a = self.atom(x)
                    if a.k != "num" or a is not numatom(x):
                        hit = True
        if not hit:
            return v
        n = self.poly(v.a[0])
        if isone(v.a[1]):
            return n
        d = self.poly(v.a[1])
        return mapn(lambda x, y: BOT if BOT in (x, y) else ndiv(x, y), n, d)

    def atom(self, x):
        if x in self.am:
            return self.am[x]
        r = self.amemo.get(x)
        if r is None:
            r = self._atom(x)
            self.amemo[x] = r
        return r

    def _atom(self, x):
        d = ATOMS[x]
        k = d[0]
        if k in ("eps", "pi", "sym", "b", "idx", "nan"):
            return numatom(x)
        if k == "opq":
            tv = self.termval(d[1]) if isinstance(d[1], tuple) else None
            if tv is not None:
                return tv
            nt = self.tup(d[1]) if isinstance(d[1], tuple) else (self.val(d[1]) if isinstance(d[1], V) else d[1])
            if nt == d[1]:
                return numatom(x)
            return numatom(atom(("opq", nt), AINT[x], ANONNEG[x]))
        if k == "fidx":
            nt = self.tup(d)
            return numatom(x) if nt == d else mkfidx(self.cx, nt[1], nt[2], nt[3])
        args = [self.val(y) if isinstance(y, (V, tuple)) else y for y in d[1:]]
        if tuple(args) == d[1:]:
            return numatom(x)
        if k == "len":
            return seq_len(args[0])
        if k == "sum":
            return mksum(self.cx, d[1], args[1], args[2])
        vs = [a for a in args if isinstance(a, V) and a.k == "node"]

        def app(*a):
            if BOT in a:
                return BOT
            if k == "sqrt":
                return nsqrt(a[0])
            if k == "abs":
                return nabs(a[0])
            if k == "sin":
                return nsin(a[0])
            if k == "cos":
                return ncos(a[0])
            if k == "mod":
                return nmod(*a)
            if k == "idiv":
                return nidiv(*a)
            if k == "atan2":
                return natan2(*a)
            return numatom(atom((k,) + a, AINT[x], ANONNEG[x]))
        if vs and k in ("sqrt", "abs", "sin", "cos", "mod", "idiv", "atan2", "acos", "atan", "fmod", "trunc"):
            return bindn(app, *args)
        return app(*args)


def msub(cx, v, amap=None, tmap=None):
    if not amap and not tmap:
        return v
    return MSubst(cx, amap, tmap).val(v)


# ------------------------------------------------------------------ binders
_HG = {}


def hgt(v):
    """greatest binder height mentioned in a value"""
    if v in _HG:
        return _HG[v]
    r = -1
    out = collect_terms(v, lambda t: t and t[0] in ("b", "lm", "sum", "first", "fidx") and len(t) > 1, {})
    for t in out:
        h = t[1] if t[0] in ("b", "lm", "sum") else t[3]
        if isinstance(h, int):
            r = max(r, h)
    for x in terms_in(v, lambda x: x.k in ("flat", "loop")):
        r = max(r, x.a[0])
    _HG[v] = r
    return r


def close(cx, u, *vs):
    """bind index atom u in the values: returns (height, values)"""
    h = 1 + max([hgt(v) for v in vs] + [-1])
    b = numatom(bnd(h))
    return h, [msub(cx, v, {u: b}) for v in vs]


def has_atom(v, a):
    return a in atoms_of(v)


def mksum(cx, h, n, body):
    if body is ZERO:
        return ZERO
    if n.k == "node":
        return bind(n, lambda x: BOT if x is BOT else mksum(cx, h, x, body))
    if isconst(n):
        c = cval(n)
        if c <= 12:
            r = ZERO
            for i in range(max(0, int(c))):
                r = vadd(r, msub(cx, body, {bnd(h): const(i)}))
            return r
    if body.k == "num" and not has_atom(body, bnd(h)):
        return nmul(n, body)
    if body.k == "num" and isone(body.a[1]) and len(body.a[0]) > 1:
        # linearity: constant factors only are pulled out (keeps one canonical sum atom)
        pass
    if body.k == "num":
        p = P(body)
        c = p[T._lead(p)]
        if c != 1:
            return nmul(const(c), mksum(cx, h, n, mknum(pscale(p, 1 / c), Q(body))))
    return numatom(atom(("sum", h, n, body)))


def mkflat(cx, h, n, body):
    if body is EMPTY:
        return EMPTY
    if n.k == "node":
        return bind(n, lambda x: BOT if x is BOT else mkflat(cx, h, x, body))
    if hgt(n) < h:
        body = ctx_upper(cx, body, bnd(h), n)
        if body is EMPTY:
            return EMPTY
    if isconst(n) and cval(n) <= 12:
        r = EMPTY
        for i in range(max(0, int(cval(n)))):
            r = seq_cat(r, msub(cx, body, {bnd(h): const(i)}))
        return r
    return mk("flat", h, n, body)


INF = mk("inf")


def mkfidx(cx, n, conds, h):
    """the first index < n satisfying some condition (n when there is none)"""
    c = FALSE
    for x in conds:
        c = bor(c, x)
    c = cleanb(c)
    if n.k == "node":
        return bind(n, lambda x: BOT if x is BOT else mkfidx(cx, x, conds, h))
    if c is FALSE and n is not INF:
        return n
    if n is not INF and isconst(n) and cval(n) <= 0:
        return ZERO
    if not has_atom(c, bnd(h)) and c is TRUE:
        return ZERO if n is INF else ite(gt(n, ZERO), ZERO, n)
    a = numatom(atom(("fidx", n, (c,), h), True, True))
    if n is INF:
        for i in (2, 1, 0):
            a = ite(cleanb(msub(cx, c, {bnd(h): const(i)})), const(i), a)
    return a


def mkfirst(cx, n, conds, children, h):
    """decision: children[0] when no index < n satisfies any condition, children[j] when the first index
    satisfying some condition satisfies conds[j-1] (conditions are disjoint)"""
    keep = [(c, x) for c, x in zip(conds, children[1:]) if c is not FALSE]
    if n.k == "node":
        return bind(n, lambda x: BOT if x is BOT else mkfirst(cx, x, conds, children, h))
    if not keep:
        return children[0]
    conds = tuple(c for c, _ in keep)
    children = [children[0]] + [x for _, x in keep]
    if n is INF and len(conds) == 1:
        return children[1]
    if n is not INF and isconst(n):
        c = cval(n)
        if c <= 12:
            r = children[0]
            for i in reversed(range(max(0, int(c)))):
                for cj, x in zip(conds, children[1:]):
                    r = ite(msub(cx, cj, {bnd(h): const(i)}), x, r)
            return r
    if all(x is children[0] for x in children):
        return children[0]
    if n is INF and all(x is children[1] for x in children[1:]):
        return children[1]
    k0 = 1 if n is INF else 0
    r = rebuild(finvar(("first", n, conds, h), len(children)), (), [BOT if n is INF else children[0]] + children[1:])
    if n is INF:
        for i in (2, 1, 0):
            for cj, x in zip(conds, children[1:]):
                r = ite(cleanb(msub(cx, cj, {bnd(h): const(i)})), x, r)
    return r


def exists(cx, n, u, cond):
    """boolean: some index u < n satisfies cond"""
    cond = cleanb(cond)
    if cond is FALSE:
        return FALSE
    if not has_atom(cond, u):
        if n is INF:
            return cond
        return band(vcmp(gt, n, ZERO), cond)
    h, (c,) = close(cx, u, cond)
    return mkfirst(cx, n, (c,), [FALSE, TRUE], h)


def ctx_upper(cx, v, u, n):
    """simplify v knowing the index u satisfies u < n"""
    if n is INF or n.k != "num":
        return v
    r = canon_ord(nsub(numatom(u), n))
    if r is None:
        return v
    P_, sg, th = r
    # u - n < 0  integers
    if isint(P_) and isconst(th):
        c = cval(th)
        if sg > 0:
            k = -((-c.numerator) // c.denominator) - 1
            reg = (None, (const(k), 1))
        else:
            k = c.numerator // c.denominator
            reg = ((const(k), 1), None)
    else:
        reg = (None, (th, 0)) if sg > 0 else ((th, 1), None)
    return restrict_deep(v, {ordvar(P_): reg})


def restrict_deep(v, ctx, memo=None):
    """restrict decisions at the top and inside structs/sequences"""
    if v.k == "node":
        v = restrict(v, ctx)
    if v.k == "node":
        return bind(v, lambda l: restrict_deep(l, ctx) if l.k in ("struct", "enum", "seqlit") else l)
    if v.k == "struct":
        return mk("struct", v.a[0], *[restrict_deep(x, ctx) for x in v.a[1:]])
    if v.k == "enum":
        return mk("enum", v.a[0], v.a[1], *[restrict_deep(x, ctx) for x in v.a[2:]])
    if v.k == "seqlit":
        return mk("seqlit", *[restrict_deep(x, ctx) for x in v.a])
    return v
