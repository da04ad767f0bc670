"""Models of the standard-library operations the code base uses (abstract transformers)."""
from interp import *
from msub import *
import terms as T
import loops

ORDS = [mk("enum", "Ordering", i) for i in range(3)]
LESS, EQUAL, GREATER = ORDS
NONE = mk("enum", "Option", 0)


def some(v):
    if v is BOT:
        return BOT
    return mk("enum", "Option", 1, v)


def setup(cx):
    pass


def ordcmp(a, b):
    return vcmp(lambda x, y: cmp3(nsub(x, y), *ORDS), a, b)


def litc(x):
    return isinstance(x, V) and x.k == "num" and isconst(x)


def leafk(v):
    return {x.k for x in leaves(v)} - {"bot"}


def deref_full(cx, st, v):
    """strip references (not Rc)"""
    n = 0
    while n < 6:
        ks = leafk(v)
        if ks and ks <= {"ref"}:
            v = cx.load(st, v)
            n += 1
        else:
            return v
    return v


def strip(ty):
    while ty[0] == "ref":
        ty = ty[2]
    return ty


def isadt(ty, name):
    return ty[0] == "adt" and short(ty[1]) in ((name, "VecDeque") if name == "Vec" else (name,))


def inner_of(ty):
    """through Rc/RefCell/Box"""
    while ty[0] == "adt" and short(ty[1]) in ("Rc", "RefCell", "Box", "Ref", "RefMut"):
        ty = ty[2][0]
    return ty


# ------------------------------------------------------------------ comparisons
def struct_eq(cx, ty, a, b, st, cond, site):
    """value equality for a (resolved) type; a, b values or references"""
    import mireval
    ty = strip(ty)
    a, b = deref_full(cx, st, a), deref_full(cx, st, b)
    while ty[0] == "adt" and short(ty[1]) in ("Rc", "RefCell", "Box", "Ref", "RefMut"):
        if short(ty[1]) in ("Rc", "Ref", "RefMut"):
            a, b = cx.load(st, a), cx.load(st, b)
        ty = ty[2][0]
    r = mireval.resolve_trait(cx, "core::cmp::PartialEq", "eq", (ty, ty))
    if r is not None:
        ra, rb = mk("ref", ("A", a), ()), mk("ref", ("A", b), ())
        x = cx.call_local(r[0], r[1], [ra, rb], None, st, cond, site)
        return x[0] if x else BOT
    ks = leafk(a) | leafk(b)
    if ks <= {"num"}:
        return vcmp(eq0, a, b)
    if ks <= {"bool"}:
        return bnot(bxor(a, b))
    if ks <= {"enum"}:
        def f(x, y):
            if BOT in (x, y):
                return BOT
            if x.a[1] != y.a[1]:
                return FALSE
            r = TRUE
            for i, (p, q) in enumerate(zip(x.a[2:], y.a[2:])):
                et = ("other", "?")
                if short(ty[1]) == "Option":
                    et = ty[2][0]
                elif ty[1] in cx.F.adts:
                    et = cx.F.adts[ty[1]][1][x.a[1]][2][i][1]
                r = band(r, struct_eq(cx, et, p, q, st, cond, site))
            return r
        return bindn(f, a, b)
    if ks <= {"struct"} and ty[0] == "tuple":
        r = TRUE
        for t, p, q in zip(ty[1], a.a[1:], b.a[1:]):
            r = band(r, struct_eq(cx, t, p, q, st, cond, site))
        return r
    if a is b:
        return TRUE
    return finnode(("eq", cx.deepres(st, a), cx.deepres(st, b)), [FALSE, TRUE])


def value_cmp(cx, ty, a, b, st, cond, site, partial=False):
    """Ordering of two values (references stripped)"""
    import mireval
    ty = strip(ty)
    a, b = deref_full(cx, st, a), deref_full(cx, st, b)
    while ty[0] == "adt" and short(ty[1]) in ("Rc", "RefCell", "Box", "Ref", "RefMut", "Reverse"):
        if short(ty[1]) == "Reverse":
            x = value_cmp(cx, ty[2][0], cx.field(b, ("f", 0)), cx.field(a, ("f", 0)), st, cond, site, partial)
            return x
        if short(ty[1]) in ("Rc", "Ref", "RefMut"):
            a, b = cx.load(st, a), cx.load(st, b)
        ty = ty[2][0]
    if a is BOT or b is BOT:
        return BOT
    if ty[0] in ("prim", "param"):
        if leafk(a) <= {"bool"}:
            a, b = (mapn(lambda x: BOT if x is BOT else const(int(x.a[0])), v) for v in (a, b))
        return ordcmp(a, b)
    tr, nm = ("core::cmp::PartialOrd", "partial_cmp") if partial else ("core::cmp::Ord", "cmp")
    r = mireval.resolve_trait(cx, tr, nm, (ty, ty) if partial else (ty,))
    if r is None and partial:
        r = mireval.resolve_trait(cx, "core::cmp::Ord", "cmp", (ty,))
        partial = False
    if r is not None:
        ra, rb = mk("ref", ("A", a), ()), mk("ref", ("A", b), ())
        x = cx.call_local(r[0], r[1], [ra, rb], None, st, cond, site)
        if x is None:
            return BOT
        v = x[0]
        if partial:
            v = bind(v, lambda o: BOT if o is BOT or o.a[1] == 0 else o.a[2])
        return v
    if ty[0] == "tuple" and leafk(a) <= {"struct"}:
        r = EQUAL
        for t, p, q in reversed(list(zip(ty[1], a.a[1:], b.a[1:]))):
            c = value_cmp(cx, t, p, q, st, cond, site, partial)
            r = bind(c, lambda o, r=r: BOT if o is BOT else (r if o is EQUAL else o))
        return r
    if leafk(a) <= {"enum"} and isadt(ty, "Option"):
        def f(x, y):
            if BOT in (x, y):
                return BOT
            if x.a[1] != y.a[1]:
                return LESS if x.a[1] < y.a[1] else GREATER
            if x.a[1] == 0:
                return EQUAL
            return value_cmp(cx, ty[2][0], x.a[2], y.a[2], st, cond, site, partial)
        return bindn(f, a, b)
    if leafk(a) <= {"enum"}:
        def f(x, y):
            if BOT in (x, y):
                return BOT
            return ORDS[0 if x.a[1] < y.a[1] else (1 if x.a[1] == y.a[1] else 2)]
        return bindn(f, a, b)
    return finnode(("ord", cx.deepres(st, a), cx.deepres(st, b)), ORDS)


def ord_is(o, ks):
    return mapn(lambda x: BOT if x is BOT else mkbool(x.a[1] in ks), o)


# ------------------------------------------------------------------ panics
def panic(cx, cond, site, what):
    cond = cleanb(cond)
    if cond is not FALSE:
        cx.panics.append((cond, site[0], site[1], what))


def index_ok(i, n):
    """condition that i is inside [0, n)"""
    def f(x, y):
        if BOT in (x, y):
            return BOT
        if isone(x.a[1]) and len(x.a[0]) == 1:
            m, c = x.a[0][0]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                d = ATOMS[m[0][0]]
                if d[0] == "mod" and d[2] is y:
                    return TRUE
        return lt(x, y)
    if i.k == "num" and n.k == "num":
        return f(i, n)
    return bindn(f, i, n)


# ------------------------------------------------------------------ streams
def stream(kind, *a):
    return mk("stream", kind, *a)


def mkiter(s, pos=ZERO):
    return mk("iter", s, pos)


def slen(cx, st, s):
    k = s.a[0]
    if k == "refs":
        return seq_len(cx.load(st, s.a[1]))
    if k == "vals":
        return seq_len(s.a[1])
    if k == "range":
        return vsub(s.a[2], s.a[1])
    if k in ("enum", "map", "rev", "cloned"):
        return slen(cx, st, s.a[1])
    if k == "zip":
        a, b = slen(cx, st, s.a[1]), slen(cx, st, s.a[2])
        if a is INF:
            return b
        if b is INF or a is b:
            return a
        return bindn(lambda x, y: BOT if BOT in (x, y) else ite(lt(x, y), x, y), a, b)
    if k == "skip":
        l = slen(cx, st, s.a[1])
        return l if l is INF else vsub(l, s.a[2])
    if k == "take":
        l = slen(cx, st, s.a[1])
        if l is INF:
            return s.a[2]
        return bindn(lambda x, y: BOT if BOT in (x, y) else ite(lt(x, y), x, y), l, s.a[2])
    if k == "cycle":
        l = slen(cx, st, s.a[1])
        return INF
    if k == "chain":
        a, b = slen(cx, st, s.a[1]), slen(cx, st, s.a[2])
        return INF if INF in (a, b) else vadd(a, b)
    if k == "windows":
        return vadd(vsub(seq_len(cx.load(st, s.a[1])), s.a[2]), ONE)
    if k == "step":
        l = slen(cx, st, s.a[1])
        if l is INF:
            return l
        if not litc(s.a[2]) or cval(s.a[2]) <= 0:
            raise Undecided("step_by")
        return bind(l, lambda x: BOT if x is BOT else nidiv(nadd(x, const(int(cval(s.a[2])) - 1)), s.a[2]))
    if k == "opt":
        return bind(s.a[1], lambda x: BOT if x is BOT else const(x.a[1]))
    raise Undecided("length of stream " + k)


def sget(cx, st, s, i, cond, site):
    """item i of a stream (may run closures)"""
    k = s.a[0]
    if k == "refs":
        return bind(i, lambda x: BOT if x is BOT else cx.addref(s.a[1], ("i", x, None, s.a[2].a[0])))
    if k == "vals":
        return cx.seq_get(s.a[1], i, s.a[2].a[0])
    if k == "range":
        return vadd(s.a[1], i)
    if k == "enum":
        return mk("struct", "()", i, sget(cx, st, s.a[1], i, cond, site))
    if k == "zip":
        return mk("struct", "()", sget(cx, st, s.a[1], i, cond, site), sget(cx, st, s.a[2], i, cond, site))
    if k == "map":
        x = sget(cx, st, s.a[1], i, cond, site)
        r = cx.call_closure(s.a[2], [x], st, cond, site)
        if r is None:
            return BOT
        return r[0]
    if k == "rev":
        n = slen(cx, st, s.a[1])
        return sget(cx, st, s.a[1], vsub(vsub(n, ONE), i), cond, site)
    if k == "cloned":
        return cx.load(st, sget(cx, st, s.a[1], i, cond, site))
    if k == "skip":
        return sget(cx, st, s.a[1], vadd(s.a[2], i), cond, site)
    if k == "take":
        return sget(cx, st, s.a[1], i, cond, site)
    if k == "cycle":
        n = slen(cx, st, s.a[1])
        j = bindn(lambda x, y: BOT if BOT in (x, y) else nmod(x, y), i, n)
        return sget(cx, st, s.a[1], j, cond, site)
    if k == "chain":
        n = slen(cx, st, s.a[1])
        c = vcmp(lt, i, n)
        if c is TRUE:
            return sget(cx, st, s.a[1], i, cond, site)
        if c is FALSE:
            return sget(cx, st, s.a[2], vsub(i, n), cond, site)
        return ite(c, sget(cx, st, s.a[1], i, cond, site), sget(cx, st, s.a[2], vsub(i, n), cond, site))
    if k == "step":
        return sget(cx, st, s.a[1], vmul(i, s.a[2]), cond, site)
    if k == "windows":
        sv = cx.load(st, s.a[1])
        lo = i
        return mk("ref", ("A", mk("slice", sv, lo, vadd(lo, s.a[2]))), ())
    if k == "opt":
        return cx.field(s.a[1], ("v", 1, 0))
    raise Undecided("stream " + k)


def to_stream(cx, st, v, ty):
    """IntoIterator::into_iter"""
    def one(v):
        if v is BOT:
            return BOT
        if v.k == "iter":
            return v
        if v.k == "ref":
            c = cx.load(st, v)
            if leafk(c) <= {"iter"}:
                return v  # &mut iterator
            t = strip(ty)
            ety = t[2][0] if t[0] == "adt" and t[2] else (t[1] if t[0] in ("slice", "array") else ("other", "?"))
            if isadt(t, "Option"):
                raise Undecided("iteration over &Option")
            return mkiter(stream("refs", v, mk("ty", ety)))
        if v.k in ("seqlit", "symseq", "cat", "flat", "sort", "rev", "slice", "upd", "dedup", "filt"):
            t = strip(ty)
            ety = t[2][0] if t[0] == "adt" and t[2] else (t[1] if t[0] in ("slice", "array") else ("other", "?"))
            return mkiter(stream("vals", v, mk("ty", ety)))
        if v.k == "struct" and short(v.a[0]) in ("Range",):
            return mkiter(stream("range", v.a[1], v.a[2]))
        if v.k == "struct" and short(v.a[0]) in ("RangeInclusive",):
            return mkiter(stream("range", v.a[1], vadd(v.a[2], ONE)))
        if v.k == "enum" and v.a[0] == "Option":
            return mkiter(stream("opt", v))
        raise Undecided("into_iter of " + v.k)
    if v.k == "node" and leafk(v) <= {"seqlit", "symseq", "cat", "flat"}:
        t = strip(ty)
        return mkiter(stream("vals", v, mk("ty", t[2][0] if t[0] == "adt" and t[2] else ("other", "?"))))
    return bind(v, one)


def iter_next(cx, st, ref, cond, site, back=False):
    """Iterator::next on a mutable reference to an iterator"""
    it = cx.load(st, ref)
    n = 0
    while leafk(it) <= {"ref"} and n < 4:
        ref, it = it, cx.load(st, it)
        n += 1
    if it.k == "struct" and short(it.a[0]) == "Range":
        it = mkiter(stream("range", it.a[1], it.a[2]))
    if it.k != "iter":
        raise Undecided("next on " + it.k)
    s, pos = it.a
    if back:
        if lazyin(s):
            s = mater(cx, st, s, cond, site)
        n = slen(cx, st, s)
        if n is INF:
            raise Undecided("next_back")
        inside = vcmp(lt, pos, n)
        if inside is FALSE:
            return NONE
        last = vsub(n, ONE)
        item = sget(cx, st, s, last, band(cond, inside), site)
        cx.store(st, ref, mkiter(stream("take", s, ite(inside, last, n)), pos))
        return some(item) if inside is TRUE else ite(inside, some(item), NONE)
    if lazyin(s):
        s, pos = mater(cx, st, s if pos is ZERO else stream("skip", s, pos), cond, site), ZERO
    n = slen(cx, st, s)
    inside = TRUE if n is INF else vcmp(lt, pos, n)
    if inside is FALSE:
        return NONE
    item = sget(cx, st, s, pos, band(cond, inside), site)
    cx.store(st, ref, mkiter(s, vadd(pos, ONE)))
    if inside is TRUE:
        return some(item)
    return ite(inside, some(item), NONE)


def as_stream(cx, st, v):
    """iterator value (or &mut iterator) -> stream of the remaining items"""
    v0 = v
    n = 0
    while leafk(v) <= {"ref"} and n < 4:
        v = cx.load(st, v)
        n += 1
    if v.k == "struct" and short(v.a[0]) == "Range":
        return stream("range", v.a[1], v.a[2])
    if v.k == "struct" and short(v.a[0]) == "RangeInclusive":
        return stream("range", v.a[1], vadd(v.a[2], ONE))
    if v.k in ("seqlit", "symseq", "cat", "flat"):
        return stream("vals", v, mk("ty", ("other", "?")))
    if v.k != "iter":
        raise Undecided("iterator " + v.k)
    s, pos = v.a
    if pos is ZERO:
        return s
    return stream("skip", s, pos)


def lazyin(s):
    """does a filtering adaptor occur in the stream?"""
    return s.a[0] in ("filter", "filtermap") or any(getattr(x, "k", None) == "stream" and lazyin(x) for x in s.a[1:])


def mater(cx, st, s, cond, site):
    """replace filtering adaptors by the sequence of the items they let through"""
    if not lazyin(s):
        return s
    if s.a[0] in ("filter", "filtermap"):
        r = tmp(cx, None)
        st[r] = EMPTY
        append_stream(cx, st, mk("ref", r, ()), s, cond, site)
        return stream("vals", st.pop(r), mk("ty", ("other", "?")))
    return stream(s.a[0], *[mater(cx, st, x, cond, site) if getattr(x, "k", None) == "stream" else x for x in s.a[1:]])


def consume(cx, st, s, cond, site, visit):
    """run visit(st, item, cond) -> list of (tag|None, cond, st) for every item; returns exits"""
    if s.a[0] == "cloned" and lazyin(s):
        return consume(cx, st, s.a[1], cond, site, lambda s2, item, c: visit(s2, cx.load(s2, item), c))
    if s.a[0] not in ("filter", "filtermap", "map"):
        s = mater(cx, st, s, cond, site)
    if s.a[0] == "filter":
        clo = s.a[2]

        def v2(st2, item, c):
            cx.hcnt += 1
            tmp = ("H", cx.hcnt)
            st2[tmp] = item
            r = cx.call_closure(clo, [mk("ref", tmp, ())], st2, c, site)
            st2.pop(tmp, None)
            if r is None:
                return []
            keep = cleanb(r[0])
            out = []
            if keep is not FALSE:
                sk = dict(st2)
                for tag, c2, s2 in visit(sk, item, band(c, keep)):
                    out.append((tag, band(keep, c2), s2))
            nk = cleanb(bnot(keep))
            if nk is not FALSE:
                out.append((None, nk, st2))
            return out
        return consume(cx, st, s.a[1], cond, site, v2)
    if s.a[0] == "filtermap":
        clo = s.a[2]

        def v3(st2, item, c):
            r = cx.call_closure(clo, [item], st2, c, site)
            if r is None:
                return []
            keep = cleanb(cond_of(r[0], lambda x: x.a[1] == 1))
            out = []
            if keep is not FALSE:
                sk = dict(st2)
                for tag, c2, s2 in visit(sk, cx.field(r[0], ("v", 1, 0)), band(c, keep)):
                    out.append((tag, band(keep, c2), s2))
            nk = cleanb(bnot(keep))
            if nk is not FALSE:
                out.append((None, nk, st2))
            return out
        return consume(cx, st, s.a[1], cond, site, v3)
    if s.a[0] == "map" and lazyin(s):
        clo = s.a[2]

        def v4(st2, item, c):
            r = cx.call_closure(clo, [item], st2, c, site)
            if r is None:
                return []
            return visit(st2, r[0], c)
        return consume(cx, st, s.a[1], cond, site, v4)
    n = slen(cx, st, s)

    def body(s3, i):
        item = sget(cx, s3, s, i, cond, site)
        return visit(s3, item, cond)

    if n is INF:
        raise Undecided("infinite stream consumed")
    return loops.foreach(cx, st, n, body, site)


def finish(cx, st, outs, val):
    """merge the exits of a consumer; val(tag, st) gives the result"""
    from mireval import merge
    vals = [(c, val(tag, s)) for tag, c, s in outs]
    c, s = merge([(c, s) for tag, c, s in outs])
    st.clear()
    st.update(s)
    r = BOT
    for ci, v in reversed(vals):
        r = v if r is BOT else ite(ci, v, r)
    return r


def tmp(cx, ty):
    cx.hcnt += 1
    r = ("H", cx.hcnt)
    cx.rtype[r] = ty
    return r


# ------------------------------------------------------------------ trait calls not resolved to local impls
def trait_call(cx, trait, name, targs, args, atys, rty, st, cond, site, fty):
    import mireval
    tn = short(trait)
    sty = targs[0]
    ok = lambda v: (v, TRUE)
    if tn in ("DefaultNumberValueTrait", "NumberType") or (tn == "Float"):
        a = args
        if name == "default_eps":
            return ok(NEPS)
        if name in ("zero", "default"):
            return ok(ZERO)
        if name == "pi":
            return ok(NPI)
        if name == "from_f64":
            return ok(a[0])
        if name == "equals":
            return ok(vcmp(lambda x, y: lt(nabs(nsub(x, y)), NEPS), a[0], a[1]))
        if cx.domain:
            domain(cx, name, a, cond, site)
        return ok(fmath(name, a))
    if tn in ("Add", "Sub", "Mul", "Div", "Neg", "Rem"):
        a = [deref_full(cx, st, x) for x in args]
        if cx.domain and tn == "Div":
            domain(cx, "div", a, cond, site)
        r = arith(tn, a, sty)
        if cx.domain:
            squares(tn, a, r)
        return ok(r)
    if tn in ("AddAssign", "SubAssign", "MulAssign", "DivAssign", "RemAssign"):
        old = cx.load(st, args[0])
        b = deref_full(cx, st, args[1])
        op = tn[:-6]
        r = mireval.resolve_trait(cx, "core::ops::arith::" + op, op.lower(), (sty, targs[1] if len(targs) > 1 else sty))
        if r is not None and leafk(old) <= {"struct"}:
            x = cx.call_local(r[0], r[1], [old, b], None, st, cond, site)
            v = x[0]
        else:
            if cx.domain and op == "Div":
                domain(cx, "div", [old, b], cond, site)
            v = arith(op, [old, b], sty)
        cx.store(st, args[0], v)
        return ok(UNIT)
    if tn == "PartialEq":
        e = struct_eq(cx, sty, args[0], args[1], st, cond, site)
        return ok(e if name == "eq" else bnot(e))
    if tn == "PartialOrd":
        o = value_cmp(cx, sty, args[0], args[1], st, cond, site, partial=True)
        if name == "partial_cmp":
            return ok(bind(o, some))
        return ok(ord_is(o, {"lt": (0,), "le": (0, 1), "gt": (2,), "ge": (1, 2)}[name]))
    if tn == "Ord":
        if name == "cmp":
            return ok(value_cmp(cx, sty, args[0], args[1], st, cond, site))
        if name in ("max", "min"):
            o = value_cmp(cx, sty, args[0], args[1], st, cond, site)
            if name == "max":
                return ok(ite(ord_is(o, (2,)), args[0], args[1]))
            return ok(ite(ord_is(o, (2,)), args[1], args[0]))
        raise Undecided("Ord::" + name)
    if tn == "Clone":
        v = cx.load(st, args[0])
        if name == "clone_from":
            cx.store(st, args[0], cx.load(st, args[1]))
            return ok(UNIT)
        if sty[0] == "adt" and short(sty[1]) in ("RefCell", "Box") and sty[2]:
            # the content's own copy
            r = mireval.resolve_trait(cx, trait, "clone", (sty[2][0],))
            if r is not None:
                return cx.call_local(r[0], r[1], [args[0]], None, st, cond, site)
        return ok(v)
    if tn == "ToOwned":
        return ok(cx.load(st, args[0]))
    if tn in ("Deref", "DerefMut", "Borrow", "BorrowMut", "AsRef", "AsMut"):
        v = args[0]
        c = cx.load(st, v)
        ks = leafk(c)
        if ks and ks <= {"rc", "ref"}:
            return ok(bind(c, lambda x: mk("ref", x.a[0], ()) if x.k == "rc" else x))
        return ok(v)
    if tn in ("Index", "IndexMut"):
        return ok(index(cx, args[0], args[1], sty, st, cond, site))
    if tn == "IntoIterator":
        return ok(to_stream(cx, st, args[0], sty))
    if tn in ("Iterator", "DoubleEndedIterator", "ExactSizeIterator"):
        return iter_call(cx, name, targs, args, atys, rty, st, cond, site)
    if tn == "Extend":
        s = as_stream(cx, st, to_stream(cx, st, args[1], targs[-1]))
        if isadt(sty, "BinaryHeap"):
            def push(s2, item, c):
                heap_call(cx, "push", sty[2], [args[0], item], ("unit",), s2, c, site)
                return [(None, TRUE, s2)]
            finish(cx, st, consume(cx, st, s, cond, site, push), lambda t, x: UNIT)
            return ok(UNIT)
        return append_stream(cx, st, args[0], s, cond, site)
    if tn == "FromIterator":
        s = as_stream(cx, st, to_stream(cx, st, args[0], targs[-1]))
        r = tmp(cx, sty)
        st[r] = EMPTY
        append_stream(cx, st, mk("ref", r, ()), s, cond, site)
        return ok(st.pop(r))
    if tn in ("From", "Into"):
        v = args[0]
        if isadt(rty, "Vec") and v.k == "ref":
            return ok(cx.load(st, v))
        return ok(v)
    if tn == "Default":
        t = sty
        if isadt(t, "Vec"):
            return ok(EMPTY)
        if isadt(t, "Option"):
            return ok(NONE)
        if t[0] in ("prim", "param"):
            return ok(FALSE if t == ("prim", "bool") else ZERO)
        return ok(cx.sym(rty, ("default", mk("ty", t))))
    if tn == "Try" and name == "branch" and isadt(sty, "Option"):
        return ok(bind(args[0], lambda x: BOT if x is BOT else mk("enum", "ControlFlow", 0, x.a[2]) if x.a[1] == 1 else mk("enum", "ControlFlow", 1, NONE)))
    if tn == "FromResidual" and isadt(sty, "Option"):
        return ok(NONE)
    if tn in ("Fn", "FnMut", "FnOnce"):
        a = args[1]
        al = list(a.a[1:]) if a.k == "struct" else [a]
        f = args[0]
        return cx.call_closure(f, al, st, cond, site)
    if tn in ("Debug", "Display", "Write", "ToString", "LowerExp"):
        return ok(cx.sym(rty, ("fmt",)))
    if tn == "Hash" or tn == "Drop":
        return ok(UNIT)
    # local trait on a type parameter: uninterpreted
    d = tuple(cx.deepres(st, a) for a in args)
    return ok(cx.sym(rty, ("call", trait + "::" + name) + d))


def arith(op, a, ty):
    if op == "Neg":
        return mapn(lambda x: BOT if x is BOT else nneg(x), a[0])
    if op == "Add":
        return vadd(*a)
    if op == "Sub":
        return vsub(*a)
    if op == "Mul":
        return vmul(*a)
    isi = ty[0] == "prim" and ty[1] in INTS
    if op == "Div":
        return mapn(lambda x, y: BOT if BOT in (x, y) else (nidiv if isi else ndiv)(x, y), *a)
    if op == "Rem":
        return mapn(lambda x, y: BOT if BOT in (x, y) else (nmod(x, y) if isi else nfn("fmod", x, y)), *a)


SQUARES = {}  # a sum of squares -> what is squared


def squares(op, a, r):
    if r.k != "num":
        return
    if op == "Mul" and a[0] is a[1]:
        SQUARES[r] = (a[0],)
    elif op == "Add" and a[0] in SQUARES and a[1] in SQUARES:
        SQUARES[r] = SQUARES[a[0]] + SQUARES[a[1]]


def domain(cx, name, a, cond, site):
    """where a partial function of the reals is applied outside its domain"""
    def zero(y):
        r = TRUE
        for x in SQUARES.get(y, (y,)):
            r = band(r, mapn(lambda q: FALSE if q is BOT else eq0(q, ZERO), x))
        return r
    bad = {
        "sqrt": lambda x: FALSE if x in SQUARES else lt(x, ZERO),
        "acos": lambda x: lt(ONE, nabs(x)), "asin": lambda x: lt(ONE, nabs(x)),
        "div": lambda x, y: zero(y), "recip": lambda x: zero(x),
    }.get(name)
    if bad:
        cx.domained.append((name, site))
        b = mapn(lambda *x: FALSE if BOT in x else bad(*x), *a)
        panic(cx, cleanb(band(cond, b)), site, "domain: " + {"sqrt": "the square root of a negative number", "div": "a division by zero", "recip": "a division by zero"}.get(name, name + " of a number beyond 1"))


def fmath(name, a):
    f = {
        "sqrt": nsqrt, "sin": nsin, "cos": ncos,
        "acos": lambda x: nfn("acos", x), "atan": lambda x: nfn("atan", x), "asin": lambda x: nfn("asin", x), "tan": lambda x: ndiv(nsin(x), ncos(x)),
        "atan2": natan2, "powi": None, "to_radians": lambda x: ndiv(nmul(x, NPI), const(180)),
        "floor": lambda x: nfn("floor", x), "ceil": lambda x: nfn("ceil", x), "round": lambda x: nfn("round", x),
        "hypot": lambda x, y: nsqrt(nadd(nmul(x, x), nmul(y, y))),
        "signum": lambda x: nfn("signum", x),
        "recip": lambda x: ndiv(ONE, x),
        "abs": lambda x: nabs(x),
    }.get(name)
    if name == "mul_add":
        return vadd(vmul(a[0], a[1]), a[2])
    if name in ("max", "min"):
        return bindn(lambda x, y: BOT if BOT in (x, y) else (ite(lt(x, y), y, x) if name == "max" else ite(lt(x, y), x, y)), a[0], a[1])
    if name == "powi":
        def pw(x, n):
            if BOT in (x, n) or not isconst(n):
                return BOT
            r = ONE
            for _ in range(abs(int(cval(n)))):
                r = nmul(r, x)
            return r if cval(n) >= 0 else ndiv(ONE, r)
        return mapn(pw, a[0], a[1])
    if name == "clamp":
        return bindn(lambda x, l, h: BOT if BOT in (x, l, h) else ite(lt(x, l), l, ite(gt(x, h), h, x)), *a)
    if name == "rem_euclid":
        return mapn(lambda x, y: BOT if BOT in (x, y) else nfn("fmodE", x, y), *a)
    if name in ("is_nan", "is_infinite"):
        return FALSE
    if name == "is_finite":
        return TRUE
    if name in ("is_sign_negative", "is_sign_positive"):
        c = vcmp(lt, a[0], ZERO)
        return c if name == "is_sign_negative" else cleanb(bnot(c))
    if name == "sin_cos":
        return mk("struct", "()", fmath("sin", a), fmath("cos", a))
    if name == "to_degrees":
        return mapn(lambda x: BOT if x is BOT else ndiv(nmul(x, const(180)), NPI), a[0])
    if name == "copysign":
        return bindn(lambda x, y: BOT if BOT in (x, y) else ite(lt(y, ZERO), nneg(nabs(x)), nabs(x)), *a)
    if f is None:
        raise Undecided("float function " + name)
    return mapn(lambda *x: BOT if BOT in x else f(*x), *a)


def index(cx, ref, i, sty, st, cond, site):
    seq = cx.load(st, ref)
    t = strip(sty)
    ety = t[2][0] if t[0] == "adt" and t[2] else (t[1] if t[0] in ("slice", "array") else ("other", "?"))
    if leafk(i) <= {"num"}:
        okc = index_ok(i, seq_len(seq))
        panic(cx, band(cond, bnot(okc)), site, "index out of bounds")
        return bindn(lambda x, r: BOT if x is BOT else cx.addref(r, ("i", x, None, ety)), i, ref)
    if i.k == "struct":
        n = short(i.a[0])
        if n == "Range":
            lo, hi = i.a[1], i.a[2]
        elif n == "RangeFrom":
            lo, hi = i.a[1], seq_len(seq)
        elif n == "RangeTo":
            lo, hi = ZERO, i.a[1]
        elif n == "RangeFull":
            return ref
        elif n == "RangeInclusive":
            lo, hi = i.a[1], vadd(i.a[2], ONE)
        elif n == "RangeToInclusive":
            lo, hi = ZERO, vadd(i.a[1], ONE)
        else:
            raise Undecided("index by " + n)
        return mk("ref", ("A", mk("slice", seq, lo, hi)), ())
    raise Undecided("index by " + i.k)


def append_stream(cx, st, ref, s, cond, site):
    if s.a[0] == "vals":
        cx.store(st, ref, seq_cat(cx.load(st, ref), s.a[1]))
        return UNIT, TRUE
    if s.a[0] == "cloned" and s.a[1].a[0] == "refs":
        cx.store(st, ref, seq_cat(cx.load(st, ref), cx.load(st, s.a[1].a[1])))
        return UNIT, TRUE

    def visit(s2, item, c):
        cx.store(s2, ref, seq_cat(cx.load(s2, ref), seqlit(item)))
        return [(None, TRUE, s2)]
    outs = consume(cx, st, s, cond, site, visit)
    finish(cx, st, outs, lambda t, x: UNIT)
    return UNIT, TRUE


def iter_call(cx, name, targs, args, atys, rty, st, cond, site):
    ok = lambda v: (v, TRUE)
    if name == "next":
        return ok(iter_next(cx, st, args[0], cond, site))
    if name == "next_back":
        return ok(iter_next(cx, st, args[0], cond, site, True))
    if name in ("by_ref", "into_iter"):
        return ok(args[0])
    s = as_stream(cx, st, args[0])
    if name == "enumerate":
        return ok(mkiter(stream("enum", s)))
    if name == "map":
        return ok(mkiter(stream("map", s, args[1])))
    if name == "filter":
        return ok(mkiter(stream("filter", s, args[1])))
    if name == "filter_map":
        return ok(mkiter(stream("filtermap", s, args[1])))
    if name == "zip":
        return ok(mkiter(stream("zip", s, as_stream(cx, st, to_stream(cx, st, args[1], targs[1] if len(targs) > 1 else ("other", "?"))))))
    if name == "chain":
        return ok(mkiter(stream("chain", s, as_stream(cx, st, to_stream(cx, st, args[1], targs[1] if len(targs) > 1 else ("other", "?"))))))
    if name == "skip":
        return ok(mkiter(stream("skip", s, args[1])))
    if name == "take":
        return ok(mkiter(stream("take", s, args[1])))
    if name == "cycle":
        return ok(mkiter(stream("cycle", s)))
    if name == "rev":
        return ok(mkiter(stream("rev", s)))
    if name == "step_by":
        return ok(mkiter(stream("step", s, args[1])))
    if name in ("skip_while", "take_while", "flat_map", "flatten", "unzip", "partition", "is_sorted", "eq", "scan", "map_while"):
        return lit_iter(cx, name, targs, args, atys, rty, st, cond, site, s)
    if name in ("cloned", "copied"):
        return ok(mkiter(stream("cloned", s)))
    if name in ("peekable", "fuse"):
        return ok(mkiter(s))
    if name == "len":
        return ok(slen(cx, st, mater(cx, st, s, cond, site)))
    if name == "collect":
        r = tmp(cx, rty)
        st[r] = EMPTY
        append_stream(cx, st, mk("ref", r, ()), s, cond, site)
        return ok(st.pop(r))
    if name in ("any", "all"):
        def visit(s2, item, c):
            r = cx.call_closure(args[1], [item], s2, c, site)
            if r is None:
                return []
            b = cleanb(r[0])
            hit = b if name == "any" else cleanb(bnot(b))
            return [("hit", hit, dict(s2)), (None, cleanb(bnot(hit)), s2)]
        outs = consume(cx, st, s, cond, site, visit)
        return ok(finish(cx, st, outs, lambda t, x: mkbool((t == "hit") == (name == "any"))))
    if name in ("position", "find", "find_map", "rposition", "rfind"):
        rt = tmp(cx, rty)
        cnt = tmp(cx, ("prim", "usize"))
        st[cnt] = ZERO
        step = ONE
        if name[:2] == "rp":
            step = const(-1)
            st[cnt] = vadd(slen(cx, st, mater(cx, st, s, cond, site)), step)
        if name[0] == "r":
            s, name = stream("rev", s), name[1:]

        def visit(s2, item, c):
            if name == "find":
                t2 = tmp(cx, None)
                s2[t2] = item
                r = cx.call_closure(args[1], [mk("ref", t2, ())], s2, c, site)
                s2.pop(t2, None)
            else:
                r = cx.call_closure(args[1], [item], s2, c, site)
            if r is None:
                return []
            if name == "find_map":
                b = cleanb(cond_of(r[0], lambda x: x.a[1] == 1))
                v = cx.field(r[0], ("v", 1, 0))
            else:
                b = cleanb(r[0])
                v = s2[cnt] if name == "position" else item
            sh = dict(s2)
            sh[rt] = v
            if name == "position":
                s2[cnt] = vadd(s2[cnt], step)
            return [("hit", b, sh), (None, cleanb(bnot(b)), s2)]
        outs = consume(cx, st, s, cond, site, visit)
        r = finish(cx, st, outs, lambda t, x: some(x[rt]) if t == "hit" else NONE)
        st.pop(rt, None)
        st.pop(cnt, None)
        return ok(r)
    if name in ("fold", "for_each", "sum", "count", "product", "last", "max", "min"):
        acc = tmp(cx, targs[1] if name == "fold" and len(targs) > 1 else rty)
        if name == "fold":
            st[acc] = args[1]
        elif name in ("sum", "count"):
            st[acc] = ZERO
        elif name == "product":
            st[acc] = ONE
        else:
            st[acc] = NONE if name in ("last", "max", "min") else UNIT

        def visit(s2, item, c):
            if name == "fold":
                r = cx.call_closure(args[2], [s2[acc], item], s2, c, site)
                if r is None:
                    return []
                s2[acc] = r[0]
            elif name == "for_each":
                r = cx.call_closure(args[1], [item], s2, c, site)
                if r is None:
                    return []
            elif name == "sum":
                s2[acc] = vadd(s2[acc], deref_full(cx, s2, item))
            elif name == "product":
                s2[acc] = vmul(s2[acc], deref_full(cx, s2, item))
            elif name == "count":
                s2[acc] = vadd(s2[acc], ONE)
            elif name == "last":
                s2[acc] = some(item)
            else:
                old = s2[acc]
                ety = rty[2][0]

                def pick(o):
                    if o is BOT:
                        return BOT
                    if o.a[1] == 0:
                        return some(item)
                    cmp_ = value_cmp(cx, ety, item, o.a[2], s2, c, site)
                    keepnew = ord_is(cmp_, (1, 2) if name == "max" else (0,))
                    return some(ite(keepnew, item, o.a[2]))
                s2[acc] = bind(old, pick)
            return [(None, TRUE, s2)]
        outs = consume(cx, st, s, cond, site, visit)
        r = finish(cx, st, outs, lambda t, x: x[acc])
        st.pop(acc, None)
        return ok(r)
    if name == "nth":
        s = mater(cx, st, s, cond, site)
        n = slen(cx, st, s)
        inside = TRUE if n is INF else vcmp(lt, args[1], n)
        return ok(ite(inside, some(sget(cx, st, s, args[1], cond, site)), NONE))
    if name in ("max_by", "min_by"):
        acc = tmp(cx, rty)
        st[acc] = NONE
        ety = rty[2][0]

        def visit(s2, item, c):
            old = s2[acc]

            def pick(o):
                if o is BOT:
                    return BOT
                if o.a[1] == 0:
                    return some(item)
                r = cx.call_closure(args[1], [mk("ref", ("A", o.a[2]), ()), mk("ref", ("A", item), ())], s2, c, site)
                if r is None:
                    return BOT
                return some(ite(ord_is(r[0], (0, 1) if name == "max_by" else (2,)), item, o.a[2]))
            s2[acc] = bind(old, pick)
            return [(None, TRUE, s2)]
        outs = consume(cx, st, s, cond, site, visit)
        r = finish(cx, st, outs, lambda t, x: x[acc])
        st.pop(acc, None)
        return ok(r)
    if name in ("max_by_key", "min_by_key", "reduce"):
        acc = tmp(cx, rty)
        st[acc] = NONE
        kty = targs[1] if len(targs) > 1 and name != "reduce" else ("other", "?")

        def visit(s2, item, c):
            old = s2[acc]
            aref = lambda x: mk("ref", ("A", x), ())

            def pick(o):
                if o is BOT:
                    return BOT
                if o.a[1] == 0:
                    return some(item)
                if name == "reduce":
                    r = cx.call_closure(args[1], [o.a[2], item], s2, c, site)
                    return BOT if r is None else bind(r[0], some)
                ks = [cx.call_closure(args[1], [aref(x)], s2, c, site) for x in (o.a[2], item)]
                if None in ks:
                    return BOT
                q = value_cmp(cx, kty, ks[0][0], ks[1][0], s2, c, site)
                return some(ite(ord_is(q, (0, 1) if name == "max_by_key" else (2,)), item, o.a[2]))
            s2[acc] = bind(old, pick)
            return [(None, TRUE, s2)]
        outs = consume(cx, st, s, cond, site, visit)
        r = finish(cx, st, outs, lambda t, x: x[acc])
        st.pop(acc, None)
        return ok(r)
    raise Undecided("Iterator::" + name)


def lit_iter(cx, name, targs, args, atys, rty, st, cond, site, s):
    """adaptors that are modelled on streams of known length only"""
    s = mater(cx, st, s, cond, site)
    n = slen(cx, st, s)
    if not litc(n) or cval(n) > 16:
        raise Undecided("Iterator::" + name)
    items = [sget(cx, st, s, const(i), cond, site) for i in range(int(cval(n)))]
    ety = args[0].a[0].a[2] if args[0].k == "iter" and args[0].a[0].a[0] in ("refs", "vals") else mk("ty", ("other", "?"))
    vals = lambda x: (mkiter(stream("vals", x, ety)), TRUE)
    if name == "flatten" or name == "flat_map":
        r = EMPTY
        for x in items:
            if name == "flat_map":
                y = cx.call_closure(args[1], [x], st, cond, site)
                if y is None:
                    return None
                x = y[0]
            if leafk(x) <= {"enum"}:
                x = bind(x, lambda o: BOT if o is BOT else EMPTY if o.a[1] == 0 else seqlit(o.a[2]))
            else:
                t = tmp(cx, None)
                st[t] = EMPTY
                append_stream(cx, st, mk("ref", t, ()), as_stream(cx, st, to_stream(cx, st, x, ("other", "?"))), cond, site)
                x = st.pop(t)
            r = bindn(lambda a, b: BOT if BOT in (a, b) else seq_cat(a, b), r, x)
        return vals(r)
    if name == "unzip":
        return mk("struct", "()", seqlit(*[cx.field(x, ("f", 0)) for x in items]), seqlit(*[cx.field(x, ("f", 1)) for x in items])), TRUE
    if name in ("take_while", "skip_while", "partition"):
        go = TRUE
        a, b = EMPTY, EMPTY
        for x in items:
            r = cx.call_closure(args[1], [mk("ref", ("A", x), ())], st, cond, site)
            if r is None:
                return None
            q = cleanb(r[0])
            go = q if name == "partition" else cleanb(band(go, q))
            a = ite(go, bind(a, lambda y: seq_cat(y, seqlit(x))), a)
            b = ite(go, b, bind(b, lambda y: seq_cat(y, seqlit(x))))
        if name == "partition":
            return mk("struct", "()", a, b), TRUE
        return vals(a if name == "take_while" else b)
    raise Undecided("Iterator::" + name)


# ------------------------------------------------------------------ other externals
def symcmp(cx, clo, ety, st, cond, site, byref=True):
    """comparator closure on two symbolic elements -> Ordering value"""
    e1, e2 = cx.sym(ety, ("e1",)), cx.sym(ety, ("e2",))
    a, b = mk("ref", ("A", e1), ()), mk("ref", ("A", e2), ())
    if clo is None:
        return value_cmp(cx, ety, a, b, st, cond, site)
    r = cx.call_closure(clo, [a, b], st, cond, site)
    return BOT if r is None else r[0]


def extern(cx, p, name, targs, args, atys, rty, st, cond, site):
    ok = lambda v: (v, TRUE)
    a0 = args[0] if args else None
    path = p
    # ---- panics
    if "panicking" in path or name in ("panic_fmt", "panic", "todo", "begin_panic", "unwrap_failed", "panic_display", "panic_str_2015", "unreachable_display", "panic_explicit"):
        if name in ("todo_default_msg",):
            return ok(mk("str", "todo"))
        panic(cx, cond, site, name)
        return None
    if name in ("_print", "_eprint") or path.startswith("std::io"):
        cx.effects.append((cond, "io:" + name, site))
        return ok(UNIT)
    if path.startswith("core::fmt") or path.startswith("alloc::fmt") or path.startswith("alloc::string"):
        return ok(cx.sym(rty, ("fmt",)))
    # ---- f32/f64
    if path.startswith(("std::f32", "std::f64", "core::f32", "core::f64")) or "::f64::" in path or "::f32::" in path:
        if name == "total_cmp":
            return ok(value_cmp(cx, ("prim", "f64"), args[0], args[1], st, cond, site))
        return ok(fmath(name, args))
    if path.startswith("core::num") or "core::num" in path:
        return ok(intmath(cx, name, args, rty, cond, site))
    if path.startswith("core::cmp::"):
        if name in ("max", "min"):
            o = value_cmp(cx, targs[0], args[0], args[1], st, cond, site)
            if name == "max":
                return ok(ite(ord_is(o, (2,)), args[0], args[1]))
            return ok(ite(ord_is(o, (2,)), args[1], args[0]))
        # Ordering methods
        if name == "reverse":
            return ok(bind(a0, lambda x: BOT if x is BOT else ORDS[2 - x.a[1]]))
        if name == "then":
            return ok(bind(a0, lambda x: BOT if x is BOT else (args[1] if x is EQUAL else x)))
        if name == "then_with":
            r = cx.call_closure(args[1], [], st, cond, site)
            if r is None:
                return None
            return ok(bind(a0, lambda x: BOT if x is BOT else (r[0] if x is EQUAL else x)))
        m = {"is_eq": (1,), "is_ne": (0, 2), "is_lt": (0,), "is_gt": (2,), "is_le": (0, 1), "is_ge": (1, 2)}
        if name in m:
            return ok(ord_is(a0, m[name]))
        if name == "Reverse":
            return ok(mk("struct", "core::cmp::Reverse", a0))
    if name in ("then", "then_some") and len(args) == 2 and ("bool" in path or leafk(a0) <= {"bool"} or a0.k in ("cond", "bool")):
        from mireval import merge
        c = cleanb(a0)
        if c is FALSE:
            return ok(NONE)
        if name == "then_some":
            return ok(ite(c, some(args[1]), NONE))
        s1 = dict(st)
        r = cx.call_closure(args[1], [], s1, band(cond, c), site)
        nc = cleanb(bnot(c))
        if r is None:
            return (NONE, nc) if nc is not FALSE else None
        if c is TRUE:
            st.clear()
            st.update(s1)
            return bind(r[0], some), r[1]
        c1 = cleanb(band(c, r[1]))
        g, s2 = merge([(c1, s1), (nc, dict(st))])
        st.clear()
        st.update(s2)
        return ite(c1, bind(r[0], some), NONE), g
    if "option::Option" in path or path.startswith("core::option"):
        return option_call(cx, name, targs, args, atys, rty, st, cond, site)
    if "::mem::" in path:
        if name == "swap":
            x, y = cx.load(st, args[0]), cx.load(st, args[1])
            cx.store(st, args[0], y)
            cx.store(st, args[1], x)
            return ok(UNIT)
        if name == "replace":
            x = cx.load(st, a0)
            cx.store(st, a0, args[1])
            return ok(x)
        if name == "take":
            x = cx.load(st, a0)
            t = strip(targs[0])
            cx.store(st, a0, EMPTY if isadt(t, "Vec") else (NONE if isadt(t, "Option") else ZERO))
            return ok(x)
        if name == "drop":
            if targs and targs[0][0] == "adt" and short(targs[0][1]) in ("Ref", "RefMut"):
                end_borrow(cx, st, a0, short(targs[0][1]) == "RefMut")
            return ok(UNIT)
        if name == "discriminant":
            return ok(a0)
    if name == "drop":
        return ok(UNIT)
    # ---- Rc / RefCell / Box
    if "::rc::Rc" in path or "rcs::rc" in path:
        if name == "new":
            r = tmp(cx, targs[0] if targs else None)
            st[r] = a0
            return ok(mk("rc", r))
        if name == "ptr_eq":
            x, y = cx.load(st, args[0]), cx.load(st, args[1])

            def pe(a, b):
                if BOT in (a, b):
                    return BOT
                if a.a[0] == b.a[0]:
                    return TRUE
                if "H" in (a.a[0][0], b.a[0][0]) or all(isinstance(q.a[0][1], tuple) and q.a[0][1][0] == "cell" for q in (a, b)):
                    return FALSE
                m = sorted([a, b], key=lambda v: v.n)
                return finnode(("ptreq", m[0], m[1]), [FALSE, TRUE])
            return ok(bindn(pe, x, y))
        if name in ("clone",):
            return ok(cx.load(st, a0))
        if name in ("strong_count", "weak_count"):
            return ok(cx.sym(rty, ("rccount", cx.load(st, a0))))
    if "cell::RefCell" in path or "cell::Cell" in path or "cell::Ref" in path:
        if name == "new":
            return ok(a0)
        if name in ("borrow", "borrow_mut", "get_mut"):
            # &RefCell<T> is a reference to the (transparent) content
            if name != "get_mut":
                take_borrow(cx, st, a0, name == "borrow_mut", cond, site)
            return ok(a0)
        if name == "into_inner":
            return ok(a0)
        if name == "get":
            return ok(cx.load(st, a0))
        if name in ("set", "replace"):
            old = cx.load(st, a0)
            cx.store(st, a0, args[1])
            return ok(old if name == "replace" else UNIT)
        if name == "take":
            old = cx.load(st, a0)
            t = strip(targs[0])
            cx.store(st, a0, EMPTY if isadt(t, "Vec") else (NONE if isadt(t, "Option") else ZERO))
            return ok(old)
    if "boxed" in path:
        if name == "new_uninit":
            r = tmp(cx, targs[0])
            st[r] = BOT
            return ok(mk("ref", r, ()))
        if name == "box_assume_init_into_vec_unsafe":
            return ok(cx.load(st, a0))
        if name == "new":
            return ok(a0)
    if name == "into_vec" or name == "from_elem":
        if name == "from_elem" and isconst(args[1]) and cval(args[1]) <= 64:
            return ok(seqlit(*[a0] * int(cval(args[1]))))
        if name == "into_vec":
            return ok(deref_full(cx, st, a0))
    # ---- Vec / slice
    if "::vec::" in path or "slice" in path or "array" in path:
        return vec_call(cx, path, name, targs, args, atys, rty, st, cond, site)
    if "::iter::" in path:
        if name == "once":
            return ok(mkiter(stream("vals", seqlit(a0), mk("ty", targs[0]))))
        if name == "empty":
            return ok(mkiter(stream("vals", EMPTY, mk("ty", targs[0]))))
        if name == "new" and "range" in path:
            pass
    if "ops::range" in path:
        if name == "new":
            return ok(mk("struct", "RangeInclusive", args[0], args[1]))
        if name == "contains":
            r = cx.load(st, args[0])
            x = deref_full(cx, st, args[1])
            n = short(r.a[0])
            lo, hi = deref_full(cx, st, r.a[1]), deref_full(cx, st, r.a[2])
            c = vcmp(ge, x, lo)
            return ok(band(c, vcmp(lt if n == "Range" else le, x, hi)))
    if path.startswith(("core::iter", "std::iter")) and name in ("once", "empty", "repeat_n"):
        et = mk("ty", targs[0] if targs else ("other", "?"))
        if name == "repeat_n":
            if not litc(args[1]) or cval(args[1]) > 64:
                raise Undecided("repeat_n")
            return ok(mkiter(stream("vals", seqlit(*([a0] * int(cval(args[1])))), et)))
        return ok(mkiter(stream("vals", seqlit(a0) if name == "once" else EMPTY, et)))
    if "vec_deque" in path:
        return deque_call(cx, path, name, targs, args, atys, rty, st, cond, site)
    if "BinaryHeap" in path:
        return heap_call(cx, name, targs, args, rty, st, cond, site)
    if "result::Result" in path:
        raise Undecided("Result::" + name)
    if name == "black_box" or name == "identity":
        return ok(a0)
    # unknown external: an uninterpreted pure function
    if any(t[0] == "ref" and t[1] for t in atys):
        raise Undecided("unmodelled external " + path)
    cx.note("unmodelled external " + path)
    d = tuple(cx.deepres(st, a) for a in args)
    return ok(cx.sym(rty, ("ext", path) + d))


def cells_of(r):
    for leaf in (leaves(r) if r.k == "node" else [r]):
        if leaf is not BOT and leaf.k in ("ref", "rc"):
            root = leaf.a[0]
            if root[0] in ("S", "H", "T", "M"):
                yield leaf, ("B", root, leaf.a[1] if leaf.k == "ref" else ())


def take_borrow(cx, st, r, mut, cond, site):
    """RefCell's dynamic borrow rule: state 0 free, n shared guards alive, -1 an exclusive guard alive"""
    for leaf, key in list(cells_of(r)):
        c = TRUE if r.k != "node" else cleanb(cond_of(r, lambda x, l=leaf: x is l))
        cur = st.get(key, ZERO)
        bad = cleanb(band(band(cond, c), vcmp(lt, cur, ZERO) if not mut else bnot(vcmp(eq0, cur, ZERO))))
        if bad is not FALSE:
            cx.panics.append((bad, site[0], site[1], "RefCell already borrowed"))
        new = const(-1) if mut else vadd(cur, ONE)
        st[key] = new if c is TRUE else ite(c, new, cur)


def end_borrow(cx, st, r, mut):
    for leaf, key in list(cells_of(r)):
        if key not in st:
            continue
        c = TRUE if r.k != "node" else cleanb(cond_of(r, lambda x, l=leaf: x is l))
        new = ZERO if mut else vsub(st[key], ONE)
        st[key] = new if c is TRUE else ite(c, new, st[key])
        if st[key] is ZERO:
            del st[key]


def intmath(cx, name, args, rty, cond, site):
    a = args
    if name in ("wrapping_add", "saturating_add"):
        return vadd(a[0], a[1])
    if name == "wrapping_sub":
        return vsub(a[0], a[1])
    if name == "saturating_sub":
        return bindn(lambda x, y: BOT if BOT in (x, y) else ite(lt(x, y), ZERO, nsub(x, y)), a[0], a[1])
    if name == "checked_sub":
        return bindn(lambda x, y: BOT if BOT in (x, y) else ite(lt(x, y), NONE, some(nsub(x, y))), a[0], a[1])
    if name == "checked_add":
        return bind(vadd(a[0], a[1]), some)
    if name == "abs":
        return mapn(lambda x: BOT if x is BOT else nabs(x), a[0])
    if name == "abs_diff":
        return mapn(lambda x, y: BOT if BOT in (x, y) else nabs(nsub(x, y)), a[0], a[1])
    if name in ("max", "min"):
        return fmath(name, a)
    if name in ("is_positive", "is_negative"):
        return vcmp(lt, ZERO, a[0]) if name == "is_positive" else vcmp(lt, a[0], ZERO)
    if name == "signum":
        return bind(a[0], lambda x: BOT if x is BOT else ite(lt(x, ZERO), const(-1), ite(lt(ZERO, x), ONE, ZERO)))
    if name == "pow":
        return fmath("powi", a)
    if name == "rem_euclid":
        return mapn(lambda x, y: BOT if BOT in (x, y) else nmod(x, y), *a)
    raise Undecided("integer function " + name)


def option_call(cx, name, targs, args, atys, rty, st, cond, site):
    ok = lambda v: (v, TRUE)
    o = args[0]
    byref = False
    if leafk(o) <= {"ref"} and o.k != "enum":
        o = cx.load(st, args[0])
        byref = True
    isn = cleanb(cond_of(o, lambda x: x.a[1] == 0))
    isS = cleanb(bnot(isn))
    payload = lambda: cx.field(o, ("v", 1, 0))
    pref = lambda: cx.addref(args[0], ("v", 1, 0))
    if name in ("unwrap", "expect", "unwrap_unchecked"):
        panic(cx, band(cond, isn), site, "unwrap of None")
        if isS is FALSE:
            return None
        return payload(), isS
    if name == "is_some":
        return ok(isS)
    if name == "is_none":
        return ok(isn)
    if name in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
        return ok(ite(isS, some(pref()), NONE) if isS is not FALSE else NONE)
    if name in ("cloned", "copied"):
        return ok(ite(isS, some(cx.load(st, payload())), NONE))
    if name == "unwrap_or":
        return ok(ite(isS, payload(), args[1]))
    if name == "take":
        cx.store(st, args[0], NONE)
        return ok(o)
    if name in ("replace",):
        cx.store(st, args[0], some(args[1]))
        return ok(o)
    if name == "insert":
        cx.store(st, args[0], some(args[1]))
        return ok(pref())
    if name == "or":
        return ok(ite(isS, o, args[1]))
    if name == "xor":
        o2 = args[1]
        n2 = cleanb(cond_of(o2, lambda x: x.a[1] == 0))
        return ok(ite(isS, ite(n2, o, NONE), o2))
    if name == "zip":
        o2 = args[1]
        n2 = cleanb(cond_of(o2, lambda x: x.a[1] == 0))
        both = cleanb(band(isS, bnot(n2)))
        if both is FALSE:
            return ok(NONE)
        return ok(ite(both, some(mk("struct", "()", payload(), cx.field(o2, ("v", 1, 0)))), NONE))
    if name == "flatten":
        return ok(ite(isS, payload(), NONE) if isS is not FALSE else NONE)
    if name == "and":
        return ok(ite(isS, args[1], NONE))
    if name in ("iter", "into_iter"):
        return ok(mkiter(stream("opt", o)))
    if name == "get_or_insert":
        cx.store(st, args[0], ite(isS, o, some(args[1])))
        return ok(pref())
    if name == "unwrap_or_default":
        t = rty
        d = ZERO if t[0] in ("prim", "param") else (EMPTY if isadt(t, "Vec") else NONE)
        return ok(ite(isS, payload(), d))
    # closure taking
    from mireval import merge

    def branch(c, clo, a, st0):
        s = dict(st0)
        r = cx.call_closure(clo, a, s, band(cond, c), site)
        return r, s

    if name in ("map", "and_then", "is_some_and", "map_or", "map_or_else", "filter", "unwrap_or_else", "or_else", "is_none_or", "inspect", "get_or_insert_with"):
        s_some, s_none = dict(st), dict(st)
        vs, vn = None, None
        cs, cn = isS, isn
        clo = args[1]
        if name in ("map", "and_then", "is_some_and", "filter", "is_none_or", "map_or", "map_or_else"):
            if name in ("map_or", "map_or_else"):
                clo = args[2]
            if isS is not FALSE:
                a = payload()
                if name == "filter":
                    a = mk("ref", ("A", a), ())
                r, s_some = branch(isS, clo, [a], st)
                if r is None:
                    cs = FALSE
                else:
                    v, nc = r
                    cs = cleanb(band(isS, nc))
                    if name == "map":
                        vs = bind(v, some)
                    elif name == "filter":
                        vs = ite(v, o, NONE)
                    else:
                        vs = v
            if name in ("map", "and_then", "filter"):
                vn = NONE
            elif name == "is_some_and":
                vn = FALSE
            elif name == "is_none_or":
                vn = TRUE
            elif name == "map_or":
                vn = args[1]
            else:
                r, s_none = branch(isn, args[1], [], st)
                vn = r[0] if r else BOT
        else:
            vs = payload() if name == "unwrap_or_else" else o
            if isn is not FALSE:
                r, s_none = branch(isn, clo, [], st)
                if r is None:
                    cn = FALSE
                    vn = BOT
                else:
                    vn = r[0]
                    cn = cleanb(band(isn, r[1]))
            if name == "get_or_insert_with":
                cx.store(s_none, args[0], some(vn))
                vs = vn = pref()
        ins = [x for x in ((cs, s_some), (cn, s_none)) if x[0] is not FALSE]
        if not ins:
            return None
        c, s = merge(ins)
        st.clear()
        st.update(s)
        if cs is FALSE:
            return vn, c
        if cn is FALSE:
            return vs, c
        return ite(cs, vs, vn), c
    raise Undecided("Option::" + name)


def vec_call(cx, path, name, targs, args, atys, rty, st, cond, site):
    ok = lambda v: (v, TRUE)
    a0 = args[0] if args else None
    ety = targs[0] if targs else ("other", "?")
    if name in ("new", "with_capacity"):
        return ok(EMPTY)
    if name in ("reserve", "shrink_to_fit", "reserve_exact"):
        return ok(UNIT)
    if name == "into_iter":
        return ok(to_stream(cx, st, a0, atys[0]))
    seq = cx.load(st, a0) if leafk(a0) <= {"ref"} else a0
    n = lambda: seq_len(seq)
    at = lambda i: cx.addref(a0, ("i", i, None, ety))
    if name == "push":
        cx.store(st, a0, seq_cat(seq, seqlit(args[1])))
        return ok(UNIT)
    if name == "len":
        return ok(n())
    if name == "is_empty":
        return ok(vcmp(eq0, n(), ZERO))
    if name in ("iter",):
        return ok(mkiter(stream("refs", a0, mk("ty", ety))))
    if name in ("iter_mut",):
        return ok(mkiter(stream("refs", a0, mk("ty", ety))))
    if name == "clear":
        cx.store(st, a0, EMPTY)
        return ok(UNIT)
    if name in ("as_slice", "as_mut_slice", "as_ref", "borrow"):
        return ok(a0)
    if name in ("to_vec", "to_owned", "into_boxed_slice", "into_vec"):
        return ok(seq)
    if name in ("first", "last", "first_mut", "last_mut"):
        ln = n()
        emp = vcmp(eq0, ln, ZERO)
        i = ZERO if name.startswith("first") else vsub(ln, ONE)
        if emp is TRUE:
            return ok(NONE)
        return ok(ite(emp, NONE, some(bind(i, lambda x: BOT if x is BOT else at(x)))))
    if name in ("get", "get_mut"):
        i = args[1]
        if not leafk(i) <= {"num"}:
            raise Undecided("slice get by range")
        c = index_ok(i, n())
        return ok(ite(c, some(bind(i, lambda x: BOT if x is BOT else at(x))), NONE))
    if name == "pop":
        ln = n()
        emp = vcmp(eq0, ln, ZERO)

        def pop(s):
            if s is BOT:
                return mk("struct", "()", BOT, BOT)
            if s.k == "seqlit":
                if not s.a:
                    return mk("struct", "()", NONE, s)
                return mk("struct", "()", some(s.a[-1]), seqlit(*s.a[:-1]))
            if s.k == "cat" and s.a[-1].k == "seqlit":
                l = s.a[-1]
                rest = s.a[:-1] + ((seqlit(*l.a[:-1]),) if len(l.a) > 1 else ())
                r = rest[0] if len(rest) == 1 else mk("cat", *rest)
                return mk("struct", "()", some(l.a[-1]), r)
            ln = seq_len(s)
            last = cx.seq_get(s, vsub(ln, ONE), ety)
            e = vcmp(eq0, ln, ZERO)
            return mk("struct", "()", ite(e, NONE, some(last)), ite(e, s, mk("slice", s, ZERO, vsub(ln, ONE))))
        r = bind(seq, pop)
        cx.store(st, a0, cx.field(r, ("f", 1)))
        return ok(cx.field(r, ("f", 0)))
    if name == "truncate":
        k = args[1]

        def tr(s):
            if s.k == "seqlit" and isconst(k):
                return seqlit(*s.a[:int(cval(k))])
            return mk("slice", s, ZERO, k)
        cx.store(st, a0, bind(seq, tr))
        return ok(UNIT)
    if name in ("remove", "swap_remove"):
        i = args[1]
        c = index_ok(i, n())
        panic(cx, band(cond, bnot(c)), site, "remove out of bounds")
        v = cx.seq_get(seq, i, ety)

        def rem(s, x):
            if BOT in (s, x):
                return BOT
            if s.k == "seqlit" and litc(x) and cval(x) >= len(s.a):
                return BOT
            if s.k == "seqlit" and isconst(x) and name == "remove":
                j = int(cval(x))
                return seqlit(*(s.a[:j] + s.a[j + 1:]))
            if s.k == "seqlit" and litc(x):
                j, l = int(cval(x)), list(s.a)
                l[j] = l[-1]
                return seqlit(*l[:-1])
            return mk("removed" if name == "remove" else "swapremoved", s, x)
        cx.store(st, a0, bindn(rem, seq, i))
        return v, cleanb(c)
    if name == "insert":
        i = args[1]

        def ins(s, x):
            if BOT in (s, x):
                return BOT
            if s.k == "seqlit" and isconst(x):
                j = int(cval(x))
                return seqlit(*(s.a[:j] + (args[2],) + s.a[j:]))
            return mk("inserted", s, x, args[2])
        cx.store(st, a0, bindn(ins, seq, i))
        return ok(UNIT)
    if name == "append":
        other = cx.load(st, args[1])
        cx.store(st, a0, seq_cat(seq, other))
        cx.store(st, args[1], EMPTY)
        return ok(UNIT)
    if name == "extend_from_slice":
        cx.store(st, a0, seq_cat(seq, cx.load(st, args[1])))
        return ok(UNIT)
    if name in ("sort", "sort_by", "sort_unstable", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
        memo = []

        def general():
            """the comparator as a function of two arbitrary elements"""
            if not memo:
                if name.endswith("key"):
                    e1, e2 = cx.sym(ety, ("e1",)), cx.sym(ety, ("e2",))
                    ks = []
                    for e in (e1, e2):
                        r = cx.call_closure(args[1], [mk("ref", ("A", e), ())], st, cond, site)
                        ks.append(r[0])
                    memo.append(value_cmp(cx, targs[1] if len(targs) > 1 else ("other", "?"), ks[0], ks[1], st, cond, site))
                else:
                    memo.append(symcmp(cx, args[1] if len(args) > 1 else None, ety, st, cond, site))
            return memo[0]
        stable = "unstable" not in name
        def srt(s):
            if s is BOT:
                return BOT
            if s.k == "seqlit" and len(s.a) <= 1:
                return s
            if s.k == "seqlit" and len(s.a) <= (400 if T.ASSUME else 8):
                x = litsort(s.a)
                if x is not None:
                    return seqlit(*x)
            return mk("sort", s, general(), mk("ty", ety))

        def litsort(xs):
            """elements spelled out whose pairwise order is decided: the sorted list (stable)"""
            def one(a, b):
                p, q = mk("ref", ("A", a), ()), mk("ref", ("A", b), ())
                if name.endswith("key"):
                    ra, rb = cx.call_closure(args[1], [p], dict(st), cond, site), cx.call_closure(args[1], [q], dict(st), cond, site)
                    return value_cmp(cx, targs[1] if len(targs) > 1 else ("other", "?"), ra[0], rb[0], st, cond, site)
                if len(args) > 1:
                    r = cx.call_closure(args[1], [p, q], dict(st), cond, site)
                    return None if r is None else r[0]
                return value_cmp(cx, ety, p, q, st, cond, site)
            np = len(cx.panics)
            out = None
            try:
                for i, a in enumerate(xs):  # one undecided neighbour is enough to stop
                    if i and one(xs[i - 1], a).k != "enum":
                        return None
                res = []
                for a in xs:
                    j = len(res)
                    while j > 0:
                        c = one(res[j - 1], a)
                        if c is None or c.k != "enum":
                            return None
                        if c.a[1] != 2:
                            break
                        j -= 1
                    res.insert(j, a)
                out = res
                return out
            finally:
                if out is None:
                    del cx.panics[np:]
        cx.store(st, a0, bind(seq, srt))
        return ok(UNIT)
    if name == "reverse":
        def rv(s):
            if s is BOT:
                return BOT
            if s.k == "seqlit":
                return seqlit(*reversed(s.a))
            return s.a[0] if s.k == "rev" else mk("rev", s)
        cx.store(st, a0, bind(seq, rv))
        return ok(UNIT)
    if name in ("dedup", "dedup_by", "dedup_by_key", "retain", "retain_mut", "drain", "split_off", "split_at", "rotate_left", "rotate_right", "chunks", "chunks_exact", "is_sorted_by", "fill", "resize", "splice", "binary_search_by", "swap_with_slice", "extend_from_within") and leafk(seq) <= {"seqlit"}:
        r = vec_literal(cx, name, targs, args, st, cond, site, seq, a0, ety)
        if r is not None:
            return r
    if name in ("dedup", "dedup_by"):
        if name == "dedup":
            e1, e2 = cx.sym(ety, ("e1",)), cx.sym(ety, ("e2",))
            o = struct_eq(cx, ety, mk("ref", ("A", e1), ()), mk("ref", ("A", e2), ()), st, cond, site)
        else:
            o = symcmp(cx, args[1], ety, st, cond, site)

        def dd(s):
            if s is BOT or (s.k == "seqlit" and len(s.a) <= 1):
                return s
            return mk("dedup", s, o, mk("ty", ety))
        cx.store(st, a0, bind(seq, dd))
        return ok(UNIT)
    if name == "retain":
        e1 = cx.sym(ety, ("e1",))
        r = cx.call_closure(args[1], [mk("ref", ("A", e1), ())], st, cond, site)
        cx.store(st, a0, bind(seq, lambda s: BOT if s is BOT else mk("filt", s, r[0], mk("ty", ety))))
        return ok(UNIT)
    if name == "swap":
        i, j = args[1], args[2]
        x, y = cx.seq_get(seq, i, ety), cx.seq_get(seq, j, ety)
        cx.store(st, a0, cx.seq_set(cx.seq_set(seq, i, y), j, x))
        return ok(UNIT)
    if name == "windows":
        return ok(mkiter(stream("windows", a0, args[1])))
    if name == "contains":
        def visit(s2, item, c):
            e = cleanb(struct_eq(cx, ety, item, args[1], s2, c, site))
            return [("hit", e, dict(s2)), (None, cleanb(bnot(e)), s2)]
        outs = consume(cx, st, stream("refs", a0, mk("ty", ety)), cond, site, visit)
        return ok(finish(cx, st, outs, lambda t, x: mkbool(t == "hit")))
    if name == "concat":
        if seq.k == "seqlit":
            r = EMPTY
            for x in seq.a:
                r = seq_cat(r, deref_full(cx, st, x))
            return ok(r)
    if name == "map" and "array" in path:
        if seq.k == "seqlit":
            out = []
            for x in seq.a:
                r = cx.call_closure(args[1], [x], st, cond, site)
                out.append(r[0])
            return ok(seqlit(*out))
    if name in ("split_first", "split_last"):
        ln = n()
        emp = vcmp(eq0, ln, ZERO)
        if name == "split_first":
            el, lo, hi = at(ZERO), ONE, ln
        else:
            el, lo, hi = bind(vsub(ln, ONE), at), ZERO, vsub(ln, ONE)
        return ok(ite(emp, NONE, some(mk("struct", "()", el, mk("ref", ("A", mk("slice", seq, lo, hi)), ())))))
    if name in ("drain",):
        raise Undecided("Vec::drain")
    raise Undecided("Vec/slice::" + name)


def vec_literal(cx, name, targs, args, st, cond, site, seq, a0, ety):
    """operations on sequences whose elements are spelled out"""
    snoc = lambda a, x: bind(a, lambda y: BOT if y is BOT else seq_cat(y, seqlit(x)))
    aref = lambda x: mk("ref", ("A", x), ())
    if name in ("dedup", "dedup_by", "dedup_by_key"):
        def same(kept, x):
            if name == "dedup":
                return struct_eq(cx, ety, aref(kept), aref(x), st, cond, site)
            if name == "dedup_by":
                r = cx.call_closure(args[1], [aref(x), aref(kept)], st, cond, site)
                return BOT if r is None else r[0]
            ks = [cx.call_closure(args[1], [aref(e)], st, cond, site)[0] for e in (kept, x)]
            return struct_eq(cx, targs[-1] if targs else ety, ks[0], ks[1], st, cond, site)

        def dd(s):
            if s is BOT:
                return BOT
            r = EMPTY
            for x in s.a:
                r = bind(r, lambda y, x=x: BOT if y is BOT else y if not y.a and x is None else seqlit(x) if not y.a else ite(cleanb(same(y.a[-1], x)), y, seq_cat(y, seqlit(x))))
            return r
        cx.store(st, a0, bind(seq, dd))
        return UNIT, TRUE
    if name in ("retain", "retain_mut"):
        def rt(s):
            if s is BOT:
                return BOT
            r = EMPTY
            for x in s.a:
                q = cx.call_closure(args[1], [aref(x)], st, cond, site)
                if q is None:
                    return BOT
                r = ite(cleanb(q[0]), snoc(r, x), r)
            return r
        cx.store(st, a0, bind(seq, rt))
        return UNIT, TRUE
    if seq.k != "seqlit":
        return None
    n = len(seq.a)
    if name in ("drain", "splice"):
        rg = args[1]
        k = short(rg.a[0]) if rg.k == "struct" else None
        lo, hi = {"Range": lambda: (rg.a[1], rg.a[2]), "RangeFrom": lambda: (rg.a[1], const(n)), "RangeTo": lambda: (ZERO, rg.a[1]), "RangeFull": lambda: (ZERO, const(n))}.get(k, lambda: (BOT, BOT))()
        if not (litc(lo) and litc(hi)) or cval(hi) > n or cval(lo) > cval(hi):
            raise Undecided("drain")
        lo, hi = int(cval(lo)), int(cval(hi))
        mid = seq.a[lo:hi]
        if name == "drain":
            cx.store(st, a0, seqlit(*(seq.a[:lo] + seq.a[hi:])))
            return mkiter(stream("vals", seqlit(*mid), mk("ty", ety))), TRUE
        raise Undecided("splice")
    if name in ("split_off", "rotate_left", "rotate_right", "split_at"):
        if not litc(args[1]) or cval(args[1]) > n:
            raise Undecided(name)
        i = int(cval(args[1]))
        if name == "split_off":
            cx.store(st, a0, seqlit(*seq.a[:i]))
            return seqlit(*seq.a[i:]), TRUE
        if name == "split_at":
            return mk("struct", "()", aref(seqlit(*seq.a[:i])), aref(seqlit(*seq.a[i:]))), TRUE
        i = i if name == "rotate_left" else n - i
        cx.store(st, a0, seqlit(*(seq.a[i:] + seq.a[:i])))
        return UNIT, TRUE
    return None


def deque_call(cx, path, name, targs, args, atys, rty, st, cond, site):
    m = {"push_back": "push", "pop_back": "pop", "front": "first", "back": "last", "front_mut": "first_mut", "back_mut": "last_mut"}
    if name in ("pop_front", "push_front"):
        seq = cx.load(st, args[0])
        if name == "push_front":
            cx.store(st, args[0], bind(seq, lambda s: BOT if s is BOT else seq_cat(seqlit(args[1]), s)))
            return UNIT, TRUE
        ety = targs[0] if targs else ("other", "?")

        def pop(s):
            if s is BOT:
                return mk("struct", "()", BOT, BOT)
            if s.k == "seqlit":
                return mk("struct", "()", some(s.a[0]), seqlit(*s.a[1:])) if s.a else mk("struct", "()", NONE, s)
            ln = seq_len(s)
            e = vcmp(eq0, ln, ZERO)
            return mk("struct", "()", ite(e, NONE, some(cx.seq_get(s, ZERO, ety))), ite(e, s, mk("slice", s, ONE, ln)))
        r = bind(seq, pop)
        cx.store(st, args[0], cx.field(r, ("f", 1)))
        return cx.field(r, ("f", 0)), TRUE
    if name in ("get", "get_mut", "remove", "insert", "truncate", "len", "is_empty", "iter", "iter_mut", "clear", "new", "with_capacity", "append", "contains", "retain", "swap", "extend") or name in m:
        if name == "remove":  # yields an Option
            seq = cx.load(st, args[0])
            if seq.k != "seqlit" or not litc(args[1]):
                raise Undecided("VecDeque::remove")
            i = int(cval(args[1]))
            if i >= len(seq.a):
                return NONE, TRUE
            cx.store(st, args[0], seqlit(*(seq.a[:i] + seq.a[i + 1:])))
            return some(seq.a[i]), TRUE
        return vec_call(cx, path, m.get(name, name), targs, args, atys, rty, st, cond, site)
    raise Undecided("VecDeque::" + name)


def heap_call(cx, name, targs, args, rty, st, cond, site):
    ok = lambda v: (v, TRUE)
    ety = targs[0] if targs else ("other", "?")
    if name in ("new", "with_capacity"):
        return ok(mk("bag"))
    h = cx.load(st, args[0]) if leafk(args[0]) <= {"ref"} else args[0]
    if name == "push":
        cx.store(st, args[0], bind(h, lambda x: BOT if x is BOT else mk("bag", *(x.a if x.k == "bag" else (mk("bagbase", x),)), args[1])))
        return ok(UNIT)
    if T.ASSUME and h.k == "bag" and len(h.a) > 300:
        raise Diverges("the queue at %s:%s grows past 300 elements" % site)
    explicit = lambda x: x.k == "bag" and len(x.a) <= (400 if T.ASSUME else 5) and all(e.k != "bagbase" for e in x.a)
    if name in ("pop", "peek"):
        def top(x, what):
            """a heap spelled out: the greatest element, and the rest"""
            if not x.a:
                return NONE if what == "pop" else x
            if T.ASSUME:
                i = 0
                for j in range(1, len(x.a)):
                    o = value_cmp(cx, ety, x.a[j], x.a[i], st, cond, site)
                    if o.k != "enum":
                        break
                    i = j if o.a[1] == 2 else i
                else:
                    return some(x.a[i]) if what == "pop" else mk("bag", *(x.a[:i] + x.a[i + 1:]))
            r = BOT
            for i in range(len(x.a) - 1, -1, -1):
                c = TRUE
                for j in range(len(x.a)):
                    if j != i:
                        o = value_cmp(cx, ety, x.a[i], x.a[j], st, cond, site)
                        c = band(c, ord_is(o, (1, 2)) if j > i else ord_is(o, (2,)))
                v = some(x.a[i]) if what == "pop" else mk("bag", *(x.a[:i] + x.a[i + 1:]))
                r = v if r is BOT else ite(cleanb(c), v, r)
            return r
        if name == "pop":
            res = bind(h, lambda x: BOT if x is BOT else top(x, "pop") if explicit(x) else cx.sym(("adt", "core::option::Option", (ety,)), ("bagpop", x)))
            cx.store(st, args[0], bind(h, lambda x: BOT if x is BOT else top(x, "rest") if explicit(x) else mk("opq", ("bagrest", x))))
            return ok(res)
        if all(explicit(x) for x in leaves(h) if x is not BOT):
            return ok(bind(h, lambda x: BOT if x is BOT else bind(top(x, "pop"), lambda q: q if q is NONE else some(mk("ref", ("A", q.a[2]), ())))))
    if name == "peek":
        return ok(cx.sym(rty, ("bagpeek", h)))
    if name == "is_empty":
        return ok(bind(h, lambda x: mkbool(not x.a) if x.k == "bag" and (not x.a or explicit(x)) else FALSE if x.k == "bag" else finnode(("bagempty", x), [FALSE, TRUE])))
    if name == "len":
        return ok(bind(h, lambda x: const(len(x.a)) if explicit(x) else numatom(atom(("opq", ("baglen", x)), True, True))))
    if name == "clear":
        cx.store(st, args[0], mk("bag"))
        return ok(UNIT)
    if name in ("reserve", "shrink_to_fit", "reserve_exact", "shrink_to"):
        return ok(UNIT)
    raise Undecided("BinaryHeap::" + name)


def ctor(cx, fty, args, rty):
    p = fty[2]
    for q, (kind, vs, _) in cx.F.adts.items():
        if kind == "Struct" and q == p:
            return mk("struct", q, *args), TRUE
        if kind == "Enum" and p.startswith(q + "::"):
            for i, v in enumerate(vs):
                if p == q + "::" + v[0]:
                    return mk("enum", q, i, *args), TRUE
    if short(p) == "Some":
        return some(args[0]), TRUE
    raise Undecided("constructor " + p)
