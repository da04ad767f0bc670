"""Loop summaries.

A loop is unrolled only when its trip count is static (literal arrays, constant ranges).  Otherwise the
places it modifies are found by iterating the body on symbolic header values until the set is stable,
and each place gets a closed form in the iteration index (induction variables, prefix sums, appended
sequences, latched flags, delayed values); what has no closed form is kept as an uninterpreted loop term
(initial values, step functions, exit conditions), which is compared by normal form only.
"""
from interp import *
from msub import *
import terms as T

MAXUNROLL = 40
MAXROUNDS = 150  # of a case whose every comparison is decided


def navigate(cx, ty, e):
    if ty is None:
        return None
    k = ty[0]
    if e[0] == "f":
        if k == "tuple":
            return ty[1][e[1]] if e[1] < len(ty[1]) else None
        if k == "adt":
            if ty[1] in cx.F.adts:
                fl = cx.F.adts[ty[1]][1][0][2]
                return tsub(fl[e[1]][1], dict(enumerate(ty[2]))) if e[1] < len(fl) else None
        if k == "closure":
            return ty[2][e[1]] if e[1] < len(ty[2]) else None
        return None
    if e[0] == "v":
        if k == "adt":
            if ty[1] in cx.F.adts:
                fl = cx.F.adts[ty[1]][1][e[1]][2]
                return tsub(fl[e[2]][1], dict(enumerate(ty[2])))
            if ty[2]:
                return ty[2][0]
        return None
    if e[0] == "i":
        if k in ("array", "slice"):
            return ty[1]
        if k == "adt" and ty[2]:
            return ty[2][0]
    return None


def place_type(cx, root, path):
    ty = cx.rtype.get(root)
    if root[0] == "L":
        ty = cx.frames[root[1]].lty[root[2]]
    for e in path:
        if e[0] == "pos":
            return ("prim", "usize")
        ty = navigate(cx, ty, e)
    return ty


def rdplace(cx, v, path):
    for e in path:
        if e[0] == "pos":
            def f(x):
                return x.a[1] if x.k == "iter" else BOT
            v = bind(v, f)
        elif e[0] == "rp":  # index inside a reference path
            def f(x, e=e):
                if x.k == "ref" and e[1] < len(x.a[1]) and x.a[1][e[1]][0] == "i":
                    return x.a[1][e[1]][1]
                return BOT
            v = bind(v, f)
        else:
            v = cx.field(v, e)
    return v


def wrplace(cx, v, path, x):
    if not path:
        return x
    e = path[0]
    if e[0] == "pos":
        return bind(v, lambda l: mk("iter", l.a[0], x) if l.k == "iter" else l)
    if e[0] == "rp":
        def f(l):
            p = list(l.a[1])
            p[e[1]] = ("i", x) + tuple(p[e[1]][2:])
            return mk("ref", l.a[0], tuple(p))
        return bind(v, f)
    inner = cx.field(v, e)
    return cx.setfield(v, e, wrplace(cx, inner, path[1:], x))


def diff(cx, a, b, path, out):
    if a is b:
        return
    if b is BOT:
        return
    if a.k == b.k and a.k == "num" and neq(a, b):
        return
    if a.k == "struct" and b.k == "struct" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
        for i, (x, y) in enumerate(zip(a.a[1:], b.a[1:])):
            diff(cx, x, y, path + (("f", i),), out)
        return
    if a.k == "enum" and b.k == "enum" and a.a[:2] == b.a[:2]:
        for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:])):
            diff(cx, x, y, path + (("v", a.a[1], i),), out)
        return
    if a.k == "clo" and b.k == "clo" and a.a[:2] == b.a[:2]:
        for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:])):
            diff(cx, x, y, path + (("f", i),), out)
        return
    if a.k == "iter" and b.k == "iter" and a.a[0] is b.a[0]:
        out.append(path + (("pos",),))
        return
    if a.k == "ref" and b.k == "ref" and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        ds = [i for i, (x, y) in enumerate(zip(a.a[1], b.a[1])) if x != y]
        if all(a.a[1][i][0] == "i" and b.a[1][i][0] == "i" for i in ds):
            for i in ds:
                out.append(path + (("rp", i),))
            return
    if a.k == "seqlit" and b.k == "seqlit" and len(a.a) == len(b.a) and len(a.a) <= 8:
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            diff(cx, x, y, path + (("i", const(i)),), out)
        return
    out.append(path)


def liveness(frame):
    cfg = frame.cfg
    body = frame.body
    key = "_live"
    if hasattr(cfg, key):
        return cfg._live
    use, dfn = {}, {}
    addr = set()

    def places(o, acc):
        if isinstance(o, dict):
            if "l" in o and "p" in o and isinstance(o.get("p"), list):
                acc.append(o)
                for e in o["p"]:
                    if e[0] == "index":
                        acc.append({"l": e[1], "p": []})
                return
            for v in o.values():
                places(v, acc)
        elif isinstance(o, list):
            for v in o:
                places(v, acc)

    for b in cfg.reach:
        u, d = set(), set()
        blk = cfg.b[b]
        for s in blk["s"]:
            if "rv" not in s:
                continue
            acc = []
            places(s["rv"], acc)
            if s["rv"]["k"] in ("ref", "rawptr") and not any(e[0] == "deref" for e in s["rv"]["pl"]["p"]):
                addr.add(s["rv"]["pl"]["l"])
            if s["pl"]["p"]:
                places(s["pl"], acc)
            for p in acc:
                if p["l"] not in d:
                    u.add(p["l"])
            if not s["pl"]["p"]:
                d.add(s["pl"]["l"])
        t = blk["t"]
        acc = []
        if t["k"] == "call":
            places(t["args"], acc)
            places(t["f"], acc)
            if t["d"]["p"]:
                places(t["d"], acc)
        elif t["k"] in ("switch", "assert"):
            places(t["o"], acc)
        for p in acc:
            if p["l"] not in d:
                u.add(p["l"])
        if t["k"] == "return" and 0 not in d:
            u.add(0)
        if t["k"] == "call" and not t["d"]["p"]:
            d.add(t["d"]["l"])
        use[b], dfn[b] = u, d
    live = {b: set() for b in cfg.reach}
    ch = True
    while ch:
        ch = False
        for b in reversed(cfg.rpo):
            o = set()
            for s in cfg.succ[b]:
                o |= live[s]
            n = use[b] | (o - dfn[b])
            if n != live[b]:
                live[b] = n
                ch = True
    cfg._live = live
    cfg._addr = addr
    return live


def run_loop(frame, header, blocks, cond, st):
    cx = frame.cx
    live = liveness(frame)[header]
    # address-taken temporaries assigned before use in each iteration are still dead at the header
    livel = live

    def step(s):
        import mireval
        sub_rets = frame.rets
        frame.rets = []
        backs, exits = frame.region(header, blocks, TRUE, s)
        static = frame.static_exit
        exits = exits + [("return", c, x) for c, x in frame.rets]
        frame.rets = sub_rets
        return backs, exits, static

    def islive(root):
        if root[0] == "L" and root[1] == frame.fid:
            return root[2] in livel
        return True

    outs = generic(cx, st, step, islive, (frame.fn["p"], frame.cfg.b[header]["t"].get("ln") or frame.fn["ln"]))
    res = []
    for tag, c, s in outs:
        cc = cleanb(band(cond, c))
        if cc is not FALSE:
            res.append((tag, cc, s))
    return res


def wrap(cx, acc, f):
    sp, se = cx.panics, cx.effects
    cx.panics, cx.effects = [], []
    try:
        r = f()
    finally:
        p, e = cx.panics, cx.effects
        cx.panics, cx.effects = sp, se
    return r, p, e


def addp(cx, acc, p, e):
    for (c, a, b, d) in p:
        cc = cleanb(band(acc, c))
        if cc is not FALSE:
            cx.panics.append((cc, a, b, d))
    for (c, a, b) in e:
        cx.effects.append((cleanb(band(acc, c)), a, b))


def prune(v, c, memo):
    """the value on the paths satisfying c (anything elsewhere)"""
    r = memo.get(v)
    if r is not None:
        return r
    if v.k == "node":
        r = collapse(ite(c, v, BOT), {})
    elif v.k in ("struct", "enum", "seqlit", "bag"):
        r = mk(v.k, *[prune(x, c, memo) if isinstance(x, V) else x for x in v.a])
    else:
        r = v
    memo[v] = r
    return r


def collapse(v, memo):
    if v.k != "node":
        return v
    r = memo.get(v)
    if r is None:
        var, cuts, ch = v.a
        ch2 = [collapse(x, memo) for x in ch]
        live = {x for x in ch2 if x is not BOT}
        r = next(iter(live)) if len(live) == 1 else rebuild(var, cuts, ch2) if live else BOT
        memo[v] = r
    return r


def measure(cx, st, out=None):
    """sizes of the explicit containers and non-negative constants of a state: the largest over the paths"""
    m = {}

    def rec(key, v, d):
        if v.k == "node":
            ls = [x for x in leaves(v) if x is not BOT]
        else:
            ls = [v]
        if not ls or d > 3:
            return
        if all(x.k == "seqlit" for x in ls) or all(x.k == "bag" for x in ls):
            m[key] = max(len(x.a) for x in ls)
        elif all(x.k == "num" and isconst(x) and cval(x) >= 0 for x in ls):
            m[key] = max(cval(x) for x in ls)
        elif len(ls) == 1 and ls[0].k in ("struct", "enum"):
            for i, x in enumerate(ls[0].a):
                if isinstance(x, V):
                    rec(key + (i,), x, d + 1)
    for root, v in st.items():
        if root[0] != "B":
            rec((root,), v, 0)
    return m


def generic(cx, st0, step, islive, where):
    from mireval import merge
    # ---- static trip count: unroll
    st = dict(st0)
    acc = TRUE
    outs = []
    pend = []
    spec = 0
    seen, decided = set(), True
    for it in range(MAXROUNDS if T.ASSUME else MAXUNROLL):
        (backs, exits, static), p, e = wrap(cx, acc, lambda: step(dict(st)))
        if backs and not static:
            # not decided: go on while an explicit container of the state gets smaller on every path round the loop
            c, st2 = merge(backs)
            st2 = {k: prune(v, c, {}) for k, v in st2.items()} if c is not TRUE else st2
            m0, m1 = measure(cx, st), measure(cx, st2)
            if not any(k in m1 and m1[k] < x and (k[0][0] != "L" or islive(k[0])) for k, x in m0.items()):
                break
            spec += 1
            if spec > 14:
                break
        else:
            st2 = None
        pend.append((acc, p, e))
        for t, ce, s in exits:
            cc = cleanb(band(acc, ce))
            if cc is not FALSE:
                outs.append((t, cc, s))
        if not backs:
            for x in pend:
                addp(cx, *x)
            return outs
        c, st = (c, st2) if st2 is not None else merge(backs)
        acc = cleanb(band(acc, c))
        if acc is FALSE:
            for x in pend:
                addp(cx, *x)
            return outs
        if T.ASSUME and (decided := decided and static and len(backs) == 1 and acc is TRUE):
            key = frozenset((r, v) for r, v in st.items() if r[0] != "L" or islive(r))
            if key in seen:
                raise Diverges("the loop at %s:%s comes back to a state it was in, and never ends" % where)
            seen.add(key)
    else:
        if T.ASSUME and decided:
            raise Diverges("the loop at %s:%s has not ended after %d rounds" % (where + (MAXROUNDS,)))
    # ---- symbolic summary
    cx.lcnt += 1
    lid = cx.lcnt
    if cx.loopdepth > 6:
        raise Undecided("loop nesting")
    cx.loopdepth += 1
    try:
        return summarise(cx, st0, step, islive, where, lid)
    finally:
        cx.loopdepth -= 1


def summarise(cx, st0, step, islive, where, lid):
    from mireval import merge
    places = []  # (root, path)
    mu = {}
    tys = {}
    hc0 = cx.hcnt
    for rnd in range(10):
        st = dict(st0)
        for k, (root, path) in enumerate(places):
            st[root] = wrplace(cx, cx.get(st, root), path, mu[(root, path)])
        (backs, exits, _), pan, eff = wrap(cx, TRUE, lambda: step(dict(st)))
        if not backs:
            # body never loops back
            addp(cx, TRUE, pan, eff)
            return [(t, c, s) for t, c, s in exits]
        bc, s1 = merge(backs)
        new = []
        for root in list(s1):
            if not islive(root):
                continue
            if root[0] == "L" and root not in st0:
                continue
            if root[0] == "H" and root not in st0:
                cx.note("allocation in loop at %s:%s" % where)
                raise Undecided("allocation in a loop at %s:%s" % where)
            out = []
            diff(cx, cx.get(st, root), s1[root], (), out)
            for path in out:
                if (root, path) not in mu:
                    # extension of an existing shorter place?
                    if any(r == root and path[:len(q)] == q for r, q in places):
                        continue
                    new.append((root, path))
        if not new:
            break
        for root, path in new:
            for (r, q) in [x for x in places if x[0] == root and x[1][:len(path)] == path]:
                places.remove((r, q))
            places.append((root, path))
            k = len(mu)
            term = ("mu", lid, k)
            ty = place_type(cx, root, path)
            v0 = rdplace(cx, cx.get(st0, root), path)
            if path and path[-1][0] in ("pos", "rp"):
                ty = ("prim", "usize")
            if ty is None:
                ls = [x for x in leaves(v0)] + [x for x in leaves(rdplace(cx, s1[root], path))]
                if all(x.k in ("num", "bot") for x in ls):
                    ty = ("prim", "isize") if all(x is BOT or isint(x) for x in ls) else TPARAM
                elif all(x.k in ("bool", "bot") for x in ls):
                    ty = ("prim", "bool")
                elif all(x.k in ("seqlit", "symseq", "cat", "flat", "bot") for x in ls):
                    ty = ("adt", "alloc::vec::Vec", (("other", "?"),))
                else:
                    raise Undecided("loop-carried value of unknown type at %s:%s" % where)
            tys[(root, path)] = ty
            mu[(root, path)] = cx.sym(ty, term)
            cx.muterm = getattr(cx, "muterm", {})
            cx.muterm[(root, path, lid)] = term
    else:
        raise Undecided("loop body does not stabilise at %s:%s" % where)
    terms_ = {pl: cx.muterm[pl + (lid,)] for pl in places}
    init = {pl: rdplace(cx, cx.get(st0, pl[0]), pl[1]) for pl in places}
    nxt = {}
    for pl in places:
        v = rdplace(cx, cx.get(s1, pl[0]), pl[1])
        nxt[pl] = v
    u = atom(("idx", lid), True, True)
    U = numatom(u)

    def mus(v):
        return set(collect_terms(v, lambda t: len(t) == 3 and t[0] == "mu" and t[1] == lid, {}))

    sub = {}
    pending = list(places)
    progress = True
    while progress and pending:
        progress = False
        for pl in list(pending):
            m = mu[pl]
            F = msub(cx, nxt[pl], None, sub)
            t = terms_[pl]
            r = closed(cx, m, t, init[pl], F, u, U, mus)
            if r is not None:
                sub[t] = r
                pending.remove(pl)
                progress = True
                # restart with the simpler ones first
                break
    # exits
    ex = []
    for t, c, s in exits:
        ex.append((t, cleanb(msub(cx, c, None, sub)), s))
    ex = [x for x in ex if x[1] is not FALSE]
    unresolved = {terms_[pl] for pl in pending}
    if any(mus(c) for _, c, _ in ex):
        return loopterm(cx, places, terms_, tys, mu, init, nxt, sub, pending, ex, pan, eff, u, U, lid, bc)
    # counted exit
    N = INF
    j0 = None
    for j, (t, c, s) in enumerate(ex):
        n = counted(c, u)
        if n is not None:
            N, j0 = n, j
            break
    others = []
    for j, (t, c, s) in enumerate(ex):
        if j == j0:
            continue
        c2 = ctx_upper(cx, c, u, N)
        c2 = cleanb(c2)
        if c2 is not FALSE:
            others.append((j, c2))
    if pending and not any_needed(cx, ex, unresolved, mus):
        pending = []
    if pending:
        return loopterm(cx, places, terms_, tys, mu, init, nxt, sub, pending, ex, pan, eff, u, U, lid, bc)
    res = []
    if others:
        h, cs = close(cx, u, *[c for _, c in others])
        conds = tuple(cs)
        fid = mkfidx(cx, N, conds, h)
    if j0 is not None:
        t, c, s = ex[j0]
        s2 = substate(cx, s, sub, {u: N}, st0)
        if others:
            cond = mkfirst(cx, N, conds, [TRUE] + [FALSE] * len(others), h)
        else:
            cond = TRUE
        if cond is not FALSE:
            res.append((t, cond, s2))
    for k, (j, c) in enumerate(others):
        t, _, s = ex[j]
        at = fid
        s2 = substate(cx, s, sub, {u: at}, st0)
        ch = [FALSE] * (1 + len(others))
        ch[k + 1] = TRUE
        if N is INF:
            ch[0] = BOT
        cond = mkfirst(cx, N, conds, ch, h)
        if cond is not FALSE:
            res.append((t, cleanb(cond), s2))
    for (c, a, b, d) in pan:
        cc = exists(cx, N, u, ctx_upper(cx, msub(cx, c, None, sub), u, N))
        if cc is not FALSE:
            cx.panics.append((cc, a, b, d))
    for (c, a, b) in eff:
        cx.effects.append((exists(cx, N, u, ctx_upper(cx, msub(cx, c, None, sub), u, N)), a, b))
    return res


def any_needed(cx, ex, unresolved, mus):
    for _, c, s in ex:
        for root, v in s.items():
            if root[0] == "A":
                continue
            if mus(v) & unresolved:
                return True
    return False


def substate(cx, s, sub, am, st0):
    ms = MSubst(cx, None, sub)
    ma = MSubst(cx, am, None)
    return {k: ma.val(ms.val(v)) if st0.get(k) is not v else v for k, v in s.items()}


def counted(c, u):
    """c == (u >= N) with N free of u"""
    if c.k != "node" or c.a[0].k != "ov":
        return None
    P_ = c.a[0].a[0]
    cuts, ch = c.a[1], c.a[2]
    if len(cuts) != 1 or not isone(P_.a[1]) or not isint(P_):
        return None
    p = T.P(P_)
    co = p.get(((u, 1),))
    if co not in (1, -1):
        return None
    rest = dict(p)
    del rest[((u, 1),)]
    rest = mknum(rest)
    if has_atom(rest, u):
        return None
    (t, side) = cuts[0]
    if side != 1:
        return None
    if co == 1 and ch[1] is TRUE and ch[0] is FALSE:
        return nsub(nadd(t, ONE), rest)
    if co == -1 and ch[0] is TRUE and ch[1] is FALSE:
        return nsub(rest, t)
    return None


def closed(cx, m, term, init, F, u, U, mus):
    """closed form of a loop-carried place at iteration u, or None"""
    ms = mus(F)
    if m.k == "num":
        d = vsub(F, m)
        if d.k == "num" and not mus(d):
            if not has_atom(d, u):
                return vadd(init, nmul(d, U))
        if not mus(d):
            h, (b,) = close(cx, u, cleann(d))
            return vadd(init, mksum(cx, h, U, b))
    if not ms:
        # delayed value: F at the previous iteration
        prev = msub(cx, F, {u: nsub(U, ONE)})
        if not has_atom(F, u):
            if F is init:
                return init
        at0 = init
        return ite(le(U, ZERO), at0, prev)
    if ms == {term}:
        if m.k == "symseq":
            body = strip_prefix(F, m)
            if body is not None and not mus(body):
                h, (b,) = close(cx, u, body)
                return seq_cat(init, mkflat(cx, h, U, b))
        if m.k == "node":
            # latched: leaves of F are either the old value or one constant
            c = None
            lat = latched(F, m, term)
            if lat is not None:
                cond, val = lat
                if not mus(cond):
                    h, (b,) = close(cx, u, cond)
                    e = mkfirst(cx, U, (b,), [FALSE, TRUE], h)
                    return ite(e, val, init)
    return None


def cleann(d):
    return d


def latched(F, m, term):
    """F == ite(c, K, m) for a constant K"""
    # F is a decision over the variable of m and others; evaluate F for each value of m
    if m.k != "node" or m.a[0].k != "fv":
        return None
    var = m.a[0]
    n = var.a[1]
    vals = m.a[2]
    if any(x.k not in ("bool", "enum") or (x.k == "enum" and len(x.a) > 2) for x in vals):
        return None
    per = [restrict(F, {var: i}) for i in range(n)]
    for K in range(n):
        conds = []
        ok = True
        for i in range(n):
            if i == K:
                if per[i] is not vals[K]:
                    ok = False
                continue
            ls = [x for x in leaves(per[i]) if x is not BOT]
            if any(x is not vals[i] and x is not vals[K] for x in ls):
                ok = False
                break
            conds.append(cleanb(cond_of(per[i], lambda x: x is vals[K])))
        if ok and all(c is conds[0] for c in conds):
            return conds[0], vals[K]
    return None


def strip_prefix(F, m):
    if F.k == "node":
        ls = leaves(F)
        for l in ls:
            if l is not BOT and strip_prefix(l, m) is None:
                return None
        return bind(F, lambda l: BOT if l is BOT else strip_prefix(l, m))
    if F is m:
        return EMPTY
    if F.k == "cat" and F.a[0] is m:
        r = EMPTY
        for x in F.a[1:]:
            r = seq_cat(r, x)
        return r
    return None


def loopterm(cx, places, terms_, tys, mu, init, nxt, sub, pending, ex, pan, eff, u, U, lid, bc):
    """uninterpreted loop: kept as a term"""
    keep = [pl for pl in pending]
    # cone of influence of exit conditions first, then the rest (in place order)
    def mus(v):
        return [t for t in collect_terms(v, lambda t: len(t) == 3 and t[0] == "mu" and t[1] == lid, {})]
    F = {terms_[pl]: msub(cx, nxt[pl], None, sub) for pl in keep}
    bypl = {terms_[pl]: pl for pl in keep}
    conds = [c for _, c, _ in ex]
    states = [{r: msub(cx, v, None, sub) for r, v in s.items()} for _, _, s in ex]

    def cone(seed):
        order = []
        work = list(seed)
        while work:
            t = work.pop(0)
            if t in order or t not in F:
                continue
            order.append(t)
            work.extend(mus(F[t]))
        return order

    base = []
    for c in conds:
        base += mus(c)
    cbase = cone(base)

    def term_for(order, extra=None):
        vs = [F[t] for t in order] + conds + [init[bypl[t]] for t in order] + (extra or [])
        h = 1 + max([hgt(v) for v in vs] + [-1])
        tm = {}
        for k, t in enumerate(order):
            tm[t] = cx.sym(tys[bypl[t]], ("lm", h, k))
        am = {u: numatom(bnd(h))}
        ms = MSubst(cx, am, tm)
        L = mk("loop", h, tuple(init[bypl[t]] for t in order), tuple(ms.val(F[t]) for t in order), tuple(ms.val(c) for c in conds),
               tuple(mk("ty", tys[bypl[t]]) for t in order))
        if extra:
            return mk("loop", h, L.a[1], L.a[2], L.a[3] + tuple(ms.val(c) for c in extra), L.a[4])
        return L

    L0 = term_for(cbase)
    out = {}
    for t in F:
        if t in cbase:
            L, k = L0, cbase.index(t)
        else:
            o = cone(base + [t])
            L, k = term_for(o), o.index(t)
        out[t] = cx.sym(tys[bypl[t]], ("lout", L, k))
    am = {u: numatom(atom(("lcount", L0), True, True))}
    res = []
    n = len(ex)
    for j, (t, c, s) in enumerate(ex):
        s2 = {}
        ms = MSubst(cx, am, out)
        for r, v in states[j].items():
            s2[r] = ms.val(v)
        cond = TRUE
        if n > 1:
            ch = [FALSE] * n
            ch[j] = TRUE
            cond = finnode(("lexit", L0), ch)
        res.append((t, cond, s2))
    N = INF
    for c in conds:
        N = counted(c, u) if counted(c, u) is not None else N

    def iter_cond(c, tag):
        """condition that some iteration of the loop satisfies c"""
        c = cleanb(msub(cx, c, None, sub))
        if N is not INF:
            c = cleanb(band(vcmp(gt, N, ZERO), ctx_upper(cx, c, u, N)))
        if c is FALSE:
            return FALSE
        order = cone(base + mus(c))
        return finnode((tag, term_for(order, [c])), [FALSE, TRUE])

    for i, (c, a, b, d) in enumerate(pan):
        cc = iter_cond(c, "lpanic")
        if cc is not FALSE:
            cx.panics.append((cc, a, b, d))
    for i, (c, a, b) in enumerate(eff):
        cc = iter_cond(c, "leff")
        if cc is not FALSE:
            cx.effects.append((cc, a, b))
    cx.note("loop without closed form")
    return res


# ------------------------------------------------------------------ stream consumers (closures)
def foreach(cx, st, N, body, where, root_tmp=None):
    """virtual loop `for i in 0..N` whose body is body(st, index Num) -> list of (tag or None, cond, st)
    (tag None = continue).  Returns exits [(tag, cond, st)] with tag 'done' for the counted exit."""
    cx.hcnt += 1
    pos = ("H", cx.hcnt)
    cx.rtype[pos] = ("prim", "usize")
    st0 = dict(st)
    st0[pos] = ZERO

    def step(s):
        i = s[pos]
        inside = vcmp(lt, i, N)
        backs, exits = [], []
        done = cleanb(bnot(inside))
        static = False
        if done is not FALSE:
            s2 = dict(s)
            exits.append(("done", done, s2))
        else:
            static = True
        if inside is not FALSE:
            s3 = dict(s)
            for tag, c, sx in body(s3, i):
                cc = cleanb(band(inside, c))
                if cc is FALSE:
                    continue
                if tag is None:
                    sx[pos] = vadd(i, ONE)
                    backs.append((cc, sx))
                else:
                    exits.append((tag, cc, sx))
        return backs, exits, static

    outs = generic(cx, st0, step, lambda r: True, where)
    for _, _, s in outs:
        s.pop(pos, None)
    return outs
