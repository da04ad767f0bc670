"""Comparison of an extracted summary with its specification."""
from interp import *
from msub import *
from evalv import *
from loops import counted
import terms as T
import random, time


def canon(cx, v, memo=None):
    """merge the outcomes of 'first index' decisions that lead to the same result"""
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is not None:
        return r
    k = v.k
    if k == "node":
        var, cuts, ch = v.a
        ch = [canon(cx, x, memo) for x in ch]
        if var.k == "fv" and isinstance(var.a[0], tuple) and var.a[0][0] == "first":
            _, n, conds, h = var.a[0]
            conds = [canon(cx, c, memo) for c in conds]
            groups = []
            for c, x in zip(conds, ch[1:]):
                if x is BOT:
                    continue
                for g in groups:
                    if g[1] is x:
                        g[0] = bor(g[0], c)
                        break
                else:
                    groups.append([c, x])
            r = mkfirst(cx, n, tuple(cleanb(g[0]) for g in groups), [ch[0]] + [g[1] for g in groups], h)
        else:
            r = rebuild(var, cuts, ch)
    elif k == "struct":
        r = mk("struct", v.a[0], *[canon(cx, x, memo) for x in v.a[1:]])
    elif k == "enum":
        r = mk("enum", v.a[0], v.a[1], *[canon(cx, x, memo) for x in v.a[2:]])
    elif k == "seqlit":
        r = mk("seqlit", *[canon(cx, x, memo) for x in v.a])
    else:
        r = v
    memo[v] = r
    return r


def variant_cond(v, i):
    return cleanb(cond_of(v, lambda x: x.k == "enum" and x.a[1] == i))


def equal(cx, a, b, cond=TRUE, depth=0):
    """normal-form equality of two values on the region cond (sound; incomplete)"""
    if a is b or cond is FALSE:
        return True
    if depth > 12:
        return False
    if a is BOT or b is BOT:
        return a is b
    ka = {x.k for x in leaves(a)} - {"bot"}
    kb = {x.k for x in leaves(b)} - {"bot"}
    if ka != kb or len(ka) != 1:
        if ka and kb and (ka | kb) <= {"seqlit", "cat", "flat", "symseq", "sort", "dedup"}:
            pass
        else:
            return False
    k = next(iter(ka))
    if k == "struct":
        n = {len(x.a) for x in leaves(a) + leaves(b) if x is not BOT}
        if len(n) != 1:
            return False
        return all(equal(cx, cx.field(a, ("f", i)), cx.field(b, ("f", i)), cond, depth + 1) for i in range(n.pop() - 1))
    if k == "enum":
        vs = {(x.a[1], len(x.a) - 2) for x in leaves(a) + leaves(b) if x is not BOT}
        for i, n in vs:
            ca, cb = band(cond, variant_cond(a, i)), band(cond, variant_cond(b, i))
            if cleanb(ca) is not cleanb(cb):
                return False
            for j in range(n):
                if not equal(cx, cx.field(a, ("v", i, j)), cx.field(b, ("v", i, j)), cleanb(ca), depth + 1):
                    return False
        return True
    if k == "ref":
        return equal(cx, bind(a, lambda x: deref(cx, x)), bind(b, lambda x: deref(cx, x)), cond, depth + 1)
    if ka == kb == {"seqlit"}:
        lens = {len(x.a) for x in leaves(a) + leaves(b) if x is not BOT}
        for n in lens:
            ca = band(cond, cleanb(cond_of(a, lambda x: len(x.a) == n)))
            cb = band(cond, cleanb(cond_of(b, lambda x: len(x.a) == n)))
            if cleanb(ca) is not cleanb(cb):
                return False
            for i in range(n):
                g = lambda v: bind(v, lambda x: BOT if x is BOT or i >= len(x.a) else x.a[i])
                if not equal(cx, g(a), g(b), cleanb(ca), depth + 1):
                    return False
        return True
    if k == "flat" and a.k == "flat" and b.k == "flat":
        if a.a[0] == b.a[0] and a.a[1] is b.a[1]:
            return equal(cx, a.a[2], b.a[2], TRUE, depth + 1)
    if k == "cat" and a.k == "cat" and b.k == "cat" and len(a.a) == len(b.a):
        return all(equal(cx, x, y, cond, depth + 1) for x, y in zip(a.a, b.a))
    if k == "sort" and a.k == "sort" and b.k == "sort":
        return a.a[1] is b.a[1] and equal(cx, a.a[0], b.a[0], cond, depth + 1)
    if cond is not TRUE:
        S = mk("sentinel")
        x, y = ite(cond, a, S), ite(cond, b, S)
        if x is y:
            return True
        a, b = x, y
    # numbers that are equal as rational functions but kept in different shapes
    if k == "num":
        ok = True

        def f(x, y):
            nonlocal ok
            if x is y or y is BOT:
                return TRUE
            if x is not BOT and x.k == "num" and y.k == "num" and neq(x, y):
                return TRUE
            ok = False
            return FALSE
        try:
            mapn(f, a, b)
        except RecursionError:
            return False
        return ok
    if k == "bool":
        d = bxor(a, b)
        return cleanb(d) is FALSE
    return False


# ------------------------------------------------------------------ folds as finite automata
def loops_in(v):
    return set(terms_in(v, lambda x: x.k == "loop"))


def ground(v):
    if v.k == "bool":
        return True
    if v.k in ("enum", "struct"):
        return all(not isinstance(x, V) or ground(x) for x in v.a)
    return v.k == "num" and isconst(v)


def hoist(v):
    """decisions inside constructors moved to the top"""
    if v.k == "node":
        return bind(v, hoist)
    if v.k in ("struct", "enum"):
        xs = [hoist(x) if isinstance(x, V) else x for x in v.a]
        ix = [i for i, x in enumerate(xs) if isinstance(x, V)]
        if not ix:
            return mk(v.k, *xs)

        def f(*ys):
            if BOT in ys:
                return BOT
            zs = list(xs)
            for i, y in zip(ix, ys):
                zs[i] = y
            return mk(v.k, *zs)
        return mapn(f, *[xs[i] for i in ix])
    return v


class NotFinite(Exception):
    pass


def fold_equal(cx, got, want, limit=400):
    """both values are folds over the same index range with finite control state: bisimulation of the two automata over the
    decisions made on one element.  True: equal on every input; False: not shown."""
    try:
        return _fold_equal(cx, got, want, limit)
    except (NotFinite, Undecided, T.TooBig, RecursionError):
        return False


def _machine(cx, v, U):
    """the loops of v as synchronous automata over the index U: (N, start, step, out); a machine state is a tuple with one
    ("run", values) or ("out", exit, values) per loop"""
    Ls = sorted(loops_in(v), key=repr)
    if not Ls:
        raise NotFinite()
    ms_ = []
    N0 = None
    for L in Ls:
        h, inits, nexts, conds, tys = L.a
        u = bnd(h)
        N, j0 = None, None
        for j, c in enumerate(conds):
            n = counted(c, u)
            if n is not None:
                N, j0 = n, j
        if N is None or any(not ground(x) for x in inits) or (N0 is not None and N is not N0):
            raise NotFinite()
        N0 = N
        ms_.append((L, h, u, nexts, conds, j0))

    def step1(M, st):
        L, h, u, nexts, conds, j0 = M
        ms = MSubst(cx, {u: U}, {("lm", h, k): x for k, x in enumerate(st)})
        guard = band(vcmp(T.gt, N0, ZERO), vcmp(T.lt, U, N0))
        g = lambda x, o: ite(guard, ctx_upper(cx, x, _aid(U), N0), o)
        nx = [hoist(g(ms.val(x), BOT)) for x in nexts]
        r = mapn(lambda *a: BOT if BOT in a else mk("mstate", ("run", tuple(a))), *nx) if nx else mk("mstate", ("run", ()))
        for j in range(len(conds) - 1, -1, -1):
            if j != j0:
                c = cleanb(g(ms.val(conds[j]), FALSE))
                if c is not FALSE:
                    r = ite(c, mk("mstate", ("out", j, st)), r)
        return r

    def step(states):
        rs = [step1(M, s[1]) if s[0] == "run" else mk("mstate", s) for M, s in zip(ms_, states)]
        return mapn(lambda *a: BOT if BOT in a else mk("mstate", tuple(x.a[0] for x in a)), *rs)

    def out(states):
        tm = {}
        for M, s in zip(ms_, states):
            L, j0 = M[0], M[5]
            vals, j = (s[1], j0) if s[0] == "run" else (s[2], s[1])
            for k, x in enumerate(vals):
                tm[("lout", L, k)] = x
            tm[("lexit", L)] = const(j)
        return MSubst(cx, None, tm).val(v)

    return N0, tuple(("run", tuple(M[0].a[1])) for M in ms_), step, out


def _aid(U):
    return U.a[0][0][0][0][0]


def _fold_equal(cx, got, want, limit):
    U = numatom(atom(("idx", "fold"), True, True))
    Ng, ig, stepg, outg = _machine(cx, got, U)
    Nw, iw, stepw, outw = _machine(cx, want, U)
    if Ng is not Nw:
        return False
    start = (ig, iw)
    seen = {start}
    work = [start]
    memo = {}

    def nxt_of(side, st):
        if (side, st) not in memo:
            memo[(side, st)] = (stepg if side == 0 else stepw)(st)
        return memo[(side, st)]

    while work:
        a, b = work.pop()
        fa, fb = outg(a), outw(b)
        if loops_in(fa) or loops_in(fb) or not equal(cx, fa, fb):
            return False
        guard = band(vcmp(T.gt, Ng, ZERO), vcmp(T.lt, U, Ng))
        pairs = mapn(lambda g, x, y: BOT if BOT in (x, y) or g is FALSE else mk("pair", x, y), guard, nxt_of(0, a), nxt_of(1, b))
        for pr in leaves(pairs):
            if pr is BOT:
                continue
            nxt = (pr.a[0].a[0], pr.a[1].a[0])
            for m in nxt:
                if not all(ground(x) for s in m for x in s[-1]):
                    raise NotFinite()
            if nxt not in seen:
                seen.add(nxt)
                if len(seen) > limit:
                    raise NotFinite()
                work.append(nxt)
    return True


def fold(cx, n, tys, inits, step, outf):
    """specification of a fold: state types, initial values, step(index, *state) -> states, outf(*state) -> value"""
    h0 = 0
    lm = lambda h: [cx.sym(t, ("lm", h, k)) for k, t in enumerate(tys)]
    probe = step(numatom(bnd(0)), *lm(0))
    h = 1 + max([hgt(x) for x in list(probe) + list(inits) + [n]] + [-1])
    i = numatom(bnd(h))
    nx = step(i, *lm(h))
    conds = (cleanb(vcmp(T.ge, i, n)),)
    L = mk("loop", h, tuple(inits), tuple(nx), conds, tuple(mk("ty", t) for t in tys))
    return outf(*[cx.sym(t, ("lout", L, k)) for k, t in enumerate(tys)])


def deref(cx, x):
    if x is BOT:
        return BOT
    if x.k == "ref" and x.a[0][0] == "A":
        return cx.read(x.a[0][1], x.a[1])
    return x


def project_bot(x):
    return x


def probe(cx, e, a, b, pre, tol, rel):
    """None: the point says nothing; else (do the normal forms agree, value of a, value of b)"""
    try:
        if pre is not TRUE and e.ev(pre) is not True:
            return None
        y = e.ev(b)
        try:
            x = e.ev(a)
        except DivZero as why:
            if hasnone(y) or y is None:
                return None
            x = "undefined (%s)" % why
    except (NoEval, OverflowError, ZeroDivisionError, RecursionError):
        return None
    if hasnone(x) or hasnone(y):
        if x is None and y is None:
            return True, x, y
        if hasnone(x) and hasnone(y):
            return True, x, y
    return not (isinstance(x, str) or not (rel(x, y) if rel else same(x, y, tol))), x, y


def witness(cx, a, b, pre=TRUE, n=1500, sampler=None, tol=1e-7, base=0, rel=None, guided=True):
    """a point of the abstract input space in a region where the two normal forms differ"""
    tried = 0
    for s in range(base, base + n):
        e = Env(cx, s, sampler)
        r = probe(cx, e, a, b, pre, tol, rel)
        if r is None:
            continue
        tried += 1
        if tried > n // 4:
            break
        if not r[0]:
            return wit(s, e, r), tried
    if guided:
        w = hunt(cx, a, b, pre, sampler, tol, rel, n)
        if w is not None:
            return w, tried
    return None, tried


def wit(s, e, r):
    return {"seed": s, "got": r[1], "expected": r[2], "inputs": {show_key(k[0]): v for k, v in e.vals.items()}}


HUNT_SECONDS = 8.0
OFFS = (0.5, -0.5, 0.3, -0.3, 1.5, -1.5, 3.0, -3.0, 0.1, 200.0, -200.0)


def hunt(cx, a, b, pre, sampler, tol, rel, n):
    """the regions decided by a narrow margin: from a point, one input is moved until a comparison that was met changes
    sides by a fraction or a multiple of the tolerance; repeated from there, since regions are met one behind another"""
    t0 = time.time()

    def at(s, vals):
        e = Env(cx, s, sampler)
        e.vals = dict(vals)
        e.trace = {}
        return e, probe(cx, e, a, b, pre, tol, rel)
    evals = 0
    for s in range(n):
        if evals > 4 * n or time.time() - t0 > HUNT_SECONDS:
            return None
        rng = random.Random(s)
        vals = {}
        e, r = at(s, vals)
        evals += 1
        for step in range(8):
            if time.time() - t0 > HUNT_SECONDS:
                return None
            cuts = [(k, d) for k, d in e.trace.items() if d == d and abs(d) < 1e6]
            keys = [k for k, v in e.vals.items() if k[1] == "real"]
            if not cuts or not keys:
                break
            vals = dict(e.vals)
            # the comparisons met last are decided within the narrowest region: prefer them
            ck, d0 = rng.choice(cuts[-6:]) if rng.random() < 0.5 else rng.choice(cuts)
            want = rng.choice(OFFS) * e.eps
            rng.shuffle(keys)
            found = None
            for kk in keys[:6]:
                x0, f0 = vals[kk], d0 - want
                if f0 == 0:
                    break
                x1 = x0 + rng.choice((0.01, -0.01, 0.1, -0.1, e.eps, -e.eps))
                for it in range(9):
                    v2 = dict(vals)
                    v2[kk] = x1
                    e1, r1 = at(s, v2)
                    evals += 1
                    if r1 is not None and not r1[0]:
                        w = steady(cx, s, e1, a, b, pre, sampler, tol, rel)
                        if w is not None:
                            return w
                    if ck not in e1.trace:
                        break
                    f1 = e1.trace[ck] - want
                    if abs(f1) < 0.05 * e.eps:
                        found = (e1, r1)
                        break
                    if f1 == f0:
                        break
                    x0, x1, f0 = x1, x1 - f1 * (x1 - x0) / (f1 - f0), f1
                    if not abs(x1) < 1e4:
                        break
                if found:
                    break
            if not found:
                continue
            e, r = found
    return None


def steady(cx, s, e, a, b, pre, sampler, tol, rel):
    """the difference found survives a small move of every input: no rounding of the evaluation itself"""
    last = None
    for sg in (0, 1, -1):
        f = Env(cx, s, sampler)
        f.vals = {k: (v + sg * 1e-8 * (1 + i % 3) if k[1] == "real" and isinstance(v, float) else v) for i, (k, v) in enumerate(e.vals.items())}
        r = probe(cx, f, a, b, pre, tol, rel)
        if r is None or r[0]:
            return None
        last = last or wit(s, f, r)
    return last


def hasnone(x):
    if x is None:
        return True
    if isinstance(x, (list, tuple)):
        return any(hasnone(y) for y in x)
    return False


def show_key(k):
    if isinstance(k, tuple):
        if k and k[0] == "." and len(k) == 3:
            return "%s.%s" % (show_key(k[1]), k[2])
        if k and k[0] == "elem" and len(k) == 3:
            return "%s[%s]" % (show_key(k[1]), show_key(k[2]))
        return "(" + " ".join(show_key(x) for x in k) + ")"
    return str(k)


def decide(cx, got, want, pre=TRUE, n=1500, sampler=None, rel=None, guided=True):
    """('proved', None) | ('refuted', witness) | ('undecided', tried)"""
    got, want = canon(cx, got), canon(cx, want)
    try:
        if equal(cx, got, want, pre):
            return "proved", None
        if pre is TRUE and fold_equal(cx, got, want):
            return "proved", None
    except (RecursionError, T.TooBig):
        pass
    Env.LENGTHS = limits(got)
    try:
        w, tried = witness(cx, got, want, pre, n, sampler, rel=rel, guided=guided)
    finally:
        Env.LENGTHS = []
    if w is not None:
        return "refuted", w
    return "undecided", tried


def limits(v):
    """whole numbers a decision compares with, and their neighbours: lengths at which a longer sequence may be treated otherwise"""
    out, seen, work = set(), set(), [v]
    while work and len(seen) < 3000:
        x = work.pop()
        if not isinstance(x, V) or id(x) in seen:
            continue
        seen.add(id(x))
        if x.k == "node":
            for t, s in x.a[1]:
                c = cval(t) if isinstance(t, V) and t.k == "num" and isconst(t) else None
                if c is not None and 11 < c <= 2048 and c == int(c):
                    out |= {int(c) - 1, int(c), int(c) + 1}
            work.extend(x.a[2])
        else:
            work.extend(y for y in x.a if isinstance(y, V))
    return sorted(out)[:30]
