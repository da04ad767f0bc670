"""Value domain of the analyser.

Numbers are rational functions over interned atoms (input symbols, eps, pi, square roots, absolute
values, trigonometric applications, lengths, loop indices, uninterpreted results) in a normal form.
Conditions are interval decision diagrams: a node tests one canonical expression against constant
thresholds (or one finite-domain atom) and is shared and reduced, so that equal conditions are the
same object.  Everything is interned: equality of normal forms is identity.
"""
from fractions import Fraction
import math, sys

sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ interning
_TAB = {}


class V:
    __slots__ = ("k", "a", "n")
    _cnt = 0

    def __repr__(self):
        return show(self)


def mk(k, *a):
    key = (k, a)
    v = _TAB.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        V._cnt += 1
        v.n = V._cnt
        _TAB[key] = v
    return v


# ------------------------------------------------------------------ atoms
ATOMS = []  # id -> descriptor
_AID = {}
AINT = []  # integer valued
ANONNEG = []


def atom(desc, is_int=False, nonneg=False):
    i = _AID.get(desc)
    if i is None:
        i = len(ATOMS)
        _AID[desc] = i
        ATOMS.append(desc)
        AINT.append(is_int)
        ANONNEG.append(nonneg)
    return i


EPS = atom(("eps",), nonneg=True)
PI = atom(("pi",), nonneg=True)
EPSV = 1e-10

# ------------------------------------------------------------------ polynomials
# dict mono -> Fraction ; mono = tuple of (atom, exp) sorted


def pmulmono(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if x[0] == y[0]:
            r.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


class TooBig(Exception):
    pass


MAXTERMS = 6000


def pmul(p, q):
    if len(p) * len(q) > 400000:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = pmulmono(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return preduce(r)


def ppow(p, n):
    r = {(): Fraction(1)}
    for _ in range(n):
        r = pmul(r, p)
    return r


def _reducible(m):
    for a, e in m:
        if e >= 2 and ATOMS[a][0] in ("sqrt", "abs", "cos"):
            d = ATOMS[a]
            if d[0] == "cos":
                return a, e
            if isone(d[1].a[1]):
                return a, e
    return None


def isone(pk):
    return len(pk) == 1 and pk[0][0] == () and pk[0][1] == 1


def preduce(p):
    """s^2 -> radicand for square roots of polynomials; |e|^2 -> e^2; cos^2 -> 1 - sin^2"""
    todo = [m for m in p if _reducible(m)]
    if not todo:
        return p
    r = dict(p)
    for m in todo:
        c = r.pop(m, None)
        if c is None:
            continue
        a, e = _reducible(m)
        rest = tuple((x, y) for x, y in m if x != a)
        d = ATOMS[a]
        half, odd = divmod(e, 2)
        if d[0] == "sqrt":
            base = dict(d[1].a[0])
        elif d[0] == "abs":
            b = dict(d[1].a[0])
            base = pmul(b, b)
        else:
            s = atom(("sin", d[1]))
            base = {(): Fraction(1), ((s, 2),): Fraction(-1)}
        t = {rest: c}
        if odd:
            t = {pmulmono(rest, ((a, 1),)): c}
        t = pmul(t, ppow(base, half))
        r = padd(r, t)
    return preduce(r)


def pkey(p):
    return tuple(sorted(p.items()))


# ------------------------------------------------------------------ Num
def _lead(p):
    # graded-lex leading monomial
    return max(p, key=lambda m: (sum(e for _, e in m), tuple((-a, e) for a, e in m)))


def _monogcd(p):
    g = None
    for m in p:
        d = dict(m)
        if g is None:
            g = d
        else:
            g = {a: min(e, d[a]) for a, e in g.items() if a in d}
        if not g:
            return {}
    return g or {}


def pdivexact(p, q):
    """p / q if exact, else None"""
    if not p:
        return {}
    lq = _lead(q)
    cq = q[lq]
    dq = dict(lq)
    r = dict(p)
    out = {}
    n = 0
    while r:
        n += 1
        if n > 300:
            return None
        lr = _lead(r)
        dr = dict(lr)
        for a, e in dq.items():
            if dr.get(a, 0) < e:
                return None
        m = tuple(sorted((a, e - dq.get(a, 0)) for a, e in dr.items() if e - dq.get(a, 0)))
        c = r[lr] / cq
        out[m] = out.get(m, 0) + c
        r = padd(r, {pmulmono(m, k): v * c for k, v in q.items()}, -1)
    return out


def mknum(num, den=None):
    if den is None:
        den = {(): Fraction(1)}
    if not den:
        return mk("num", pkey(num), ())  # division by an identically zero term
    if not num:
        return mk("num", (), (((), Fraction(1)),))
    if len(den) > 1 or () not in den:
        g1, g2 = _monogcd(num), _monogcd(den)
        common = {a: min(e, g2[a]) for a, e in g1.items() if a in g2}
        if common:
            def strip(p):
                return {
                    tuple((a, e - common.get(a, 0)) for a, e in m if e - common.get(a, 0)): c
                    for m, c in p.items()
                }
            num, den = strip(num), strip(den)
    if len(den) > 1:
        q = pdivexact(num, den)
        if q is not None:
            num, den = q, {(): Fraction(1)}
    l = den[_lead(den)]
    if l != 1:
        num = pscale(num, 1 / l)
        den = pscale(den, 1 / l)
    return mk("num", pkey(num), pkey(den))


def P(v):
    return dict(v.a[0])


def Q(v):
    return dict(v.a[1])


def const(c):
    if isinstance(c, float):
        c = Fraction(c).limit_denominator(10**15) if c == c and abs(c) != math.inf else None
        if c is None:
            return mknum({((atom(("nan",)), 1),): Fraction(1)})
    c = Fraction(c)
    return mknum({(): c} if c else {})


def numatom(aid):
    return mknum({((aid, 1),): Fraction(1)})


def sym(name, is_int=False):
    return numatom(atom(("sym", name), is_int, is_int))


ZERO = const(0)
ONE = const(1)
NEPS = numatom(EPS)
NPI = numatom(PI)


def nadd(a, b):
    if a.a[1] == b.a[1]:
        return mknum(padd(P(a), P(b)), Q(a))
    return mknum(padd(pmul(P(a), Q(b)), pmul(P(b), Q(a))), pmul(Q(a), Q(b)))


def nneg(a):
    return mknum(pscale(P(a), -1), Q(a))


def nsub(a, b):
    return nadd(a, nneg(b))


def nmul(a, b):
    return mknum(pmul(P(a), P(b)), pmul(Q(a), Q(b)))


def ndiv(a, b):
    return mknum(pmul(P(a), Q(b)), pmul(Q(a), P(b)))


def neq(a, b):
    """identity of rational functions (sound; complete up to the square-root relations used)"""
    if a is b:
        return True
    if not a.a[1] or not b.a[1]:
        return False
    return not padd(pmul(P(a), Q(b)), pmul(P(b), Q(a)), -1)


def isconst(a):
    return isone(a.a[1]) and all(m == () for m, _ in a.a[0])


def cval(a):
    return a.a[0][0][1] if a.a[0] else Fraction(0)


def issymconst(a):
    """only numbers, eps and pi"""
    return isone(a.a[1]) and all(all(x in (EPS, PI) for x, _ in m) for m, _ in a.a[0])


def fval(a):
    r = 0.0
    for m, c in a.a[0]:
        t = float(c)
        for x, e in m:
            t *= (EPSV if x == EPS else math.pi) ** e
        r += t
    return r


def isint(a):
    return isone(a.a[1]) and all(c.denominator == 1 and all(AINT[x] for x, _ in m) for m, c in a.a[0])


def nsqrt(a):
    if not a.a[1]:
        return a
    if isconst(a):
        c = cval(a)
        if c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
    # a square monomial times constant
    if isone(a.a[1]) and len(a.a[0]) == 1:
        m, c = a.a[0][0]
        if c > 0 and all(e % 2 == 0 for _, e in m):
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return nabs(mknum({tuple((x, e // 2) for x, e in m): Fraction(n, d)}))
    return numatom(atom(("sqrt", a), nonneg=True))


def nabs(a):
    if not a.a[1]:
        return a
    if issymconst(a):
        return a if fval(a) >= 0 else nneg(a)
    if nonneg(a):
        return a
    p = P(a)
    c = p[_lead(p)]
    if c != 1:
        return nmul(const(abs(c)), nabs(mknum(pscale(p, 1 / c), Q(a))))
    return numatom(atom(("abs", a), AINT and isint(a), True))


def _pimult(a):
    """k if a == k*pi/2 with integer k"""
    if not a.a[0]:
        return 0
    if isone(a.a[1]) and len(a.a[0]) == 1 and a.a[0][0][0] == ((PI, 1),):
        k = a.a[0][0][1] * 2
        if k.denominator == 1:
            return int(k)
    return None


def nsin(a):
    if not a.a[1]:
        return a
    k = _pimult(a)
    if k is not None:
        return const([0, 1, 0, -1][k % 4])
    p = P(a)
    if p[_lead(p)] < 0:
        return nneg(nsin(nneg(a)))
    return numatom(atom(("sin", a)))


def ncos(a):
    if not a.a[1]:
        return a
    k = _pimult(a)
    if k is not None:
        return const([1, 0, -1, 0][k % 4])
    p = P(a)
    if p[_lead(p)] < 0:
        return ncos(nneg(a))
    return numatom(atom(("cos", a)))


def nfn(name, *args):
    return numatom(atom((name,) + args))


def natan2(y, x):
    if y is ZERO and issymconst(x) and fval(x) > 0:
        return ZERO
    return nfn("atan2", y, x)


_PSD = {}


def psd(a):
    """a quadratic polynomial whose Gram matrix is positive semidefinite (exact LDL)"""
    if a in _PSD:
        return _PSD[a]
    r = _PSD[a] = _psd(a)
    return r


def _psd(a):
    xs = set()
    for m, c in a.a[0]:
        if sum(e for _, e in m) > 2:
            return False
        for x, _ in m:
            xs.add(x)
    if not xs or len(xs) > 14:
        return False
    ix = {x: i + 1 for i, x in enumerate(sorted(xs))}
    n = len(xs) + 1
    M = [[Fraction(0)] * n for _ in range(n)]
    for m, c in a.a[0]:
        l = [ix[x] for x, e in m for _ in range(e)]
        while len(l) < 2:
            l.append(0)
        M[l[0]][l[1]] += Fraction(c) / 2
        M[l[1]][l[0]] += Fraction(c) / 2
    for i in range(n):
        if M[i][i] < 0:
            return False
        if M[i][i] == 0:
            if any(M[i][j] for j in range(i, n)):
                return False
            continue
        for j in range(i + 1, n):
            f = M[j][i] / M[i][i]
            if f:
                for l in range(i, n):
                    M[j][l] -= f * M[i][l]
    return True


def nonneg(a):
    """non-negativity: coefficient-wise, or as a sum of squares"""
    if not isone(a.a[1]):
        return False
    if _nonneg(a):
        return True
    return psd(a)


def _nonneg(a):
    for m, c in a.a[0]:
        if c < 0:
            return False
        for x, e in m:
            if e % 2 and not ANONNEG[x]:
                return False
    return True


# ------------------------------------------------------------------ integers
def _bounds_of_atom(x):
    d = ATOMS[x]
    if d[0] == "idx":
        return ZERO, IDXHI.get(x)
    return (ZERO if ANONNEG[x] else None), None


IDXHI = {}  # idx atom -> exclusive upper bound (Num)


def nmod(a, n):
    if isconst(a) and isconst(n) and cval(n) > 0:
        return const(cval(a) % cval(n))
    # drop multiples of n
    if isint(a) and isone(n.a[1]) and len(n.a[0]) == 1:
        m, c = n.a[0][0]
        p = P(a)
        if m in p and m != () and c == 1:
            # remove k*n only if the rest is syntactically >= 0 or we can shift: (a + k n) mod n = a mod n
            k = p[m]
            rest = dict(p)
            del rest[m]
            r = mknum(rest)
            if k >= 0:
                # i + n - 1 == i - 1 (mod n): keep as modular class of r
                return nmod_class(r, n)
    return nmod_class(a, n)


def nmod_class(a, n):
    lo_ok = nonneg(a)
    # upper bound: a < n ?
    if lo_ok and a is not ZERO:
        ub = a
        ok = True
        for x in {x for m, _ in a.a[0] for x, _ in m}:
            hi = IDXHI.get(x)
            if hi is None:
                ok = False
                break
            ub = subst(ub, {x: nsub(hi, ONE)})
        if ok:
            diff = nsub(nsub(n, ub), ONE)
            if nonneg(diff):
                return a
    if a is ZERO:
        return ZERO
    return numatom(atom(("mod", a, n), True, True))


def nidiv(a, n):
    if isconst(a) and isconst(n) and cval(n) != 0:
        q = cval(a) / cval(n)
        return const(q.numerator // q.denominator)
    return numatom(atom(("idiv", a, n), True, True))


# ------------------------------------------------------------------ decision nodes
TRUE = mk("bool", True)
FALSE = mk("bool", False)
BOT = mk("bot")
UNIT = mk("struct", "()")

ORDVARS = {}


def _tkey(t):
    return fval(t)


def mkbool(b):
    return TRUE if b else FALSE


def mknode(var, cuts, ch):
    """var: V('ov', num) or V('fv', term, n). cuts: tuple of (threshold Num, side)."""
    if var.k == "ov":
        # merge equal neighbours; BOT is a don't care
        nc, nch = [], [ch[0]]
        for c, x in zip(cuts, ch[1:]):
            if x is nch[-1]:
                continue
            nc.append(c)
            nch.append(x)
        if any(x is BOT for x in nch) and any(x is not BOT for x in nch):
            i = 0
            while i < len(nch):
                if nch[i] is BOT and len(nch) > 1:
                    if i > 0:
                        del nch[i], nc[i - 1]
                        if i < len(nch) and nch[i] is nch[i - 1]:
                            del nch[i], nc[i - 1]
                    else:
                        del nch[0], nc[0]
                    i = 0
                else:
                    i += 1
        if len(nch) == 1:
            return nch[0]
        return mk("node", var, tuple(nc), tuple(nch))
    xs = [x for x in ch if x is not BOT]
    if not xs:
        return BOT
    if all(x is xs[0] for x in xs):
        return xs[0]
    return mk("node", var, (), tuple(ch))


def ordvar(p):
    return mk("ov", p)


def finvar(term, n):
    return mk("fv", term, n)


def finnode(term, children):
    return mknode(finvar(term, len(children)), (), tuple(children))


def canon_ord(E):
    """E = c*P + d with P canonical (no constant part, leading coefficient 1) -> (P, c sign, threshold) so that
    E ? 0  <=>  P ? t  (flipped when c < 0).  None when E is a symbolic constant."""
    if issymconst(E):
        return None
    if isone(E.a[1]):
        p = P(E)
        d = {m: c for m, c in p.items() if all(x in (EPS, PI) for x, _ in m)}
        for m in d:
            del p[m]
        l = p[_lead(p)]
        return mknum(pscale(p, 1 / l)), (1 if l > 0 else -1), mknum(pscale(d, -1 / l))
    # rational: split off the symbolic-constant part of num/den
    N, D = P(E), Q(E)
    ld = _lead(D)
    q = {}
    dl = dict(ld)
    for m, c in list(N.items()):
        dm = dict(m)
        rest = tuple(sorted((a, e - dl.get(a, 0)) for a, e in dm.items() if e - dl.get(a, 0)))
        if all(dm.get(a, 0) >= e for a, e in dl.items()) and all(a in (EPS, PI) for a, _ in rest):
            q[rest] = q.get(rest, 0) + c / D[ld]
    R = mknum(padd(N, pmul(q, D), -1), D) if q else E
    if issymconst(R):
        return None
    n = P(R)
    l = n[_lead(n)]
    return mknum(pscale(n, 1 / l), Q(R)), (1 if l > 0 else -1), mknum(pscale(q, -1 / l))


def _single(E, kind):
    """E == c*atom + d (d symbolic constant) with atom of the given kind -> (c, inner, d)"""
    if not isone(E.a[1]):
        return None
    hit = None
    d = {}
    for m, c in E.a[0]:
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == kind:
            if hit:
                return None
            hit = (c, ATOMS[m[0][0]][1])
        elif all(x in (EPS, PI) for x, _ in m):
            d[m] = c
        else:
            return None
    if not hit:
        return None
    return hit[0], hit[1], mknum(d)


def cmp3(E, lt, eq, gt):
    """decision on the sign of E"""
    if lt is eq and eq is gt:
        return lt
    if not E.a[1]:
        return finnode(("undefcmp", E.a[0]), [lt, eq, gt])
    if issymconst(E):
        f = fval(E)
        return eq if not E.a[0] else (gt if f > 0 else lt)
    s = _single(E, "sqrt")
    if s:
        c, inner, d = s
        if c < 0:
            lt, gt = gt, lt
        t = nmul(const(-1 / c), d)
        f = fval(t)
        if f < 0:
            return gt
        return _cmp_to(inner, [(nmul(t, t), (lt, eq, gt))])
    s = _single(E, "abs")
    if s:
        c, inner, d = s
        if c < 0:
            lt, gt = gt, lt
        t = nmul(const(-1 / c), d)
        f = fval(t)
        if f < 0:
            return gt
        if not t.a[0]:
            return cmp3(inner, gt, eq, gt)
        # |F| vs t
        r = canon_ord(inner)
        if r is None:
            f2 = abs(fval(inner))
            return lt if f2 < f else (eq if f2 == f else gt)
        Pv, sg, th = r
        lead = _leadc(inner)
        lo = nadd(th, nmul(const(-1 / abs(lead)), t))
        hi = nadd(th, nmul(const(1 / abs(lead)), t))
        return _region(Pv, [(lo, 0), (lo, 1), (hi, 0), (hi, 1)], [gt, eq, lt, eq, gt])
    return _cmp_to(E, [(ZERO, (lt, eq, gt))])


def _leadc(E):
    """the factor c with E = c*P + d as used by canon_ord"""
    if isone(E.a[1]):
        p = {m: c for m, c in E.a[0] if not all(x in (EPS, PI) for x, _ in m)}
        return p[_lead(p)]
    N, D = P(E), Q(E)
    r = canon_ord(E)
    # recompute numerator lead after the split
    R = nadd(E, ZERO)
    ld = _lead(D)
    q = {}
    dl = dict(ld)
    for m, c in list(N.items()):
        dm = dict(m)
        rest = tuple(sorted((a, e - dl.get(a, 0)) for a, e in dm.items() if e - dl.get(a, 0)))
        if all(dm.get(a, 0) >= e for a, e in dl.items()) and all(a in (EPS, PI) for a, _ in rest):
            q[rest] = q.get(rest, 0) + c / D[ld]
    R = mknum(padd(N, pmul(q, D), -1), D) if q else E
    n = P(R)
    return n[_lead(n)]


def _cmp_to(E, spec):
    """E compared with a symbolic constant threshold: spec [(t, (lt,eq,gt))] (single)"""
    (t, (lt, eq, gt)) = spec[0]
    E = nsub(E, t)
    r = canon_ord(E)
    if r is None:
        f = fval(E)
        return eq if not E.a[0] else (gt if f > 0 else lt)
    Pv, sg, th = r
    if sg < 0:
        lt, gt = gt, lt
    return _region(Pv, [(th, 0), (th, 1)], [lt, eq, gt])


ASSUME = {}  # ordered variable -> (lo, hi): the analysed case has lo < value < hi, or value = lo = hi


def _assumed(Pv, cuts, ch):
    lo, hi = ASSUME[Pv]
    point = lo == hi
    i = 0
    while i < len(cuts):
        t, s = fval(cuts[i][0]), cuts[i][1]
        if point:
            above = lo > t or (lo == t and s == 0)
            below = not above
        else:
            above, below = t <= lo, t >= hi
        if above:
            del ch[i], cuts[i]
        elif below:
            del ch[i + 1], cuts[i]
        else:
            i += 1
    return cuts, ch


def _region(Pv, cuts, ch):
    if ASSUME and Pv in ASSUME:
        cuts, ch = _assumed(Pv, list(cuts), list(ch))
        if len(ch) == 1:
            return ch[0]
    # sort check is by construction; normalise integers and known ranges
    if isint(Pv):
        nc, nch = [], [ch[0]]
        for (t, s), x in zip(cuts, ch[1:]):
            if issymconst(t) and isconst(t):
                c = cval(t)
                # x<t | x>=t  == x <= ceil(t)-1 ;  x<=t | x>t == x <= floor(t)
                k = (-((-c.numerator) // c.denominator)) - 1 if s == 0 else c.numerator // c.denominator
                nc.append((const(k), 1))
            else:
                nc.append((t, s))
            nch.append(x)
        # drop empty regions (equal consecutive cuts)
        i = 1
        while i < len(nc):
            if nc[i] == nc[i - 1]:
                del nc[i - 1], nch[i]
            else:
                i += 1
        cuts, ch = nc, nch
    if nonneg(Pv):
        while cuts and (fval(cuts[0][0]) < 0 or (not cuts[0][0].a[0] and cuts[0][1] == 0)):
            cuts, ch = cuts[1:], ch[1:]
    elif cuts and isone(Pv.a[1]) and nonneg(nneg(Pv)):
        while cuts and (fval(cuts[-1][0]) > 0 or (not cuts[-1][0].a[0] and cuts[-1][1] == 1)):
            cuts, ch = cuts[:-1], ch[:-1]
    return mknode(ordvar(Pv), tuple(cuts), tuple(ch))


def lt(a, b):
    return cmp3(nsub(a, b), TRUE, FALSE, FALSE)


def le(a, b):
    return cmp3(nsub(a, b), TRUE, TRUE, FALSE)


def gt(a, b):
    return cmp3(nsub(a, b), FALSE, FALSE, TRUE)


def ge(a, b):
    return cmp3(nsub(a, b), FALSE, TRUE, TRUE)


def eq0(a, b):
    return cmp3(nsub(a, b), FALSE, TRUE, FALSE)


# ------------------------------------------------------------------ apply
_cutord = lambda c: (fval(c[0]), c[1])


def _slice(node, var, allcuts):
    """children of node (on var) over the refined partition allcuts"""
    if node.k != "node" or node.a[0] is not var:
        return [node] * (len(allcuts) + 1)
    cuts, ch = node.a[1], node.a[2]
    out = []
    i = 0
    out.append(ch[0])
    for c in allcuts:
        if i < len(cuts) and cuts[i] == c:
            i += 1
        out.append(ch[i])
    return out


def mapn(f, *vs, memo=None):
    """apply f at the leaves of a tuple of decision values"""
    if memo is None:
        memo = {}
    if all(v.k != "node" for v in vs):
        key = vs
        r = memo.get(key)
        if r is None:
            r = f(*vs)
            memo[key] = r
        return r
    r = memo.get(vs)
    if r is not None:
        return r
    var = min((v.a[0] for v in vs if v.k == "node"), key=lambda x: x.n)
    if var.k == "fv":
        ch = []
        for i in range(var.a[1]):
            ch.append(mapn(f, *[v.a[2][i] if v.k == "node" and v.a[0] is var else v for v in vs], memo=memo))
        r = mknode(var, (), tuple(ch))
    else:
        cs = {}
        for v in vs:
            if v.k == "node" and v.a[0] is var:
                for c in v.a[1]:
                    cs[c] = None
        allc = sorted(cs, key=_cutord)
        cols = [_slice(v, var, allc) for v in vs]
        ch = [mapn(f, *[c[i] for c in cols], memo=memo) for i in range(len(allc) + 1)]
        r = mknode(var, tuple(allc), tuple(ch))
    memo[vs] = r
    return r


def _and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    return a


def band(a, b):
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    return mapn(lambda x, y: BOT if BOT in (x, y) and FALSE not in (x, y) else _and(x, y), a, b)


def bnot(a):
    return mapn(lambda x: x if x is BOT else (FALSE if x is TRUE else TRUE), a)


def bor(a, b):
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
    return mapn(lambda x, y: BOT if BOT in (x, y) else mkbool(x is not y), a, b)


_ITE = {}


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c is BOT:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    if a.k == b.k and a.k in ("struct", "enum", "seqlit", "ref", "iter", "clo"):
        if a.k == "struct" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            return mk("struct", a.a[0], *[ite(c, x, y) for x, y in zip(a.a[1:], b.a[1:])])
        if a.k == "enum" and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
            return mk("enum", a.a[0], a.a[1], *[ite(c, x, y) for x, y in zip(a.a[2:], b.a[2:])])
        if a.k == "seqlit" and len(a.a) == len(b.a):
            return mk("seqlit", *[ite(c, x, y) for x, y in zip(a.a, b.a)])
        if a.k == "iter" and a.a[0] is b.a[0]:
            return mk("iter", a.a[0], ite(c, a.a[1], b.a[1]))
    key = (c, a, b)
    r = _ITE.get(key)
    if r is None:
        r = mapn(_ite_leaf, c, a, b)
        _ITE[key] = r
    return r


def _ite_leaf(c, a, b):
    if c is BOT:
        return BOT
    return a if c is TRUE else b


def restrict(v, ctx, memo=None):
    """ctx: dict var -> (lo_cut_index semantics) ; for 'fv': value; for 'ov': (lo cut or None, hi cut or None)"""
    if memo is None:
        memo = {}
    if v.k != "node":
        return v
    r = memo.get(v)
    if r is not None:
        return r
    var, cuts, ch = v.a
    if var in ctx:
        if var.k == "fv":
            r = restrict(ch[ctx[var]], ctx, memo)
        else:
            lo, hi = ctx[var]
            keep_c, keep = [], []
            for i, x in enumerate(ch):
                l = cuts[i - 1] if i > 0 else None
                h = cuts[i] if i < len(cuts) else None
                # region (l,h) intersects (lo,hi)?
                if l is not None and hi is not None and _cutord(l) >= _cutord(hi):
                    continue
                if h is not None and lo is not None and _cutord(h) <= _cutord(lo):
                    continue
                keep.append(restrict(x, ctx, memo))
                keep_c.append(l)
            r = mknode(var, tuple(keep_c[1:]), tuple(keep))
    else:
        r = mknode(var, cuts, tuple(restrict(x, ctx, memo) for x in ch))
    memo[v] = r
    return r


def leaves(v, out=None):
    if out is None:
        out = {}
        seen = set()

        def rec(x):
            if x in seen:
                return
            seen.add(x)
            if x.k == "node":
                for y in x.a[2]:
                    rec(y)
            else:
                out[x] = None

        rec(v)
    return list(out)


def paths(v, limit=2000):
    """[(context list, leaf)]; context items (var, region text, region)"""
    res = []

    def rec(x, ctx):
        if len(res) > limit:
            return
        if x.k != "node":
            res.append((list(ctx), x))
            return
        var, cuts, ch = x.a
        for i, y in enumerate(ch):
            if var.k == "fv":
                rec(y, ctx + [(var, i)])
            else:
                l = cuts[i - 1] if i > 0 else None
                h = cuts[i] if i < len(cuts) else None
                rec(y, ctx + [(var, (l, h))])

    rec(v, [])
    return res


def show_region(var, reg):
    if var.k == "fv":
        return "%s=%s" % (show_term(var.a[0]), reg)
    l, h = reg
    n = show(var.a[0])
    if l is not None and h is not None and l[0] is h[0] and l[1] == 0 and h[1] == 1:
        return "%s = %s" % (n, show(l[0]))
    s = n
    if l is not None:
        s = "%s %s %s" % (show(l[0]), "<=" if l[1] == 0 else "<", s)
    if h is not None:
        s = "%s %s %s" % (s, "<" if h[1] == 0 else "<=", show(h[0]))
    return s


# ------------------------------------------------------------------ substitution of atoms
class Subst:
    """simultaneous substitution atom -> Num, rebuilding every term (including conditions)"""

    def __init__(self, m):
        self.m = m
        self.memo = {}
        self.amemo = {}

    def val(self, v):
        if not isinstance(v, V):
            if isinstance(v, tuple):
                return tuple(self.val(x) for x in v)
            return v
        r = self.memo.get(v)
        if r is not None:
            return r
        k = v.k
        if k == "num":
            r = self.num(v)
        elif k == "node":
            var, cuts, ch = v.a
            ch = [self.val(x) for x in ch]
            if var.k == "fv":
                nt = self.val(var.a[0])
                r = self._fin(nt, var.a[1], ch)
            else:
                np_ = self.num(var.a[0])
                r = ch[-1]
                for c, x in zip(reversed(cuts), reversed(ch[:-1])):
                    t, s = self.num(c[0]), c[1]
                    cond = lt(np_, t) if s == 0 else le(np_, t)
                    r = ite(cond, x, r)
        elif k in ("bool", "bot"):
            r = v
        else:
            r = mk(k, *[self.val(x) for x in v.a])
        self.memo[v] = r
        return r

    def _fin(self, term, n, ch):
        return finnode(term, ch)

    def poly(self, pk):
        r = ZERO
        for m, c in pk:
            t = const(c)
            for x, e in m:
                a = self.atom(x)
                for _ in range(e):
                    t = nmul(t, a)
            r = nadd(r, t)
        return r

    def num(self, v):
        if v.k == "node":
            return self.val(v)
        n = self.poly(v.a[0])
        if isone(v.a[1]):
            return n
        return ndiv(n, self.poly(v.a[1]))

    def atom(self, x):
        if x in self.m:
            return self.m[x]
        r = self.amemo.get(x)
        if r is not None:
            return r
        d = ATOMS[x]
        args = tuple(self.val(y) for y in d[1:])
        if args == d[1:]:
            r = numatom(x)
        else:
            k = d[0]
            if k == "sqrt":
                r = nsqrt(args[0])
            elif k == "abs":
                r = nabs(args[0])
            elif k == "sin":
                r = nsin(args[0])
            elif k == "cos":
                r = ncos(args[0])
            elif k == "mod":
                r = nmod(*args)
            elif k == "idiv":
                r = nidiv(*args)
            elif k == "atan2":
                r = natan2(*args)
            else:
                r = numatom(atom((k,) + args, AINT[x], ANONNEG[x]))
        self.amemo[x] = r
        return r


def subst(v, m):
    if not m:
        return v
    return Subst(m).val(v)


def atoms_of(v, out=None, seen=None):
    """all atoms occurring anywhere in a value"""
    if out is None:
        out = set()
        seen = set()
    if isinstance(v, tuple):
        for x in v:
            atoms_of(x, out, seen)
        return out
    if not isinstance(v, V) or v in seen:
        return out
    seen.add(v)
    if v.k == "num":
        for pk in v.a:
            for m, _ in pk:
                for x, _e in m:
                    if x not in out:
                        out.add(x)
                        for y in ATOMS[x][1:]:
                            atoms_of(y, out, seen)
    else:
        for x in v.a:
            atoms_of(x, out, seen)
    return out


def terms_in(v, pred, out=None, seen=None):
    """all sub-values V satisfying pred"""
    if out is None:
        out, seen = [], set()
    if isinstance(v, tuple):
        for x in v:
            terms_in(x, pred, out, seen)
        return out
    if not isinstance(v, V) or v in seen:
        return out
    seen.add(v)
    if pred(v):
        out.append(v)
    if v.k == "num":
        for pk in v.a:
            for m, _ in pk:
                for x, _e in m:
                    for y in ATOMS[x][1:]:
                        terms_in(y, pred, out, seen)
    else:
        for x in v.a:
            terms_in(x, pred, out, seen)
    return out


# ------------------------------------------------------------------ printing
def show_atom(x):
    d = ATOMS[x]
    if d[0] == "sym":
        return str(d[1])
    if d[0] in ("eps", "pi", "nan"):
        return d[0]
    if d[0] == "opq":
        return show_term(d[1])
    if d[0] == "b":
        return "i%d" % d[1]
    if d[0] == "len":
        return "len(%s)" % show_term(d[1])
    if d[0] == "sum":
        return "Sum[i%d<%s](%s)" % (d[1], show_term(d[2]), show_term(d[3]))
    return "%s(%s)" % (d[0], ",".join(show_term(y) for y in d[1:]))


def show_poly(pk):
    if not pk:
        return "0"
    out = []
    for m, c in sorted(pk, key=lambda mc: (-sum(e for _, e in mc[0]), mc[0])):
        s = "*".join(show_atom(a) + ("^%d" % e if e > 1 else "") for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = "%s*%s" % (c, s)
        out.append(s)
    return " + ".join(out).replace("+ -", "- ")


def show_term(t, depth=0):
    if isinstance(t, V):
        return show(t, depth)
    if isinstance(t, tuple):
        if t and t[0] == "sym":
            return str(t[1])
        if t and t[0] == "." and len(t) == 3:
            return "%s.%s" % (show_term(t[1], depth + 1), t[2])
        if t and t[0] == "elem" and len(t) == 3:
            return "%s[%s]" % (show_term(t[1], depth + 1), show_term(t[2], depth + 1))
        if t and t[0] == "ty":
            return "ty"
        return "(" + " ".join(show_term(x, depth + 1) for x in t) + ")"
    return str(t).split("::")[-1] if isinstance(t, str) else str(t)


def show(v, depth=0):
    if depth > 12:
        return "…"
    k = v.k
    if k == "num":
        n = show_poly(v.a[0])
        return n if isone(v.a[1]) else "(%s)/(%s)" % (n, show_poly(v.a[1]))
    if k == "bool":
        return str(v.a[0]).lower()
    if k == "bot":
        return "⊥"
    if k == "node":
        var, cuts, ch = v.a
        if var.k == "fv":
            return "case %s{%s}" % (show_term(var.a[0], depth + 1), "; ".join("%d→%s" % (i, show(x, depth + 1)) for i, x in enumerate(ch)))
        out = []
        for i, y in enumerate(ch):
            l = cuts[i - 1] if i > 0 else None
            h = cuts[i] if i < len(cuts) else None
            out.append("[%s]→%s" % (show_region(var, (l, h)), show(y, depth + 1)))
        return "{" + "; ".join(out) + "}"
    if k == "struct":
        return "%s(%s)" % (v.a[0].split("::")[-1], ", ".join(show(x, depth + 1) for x in v.a[1:]))
    if k == "enum":
        return "%s#%s%s" % (v.a[0].split("::")[-1], v.a[1], "(%s)" % ", ".join(show(x, depth + 1) for x in v.a[2:]) if len(v.a) > 2 else "")
    if k == "symseq":
        return show_term(v.a[0], depth + 1)
    if k == "ref" and v.a[0][0] == "A":
        return "&" + show(v.a[0][1], depth + 1) + "".join(str(e[:2]) for e in v.a[1])
    if k == "seqlit":
        return "[%s]" % ", ".join(show(x, depth + 1) for x in v.a)
    return "%s<%s>" % (k, ", ".join(show_term(x, depth + 1) for x in v.a))


# ------------------------------------------------------------------ bind: f may return decision values
def fv_is(var, j):
    return mk("node", var, (), tuple(TRUE if i == j else FALSE for i in range(var.a[1])))


def _topn(v):
    return v.a[0].n if v.k == "node" else 1 << 60


def rebuild(var, cuts, ch):
    """decision on var with arbitrary decision children"""
    m = min(_topn(x) for x in ch)
    if var.n < m:
        return mknode(var, cuts, tuple(ch))
    if var.k == "fv":
        r = BOT
        for i, x in enumerate(ch):
            r = x if r is BOT else ite(fv_is(var, i), x, r)
        return r
    r = ch[-1]
    for c, x in zip(reversed(cuts), reversed(list(ch)[:-1])):
        r = ite(mk("node", var, (c,), (TRUE, FALSE)), x, r)
    return r


def bind(v, f, memo=None):
    if v.k != "node":
        return f(v)
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is None:
        var, cuts, ch = v.a
        r = rebuild(var, cuts, [bind(x, f, memo) for x in ch])
        memo[v] = r
    return r


def bindn(f, *vs):
    """f at leaves of several decision values, f may return decisions"""
    def rec(i, acc):
        if i == len(vs):
            return f(*acc)
        return bind(vs[i], lambda l: rec(i + 1, acc + [l]))
    return rec(0, [])


def cond_of(v, pred):
    """condition under which the leaf of v satisfies pred"""
    if v.k != "node":
        return BOT if v is BOT else mkbool(pred(v))
    return mapn(lambda x: BOT if x is BOT else mkbool(pred(x)), v)


def cleanb(c):
    """don't-care leaves of a condition become false"""
    if c is BOT:
        return FALSE
    if c.k != "node":
        return c
    return mapn(lambda x: FALSE if x is BOT else x, c)
