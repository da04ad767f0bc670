"""Function evaluation: control-flow graph, blocks, statements, calls, loops."""
from interp import *
import interp as I
import models
import loops

CMPF = {"Lt": lt, "Le": le, "Gt": gt, "Ge": ge, "Eq": eq0}


class CFG:
    def __init__(self, body):
        self.b = body["blocks"]
        n = len(self.b)
        self.succ = [self._succ(x["t"]) for x in self.b]
        # reachable without unwinding
        seen, order = set(), []

        def dfs(u):
            stack = [(u, iter(self.succ[u]))]
            seen.add(u)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen and not self.b[y]["cleanup"]:
                        seen.add(y)
                        stack.append((y, iter(self.succ[y])))
                        break
                else:
                    order.append(x)
                    stack.pop()

        dfs(0)
        self.rpo = order[::-1]
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        self.reach = seen
        self.succ = [[y for y in s if y in seen] for s in self.succ]
        pred = {b: [] for b in seen}
        for u in seen:
            for v in self.succ[u]:
                pred[v].append(u)
        self.pred = pred
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while self.pos[a] > self.pos[c]:
                            a = idom[a]
                        while self.pos[c] > self.pos[a]:
                            c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        self.loops = {}  # header -> blocks
        for u in self.rpo:
            for v in self.succ[u]:
                if self.dom(v, u):
                    body_ = self.loops.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in body_:
                            body_.add(x)
                            st.extend(pred[x])
                elif self.pos[v] <= self.pos[u]:
                    raise Undecided("irreducible control flow")

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    @staticmethod
    def _succ(t):
        k = t["k"]
        if k == "goto":
            return [t["t"]]
        if k == "switch":
            r = []
            for _, x in t["ts"]:
                if x not in r:
                    r.append(x)
            if t["else"] is not None and t["else"] not in r:
                r.append(t["else"])
            return r
        if k in ("drop", "assert"):
            return [t["t"]]
        if k == "call":
            return [t["t"]] if t.get("t") is not None else []
        return []


class Frame:
    def __init__(self, cx, fn, env, fid, body=None):
        self.cx = cx
        self.fn = fn
        self.env = env
        self.fid = fid
        self.body = body or fn["body"]
        key = id(self.body)
        self.cfg = cx.F.cfg.get(key)
        if self.cfg is None:
            self.cfg = cx.F.cfg[key] = CFG(self.body)
        self.lty = [tsub(hty(l["ty"]), env) for l in self.body["locals"]]
        self.rets = []
        if not hasattr(cx, 'frames'):
            cx.frames = {}
        cx.frames[fid] = self

    def root(self, l):
        return ("L", self.fid, l)

    # ---- places
    def place(self, st, pl):
        """reference value of a place (root, path) — may be a decision over references"""
        ref = mk("ref", self.root(pl["l"]), ())
        ty = self.lty[pl["l"]]
        dc = None
        for e in pl["p"]:
            k = e[0]
            if k == "deref":
                v = self.cx.load(st, ref)
                if v.k in ("ref", "rc") or (v.k == "node" and all(x.k in ("ref", "rc", "bot") for x in leaves(v))):
                    ref = v
                elif v is BOT:
                    ref = BOT
                # else: transparent (Box)
                ty = self.deref_ty(ty)
                dc = None
            elif k == "downcast":
                dc = e[1]
            elif k == "field":
                fty = self.field_ty(ty, e[1], dc)
                if dc is not None and self.is_enum(ty):
                    ref = self.cx.addref(ref, ("v", dc, e[1]))
                elif self.transparent(ty):
                    pass
                else:
                    ref = self.cx.addref(ref, ("f", e[1]))
                ty = fty
                dc = None
            elif k == "index":
                iv = self.cx.get(st, self.root(e[1]))
                ety = self.elem_ty(ty)
                ref = bind(iv, lambda i, r=ref: BOT if i is BOT else self.cx.addref(r, ("i", i, None, ety)))
                ty = ety
            elif k == "cindex":
                ety = self.elem_ty(ty)
                if e[2]:
                    v = self.cx.load(st, ref)
                    iv = vsub(seq_len(v), const(e[1]))
                else:
                    iv = const(e[1])
                ref = bind(iv, lambda i, r=ref: BOT if i is BOT else self.cx.addref(r, ("i", i, None, ety)))
                ty = ety
            else:
                raise Undecided("projection " + str(e))
        return ref

    def is_enum(self, ty):
        return ty[0] == "adt" and (short(ty[1]) in ("Option", "Result", "Ordering") or (ty[1] in self.cx.F.adts and self.cx.F.adts[ty[1]][0] == "Enum"))

    def transparent(self, ty):
        return ty[0] == "adt" and short(ty[1]) in ("Box", "Unique", "NonNull", "MaybeUninit", "ManuallyDrop", "MaybeDangling", "Rc", "RefCell") or ty[0] == "ref"

    def deref_ty(self, ty):
        if ty[0] == "ref":
            return ty[2]
        if ty[0] == "adt" and ty[2]:
            return ty[2][0]
        return ("other", "?")

    def elem_ty(self, ty):
        if ty[0] in ("array", "slice"):
            return ty[1]
        if ty[0] == "adt" and ty[2]:
            return ty[2][0]
        return ("other", "?")

    def field_ty(self, ty, i, dc):
        if ty[0] == "tuple":
            return ty[1][i] if i < len(ty[1]) else ("other", "?")
        if ty[0] == "adt":
            if ty[1] in self.cx.F.adts:
                vs = self.cx.F.adts[ty[1]][1]
                fl = vs[dc or 0][2]
                return tsub(fl[i][1], dict(enumerate(ty[2]))) if i < len(fl) else ("other", "?")
            if ty[2]:
                return ty[2][0]
        if ty[0] == "closure":
            return ty[2][i] if i < len(ty[2]) else ("other", "?")
        return ("other", "?")

    def place_ty(self, pl):
        ty = self.lty[pl["l"]]
        dc = None
        for e in pl["p"]:
            if e[0] == "deref":
                ty = self.deref_ty(ty)
                dc = None
            elif e[0] == "downcast":
                dc = e[1]
            elif e[0] == "field":
                ty = self.field_ty(ty, e[1], dc)
                dc = None
            else:
                ty = self.elem_ty(ty)
        return ty

    # ---- operands
    def operand(self, st, o):
        k = o["k"]
        if k in ("copy", "move"):
            return self.cx.load(st, self.place(st, o["pl"]))
        return self.constant(st, o)

    def constant(self, st, o):
        ty = tsub(hty(o["ty"]), self.env)
        if "promoted" in o and o["promoted"] is not None:
            return self.promoted(o["promoted"])
        v = o.get("v")
        if ty[0] == "fndef":
            return mk("fn", ty)
        if v is None:
            n = o.get("named")
            if n:
                s = short(n)
                if s == "PI":
                    return NPI
                if s in ("MAX", "MIN", "INFINITY", "NEG_INFINITY", "EPSILON"):
                    return numatom(atom(("opq", ("const", n))))
                f = self.cx.F.byp.get(n)
                return self.cx.sym(ty, ("const", n))
            return self.cx.sym(ty, ("const?", str(o.get("ty"))[:40]))
        if "bool" in v:
            return mkbool(v["bool"])
        if "float" in v:
            x = v["float"]
            import struct as _s
            if isinstance(x, str):
                x = float(x)
            return fconst(x)
        if "bits" in v and v.get("w") is not None and ty[0] == "prim" and ty[1] in ("f32", "f64"):
            return fconst(v["bits"])
        if "int" in v:
            return const(int(v["int"]))
        if "str" in v:
            return mk("str", v["str"])
        if "variant" in v:
            p = ty[1]
            return mk("enum", short(p) if p not in self.cx.F.adts else p, v["variant"])
        if "zst" in v:
            if ty[0] == "fndef":
                return mk("fn", ty)
            if ty[0] == "closure":
                return mk("clo", ty[1], mk("ty", ("env", tuple(sorted(self.env.items())))))
            if ty[0] == "tuple" and not ty[1]:
                return UNIT
            if ty[0] == "adt":
                return self.cx.sym(ty, ("const", ty[1]))
            return UNIT
        return mk("opq", ("const", str(v)))

    def promoted(self, i):
        key = ("promoted", self.fn["u"], i, tuple(sorted(self.env.items())))
        r = self.cx.memo.get(key)
        if r is None:
            self.cx.fcnt += 1
            fr = Frame(self.cx, self.fn, self.env, self.cx.fcnt, body=self.fn["promoted"][i])
            st = {}
            v, st2 = fr.run(st, keep=True)
            r = self.content(st2, v)
            self.cx.memo[key] = r
        return r

    def content(self, st, v, depth=0):
        """content-address references to locals of a finished pure body"""
        if v.k == "ref":
            if v.a[0][0] == "A":
                return v
            return mk("ref", ("A", self.content(st, self.cx.load(st, v), depth + 1)), ())
        if v.k == "node":
            return bind(v, lambda x: self.content(st, x, depth))
        if v.k == "struct":
            return mk("struct", v.a[0], *[self.content(st, x, depth + 1) for x in v.a[1:]])
        if v.k == "enum":
            return mk("enum", v.a[0], v.a[1], *[self.content(st, x, depth + 1) for x in v.a[2:]])
        if v.k == "seqlit":
            return seqlit(*[self.content(st, x, depth + 1) for x in v.a])
        return v

    # ---- rvalues
    def rvalue(self, st, r):
        cx = self.cx
        k = r["k"]
        if k == "use":
            return self.operand(st, r["o"])
        if k == "ref" or k == "rawptr":
            return self.place(st, r["pl"])
        if k == "cast":
            v = self.operand(st, r["o"])
            ty = tsub(hty(r["ty"]), self.env)
            if r["ck"].startswith("FloatToInt"):
                return mapn(lambda x: BOT if x is BOT else numatom(atom(("trunc", x), True)), v)
            return v
        if k == "bin":
            return self.binop(r["op"], self.operand(st, r["a"]), self.operand(st, r["b"]), self.op_ty(r["a"]))
        if k == "un":
            v = self.operand(st, r["o"])
            if r["op"] == "Not":
                if all(x.k in ("bool", "bot") for x in leaves(v)):
                    return bnot(v)
                return mk("opq", ("not", v))
            if r["op"] == "Neg":
                return mapn(lambda x: BOT if x is BOT else nneg(x), v)
            if r["op"] == "PtrMetadata":
                return seq_len(cx.load(st, v))
            raise Undecided("unary " + r["op"])
        if k == "discr":
            v = cx.load(st, self.place(st, r["pl"]))
            return self.discr(v)
        if k == "len":
            return seq_len(cx.load(st, self.place(st, r["pl"])))
        if k == "repeat":
            v = self.operand(st, r["o"])
            n = r.get("n")
            if isinstance(n, int) and n <= 64:
                return seqlit(*[v] * n)
            raise Undecided("array repeat")
        if k == "agg":
            fs = [self.operand(st, o) for o in r["f"]]
            g = r["g"]
            if g == "array":
                return seqlit(*fs)
            if g == "tuple":
                return mk("struct", "()", *fs)
            if g == "closure":
                return mk("clo", r.get("p") or r.get("u"), mk("ty", ("env", tuple(sorted(self.env.items())))), *fs)
            p = r["p"]
            if p in cx.F.adts:
                if cx.F.adts[p][0] == "Enum":
                    return mk("enum", p, r["v"], *fs)
                return mk("struct", p, *fs)
            if short(p) in ("Option", "Ordering", "Result"):
                return mk("enum", short(p), r["v"], *fs)
            if short(p) in ("Range",):
                return mk("struct", "Range", *fs)
            if short(p) in ("Box", "Unique", "NonNull"):
                return fs[0]
            return mk("struct", p, *fs)
        raise Undecided("rvalue " + k)

    def op_ty(self, o):
        if o["k"] == "const":
            return tsub(hty(o["ty"]), self.env)
        return self.place_ty(o["pl"])

    def discr(self, v):
        def leaf(x):
            if x is BOT:
                return BOT
            if x.k == "enum":
                if x.a[0] in self.cx.F.adts:
                    d = self.cx.F.adts[x.a[0]][1][x.a[1]][1]
                    return const(int(d))
                if x.a[0] == "Ordering":
                    return const(x.a[1] - 1)
                return const(x.a[1])
            raise Undecided("discriminant of " + x.k)
        return mapn(leaf, v)

    def binop(self, op, a, b, ty):
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            ka = {x.k for x in leaves(a)} - {"bot"}
            if ka <= {"bool"}:
                if op == "Eq":
                    return bnot(bxor(a, b))
                if op == "Ne":
                    return bxor(a, b)
            if ka <= {"num"}:
                r = vcmp(CMPF["Eq" if op == "Ne" else op], a, b)
                return bnot(r) if op == "Ne" else r
            if a is b:
                return mkbool(op in ("Eq", "Le", "Ge"))
            r = finnode(("cmp", a, b), [FALSE, TRUE])
            return bnot(r) if op == "Ne" else r
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            f = {"A": vadd, "S": vsub, "M": vmul}[op[0]]
            v = f(a, b)
            ov = FALSE
            if op[0] == "S" and ty[0] == "prim" and ty[1] in UNSIGNED:
                ov = vcmp(lt, a, b)
            return mk("struct", "()", v, ov)
        if op in ("Add", "AddUnchecked"):
            return vadd(a, b)
        if op in ("Sub", "SubUnchecked"):
            return vsub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return vmul(a, b)
        if op == "Div":
            if ty[0] == "prim" and ty[1] in INTS:
                return mapn(lambda x, y: BOT if BOT in (x, y) else nidiv(x, y), a, b)
            return mapn(lambda x, y: BOT if BOT in (x, y) else ndiv(x, y), a, b)
        if op == "Rem":
            if ty[0] == "prim" and ty[1] in INTS:
                return mapn(lambda x, y: BOT if BOT in (x, y) else nmod(x, y), a, b)
            return mapn(lambda x, y: BOT if BOT in (x, y) else nfn("fmod", x, y), a, b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if all(x.k in ("bool", "bot") for x in leaves(a)):
                return {"BitAnd": band, "BitOr": bor, "BitXor": bxor}[op](a, b)
            return mk("opq", (op, a, b))
        if op == "Cmp":
            o = [mk("enum", "Ordering", i) for i in range(3)]
            return bindn(lambda x, y: BOT if BOT in (x, y) else cmp3(nsub(x, y), *o), a, b)
        raise Undecided("binary " + op)

    # ---- regions
    def run(self, st, keep=False):
        """evaluate the whole body; returns (value, state)"""
        self.rets = []
        self.region(0, set(self.cfg.reach), TRUE, st, top=True)
        if not self.rets:
            return BOT, None
        c, s = merge(self.rets)
        self.retcond = c
        v = s.get(self.root(0), UNIT)
        if not keep:
            for k in [k for k in s if k[0] == "L" and k[1] == self.fid]:
                del s[k]
        return v, s

    def region(self, header, blocks, cond, st, top=False):
        """evaluate the blocks of one region (loop body or whole function).
        returns (backedge list, exits list [(target, cond, st, src)])"""
        inc = {header: [(cond, st)]}
        backs, exits = [], []
        self.static_exit = False
        order = [b for b in self.cfg.rpo if b in blocks]
        done = set()
        static = False
        for b in order:
            if b in done:
                continue
            if b not in inc:
                continue
            if b in self.cfg.loops and not (b == header and not top) and self.cfg.loops[b] <= blocks:
                lb = self.cfg.loops[b]
                c, s = merge(inc[b])
                if c is FALSE:
                    done |= lb
                    continue
                outs = loops.run_loop(self, b, lb, c, s)
                done |= lb
            else:
                done.add(b)
                c, s = merge(inc[b])
                if c is FALSE:
                    continue
                outs = self.block(b, c, s)
            for (t, c2, s2) in outs:
                if t == "return":
                    self.rets.append((c2, s2))
                    continue
                if c2 is FALSE:
                    if not top and t not in blocks and self.cfg.b[t]["t"]["k"] != "unreachable":
                        static = True
                    continue
                if t == header and not top:
                    backs.append((c2, s2))
                elif t in blocks:
                    inc.setdefault(t, []).append((c2, s2))
                else:
                    exits.append((t, c2, s2))
        self.static_exit = static
        return backs, exits

    def dropped(self, st, t):
        pl = t.get("pl")
        if pl is None or pl["p"]:
            return
        ty = tsub(hty(self.fn["body"]["locals"][pl["l"]]["ty"]), self.env)
        if ty[0] == "adt" and short(ty[1]) in ("Ref", "RefMut"):
            v = st.get(self.root(pl["l"]))
            if v is not None and v is not BOT:
                models.end_borrow(self.cx, st, v, short(ty[1]) == "RefMut")

    def block(self, b, cond, st):
        cx = self.cx
        st = dict(st)
        blk = self.cfg.b[b]
        for s in blk["s"]:
            if "rv" not in s:
                continue
            v = self.rvalue(st, s["rv"])
            pl = s["pl"]
            if not pl["p"]:
                st[self.root(pl["l"])] = v
            else:
                self.store_place(st, pl, v)
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], cond, st)]
        if k == "drop":
            self.dropped(st, t)
            return [(t["t"], cond, st)]
        if k == "return":
            return [("return", cond, st)]
        if k in ("unreachable", "resume", "abort", "terminate"):
            return []
        if k == "switch":
            v = self.operand(st, t["o"])
            outs = {}
            rest = TRUE
            dt = tsub(hty(t["dty"]), self.env)
            bits = SIGNED.get(dt[1], 0) if dt[0] == "prim" else 0
            for val, tgt in t["ts"]:
                val = int(val)
                if bits and val >> (bits - 1):  # the values are bit patterns
                    val -= 1 << bits
                c = cond_of(v, lambda x, val=val: leafeq(x, val))
                c = cleanb(c)
                rest = band(rest, bnot(c))
                outs[tgt] = bor(outs.get(tgt, FALSE), c)
            if t["else"] is not None and self.cfg.b[t["else"]]["t"]["k"] != "unreachable":
                outs[t["else"]] = bor(outs.get(t["else"], FALSE), rest)
            return [(tgt, cleanb(band(cond, c)), st) for tgt, c in outs.items()]
        if k == "assert":
            if "Pointer" in t["m"][:24] or "Null" in t["m"][:24]:
                return [(t["t"], cond, st)]
            v = self.operand(st, t["o"])
            ok = v if t["e"] else bnot(v)
            bad = cleanb(band(cond, bnot(cleanb(ok))))
            if bad is not FALSE:
                cx.panics.append((bad, self.fn["p"], t.get("ln") or self.fn["ln"], "assert " + t["m"][:40]))
            return [(t["t"], cleanb(band(cond, cleanb(ok))), st)]
        if k == "call":
            return self.call(b, t, cond, st)
        raise Undecided("terminator " + k)

    def store_place(self, st, pl, v):
        ref = self.place(st, pl)
        self.cx.store(st, ref, v)

    # ---- calls
    def call(self, b, t, cond, st):
        f = t["f"]
        args = [self.operand(st, a) for a in t["args"]]
        atys = [self.op_ty(a) for a in t["args"]]
        rty = self.place_ty(t["d"])
        if f["k"] == "const":
            fty = tsub(hty(f["ty"]), self.env)
        else:
            fty = self.operand(st, f)
            fty = fty.a[0] if fty.k == "fn" else ("other", "?")
        site = (self.fn["p"], t.get("ln") or self.fn["ln"])
        res = self.cx.invoke(fty, args, atys, rty, st, cond, site)
        if res is None or t.get("t") is None:
            return []
        v, nc = res
        cond = cleanb(band(cond, nc))
        if cond is FALSE:
            return []
        pl = t["d"]
        if not pl["p"]:
            st[self.root(pl["l"])] = v
        else:
            self.store_place(st, pl, v)
        return [(t["t"], cond, st)]


SIGNED = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}


def leafeq(x, val):
    if x.k == "bool":
        return int(x.a[0]) == val
    if x.k == "num":
        if isconst(x):
            return cval(x) == val
        raise Undecided("switch on symbolic integer")
    raise Undecided("switch on " + x.k)


def fconst(x):
    import math
    if isinstance(x, str):
        x = float(x)
    if x == 3.1415927410125732 or x == 3.1415927:
        return NPI  # the f32 nearest to pi
    for k in (1, 2, 4):
        if abs(x - math.pi * k) < 1e-15:
            return nmul(NPI, const(k))
        if k > 1 and abs(x - math.pi / k) < 1e-15:
            return ndiv(NPI, const(k))
    return const(x)


def merge(ins):
    if len(ins) == 1:
        return ins[0][0], dict(ins[0][1])
    ins = [(c, s) for c, s in ins if c is not FALSE]
    if not ins:
        return FALSE, {}
    if len(ins) == 1:
        return ins[0][0], dict(ins[0][1])
    c = FALSE
    for x, _ in ins:
        c = bor(c, x)
    keys = {}
    for _, s in ins:
        for k in s:
            keys[k] = None
    out = {}
    for k in keys:
        vals = [s.get(k) if k[0] != "B" else s.get(k, ZERO) for _, s in ins]
        v0 = vals[0]
        if all(v is v0 for v in vals):
            out[k] = v0
            continue
        if k[0] == "S" and any(v is None for v in vals):
            vals = [v if v is not None else CURCX.get({}, k) for v in vals]
        r = BOT
        for (ci, _), v in reversed(list(zip(ins, vals))):
            if v is None or v is BOT:
                continue
            r = v if r is BOT else ite(ci, v, r)
        out[k] = r
    return cleanb(c), out


CURCX = None


def setcx(cx):
    global CURCX
    CURCX = cx


# ------------------------------------------------------------------ calls
def invoke(cx, fty, args, atys, rty, st, cond, site):
    """returns (value, condition of normal return) or None (diverges)"""
    if fty[0] != "fndef":
        if fty[0] == "closure":
            return call_closure(cx, args[0], args[1:], st, cond, site)
        raise Undecided("indirect call at %s:%s" % site)
    _, u, p, targs, trait, name, local = fty
    # resolve trait calls
    if trait is not None:
        r = resolve_trait(cx, trait, name, targs)
        if r is not None:
            fn, env = r
            return call_local(cx, fn, env, args, rty, st, cond, site)
        return models.trait_call(cx, trait, name, targs, args, atys, rty, st, cond, site, fty)
    if local:
        fn = cx.F.fns.get(u)
        if fn is None or not fn.get("body"):
            # constructor function
            return models.ctor(cx, fty, args, rty)
        env = dict(enumerate(targs))
        return call_local(cx, fn, env, args, rty, st, cond, site)
    return models.extern(cx, p, name, targs, args, atys, rty, st, cond, site)


Ctx.invoke = invoke


def strip(ty):
    while ty[0] == "ref":
        ty = ty[2]
    return ty


def match_ty(pat, ty, env):
    if pat[0] == "param":
        if pat[2] in env:
            return env[pat[2]] == ty
        env[pat[2]] = ty
        return True
    if pat[0] != ty[0]:
        return False
    if pat[0] == "adt":
        return pat[1] == ty[1] and len(pat[2]) == len(ty[2]) and all(match_ty(a, b, env) for a, b in zip(pat[2], ty[2]))
    if pat[0] == "ref":
        return match_ty(pat[2], ty[2], env)
    if pat[0] in ("slice", "array"):
        return match_ty(pat[1], ty[1], env)
    if pat[0] == "tuple":
        return len(pat[1]) == len(ty[1]) and all(match_ty(a, b, env) for a, b in zip(pat[1], ty[1]))
    return pat == ty


def resolve_trait(cx, trait, name, targs):
    self_ty = targs[0]
    if self_ty[0] == "param":
        return None
    for im in cx.F.impls.get(trait, []):
        env = {}
        pats = [hty(x) for x in im["targs"]]
        if len(pats) > len(targs) or not all(match_ty(a, b, env) for a, b in zip(pats, targs)):
            continue
        for n, u in im["items"]:
            if n == name:
                fn = cx.F.fns.get(u)
                if fn and fn.get("body"):
                    # method's own generics follow the impl's: bind impl params by index
                    ienv = dict(env)
                    extra = targs[len(pats):]
                    base = max(ienv) + 1 if ienv else 0
                    for j, a in enumerate(extra):
                        ienv[base + j] = a
                    return fn, ienv
        # default method of a local trait
        tr = cx.F.traits.get(trait)
        if tr and name in tr and tr[name][1]:
            fn = cx.F.fns.get(tr[name][0])
            if fn and fn.get("body"):
                return fn, dict(enumerate(targs))
        return None
    return None


def call_closure(cx, clo, args, st, cond, site, byref=False):
    """apply a closure / fn value to arguments"""
    while clo.k == "ref":
        selfref = clo
        clo = cx.load(st, clo)
    if clo.k == "fn":
        fty = clo.a[0]
        return cx.invoke(fty, args, [("other", "?")] * len(args), ("other", "?"), st, cond, site)
    if clo.k != "clo":
        raise Undecided("call of unknown function value")
    p = clo.a[0]
    fn = cx.F.byp.get(p) or cx.F.fns.get(p)
    if fn is None:
        for f in cx.F.d["fns"]:
            if p.endswith(f["u"]) or f["u"].endswith(p):
                fn = f
                break
    if fn is None:
        raise Undecided("closure body not found " + p)
    env = dict(clo.a[1].a[0][1])
    # closure self: by reference or by value depending on the body
    t0 = hty(fn["body"]["locals"][1]["ty"])
    fake = None
    if t0[0] == "ref":
        cx.hcnt += 1
        fake = ("H", cx.hcnt)
        st[fake] = clo
        selfv = mk("ref", fake, ())
    else:
        selfv = clo
    # arguments: closures take their arguments untupled in MIR locals 2..
    a = [selfv] + list(args)
    r = call_local(cx, fn, env, a, None, st, cond, site)
    if fake is not None:
        st.pop(fake, None)
    return r


def refs_pure(v):
    """only shared references to content without Rc/iterators"""
    return True


def call_local(cx, fn, env, args, rty, st, cond, site):
    u = fn["u"]
    p = fn["p"]
    if p in cx.uf or u in cx.uf:
        return uf_call(cx, fn, env, args, st, site)
    key0 = (u, tuple(sorted(env.items())))
    if key0 in cx.stack and cx.norec:
        hook = getattr(cx, "ufhook", None)
        r = hook(cx, fn, env, args, tuple(cx.deepres(st, a) for a in args), st, site) if hook else None
        if r is not None:
            return r
        if cx.stack.count(key0) > cx.norec:
            cx.note("recursion: " + p)
            return uf_call(cx, fn, env, args, st, site, False)
    if len(cx.stack) > 40:
        raise Undecided("call depth")
    ptys = [tsub(hty(l["ty"]), env) for l in fn["body"]["locals"][1:1 + fn["body"]["argc"]]]
    pure = all(not mutref(t) for t in ptys)
    mkey = None
    if pure:
        cargs = []
        ok = True
        for v in args:
            w = Frame.content(DUMMY(cx), st, v) if v.k in ("ref", "node", "struct", "enum", "seqlit") else v
            if terms_in(w, lambda x: x.k in ("rc", "iter", "clo", "fn")) or terms_in(w, lambda x: x.k == "ref" and x.a[0][0] != "A"):
                ok = False
                break
            cargs.append(w)
        if ok:
            mkey = ("fn", key0, tuple(cargs))
            args = cargs
            r = cx.memo.get(mkey)
            if r is not None:
                v, nc, pan, eff = r
                for (c, f_, l_, m_) in pan:
                    cc = cleanb(band(cond, c))
                    if cc is not FALSE:
                        cx.panics.append((cc, f_, l_, m_))
                for (c, w_, s_) in eff:
                    cx.effects.append((band(cond, c), w_, s_))
                return (v, nc) if nc is not FALSE else None
    cx.fcnt += 1
    cx.analysed.add(p)
    fr = Frame(cx, fn, env, cx.fcnt)
    cx.stack.append(key0)
    sp, se = cx.panics, cx.effects
    cx.panics, cx.effects = [], []
    hc = cx.hcnt
    try:
        st2 = dict(st) if mkey is None else {}
        for i, v in enumerate(args):
            st2[fr.root(1 + i)] = v
        if len(args) != fn["body"]["argc"] and fn["kind"] == "Closure":
            pass
        v, st3 = fr.run(st2)
    finally:
        cx.stack.pop()
        pan, eff = cx.panics, cx.effects
        cx.panics, cx.effects = sp, se
    if mkey is not None and cx.hcnt == hc:
        if st3 is None:
            cx.memo[mkey] = (BOT, FALSE, pan, eff)
        elif not any(k[0] == "S" and k not in st for k in st3):
            cx.memo[mkey] = (v, fr.retcond, pan, eff)
    for (c, f_, l_, m_) in pan:
        cc = cleanb(band(cond, c))
        if cc is not FALSE:
            cx.panics.append((cc, f_, l_, m_))
    for (c, w_, s_) in eff:
        cx.effects.append((cleanb(band(cond, c)), w_, s_))
    if st3 is None:
        return None
    for k, x in st3.items():
        st[k] = x
    return v, fr.retcond


class DUMMY:
    def __init__(self, cx):
        self.cx = cx

    def content(self, st, v, depth=0):
        return Frame.content(self, st, v, depth)


def mutref(t):
    if t[0] == "ref":
        return t[1] or mutref(t[2])
    if t[0] == "adt":
        if short(t[1]) in ("Rc", "RefCell", "Cell", "RefMut"):
            return True
        return any(mutref(a) for a in t[2])
    if t[0] in ("tuple",):
        return any(mutref(a) for a in t[1])
    if t[0] in ("slice", "array"):
        return mutref(t[1])
    return False


_UFENV = {}


def ufenv(cx):
    return _UFENV.setdefault(id(cx.F), {})


def uf_call(cx, fn, env, args, st, site, summarise=True):
    """uninterpreted summary: result is a function of the (deep) arguments; &mut arguments become functions of them too"""
    ptys = [tsub(hty(l["ty"]), env) for l in fn["body"]["locals"][1:1 + fn["body"]["argc"]]]
    rty = tsub(hty(fn["body"]["locals"][0]["ty"]), env)
    dargs = tuple(cx.deepres(st, a) for a in args)
    name = fn["p"]
    ts = tuple(v for k, v in sorted(env.items()) if v != TPARAM)
    term = ("call", name) + ((mk("ty", ts),) if ts else ()) + dargs
    ufenv(cx)[(name, ts)] = (fn, dict(env))
    cx.ufsites = getattr(cx, "ufsites", [])
    cx.ufsites.append((name, site, dargs))
    hook = getattr(cx, "ufhook", None)
    if hook:
        r = hook(cx, fn, env, args, dargs, st, site)
        if r is not None:
            return r
    rc = TRUE
    import evalv
    S = evalv.summary_of(cx, fn, env) if summarise else None
    if S is not None:
        if S[2] is not FALSE:
            p = TRUE if S[2] is TRUE else cx.sym(("prim", "bool"), ("callpanics",) + term[1:])
            cx.panics.append((p, fn["file"], fn["ln"], "inside " + name))
            rc = bnot(p)
        for e in S[3]:
            cx.effects.append((TRUE,) + tuple(e[1:]))
    for i, (t, a) in enumerate(zip(ptys, args)):
        if t[0] == "ref" and t[1]:
            cx.store(st, a, cx.sym(t[2], ("after", i, term)))
    return cx.sym(rty, term), rc


Ctx.call_local = call_local
Ctx.call_closure = call_closure


def evaluate(cx, fn, args, env=None, st=None):
    """summary of a function on the given abstract arguments: (value, state, panics, effects)"""
    setcx(cx)
    models.setup(cx)
    st = {} if st is None else st
    cx.panics, cx.effects = [], []
    cx.stack = []
    env = env or {}
    r = call_local(cx, fn, env, list(args), None, st, TRUE, (fn["p"], fn["ln"]))
    if r is None:
        return BOT, st, list(cx.panics), list(cx.effects), FALSE
    return r[0], st, list(cx.panics), list(cx.effects), r[1]
