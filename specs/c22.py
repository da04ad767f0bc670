from base import *
import models

FLOOR = 40
MOD = "data_structure::avl_tree::"
NODE = adt(MOD + "AVLTreeNode")
RCN = ("adt", "alloc::rc::Rc", (("adt", "core::cell::RefCell", (NODE,)),))
OPT = ("adt", "core::option::Option", (RCN,))


def run(k):
    k.rules = ["inductive shape analysis: with the recursive call replaced by its contract (the sub-tree's new contents, balanced, height changed by at most one in the operation's direction), the operation on a node with arbitrary sub-trees yields the contents the sorted sequence must have, every node within it balanced and its stored height right, and again a height within the contract",
               "the recursive call gets the child on the value's side, the same value and the same option, and happens once", "no path panics, borrow conflicts of the cells included"]
    k.group("small", lambda: small(k))
    k.group("traversal", lambda: traversal(k))
    for opt in ("DisableSameNode", "SameNodeInsertRight"):
        k.group("insert " + opt, lambda: insert(k, opt))
    k.group("delete", lambda: delete(k))
    k.group("delete here", lambda: delete_here(k))
    k.group("copies", lambda: copies(k))


class Tree:
    """explicit tree shapes over a symbolic heap: ('o', name, height) is an arbitrary sub-tree of that height, ('n', name, left, right) a node"""

    def __init__(self, w):
        self.w, self.cx = w, w.cx
        self.st = {}
        self.ghost = {}
        self.fresh = {}
        vs = self.cx.F.adts[NODE[1]][1][0][2]
        self.fi = {}
        for i, (fname, fty, _) in enumerate(vs):
            t = tsub(fty, {0: TPARAM})
            self.fi["value" if t == TPARAM else fname] = i
        if set(self.fi) != {"value", "height", "left", "right"}:
            raise Undecided("AVLTreeNode has another representation")

    def cell(self, name, fields):
        root = ("S", ("cell", name))
        self.cx.rtype[root] = NODE
        a = [None] * 4
        for f, v in fields.items():
            a[self.fi[f]] = v
        self.st[root] = mk("struct", NODE[1], *a)
        return mk("rc", root)

    def build(self, s):
        if s[0] == "o":
            if s[2] is not None and isconst(num(s[2])) and cval(num(s[2])) < 0:
                return NONE
            rc = self.cell(s[1], {"value": nsym(s[1] + ".value"), "height": num(s[2]), "left": self.cx.sym(OPT, s[1] + ".left"), "right": self.cx.sym(OPT, s[1] + ".right")})
            self.ghost[rc.a[0]] = (mk("symseq", "in-order of " + s[1], mk("ty", TPARAM)), num(s[2]))
            return SOME(rc)
        l, r = self.build(s[2]), self.build(s[3])
        return SOME(self.cell(s[1], {"value": val(s[1]), "height": num(height(s)), "left": l, "right": r}))

    def fld(self, st, rc, f):
        v = self.cx.get(st, rc.a[0])
        return self.cx.field(v, ("f", self.fi[f]))

    def walk(self, st, t, depth=0):
        """(in-order contents, height, balanced and heights right)"""
        if depth > 6:
            raise Cyclic()
        if t.k != "enum":
            raise Undecided("the tree's shape is not determined")
        if t.a[1] == 0:
            return EMPTY, num(-1), TRUE
        rc = t.a[2]
        if rc.k == "ref" and not rc.a[1]:
            rc = mk("rc", rc.a[0])
        if rc.k != "rc":
            raise Undecided("the tree's shape is not determined")
        if rc.a[0] in self.ghost:
            s, h = self.ghost[rc.a[0]]
            return s, h, EQ(self.fld(st, rc, "height"), h)
        if self.fld(st, rc, "left") in self.fresh:
            s, h = self.fresh[self.fld(st, rc, "left")]
            return s, h, EQ(self.fld(st, rc, "height"), h)
        l, r = self.walk(st, self.fld(st, rc, "left"), depth + 1), self.walk(st, self.fld(st, rc, "right"), depth + 1)
        h = MAX(l[1], r[1]) + 1
        return (seq_cat(seq_cat(l[0], seqlit(self.fld(st, rc, "value"))), r[0]), h,
                AND(l[2], r[2], EQ(self.fld(st, rc, "height"), h), LE(l[1] - r[1], 1), LE(r[1] - l[1], 1)))


class Cyclic(Exception):
    pass


def val(name):
    return nsym(name + ".value")


def height(s):
    if s[0] == "o":
        return num(s[2])
    a, b = height(s[2]), height(s[3])
    return ITE(GE(a, b), a, b) + 1


def seqof(s):
    if s[0] == "o":
        return EMPTY if cneg(num(s[2])) else mk("symseq", "in-order of " + s[1], mk("ty", TPARAM))
    return seq_cat(seq_cat(seqof(s[2]), seqlit(val(s[1]))), seqof(s[3]))


def cneg(h):
    return isconst(h) and cval(h) < 0


def mirror(s):
    return s if s[0] == "o" else ("n", s[1], mirror(s[3]), mirror(s[2]))


BASES = [num(-1), num(0), isym("h") + 1]


def shapes(name, h, depth, lean=(0, -1, 1)):
    """balanced trees of height h opened `depth` levels on the given leanings (0 even, -1 right child lower, 1 left child lower)"""
    if depth == 0 or cneg(h):
        yield ("o", name, h)
        return
    m = h - 1
    for l in lean:
        hl, hr = (m - 1 if l == 1 else m), (m - 1 if l == -1 else m)
        if (isconst(hl) and cval(hl) < -1) or (isconst(hr) and cval(hr) < -1):
            continue
        for a in (shapes(name + "l", hl, depth - 1) if l == -1 or depth > 1 else [("o", name + "l", hl)]):
            for b in (shapes(name + "r", hr, depth - 1) if l == 1 or depth > 1 else [("o", name + "r", hr)]):
                yield ("n", name, a, b)


def machine(k, opt="DisableSameNode"):
    w = W(k)
    t = Tree(w)
    AV = adt(MOD + "AVLTree")
    v = w.val("AVLTree::<T>::new", w.en("AVLTreeOption", opt))
    flds = w.cx.F.adts[AV[1]][1][0][2]
    i = [i for i, (n, ty, _) in enumerate(flds) if tsub(ty, {0: TPARAM})[0] == "adt" and short(ty[1]) == "Option"]
    if len(i) != 1:
        raise Undecided("AVLTree has another representation")
    t.i = i[0]
    t.av = v
    t.AV = AV
    return w, t


def settree(k, w, t, root):
    v = w.cx.setfield(t.av, ("f", t.i), root)
    return k.mutarg(w.cx, t.st, "tree", v, t.AV)


def rootof(w, t, st):
    return w.cx.field(w.cx.get(st, ("S", ("arg", "tree"))), ("f", t.i))


def small(k):
    for opt in ("DisableSameNode", "SameNodeInsertRight"):
        w, t = machine(k, opt)
        r = w.last
        k.same("a new tree is empty (%s)" % opt, r, w.cx.field(t.av, ("f", t.i)), NONE)
        x = nsym("value")
        ref = settree(k, w, t, NONE)
        r = k.call(w.cx, "AVLTree::<T>::insert", [ref, x], None, t.st)
        s, h, ok = t.walk(r.st, rootof(w, t, r.st))
        k.same("inserting into an empty tree gives that element (%s)" % opt, r, mk("struct", "()", s, h, ok), mk("struct", "()", seqlit(x), num(0), TRUE))
        k.nopanic("inserting into an empty tree never panics (%s)" % opt, r)
    w, t = machine(k)
    ref = settree(k, w, t, NONE)
    r = k.call(w.cx, "AVLTree::<T>::delete", [ref, nsym("value")], None, t.st)
    k.same("deleting from an empty tree leaves it empty", r, rootof(w, t, r.st), NONE)
    k.nopanic("deleting from an empty tree never panics", r)
    w, t = machine(k)
    ref = settree(k, w, t, t.build(("o", "X", isym("h"))))
    r = k.call(w.cx, "AVLTree::<T>::clear", [ref], None, t.st)
    k.same("clear empties the tree", r, rootof(w, t, r.st), NONE)
    k.nopanic("clear never panics", r)


def traversal(k):
    for s in (("o", "X", num(-1)), ("n", "X", ("o", "L", num(-1)), ("o", "R", num(-1))), ("n", "X", ("o", "L", isym("h")), ("o", "R", isym("h"))),
              ("n", "X", ("o", "L", num(0)), ("o", "R", num(-1))), ("n", "X", ("o", "L", num(-1)), ("o", "R", num(0)))):
        w, t = machine(k)
        ref = settree(k, w, t, t.build(s))

        def hook(cx, fn, env, args, dargs, st, site):
            a = [x for x in args if x.k == "enum"]
            m = [x for x in args if x.k == "ref"]
            if len(a) != 1 or len(m) != 1:
                return None
            cur = cx.load(st, m[0])
            cx.store(st, m[0], seq_cat(cur, t.walk(st, a[0])[0]))
            return UNIT, TRUE
        w.cx.ufhook = hook
        r = k.call(w.cx, "AVLTree::<T>::mid_order_traversal", [ref], None, t.st)
        k.same("the traversal lists the left part, the node and the right part, in that order", r, r.v, seqof(s))
        k.nopanic("the traversal never panics", r)


class Rec:
    """the recursive call's contract"""

    def __init__(self, t, result):
        self.t, self.result, self.calls, self.held = t, result, [], []

    def cells(self, st, v, depth=0):
        if v.k != "enum" or v.a[1] == 0 or depth > 6 or v.a[2].k not in ("rc", "ref"):
            return set()
        root = v.a[2].a[0]
        if root in self.t.ghost:
            return {root}
        return {root} | self.cells(st, self.t.fld(st, v.a[2], "left"), depth + 1) | self.cells(st, self.t.fld(st, v.a[2], "right"), depth + 1)

    def __call__(self, cx, fn, env, args, dargs, st, site):
        a = [x for x in args if x.k == "enum" and x.a[0] == "Option"]
        n = [x for x in args if x.k == "num"]
        if len(a) != 1 or len(n) != 1:
            return None
        o = [cx.load(st, x) for x in args if x.k == "ref"]
        self.calls.append((a[0], n[0], o))
        # the call may write to any cell of the sub-tree it is given
        for key in st:
            if key[0] == "B" and st[key] is not ZERO and key[1] in self.cells(st, a[0]):
                self.held.append("%s:%s" % site)
        old = dict(self.t.st)
        self.t.st = st
        v = self.t.build(self.result)
        self.t.st = old
        return v, TRUE


def check(k, name, opts, side, x, rec_shape, want, hts, value, opt, w, t, fn):
    """run the operation on the tree x with the recursive call (into `side`) yielding rec_shape"""
    child = None
    root = t.build(x)
    rc = root.a[2]
    if side:
        child = t.fld(t.st, rc, side)
    ref = settree(k, w, t, root)
    rec = Rec(t, rec_shape)
    w.cx.ufhook = rec
    r = k.call(w.cx, fn, [ref, value], None, t.st)
    try:
        s, h, ok = t.walk(r.st, rootof(w, t, r.st))
    except Cyclic:
        k.ob(name + ": contents", r.site(), "refuted", "for the shape %s the links form a cycle" % shape_str(x))
        return
    B = k.obs
    k.same(name + ": contents", r, s, want)
    k.same(name + ": balanced, stored heights right", r, ok, TRUE)
    k.same(name + ": height within one of before", r, OR(*[EQ(h, y) for y in hts]), TRUE)
    k.nopanic(name + ": never panics", r)
    if rec.held:
        k.ob(name + ": no cell of the sub-tree stays borrowed during the recursion", rec.held[0], "refuted", "for the shape %s a cell of the sub-tree handed to the recursive call is still borrowed there: the call panics when it writes to it" % shape_str(x))
    if side:
        good = len(rec.calls) == 1 and rec.calls[0][0] is child and (rec.calls[0][1] is value) and (opt is None or rec.calls[0][2] == [opt])
        k.ob(name + ": descends once, into the side of the value", r.site(), "proved" if good else "refuted", None if good else "for the shape %s the recursive calls are %s, expected the %s child with the same value and option" % (shape_str(x), [[show(c[0])[:60], show(c[1])[:40], [show(o)[:40] for o in c[2]]] for c in rec.calls], side))
    else:
        good = not rec.calls
        k.ob(name + ": does not descend", r.site(), "proved" if good else "refuted", None if good else "for the shape %s the operation descends into %s" % (shape_str(x), [show(c[0])[:60] for c in rec.calls]))


def shape_str(s):
    return (s[1] + ":" + show(num(s[2]))) if s[0] == "o" else "%s(%s,%s)" % (s[1], shape_str(s[2]), shape_str(s[3]))


def cases(delta):
    """(sub-tree after the recursive call, its height before, the other sub-tree's height): every balanced situation reachable with the
    height changing by 0 or delta"""
    for b in BASES:
        for d in (-2, -1, 0, 1, 2):  # new height of the child minus the other's
            if d >= 0:
                o, t = b, b + d
            else:
                o, t = b - d, b
            for before in (t, t - delta):
                if cneg(before + 1) or (isconst(before) and cval(before) < -1):
                    continue
                e = before - o
                if not (isconst(e) and abs(cval(e)) <= 1):
                    continue
                if delta == 1 and cneg(t):
                    continue  # after an insertion the sub-tree is not empty
                if d == 2:
                    for s in shapes("C", t, 2):
                        yield s, before, o, None
                elif d == -2:
                    for s in shapes("O", o, 2):
                        yield ("o", "C", t), before, o, s
                else:
                    yield ("o", "C", t), before, o, None


def step(k, fn, label, delta, value, side, opt, mk_opt):
    n = 0
    for c, before, o, oshape in cases(delta):
        w, t = machine(k, mk_opt or "DisableSameNode")
        sub = ("o", "S", before)
        oth = oshape or ("o", "O", o)
        x = ("n", "X", sub, oth) if side == "left" else ("n", "X", oth, sub)
        if side == "right":
            c = mirror(c)
            if oshape:
                oth = mirror(oshape)
                x = ("n", "X", oth, sub)
        after = ("n", "X", c, oth) if side == "left" else ("n", "X", oth, c)
        hx = height(x)
        check(k, label, None, side, x, c, seqof(after), [hx, hx + delta], value, w.en("AVLTreeOption", mk_opt) if mk_opt else None, w, t, fn)
        n += 1
    return n



def insert(k, opt):
    x = val("X")
    d = nnsym("gap") + 1  # elements are only compared: any positive gap
    f = "AVLTree::<T>::insert"
    step(k, f, "insert a smaller value (%s)" % opt, 1, x - d, "left", True, opt)
    step(k, f, "insert a greater value (%s)" % opt, 1, x + d, "right", True, opt)
    if opt == "SameNodeInsertRight":
        step(k, f, "insert an equal value (%s)" % opt, 1, x, "right", True, opt)
    else:
        for b in BASES:
            for e in (-1, 0, 1):
                l, r_ = (b, b + e) if e >= 0 else (b + 1, b)
                w, t = machine(k, opt)
                s = ("n", "X", ("o", "L", l), ("o", "R", r_))
                check(k, "insert an equal value (%s)" % opt, None, None, s, ("o", "C", num(0)), seqof(s), [height(s)], x, None, w, t, f)


def delete(k):
    x = val("X")
    d = nnsym("gap") + 1  # elements are only compared: any positive gap
    f = "AVLTree::<T>::delete"
    step(k, f, "delete a smaller value", -1, x - d, "left", True, None)
    step(k, f, "delete a greater value", -1, x + d, "right", True, None)


def delete_here(k):
    x = val("X")
    f = "AVLTree::<T>::delete"
    E = ("o", "E", num(-1))
    leaf = lambda n: ("n", n, E, E)
    for s, want, hs in ((leaf("X"), EMPTY, [num(-1)]), (("n", "X", leaf("L"), E), seqlit(val("L")), [num(0)]), (("n", "X", E, leaf("R")), seqlit(val("R")), [num(0)])):
        w, t = machine(k)
        check(k, "delete a node with at most one child", None, None, s, E, want, hs, x, None, w, t, f)
    # two children: the successor is the leftmost element of the right sub-tree, at depth 0, 1, 2
    for right, succ, oth in ((leaf("R"), "R", num(0)), (("n", "R", E, leaf("Q")), "R", num(0)), (("n", "R", leaf("Q"), E), "Q", num(1)),
                             (("n", "R", leaf("Q"), ("o", "U", num(0))), "Q", num(1)),
                             (("n", "R", ("n", "Q", leaf("P"), E), ("o", "U", num(1))), "P", num(2)), (("n", "R", ("n", "Q", E, leaf("P")), ("o", "U", num(1))), "Q", num(2)),
                             (("n", "R", ("n", "Q", leaf("P"), ("o", "V", num(0))), ("o", "U", num(1))), "P", num(1))):
        hr = height(right)
        for ho in (hr - 1, hr, hr + 1):
            for na in (hr, hr - 1):
                if cneg(na) and False:
                    continue
                dd = cval(na - ho)
                cs = [(("o", "C", na), s) for s in shapes("O", ho, 2)] if dd == -2 else [(("o", "C", na), ("o", "O", ho))]
                if cneg(ho):
                    continue
                for c, o in cs:
                    w, t = machine(k)
                    xs = ("n", "X", o, right)
                    root = t.build(xs)
                    ref = settree(k, w, t, root)
                    rec = Rec(t, c)
                    w.cx.ufhook = rec
                    child = t.fld(t.st, root.a[2], "right")
                    r = k.call(w.cx, f, [ref, x], None, t.st)
                    nm = "delete a node with two children: "
                    try:
                        s, h, ok = t.walk(r.st, rootof(w, t, r.st))
                    except Cyclic:
                        k.ob(nm + "contents", r.site(), "refuted", "for the shape %s the links form a cycle" % shape_str(xs))
                        continue
                    # without a removal by recursion, the operation has taken the successor out of the spelled-out sub-tree itself
                    want = seq_cat(seq_cat(seqof(o), seqlit(val(succ))), seqof(c)) if rec.calls else seq_cat(seqof(o), seqof(right))
                    k.same(nm + "the successor takes its place", r, s, want)
                    k.same(nm + "balanced, stored heights right", r, ok, TRUE)
                    k.same(nm + "height within one of before", r, OR(EQ(h, height(xs)), EQ(h, height(xs) - 1)), TRUE)
                    k.nopanic(nm + "never panics", r)
                    if rec.held:
                        k.ob(nm + "no cell of the sub-tree stays borrowed during the recursion", rec.held[0], "refuted", "for the shape %s a cell of the sub-tree handed to the recursive call is still borrowed there: the call panics when it writes to it (elements equal to the successor)" % shape_str(xs))
                    good = not rec.calls or len(rec.calls) == 1 and rec.calls[0][0] is child and rec.calls[0][1] is val(succ)
                    k.ob(nm + "the successor is removed from the right sub-tree once", r.site(), "proved" if good else "refuted", None if good else "for the shape %s the recursive calls are %s" % (shape_str(xs), [[show(c[0])[:60], show(c[1])[:40]] for c in rec.calls]))


def roots(t, st, v, depth=0):
    """the cells a (sub-)tree is made of"""
    if v.k != "enum":
        raise Undecided("the tree's shape is not determined")
    if v.a[1] == 0 or depth > 6:
        return set()
    rc = v.a[2]
    if rc.a[0] in t.ghost or t.fld(st, rc, "left") in t.fresh:
        return {rc.a[0]}
    return {rc.a[0]} | roots(t, st, t.fld(st, rc, "left"), depth + 1) | roots(t, st, t.fld(st, rc, "right"), depth + 1)


def copies(k):
    """a copy has the same contents in cells of its own; recursive copies of sub-trees are replaced by that contract"""
    h = isym("h")
    E = ("o", "E", num(-1))
    leaf = lambda n: ("n", n, E, E)
    f = method(k, "AVLTree", "Clone", "clone", optional=True)
    if f is None:
        k.ob("a tree can be copied or not at all", MOD + "AVLTree", "proved", None)
        return
    for s, opt in [(x, o) for o in ("DisableSameNode", "SameNodeInsertRight") for x in (None, leaf("X"), ("n", "X", ("o", "L", h), ("o", "R", h)), ("n", "X", leaf("L"), E), ("n", "X", E, leaf("R")),
              ("n", "X", ("n", "L", ("o", "P", h), ("o", "Q", h)), ("n", "R", ("o", "U", h), ("o", "V", h + 1))))]:
        w, t = machine(k, opt)
        root = NONE if s is None else t.build(s)
        ref = settree(k, w, t, root)

        def hook(cx, fn, env, args, dargs, st, site):
            for a in args:
                v = cx.load(st, a) if a.k == "ref" else a
                g = v.a[2] if v.k == "enum" and v.a[0] == "Option" and v.a[1] == 1 else a
                if v.k == "enum" and v.a[0] == "Option" and v.a[1] == 0:
                    return None
                if g.k in ("rc", "ref") and g.a[0] in t.ghost:
                    o = t.ghost[g.a[0]]
                    l = mk("symseq", "sub-tree of a copy of %s" % (g.a[0],), mk("ty", TPARAM))
                    t.fresh[l] = o
                    c = cx.get(st, g.a[0])
                    c = cx.setfield(c, ("f", t.fi["left"]), l)
                    c = cx.setfield(c, ("f", t.fi["right"]), l)
                    if v.k == "struct" and not (v.a and short(v.a[0]) == "AVLTree"):
                        return c, TRUE
                    r = models.tmp(cx, NODE)
                    st[r] = c
                    return SOME(mk("rc", r)), TRUE
            return None
        w.cx.ufhook = hook
        nm = "a copy of the tree %s (%s)" % ("(empty)" if s is None else shape_str(s), opt)
        r = k.call(w.cx, f, [ref], None, t.st)
        k.nopanic(nm + ": never panics", r)
        v = r.v
        if v.k != "struct":
            raise Undecided("the copy's shape is not determined")
        croot = w.cx.field(v, ("f", t.i))
        a, b = t.walk(r.st, rootof(w, t, r.st)), t.walk(r.st, croot)
        want = mk("struct", "()", seqof(s) if s else EMPTY, height(s) if s else num(-1), TRUE)
        k.same(nm + " has the same elements", r, mk("struct", "()", *b), want)
        k.same(nm + " leaves the tree unchanged", r, mk("struct", "()", *a), want)
        k.same(nm + " keeps the duplicate rule", r, w.cx.setfield(v, ("f", t.i), NONE), w.cx.setfield(t.av, ("f", t.i), NONE))
        shared = roots(t, r.st, rootof(w, t, r.st)) & roots(t, r.st, croot)
        k.ob(nm + " shares no node with it", r.site(), "refuted" if shared else "proved",
             "the copy of %s shares the node(s) %s with the tree: an insertion or deletion in one changes the other" % (shape_str(s) if s else "(empty)", ", ".join(sorted(str(x[1]) for x in shared))) if shared else None)
