from base import *

FLOOR = 30
MOD = "data_structure::circular_doubly_linked_list::"
LIST = adt(MOD + "CircularDoubleLinkedList")
NODE = adt(MOD + "ListNode")


def run(k):
    k.rules = ["shape analysis over rings: one, two and three nodes spelled out, and a ring of any length with only the neighbourhood of the node spelled out (the rest an arbitrary context that must stay untouched)",
               "after an insertion or deletion the links of the neighbourhood are mutually inverse, every other link, datum and cell is as before, and head, tail and length follow", "no path panics, borrow conflicts of the cells included"]
    k.group("new", lambda: new(k))
    k.group("insert", lambda: insert(k))
    k.group("delete", lambda: delete(k))


class Ring:
    def __init__(self, k):
        self.k = k
        self.w = w = W(k)
        self.cx = w.cx
        self.st = {}
        vs = self.cx.F.adts[NODE[1]][1][0][2]
        self.fi = {f[0]: i for i, f in enumerate(vs)}
        ls = self.cx.F.adts[LIST[1]][1][0][2]
        self.li = {f[0]: i for i, f in enumerate(ls)}
        if set(self.fi) != {"data", "next", "prev"} or set(self.li) != {"head", "tail", "length"}:
            raise Undecided("the list has another representation")
        self.names = {}

    def rc(self, n):
        root = ("S", ("cell", n))
        self.cx.rtype[root] = NODE
        return mk("rc", root)

    def cell(self, n, prev, nxt):
        """a node; prev/next None: not spelled out"""
        a = [None] * 3
        a[self.fi["data"]] = nsym(n + ".data")
        a[self.fi["next"]] = SOME(self.rc(nxt)) if nxt else self.cx.sym(OPT, n + ".next")
        a[self.fi["prev"]] = SOME(self.rc(prev)) if prev else self.cx.sym(OPT, n + ".prev")
        self.st[self.rc(n).a[0]] = mk("struct", NODE[1], *a)
        self.names[n] = True

    def list(self, head, tail, length):
        a = [None] * 3
        a[self.li["head"]] = SOME(self.rc(head)) if head else NONE
        a[self.li["tail"]] = SOME(self.rc(tail)) if tail else NONE
        a[self.li["length"]] = num(length)
        return self.k.mutarg(self.cx, self.st, "list", mk("struct", LIST[1], *a), LIST)

    def lst(self, st):
        return self.cx.get(st, ("S", ("arg", "list")))

    def get(self, st, n, f):
        return self.cx.field(self.cx.get(st, self.rc(n).a[0] if isinstance(n, str) else n.a[0]), ("f", self.fi[f]))

    def read(self, st, f):
        """head / tail / len through the public accessors"""
        return self.w.val("CircularDoubleLinkedList::<T>::" + f, self.lst(st))

    def snapshot(self, st):
        return {(n, f): self.get(st, n, f) for n in self.names for f in self.fi}


RCN = ("adt", "alloc::rc::Rc", (("adt", "core::cell::RefCell", (NODE,)),))
OPT = ("adt", "core::option::Option", (RCN,))


def new(k):
    g = Ring(k)
    v = g.w.val("CircularDoubleLinkedList::<T>::new")
    r = g.w.last
    for f, want in (("head", NONE), ("tail", NONE), ("len", ZERO)):
        q = g.w.call("CircularDoubleLinkedList::<T>::" + f, v)
        k.same("a new list is empty: " + f, q, q.v, want)
    ref = k.mutarg(g.cx, g.st, "list", v, LIST)
    r = k.call(g.cx, "CircularDoubleLinkedList::<T>::insert", [ref, NONE, nsym("d")], None, g.st)
    x = r.v
    verify(k, g, r, "the first insertion", {}, {x: (x, x)}, {x: nsym("d")}, SOME(x), SOME(x), ONE)
    k.nopanic("the first insertion never panics", r)


def verify(k, g, r, name, before, links, data, head, tail, length, gone=()):
    """links: rc -> (prev, next)"""
    st = r.st
    for x, (p, n) in links.items():
        k.same(name + ": previous links", r, g.get(st, x, "prev"), SOME(p))
        k.same(name + ": next links", r, g.get(st, x, "next"), SOME(n))
    for x, d in data.items():
        k.same(name + ": the new node carries the given datum", r, g.get(st, x, "data"), d)
    told = {(x, f) for x in links for f in ("prev", "next")}
    for (n, f), v in before.items():
        if (g.rc(n), f) in told or (g.rc(n) in gone and f != "data"):
            continue
        k.same(name + ": nothing else changes", r, g.get(st, n, f), v)
    k.same(name + ": head", r, g.read(st, "head"), head)
    k.same(name + ": tail", r, g.read(st, "tail"), tail)
    k.same(name + ": length", r, g.read(st, "len"), length)


def rings(g):
    """(description, prev, next, head, tail, length, head after deletion, tail after deletion) of every situation of a node X"""
    n = isym("n")
    yield "single", "X", "X", "X", "X", ONE
    yield "first of two", "A", "A", "X", "A", num(2)
    yield "second of two", "A", "A", "A", "X", num(2)
    yield "first of three", "A", "B", "X", "A", num(3)
    yield "second of three", "A", "B", "A", "B", num(3)
    yield "third of three", "A", "B", "B", "X", num(3)
    yield "first of many", "A", "B", "X", "A", n + 4
    yield "last of many", "A", "B", "B", "X", n + 4
    yield "second of many", "A", "B", "A", "Z", n + 4
    yield "second to last of many", "A", "B", "H", "B", n + 4
    yield "inside of many", "A", "B", "H", "Z", n + 5


def layout(g, p, n, head, tail, length):
    if p == "X":
        g.cell("X", "X", "X")
    elif p == n:
        g.cell("X", p, n)
        g.cell(p, "X", "X")
    else:
        g.cell("X", p, n)
        many = not isconst(length)
        # in a longer ring the outer links of the neighbours lead into the context
        g.cell(p, "C1" if many else n, "X")
        g.cell(n, "X", "C2" if many else p)
        if many:
            for c in ("C1", "C2"):
                g.cell(c, None, None)
        for e in (head, tail):
            if e not in g.names:
                g.cell(e, None, None)
    return g.list(head, tail, length)


def insert(k):
    for d, p, n, h, t, ln in rings(None):
        g = Ring(k)
        ref = layout(g, p, n, h, t, ln)
        before = g.snapshot(g.st)
        X = g.rc("X")
        r = k.call(g.cx, "CircularDoubleLinkedList::<T>::insert", [ref, SOME(X), nsym("d")], None, g.st)
        v = r.v
        N, P = g.rc(n), g.rc(p)
        links = {v: (X, N)}
        if p == "X":
            links[X] = (v, v)
        elif p == n:
            links[X] = (P, v)
            links[N] = (v, X)
        else:
            links[X] = (P, v)
            links[N] = (v, g.rc("C2") if not isconst(ln) else P)
        if v.k != "rc" or v.a[0][0] != "H":
            k.ob("insert after the %s node: a new node" % d, r.site(), "refuted", "the insertion does not return a new node but %s" % show(v)[:80])
            continue
        verify(k, g, r, "insert after the %s node" % d, before, links, {v: nsym("d")}, SOME(g.rc(h)), SOME(v) if t == "X" else SOME(g.rc(t)), num(ln) + 1)
        k.nopanic("insert after the %s node never panics" % d, r)


def delete(k):
    for d, p, n, h, t, ln in rings(None):
        g = Ring(k)
        ref = layout(g, p, n, h, t, ln)
        before = g.snapshot(g.st)
        X = g.rc("X")
        r = k.call(g.cx, "CircularDoubleLinkedList::<T>::delete", [ref, SOME(X)], None, g.st)
        N, P = g.rc(n), g.rc(p)
        links = {}
        if p == n and p != "X":
            links[N] = (N, N)
        elif p != "X":
            links[P] = (g.rc("C1") if not isconst(ln) else N, N)
            links[N] = (P, g.rc("C2") if not isconst(ln) else P)
        head = NONE if p == "X" else SOME(N) if h == "X" else SOME(g.rc(h))
        tail = NONE if p == "X" else SOME(P) if t == "X" else SOME(g.rc(t))
        verify(k, g, r, "delete the %s node" % d, before, links, {}, head, tail, num(ln) - 1, gone=(X,))
        k.nopanic("delete the %s node never panics" % d, r)
    g = Ring(k)
    ref = layout(g, "A", "B", "H", "Z", isym("n") + 5)
    before = g.snapshot(g.st)
    r = k.call(g.cx, "CircularDoubleLinkedList::<T>::delete", [ref, NONE], None, g.st)
    verify(k, g, r, "delete no node", before, {}, {}, SOME(g.rc("H")), SOME(g.rc("Z")), isym("n") + 5)
    k.nopanic("delete no node never panics", r)
