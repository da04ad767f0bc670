from base import *
import itertools

FLOOR = 20
RC = lambda t: ("adt", "alloc::rc::Rc", (("adt", "core::cell::RefCell", (t,)),))
VTX = adt("kernel::vertex_2::Vertex2")
EDGE = adt("kernel::edge_2::Edge2")
FACE = adt("kernel::face_2::Face2")
LINKS = {"source": VTX, "target": VTX, "twin": EDGE, "next": EDGE, "prev": EDGE, "face": FACE}


def run(k):
    k.rules = ["a new edge has the given ends, no links and its kind", "each setter changes exactly its own link", "an edge's segment joins its end vertices", "adding an edge to a vertex appends exactly it"]
    k.group("new", lambda: new(k))
    k.group("links", lambda: links(k))
    k.group("segment", lambda: segment(k))
    k.group("vertex", lambda: vertex(k))
    k.group("equality", lambda: equality(k))
    k.group("removal", lambda: removal(k))


def new(k):
    for ctor, kind in (("new_segment", "Segment"), ("new_arc", "Arc")):
        w = W(k)
        a, b = w.cx.sym(RC(VTX), "a"), w.cx.sym(RC(VTX), "b")
        e = w.call("Edge2::<T>::" + ctor, a, b)
        for n, want in (("source", a), ("target", b), ("twin", NONE), ("next", NONE), ("prev", NONE), ("face", NONE)):
            r = w.call("Edge2::<T>::" + n, e.v)
            k.same("%s: %s of the new edge" % (ctor, n), r, r.v, want)
        r = w.call("Edge2::<T>::edge_type", e.v)
        k.same("%s: kind of the new edge" % ctor, r, r.v, w.en("Edge2Type", kind))


def links(k):
    for n, ty in LINKS.items():
        w = W(k)
        e = w.cx.sym(EDGE, "e")
        before = {m: w.val("Edge2::<T>::" + m, e) for m in list(LINKS) + ["edge_type"]}
        x = w.cx.sym(RC(ty), "x")
        st = {}
        ref = k.mutarg(w.cx, st, "e", e, EDGE)
        rr = k.call(w.cx, k.fn("Edge2::<T>::set_" + n), [ref, x], None, st)
        e2 = w.cx.get(rr.st, ("S", ("arg", "e")))
        for m in before:
            r = w.call("Edge2::<T>::" + m, e2)
            want = before[m] if m != n else (x if n in ("source", "target") else SOME(x))
            k.same("set_%s: %s afterwards" % (n, m), rr, r.v, want)
        k.nopanic("set_%s never panics" % n, rr)


OPTIONAL = ["twin", "next", "prev", "face"]


def linked(k, w, st, e, n, which):
    """the edge with some of its optional links set to arbitrary objects, in any way of linking"""
    ref = k.mutarg(w.cx, st, n + "'", e, EDGE)
    for m in which:
        st = k.call(w.cx, k.fn("Edge2::<T>::set_" + m), [ref, w.cx.sym(RC(LINKS[m]), n + "." + m)], None, st).st
    return w.cx.get(st, ("S", ("arg", n + "'"))), st


def segment(k):
    for size in range(len(OPTIONAL) + 1):
        for which in itertools.combinations(OPTIONAL, size):
            w = W(k)
            st = {}
            [(e, pa, pb)] = segedges(k, w, st, ["e"])
            e, st = linked(k, w, st, e, "e", which)
            r = k.call(w.cx, k.fn("Edge2::<T>::to_segment"), [e], None, st)
            g = r.v
            with_ = " with its %s set" % " and ".join(which) if which else ""
            ptcmp(k, "the segment of an edge%s starts at its source vertex" % with_, r, w.rd(w.tval("LineSegment2", "Segment2", "source", g)), pa)
            ptcmp(k, "the segment of an edge%s ends at its target vertex" % with_, r, w.rd(w.tval("LineSegment2", "Segment2", "target", g)), pb)
            if size:
                st2 = dict(r.st)
                [(f, c, d)] = segedges(k, w, st2, ["f"])
                r = k.call(w.cx, method(k, "Edge2", "PartialEq", "eq"), [e, f], None, st2)
                k.same("a segment edge%s equals another iff their ends are at the same positions" % with_, r, r.v, AND(peq(pa, c), peq(pb, d)))
    # the ends in use are those set last
    w = W(k)
    st = {}
    (e, _, _), (_, pa, pb) = segedges(k, w, st, ["e", "f"])
    ref = k.mutarg(w.cx, st, "m", e, EDGE)
    for m in ("source", "target"):
        st = k.call(w.cx, k.fn("Edge2::<T>::set_" + m), [ref, mk("ref", ("S", ("arg", "f." + m)), ())], None, st).st
    r = k.call(w.cx, k.fn("Edge2::<T>::to_segment"), [w.cx.get(st, ("S", ("arg", "m")))], None, st)
    ptcmp(k, "the segment of an edge starts at the source vertex set last", r, w.rd(w.tval("LineSegment2", "Segment2", "source", r.v)), pa)
    ptcmp(k, "the segment of an edge ends at the target vertex set last", r, w.rd(w.tval("LineSegment2", "Segment2", "target", r.v)), pb)


def vertex(k):
    w = W(k)
    v = w.cx.sym(VTX, "v")
    old = w.val("Vertex2::<T>::edges", v)
    x = w.cx.sym(RC(EDGE), "x")
    st = {}
    ref = k.mutarg(w.cx, st, "v", v, VTX)
    rr = k.call(w.cx, k.fn("Vertex2::<T>::add_edge"), [ref, x], None, st)
    v2 = w.cx.get(rr.st, ("S", ("arg", "v")))
    r = w.call("Vertex2::<T>::edges", v2)
    k.same("add_edge appends exactly the given edge", rr, r.v, seq_cat(old, seqlit(x)))
    k.same("add_edge keeps the position (x)", rr, w.val("Vertex2::<T>::x", v2), w.val("Vertex2::<T>::x", v))
    k.same("add_edge keeps the position (y)", rr, w.val("Vertex2::<T>::y", v2), w.val("Vertex2::<T>::y", v))
    n = w.val("Vertex2::<T>::new", nsym("x"), nsym("y"))
    r = w.call("Vertex2::<T>::edges", n)
    k.same("a new vertex has no edges", r, seq_len(r.v), ZERO)


def segedges(k, w, st, names):
    """segment edges between vertices at arbitrary positions: (edge value, source, target)"""
    out = []
    for n in names:
        pa, pb = Pt(nsym(n + ".sx"), nsym(n + ".sy")), Pt(nsym(n + ".tx"), nsym(n + ".ty"))
        ra = k.mutarg(w.cx, st, n + ".source", w.val("Vertex2::<T>::new", pa.x, pa.y), VTX)
        rb = k.mutarg(w.cx, st, n + ".target", w.val("Vertex2::<T>::new", pb.x, pb.y), VTX)
        out.append((w.val("Edge2::<T>::new_segment", ra, rb), pa, pb))
    return out


def equality(k):
    w = W(k)
    st = {}
    (e, a, b), (f, c, d) = segedges(k, w, st, ["e", "f"])
    r = k.call(w.cx, method(k, "Edge2", "PartialEq", "eq"), [e, f], None, st)
    k.same("segment edges are equal iff their ends are at the same positions", r, r.v, AND(peq(a, c), peq(b, d)))
    g = w.val("Edge2::<T>::new_arc", *[w.cx.sym(RC(VTX), x) for x in ("p", "q")])
    r = k.call(w.cx, method(k, "Edge2", "PartialEq", "eq"), [e, g], None, st)
    k.same("edges of different kinds are never equal", r, r.v, FALSE)
    k.nopanic("comparing edges of different kinds never panics", r)
    enum_eq(k, w, "Edge2Type")


def removal(k):
    """removing an edge leaves exactly the edges unequal to it, in their order"""
    for n in (1, 2, 3):
        w = W(k)
        st = {}
        es = segedges(k, w, st, ["x"] + ["e%d" % i for i in range(n)])
        rs = [k.mutarg(w.cx, st, "edge%d" % i, e[0], EDGE) for i, e in enumerate(es)]
        ref = k.mutarg(w.cx, st, "v", w.val("Vertex2::<T>::new", nsym("vx"), nsym("vy")), VTX)
        for x in rs[1:]:
            rr = k.call(w.cx, k.fn("Vertex2::<T>::add_edge"), [ref, x], None, st)
            st = rr.st
        rr = k.call(w.cx, k.fn("Vertex2::<T>::remove_edge"), [ref, rs[0]], None, st)
        v2 = w.cx.get(rr.st, ("S", ("arg", "v")))
        r = w.call("Vertex2::<T>::edges", v2)
        x = es[0]
        want = pushes(*[(NOT(AND(peq(e[1], x[1]), peq(e[2], x[2]))), q) for e, q in zip(es[1:], rs[1:])])
        k.same("removing an edge from a vertex with %d edges keeps exactly the others, in order" % n, rr, r.v, want)
        k.nopanic("removing an edge from a vertex with %d edges never panics" % n, rr)
