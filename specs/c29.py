from base import *
import evalv

FLOOR = 60
F64 = ("prim", "f64")
WK = "wasm::kernel::"


def run(k):
    k.rules = ["every operation exposed to JavaScript yields exactly what the kernel operation of that name yields on the wrapped values, in the same order and orientation of arguments", "a mutating operation changes the wrapped value exactly as the kernel operation does", "no wrapper panics or has an effect of its own"]
    k._facts["host"] = k.facts("wasm")
    for n, f in (("values", values), ("segments", segments), ("collections", collections), ("algorithms", algorithms)):
        k.group(n, lambda f=f: f(Js(k)))


# operations kept uninterpreted (any others are compared through their own summaries)
OPAQUE = ("algorithm::", "kernel::polygon_2::")
NAMES = {"Point2": "point_2", "Vector2": "vector_2", "LineSegment2": "line_segment_2", "CircleSegment2": "circle_segment_2", "ArcSegment2": "arc_segment_2", "Triangle2": "triangle_2", "Polygon2": "polygon_2"}


def field_of(ty):
    return "kernel_" + NAMES[ty]


class Js(W):
    def __init__(self, k):
        W.__init__(self, k, ())
        self.cx.uf = {f["p"] for f in k.facts("wasm").d["fns"] if f.get("body") and f["p"].startswith(OPAQUE) and f["kind"] != "Closure" and "wasm_bindgen" not in f["p"]}
        evalv.FREE.update(p for p in self.cx.uf if "earcut_2" in p or "sweep_" in p or "::ConvexHull2" in p)
        self.wt = {n: self.adt(WK + m + "::" + n) for n, m in NAMES.items()}

    def adt(self, p):
        if p not in self.cx.F.adts:
            self.k.ob("anchor " + p, p, "refuted", "%s does not exist in the analysed crate" % p)
            raise Stop()
        return ("adt", p, ())

    def obj(self, ty, name):
        """an arbitrary wrapped value and the kernel value in it"""
        v = self.cx.sym(self.wt[ty], name)
        return v, self.inner(ty, v)

    def inner(self, ty, v):
        fs = self.cx.F.adts[self.wt[ty][1]]
        if v.k == "struct" and len(v.a) == 2:
            return v.a[1]
        raise Undecided("the wrapper %s has another shape" % ty)

    def wrap(self, ty, v):
        return mk("struct", self.wt[ty][1], v)

    def w(self, path, *args):
        f = self.k.fn(path)
        return self.k.call(self.cx, f, list(args), {0: F64})

    def kern(self, path, *args, kinds=(), st=None):
        """the kernel operation on the given values (kinds: the segment types its generic parameters stand for)"""
        f = self.k.fn(path) if isinstance(path, str) else path
        env = dict(enumerate((F64,) + tuple(kinds)))
        r = self.k.call(self.cx, f, list(args), {g["i"]: env[g["i"]] for g in f["generics"]}, st)
        return r.v if st is None else r

    def kt(self, ty, name, *args):
        """the kernel's trait or inherent operation"""
        fs = [f for f in self.k.facts("wasm").d["fns"] if f.get("body") and (f["p"] == "kernel::%s::%s::<T>::%s" % (NAMES[ty], ty, name) or (f["p"].startswith("<kernel::%s::%s<T> as " % (NAMES[ty], ty)) and f["p"].endswith(">::" + name)))]
        if len(fs) != 1:
            raise Undecided("the kernel operation %s of %s is not unique" % (name, ty))
        return self.kern(fs[0], *args)

    def wraps(self, ty, seq):
        """each element wrapped, in order"""
        return fmap(self, seq, lambda x: pushes((TRUE, self.wrap(ty, x))), ("adt", "kernel::%s::%s" % (NAMES[ty], ty), (F64,)))

    def mut(self, ty_or_v, name="self"):
        st = {}
        v = self.cx.sym(ty_or_v, name)
        return st, self.k.mutarg(self.cx, st, name, v, ty_or_v), v

    def after(self, r, ref):
        return self.cx.load(r.st, ref)

    def eq(self, what, r, want, ignore=()):
        self.k.same("%s is the kernel's" % what, r, r.v, want)
        self.k.nopanic("%s never panics by itself" % what, r, ignore=ignore + ("inside kernel::", "inside algorithm::"))  # the kernel operation's own panics are the kernel's
        self.k.pure("%s has no effect of its own" % what, r)


def values(j):
    x, y = nsym("x"), nsym("y")
    for ty in ("Point2", "Vector2"):
        m = WK + NAMES[ty] + "::" + ty + "::"
        j.eq("%s.new" % ty, j.w(m + "new", x, y), j.wrap(ty, j.kt(ty, "new", x, y)))
        a, ka = j.obj(ty, "a")
        b, kb = j.obj(ty, "b")
        for n in ("x", "y") + (("length",) if ty == "Vector2" else ()):
            j.eq("%s.%s" % (ty, n), j.w(m + n, a), j.kt(ty, n, ka))
        for n in ("equals", "distance") if ty == "Point2" else ("dot", "cross", "radian_to"):
            j.eq("%s.%s" % (ty, n), j.w(m + n, a, b), j.kt(ty, n, ka, kb))
    m = WK + "vector_2::Vector2::"
    a, ka = j.obj("Vector2", "a")
    j.eq("Vector2.normalize", j.w(m + "normalize", a), j.wrap("Vector2", j.kt("Vector2", "normalize", ka)))
    p, kp = j.obj("Point2", "p")
    q, kq = j.obj("Point2", "q")
    s, ks = j.obj("Point2", "s")
    m = WK + "point_2::Point2::"
    j.eq("Point2.get_vector", j.w(m + "get_vector", p), j.wrap("Vector2", j.kt("Vector2", "new", j.kt("Point2", "x", kp), j.kt("Point2", "y", kp))))
    j.eq("Point2.turn", j.w(m + "turn", p, q, s), j.kt("Point2", "turn", kp, kq, ks))
    m = WK + "triangle_2::Triangle2::"
    j.eq("Triangle2.new", j.w(m + "new", p, q, s), j.wrap("Triangle2", j.kt("Triangle2", "new", kp, kq, ks)))
    t, kt = j.obj("Triangle2", "t")
    for n in "abc":
        j.eq("Triangle2." + n, j.w(m + n, t), j.wrap("Point2", j.kt("Triangle2", n, kt)))
    for n in ("orientation", "area"):
        j.eq("Triangle2." + n, j.w(m + n, t), j.kt("Triangle2", n, kt))
    for n, e in (("vertices", "Point2"), ("edges", "LineSegment2")):
        j.eq("Triangle2." + n, j.w(m + n, t), j.wraps(e, j.kt("Triangle2", n, kt)))
    st, ref, v = j.mut(j.wt["Triangle2"])
    r = j.k.call(j.cx, j.k.fn(m + "reverse_orientation"), [ref], {0: F64}, st)
    st2, ref2, v2 = j.mut(("adt", "kernel::triangle_2::Triangle2", (F64,)), "inner")
    st2[ref2.a[0]] = j.inner("Triangle2", v)
    r2 = j.k.call(j.cx, j.k.fn("kernel::triangle_2::Triangle2::<T>::reverse_orientation"), [ref2], {0: F64}, st2)
    j.k.same("Triangle2.reverse_orientation is the kernel's", r, j.inner("Triangle2", j.after(r, ref)), j.after(r2, ref2))
    j.k.nopanic("Triangle2.reverse_orientation never panics by itself", r)


def segments(j):
    p, kp = j.obj("Point2", "p")
    q, kq = j.obj("Point2", "q")
    c, kc = j.obj("CircleSegment2", "c")
    u, v = nsym("u"), nsym("v")
    for ty, args, kargs in (("LineSegment2", (p, q), (kp, kq)), ("CircleSegment2", (p, u), (kp, u)), ("ArcSegment2", (c, u, v), (kc, u, v))):
        m = WK + NAMES[ty] + "::" + ty + "::"
        j.eq(ty + ".new", j.w(m + "new", *args), j.wrap(ty, j.kt(ty, "new", *kargs)))
        g, kg = j.obj(ty, "g")
        pts = {"LineSegment2": ("source", "target"), "CircleSegment2": ("center",), "ArcSegment2": ("source", "target", "center")}[ty]
        nums = {"LineSegment2": (), "CircleSegment2": ("radius",), "ArcSegment2": ("radius", "source_radian", "target_radian")}[ty]
        for n in pts:
            j.eq("%s.%s" % (ty, n), j.w(m + n, g), j.wrap("Point2", j.kt(ty, n, kg)))
        for n in nums + ("segment_type",):
            j.eq("%s.%s" % (ty, n), j.w(m + n, g), j.kt(ty, n, kg))


def collections(j):
    vec = lambda t: ("adt", "alloc::vec::Vec", (t, ("adt", "alloc::alloc::Global", ())))
    ps = j.cx.sym(vec(j.wt["Point2"]), "points")
    kps = fmap(j, ps, lambda x: pushes((TRUE, j.inner("Point2", x))), j.wt["Point2"])
    m = WK + "polygon_2::Polygon2::"
    j.eq("Polygon2.new", j.w(m + "new", ps), j.wrap("Polygon2", j.kt("Polygon2", "new", kps)))
    g, kg = j.obj("Polygon2", "g")
    for n, e in (("vertices", "Point2"), ("edges", "LineSegment2")):
        j.eq("Polygon2." + n, j.w(m + n, g), j.wraps(e, j.kt("Polygon2", n, kg)))
    for n in ("area", "is_simple", "is_convex"):
        j.eq("Polygon2." + n, j.w(m + n, g), j.kt("Polygon2", n, kg))


def algorithms(j):
    kt = lambda ty: ("adt", "kernel::%s::%s" % (NAMES[ty], ty), (F64,))
    p, kp = j.obj("Point2", "p")
    for ty in ("ArcSegment2", "CircleSegment2", "LineSegment2", "Polygon2", "Triangle2"):
        g, kg = j.obj(ty, "g")
        n = NAMES[ty]
        for f in ["locate_point_2_" + n] + (["is_point_2_on_" + n] if "Segment" in ty else []):
            m = "algorithm::location::point_2_%s::" % n
            j.eq(f, j.w("wasm::" + m + f, p, g), j.kern(m + f, kp, kg, kinds=(kt(ty),)))
    g, kg = j.obj("LineSegment2", "g")
    m = "algorithm::projection::point_2_line_segment_2::"
    f = "point_2_project_line_segment_2"
    opt = lambda x: BOT if x is BOT else SOME(j.wrap("Point2", x.a[2])) if x.a[1] == 1 else NONE
    j.eq(f, j.w("wasm::" + m + f, p, g), bind(j.kern(m + f, kp, kg, kinds=(kt("LineSegment2"),)), opt))
    poly, kpoly = j.obj("Polygon2", "g")
    IDX = j.adt("wasm::algorithm::triangulation::earcut_2::Triangle2Indices")[1]
    US = ("prim", "usize")
    tri = lambda x: mk("struct", IDX, *[j.cx.seq_get(x, num(i), US) for i in range(3)])
    m = "algorithm::triangulation::earcut_2::"
    j.eq("earcut", j.w("wasm::" + m + "earcut", poly), fmap(j, j.kern(m + "earcut_2", kpoly), lambda x: pushes((TRUE, tri(x))), ("adt", "alloc::vec::Vec", (US, ("adt", "alloc::alloc::Global", ())))), ignore=("out of bounds",))  # the kernel yields triples (C26)
    KS = ("LineSegment2", "CircleSegment2", "ArcSegment2")

    def seg(i, n):
        """a wrapped segment of the i-th type; what it holds for the other types is arbitrary"""
        g, kg = j.obj(KS[i], n)
        o = [SOME(g) if x == i else j.cx.sym(("adt", "core::option::Option", (j.wt[KS[x]],)), "%s.other%d" % (n, x)) for x in range(3)]
        return j.w(WK + "segment_2::Segment2::new", j.en("Segment2Type", KS[i]), *o).v, kg
    m = "algorithm::intersection::segment_2_segment_2::"
    for a in range(3):
        for b in range(3):
            ga, ka = seg(a, "a")
            gb, kb = seg(b, "b")
            kinds = (kt(KS[a]), kt(KS[b]))
            f = "is_segment_2_segment_2_intersected"
            j.eq("%s (%s, %s)" % (f, KS[a], KS[b]), j.w("wasm::" + m + f, ga, gb), j.kern(m + f, ka, kb, kinds=kinds))
            f = "segment_2_segment_2_intersection"
            j.eq("%s (%s, %s)" % (f, KS[a], KS[b]), j.w("wasm::" + m + f, ga, gb), j.wraps("Point2", j.kern(m + f, ka, kb, kinds=kinds)))
    stateful(j, seg, kt, KS)


def stateful(j, seg, kt, KS):
    """objects that change: what they hold and return afterwards"""
    k, cx = j.k, j.cx
    for m, n, ops in (("algorithm::intersection::sweep_segment_2_intersection::", "SweepSegment2Intersection", [("push_segment", i) for i in range(3)] + [("intersection", None)]), ("algorithm::convex_hull::convex_hull_2::", "ConvexHull2", [("convex_hull", None)])):
        wt, ktype = j.adt("wasm::" + m + n), ("adt", m + n, (F64,))
        for op, i in ops:
            args, kargs, kinds = [], [], ()
            if i is not None:
                g, kg = seg(i, "g")
                args, kargs, kinds = [g], [kg], (kt(KS[i]),)
            st, ref, v = j.mut(wt)
            r = k.call(cx, k.fn("wasm::" + m + n + "::" + op), [ref] + args, {0: F64}, st)
            st2, ref2, _ = j.mut(ktype, "inner")
            st2[ref2.a[0]] = v.a[1]
            r2 = j.kern(m + n + "::<T>::" + op, ref2, *kargs, kinds=kinds, st=st2)
            what = "%s.%s%s" % (n, op, "" if i is None else " (%s)" % KS[i])
            k.same("%s changes the object as the kernel's does" % what, r, j.after(r, ref).a[1], j.after(r2, ref2))
            k.nopanic("%s never panics by itself" % what, r)
            k.pure("%s has no effect of its own" % what, r)
            if i is None:
                k.same("%s yields the kernel's points" % what, r, r.v, j.wraps("Point2", r2.v))
    m = "algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection::"
    new = lambda t, v: mk("struct", j.adt("wasm::" + t)[1], v)
    j.eq("SweepSegment2Intersection.new", j.w("wasm::" + m + "new"), new(m[:-2], j.kern(m + "<T>::new")))
    vec = lambda t: ("adt", "alloc::vec::Vec", (t, ("adt", "alloc::alloc::Global", ())))
    ps = cx.sym(vec(j.wt["Point2"]), "points")
    m = "algorithm::convex_hull::convex_hull_2::ConvexHull2::"
    j.eq("ConvexHull2.new", j.w("wasm::" + m + "new", ps), new(m[:-2], j.kern(m + "<T>::new", fmap(j, ps, lambda x: pushes((TRUE, j.inner("Point2", x))), j.wt["Point2"]))))
