from base import *

FLOOR = 10
INT = "algorithm::intersection::"


def run(k):
    k.rules = ["two lines meet in the solution of their equations unless their normals are parallel within tolerance", "a line meets a ray in the point of the ray's line that lies on the forward side", "each predicate is exactly 'there is an intersection'"]
    k.group("line-line", lambda: ll(k))
    k.group("line-ray", lambda: lr(k))


def some(v):
    return cleanb(cond_of(v, lambda x: x.k == "enum" and x.a[1] == 1))


def payload(w, v):
    return w.rd(w.cx.field(v, ("v", 1, 0)))


def ll(k):
    w = W(k)
    a, b = w.line("l"), w.line("m")
    f = INT + "line_2_line_2::line_2_line_2_intersection"
    r = w.call(f, a.v, b.v)
    det = a.a * b.b - b.a * a.b
    par = near(det, 0)
    k.same("two lines intersect iff they are not parallel within tolerance", r, some(r.v), NOT(par))
    q = payload(w, r.v)
    want = Pt((a.b * b.c - b.b * a.c) / det, (b.a * a.c - a.a * b.c) / det)
    ptcmp(k, "the intersection of two lines solves both equations", r, q, want, pre=NOT(par))
    for n, l in (("first", a), ("second", b)):
        k.same("the intersection lies on the %s line" % n, r, l.a * q.x + l.b * q.y + l.c, ZERO, pre=NOT(par))
    s = w.call(f, b.v, a.v)
    k.same("the intersection of two lines does not depend on their order", r, s.v, r.v)
    k.nopanic("intersecting lines never panics", r)
    k.pure("intersecting lines has no side effect", r)
    p = w.call(INT + "line_2_line_2::is_line_2_line_2_intersected", a.v, b.v)
    k.same("is_line_2_line_2_intersected is 'there is an intersection'", p, p.v, some(r.v))


def lr(k):
    w = W(k)
    l, y = w.line("l"), w.ray()
    f = INT + "line_2_ray_2::line_2_ray_2_intersection"
    r = w.call(f, l.v, y.v)
    t0 = w.val("Point2::<T>::new", y.o.x + y.d.x, y.o.y + y.d.y)
    sup = w.val("Line2::<T>::from_points", y.o.v, t0)
    X = w.val(INT + "line_2_line_2::line_2_line_2_intersection", l.v, sup)
    at = w.cx.field(X, ("v", 1, 0))
    on = w.val("algorithm::location::point_2_ray_2::is_point_2_on_ray_2", at, y.v)
    direct = ITE(AND(some(X), on), bind(at, lambda x: BOT if x is BOT else SOME(x)), NONE)

    def sem():
        w2 = W(k)
        l2, o, d = w2.line("l"), w2.pt("r.origin"), w2.pt("r.direction")
        # directions of length one
        L = d.length()
        y2 = w2.val("Ray2::<T>::new", o.v, w2.val("Vector2::<T>::new", d.x, d.y))
        g = w2.call(f, l2.v, y2)
        den = (l2.a * d.x + l2.b * d.y) / L
        t = -(l2.a * o.x + l2.b * o.y + l2.c) / den
        long = GT(L * 4, 1)
        axis = AND(*[OR(EQ(z, 0), GT(Abs(z) * 8, L)) for z in (d.x, d.y)])
        fat = AND(long, axis, GT(Abs(den) * 8, 1))
        hit = mk("struct", "()", some(g.v), payload(w2, g.v).x, payload(w2, g.v).y)
        yield (g, hit, mk("struct", "()", TRUE, o.x + d.x / L * t, o.y + d.y / L * t), AND(fat, GT(t * 16, 1)), None)
        yield (g, some(g.v), FALSE, AND(fat, LT(t * 16, -1)), None)
        u = nsym("u")
        y3 = w2.val("Ray2::<T>::new", o.v, w2.val("Vector2::<T>::new", l2.b * u, -l2.a * u))
        g = w2.call(f, l2.v, y3)
        yield (g, some(g.v), FALSE, AND(GT(Abs(u) * 4, 1), GT(Abs(l2.a) + Abs(l2.b), 1), *[OR(EQ(z, 0), GT(Abs(z) * 8, 1)) for z in (l2.a, l2.b)]), None)

    k.proved_or("a line meets a ray exactly where it meets the ray's line on the forward side", r, r.v, [direct], sem)
    k.nopanic("intersecting a line with a ray never panics", r)
    k.pure("intersecting a line with a ray has no side effect", r)
    p = w.call(INT + "line_2_ray_2::is_line_2_ray_2_intersected", l.v, y.v)
    k.same("is_line_2_ray_2_intersected is 'there is an intersection'", p, p.v, some(r.v))
