from base import *

FLOOR = 26


def run(k):
    k.rules = ["f32/f64 constants have their documented values", "equals(a,b) is |a-b| < default_eps()", "every elementary function of the number trait is the standard-library function of the same name"]
    for ty, eps in (("f32", Fraction(1, 10**6)), ("f64", Fraction(1, 10**10))):
        k.group(ty, lambda: one(k, ty, eps))


def one(k, ty, eps):
    D, N = "DefaultNumberValueTrait", "NumberType"
    t = ("prim", ty)

    def c(name, *args, trait=N):
        w = W(k)
        f = method(k, ty, trait, name)
        return w.call(f, *args, env={})
    a, b = nsym("a"), nsym("b")
    for n, want in (("default", ZERO), ("zero", ZERO), ("pi", NPI)):
        r = c(n, trait=D)
        k.same("%s::%s is %s" % (ty, n, show(want)), r, r.v, want)
    r = c("default_eps", trait=D)
    got = r.v
    # the tolerance of the primitive type is a literal
    ok = got.k == "num" and isconst(got) and abs(float(cval(got)) - float(eps)) <= 1e-9 * float(eps)
    k.ob("%s::default_eps is %g" % (ty, float(eps)), r.site(), "proved" if ok else ("refuted" if got.k == "num" and isconst(got) else "undecided"), None if ok else "it is %s" % show(got))
    r = c("from_f64", a, trait=D)
    k.same("%s::from_f64 converts the value itself" % ty, r, r.v, a)
    r = c("equals", a, b)
    e = got if got.k == "num" else num(eps)
    pre = TRUE
    k.same("%s::equals is |a-b| below the tolerance" % ty, r, r.v, LT(Abs(a - b), e), sampler=near_sampler(float(eps)))
    k.pure("%s::equals has no side effect" % ty, r)
    for n, f in (("sqrt", Sqrt), ("abs", Abs), ("sin", Sin), ("cos", Cos), ("acos", Acos), ("atan", lambda x: nfn("atan", x))):
        r = c(n, a)
        k.same("%s::%s is the standard function" % (ty, n), r, r.v, f(a))
    r = c("atan2", a, b)
    k.same("%s::atan2 is the standard function" % ty, r, r.v, Atan2(a, b))


def near_sampler(eps):
    import random

    def s(env, key, kind):
        rng = random.Random(hkey(env.seed, (key, kind)))
        base = random.Random(env.seed).choice([-2.0, 0.0, 1.0, 3.0])
        return base + rng.choice([0, 0, 1, -1, 0.3, -0.3, 0.7, -0.7, 2.5, -2.5, 40, 1e5]) * eps * rng.choice([1, 1, 10, 1000])
    return s
