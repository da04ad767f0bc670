from base import *
import c20

FLOOR = 36
INT = "algorithm::intersection::"
PAIR = {"LL": "line_segment_2_line_segment_2", "CC": "circle_segment_2_circle_segment_2", "AA": "arc_segment_2_arc_segment_2",
        "LC": "line_segment_2_circle_segment_2", "LA": "line_segment_2_arc_segment_2", "CA": "circle_segment_2_arc_segment_2"}
FN = [INT + "%s::%s" % (m, n % m) for m in PAIR.values() for n in ("%s_intersection", "is_%s_intersected")]


def run(k):
    k.rules = ["intersecting two segments of any kinds is the operation for that pair of kinds, whatever the order of the arguments", "no pair of kinds aborts"]
    for a in "LCA":
        for b in "LCA":
            k.group("%s-%s" % (a, b), lambda a=a, b=b: pair(k, a, b))


def build(w, kind, n):
    return {"L": w.seg, "C": w.circle, "A": w.arc}[kind](n).v


def pair(k, A, B):
    w = W(k, FN + c20.UF)
    a, b = build(w, A, "a"), build(w, B, "b")
    env = {1: KIND[A], 2: KIND[B]}
    canon_ = A + B if A + B in PAIR else B + A
    m = PAIR[canon_]
    nm = "%s and %s" % (KN[A], KN[B])
    for f, gen, rel in ((INT + "segment_2_segment_2::segment_2_segment_2_intersection", "%s_intersection", setrel), (INT + "segment_2_segment_2::is_segment_2_segment_2_intersected", "is_%s_intersected", None)):
        r = w.call(f, a, b, env=env)
        g = INT + "%s::%s" % (m, gen % m)
        x, y = (a, b) if A + B == canon_ else (b, a)
        wants = [w.val(g, x, y, env={1: KIND[canon_[0]], 2: KIND[canon_[1]]})]
        if A == B:
            wants.append(w.val(g, y, x, env={1: KIND[A], 2: KIND[A]}))
        if rel is None:
            i = INT + "%s::%s_intersection" % (m, m)
            wants.append(NOT(EQ(seq_len(w.val(i, x, y, env={1: KIND[canon_[0]], 2: KIND[canon_[1]]})), 0)))
        k.same_any("%s of %s is the operation for these kinds" % ("the intersection" if rel else "the intersection test", nm), r, r.v, wants, sampler=samp(w), rel=rel)
        k.nopanic("%s of %s never aborts" % ("the intersection" if rel else "the intersection test", nm), r)
        k.pure("%s of %s has no side effect" % ("the intersection" if rel else "the intersection test", nm), r)


def samp(w):
    return ang_sampler
