from base import *
import itertools

FLOOR = 8
PQ = adt("data_structure::priority_queue::PriorityQueue")


def run(k):
    k.rules = ["the queue's operations on a queue with arbitrary contents are the heap's (insert, remove the greatest, empty test, clear), and on queues of up to four arbitrary elements the elements come out greatest first, each exactly once"]
    k.group("order", lambda: order(k))
    k.group("state", lambda: state(k))


def machine(k):
    w = W(k)
    st = {}
    ref = k.mutarg(w.cx, st, "queue", w.val("PriorityQueue::<T>::new"), PQ)
    return w, st, ref


def op(k, w, st, ref, name, *a):
    return k.call(w.cx, "PriorityQueue::<T>::" + name, [ref] + list(a), None, st)


def ranks(n):
    """all weak orders of n elements, as rank tuples"""
    return sorted({tuple(sorted(set(t)).index(x) for x in t) for t in itertools.product(range(n), repeat=n)})


def elements(rk):
    """arbitrary elements in the given order: the smallest is arbitrary and so is every gap (elements are only compared)"""
    lv = [nsym("x")]
    for i in range(max(rk)):
        lv.append(lv[-1] + nnsym("gap%d" % i) + 1)
    return [lv[r] for r in rk]


def order(k):
    for n in (1, 2, 3, 4):
        for rk in ranks(n):
            w, st, ref = machine(k)
            xs = elements(rk)
            for x in xs:
                r = op(k, w, st, ref, "push", x)
                k.nopanic("push never panics", r)
            for i in sorted(range(n), key=lambda i: -rk[i]):
                r = op(k, w, st, ref, "is_empty")
                k.same("a queue with elements is not empty", r, r.v, FALSE)
                r = op(k, w, st, ref, "pop")
                k.same("elements come out greatest first, each once", r, r.v, SOME(xs[i]))
                k.nopanic("pop never panics", r)
            r = op(k, w, st, ref, "is_empty")
            k.same("the queue is empty after as many pops as pushes", r, r.v, TRUE)
            r = op(k, w, st, ref, "pop")
            k.same("an empty queue yields nothing", r, r.v, NONE)
    # pushes between pops
    for rk in ranks(3):
        w, st, ref = machine(k)
        xs = elements(rk)
        op(k, w, st, ref, "push", xs[0])
        op(k, w, st, ref, "push", xs[1])
        op(k, w, st, ref, "pop")
        op(k, w, st, ref, "push", xs[2])
        left = sorted([min(rk[:2]), rk[2]], reverse=True)
        for want in left:
            r = op(k, w, st, ref, "pop")
            k.same("later pushes compete with the remaining elements", r, r.v, SOME(xs[rk.index(want)]))


def state(k):
    w, st, ref = machine(k)
    r = op(k, w, st, ref, "is_empty")
    k.same("a new queue is empty", r, r.v, TRUE)
    for x in "ab":
        op(k, w, st, ref, "push", nsym(x))
    r = op(k, w, st, ref, "clear")
    k.nopanic("clear never panics", r)
    r = op(k, w, st, ref, "is_empty")
    k.same("a cleared queue is empty", r, r.v, TRUE)
    r = op(k, w, st, ref, "pop")
    k.same("a cleared queue yields nothing", r, r.v, NONE)
    # arbitrary contents: one field, a heap of the elements themselves, and each operation is the heap's
    fields = w.cx.F.adts[PQ[1]][1][0][2]
    if len(fields) == 1 and tsub(fields[0][1], {0: TPARAM})[1].endswith("BinaryHeap"):
        for name, arg in (("push", [nsym("x")]), ("pop", []), ("is_empty", []), ("clear", [])):
            w = W(k)
            st = {}
            q = w.cx.sym(PQ, "q")
            ref = k.mutarg(w.cx, st, "queue", q, PQ)
            r = op(k, w, st, ref, name, *arg)
            h0 = w.cx.field(q, ("f", 0))
            h1 = w.cx.field(w.cx.get(r.st, ("S", ("arg", "queue"))), ("f", 0))
            want = {"push": mk("bag", mk("bagbase", h0), *arg), "pop": mk("opq", ("bagrest", h0)), "is_empty": h0, "clear": mk("bag")}[name]
            # a path on which a wanted change is left out, or one is made that is not wanted, shows without looking inside
            kinds = {h0: 0, mk("bag"): 0, EMPTY: 0, want: 1}
            if all(x in kinds for x in leaves(h1)):
                h1, want = bind(h1, lambda x: const(kinds[x])), ONE
            k.same("%s changes a queue of any contents as a heap" % name, r, h1, want)
