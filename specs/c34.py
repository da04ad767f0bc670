"""Effects of every operation over the call graph of the compiler's representation: no state, input or output outside the arguments."""
from base import *
import re

FLOOR = 150

PURE_STD = ("std::f32", "std::f64", "std::collections", "std::hash", "std::panicking", "std::panic", "std::rt", "std::num", "std::ascii", "std::error")
OUTSIDE = re.compile(r"^std::(io|env|fs|net|process|os|path|time|random)\b")
THREADS = re.compile(r"^std::(thread|sync)\b")
HASHITER = ("iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "into_iter", "retain", "difference", "symmetric_difference", "intersection", "union", "extract_if")
SETTLED = ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "max", "min", "max_by", "min_by", "any", "all", "count", "sum", "product", "contains", "len", "fold")
CELLWRITES = {"set", "replace", "swap", "take", "update", "replace_with", "store", "fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_xor", "fetch_max", "fetch_min", "fetch_update", "compare_exchange", "compare_exchange_weak"}


def walk_ops(f):
    """(kind, what, line, function-reference or None) for each construct of the body that could reach outside the arguments"""
    for b in [f["body"]] + list(f.get("promoted") or []):
        for bb in b["blocks"]:
            if bb.get("cleanup"):
                continue
            for s in bb["s"]:
                if "rv" in s:
                    yield from rv_ops(s["rv"], s["ln"], b)
            t = bb["t"]
            if t["k"] == "call":
                yield from opd(t["f"], t["ln"], call=True)
                for a in t["args"]:
                    yield from opd(a, t["ln"])
            elif t["k"] in ("switch", "assert"):
                yield from opd(t["o"], t["ln"])
            elif t["k"] == "other":
                yield ("other", t["d"], 0, None)


def opd(o, ln, call=False):
    if o["k"] == "const":
        if "static" in o and not o["freeze"]:
            yield ("static", o["static"], ln, None)
        t = o["ty"]
        if t["k"] == "fndef":
            yield ("call" if call else "fnref", t["p"], ln, t)
        elif t["k"] == "closure":
            yield ("closure", t["p"], ln, t)


def rv_ops(r, ln, b):
    for x in ("o", "a", "b"):
        if isinstance(r.get(x), dict):
            yield from opd(r[x], ln)
    for x in r.get("f") or []:
        if isinstance(x, dict):
            yield from opd(x, ln)
    if r["k"] == "agg" and r.get("g") == "closure":
        yield ("closure", r["p"], ln, None)
    if r["k"] == "other" and "ThreadLocalRef" in r["d"]:
        yield ("static", r["d"], ln, None)
    if r["k"] == "cast" and "Expose" in r["ck"]:
        yield ("address", r["ck"], ln, None)
    if r["k"] == "cast" and "Transmute" in r["ck"] and r["ty"].get("k") in ("int", "uint", "prim") and oty(r["o"], b) == "ref":
        yield ("address", r["ck"], ln, None)
    if r["k"] == "bin" and r["op"] in ("Lt", "Le", "Gt", "Ge", "Cmp") and "ptr" in oty(r["a"], b):
        yield ("address", "order of addresses", ln, None)


def oty(o, b):
    if o["k"] in ("copy", "move") and not o["pl"]["p"]:
        return b["locals"][o["pl"]["l"]]["ty"]["k"]
    return o["ty"]["k"] if o["k"] == "const" else ""


def hashed(t):
    return t.get("k") == "adt" and re.search(r"hash::(map|set)::\w+|Hash(Map|Set)", t["p"]) is not None


class Graph:
    def __init__(self, F):
        self.F = F
        self.fns = {f["u"]: f for f in F.d["fns"] if f.get("body")}
        self.impls = {}
        for im in F.d["impls"]:
            for n, u in im["items"]:
                self.impls.setdefault((im["trait"], n), []).append(u)
        self.kids = {}
        for f in self.fns.values():
            if f.get("parent"):
                self.kids.setdefault(f["parent"], []).append(f["u"])
        self.info = {u: self.scan(f) for u, f in self.fns.items()}

    def scan(self, f):
        """(local callees, effects, cell writes, cells created) of one body"""
        out, eff, cw, fresh, seen = [], [], [], False, set()
        names = set()
        for kind, what, ln, t in walk_ops(f):
            if kind == "static":
                eff.append(("refuted", "reads or writes the state kept in %s" % what, ln))
            elif kind == "address":
                eff.append(("refuted", "looks at an address in memory (%s)" % what, ln))
            elif kind == "other":
                if "InlineAsm" in what:
                    eff.append(("undecided", "inline assembly", ln))
            elif kind == "closure":
                out.append((what, ln))
            else:
                u, p, name = t["u"], t["p"], t.get("name", "")
                names.add(name)
                if u in self.fns:
                    out.append((u, ln))
                    continue
                a0 = (t.get("a") or [{}])[0]
                if t.get("trait"):
                    for i in self.impls.get((t["trait"], name), []):
                        if self.selfmatch(i, a0):
                            out.append((i, ln))
                    if name == "deref_mut" and a0.get("k") == "adt" and short(a0["p"]) == "RefMut":
                        cw.append((p, ln))
                    if name in ("into_iter", "next") and hashed(a0):
                        seen.add(("hash", ln))
                    if short(t["trait"]) in ("PartialOrd", "Ord", "Hash") and a0.get("k") in ("ptr", "rawptr"):
                        eff.append(("refuted", "orders or hashes addresses in memory", ln))
                    if t["local"] or not p.startswith("std::"):
                        continue
                if t["local"]:
                    if not t.get("trait") and not name.startswith("__wb") and t["k"] == "fndef" and u not in self.fns and not re.search(r"(^|::)_::|__wbg|__wbindgen", p) and not self.ctor(p):
                        eff.append(("refuted", "calls the foreign function %s" % p, ln))
                    continue
                if OUTSIDE.match(p):
                    eff.append(("refuted", "%s: %s" % ("prints or does other input/output" if "::io" in p else "consults or changes the outside world", p), ln))
                elif "LocalKey" in p:
                    eff.append(("refuted", "reads or writes thread-local state (%s)" % p, ln))
                elif THREADS.match(p):
                    if re.search(r"thread::(current|sleep|park|yield|available)|Instant|SystemTime", p):
                        eff.append(("refuted", "depends on the thread (%s)" % p, ln))
                    else:
                        eff.append(("undecided", "uses %s" % p, ln))
                elif name in ("addr", "expose_provenance") and re.search(r"ptr::(const|mut)_ptr|NonNull", p):
                    eff.append(("refuted", "looks at an address in memory (%s)" % p, ln))
                elif "hash::random" in p or "RandomState" in p and name in ("build_hasher", "hash_one"):
                    eff.append(("undecided", "draws a random seed (%s)" % p, ln))
                elif re.search(r"collections::hash::(map|set)", p) and name in HASHITER:
                    seen.add(("hash", ln))
                elif re.search(r"(volatile|core::arch|core::intrinsics::\w*volatile)", p):
                    eff.append(("undecided", "uses %s" % p, ln))
                elif p.startswith("std::") and not p.startswith(PURE_STD):
                    eff.append(("undecided", "uses %s" % p, ln))
                elif not p.startswith(("std::", "core::", "alloc::", "wasm_bindgen::")):
                    eff.append(("undecided", "calls %s of another crate" % p, ln))
                if ("cell::Cell" in p or "cell::RefCell" in p or "sync::atomic" in p) and name in CELLWRITES:
                    cw.append((p, ln))
                if name == "new" and ("::rc::Rc" in p or "cell::" in p or "sync::atomic" in p or "sync::Arc" in p):
                    fresh = True
        for _, ln in sorted(seen):
            if names & set(SETTLED):
                eff.append(("undecided", "walks a hash table, whose order is random; the order may be settled afterwards", ln))
            else:
                eff.append(("refuted", "walks a hash table, whose order is random in every run", ln))
        return out, eff, cw, fresh

    def ctor(self, p):
        """a tuple struct's or variant's constructor used as a function"""
        if p in self.F.adts:
            return True
        q = p.rsplit("::", 1)[0]
        return q in self.F.adts

    def selfmatch(self, u, ty):
        f = self.fns.get(u)
        if f is None:
            return False
        m = re.match(r"<(.*) as ", f["p"])
        if not m or ty.get("k") not in ("adt", "ref"):
            return True
        while ty.get("k") == "ref":
            ty = ty["t"]
        return ty.get("k") != "adt" or short(ty["p"]) in m.group(1)

    def reach(self, u):
        """function -> the call it is reached by (breadth first)"""
        prev = {u: None}
        q = [u]
        while q:
            x = q.pop(0)
            for y, ln in self.info[x][0] if x in self.info else []:
                if y in self.fns and y not in prev:
                    prev[y] = (x, ln)
                    q.append(y)
        return prev

    def path(self, prev, x):
        r = []
        while x is not None:
            r.append(x)
            x = prev[x][0] if prev[x] else None
        return " -> ".join(self.fns[y]["p"] for y in reversed(r))


def cells_in(F, t, depth=0, seen=()):
    """does a value of the type hold cells"""
    if depth > 8:
        return False
    k = t[0]
    if k == "ref":
        return cells_in(F, t[2], depth + 1, seen)
    if k == "adt":
        if short(t[1]) in ("RefCell", "Cell", "OnceCell", "LazyCell") or short(t[1]).startswith("Atomic"):
            return True
        if any(cells_in(F, x, depth + 1, seen) for x in t[2]):
            return True
        if t[1] in F.adts and t[1] not in seen:
            return any(cells_in(F, fty, depth + 1, seen + (t[1],)) for _, _, fs in F.adts[t[1]][1] for _, fty, _ in fs)
        return False
    if k == "tuple":
        return any(cells_in(F, x, depth + 1, seen) for x in t[1])
    if k in ("slice", "array"):
        return cells_in(F, t[1], depth + 1, seen)
    return False


def shares(F, f):
    """taken by shared reference only, and something reachable could be changed through it"""
    ts = [hty(l["ty"]) for l in f["body"]["locals"][1:1 + f["body"]["argc"]]]
    if not any(t[0] == "ref" and not t[1] and cells_in(F, t) for t in ts):
        return False
    for t in ts:
        if t[0] == "ref" and t[1]:
            return False
        if t[0] != "ref" and cells_in(F, t):
            return False
    return True


def entry(f, kind):
    p = f["p"]
    if f["kind"] not in ("Fn", "AssocFn") or re.search(r"::_::|__wb|__wasm_bindgen|::_$|^_::", p):
        return False
    if kind == "wasm":
        return p.startswith("wasm::") and f["vis"] and "wasm_bindgen" not in p and "From<" not in p
    return f["vis"] or p.startswith("<") or re.search(r"::(AVLTree|CircularDoubleLinkedList|PriorityQueue)::<T>::(mid_order_traversal|head|tail|len|is_empty)$", p) is not None


def run(k):
    k.rules = ["effect analysis: over the call graph from every public operation, with trait calls going to every implementation they can reach, no construct reads or writes a static that can change, thread-local state, an address in memory, a file, the environment, the clock or an output stream, and nothing walks a hash table in its random order",
               "an operation that takes its values by shared reference reaches no write to a cell that exists before the call"]
    for kind in ("host", "wasm"):
        k.group(kind, lambda: effects(k, kind))


def effects(k, kind):
    F = k.facts(kind)
    G = Graph(F)
    n = 0
    for f in sorted(G.fns.values(), key=lambda f: (f["file"], f["ln"], f["p"])):
        if not entry(f, kind):
            continue
        n += 1
        prev = G.reach(f["u"])
        k.analysed |= {G.fns[x]["p"] for x in prev}
        site = "%s:%s %s" % (f["file"], f["ln"], f["p"])
        bad = [(st, why, ln, x) for x in prev for st, why, ln in G.info[x][1]]
        bad.sort(key=lambda e: e[0] != "refuted")
        nm = "%s%s: no state or effect outside its arguments" % ("" if kind == "host" else "(wasm) ", f["p"])
        if not bad:
            k.ob(nm, site, "proved", None)
        else:
            st, why, ln, x = bad[0]
            k.ob(nm, site, st, "%s, at %s:%s, reached by %s" % (why, G.fns[x]["file"], ln, G.path(prev, x)))
        if kind == "host" and shares(F, f):
            w = [(p, ln, x) for x in prev for p, ln in G.info[x][2]]
            nm = "%s: changes nothing reachable from what it is given" % f["p"]
            if not w:
                k.ob(nm, site, "proved", None)
            else:
                p, ln, x = w[0]
                fresh = any(G.info[y][3] for y in prev)
                k.ob(nm, site, "undecided" if fresh else "refuted", "writes to a cell (%s) at %s:%s, reached by %s" % (p, G.fns[x]["file"], ln, G.path(prev, x)))
    if kind == "host" and not n:
        k.ob("anchor: public operations", "src/lib.rs", "refuted", "the crate has no public operation")
