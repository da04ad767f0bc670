"""Obligations, verdicts, evidence and known findings: shared by all checks."""
import os, sys, json, time, re, traceback, signal
sys.setrecursionlimit(20000)
from interp import *
from compare import *
import terms as T
import mireval, extract

VERIF = extract.VERIF
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


CASE_WORKERS = 8
CASE_SECONDS = 60


class Stop(Exception):
    pass


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


class R:
    """summary of one analysed call"""

    def __init__(self, cx, fn, v, st, pan, eff, rc):
        self.cx, self.fn, self.v, self.st, self.pan, self.eff, self.rc = cx, fn, v, st, pan, eff, rc

    def site(self):
        return "%s:%s %s" % (self.fn["file"], self.fn["ln"], self.fn["p"])

    def root(self, name):
        return self.cx.get(self.st, ("M", name)) if ("M", name) in self.st else None


class Kit:
    def __init__(self, pid, tier="quick", facts=None):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self._facts = dict(facts or {})
        self.obs = []
        self.analysed = set()
        self.notes = []
        self.paths = 0
        self.rules = []
        self.samples = []
        self.n = 1500 if tier == "quick" else 12000
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    # ------------------------------------------------------------ facts
    def facts(self, kind="host"):
        if kind not in self._facts:
            self._facts[kind] = Facts(extract.extract(kind))
        return self._facts[kind]

    @property
    def F(self):
        return self.facts("host")

    def fn(self, suffix, kind="host", optional=False):
        fs = self.facts(kind).findall(lambda f: f["p"] == suffix or f["p"].endswith("::" + suffix))
        if len(fs) == 1:
            return fs[0]
        if optional:
            return fs[0] if fs else None
        if not fs:
            self.ob("anchor " + suffix, suffix, "refuted", "the public operation %s does not exist in the analysed crate" % suffix)
            raise Stop()
        return fs[0]

    def ctx(self, uf=(), kind="host"):
        cx = Ctx(self.facts(kind), uf)
        cx.kit = self
        return cx

    # ------------------------------------------------------------ calls
    def call(self, cx, fn, args, env=None, st=None):
        if isinstance(fn, str):
            fn = self.fn(fn)
        e = {0: TPARAM}
        if env:
            e.update(env)
        a = []
        for v, l in zip(args, fn["body"]["locals"][1:1 + fn["body"]["argc"]]):
            t = tsub(hty(l["ty"]), e)
            if t[0] == "ref" and v.k not in ("ref",) and not (t[1]):
                v = mk("ref", ("A", v), ())
            a.append(v)
        v, st, p, eff, rc = mireval.evaluate(cx, fn, a, e, st)
        self.analysed |= cx.analysed
        for s in cx.imprecise:
            if s not in self.notes:
                self.notes.append(s)
        return R(cx, fn, v, st, p, eff, rc)

    def mutarg(self, cx, st, name, v, ty=None):
        root = ("S", ("arg", name))
        if ty is not None:
            cx.rtype[root] = ty
        st[root] = v
        return mk("ref", root, ())

    # ------------------------------------------------------------ obligations
    def ob(self, name, site, status, detail=None):
        self.obs.append({"name": name, "site": site, "status": status, "detail": detail})
        return status

    def same(self, name, r, got, want, pre=TRUE, sampler=None, rel=None, n=None, guided=True):
        """the extracted summary equals the specification on pre"""
        cx = r.cx
        site = r.site()
        if "%" in name:
            name = name % ()
        try:
            self.paths += min(len(T.paths(got, 500)), 500) if got.k == "node" else 1
        except Exception:
            pass
        try:
            st, w = decide(cx, got, want, pre, n or self.n, sampler, rel, guided)
        except (T.TooBig, RecursionError) as ex:
            st, w = "undecided", repr(ex)[:80]
        if st == "refuted" and w["got"] is None and not r.pan:
            st, w = "undecided", "the abstract value is empty and the"
        if st == "refuted":
            d = "at %s the operation yields %s, the specification requires %s" % (json.dumps(w["inputs"], default=str, sort_keys=True)[:600], short_val(w["got"]), short_val(w["expected"]))
            return self.ob(name, site, st, d)
        if len(self.samples) < 8:
            self.samples.append({"obligation": name, "site": site, "summary": show(got)[:300]})
        return self.ob(name, site, st, None if st == "proved" else "no normal-form identity; %s points of the differing regions found none inhabited" % w)

    def same_any(self, name, r, got, wants, pre=TRUE, **kw):
        """equal definitions in several shapes: proved against any one, refuted against the first"""
        for x in wants:
            try:
                if equal(r.cx, canon(r.cx, got), canon(r.cx, x), pre):
                    self.paths += 1
                    return self.ob(name, r.site(), "proved")
            except (T.TooBig, RecursionError):
                pass
        return self.same(name, r, got, wants[0], pre, **kw)

    def proved_or(self, name, r, got, wants, fallback, pre=TRUE, guided=False):
        """one definition in closed form decides; an operation written differently is compared, on the region the property
        speaks about, by fallback() -> (r, got, want, pre, sampler)"""
        for x in wants:
            try:
                if not os.environ.get("VERIF_SEM") and equal(r.cx, canon(r.cx, got), canon(r.cx, x), pre):
                    self.paths += 1
                    return self.ob(name, r.site(), "proved")
            except (T.TooBig, RecursionError):
                pass
        st = None
        for st in self.cases(name, r.site(), fallback(), guided):
            if st == "refuted":
                return st
            if st == "proved":
                self.obs.pop()
        if st == "proved":
            return self.ob(name, r.site(), "proved")
        return st

    def cases(self, name, site, it, guided):
        """the obligations of a case family, decided in parallel processes; their outcomes in order, up to a refuted one"""
        import pickle, select

        def one(r2, g2, w2, p2, s2, rl):
            return self.same(name, r2, g2, w2, p2, sampler=s2, rel=rl[0] if rl else None, guided=guided, n=self.n * (1 if guided else 3))
        if os.environ.get("VERIF_SERIAL"):
            for x in it:
                r2, g2, w2, p2, s2, *rl = x() if callable(x) else x
                yield one(r2, g2, w2, p2, s2, rl)
            return
        live, res, i, done = {}, {}, 0, False
        it = iter(it)
        try:
            while live or not done:
                while not done and len(live) < CASE_WORKERS:
                    x = next(it, None)
                    if x is None:
                        done = True
                        break
                    rd, wr = os.pipe()
                    sys.stdout.flush()
                    pid = os.fork()
                    if pid == 0:
                        try:
                            os.close(rd)
                            signal.alarm(0)
                            signal.signal(signal.SIGALRM, _alarm)
                            signal.alarm(CASE_SECONDS if self.tier == "quick" else CASE_SECONDS * 6)
                            self.obs, self.samples, self.paths = [], [], 0
                            try:
                                if callable(x):
                                    x = x()
                                one(*x[:5], x[5:])
                            except (Timeout, MemoryError):
                                self.obs = [{"name": name, "site": site, "status": "undecided", "detail": "search budget exhausted"}]
                            except (Imprecise, Undecided, T.TooBig, RecursionError) as ex:
                                self.obs = [{"name": name, "site": site, "status": "undecided", "detail": "outside the modelled fragment: %r" % (ex,)}]
                            signal.alarm(0)
                            data = pickle.dumps((self.obs, self.samples, self.paths))
                            with os.fdopen(wr, "wb") as o:
                                o.write(data)
                        finally:
                            os._exit(0)
                    os.close(wr)
                    live[rd] = (i, pid, [])
                    i += 1
                for rd in select.select(list(live), [], [])[0] if live else ():
                    b = os.read(rd, 1 << 20)
                    if b:
                        live[rd][2].append(b)
                        continue
                    j, pid, buf = live.pop(rd)
                    os.close(rd)
                    os.waitpid(pid, 0)
                    try:
                        res[j] = pickle.loads(b"".join(buf))
                    except Exception as ex:
                        res[j] = ([{"name": name, "site": site, "status": "undecided", "detail": "the analysis process ended: %r" % (ex,)}], [], 0)
                    if res[j][0] and res[j][0][-1]["status"] == "refuted":
                        self.obs += res[j][0]
                        yield "refuted"
                        return
        finally:
            for rd, (j, pid, *_) in live.items():
                try:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                except OSError:
                    pass
                os.close(rd)
        for j in sorted(res):
            obs, samples, paths = res[j]
            self.obs += obs
            self.samples = (self.samples + samples)[:8]
            self.paths += paths
            yield obs[-1]["status"] if obs else "undecided"

    def holds(self, name, r, cond, pre=TRUE, sampler=None, n=None):
        return self.same(name, r, ite(pre, cond, TRUE) if pre is not TRUE else cond, TRUE, pre, sampler, n=n)

    def nopanic(self, name, r, pre=TRUE, sampler=None, ignore=()):
        """no path of the operation panics inside its documented precondition"""
        bad = "proved"
        for c, f, l, m in r.pan:
            if any(i in m for i in ignore):
                continue
            cc = cleanb(band(pre, c)) if pre is not TRUE else c
            if cc is FALSE:
                continue
            w, tried = witness(r.cx, cc, FALSE, TRUE, self.n, sampler)
            if w is not None:
                bad = "refuted"
                self.ob(name, "%s:%s" % (f, l), "refuted", "panics (%s) at %s" % (m, json.dumps(w["inputs"], default=str)[:500]))
            elif bad == "proved":
                bad = "undecided"
        if bad != "refuted":
            self.ob(name, r.site(), bad, None if bad == "proved" else "a panic condition is not reducible to false: " + "; ".join("%s:%s %s" % (f, l, m) for c, f, l, m in r.pan)[:300])
        return bad

    def pure(self, name, r):
        if r.eff:
            for c, w, s in r.eff:
                self.ob(name, str(s), "refuted", "side effect %s" % (w,))
        else:
            self.ob(name, r.site(), "proved")

    # ------------------------------------------------------------ groups
    def group(self, name, f, seconds=None):
        """run one analysis; what it cannot analyse is undecided, never an alarm"""
        seconds = seconds or (110 if self.tier == "quick" else 600)
        if self.tier == "quick":
            seconds = int(max(5, min(seconds, self.t0 + 720 - time.time())))
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(seconds)
        try:
            f()
        except Stop:
            pass
        except Timeout:
            self.ob(name, name, "undecided", "analysis budget of %d s exhausted" % seconds)
        except (Imprecise, Undecided, T.TooBig, RecursionError, MemoryError) as ex:
            self.ob(name, name, "undecided", "outside the modelled fragment: %r" % (ex,))
        except Exception as ex:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            self.ob(name, name, "undecided", "analysis failed: %r" % (ex,))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def groups(self, gs, seconds=None, workers=6):
        """independent analyses, in parallel processes; results are collected in order"""
        import pickle
        self.facts("host")
        if workers < 2 or len(gs) < 2 or os.environ.get("VERIF_SERIAL"):
            for n, f in gs:
                self.group(n, f, seconds)
            return
        res, live = {}, {}
        todo = list(enumerate(gs))
        while todo or live:
            while todo and len(live) < workers:
                i, (n, f) = todo.pop(0)
                rd, wr = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(rd)
                    try:
                        self.obs, self.analysed, self.notes, self.paths, self.samples = [], set(), [], 0, []
                        self.group(n, f, seconds)
                        data = pickle.dumps((self.obs, self.analysed, self.notes, self.paths, self.samples))
                        with os.fdopen(wr, "wb") as o:
                            o.write(data)
                    finally:
                        os._exit(0)
                os.close(wr)
                live[rd] = (i, n, pid, [])
            import select
            for rd in select.select(list(live), [], [])[0]:
                b = os.read(rd, 1 << 20)
                if b:
                    live[rd][3].append(b)
                    continue
                i, n, pid, buf = live.pop(rd)
                os.close(rd)
                os.waitpid(pid, 0)
                try:
                    res[i] = pickle.loads(b"".join(buf))
                except Exception as ex:
                    res[i] = ([{"name": n, "site": n, "status": "undecided", "detail": "the analysis process ended: %r" % (ex,)}], set(), [], 0, [])
        for i in sorted(res):
            obs, an, notes, paths, samples = res[i]
            self.obs += obs
            self.analysed |= an
            self.notes += [x for x in notes if x not in self.notes]
            self.paths += paths
            self.samples = (self.samples + samples)[:8]

    # ------------------------------------------------------------ verdict
    def finish(self, claims=None):
        known = load_known(self.pid)
        viol, kn = [], []
        used = set()
        for o in self.obs:
            if o["status"] != "refuted":
                continue
            hit = None
            for i, k in enumerate(known):
                if k["kind"] == "known" and k["obligation"] == o["name"] and (not k.get("site") or k["site"] in o["site"]):
                    hit = k
                    break
            if hit:
                o["status"] = "known"
                kn.append((hit, o))
            else:
                viol.append(o)
        cnt = lambda s: sum(1 for o in self.obs if o["status"] == s)
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "Static analysis of the compiler's MIR for /repo's current source. Each obligation compares a summary (gated value graph, effect set, call set or typestate) derived from the source with the rule; it is 'proved' when both have one normal form / the rule's condition is discharged on every path, 'refuted' when a differing region is inhabited, 'undecided' otherwise (never reported).",
                "rules": self.rules,
                "obligations": len(self.obs), "discharged": cnt("proved"), "undecided": cnt("undecided"),
                "known_findings": cnt("known"), "refuted": len(viol),
                "functions_analysed": len(self.analysed), "functions": sorted(self.analysed)[:400],
                "decision_paths": self.paths,
                "obligation_list": [{k: v for k, v in o.items() if v is not None} for o in sorted(self.obs, key=lambda o: o["status"] == "proved")][:400],
                "samples": self.samples or [{"obligation": o["name"], "site": o["site"]} for o in self.obs[:5]],
                "approximations": self.notes[:60],
            },
            "assumptions": ASSUME,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        seen = set()
        for k, o in kn:
            if k["obligation"] in seen:
                continue
            seen.add(k["obligation"])
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        print("%s: %d obligations, %d proved, %d undecided, %d known, %d refuted (%d functions, %.1fs)" % (self.pid, len(self.obs), cnt("proved"), cnt("undecided"), cnt("known"), len(viol), len(self.analysed), time.time() - self.t0))
        shown = {}
        for o in viol:
            if shown.setdefault(o["name"], 0) >= 2 or sum(shown.values()) >= 20:
                continue
            shown[o["name"]] += 1
            print("  %s\n    at %s\n    %s" % (o["name"], o["site"], o["detail"]))
        if viol:
            rp = os.path.join(EVID, self.pid + "-violation.json")
            with open(rp, "w") as f:
                json.dump(viol, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0


ASSUME = [
    "numbers are analysed as exact reals (rounding, NaN and overflow are outside the abstraction); T::default_eps() is a small positive constant",
    "standard-library operations behave as their documented models in engine/models.py",
    "rustc's nightly MIR of the crate equals the program built by the pinned toolchain",
]


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == pid:
                    out.append(d)
    return out


def short_val(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "…"


def runcheck(pid, tier="quick", facts=None, quiet=False):
    import importlib
    k = Kit(pid, tier, facts)
    mod = importlib.import_module(pid.lower())
    try:
        mod.run(k)
    except Stop:
        pass
    floor = getattr(mod, "FLOOR", 1)
    if len(k.obs) < floor and not any(o["status"] in ("refuted", "undecided") for o in k.obs):
        k.ob("coverage floor", "/repo", "refuted", "only %d obligations could be formed (expected at least %d): the analysed operations are missing" % (len(k.obs), floor))
    return k
