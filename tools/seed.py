"""Verifies planted bugs: python3 tools/seed.py FILE...   (each FILE holds one or more descriptions, see below)
  bug(ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new), ...], DEMO=body of demo.rs, WASM=False, CHECK=[...])
Works in a scratch copy of /repo. Writes seeded/ID only when the patched tree builds, passes the stable
tests, changes only lines of the original repository, and the demo separates the two trees."""
import os, sys, json, subprocess, shutil, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "71bf01c"


def sh(c, cwd=None, t=900, **env):
    p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=dict(os.environ, **env))
    return p.returncode, p.stdout + p.stderr


def one(g, run_checks=True):
    w = "/tmp/vpseed/" + g["ID"]
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        return build(g, w, run_checks)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def build(g, w, run_checks):
    sh("git clone -q %s %s/repo && git clone -q %s %s/clean" % (REPO, w, REPO, w))
    R = w + "/repo"
    for f, old, new in g["EDITS"]:
        p = os.path.join(R, f)
        s = open(p).read()
        if s.count(old) != 1:
            return g["ID"], "EDIT DOES NOT MATCH %s %d" % (f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", R)[1]
    why = []
    for f in set(e[0] for e in g["EDITS"]):
        base = [x.strip() for x in sh("git show %s:%s" % (BASE, f), REPO)[1].split("\n")]
        gone = [x[1:].strip() for x in sh("git diff -- %s" % f, R)[1].split("\n") if x.startswith("-") and not x.startswith("---")]
        if not any(x in base for x in gone):
            why.append("no original line changed in " + f)
    tgt = dict(CARGO_TARGET_DIR=w + "/t", RUSTUP_TOOLCHAIN="1.98.0", CARGO_NET_OFFLINE="true")
    rc, o = sh("cargo build --lib --target wasm32-unknown-unknown --offline --locked", R, **tgt)
    if rc:
        why.append("wasm build: " + o[-800:])
    rc, o = sh("cargo test --offline --locked --lib -- --test-threads 8", R, **tgt)
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    m = re.findall(r"^test (\S+) \.\.\. (\w+)", o, re.M)
    got = [a for a, b in m if b == "ok"]
    miss = [t for t in want if not any(t.endswith(x) for x in got)]
    if miss:
        why.append("tests: %s %s" % (miss[:4], o[-600:] if not m else ""))
    out = w + "/out"
    os.makedirs(out)
    demo = open(os.path.join(V, "tools", "demo.sh")).read()
    if g.get("WASM"):
        demo = demo.replace('cd "$w" ||', 'grep -rl target_arch "$w/src" | xargs sed -i \'s/target_arch = "wasm32"/all()/\'\nsed -i "s/^.target.*wasm32.*dependencies.$/[dependencies]/" "$w/Cargo.toml"\ncd "$w" ||')
    for n, c in (("patch.diff", diff), ("demo.rs", g["DEMO"]), ("demo.sh", demo),
                 ("meta.json", json.dumps({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, indent=1) + "\n")):
        open(os.path.join(out, n), "w").write(c)
    os.chmod(out + "/demo.sh", 0o755)
    rc, o = sh("bash %s/demo.sh" % out, R)
    if rc == 0:
        why.append("demo passes with the patch")
    elif "error[" in o or "error:" in o and "could not compile" in o:
        why.append("demo does not compile: " + o[-1500:])
    rc, o = sh("bash %s/demo.sh" % out, w + "/clean")
    if rc:
        why.append("demo fails on the clean tree: " + o[-1200:])
    caught = []
    if run_checks:
        for pid in g.get("CHECK") or [g["PROPERTY"]]:
            rc, o = sh("python3 check.py %s" % pid, V, 900, VERIF_REPO=R, VERIF_BUILD=w + "/b", VERIF_EVIDENCE=w + "/ev")
            v = [l for l in o.splitlines() if "VIOLATION" in l]
            caught.append("%s %s %s" % (pid, "CAUGHT" if rc == 1 and v else "MISSED rc=%d" % rc, o.strip().splitlines()[-1][:120] if o.strip() else ""))
    if why:
        return g["ID"], "REJECTED\n    " + "\n    ".join(why) + "\n    " + "; ".join(caught)
    dst = os.path.join(V, "seeded", g["ID"])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    return g["ID"], "KEPT " + "; ".join(caught)


BUGS = []


def bug(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO, WASM=False, CHECK=None):
    BUGS.append(dict(ID=ID, PROPERTY=PROPERTY, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=DEMO, WASM=WASM, CHECK=CHECK))


only = [a[1:] for a in sys.argv[1:] if a.startswith("=")]
for p in sys.argv[1:]:
    if not p.startswith("="):
        exec(open(p).read())
with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for i, r in ex.map(one, [b for b in BUGS if not only or b["ID"] in only]):
        print(i, r, flush=True)
