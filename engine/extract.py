"""Facts about /repo's current source: builds the driver when missing and type-checks the crate through it.
Nothing of the analysed crate is executed; the compiler stops after analysis (cargo check)."""
import os, sys, subprocess, json, shutil, glob, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
DRIVER = os.path.join(VERIF, "driver/target/release/mirfacts")


def cenv(**kw):
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


def run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


class ExtractError(Exception):
    pass


def sysroot():
    rc, out = run(["rustc", "+nightly", "--print", "sysroot"], VERIF, cenv())
    if rc:
        raise ExtractError("no nightly toolchain: " + out)
    return out.strip().splitlines()[-1]


def build_driver():
    srcs = [os.path.join(VERIF, "driver/src/main.rs"), os.path.join(VERIF, "driver/Cargo.toml")]
    if os.path.exists(DRIVER) and all(os.path.getmtime(DRIVER) >= os.path.getmtime(s) for s in srcs):
        return
    rc, out = run(["cargo", "+nightly", "build", "--release", "--offline"], os.path.join(VERIF, "driver"), cenv(CARGO_TARGET_DIR=os.path.join(VERIF, "driver/target")))
    if rc or not os.path.exists(DRIVER):
        raise ExtractError("driver build failed:\n" + out[-3000:])


def drop(target):
    for pat in ("debug/build/rcgal*", "debug/.fingerprint/rcgal*", "debug/incremental/rcgal*", "debug/deps/*rcgal*"):
        for p in glob.glob(os.path.join(target, pat)):
            if os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                try:
                    os.remove(p)
                except OSError:
                    pass


def shadow():
    """the shadow manifest; for another repository than /repo, a copy that names it"""
    src = os.path.join(VERIF, "shadow")
    if REPO == "/repo":
        return src
    d = os.path.join(BUILD, "shadow")
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(src, "Cargo.lock"), d)
    with open(os.path.join(src, "Cargo.toml")) as f:
        t = f.read()
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(t.replace('"/repo/', '"%s/' % os.path.abspath(REPO)))
    return d


def extract(kind, out=None):
    """kind: 'host' or 'wasm' -> facts dictionary of the current working tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        target = os.path.join(BUILD, "target-" + kind)
        os.makedirs(target, exist_ok=True)
        drop(target)
        out = out or os.path.join(BUILD, kind + ".json")
        if os.path.exists(out):
            os.remove(out)
        env = cenv(RUSTC_WORKSPACE_WRAPPER=DRIVER, MIRFACTS_CRATE="rcgal", MIRFACTS_OUT=out, CARGO_TARGET_DIR=target, LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), CARGO_INCREMENTAL="0")
        if kind == "wasm":
            env["MIRFACTS_WASM"] = "1"
            cwd = shadow()
            cmd = ["cargo", "+nightly", "check", "--offline", "--locked"]
        else:
            cwd = REPO
            cmd = ["cargo", "+nightly", "check", "--lib", "--offline", "--locked"]
        rc, log = run(cmd, cwd, env)
        if rc or not os.path.exists(out):
            raise ExtractError("extraction (%s) failed:\n%s" % (kind, log[-3000:]))
        with open(out) as f:
            return json.load(f)


if __name__ == "__main__":
    for k in ("host", "wasm"):
        t = time.time()
        d = extract(k)
        print(k, len(d["fns"]), "functions", "%.1fs" % (time.time() - t))
