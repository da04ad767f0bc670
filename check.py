#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decides one property from /repo's current source."""
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "engine"))
sys.path.insert(0, os.path.join(here, "specs"))
sys.setrecursionlimit(20000)


def main():
    import checklib, extract
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        k = checklib.runcheck(pid, tier)
    except extract.ExtractError as e:
        print("ERROR: %s" % e)
        return 3
    return k.finish()


if __name__ == "__main__":
    import resource
    if os.environ.get("VERIF_STACK") != "1":
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        want = 1 << 30
        if hard != resource.RLIM_INFINITY:
            want = min(want, hard)
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
        os.environ["VERIF_STACK"] = "1"
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
