#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's working tree.

Exit 0: it held on everything explored. Exit 1 with a VIOLATION line: it is
broken. Exit 2: the check itself failed and says nothing."""
import os, sys, traceback
if os.environ.get("PYTHONHASHSEED") != "0":         # the same seed, the same inputs
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import checks
from common import ToolError
from engine import Run


def main():
    if sys.argv[1] == "--setup":
        from common import build_harness, build_cli
        build_harness()
        build_cli()
        import browser
        browser.build_api()
        return
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    run = Run(prop, tier, seed)
    try:
        level, assumptions = checks.CHECKS[prop](run)
        rc = run.finish(level, assumptions)
    except ToolError as e:
        print("error: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


main()
