#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--facet NAME] [--scale X]
   check.py --replay FILE"""
import argparse
import os
import sys

PY = "/opt/veriftools/pyvenv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
    os.execv(PY, [PY, "-B"] + sys.argv)
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import engine  # noqa: E402

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=("quick", "thorough"))
    ap.add_argument("--facet", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true", help="only see that both runtimes start")
    a = ap.parse_args()
    if a.setup:
        sys.exit(engine.setup())
    seed = int(os.environ.get("VERIF_SEED") or "1")
    try:
        if a.replay:
            sys.exit(engine.replay(a.replay))
        sys.exit(engine.run_check(a.property, a.tier, seed, a.facet, a.scale))
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
