#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--runs N] [--jobs N]: decides one property by seeded simulation."""
import argparse
import os
import sys

VENV = "/opt/venv/bin/python"
here = os.path.dirname(os.path.abspath(__file__))
want = VENV if os.path.exists(VENV) else sys.executable
if os.environ.get("DST_READY") != "1":
    env = dict(os.environ, DST_READY="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
    for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONDEVMODE", "PYTHONWARNINGS"):
        env.pop(k, None)
    os.execve(want, [want, "-X", "utf8", os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, here)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--wall", type=float)
    o = ap.parse_args()
    import warnings
    warnings.simplefilter("ignore")
    from dst import engine
    code, agg = engine.check(o.property, o.tier, o.seed, o.jobs, o.runs, o.wall)
    sys.exit(code)


if __name__ == "__main__":
    main()
