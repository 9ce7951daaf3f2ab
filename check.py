#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--seed N] [--workers N] [--runs N] | check.py --replay FILE"""
import argparse
import importlib
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    from dst import core
    core.bootstrap()
    pid = a.property or json.load(open(a.replay))["property"]
    prop = importlib.import_module("dst.props." + pid.lower())
    if a.replay:
        return core.replay(prop, a.replay)
    return core.check(prop, a.seed, a.tier, a.workers, a.runs)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
