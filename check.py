#!/usr/bin/env python
"""check.py <property> [--tier quick|thorough] | --replay FILE"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYVC_REPO", "/repo")
PY = "/opt/venv/bin/python"
if sys.executable != PY and os.path.exists(PY) and os.environ.get("PYVC_CHILD") != "1":
    os.environ["PYVC_CHILD"] = "1"
    os.execv(PY, [PY, "-W", "ignore", os.path.abspath(__file__), *sys.argv[1:]])
for k, v in (("PYTHONDONTWRITEBYTECODE", "1"), ("OMP_NUM_THREADS", "1"), ("OPENBLAS_NUM_THREADS", "1"), ("PYTHONHASHSEED", "0")):
    if os.environ.get(k) != v:
        os.environ[k] = v
        if k in ("PYTHONHASHSEED", "OMP_NUM_THREADS"):
            os.environ["PYVC_CHILD"] = "1"
            os.environ.update(PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            os.execv(sys.executable, [sys.executable, "-W", "ignore", os.path.abspath(__file__), *sys.argv[1:]])
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, REPO]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import warnings
warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from pyvc import runner
    if a.replay:
        return runner.replay_file(a.replay)
    return runner.check(a.property, a.tier, a.seed, a.v)


if __name__ == "__main__":
    sys.exit(main())
