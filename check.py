#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--only NAME] [-v] [--replay FILE]"""
import os
import sys
sys.dont_write_bytecode = True
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import run


def main(a):
    prop = a[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    verbose = "-v" in a
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--only" in a:
        only = a[a.index("--only") + 1]
    if "--replay" in a:
        return run.replay_file(prop, a[a.index("--replay") + 1])
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return run.check(prop, tier, seed, only, verbose)


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    r = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(r)
