#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
# one thread per process in the linear algebra, for reproducible results
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"

import core  # noqa: E402


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    replay = a[a.index("--replay") + 1] if "--replay" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return core.run_check(prop, tier, seed, replay)
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
