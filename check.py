#!/usr/bin/env python3
"""Entry point of every check.

  check.py --property C01 [--tier quick|thorough]      run the check
  check.py --property C01 --replay out/replays/x.json   re-run one recorded violation
  check.py --property C01 --case 17                     re-run one case by index

Environment: VERIF_SEED (default 1), VERIF_TIER, VERIF_REPO (default /repo).
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the check could not decide (library not importable, nothing observed).
"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.exists(PY) and not os.environ.get("VF_REEXEC") and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.environ["VF_REEXEC"] = "1"
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vf import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
