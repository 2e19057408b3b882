#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""

import argparse
import os
import shutil
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vf import env, run  # noqa: E402

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument(
        "--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1"))
    )
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        code = run.main(a.property, a.tier, a.seed, a.replay)
    finally:
        if env._SCRATCH and env._SCRATCH[0] == os.getpid():
            shutil.rmtree(env._SCRATCH[1], ignore_errors=True)
    sys.exit(code)
