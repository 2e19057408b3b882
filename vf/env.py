"""Process set-up: import paths, environment and quiet logging.

The code under test is always imported from /repo/src (the working tree);
hypothesis comes from /verif/.deps (made by setup.sh) or, if that is not
there, straight from the pre-installed verification venv.
"""

import logging
import os
import sys
import tempfile
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ["PATH"] = "/opt/venv/bin:/usr/bin:/bin:" + os.environ.get(
    "PATH", ""
)

_SCRATCH = None


def scratch():
    """A scratch directory of this process (made on first use)."""
    global _SCRATCH
    if _SCRATCH is None or _SCRATCH[0] != os.getpid():
        _SCRATCH = (os.getpid(), tempfile.mkdtemp(prefix="vf_"))
    return _SCRATCH[1]


def _add_hypothesis():
    deps = os.path.join(VERIF, ".deps")
    if os.path.isdir(os.path.join(deps, "hypothesis")):
        sys.path.append(deps)
        return
    site = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    link_dir = os.path.join(scratch(), "deps")
    os.makedirs(link_dir, exist_ok=True)
    for name in os.listdir(site):
        if name.startswith(("hypothesis", "_hypothesis", "sortedcontainers")):
            dst = os.path.join(link_dir, name)
            if not os.path.exists(dst):
                os.symlink(os.path.join(site, name), dst)
    sys.path.append(link_dir)


def setup():
    sys.path.insert(0, SRC)
    if "hypothesis" not in sys.modules:
        _add_hypothesis()
    warnings.simplefilter("ignore")
    import oemof.solph

    where = os.path.abspath(oemof.solph.__file__)
    if not where.startswith(SRC + os.sep):
        raise SystemExit(f"harness error: oemof.solph imported from {where}")
    logging.disable(logging.CRITICAL)
