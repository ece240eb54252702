"""Process environment shared by all checks.

Imported first by every entry point: puts the repository under test first on sys.path (so that the
current working tree of /repo is what is executed), appends the z3/cvc5 python packages, and fixes
the thread counts.
"""
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

REPO = os.environ.get("NOSNOC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")

if REPO not in sys.path:
    sys.path.insert(0, REPO)
_vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _vt not in sys.path:
    sys.path.append(_vt)
import warnings
warnings.filterwarnings("ignore")

import casadi  # noqa: E402
import numpy  # noqa: E402
import z3  # noqa: E402
import nosnoc  # noqa: E402

_where = os.path.realpath(os.path.dirname(nosnoc.__file__))
assert _where == os.path.realpath(os.path.join(REPO, "nosnoc")), f"nosnoc imported from {_where}"
