"""Process environment: import /repo's code fresh, and Hypothesis/mpmath from the tool venv."""
import os
import sys
import tempfile
import warnings

REPO = os.environ.get("CONJ_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup():
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    os.environ.setdefault("MPLCONFIGDIR", os.path.join(tempfile.gettempdir(), "mplcfg-verif"))
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(tempfile.gettempdir(), "hypothesis-verif")
    os.environ["HYPOTHESIS_NO_PLUGINS"] = "1"
    # never read or write bytecode of /repo (stale bytecode could hide a change)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "no-such-pycache-%d" % os.getpid())
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)  # last: numpy/scipy/matplotlib stay those of the repo's venv
    warnings.filterwarnings("ignore", message=".*")  # not equal to what simplefilter("ignore") would add
    import conjugate

    got = os.path.dirname(os.path.abspath(conjugate.__file__))
    if got != os.path.join(os.path.abspath(REPO), "conjugate"):
        raise RuntimeError("conjugate imported from %s" % got)
    import numpy as np

    np.seterr(all="warn")
    import mpmath

    mpmath.mp.prec = 200
