"""Process bootstrap: environment for importing the code under test.

Must be imported before numpy/numba.  Everything it creates lives in one
scratch directory that is removed when the creating process exits.
"""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_main_pid = os.getpid()

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS",
           "NUMEXPR_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
os.environ.setdefault("TQDM_DISABLE", "1")

SCRATCH = tempfile.mkdtemp(prefix="verif_")
if "VERIF_NUMBA_CACHE" in os.environ:
    os.environ["NUMBA_CACHE_DIR"] = os.environ["VERIF_NUMBA_CACHE"]
else:
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(SCRATCH, "numba")
os.makedirs(os.environ["NUMBA_CACHE_DIR"], exist_ok=True)


def _cleanup():
    if os.getpid() == _main_pid:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)

if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings  # noqa: E402
warnings.filterwarnings("ignore")


def load(stand_in=True):
    """Import the package under test (with the MOSEK stand-in installed)."""
    if stand_in:
        from . import fakemosek
        fakemosek.install()
    import inflation
    got = os.path.realpath(os.path.dirname(os.path.dirname(inflation.__file__)))
    if got != os.path.realpath(REPO):
        raise RuntimeError(f"imported inflation from {got}, wanted {REPO}")
    return inflation
