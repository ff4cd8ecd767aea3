"""Interpreter set-up shared by the driver and the workers.

The code under test lives in /repo and runs in /opt/venv (numpy, numba, scipy).  Hypothesis is not
installed there; it comes from the tooling venv, whose site-packages go to the END of sys.path so
that every numerical package is still the repository's own.
"""
import os
import sys
import tempfile
import subprocess

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"


def child_env(tmp, threads=2, extra=None):
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        NUMBA_CACHE_DIR=os.path.join(tmp, "numba"),
        NUMBA_NUM_THREADS=str(threads),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        OMP_WAIT_POLICY="passive",
        DASK_NUM_WORKERS="1",
        HYPOTHESIS_NO_PLUGINS="1",
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tmp, "hyp"),
    )
    env.pop("PYTHONPATH", None)
    env.pop("NUMBA_BOUNDSCHECK", None)
    env.pop("NUMBA_DISABLE_JIT", None)
    env.update(extra or {})
    if "NUMBA_BOUNDSCHECK" in (extra or {}):  # numba's cache does not know about bounds checks
        env["NUMBA_CACHE_DIR"] = os.path.join(tmp, "numba-bc")
    return env


def setup_path():
    """Put /repo first and the tooling packages last on sys.path."""
    for p in (REPO, VERIF):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, REPO)
    sys.path.insert(1, VERIF)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        if os.path.isdir(os.path.join(VT, "hypothesis")):
            sys.path.append(VT)
        else:
            d = os.path.join(tempfile.gettempdir(), "verif-hyp-%d" % os.getuid())
            if not os.path.isdir(os.path.join(d, "hypothesis")):
                subprocess.run(
                    [PY, "-m", "pip", "install", "-q", "--no-index", "--find-links", WHEELS,
                     "--target", d, "hypothesis"], check=True)
            sys.path.append(d)
