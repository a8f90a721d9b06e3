"""Makes the code under test and Hypothesis importable.

The code under test is always imported from the working tree of the repository (default /repo); byte code
caches are neither read nor written, so an edited file is always seen.
"""
import importlib
import os
import sys
import tempfile
import atexit
import shutil

REPO = os.environ.get("PYCTBN_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYPO = [os.path.join(VERIF, ".deps"), "/opt/veriftools/pyvenv/lib/python3.12/site-packages"]


def scratch():
    path = tempfile.mkdtemp(prefix="pyctbn_verif_")
    pid = os.getpid()

    def remove():
        if os.getpid() == pid:
            shutil.rmtree(path, ignore_errors=True)
    atexit.register(remove)
    return path


def boot():
    sys.dont_write_bytecode = True
    work = scratch()
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ["MPLCONFIGDIR"] = os.path.join(work, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    for name in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[name] = "1"
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # appended, not prepended: numpy, scipy ... must stay the ones of the repository's environment
    for p in HYPO:
        if os.path.isdir(p) and p not in sys.path:
            sys.path.append(p)
    # the libraries may use their own byte code; the code under test must not use any
    for name in ("numpy", "pandas", "scipy.stats", "scipy.special", "networkx", "networkx.readwrite.json_graph", "tqdm",
                 "matplotlib.pyplot", "hypothesis"):
        try:
            importlib.import_module(name)
        except ImportError:
            pass
    sys.pycache_prefix = os.path.join(work, "pyc")
    os.chdir(work)
    return work
