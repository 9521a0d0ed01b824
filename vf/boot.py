"""Environment: scratch directory, Hypothesis on the path, package from /repo."""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"
SCRATCH = None
_PID = os.getpid()


class HarnessError(Exception):
    pass


def _cleanup():
    if os.getpid() == _PID and SCRATCH and os.path.isdir(SCRATCH):
        shutil.rmtree(SCRATCH, ignore_errors=True)


def boot():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="vf_")
    atexit.register(_cleanup)
    os.environ["MPLCONFIGDIR"] = os.path.join(SCRATCH, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"])
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(SCRATCH, "hyp")

    # Hypothesis lives in another environment of the sandbox; only its own
    # packages are made importable (never that environment's numpy etc.).
    lib = os.path.join(SCRATCH, "lib")
    os.makedirs(lib)
    names = ["hypothesis", "sortedcontainers", "attr", "attrs",
             "_hypothesis_globals.py", "_hypothesis_ftz_detector.py",
             "_hypothesis_pytestplugin.py"]
    for n in names:
        src = os.path.join(VT_SITE, n)
        if os.path.exists(src):
            os.symlink(src, os.path.join(lib, n))
    sys.path.insert(1, lib)
    try:
        import hypothesis  # noqa: F401
    except Exception:
        alt = os.path.join(SCRATCH, "lib2")
        subprocess.run([sys.executable, "-m", "pip", "install", "-q",
                        "--no-index", "--find-links", WHEELS, "--target", alt,
                        "hypothesis"], check=True,
                       stdout=subprocess.DEVNULL)
        sys.path.insert(1, alt)
        for m in [m for m in sys.modules if m.startswith("hypothesis")]:
            del sys.modules[m]
        import hypothesis  # noqa: F401

    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    # The package must come from the working tree under test.
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
