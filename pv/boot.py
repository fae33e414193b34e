"""Make hypothesis and /repo's hera_pspec importable; silence chatter."""
import glob
import logging
import os
import sys
import warnings

REPO = os.environ.get("PV_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

if REPO + "/src" not in sys.path:
    sys.path.insert(0, REPO + "/src")


def _hypothesis():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    # wheels are zip files of pure python (hypothesis falls back when its optional native module cannot load)
    for sp in glob.glob("/opt/veriftools/pyvenv/lib/python3.*/site-packages"):
        if os.path.isdir(os.path.join(sp, "hypothesis")):
            # expose only what hypothesis needs, so that the project's own numpy etc. keep priority
            sys.path.append(sp)
            break
    import hypothesis  # noqa: F401


_hypothesis()
warnings.simplefilter("ignore")
logging.disable(logging.WARNING)
