"""Scratch files for one case, removed afterwards."""
import contextlib
import os
import shutil
import tempfile


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(dir=os.environ.get("PV_SCRATCH") or None, prefix="case.")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
