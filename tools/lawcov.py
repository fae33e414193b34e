"""Which lines of hera_pspec does each law execute?  usage: lawcov.py OUTDIR [Cxx ...]   (development tool, used by mutate.py)"""
import json
import os
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
           HDF5_USE_FILE_LOCKING="FALSE", PYTHONWARNINGS="ignore", HOME="/root")


def child(prop, law, n, out):
    sys.path.insert(0, HERE)
    import tempfile
    os.environ.setdefault("PV_SCRATCH", tempfile.mkdtemp())
    from pv import boot, core
    src = os.path.realpath(boot.REPO) + "/src/hera_pspec/"
    hits, mon = {}, sys.monitoring
    mon.use_tool_id(3, "cov")

    def line(code, ln):
        f = code.co_filename
        if f.startswith(src):
            hits.setdefault(f[len(src):], set()).add(ln)
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    mod = core.load(prop)
    if hasattr(mod, "setup"):
        mod.setup()
    lw = next(x for x in mod.LAWS if x.name == law)
    w = core._Worker(lw, n, 5, time.time() + 240)
    mon.set_events(3, mon.events.LINE)
    t = time.time()
    sys.stdout = open(os.devnull, "w")
    r = w.go()
    sys.stdout = sys.__stdout__
    json.dump(dict(prop=prop, law=law, n=r.get("evals"), t=time.time() - t, fail=bool(r.get("fail") or r.get("error")), quick=lw.n["quick"],
                   lines={k: sorted(v) for k, v in hits.items()}), open(out, "w"))


if __name__ == "__main__":
    if sys.argv[1] == "--child":
        child(sys.argv[2], sys.argv[3], int(sys.argv[4]), sys.argv[5])
        sys.exit()
    out = sys.argv[1]
    os.makedirs(out, exist_ok=True)
    props = sys.argv[2:] or [f[:-3].upper() for f in sorted(os.listdir(HERE + "/checks")) if f.startswith("c") and f.endswith(".py")]
    sys.path.insert(0, HERE)
    from pv import core
    jobs = [(p, lw.name, max(20, lw.n["quick"] // 4)) for p in props for lw in core.load(p).LAWS]

    def one(j):
        f = "%s/%s.%s.json" % (out, j[0], j[1])
        r = subprocess.run([sys.executable, __file__, "--child", j[0], j[1], str(j[2]), f], env=ENV, capture_output=True, text=True)
        if r.returncode:
            print(j, r.stderr[-800:])

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
