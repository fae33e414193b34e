#!/usr/bin/env python3
"""Make and try planted bugs.

usage: python3 tools/mkbug.py FILE.py [ID ...]     (FILE.py defines BUGS, a list of dicts: id, property, file, edits [(old, new)], needs, breaks, demo)
Writes seeded/<id>/ and, in a scratch copy of /repo, checks that the demo passes without and fails with the change and that the
stable tests pass with it; then runs the property's quick check against the copy.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = "/verif"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="agg", MPLCONFIGDIR="/opt/vp/cache/mpl", HOME="/root", PYTHONHASHSEED="0",
           PATH="/opt/venv/bin:" + os.environ["PATH"])


def lib():
    s = open(V + "/pv/uvps.py").read()
    i = s.index("@st.composite\ndef _spw")
    j = s.index("def rng_of")
    s = s[:i] + s[j:]
    return re.sub(r"^from (hypothesis|\.).*\n", "", s, flags=re.M)


def dlib():
    s = open(V + "/pv/dsets.py").read()
    i = s.index("@st.composite\ndef dspec")
    j = s.index("def flag_pattern")
    s = s[:i] + s[j:]
    s = s.replace("from .uvps import rng_of", "from lib import rng_of")
    return re.sub(r"^from (hypothesis|\.).*\n", "", s, flags=re.M)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(b, tests=True):
    d = "%s/seeded/%s" % (V, b["id"])
    w = tempfile.mkdtemp(prefix="wt.", dir="/tmp")
    try:
        os.makedirs(d, exist_ok=True)
        run(["cp", "-a", "/repo", w + "/r"])
        r = w + "/r"
        for f, old, new in b["edits"]:
            p = r + "/src/hera_pspec/" + f
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "-C", r, "diff"]).stdout
        assert diff
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/meta.json", "w").write(json.dumps(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), indent=1) + "\n")
        open(d + "/demo.py", "w").write('"""Exits 0 when the property holds on this case."""\nimport os, sys, tempfile, copy, warnings\nwarnings.simplefilter("ignore")\n'
                                        'sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport numpy as np\nimport lib\n' + b["demo"])
        open(d + "/lib.py", "w").write(lib())
        if "dlib" in b["demo"]:
            open(d + "/dlib.py", "w").write(dlib())
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport OMP_NUM_THREADS=1 MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        res = [b["id"]]
        c = run(["bash", d + "/demo.sh"], cwd="/repo", env=ENV)
        res.append("demo clean rc=%d" % c.returncode)
        if c.returncode:
            res.append(c.stdout[-600:])
        e2 = dict(ENV, PYTHONPATH=r + "/src")
        c = run(["bash", d + "/demo.sh"], cwd=r, env=e2)
        res.append("patched rc=%d %s" % (c.returncode, c.stdout.strip().split("\n")[-1][:120]))
        for line in run(["git", "-C", r, "blame", "-s", "HEAD", "--"] + sorted({"src/hera_pspec/" + f for f, _, _ in b["edits"]})[:1]).stdout.split("\n"):
            pass
        # the changed lines must be those of the original repository
        base = open(V + "/tools/base_commit").read().strip()
        for f in sorted({f for f, _, _ in b["edits"]}):
            orig = run(["git", "-C", "/repo", "show", "%s:src/hera_pspec/%s" % (base, f)]).stdout.split("\n")
            gone = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
            bad = [l for l in gone if l not in orig]
            if bad:
                res.append("NOT ORIGINAL: %s" % bad)
        if tests:
            x = w + "/junit.xml"
            t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--no-cov", "--timeout=300", "--tb=short", "--disable-warnings", "--continue-on-collection-errors",
                     "--basetemp=" + w + "/t", "-o", "junit_family=xunit2", "--junitxml=" + x], cwd=r, env=e2)
            run(["python3", "/opt/vp/results.py", w + "/o.json", "junit:" + x])
            try:
                o = run(["python3", V + "/tools/stable.py", w + "/o.json"]).stdout.strip().split("\n")[-1]
            except Exception as ex:
                o = str(ex)
            res.append(o)
        c = run(["bash", "run.sh", b["property"], "quick", "--no-evidence"], cwd=V, env=dict(os.environ, PV_REPO=r))
        res.append("CHECK rc=%d %s" % (c.returncode, " | ".join(l[:140] for l in c.stdout.split("\n") if l.startswith("law ") or "quick:" in l)))
        return "\n   ".join(res)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    bugs = [b for b in ns["BUGS"] if not ids or b["id"] in ids]
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda b: one(b, "-n" not in sys.argv), bugs):
            print(r, flush=True)
