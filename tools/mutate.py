"""Mutation campaign: small changes of hera_pspec, judged by the laws that execute the changed line.

usage: mutate.py COVDIR OUT.jsonl N SEED [file ...]     (development tool; works on copies of /repo under /tmp/mut.*)
Survivors are read by hand: either equivalent, or a gap to close in a check.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PV_REPO", "/repo")
SRC = REPO + "/src/hera_pspec/"
sys.path.insert(0, os.path.join(HERE, "tools"))
from lawcov import ENV  # noqa: E402

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.BitAnd: "|", ast.BitOr: "&"}
SKIPF = {"_get_arg_parser", "__repr__", "get_pspec_run_argparser"}


def mutants(fn):
    text = open(SRC + fn).read()
    lines = text.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    raw = text.encode()
    tree = ast.parse(text)

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def seg(a, b):
        return raw[a:b].decode()

    def add(n, a, b, new, kind, func):
        if seg(a, b) != new:
            out.append(dict(file=fn, line=n.lineno, a=a, b=b, new=new, old=seg(a, b), kind=kind, func=func))

    def walk(n, func):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            func = n.name if not func else func + "." + n.name
            if n.name in SKIPF or "argparser" in n.name:
                return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.JoinedStr, ast.Assert, ast.Global)):
            return
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if nm in ("warn", "print", "log", "add_argument", "format", "info", "set_title", "set_xlabel", "set_ylabel"):
                return
            if nm in ("conj", "conjugate") and isinstance(f, ast.Attribute) and not n.args:
                a, b = pos(n)
                add(n, a, b, seg(*pos(f.value)), "drop conj", func)
            if isinstance(f, ast.Attribute) and getattr(f.value, "id", "") == "np" and nm in ("abs", "real", "imag", "conj", "sqrt", "copy", "unique", "sort") and len(n.args) == 1 and not n.keywords:
                add(n, *pos(n), seg(*pos(n.args[0])), "drop np." + nm, func)
            if nm == "deepcopy":
                add(n, *pos(n), seg(*pos(n.args[0])), "drop deepcopy", func)
            if nm in ("min", "max") and isinstance(f, ast.Attribute) and getattr(f.value, "id", "") == "np":
                add(n, *pos(f), "np.max" if nm == "min" else "np.min", "minmax", func)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            r = pos(n.left)[1], pos(n.comparators[0])[0]
            t = seg(*r)
            sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}[type(n.ops[0])]
            if t.count(sym) == 1:
                add(n, r[0], r[1], t.replace(sym, CMP[type(n.ops[0])]), "compare", func)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            r = pos(n.left)[1], pos(n.right)[0]
            t = seg(*r)
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.Pow: "**", ast.FloorDiv: "//", ast.BitAnd: "&", ast.BitOr: "|"}[type(n.op)]
            if t.count(sym) >= 1:
                add(n, r[0], r[1], t.replace(sym, BIN[type(n.op)], 1), "binop", func)
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            r = pos(n.target)[1], pos(n.value)[0]
            add(n, r[0], r[1], seg(*r).replace("+=", "-=") if "+=" in seg(*r) else seg(*r).replace("*=", "/=") if "*=" in seg(*r) else seg(*r).replace("/=", "*=").replace("-=", "+="), "augassign", func)
        if isinstance(n, ast.BoolOp):
            r = pos(n.values[0])[1], pos(n.values[1])[0]
            t = seg(*r)
            k, w = (" and ", " or ") if isinstance(n.op, ast.And) else (" or ", " and ")
            kk = k.strip()
            if kk in t.split():
                add(n, r[0], r[1], t.replace(kk, w.strip(), 1), "boolop", func)
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                add(n, *pos(n), "(" + seg(*pos(n.operand)) + ")", "drop not", func)
            elif isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
                add(n, *pos(n), "(" + seg(*pos(n.operand)) + ")", "drop minus", func)
            elif isinstance(n.op, ast.Invert):
                add(n, *pos(n), "(" + seg(*pos(n.operand)) + ")", "drop ~", func)
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, *pos(n), str(not n.value), "bool", func)
            elif isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                add(n, *pos(n), repr(n.value + 1) if n.value in (0, 1) else repr(n.value * 2 if isinstance(n.value, float) else n.value - 1), "const", func)
        if isinstance(n, (ast.If, ast.IfExp)) and not (isinstance(n, ast.If) and all(isinstance(x, ast.Raise) for x in n.body)):
            add(n.test, *pos(n.test), "False", "if false", func)
            add(n.test, *pos(n.test), "True", "if true", func)
        if isinstance(n, (ast.Assign, ast.AugAssign)) and func:
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(n, ast.AugAssign):
                add(n, *pos(n), "pass", "drop assign", func)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and func:
            nm = getattr(n.value.func, "attr", getattr(n.value.func, "id", ""))
            if nm not in ("warn", "print", "log", "check", "close", "flush"):
                add(n, *pos(n), "pass", "drop call", func)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for part in (n.slice.lower, n.slice.upper):
                if part is not None:
                    add(n, *pos(part), "(" + seg(*pos(part)) + ") + 1", "slice", func)
        if isinstance(n, (ast.Continue, ast.Break)):
            add(n, *pos(n), "pass", "drop jump", func)
        body = list(ast.iter_child_nodes(n))
        if isinstance(n, (ast.FunctionDef,)):
            body = n.body  # not the defaults
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
        for ch in body:
            walk(ch, func)

    walk(tree, "")
    good = []
    for m in out:
        s = (raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]).decode()
        try:
            ast.parse(s)
        except SyntaxError:
            continue
        m["id"] = "%s:%d:%d:%s" % (fn, m["line"], m["a"], m["kind"])
        good.append(m)
    return good


def child(jobs, cap):
    """run the laws in order; print the first that fails"""
    sys.path.insert(0, HERE)
    import tempfile
    os.environ.setdefault("PV_SCRATCH", tempfile.mkdtemp())
    from pv import core
    t0 = time.time()
    done = []
    real = sys.stdout
    sys.stdout = open(os.devnull, "w")
    for j in jobs:
        p, l = j.split(".")
        left = cap - (time.time() - t0)
        if left < 3:
            break
        try:
            mod = core.load(p)
            if hasattr(mod, "setup"):
                mod.setup()
            lw = next(x for x in mod.LAWS if x.name == l)
            r = core._Worker(lw, lw.n["quick"], 1, time.time() + min(40, left)).go()
        except Exception as e:
            r = dict(fail=dict(error="load: %r" % e))
        if r.get("fail") or r.get("error"):
            e = r["fail"]["error"] if r.get("fail") else r["error"]
            real.write(json.dumps(dict(killed=j, error=e[:300])) + "\n")
            return
        done.append((j, r["evals"]))
    real.write(json.dumps(dict(killed=None, done=done)) + "\n")


if __name__ == "__main__":
    if sys.argv[1] == "--child":
        child(sys.argv[3:], float(sys.argv[2]))
        sys.stdout.flush()
        os._exit(0)
    cov, outf, N, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:] or ["container.py", "conversions.py", "grouping.py", "loss.py", "noise.py", "plot.py", "pspecbeam.py", "pspecdata.py", "pstokes.py", "utils.py", "uvpspec.py", "uvpspec_utils.py", "uvwindow.py"]
    laws = [json.load(open(os.path.join(cov, f))) for f in os.listdir(cov)]
    by = {}
    size = {}
    for r in laws:
        j = r["prop"] + "." + r["law"]
        size[j] = sum(len(v) for v in r["lines"].values())
        for f, v in r["lines"].items():
            for x in v:
                by.setdefault((f, x), set()).add(j)
    # first-line-of-import lines are executed by no law (imported before); function bodies only
    allm = [m for f in files for m in mutants(f)]
    rnd = random.Random(seed)
    seen = set()
    if os.path.exists(outf):
        seen = {json.loads(x)["id"] for x in open(outf)}
    groups = {}
    unc = 0
    for m in allm:
        js = by.get((m["file"], m["line"]), set())
        if not js:
            unc += 1
            continue
        m["laws"] = sorted(js, key=lambda j: size[j])
        if m["id"] not in seen:
            groups.setdefault((m["file"], m["func"]), []).append(m)
    print(len(allm), "mutants,", unc, "on lines no law executes", file=sys.stderr)
    todo = []
    keys = sorted(groups)
    w = [len(groups[k]) ** 0.6 for k in keys]
    while len(todo) < N and any(groups.values()):
        k = rnd.choices(keys, w)[0]
        if groups[k]:
            todo.append(groups[k].pop(rnd.randrange(len(groups[k]))))
    lock = threading.Lock()
    it = iter(todo)

    def worker(i):
        w = "/tmp/mut.%d" % i
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["cp", "-a", REPO, w], check=True)
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                break
            p = w + "/src/hera_pspec/" + m["file"]
            raw = open(SRC + m["file"], "rb").read()
            with open(p, "wb") as f:
                f.write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
            t = time.time()
            js = m["laws"]
            pick = js[:6] + [j for j in js[6:] if j.split(".")[0] not in {x.split(".")[0] for x in js[:6]}][:4]
            try:
                r = subprocess.run([sys.executable, __file__, "--child", "150"] + pick, env=dict(ENV, PV_REPO=w), capture_output=True, text=True, timeout=330)
                try:
                    res = json.loads(r.stdout.strip().split("\n")[-1])
                except ValueError:
                    res = dict(killed="crash", error=r.stderr[-300:])
            except subprocess.TimeoutExpired:
                res = dict(killed="timeout")
            with open(p, "wb") as f:
                f.write(raw)
            m2 = {k: v for k, v in m.items() if k not in ("laws",)}
            m2.update(res, t=round(time.time() - t, 1), src=raw.decode().split("\n")[m["line"] - 1].strip(), nlaws=len(js), rest=[j for j in js if j not in pick][:20])
            with lock, open(outf, "a") as f:
                f.write(json.dumps(m2) + "\n")
        shutil.rmtree(w, ignore_errors=True)

    ts = [threading.Thread(target=worker, args=(i,)) for i in range(int(os.environ.get("PV_PROCS", "8")))]
    [t.start() for t in ts]
    [t.join() for t in ts]
