"""Laws, generated-input search, shrinking, replay files, known findings, evidence.

A *law* is an executable statement about hera_pspec: a Hypothesis strategy that draws a plain-JSON case
and a function that builds real objects from the case, runs the code and checks an oracle.  Every random
choice is in the case (arrays are expanded from integer seeds inside the case), so a failing case written
to a file is a complete reproduction.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

from . import boot  # noqa: F401

import numpy as np
from hypothesis import HealthCheck, Phase, given, seed as hseed, settings, strategies as st

ROOT = boot.ROOT


class Skip(Exception):
    """The case is outside the law's domain (counted, never a pass that means anything)."""


QUICK = 3  # multiplies the numbers of quick cases written at the laws


class Law:
    def __init__(self, name, strategy, fn, quick=100, thorough=None, doc="", shards=1, weight=1):
        self.name, self.strategy, self.fn = name, strategy, fn
        thorough = thorough if thorough is not None else quick * 25
        self.n = dict(quick=min(quick * QUICK, max(quick, thorough)), thorough=thorough)
        self.doc = doc or (fn.__doc__ or "").strip()
        self.shards = shards
        self.weight = weight


class Note:
    """Passed to a law: records labels and whether the case was non-trivial."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *ls):
        self.labels.extend(str(x) for x in ls)

    def nt(self, flag=True):
        if flag:
            self.nontrivial = True


def canon(case):
    return json.dumps(case, sort_keys=True, default=_js)


def _js(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


class Hang(Exception):
    """One case did not end within CASE_LIMIT seconds (cases take milliseconds to a few seconds)."""


CASE_LIMIT = 120


def _hang(*_):
    raise Hang("the case did not end within %d s" % CASE_LIMIT)


def run_case(law, case):
    """Run the law once on one case. Returns Note; raises on violation."""
    note = Note()
    random.seed(0)
    np.random.seed(0)
    old = signal.signal(signal.SIGALRM, _hang)
    signal.alarm(CASE_LIMIT)
    try:
        law.fn(json.loads(canon(case)), note)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return note


class _Worker:
    def __init__(self, law, nmax, seed, deadline):
        self.law, self.nmax, self.seed, self.deadline = law, nmax, seed, deadline
        self.evals = 0
        self.skips = 0
        self.late = 0
        self.nt = set()
        self.labels = {}
        self.samples = []
        self.fail = None
        self.fail_t = None

    def body(self, case):
        now = time.time()
        if self.fail is None and now > self.deadline:
            self.late += 1
            return
        if self.fail is not None and now > self.fail_t + 60:
            return  # stop shrinking
        try:
            note = run_case(self.law, case)
        except Skip as e:
            self.labels["skip: %s" % e] = self.labels.get("skip: %s" % e, 0) + 1
            self.skips += 1
            self.evals += 1
            return
        except Exception as e:  # noqa: BLE001  any exception from the code under test breaks the law
            c = canon(case)
            if self.fail is None:
                self.fail_t = now
            if self.fail is None or len(c) <= len(self.fail["json"]):
                self.fail = dict(json=c, error="%s: %s" % (type(e).__name__, str(e)[:2000]),
                                 tb=traceback.format_exc()[-4000:])
            raise
        if self.fail is not None:
            return
        self.evals += 1
        for lb in set(note.labels):
            self.labels[lb] = self.labels.get(lb, 0) + 1
        if note.nontrivial:
            self.nt.add(digest(case))
            if len(self.samples) < 2 and (self.evals % 7 == 3 or self.evals > 10):
                self.samples.append(json.loads(canon(case)))

    def go(self):
        @hseed(self.seed)
        @settings(max_examples=self.nmax, database=None, deadline=None, print_blob=False,
                  report_multiple_bugs=False, derandomize=False, phases=(Phase.generate, Phase.shrink),
                  suppress_health_check=list(HealthCheck))
        @given(self.law.strategy)
        def inner(case):
            self.body(case)

        try:
            inner()
        except Exception as e:  # noqa: BLE001
            if self.fail is None:
                return dict(error="harness: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:]))
        return dict(evals=self.evals, skips=self.skips, late=self.late, nt=sorted(self.nt), labels=self.labels,
                    samples=self.samples, fail=self.fail)


def _task(args):
    prop, lawname, nmax, seed, deadline = args
    mod = load(prop)
    law = next(x for x in mod.LAWS if x.name == lawname)
    t = time.time()
    devnull = open(os.devnull, "w")
    old = sys.stdout
    sys.stdout = devnull
    try:
        r = _Worker(law, nmax, seed, deadline).go()
    finally:
        sys.stdout = old
    r["law"] = lawname
    r["wall"] = time.time() - t
    return r


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def known_lines():
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln and not ln.startswith("#"):
                out.append(ln)
    return out


def known_for(prop):
    """Lines `known: property=C10 law=<law> case=<json> what=<text>` for this property."""
    out = []
    for ln in known_lines():
        if not ln.startswith("known: property=%s " % prop):
            continue
        law = ln.split(" law=", 1)[1].split(" ", 1)[0]
        case, what = ln.split(" case=", 1)[1].split(" what=", 1)
        out.append((law, json.loads(case), what))
    return out


def regressions(prop):
    d = os.path.join(ROOT, "regress")
    out = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.startswith(prop + "-") and f.endswith(".json"):
                r = json.load(open(os.path.join(d, f)))
                out.append((f, r["law"], r["case"]))
    return out


def write_replay(prop, law, fail):
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, law))
    with open(p, "w") as f:
        json.dump(dict(property=prop, law=law, case=json.loads(fail["json"]), error=fail["error"], traceback=fail["tb"],
                       rerun="bash run.sh %s quick --replay %s" % (prop, p)), f, indent=1)
    return p


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--law", action="append")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--procs", type=int, default=int(os.environ.get("PV_PROCS", "8")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    t0 = time.time()

    import hera_pspec

    if not os.path.realpath(hera_pspec.__file__).startswith(os.path.realpath(boot.REPO + "/src") + "/"):
        print("ERROR: hera_pspec imported from", hera_pspec.__file__)
        return 2
    mod = load(prop)
    if hasattr(mod, "setup"):
        mod.setup()
    laws = {x.name: x for x in mod.LAWS}

    if a.replay:
        r = json.load(open(a.replay))
        try:
            run_case(laws[r["law"]], r["case"])
        except Skip:
            print("skip")
            return 0
        except Exception:  # noqa: BLE001
            traceback.print_exc()
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("replay passes")
        return 0

    sel = [x for x in mod.LAWS if not a.law or x.name in a.law]
    violations = []
    known_n = 0

    def quiet_case(law, case):
        old = sys.stdout
        sys.stdout = open(os.devnull, "w")
        try:
            run_case(laws[law], case)
            return None
        except Skip:
            return None
        except Exception as e:  # noqa: BLE001
            return dict(json=canon(case), error="%s: %s" % (type(e).__name__, str(e)[:2000]), tb=traceback.format_exc()[-4000:])
        finally:
            sys.stdout = old

    for law, case, what in known_for(prop):
        if quiet_case(law, case) is not None:
            known_n += 1
            print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)
    reg_n = 0
    for fname, law, case in regressions(prop):
        if a.law and law not in a.law:
            continue
        reg_n += 1
        f = quiet_case(law, case)
        if f is not None:
            f["error"] = "regression %s: %s" % (fname, f["error"])
            violations.append((law, f))

    # time limits: quick runs end well inside 900 s whatever the machine does
    limit = float(os.environ.get("PV_LIMIT", 0)) or (400 if a.tier == "quick" else 3 * 3600)
    deadline = time.time() + limit
    tasks = []
    for law in sel:
        n = max(1, int(law.n[a.tier] * a.scale))
        shards = max(1, min(min(8, 2 * law.shards) if a.tier == "quick" else max(law.shards, 8), n))
        for s in range(shards):
            sd = int(hashlib.sha1(("%d/%s/%s/%d" % (a.seed, prop, law.name, s)).encode()).hexdigest()[:12], 16)
            tasks.append((law.weight, (prop, law.name, -(-n // shards), sd, deadline)))
    tasks.sort(key=lambda x: -x[0])
    tasks = [t for _, t in tasks]
    results = []
    if a.procs <= 1:
        results = [_task(t) for t in tasks]
    else:
        import concurrent.futures as cf

        ctx = mp.get_context("fork")
        with cf.ProcessPoolExecutor(max_workers=min(a.procs, len(tasks)), mp_context=ctx) as ex:
            futs = [ex.submit(_task, t) for t in tasks]
            for f, t in zip(futs, tasks):
                try:
                    results.append(f.result())
                except Exception as e:  # noqa: BLE001  worker died
                    results.append(dict(law=t[1], error="worker died: %r" % e, wall=0))

    per = {}
    errors = []
    for r in results:
        p = per.setdefault(r["law"], dict(evals=0, nt=set(), skips=0, late=0, labels={}, samples=[], wall=0, fails=[]))
        p["wall"] += r["wall"]
        if r.get("error"):
            errors.append("%s: %s" % (r["law"], r["error"]))
            continue
        p["evals"] += r["evals"]
        p["skips"] += r["skips"]
        p["late"] += r["late"]
        p["nt"] |= set(r["nt"])
        for k, v in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
        p["samples"] += r["samples"]
        if r["fail"]:
            p["fails"].append(r["fail"])
    for nm, p in per.items():
        if p["fails"]:
            f = min(p["fails"], key=lambda x: len(x["json"]))
            violations.append((nm, f))
    for law, f in violations:
        path = write_replay(prop, law, f)
        print("law %s: %s" % (law, f["error"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)

    ev = sum(p["evals"] for p in per.values())
    nt = sum(len(p["nt"]) for p in per.values())
    wall = time.time() - t0
    evidence = dict(
        property=prop, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=ev, distinct_nontrivial=nt,
            rule=getattr(mod, "RULE", "").strip() + " A case counts once per law (by hash of the whole case) and only if the law marked it non-trivial.",
            samples=[dict(law=nm, case=s) for nm, p in sorted(per.items()) for s in p["samples"][:1]],
            per_law={nm: dict(evaluations=p["evals"], distinct_nontrivial=len(p["nt"]), outside_domain=p["skips"],
                              not_run_for_time=p["late"], labels=dict(sorted(p["labels"].items())), cpu_s=round(p["wall"], 2),
                              states=laws[nm].doc.split("\n")[0][:300]) for nm, p in sorted(per.items())},
            regression_cases=reg_n, known_findings_reproduced=known_n),
        assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(violations))
    if not a.no_evidence and not a.law:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=_js)
    for nm, p in sorted(per.items()):
        print("  %-34s evals %5d  nontrivial %5d  skips %4d  late %d  %.1fs %s" % (
            nm, p["evals"], len(p["nt"]), p["skips"], p["late"], p["wall"],
            " ".join("%s=%d" % kv for kv in sorted(p["labels"].items())) if os.environ.get("PV_LABELS") else ""))
    print("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1f s" % (prop, a.tier, ev, nt, len(violations), wall))
    if violations:
        return 1
    if errors:
        for e in errors:
            print("ERROR", e)
        return 2
    return 0
