"""design_notes.md + the laws, rules and assumptions of checks/*.py + fixes.tsv + seeded/ -> DESIGN.md"""
import glob
import importlib
import json
import os
import re
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import pv.boot  # noqa: E402,F401

props = [json.loads(x) for x in open(V + "/properties.jsonl")]
notes = open(V + "/tools/design_notes.md").read()
head, rest = notes.split("\n# Properties\n")
body, tail = rest.split("\n# False alarms", 1)
secs = dict(re.findall(r"^## (C\d\d)\n(.*?)(?=^## |\Z)", body, re.S | re.M))
fixes = [x.rstrip("\n").split("\t") for x in open(V + "/tools/fixes.tsv") if x.strip()]
out = [head.rstrip(), "", "# Properties", "", "Columns: law, generated cases (quick / thorough), what it states.", ""]
for p in props:
    m = importlib.import_module("checks." + p["id"].lower())
    out += ["## %s %s" % (p["id"], p["title"]), "", secs.get(p["id"], "").strip(), "", "| law | quick | thorough | statement |", "|---|---|---|---|"]
    for l in m.LAWS:
        doc = l.doc
        full = " ".join((l.fn.__doc__ or "").split())
        out.append("| %s | %d | %d | %s |" % (l.name, l.n["quick"], l.n["thorough"], (full or doc).replace("|", "/")))
    rule = getattr(m, "RULE", "")
    out += ["", "Non-trivial cases: " + " ".join(str(rule).split())]
    if getattr(m, "ASSUMPTIONS", None):
        out += ["", "Assumptions: " + "; ".join(m.ASSUMPTIONS) + "."]
    n = sum(1 for f in fixes if f[0] == p["id"])
    out += ["", "Genuine defects found and repaired under this property: %d." % n, ""]
out += ["# Seeded bugs", "", "Each was planted from the text of a property; `demo.sh` fails with the patch and passes without it, the stable tests pass with it, and the check of its property reports it.", "", "| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(d))
    out.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), j["property"], j["what_it_breaks"], j["needs"], j.get("caught_by", j["property"])))
camp = V + "/tools/campaign.md"
if os.path.exists(camp):
    out += ["", open(camp).read().rstrip()]
out += ["", "# False alarms" + tail.rstrip(), "", "# Defects repaired in /repo", "", "One `fix:` commit each (commit ids in known_findings.txt); %d in all. None is left unrepaired as a known finding." % len(fixes), ""]
for p in props:
    fs = [f for f in fixes if f[0] == p["id"]]
    if fs:
        out.append("**%s**" % p["id"])
        out.append("")
        out += ["* %s (%s)" % (f[2], f[1]) for f in fs]
        out.append("")
open(V + "/DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
