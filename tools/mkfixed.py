#!/usr/bin/env python3
"""Rewrites the `fixed:` lines of known_findings.txt from /repo's fix: commits and tools/fixes.tsv (subject prefix -> property, what failed)."""
import os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True).stdout.splitlines()
sub = {}
for ln in log:
    h, s = ln.split("\t", 1)
    if s.startswith("fix: "):
        sub[s[5:]] = h
rows = [ln.rstrip("\n").split("\t") for ln in open(os.path.join(H, "tools/fixes.tsv")) if ln.strip()]
p = os.path.join(H, "known_findings.txt")
keep = [ln.rstrip("\n") for ln in open(p)] if os.path.exists(p) else []
keep = [ln for ln in keep if not ln.startswith("fixed:")]
out = []
for prop, subject, what in rows:
    out.append("fixed: property=%s %s %s" % (prop, sub.pop(subject), what))
assert not sub, "no entry for %s" % list(sub)
open(p, "w").write("\n".join(keep + out) + "\n")
print(len(out), "fixed entries")
