"""Rewrites the 'fixed:' lines of known_findings.txt from /repo's fix: commits (property by keyword)."""
import subprocess, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [l.rstrip("\n").split("\t") for l in open(V + "/tools/fixmap.tsv") if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
keep = [l for l in open(V + "/known_findings.txt").read().splitlines() if not l.startswith("fixed:")]
out, un = [], []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:") or any(x.split(" ", 1)[1] == 'Revert "%s"' % s for x in log): continue
    m = [p for p, k in MAP if k in s]
    if not m: un.append(l); continue
    out.append("fixed: property=%s %s %s" % (m[0], h, s[5:]))
open(V + "/known_findings.txt", "w").write("\n".join([k for k in keep if k] + out) + "\n")
print(len(out), "fixed entries; unmapped:", *un, sep="\n")
