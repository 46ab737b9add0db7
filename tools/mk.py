#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and spec.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import P
from spec import SPEC
NA = {}
try:
    from props import NA
except ImportError:
    pass
with open(V + "/properties.jsonl", "w") as f:
    for i in sorted(P):
        p = P[i]
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
checks = []
for i in sorted(P):
    if i in NA: continue
    sp = SPEC[i]
    checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
        technique=sp["technique"], level=sp.get("level", "exploration"), level_note=sp["note"]))
m = dict(version=1, setup_cmd="python3 run.py setup",
    checks=checks, not_applicable=[dict(property=i, reason=NA[i]) for i in sorted(NA)],
    notes="No hooks in /repo: the monitors observe through the public API, ASan/UBSan/TSan instrumentation of the whole library, allocator and error handlers, and recorded event logs. Every check rebuilds /repo's sources with its own cmake project in /verif/cmake.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties", len(checks), "checks")

# DESIGN.md: hand-written head, then one section per property, the repairs, and the planted bugs
import glob
d = open(V + "/tools/design_head.md").read().rstrip() + "\n\n## Properties and what decides them\n"
for i in sorted(P):
    p = P[i]; d += "\n### %s %s\n\n%s\n\n" % (i, p["title"], p["statement"])
    if i in NA: d += "Not applicable: %s\n" % NA[i]; continue
    sp = SPEC[i]
    d += "* Decided by: %s.\n* Workload and oracle: %s\n* Ranges over: %s.\n* Reaches beyond tests because: %s\n* Harness: %s.\n" % (sp["technique"], sp["rule"], p["text"], p["why"], ", ".join("`%s`" % (h if "." in h else "h/%s.cpp" % h) for h in sp["harness"]))
    for x in sp.get("design", []): d += "* %s\n" % x
d += "\n## Repairs of genuine defects (`fix:` commits in /repo) and known findings\n\n"
for l in open(V + "/known_findings.txt"):
    if l.strip(): d += "* %s\n" % l.strip()
d += "\n## Planted bugs and the checks that catch them\n\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
caught = {}
if os.path.exists(V + "/tools/caught.tsv"):
    for l in open(V + "/tools/caught.tsv"):
        a = l.rstrip("\n").split("\t")
        if len(a) >= 2: caught[a[0]] = a[1]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    d += "| %s | %s | %s | %s | %s |\n" % (n, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), caught.get(n, "not recorded"))
open(V + "/DESIGN.md", "w").write(d)
