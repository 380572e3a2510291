#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from checks/props.py"""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/checks")
import props
A = dict(props.PROPS); A.update(props.NA)
with open(V + "/properties.jsonl", "w") as f:
    for k in sorted(A):
        s = A[k]["spec"]; assert len(s["title"]) <= 80, k; f.write(json.dumps(s) + "\n")
m = dict(version=1, setup_cmd="python3 engine/build.py",
  checks=[dict(property=k, quick_cmd="python3 run.py %s --tier quick" % k, thorough_cmd="python3 run.py %s --tier thorough" % k, technique=p["technique"], level="other", level_note=p["level_note"]) for k, p in sorted(props.PROPS.items())],
  not_applicable=[dict(property=k, reason=p["level_note"]) for k, p in sorted(props.NA.items())],
  notes="Solver-based checking of the real code, see DESIGN.md. Each check compiles /repo's current sources with an LLVM pass that records symbolic terms, decides its obligations with Z3 (or CBMC's SAT back end), and replays counterexamples against a plain gcc build.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
# DESIGN.md
import glob
kf = [json.loads(l) for l in open(V + "/known_findings.jsonl")]
T = open(V + "/engine/DESIGN.in.md").read()
def prop(k, p):
    s = p["spec"]
    return "### %s %s\n\n%s\n\n*Decided by* drivers %s%s. %s\n" % (k, s["title"], s["statement"], ", ".join("checks/%s.cpp" % d for d in p["drivers"]) or "-", ("; CBMC harnesses " + ", ".join(p["cbmc"])) if p["cbmc"] else "", p["bounds"])
T = T.replace("@@PROPS@@", "\n".join(prop(k, p) for k, p in sorted(props.PROPS.items())))
T = T.replace("@@NA@@", "\n".join("* %s %s - %s" % (k, p["spec"]["title"], p["level_note"]) for k, p in sorted(props.NA.items())) or "none")
T = T.replace("@@FIXED@@", "\n".join("* " + e["what"] for e in kf if e["status"] == "fixed"))
import re
g = {}
for e in kf:
    if e["status"] == "finding": g.setdefault((e["property"], re.sub(r" \([^()]*\)$", "", e["what"])), []).append(e["scenario"])
T = T.replace("@@KNOWN@@", "\n".join("* %s: %s (%s)" % (a, w, ", ".join(sc)) for (a, w), sc in sorted(g.items())))
sd = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m)); sd.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["what_it_breaks"], j.get("caught", "")))
T = T.replace("@@SEEDED@@", "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(sd))
open(V + "/DESIGN.md", "w").write(T)
