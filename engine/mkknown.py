#!/usr/bin/env python3
"""mkknown.py PROP DRIVER SCENARIO-PREFIX "what": write known-finding entries
(for the maintainer of this file, never called by a check) from a native run of
the driver at its base point: every EQ obligation that fails there."""
import sys, os, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V + "/engine", V + "/checks", V]
import build, run
pid, drv, pre, what = sys.argv[1:5]
tmp = tempfile.mkdtemp(); build.driver(V + "/checks/%s.cpp" % drv, tmp + "/n", "native"); build.driver(V + "/checks/%s.cpp" % drv, tmp + "/x", "xsym")
import subprocess
names = sorted({s for s in subprocess.run([tmp + "/x", "--list"], stdout=subprocess.PIPE, text=True).stdout.split() if s.startswith(pre) or pre in s})
nat = run.Native(tmp + "/n", tmp)
p = V + "/known_findings.jsonl"
old = [l for l in open(p)] if os.path.exists(p) else []
old = [l for l in old if not (json.loads(l).get("property") == pid and json.loads(l).get("driver") == drv and json.loads(l).get("scenario") in names)]
allv = "--all" in sys.argv
for sc in names:
    st, r = nat.run(sc, {})
    e = dict(property=pid, status="finding", driver=drv, scenario=sc, what=what.replace("%s", sc))
    if st != "ok": e["state"] = st
    else:
        v = {lab: [repr(x[0][1]), repr(x[0][2])] for lab, x in r.items() if allv or x[0][0] != "eq" or run.differs(x[0][1], x[0][2], 1e-7, 1e-9)}
        if not v: continue
        e["values"] = v
    old.append(json.dumps(e) + "\n"); print(sc, st, len(e.get("values", {})))
open(p, "w").writelines(old)
import shutil; shutil.rmtree(tmp)
