#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough]: decide one property on /repo's current
tree. Builds the instrumented and the plain library, runs the property's
symbolic drivers (and CBMC harnesses), replays every counterexample against the
plain gcc build, and writes evidence/ID.json."""
import sys, os, json, time, subprocess, tempfile, shutil, re, traceback, math
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + "/engine", V + "/checks"]
import build, props
from concurrent.futures import ThreadPoolExecutor
TIER = os.environ.get("VERIF_TIER", "quick")
if "--tier" in sys.argv: TIER = sys.argv[sys.argv.index("--tier") + 1]
os.environ["VERIF_TIER"] = TIER
os.environ["OPENBLAS_NUM_THREADS"] = "1"; os.environ["OMP_NUM_THREADS"] = "1"
SEED = int(os.environ.get("VERIF_SEED", "1"))
BUDGET = 540 if TIER == "quick" else 3000
TMO = 240 if TIER == "quick" else 1200

def sane(s): return re.sub(r"[^\w.-]+", "_", s)[:100]

class Native:
    """concrete runs of a driver against the plain build"""
    def __init__(self, exe, tmp): self.exe, self.tmp, self.n = exe, tmp, 0
    def text(self, scenario, vals, label=None):
        t = "scenario %s\n" % scenario + ("tier thorough\n" if TIER == "thorough" else "")
        t += "all\n" if label is None else "label %s\n" % label
        return t + "".join("sym %s %.17g\n" % kv for kv in vals.items())
    def run(self, scenario, vals, label=None):
        """-> (state, {label: [(kind,a,b)]}); state: ok | fail MSG | crash | hang"""
        self.n += 1; p = os.path.join(self.tmp, "rp%d_%d" % (os.getpid(), self.n))
        with open(p, "w") as f: f.write(self.text(scenario, vals, None))
        try: q = subprocess.run([self.exe, p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=200)
        except subprocess.TimeoutExpired: return "hang", {}
        os.unlink(p); r = {}; st = "crash"
        for l in q.stdout.splitlines():
            if l.startswith("VAL "):
                _, k, a, b, lab = l.split(" ", 4); r.setdefault(lab, []).append((k, float(a), float(b)))
            elif l.startswith("FAIL "): st = "fail " + l[5:]
            elif l == "DONE" and st == "crash": st = "ok"
        return st, r

def differs(a, b, rtol, atol):
    if not (math.isfinite(a) and math.isfinite(b)): return True
    return abs(a - b) > .5 * (atol + rtol * max(abs(a), abs(b)))

def confirm(nat, sc, v):
    """replay a counterexample; -> (confirmed, text)"""
    lab, k, vals, base, rt, at = v["label"], v["kind"], v["values"], v["base"], v["rtol"], v["atol"]
    if k in ("eq", "poly", "same", "ge", "true"):
        st, r = nat.run(sc, vals)
        if st != "ok": return True, "native run: " + st
        for kk, a, b in r.get(lab, []):
            if kk == "true" and a == 0: return True, "condition is false"
            if kk == "ge" and not (a >= b - .5 * at): return True, "%.12g < %.12g" % (a, b)
            if kk in ("eq", "deriv") and differs(a, b, rt, at): return True, "%.12g != %.12g" % (a, b)
        return False, "does not reproduce"
    get = lambda vv: next(iter(nat.run(sc, vv)[1].get(lab, [(None, math.nan, math.nan)])))
    if k == "jet":   # first-order counterexample: direction vals about base
        def f(h):
            st, r = nat.run(sc, {x: base[x] + h * vals[x] for x in base})
            t = r.get(lab); return (t[0][1], t[0][2]) if st == "ok" and t else None
        def d(h):
            p, m = f(h), f(-h)
            if p and m: return (p[0] - m[0]) / (2 * h), (p[1] - m[1]) / (2 * h)
            s = h if p else -h; q = f(s / 2)       # one-sided at the edge of the box
            e = p or m
            if not e or not q: return math.nan, math.nan
            return tuple((-3 * b0[i] + 4 * q[i] - e[i]) / s for i in (0, 1))
        b0 = f(0.)
        if not b0: return True, "native run fails at the base point"
        if differs(b0[0], b0[1], rt, at): return True, "base values %.12g != %.12g" % b0
        best = None
        for h in (1e-2, 1e-3, 1e-4):
            d1, d2 = d(h), d(h / 2); r = [(4 * y - x) / 3 for x, y in zip(d1, d2)]
            err = max(abs(x - y) for x, y in zip(r, d2))
            if best is None or not best[1] <= err: best = (r, err)
        (a, b), err = best
        if not (math.isfinite(a) and math.isfinite(b)): return False, "no finite difference available"
        tol = at + rt * max(abs(a), abs(b))
        return (abs(a - b) > .5 * tol and err < .25 * abs(a - b)), "slopes %.10g and %.10g (fd error %.2g, tol %.2g)" % (a, b, err, tol)
    if k == "deriv":
        pairs = v["pairs"]; dirs = {x: vals[x] for x in pairs.values()}
        full = dict(base); full.update(dirs); t = get(full); tl = t[2]
        if not math.isfinite(tl): return True, "derivative is not finite"
        def fd(h):
            z = []
            for s in (h, -h):
                w = dict(full); w.update({x: base[x] + s * dirs[p] for x, p in pairs.items()}); z.append(get(w)[1])
            return (z[0] - z[1]) / (2 * h)
        best = None
        for h in (1e-2, 1e-3, 1e-4, 1e-5):
            d1, d2 = fd(h), fd(h / 2); r = (4 * d2 - d1) / 3; err = abs(r - d2)
            if best is None or err < best[1]: best = (r, err)
        r, err = best; tol = at + rt * max(abs(tl), abs(r))
        return (abs(tl - r) > .5 * tol and err < .25 * abs(tl - r)), "reported derivative %.10g, finite difference %.10g (fd error %.2g)" % (tl, r, err)
    return False, "?"

def known(pid):
    p = V + "/known_findings.jsonl"
    return [e for e in map(json.loads, open(p)) if e.get("property") == pid and e.get("status") == "finding"] if os.path.exists(p) else []

def near(x, y): return (math.isnan(x) and math.isnan(y)) or x == y or abs(x - y) <= 1e-5 * max(abs(x), abs(y)) + 1e-9

def match_known(entries, driver, sc, lab, natbase):
    """a finding is identified by driver, scenario, label and the values the
    real code gives there"""
    for i, e in enumerate(entries):
        if e["driver"] != driver or e["scenario"] != sc: continue
        if e.get("state") == "crash" and lab is not None: return i   # memory is already corrupt there
        if lab is None:
            if e.get("state") and natbase[0].startswith(e["state"]): return i
            continue
        w = e.get("values", {}).get(lab)
        if w is None: continue
        g = natbase[1].get(lab)
        if g and near(g[0][1], float(w[0])) and near(g[0][2], float(w[1])): return i
    return None

def main():
    pid = sys.argv[1]; P = props.PROPS[pid]; t0 = time.time()
    entries = known(pid); hit = set(); viol = []; notes = []; stats = {}; fns = set(); samples = []; scen = []; undecided = []; paths = complete = 0; nonlin = 0; obs = 0; symops = 0; per = []; rejected = []
    tmp = tempfile.mkdtemp(prefix="run-", dir=(os.makedirs(build.CACHE, exist_ok=True) or build.CACHE))
    nreplay = 0
    try:
        build.prune()
        drvs = P.get("drivers", [])
        if drvs: build.library("xsym"); build.library("native")
        with ThreadPoolExecutor(8) as ex:
            js = {}
            for d in drvs:
                js[d] = [ex.submit(build.driver, V + "/checks/%s.cpp" % d, tmp + "/%s_%s" % (d, k), k) for k in ("xsym", "native")]
            for d in drvs: [j.result() for j in js[d]]
        for d in drvs:
            nat = Native(tmp + "/%s_native" % d, tmp); out = tmp + "/%s.json" % d
            left = max(60, BUDGET - (time.time() - t0))
            with open(tmp + "/err", "w") as ef:
                subprocess.run([tmp + "/%s_xsym" % d, "--jobs", "8", "--out", out, "--budget", str(left), "--timeout", str(TMO)], stdout=subprocess.DEVNULL, stderr=ef, timeout=left + TMO + 120)
            todo = []
            for l in open(out):
                try: r = json.loads(l)
                except ValueError: continue
                sc, st = r["scenario"], r["status"]
                if st == "coverage":
                    paths += r["paths"]; complete += r["affine_branches_complete"] and r["nonlinear_branches"] == 0; nonlin += r["nonlinear_branches"]; scen.append(sc); continue
                for k, s in r.get("stats", {}).items():
                    e = stats.setdefault(k, dict(q=0, unsat=0, sat=0, unknown=0, t=0.))
                    for f in e: e[f] += s[f]
                fns.update(r.get("fns", [])); obs += r.get("obligations", 0); symops += r.get("symops", 0)
                notes += ["%s: %s" % (sc, n) for n in r.get("notes", [])]
                if st == "ok":
                    if len(samples) < 4 and r.get("sample"): samples.append(dict(scenario=sc, symbols=r.get("symnames", [])[:8], obligation=r["sample"]))
                    if not r.get("obligations"): undecided.append(sc + ": no obligations")
                    if r.get("stats", {}).get("reachability", {}).get("sat", 0) == 0: undecided.append(sc + ": assumptions not shown satisfiable")
                    for v in r["violations"]: todo.append((sc, v, r["n_violations"]))
                    uk = sum(s["unknown"] for k, s in r["stats"].items() if k in ("LRA", "LRA-jet", "LRA-deriv", "NRA", "EUF"))
                    if uk: undecided.append("%s: %d queries unknown" % (sc, uk))
                elif st == "budget": undecided.append(sc + ": not run within the budget")
                else: todo.append((sc, dict(status=st, fail=r.get("fail"), at=r.get("at") or {}, signal=r.get("signal")), 1))
            basecache = {}; seen = {}
            for sc, v, n in todo:
                if sc not in basecache: basecache[sc] = nat.run(sc, {}); nreplay += 1
                if "status" in v:
                    st, _ = nat.run(sc, v["at"]); nreplay += 1
                    if st == "ok": undecided.append("%s: engine %s (%s) does not reproduce natively" % (sc, v["status"], v.get("fail") or v.get("signal"))); continue
                    k = match_known(entries, d, sc, None, (st, {}))
                    if k is not None: hit.add(k); continue
                    viol.append((d, sc, "-", st, dict(values=v["at"]), nat.text(sc, v["at"]))); continue
                k = match_known(entries, d, sc, v["label"], basecache[sc])
                if k is not None: hit.add(k); continue
                if seen.get(sc, 0) >= 3: continue
                try: ok, why = confirm(nat, sc, v)
                except Exception as e: ok, why = False, "replay error %r" % e
                nreplay += 1
                if ok:
                    seen[sc] = seen.get(sc, 0) + 1
                    viol.append((d, sc, v["label"], why, v, nat.text(sc, v["values"], v["label"])))
                else: rejected.append("%s %s: %s" % (sc, v["label"], why)); undecided.append("%s %s: solver counterexample not confirmed: %s" % (sc, v["label"], why))
        import cbmc
        for h, c in cbmc.run_all(P.get("cbmc", []), TIER, tmp).items():
            per.append(c["summary"]); fns.update(c["functions"]); obs += c["properties"]
            e = stats.setdefault("SAT(cbmc)", dict(q=0, unsat=0, sat=0, unknown=0, t=0.)); e["q"] += c["properties"]; e["unsat"] += c["ok"]; e["sat"] += c["failed"]; e["unknown"] += c["unknown"]; e["t"] += c["t"]
            scen.append("cbmc/" + h); undecided += c["undecided"]; samples += c["samples"][:2]
            for f in c["violations"]:
                k = next((i for i, e in enumerate(entries) if e["driver"] == "cbmc" and e["scenario"] == h and e.get("label") == f["label"]), None)
                if k is not None: hit.add(k); continue
                viol.append(("cbmc", h, f["label"], f["why"], {}, f["replay"]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for i, e in enumerate(entries):
        if i in hit: print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    rdir = V + "/evidence/replay"; os.makedirs(rdir, exist_ok=True)
    for i, (d, sc, lab, why, v, text) in enumerate(viol[:10]):
        p = "%s/%s_%d.txt" % (rdir, pid, i)
        with open(p, "w") as f: f.write("# %s: driver checks/%s.cpp scenario %s\n# obligation %s\n# %s\n# kind %s theory %s\n" % (pid, d, sc, lab, why, v.get("kind"), v.get("theory")) + text)
        print("  %s %s: %s" % (sc, lab, why)); print("VIOLATION property=%s replay=%s" % (pid, p))
    thq = {k: dict(queries=s["q"], unsat=s["unsat"], sat=s["sat"], unknown=s["unknown"], seconds=round(s["t"], 3)) for k, s in stats.items() if not k.startswith("path-")}
    disch = sum(s["unsat"] for k, s in stats.items() if not k.startswith("path-") and k not in ("reachability", "ground", "base", "finite"))
    ev = dict(property=pid, tier=TIER, seed=SEED, level="other", wall_s=round(time.time() - t0, 2), violations=len(viol),
        coverage=dict(explanation=P["bounds"], obligations=obs, discharged_by_solver=disch, scenarios=len(scen), scenario_names=sorted(set(scen))[:400], paths=paths, scenarios_whole_box=complete,
            nonlinear_branches_fixed=nonlin, affine_branch_conditions=stats.get("path-conditions-affine", {}).get("q", 0), symbolic_operations=symops, queries=thq,
            solver_seconds=round(sum(s["t"] for s in stats.values()), 3), functions_encoded=sorted(f for f in fns if "xs_main" not in f and not f.startswith("_Z"))[:1000], n_functions=len(fns), replays=nreplay,
            undecided=sorted(set(undecided))[:100], known_findings=[entries[i]["what"] for i in sorted(hit)], counterexamples_not_reproduced=rejected[:20], cbmc=per, samples=samples), assumptions=P.get("assumptions", props.COMMON))
    if notes: ev["coverage"]["notes"] = sorted(set(notes))[:40]
    with open(V + "/evidence/%s.json" % pid, "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d scenarios, %d paths, %d obligations, %d discharged by the solver, %d undecided, %d known, %d violations, %.1f s" % (pid, TIER, len(scen), paths, obs, disch, len(set(undecided)), len(hit), len(viol), time.time() - t0))
    if "-v" in sys.argv:
        for u in sorted(set(undecided)): print("   undecided:", u)
    if not obs: print("nothing was decided"); return 2
    return 1 if viol else 0
if __name__ == "__main__":
    try: sys.exit(main())
    except build.BuildError as e: print("BUILD ERROR", e); sys.exit(2)
