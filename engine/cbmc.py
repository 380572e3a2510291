"""CBMC side: /repo's own C, compiled by goto-cc from the current tree, linked
with a harness (checks/cb_*.c) and decided by CBMC's SAT back end; every
counterexample is replayed on the plain gcc build before it counts."""
import build, os, re, json, subprocess, struct, time, shutil, tempfile, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks")
# functions replaced by the stand-ins of cb_stub.c: the numerics (quadrature nodes, work space, the solution itself) that the interface properties are not about
STUB = dict(rtutil_math=["gauss_leg_quad", "gauss_leg_quad2"], xrtm_work=["work_init", "work_free"], xrtm_model=["get_solution"])
# setjmp() as called by xrtm_create(): lets a harness stop creation once everything has been checked, before memory is allocated
JMP = "cb_setjmp"

def gotos():
    d = os.path.join(build.CACHE, "goto-" + build.repo_hash(("src", "misc", "interfaces")) + "-" + build.sha([HERE + "/cb_stub.c", os.path.abspath(__file__)])[:8])
    if not build.done(d):
        os.makedirs(build.CACHE, exist_ok=True); t = tempfile.mkdtemp(dir=build.CACHE); jobs = []
        for s in ("src", "misc"):
            for n in build.objects(s):
                f = os.path.join(build.REPO, s, n + ".c")
                if n == "version": f = t + "/version.c"; open(f, "w").write(build.VERSION_C)
                if not os.path.exists(f): continue
                ren = ["-D%s=%s_real" % (x, x) for x in STUB.get(n, [])] + (["-D_setjmp=" + JMP] if n == "xrtm_interface" else []) + (["-Dsnprintf=cb_snprintf", "-Dstrtok_r=cb_strtok_r"] if n == "gindex_name_value" else [])
                jobs.append(["goto-cc"] + build.DEFS + build.incs() + ren + ["-c", f, "-o", "%s/%s_%s.gb" % (t, s, n)])
        jobs.append(["goto-cc", "-c", HERE + "/cb_stub.c", "-o", t + "/stub.gb"])
        with ThreadPoolExecutor(build.J) as ex:
            for j in [ex.submit(build.run, c) for c in jobs]: j.result()
        build.finish(t, d)
    ds = sorted(glob.glob(build.CACHE + "/goto-*"), key=os.path.getmtime)
    for x in ds[:-3]: shutil.rmtree(x, ignore_errors=True)
    return sorted(glob.glob(d + "/*.gb"))

def dbl(bits): return struct.unpack(">d", int(bits, 2).to_bytes(8, "big"))[0]
def hexf(step):
    v = step["value"]; b = v.get("binary"); w = v.get("width")
    if b and len(b) == 64 and v.get("name") == "float": return dbl(b).hex()
    if b: n = int(b, 2); n -= (1 << len(b)) if b[0] == "1" else 0; return float(n).hex()
    return float(v.get("data", "0").rstrip("fl")).hex()

def one(name, gbs, lib, asan, tmp, tier):
    src, h = name.split("/"); c = "%s/%s.c" % (HERE, src); text = open(c).read(); t0 = time.time()
    m = re.search(r"#ifdef %s\b([^\n]*)" % h, text); opt = m.group(1) if m else ""
    unw = (re.search(r"unwind (\d+)", opt) or [0, "60"])[1]; safe = "[memory]" in opt
    w = "%s/%s_%s" % (tmp, src, h); tl = 400 if tier == "quick" else 3000
    build.run(["goto-cc", "-DCBMC", "-D" + h] + build.DEFS + build.incs() + ["-I" + HERE, "-c", c, "-o", w + ".o"])
    build.run(["goto-cc", w + ".o"] + gbs + ["-o", w + ".gb"])
    chk = ["--no-standard-checks"] + (["--pointer-check", "--bounds-check", "--pointer-primitive-check"] if safe else [])
    cmd = ["cbmc", w + ".gb", "--function", "HARNESS", "--unwind", unw, "--unwinding-assertions", "--drop-unused-functions", "--slice-formula", "--json-ui", "--trace", "--verbosity", "8", "--object-bits", "12"] + chk
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=tl)
    except subprocess.TimeoutExpired:
        return dict(summary=dict(harness=name, state="time limit"), functions=[], properties=0, ok=0, failed=0, unknown=1, t=time.time() - t0, undecided=[name + ": time limit"], samples=[], violations=[])
    try: js = json.loads(p.stdout)
    except ValueError: raise build.BuildError("cbmc %s: %s" % (name, p.stdout[-2000:]))
    res = next((e["result"] for e in js if "result" in e), None)
    if res is None: raise build.BuildError("cbmc %s: %s" % (name, [e.get("messageText") for e in js if e.get("messageType") == "ERROR"]))
    props_ = [r for r in res]; reach = any(r["description"] == "REACH" and r["status"] == "FAILURE" for r in props_)
    if not reach: raise build.BuildError("cbmc %s: the end of the harness is unreachable: nothing was checked" % name)
    viol, und, samples, nat = [], [], [], {}
    def native(kind):
        if kind not in nat:
            e = w + "_" + kind; L = lib if kind == "native" else asan()
            build.run(["gcc", "-O1", "-g", "-w", "-fopenmp", "-D" + h] + (["-fsanitize=address,undefined"] if kind == "asan" else []) + build.DEFS + build.incs() + ["-I" + HERE, c, HERE + "/cb_native.c", L, "-lopenblas", "-lgfortran", "-lm", "-o", e]); nat[kind] = e
        return nat[kind]
    fails = [r for r in props_ if r["status"] == "FAILURE" and r["description"] != "REACH"]
    seen = set()
    for r in fails:
        lab = r["description"]; mine = lab.startswith("PROP "); lab = lab[5:] if mine else "%s (%s)" % (lab, r.get("sourceLocation", {}).get("function", "?"))
        if "unwinding assertion" in lab: und.append("%s: %s" % (name, lab)); continue
        if lab in seen: continue
        seen.add(lab); vals = {}
        for s in r.get("trace", []):
            if s.get("stepType") == "assignment" and s.get("sourceLocation", {}).get("function") == "HARNESS" and s.get("assignmentType") in ("variable", "actual-parameter") and re.fullmatch(r"\w+", s.get("lhs", "")) and ("IN_" in text) and "value" in s:
                try: vals[s["lhs"]] = hexf(s)
                except (KeyError, ValueError): pass
        ins = set(re.findall(r"IN_[DI]\((\w+)\)", text)) | {x for x in vals if re.match(r"(a|x|y|i|j|a0|a1|m|l|s)_", x)}
        vals = {k: v for k, v in vals.items() if k in ins}
        rp = "".join("%s %s\n" % kv for kv in vals.items()); f = "%s_%d.rp" % (w, len(seen)); open(f, "w").write(rp)
        kind = "native" if mine else "asan"
        try: q = subprocess.run([native(kind), f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="halt_on_error=1")); rc, out = q.returncode, q.stdout
        except subprocess.TimeoutExpired: rc, out = -1, "hang"
        if mine and "FAIL " + lab in out: viol.append(dict(label=lab, why="fails on the plain build: " + " ".join("%s=%.9g" % (k, float.fromhex(v)) for k, v in vals.items())[:600], replay=rp))
        elif rc not in (0, 1, 3) or "runtime error" in out or "AddressSanitizer" in out: viol.append(dict(label=lab, why="the replay fails: " + (re.search(r"(ERROR: [^\n]*|[^\n]*runtime error[^\n]*)", out) or [0, "code %d" % rc])[1][:300], replay=rp))
        else: und.append("%s: counterexample to '%s' not confirmed natively (%s)" % (name, lab, rp.replace("\n", "; ")[:300]))
    ok = sum(r["status"] == "SUCCESS" for r in props_); unk = sum(r["status"] not in ("SUCCESS", "FAILURE") for r in props_)
    fn = sorted({s for r in props_ for s in [r.get("sourceLocation", {}).get("function")] if s} - {"HARNESS"})
    q = subprocess.run(["goto-instrument", "--drop-unused-functions", "--list-goto-functions", w + ".gb"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace").stdout
    called = sorted(set(fn) | calls(text))
    msgs = " ".join(e.get("messageText", "") for e in js); vc = re.search(r"Generated \d+ VCC\(s\), (\d+) remaining", msgs); sv = re.findall(r"Runtime decision procedure: ([\d.e-]+)", msgs)
    summ = dict(harness=name, assertions=len(props_), proved=ok, refuted=len(fails), vccs_to_solver=int(vc.group(1)) if vc else None, unwind=int(unw), loops_bounded="unwinding assertions", memory_checks=safe, solver_s=round(sum(map(float, sv)), 2), wall_s=round(time.time() - t0, 2))
    samples = [dict(theory="SAT/bit-precise (CBMC)", verdict=r["status"], query="%s: %s" % (name, r["description"])) for r in props_[:2]]
    return dict(summary=summ, functions=called, properties=len(props_) - 1, ok=ok, failed=len(fails), unknown=unk, t=time.time() - t0, undecided=und, samples=samples, violations=viol)

def calls(text):
    return set(re.findall(r"\b(xrtm_\w+)\(", text))

def run_all(names, tier, tmp):
    if not names: return {}
    gbs = gotos(); lib = build.library("native"); import threading; lk = threading.Lock()
    def asan():
        with lk: return build.library("asan")
    with ThreadPoolExecutor(min(7, build.J)) as ex: return dict(zip(names, ex.map(lambda n: one(n, gbs, lib, asan, tmp, tier), names)))

if __name__ == "__main__":
    import sys
    tmp = tempfile.mkdtemp()
    try:
        for n, r in run_all(sys.argv[1:], os.environ.get("VERIF_TIER", "quick"), tmp).items():
            print(r["summary"]); [print("  U", u) for u in r["undecided"]]; [print("  V", v["label"], "|", v["why"]) for v in r["violations"]]
    finally: shutil.rmtree(tmp, ignore_errors=True)
