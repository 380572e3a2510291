"""Builds, from /repo's current working tree, (1) the xsym-instrumented library
and (2) the plain gcc library, plus the engine itself.  Everything goes into
/verif/.cache (git-ignored), keyed by content hash."""
import hashlib, os, re, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XRTM_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
ENG = os.path.join(VERIF, "engine")
CLANG, CLANGXX = "/usr/bin/clang-18", "/usr/bin/clang++-18"
DEFS = ['-DVERSION="0.93"', "-DGBYTE_ORDER=BYTE_ORDER_LE", "-DNATIVE_SIZE=NATIVE_SIZE_64_BIT", "-DUNIX", "-DPLATFORM=LINUX_GCC"]
XFLAGS = ["-O1", "-g0", "-w", "-ftrivial-auto-var-init=zero", "-Xclang", "-no-enable-noundef-analysis", "-fwrapv", "-fno-delete-null-pointer-checks", "-fPIC", "-fno-strict-aliasing", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off",
          "-fno-builtin", "-std=gnu17"]
NFLAGS = ["-O2", "-fPIC", "-w", "-fno-strict-aliasing", "-fopenmp"]
J = os.cpu_count() or 4

class BuildError(Exception): pass
def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode: raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout
def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]
def done(d): return os.path.exists(os.path.join(d, ".done"))
def finish(tmp, d):
    open(os.path.join(tmp, ".done"), "w").close()
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)

def engine():
    """pass plugin + runtime objects"""
    srcs = sorted(glob.glob(ENG + "/*.cpp") + glob.glob(ENG + "/*.c") + glob.glob(ENG + "/*.h"))
    d = os.path.join(CACHE, "engine-" + sha(srcs))
    if done(d): return d
    os.makedirs(CACHE, exist_ok=True); t = tempfile.mkdtemp(dir=CACHE)
    fl = run(["llvm-config-18", "--cxxflags"]).split()
    with ThreadPoolExecutor(J) as ex:
        a = ex.submit(run, [CLANGXX, "-shared", "-fPIC", "-O1"] + fl + [ENG + "/XsymPass.cpp", "-o", t + "/XsymPass.so"])
        b = ex.submit(run, ["g++", "-O2", "-w", "-std=c++17", "-fPIC", "-c", ENG + "/xsym_rt.cpp", "-o", t + "/xsym_rt.o"])
        c = ex.submit(run, ["gcc", "-O2", "-w", "-c", ENG + "/xsym_nat.c", "-o", t + "/xsym_nat.o"])
        a.result()
        run([CLANG] + XFLAGS + ["-fpass-plugin=" + t + "/XsymPass.so", "-c", ENG + "/lapack_sym.c", "-o", t + "/lapack_sym.o"])
        b.result(); c.result()
    finish(t, d); return d

def objects(sub, var="OBJECTS"):
    """object list of a directory's Makefile (default build)"""
    mk = open(os.path.join(REPO, sub, "Makefile")).read().replace("\\\n", " ")
    mk = re.sub(r"(?ms)^ifdef .*?^endif", "", mk)
    names = []
    for m in re.finditer(r"(?m)^(OBJECTS\w*)\s*\+?=(.*)$", mk):
        if var == "OBJECTS" or m.group(1) == var: names += re.findall(r"([\w./]+)\.o\b", m.group(2))
    return list(dict.fromkeys(names))

def repo_hash(subs):
    fs = []
    for s in subs:
        for e in ("*.c", "*.h", "*.f", "*.f90", "*.cpp", "*.inc", "Makefile"):
            fs += glob.glob(os.path.join(REPO, s, "**", e), recursive=True)
    return sha(sorted(set(fs)))

def incs(): return ["-I" + os.path.join(REPO, x) for x in ("src", "interfaces", "misc")]

VERSION_C = '#include "version.h"\nconst char *build_date = "-";\nconst char *build_sha_1 = "-";\n'

def library(kind, extra_defs=(), subs=("src", "misc")):
    """kind: 'xsym' or 'native' (or 'asan'); returns a static archive"""
    eng = engine() if kind == "xsym" else None
    key = repo_hash(subs) + "-" + hashlib.sha256((open(__file__).read() + "|".join(extra_defs) + "|".join(subs) + (os.path.basename(eng) if eng else "")).encode()).hexdigest()[:8]
    d = os.path.join(CACHE, "lib-%s-%s" % (kind, key)); lib = d + "/libxrtm.a"
    if done(d): return lib
    os.makedirs(CACHE, exist_ok=True); t = tempfile.mkdtemp(dir=CACHE)
    jobs, objs = [], []
    for s in subs:
        for n in objects(s):
            base = os.path.join(REPO, s, n); o = "%s/%s_%s.o" % (t, s, n.replace("/", "_"))
            if n == "version" :
                open(t + "/version.c", "w").write(VERSION_C); src = t + "/version.c"
            elif os.path.exists(base + ".c"): src = base + ".c"
            elif os.path.exists(base + ".f"): src = base + ".f"
            else: continue
            if src.endswith(".f"):
                cmd = ["gfortran", "-O2", "-fPIC", "-w", "-fno-second-underscore", "-ffixed-line-length-none", "-c", src, "-o", o]
            elif kind == "xsym":
                cmd = [CLANG] + XFLAGS + DEFS + list(extra_defs) + incs() + ["-fpass-plugin=" + eng + "/XsymPass.so", "-c", src, "-o", o]
            else:
                fl = NFLAGS + (["-g", "-fsanitize=address,undefined"] if kind == "asan" else [])
                cmd = ["gcc"] + fl + DEFS + list(extra_defs) + incs() + ["-c", src, "-o", o]
            jobs.append(cmd); objs.append(o)
    with ThreadPoolExecutor(J) as ex:
        for f in [ex.submit(run, c) for c in jobs]: f.result()
    run(["ar", "rcs", t + "/libxrtm.a"] + objs)
    finish(t, d)
    return lib

PYINC = ["-I/usr/include/python3.12", "-I/usr/lib/python3/dist-packages/numpy/core/include"]
def interfaces(kind):
    """the language interfaces of /repo (C++, Fortran 77 and 90, Python, Julia), the
    C and C++ parts instrumented, and the generated adapters"""
    import apigen
    eng = engine(); gen = [ENG + "/apigen.py", VERIF + "/checks/api.def", VERIF + "/checks/api_constants.txt", __file__]
    key = repo_hash(("interfaces", "src", "misc")) + "-" + sha(gen, kind + os.path.basename(eng))[:8]
    d = os.path.join(CACHE, "lib-int-%s-%s" % (kind, key))
    if done(d): return d
    os.makedirs(CACHE, exist_ok=True); t = tempfile.mkdtemp(dir=CACHE); apigen.gen(t)
    I = os.path.join(REPO, "interfaces"); objs = []; jobs = []
    for n in ("xrtm_int_cpp.cpp", "xrtm_int_f77_util.c", "xrtm_int_f90_util.c", "xrtm_int_jl_util.c", "xrtm_int_py.c"):
        o = t + "/" + n.split(".")[0] + ".o"; cpp = n.endswith("cpp"); inc = incs() + PYINC
        if kind == "xsym": jobs.append([CLANGXX if cpp else CLANG] + [f for f in XFLAGS if not (cpp and f.startswith("-std"))] + DEFS + inc + ["-fpass-plugin=" + eng + "/XsymPass.so", "-c", I + "/" + n, "-o", o])
        else: jobs.append(["g++" if cpp else "gcc", "-O1", "-fPIC", "-w", "-fno-strict-aliasing"] + DEFS + inc + ["-c", I + "/" + n, "-o", o])
        objs.append(o)
    FF = ["gfortran", "-O1", "-fPIC", "-w", "-ffixed-line-length-none", "-ffree-line-length-none", "-I" + I, "-J" + t]
    def fortran():
        for src, o in ((I + "/xrtm_int_f77.f", "f77.o"), (I + "/xrtm_int_f90.f90", "f90.o"), (t + "/api_f77.f", "api_f77.o"), (t + "/api_f90.f90", "api_f90.o")): run(FF + ["-c", src, "-o", t + "/" + o]); objs.append(t + "/" + o)
    with ThreadPoolExecutor(J) as ex:
        for f in [ex.submit(run, c) for c in jobs] + [ex.submit(fortran)]: f.result()
    run(["ar", "rcs", t + "/libint.a"] + objs)
    finish(t, d); return d

def driver(src, out, kind, extra=(), extra_inc=()):
    """link a driver (C++) against the library of the given kind"""
    eng = engine(); lib = library(kind); extra = list(extra); pre = []
    if "api_gen.hpp" in open(src).read():
        d = interfaces(kind); extra_inc = list(extra_inc) + ["-I" + d, "-DAPI_PYTHON"] + PYINC; pre = [d + "/libint.a"]; extra += ["-rdynamic", "-lpython3.12"]
    inc = incs() + ["-I" + ENG, "-I" + os.path.join(VERIF, "checks")] + list(extra_inc)
    if kind == "xsym":
        o = out + ".o"
        run([CLANGXX] + [f for f in XFLAGS if not f.startswith("-std")] + ["-std=c++17", "-DXSYM", "-fpass-plugin=" + eng + "/XsymPass.so"] + DEFS + inc + ["-c", src, "-o", o])
        run(["g++", "-o", out, o] + list(extra) + [eng + "/xsym_rt.o", "-Wl,--start-group"] + pre + [lib, eng + "/lapack_sym.o", "-Wl,--end-group", "-lz3", "-lopenblas", "-lgfortran", "-lpthread", "-lm"])
    else:
        run(["g++", "-O1", "-w", "-std=c++17"] + DEFS + inc + ["-c", src, "-o", out + ".o"])
        run(["g++", "-fopenmp", "-o", out, out + ".o"] + pre + [eng + "/xsym_nat.o", lib] + list(extra) + ["-lopenblas", "-lgfortran", "-lpthread", "-lm"])
    return out

def prune(keep=6):
    """drop old cached library builds"""
    ds = sorted(glob.glob(CACHE + "/lib-*"), key=os.path.getmtime)
    for d in ds[:-keep]: shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    import time
    t = time.time(); print(engine(), time.time() - t)
    t = time.time(); print(library("xsym"), time.time() - t)
    t = time.time(); print(library("native"), time.time() - t)
