#!/usr/bin/env python3
"""cov.py [driver...]: lines of /repo/src and misc executed by the drivers' base
points (plain gcc build with --coverage); a development aid to find what no
scenario reaches. Output under /tmp/cov."""
import sys, os, glob, subprocess, shutil
sys.path.insert(0, "/verif/engine"); import build
from concurrent.futures import ThreadPoolExecutor
D = "/tmp/cov"; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
open(D + "/shim.c", "w").write(open("/verif/engine/xsym_nat.c").read().replace("return !strcmp(s, scen);", "alarm(20); return !!strncmp(s,\"gap/\",4);").replace("stdlib.h>", "stdlib.h>\n#include <unistd.h>\n"))
jobs, objs = [], []
for s in ("src", "misc"):
    for n in build.objects(s):
        b = "%s/%s/%s" % (build.REPO, s, n); o = "%s/%s__%s.o" % (D, s, n.replace("/", "_"))
        if n == "version": open(D + "/version.c", "w").write(build.VERSION_C); b = D + "/version"
        if os.path.exists(b + ".c"): jobs.append(["gcc", "-O0", "-w", "-fopenmp", "--coverage"] + build.DEFS + build.incs() + ["-c", b + ".c", "-o", o])
        elif os.path.exists(b + ".f"): jobs.append(["gfortran", "-O2", "-w", "-fno-second-underscore", "-ffixed-line-length-none", "-c", b + ".f", "-o", o])
        else: continue
        objs.append(o)
with ThreadPoolExecutor(8) as ex: list(ex.map(build.run, jobs))
build.run(["gcc", "-O1", "-w", "-c", D + "/shim.c", "-I" + build.ENG, "-o", D + "/shim.o"])
names = sys.argv[1:] or [os.path.basename(x)[:-4] for x in glob.glob("/verif/checks/*.cpp")]
open(D + "/rp", "w").write("scenario x\n")
def one(n):
    build.run(["g++", "-O1", "-w", "-fopenmp", "--coverage", "-std=c++17"] + build.DEFS + build.incs() + ["-I" + build.ENG, "-I/verif/checks", "/verif/checks/%s.cpp" % n, "-o", D + "/" + n] + [D + "/shim.o"] + objs + ["-lopenblas", "-lgfortran", "-lm"])
    p = subprocess.run([D + "/" + n, D + "/rp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")); return n, p.returncode, p.stdout[-200:]
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(one, names): print(*r)
os.chdir(D); subprocess.run("gcov -f -n *.gcda > funcs.txt 2>/dev/null; gcov *.gcda >/dev/null 2>&1", shell=True)
import re
t = open("funcs.txt").read(); tot = {}
for m in re.finditer(r"File '(/repo/[^']*\.c)'\nLines executed:([\d.]+)% of (\d+)", t): tot[m[1]] = (float(m[2]), int(m[3]))
for k, (a, b) in sorted(tot.items(), key=lambda x: -(100 - x[1][0]) * x[1][1]): print("%6.1f%% of %5d  %s" % (a, b, k))
