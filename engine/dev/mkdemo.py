#!/usr/bin/env python3
"""mkdemo.py ID < C++ body of main(): writes seeded/ID/{demo.hpp,demo.cpp,demo.sh}.
The demo is a plain program against the built library (no solver involved)."""
import sys, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
d = V + "/seeded/" + sys.argv[1]; os.makedirs(d, exist_ok=True)
stub = """#pragma once
#include <cstdint>
#include <cstdarg>
#include <algorithm>
#include <cmath>
#include <cstdio>
static inline double xs_sym(const char*, double v, double, double) { return v; }
static inline double xs_conc(double v) { return v; }
static inline int xs_issym(double) { return 0; }
static inline const char *xs_label(const char *f, ...) { static char b[8][256]; static int k; k=(k+1)&7; va_list a; va_start(a,f); vsnprintf(b[k],256,f,a); va_end(a); return b[k]; }
"""
strip = lambda s: "".join(l for l in s.splitlines(True) if not re.match(r'#pragma once|#include "', l))
with open(d + "/demo.hpp", "w") as f: f.write(stub + strip(open(V + "/checks/common.hpp").read()) + strip(open(V + "/checks/configs.hpp").read()) + """
static int bad_;
static void same(const char *w, double a, double b, double rt=1e-6, double at=1e-10) { if (!(std::fabs(a-b)<=at+rt*std::max(std::fabs(a),std::fabs(b)))) { printf("%s: %.12g != %.12g\\n",w,a,b); bad_=1; } }
static void same(const Result &a, const Result &b, double rt=1e-6, double at=1e-10) { auto A=outs(a), B=outs(b); if (A.size()!=B.size()) { puts("sizes differ"); bad_=1; return; } for (size_t i=0;i<A.size();i++) same(A[i].name.c_str(),A[i].v,B[i].v,rt,at); }
static Result get(const Scene &s, int solver, int what=RAD|MEAN|FLUX, bool adj=false) { Result r; Str e; if (solver==SOL(SINGLE)) what=RAD; if (!run(s,solver,r,e,what,adj)) { printf("failed: %s\\n",e.c_str()); exit(1); } return r; }
""")
with open(d + "/demo.cpp", "w") as f: f.write('#include "demo.hpp"\nint main() {\n' + sys.stdin.read().rstrip() + "\n  return bad_;\n}\n")
with open(d + "/demo.sh", "w") as f: f.write("""#!/bin/bash
# exit 0: the library behaves; nonzero: it does not
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
B=/repo/_build/tree
g++ -O1 -w -fopenmp -I"$H" -D_GNU_SOURCE -I$B/src -I$B/misc "$H/demo.cpp" -o "$T/demo" $B/src/libxrtm.a $B/misc/libxrtm_misc.a -lopenblas -lgfortran -lm || exit 2
cd "$T" && OPENBLAS_NUM_THREADS=1 timeout 200 ./demo
""")
os.chmod(d + "/demo.sh", 0o755)
