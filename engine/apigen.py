"""Generates, from checks/api.def (the description of the C interface the language
interfaces are made from, kept here as the specification), one adapter per language
that presents it as the abstract class Api (flat arrays), for checks/lang.cpp."""
import re, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def parse():
    fs = []
    for l in open(HERE + "/checks/api.def"):
        m = re.match(r"subprogram_general\s+(int|double|enum kernel_type)\s+0\s+(\w+)\s+([01])(.*);", l)
        if not m: continue
        ret, name, flag, rest = m.groups(); args = []
        body = rest.split(",", 1)[1] if "," in rest else ""
        for a in filter(None, (x.strip() for x in split(body))):
            t = re.match(r"(int|double|enum solver_mask)\s+(\d)\s*((?:\"[^\"]*\"\s*)*)(\w+)\s+(in|out)", a)
            assert t, (name, a)
            args.append(dict(t="int" if t[1].startswith("enum") else t[1], en=t[1].startswith("enum"), r=int(t[2]), dims=[dim(name, t[4], x) for x in re.findall(r'"([^"]*)"', t[3])], n=t[4], out=t[5] == "out"))
        fs.append(dict(name=name, ret=ret if flag == "1" else None, args=args))
    return fs
def split(s):
    o, q, c = [], False, ""
    for ch in s:
        if ch == '"': q = not q
        if ch == "," and not q: o.append(c); c = ""
        else: c += ch
    return o + [c]
def dim(fn, arg, e):
    if fn in ("qx", "qw"): return "D.nq+D.nt"          # the user angles are part of the rule
    if arg == "out_phis" and e == "d->n_out_thetas": return "D.nm"   # also at quadrature angles
    t = {"d->n_layers + 1": "D.nl+1", "d->n_layers": "D.nl", "d->n_derivs": "D.nd", "d->n_elem": "D.ne", "d->n_coef": "D.nc", "n_coef_layer": "n_coef_layer", "d->n_coef_layer[i_layer]": "D.ncl_(i_layer)",
         "d->n_quad": "D.nq", "d->n_kernel_quad": "D.nkq", "d->n_out_levels": "D.nlev", "d->n_out_thetas": "D.nt", "d->n_out_thetas_2": "D.nm", "n_out_phis": "n_out_phis", "d->n_stokes": "D.ns"}
    if e.startswith("kernel_n_params"): return "D.np_(i_kernel)"
    return t[e]
def ctype(a): return a["t"] + ("*" if a["r"] or a["out"] else "")
def sig(f): return ", ".join([ctype(a) + " " + a["n"] for a in f["args"]] + ([("double" if f["ret"] == "double" else "int") + " *r_"] if f["ret"] else []))
def count(a): return "*".join("(size_t)(%s)" % d for d in a["dims"])
RNG = dict(i_layer="D.nl", i_deriv="D.nd", i_kernel="D.nk", i_param="D.np_(i_kernel)", i_elem="D.ne", i_coef="D.ncl_(i_layer)")
def gen(out):
    fs = parse(); o = []; p = o.append
    p("// generated by engine/apigen.py\n#pragma once\nstruct Api { Dim D; const char *lang; virtual ~Api() {} virtual int create(const Dim &d, int options, int solvers, int *kernels)=0; virtual int destroy()=0;")
    for f in fs: p("  virtual int %s(%s)=0;" % (f["name"], sig(f)))
    p("};")
    # C
    def body_c(f, call, obj):
        v = []
        for a in f["args"]:
            if a["r"] > 1: v.append("P%d(%s, %s)" % (a["r"], a["n"], ", ".join(a["dims"])))
            elif a["en"]: v.append("(%s) %s" % (obj, a["n"]))
            else: v.append(a["n"])
        return "%s(%s)" % (call, ", ".join(v))
    p("struct ApiC: Api { xrtm_data *d; ApiC() { d=(xrtm_data*)calloc(1,sizeof *d); lang=\"c\"; }\n  int create(const Dim &x, int o, int s, int *k) { D=x; return xrtm_create(d,o,s,D.nc,D.nq,D.ns,D.nd,D.nl,1,D.nk,D.nkq,(xrtm_kernel_type*)k,D.nlev,D.nt)!=0; } int destroy() { return xrtm_destroy(d)!=0; }")
    for f in fs:
        c = body_c(f, "xrtm_" + f["name"], "xrtm_solver_mask").replace("(", "(d, ", 1).replace("(d, )", "(d)")
        if not f["ret"]: p("  int %s(%s) { return %s!=0; }" % (f["name"], sig(f), c))
        elif f["ret"] == "double": p("  int %s(%s) { *r_=%s; return xs_conc(*r_)==XRTM_DBL_ERROR; }" % (f["name"], sig(f), c))
        else: p("  int %s(%s) { *r_=%s; return *r_==XRTM_INT_ERROR; }" % (f["name"], sig(f), c))
    p("};")
    p("struct ApiCpp: Api { xrtm_int_cpp *o; ApiCpp() { o=0; lang=\"cpp\"; }\n  int create(const Dim &x, int op, int s, int *k) { D=x; try { o=new xrtm_int_cpp(op,s,D.nc,D.nq,D.ns,D.nd,D.nl,1,D.nk,D.nkq,(xrtm_int_cpp::kernel_type*)k,D.nlev,D.nt); } catch (xrtm_int_cpp::xrtm_errors) { return 1; } return 0; } int destroy() { delete o; o=0; return 0; }")
    for f in fs:
        c = body_c(f, "o->" + f["name"], "xrtm_int_cpp::solver_mask")
        p("  int %s(%s) { try { %s%s; } catch (xrtm_int_cpp::xrtm_errors) { return 1; } return 0; }" % (f["name"], sig(f), "*r_=" if f["ret"] else "", c))
    p("};")
    # Fortran 77 / 90 through the gfortran calling convention
    for L in ("f77", "f90"):
        pre = lambda f: ("xrtm_%s_f77_" if L == "f77" else "s_%s_") % f["name"].lower()
        p('extern "C" {')
        for f in fs:
            a = ["void *d"] + [(x["t"] + "* " + x["n"]) for x in f["args"]]
            if L == "f90":
                for x in f["args"]: a += ["int *m%d_%s" % (i, x["n"]) for i in range(x["r"])]
            if f["ret"]: p("%s %s(%s);" % ("double" if f["ret"] == "double" else "int", pre(f), ", ".join(a)))
            else: p("void %s(%s);" % (pre(f), ", ".join(a + ["int *error"])))
        cr = ("xrtm_create_f77_" if L == "f77" else "s_create_"); de = ("xrtm_destroy_f77_" if L == "f77" else "s_destroy_")
        p("void %s(void*,%s int *error); void %s(void*, int *error); }" % (cr, "int*," * 13, de))
        p("struct Api%s: Api { void *d; Api%s() { d=calloc(1,2264); lang=\"%s\"; }\n  int create(const Dim &x, int o, int s, int *k) { D=x; int e=0, one=1; %s(d,&o,&s,&D.nc,&D.nq,&D.ns,&D.nd,&D.nl,&one,&D.nk,&D.nkq,k,&D.nlev,&D.nt,&e); return e!=0; } int destroy() { int e=0; %s(d,&e); return e!=0; }" % (L.upper(), L.upper(), L, cr, de))
        for f in fs:
            a = ["d"] + [(x["n"] if x["r"] or x["out"] else "&" + x["n"]) for x in f["args"]]; pre_ = ""
            if L == "f90":
                for x in f["args"]:
                    for i in range(x["r"]): pre_ += "int m%d_%s=%s; " % (i, x["n"], x["dims"][i]); a.append("&m%d_%s" % (i, x["n"]))
            if f["ret"]: p("  int %s(%s) { %s*r_=%s(%s); return %s; }" % (f["name"], sig(f), pre_, pre(f), ", ".join(a), "xs_conc(*r_)==XRTM_DBL_ERROR" if f["ret"] == "double" else "*r_==XRTM_INT_ERROR"))
            else: p("  int %s(%s) { %sint e=-99; %s(%s); return e!=0; }" % (f["name"], sig(f), pre_, pre(f), ", ".join(a + ["&e"])))
        p("};")
    # Python
    p("#ifdef API_PYTHON\nstruct ApiPy: Api { PyObject *o; ApiPy() { o=0; lang=\"python\"; }\n  int create(const Dim &x, int op, int s, int *k) { D=x; o=py_create(D,op,s,k); if (!o) PyErr_Clear(); return !o; } int destroy() { Py_CLEAR(o); return 0; }")
    for f in fs:
        ins = [a for a in f["args"] if not a["out"]]; outs = [a for a in f["args"] if a["out"]]
        b = "PyObject *t=PyTuple_New(%d); " % len(ins)
        for i, a in enumerate(ins):
            if a["en"]: v = "PyUnicode_FromString(xrtm_solver_mask_to_name((xrtm_solver_mask)%s))" % a["n"]
            elif a["r"]: v = "py_array(%s, %s, %d, {%s})" % (a["n"], "NPY_DOUBLE" if a["t"] == "double" else "NPY_INT", a["r"], ", ".join("(npy_intp)(%s)" % d for d in a["dims"]))
            else: v = ("PyFloat_FromDouble(%s)" if a["t"] == "double" else "PyLong_FromLong(%s)") % a["n"]
            b += "PyTuple_SetItem(t,%d,%s); " % (i, v)
        b += 'PyObject *q=PyObject_GetAttrString(o,"%s"), *r=PyObject_CallObject(q,t); Py_DECREF(q); Py_DECREF(t); if (!r) { PyErr_Clear(); return 1; } int bad=0; ' % f["name"]
        if f["ret"]: b += "bad=py_%s(r,r_); " % {"int": "int", "double": "dbl", "enum kernel_type": "kernel"}[f["ret"]]
        for i, a in enumerate(outs):
            it = "py_item(r,%d,%d)" % (i, len(outs))
            if a["r"]: b += "bad|=py_copy(%s, %s, %d, {%s}); " % (it, a["n"], a["r"], ", ".join("(npy_intp)(%s)" % d for d in a["dims"]))
            else: b += "bad|=py_%s(%s,%s); " % ("dbl" if a["t"] == "double" else "int", it, a["n"])
        p("  int %s(%s) { %sPy_DECREF(r); return bad; }" % (f["name"], sig(f), b))
    p("};\n#endif")
    # visitors
    p("typedef std::function<int(Api&)> Call;\n// every setter with every index, the last argument list with an index out of range")
    p("static void visit_set(const Dim &D, const std::function<void(const char*, bool, const Call&)> &F) {")
    for f in fs:
        if not f["name"].startswith("set_") : continue
        p("  { "); idx = [a for a in f["args"] if a["n"] in RNG]; ind = ""
        for bad in [None] + idx:
            if bad is None:
                for a in idx: p("    for (int %s=0;%s<%s;%s++)" % (a["n"], a["n"], RNG[a["n"]], a["n"]))
                p("    {"); end = "}"
            else:
                p("    for (int s_=0;s_<2;s_++) { " + " ".join("int %s=0;" % a["n"] for a in idx if a is not bad) + " int %s=s_==0?-1:%s; if (%s) continue;" % (bad["n"], RNG[bad["n"]].replace("D.np_(i_kernel)", "D.npmax()"), "0")); end = "}"
            for a in f["args"]:
                if a["n"] in RNG: continue
                if a["r"]: p("      std::vector<%s> %s(%s); fill_(\"%s\",\"%s\",%s,D,%s);" % (a["t"], a["n"], count(a) if bad is None else "64+" + re.sub(r"D\.(ncl_|np_)\(\w+\)", r"16", count(a)), f["name"], a["n"], a["n"], "i_layer" if any(x["n"] == "i_layer" for x in f["args"]) and bad is None else "-1"))
                elif a["n"] == "n_coef_layer": p("      int n_coef_layer=%s;" % ("D.ncl_(i_layer)" if bad is None else "1"))
                else: p("      %s %s; one_(\"%s\",\"%s\",%s,D,%s);" % (a["t"], a["n"], f["name"], a["n"], a["n"], "{" + ", ".join(x["n"] for x in f["args"] if x["n"] in RNG) + "}"))
            p("      F(\"%s\",%s,[=](Api &A_) mutable { %s return A_.%s(%s); }); }" % (f["name"], "true" if bad else "false", "".join("std::vector<%s> c_%s=%s; " % (a["t"], a["n"], a["n"]) for a in f["args"] if a["r"]), f["name"], ", ".join(("c_%s.data()" % a["n"]) if a["r"] else a["n"] for a in f["args"])))
        p("  }")
    p("}\nstatic void visit_get(const Dim &D, const std::function<void(const char*, bool, const std::function<int(Api&, V1&)>&)> &F) {")
    for f in fs:
        if not f["name"].startswith("get_") and f["name"] not in ("qx", "qw", "kernel_qx", "kernel_qw"): continue
        idx = [a for a in f["args"] if a["n"] in RNG]; outs = [a for a in f["args"] if a["out"]]
        for bad in [None] + idx:
            if bad is None:
                for a in idx: p("    for (int %s=0;%s<%s;%s++)" % (a["n"], a["n"], RNG[a["n"]], a["n"]))
                p("    {")
            else: p("    for (int s_=0;s_<2;s_++) { " + " ".join("int %s=0;" % a["n"] for a in idx if a is not bad) + " int %s=s_==0?-1:%s;" % (bad["n"], RNG[bad["n"]].replace("D.np_(i_kernel)", "D.npmax()")))
            lab = f["name"] + "".join("[%d]" for a in idx)
            b = ""; call = [a["n"] for a in f["args"]]
            for a in outs: b += ("std::vector<%s> o_%s(1+%s); " % (a["t"], a["n"], count(a)) if a["r"] else "%s o_%s=0; " % (a["t"], a["n"])); call[call.index(a["n"])] = ("o_%s.data()" if a["r"] else "&o_%s") % a["n"]
            if f["ret"]: b += "%s r_=0; " % ("double" if f["ret"] == "double" else "int"); call.append("&r_")
            b += "int e_=A_.%s(%s); if (e_) return 1; " % (f["name"], ", ".join(call))
            if f["ret"]: b += "v.push_back(r_); "
            for a in outs: b += ("for (size_t i=0;i<%s;i++) v.push_back(o_%s[i]); " % (count(a), a["n"])) if a["r"] else "v.push_back(o_%s); " % a["n"]
            p("      F(xs_label(\"%s\"%s),%s,[=](Api &A_, V1 &v) { %sreturn 0; }); }" % (lab, "".join("," + a["n"] for a in idx), "true" if bad else "false", b))
    p("}\nstatic void visit_solve(const Dim &D, int solver, const V1 &phis, const std::function<void(const char*, const std::function<int(Api&, V1&)>&)> &F) { int n_out_phis=(int)phis.size(), solutions=7;")
    for f in fs:
        if not any(a["n"] == "solver" for a in f["args"]): continue
        outs = [a for a in f["args"] if a["out"]]; b = ""; call = [a["n"] for a in f["args"]]
        for a in f["args"]:
            if a["r"]:
                call[call.index(a["n"])] = "o_%s.data()" % a["n"]
                b += "std::vector<double> o_%s(1+%s); " % (a["n"], count(a))
                if not a["out"]: b += "for (int i=0;i<D.nm;i++) for (int j=0;j<n_out_phis;j++) o_%s[i*n_out_phis+j]=phis[j]+i; " % a["n"]
        b += "int e_=A_.%s(%s); if (e_) return 1; " % (f["name"], ", ".join(call))
        for a in outs:      # (the flux divergence is not among the outputs the library can give)
            if not a["n"].startswith("flux_div"): b += "for (size_t i=0;i<%s;i++) v.push_back(o_%s[i]); " % (count(a), a["n"])
        p("  F(\"%s\",[=](Api &A_, V1 &v) { %sreturn 0; });" % (f["name"], b))
    p("}")
    # the named constants
    names = re.findall(r"^\s*(XRTM_(?:OPTION|SOLVER|OUTPUT|KERNEL)_\w+)", open(HERE + "/checks/api_constants.txt").read(), re.M)
    p("struct Const { const char *n; long long c, cpp, f77, f90; };\nextern \"C\" { " + " ".join("int k7_%d_(); int k9_%d_();" % (i, i) for i in range(len(names))) + " }")
    p("static std::vector<Const> constants() { return {" + ", ".join("{\"%s\",(int)%s,(int)xrtm_int_cpp::%s,k7_%d_(),k9_%d_()}" % (n, n, n[5:], i, i) for i, n in enumerate(names)) + "}; }")
    open(out + "/api_gen.hpp", "w").write("\n".join(o) + "\n")
    # Fortran 90 shim: explicit shapes (reversed: column major) to the assumed shapes of the module
    o = []; p = o.append
    T = dict(int="integer", double="real(8)")
    for f in fs:
        al = ["d"] + [a["n"] for a in f["args"]] + ["m%d_%s" % (i, a["n"]) for a in f["args"] for i in range(a["r"])]
        fn = f["ret"] is not None; h = ("%s function" % ("real(8)" if f["ret"] == "double" else "integer")) if fn else "subroutine"
        if not fn: al.append("error")
        p("%s s_%s(%s)" % (h, f["name"], ", &\n ".join(al))); p(" use xrtm_int_f90\n implicit none\n type(xrtm_type) :: d")
        for a in f["args"]:
            for i in range(a["r"]): p(" integer :: m%d_%s" % (i, a["n"]))
        for a in f["args"]: p(" %s :: %s%s" % (T[a["t"]], a["n"], "(%s)" % ",".join("m%d_%s" % (i, a["n"]) for i in reversed(range(a["r"]))) if a["r"] else ""))
        c = ", &\n ".join(["d"] + [a["n"] for a in f["args"]])
        if fn: p(" s_%s = xrtm_%s_f90(%s)\nend function" % (f["name"], f["name"], c))
        else: p(" integer :: error\n call xrtm_%s_f90(%s, &\n error)\nend subroutine" % (f["name"], c))
    p("subroutine s_create(d, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, k, a11, a12, error)\n use xrtm_int_f90\n implicit none\n type(xrtm_type) :: d\n integer :: a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, error, k(max(a9,1))\n call xrtm_create_f90(d, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, k, a11, a12, error)\nend subroutine")
    p("subroutine s_destroy(d, error)\n use xrtm_int_f90\n implicit none\n type(xrtm_type) :: d\n integer :: error\n call xrtm_destroy_f90(d, error)\nend subroutine")
    for i, n in enumerate(names): p("integer function k9_%d()\n use xrtm_int_f90\n k9_%d = %s\nend function" % (i, i, n))
    open(out + "/api_f90.f90", "w").write("\n".join(o) + "\n")
    open(out + "/api_f77.f", "w").write("".join("      integer function k7_%d()\n      include 'xrtm_int_f77.inc'\n      k7_%d = %s\n      end function\n" % (i, i, n) for i, n in enumerate(names)))
if __name__ == "__main__": gen(sys.argv[1])
