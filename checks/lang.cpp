// P: the C++, Fortran 77, Fortran 90 and Python interfaces are the C interface.
#include <Python.h>
#include <numpy/arrayobject.h>
extern "C" PyObject *PyInit_xrtm(void);
#include "configs.hpp"
#include <functional>
#include "xrtm_int_cpp.h"
struct Dim { int nq,ns,nd,nl,nk,nlev,nt,nm,ne,nc,nkq; std::vector<int> ncl; std::vector<xrtm_kernel_type> k;
  int ncl_(int i) const { return i<0||i>=nl?1:ncl[i]; } int np_(int i) const { return i<0||i>=nk?1:kernel_n_params(k[i]); } int npmax() const { int m=0; for (size_t i=0;i<k.size();i++) m=std::max(m,np_(i)); return m; } };
static double *P1(double *v, size_t) { return v; }
static double **P2(double *v, size_t a, size_t b) { double **p=raw_<double*>(a+1); for (size_t i=0;i<a;i++) p[i]=v+i*b; return p; }
static double ***P3(double *v, size_t a, size_t b, size_t c) { double ***p=raw_<double**>(a+1); for (size_t i=0;i<a;i++) p[i]=P2(v+i*b*c,b,c); return p; }
static double ****P4(double *v, size_t a, size_t b, size_t c, size_t d) { double ****p=raw_<double***>(a+1); for (size_t i=0;i<a;i++) p[i]=P3(v+i*b*c*d,b,c,d); return p; }
static double *****P5(double *v, size_t a, size_t b, size_t c, size_t d, size_t e) { double *****p=raw_<double****>(a+1); for (size_t i=0;i<a;i++) p[i]=P4(v+i*b*c*d*e,b,c,d,e); return p; }
// values: a plausible base for everything, symbolic around it
static Scene *sc; static int serial;
static double val_(const char *fn, const char *arg, size_t i, double b) { return R_(xs_label("%s.%s[%d]#%d",fn,arg,(int)i,serial),b,.02); }
static double base_(const Str &a, size_t i, const Dim &D, int n, int layer) {
  if (a.size()>2&&a.substr(a.size()-2)=="_l") return .11+.07*(i%5);
  if (a=="levels_z") return 70-25.*i+2.*i*i; if (a=="levels_b") return .2+.15*i; if (a=="out_taus") return .1+.3*i; if (a=="out_thetas") return 14+20.*i;
  if (a=="g") return .5+.05*i; if (a=="omega") return .75+.05*i; if (a=="ltau") return .3+.2*i; if (a=="params") return 2-i; return .3+.1*i; }
static void fill_(const char *fn, const char *arg, std::vector<int> &v, const Dim &D, int layer) { serial++; Str a=arg;
  for (size_t i=0;i<v.size();i++) v[i]= a=="n_coef_layer" ? (i<D.ncl.size()?D.ncl[i]:1) : i==0 ? 0 : D.nl; }
static void fill_(const char *fn, const char *arg, std::vector<double> &v, const Dim &D, int layer) { serial++; Str a=arg;
  for (size_t i=0;i<v.size();i++) { double b=base_(a,i,D,v.size(),layer);
    if (a=="coef") { int nc=layer>=0?D.ncl_(layer):D.nc, l=layer>=0?layer:(int)(i/(nc*D.ne)%D.nl), e=i/nc%D.ne, k=i%nc; const V1 &c=sc->coef[l][e<(int)sc->coef[l].size()?e:0]; b=k<(int)c.size()?c[k]:0.; if (k==0&&e==0) { v[i]=1.; continue; } if (b==0.) { v[i]=0.; continue; } }
    v[i]=val_(fn,arg,i,b); } }
static void one_(const char *fn, const char *arg, int &v, const std::initializer_list<int> &, const Dim &D, std::initializer_list<int> ix) { v=0; }
static void one_(const char *fn, const char *arg, double &v, const Dim &D, std::initializer_list<int> ix) { serial++; Str a=arg; int k=0; for (int x: ix) k=std::max(k,x); size_t i=ix.size()?*ix.begin():0; if (a=="param") { a="params"; i=ix.size()>1?*(ix.begin()+1):0; }
  double b= a=="d_tau"?1e-3: a=="max_tau"?.01: a=="sos_tol"?1e-9: a=="fourier_tol"?1e-4: a=="lambda"?.55: a=="planet_r"?6371.: a=="theta_0"?35: a=="phi_0"?12: a=="F_0"?1.1: a=="ampfac"?.2+.05*i : base_(a,i,D,1,-1); v=val_(fn,arg,0,b); }
static void one_(const char *fn, const char *arg, int &v, const Dim &D, std::initializer_list<int>) { Str a=arg; v = a=="pade_s"?4: a=="pade_r"?6: a=="max_os"?17: 1; }
// Python
static PyObject *py_type; static int py_skew;
static bool py_start() { if (py_type) return true; if (PyImport_AppendInittab("xrtm",PyInit_xrtm)) return false; Py_InitializeEx(0); if (_import_array()<0) { PyErr_Print(); return false; } PyObject *m=PyImport_ImportModule("xrtm"); if (!m) { PyErr_Print(); return false; } py_type=PyObject_GetAttrString(m,"xrtm"); return py_type!=0; }
static PyObject *py_names(int mask, const char *(*nm)(int)) { PyObject *l=PyList_New(0); for (int i=0;i<32;i++) if ((unsigned)mask>>i&1) { PyObject *s=PyUnicode_FromString(nm((int)(1u<<i))); PyList_Append(l,s); Py_DECREF(s); } return l; }
static PyObject *py_create(const Dim &D, int op, int s, int *k) {
  PyObject *o=py_names(op,[](int m){ return xrtm_option_mask_to_name((xrtm_option_mask)m); }), *v=py_names(s,[](int m){ return xrtm_solver_mask_to_name((xrtm_solver_mask)m); }), *q=PyList_New(0);
  for (int i=0;i<D.nk;i++) { PyObject *x=PyUnicode_FromString(xrtm_kernel_value_to_name((xrtm_kernel_type)k[i])); PyList_Append(q,x); Py_DECREF(x); }
  PyObject *r=PyObject_CallFunction(py_type,"OOiiiiiiiOii",o,v,D.nc,D.nq,D.ns,D.nd,D.nl,1,D.nkq,q,D.nlev,D.nt); if (!r) PyErr_Print(); Py_DECREF(o); Py_DECREF(v); Py_DECREF(q); return r; }
static PyObject *py_array(void *p, int type, int n, std::vector<npy_intp> dims) { size_t c=1; for (auto x: dims) c*=x; if (py_skew&&n) dims[py_skew>n?0:py_skew-1]++; PyObject *a=PyArray_ZEROS(n,dims.data(),type,0); memcpy(PyArray_DATA((PyArrayObject*)a),p,c*(type==NPY_INT?4:8)); return a; }
static PyObject *py_item(PyObject *r, int i, int n) { return n==1?r:PyTuple_Check(r)&&PyTuple_Size(r)==n?PyTuple_GetItem(r,i):0; }
static int py_copy(PyObject *a, void *p, int n, std::vector<npy_intp> dims) { if (!a||!PyArray_Check(a)) return 1; PyArrayObject *x=(PyArrayObject*)a; if (PyArray_NDIM(x)!=n) return 1; for (int i=0;i<n;i++) if (PyArray_DIM(x,i)!=dims[i]) return 1; memcpy(p,PyArray_DATA(x),PyArray_NBYTES(x)); return 0; }
static int py_int(PyObject *a, int *v) { if (!a||!PyLong_Check(a)) return 1; *v=(int)PyLong_AsLong(a); return 0; }
static int py_dbl(PyObject *a, double *v) { if (!a||!PyFloat_Check(a)) return 1; *v=PyFloat_AsDouble(a); return 0; }
static int py_kernel(PyObject *a, int *v) { if (!a||!PyUnicode_Check(a)) return 1; *v=xrtm_kernel_name_to_value(PyUnicode_AsUTF8(a)); return 0; }
#include "api_gen.hpp"
static Api *make(int l) { switch (l) { case 0: return new ApiCpp; case 1: return new ApiF77; case 2: return new ApiF90; default: return py_start()?new ApiPy:0; } }
static void compare(Api &X, Api &Y, const Dim &D, const char *when) {
  visit_get(D,[&](const char *n, bool bad, const std::function<int(Api&, V1&)> &f) { Str nm=n; if (bad||((nm=="qx"||nm=="qw")&&D.nt&&!strcmp(when,"created"))) return; V1 a,b; int ea=f(X,a), eb=f(Y,b); if ((ea!=0)!=(eb!=0)) { xs_check_true(xs_label("%s: %s reports success or failure as C does",when,nm.c_str()),0); return; } if (ea) return;
    for (size_t i=0;i<a.size();i++) xs_check_same(xs_label("%s: %s[%d]",when,nm.c_str(),(int)i),b[i],a[i],1e-12,1e-300); }); }
void xs_main(void) {
  static const char *ln[]={"cpp","f77","f90","python"};
  if (xs_scenario("constants")) for (auto &c: constants()) { xs_check_same(xs_label("%s C++",c.n),c.cpp,c.c,1e-12,1e-300); xs_check_same(xs_label("%s F77",c.n),c.f77,c.c,1e-12,1e-300); xs_check_same(xs_label("%s F90",c.n),c.f90,c.c,1e-12,1e-300); }
  Scene S[3]; const char *cn[]={"all","vector","plain"}; int sol[]={SOL(EIG_BVP),SOL(SINGLE),SOL(EIG_ADD)};
  { Scene s=base2(); s.options|=OPT(CALC_DERIVS)|OPT(PSA)|OPT(SOURCE_THERMAL); s.n_quad=2; s.max_coef=6; s.ltau={.3,.5,.7}; s.omega={.75,.8,.85}; s.coef={hg(.3,4),hg(.5,5),hg(.4,3)}; s.out_thetas={14}; s.l.resize(5); s.kernels={XRTM_KERNEL_LAMBERTIAN,XRTM_KERNEL_ROSS_THICK,XRTM_KERNEL_LI_SPARSE}; s.solvers=SOL(EIG_BVP); S[0]=s; }
  { Scene s=base2(); s.options|=OPT(VECTOR)|OPT(PHASE_MATRIX_GC)|OPT(CALC_DERIVS); s.n_quad=1; s.n_stokes=3; s.max_coef=4; s.coef={mix6(.3,3,.8),mix6(.5,4,.3)}; s.out_thetas={14,34}; s.l.resize(3); s.solvers=SOL(EIG_ADD)|SOL(SINGLE)|SOL(DOUB_ADD); S[1]=s; }
  { Scene s=base2(); s.options&=~OPT(OUTPUT_AT_LEVELS); s.options|=OPT(OUTPUT_AT_LEVELS); s.n_quad=3; s.kernels.clear(); s.solvers=SOL(EIG_ADD)|SOL(SOS)|SOL(PADE_ADD); S[2]=s; }
  for (int l=0;l<4;l++) for (int c=0;c<3;c++) { if (!xs_scenario(xs_label("%s/%s",ln[l],cn[c]))) continue; Scene s=S[c]; sc=&s; serial=0;
    Dim D; D.nq=s.n_quad; D.ns=s.n_stokes; D.nd=(int)s.l.size(); D.nl=s.nl(); D.nk=(int)s.kernels.size(); D.nlev=s.n_out(); D.nt=(int)s.out_thetas.size(); D.nm=s.n_mus(); D.ne=s.n_stokes>1?6:1; D.nc=s.max_coef; D.nkq=s.n_kernel_quad; D.k=s.kernels; for (auto &x: s.coef) D.ncl.push_back((int)x[0].size());
    Api *X=new ApiC, *Y=make(l); if (!Y) { xs_fail("cannot start %s",ln[l]); return; } std::vector<int> k; for (auto x: s.kernels) k.push_back(x); k.push_back(0);
    if (X->create(D,s.options,s.solvers,k.data())) { xs_fail("create"); return; } if (Y->create(D,s.options,s.solvers,k.data())) { xs_check_true("instance created",0); return; }
    compare(*X,*Y,D,"created"); Str last;
    visit_set(D,[&](const char *n, bool bad, const Call &f) { Call g=f; int a=g(*X); Call h=f; int b=h(*Y); if ((a!=0)!=(b!=0)) xs_check_true(xs_label("%s reports success or failure as C does%s",n,bad?" (index out of range)":""),0); });
    { std::vector<int> q=D.ncl; V1 v((size_t)D.nl*D.ne*D.nc); fill_("set_coef_n","coef",v,D,-1); X->set_coef_n(q.data(),v.data()); Y->set_coef_n(q.data(),v.data()); }
    compare(*X,*Y,D,"set");
    if (D.nd) { int a=xrtm_update_varied_layers(((ApiC*)X)->d)!=0, b=Y->update_varied_layers(); xs_check_true("update_varied_layers",a==b); }
    visit_get(D,[&](const char *n, bool bad, const std::function<int(Api&, V1&)> &f) { if (!bad) return; Str nm=n; V1 a,b; int ea=f(*X,a), eb=f(*Y,b); if ((ea!=0)!=(eb!=0)) xs_check_true(xs_label("%s reports success or failure as C does (index out of range)",nm.c_str()),0); });
    if (l==3) { for (py_skew=1;py_skew<3;py_skew++) visit_set(D,[&](const char *n, bool bad, const Call &f) { Str nm=n; if (bad||(nm.substr(nm.size()-2)!="_n"&&nm.substr(nm.size()-2)!="nn")) return; Call h=f; if (!h(*Y)) xs_check_true(xs_label("%s refuses an array of another shape",n),0); }); py_skew=0; compare(*X,*Y,D,"after refused arrays"); }
    for (int m=0;m<11;m++) if (s.solvers&SOLVERS[m].m) visit_solve(D,SOLVERS[m].m,{20,110},[&](const char *n, const std::function<int(Api&, V1&)> &f) { Str nm=n; if (nm=="flux_divergence"||(SOLVERS[m].m==SOL(SINGLE)&&nm!="radiance")||SOLVERS[m].m==SOL(SOS)) return; V1 a,b; int ea=f(*X,a), eb=f(*Y,b);
      if ((ea!=0)!=(eb!=0)) { xs_check_true(xs_label("%s %s reports success or failure as C does",SOLVERS[m].n,nm.c_str()),0); return; } if (ea) return; for (size_t i=0;i<a.size();i++) xs_check_same(xs_label("%s %s [%d]",SOLVERS[m].n,nm.c_str(),(int)i),b[i],a[i],1e-12,1e-300); });
    int a=X->destroy(), b=Y->destroy(); xs_check_true("destroyed",a==b);
  } }
