// xsym runtime: term DAG, symbolic libm, eigenproblem terms, obligations.
#include "xsym.h"
#include <z3++.h>
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <complex>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <chrono>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
using std::string; using std::vector;
typedef uint32_t u32; typedef uint64_t u64;

enum Op : u32 { CONST, SYM, ADD, SUB, MUL, DIV, NEG, SQRT, EXP, LOG, SIN, COS, TAN, ASIN, ACOS, ATAN, ATAN2, POW, EIG, FMOD };
static const char *opname[] = {"const","sym","+","-","*","/","neg","sqrt","exp","log","sin","cos","tan","asin","acos","atan","atan2","pow","eig","fmod"};
struct Node { u32 op, a, b, pad; double v; };
static vector<Node> N;
static vector<u32> HT; static u32 HTmask = 0; 
static const u64 TAG = 0x7FFDull;
struct Sym { string name; double v, lo, hi; u32 node; };
static vector<Sym> S;
struct PC { int pred; u32 a, b; bool out; };
static vector<PC> P; static std::set<std::array<u32,4>> Pset;
static u64 n_symops = 0, n_concretised = 0, n_pivots = 0;
static std::set<string> fns;
static std::map<string,double> overrides;   // base point of the path being executed
static int max_paths = 1, path_no = 0; static string pctext;

static inline u64 bits(double d) { u64 u; memcpy(&u,&d,8); return u; }
static inline double dbl(u64 u) { double d; memcpy(&d,&u,8); return d; }
static inline bool isS(double d) { return (bits(d)>>48)==TAG; }
static inline u32 id(double d) { return (u32)(bits(d)&0xffffffffull); }
static inline double H(u32 i) { return dbl((TAG<<48)|i); }

static inline u64 hsh(u32 op, u32 a, u32 b, u64 v) {
  u64 h = op*0x9E3779B97F4A7C15ull; h ^= a + 0x7F4A7C15 + (h<<6) + (h>>2); h*=0xff51afd7ed558ccdull; h ^= h>>33;
  h ^= b + 0x9E3779B9 + (h<<6) + (h>>2); h*=0xc4ceb9fe1a85ec53ull; h^=h>>29;
  if (op==CONST) { h ^= v; h*=0xff51afd7ed558ccdull; h^=h>>32; } return h; }
static void rehash(size_t n) {
  HT.assign(n, 0); HTmask = n-1;
  for (u32 i=1;i<N.size();++i) { if (N[i].op==SYM||N[i].op==EIG) continue; u64 h=hsh(N[i].op,N[i].a,N[i].b,bits(N[i].v)); u32 p=h&HTmask; while(HT[p]) p=(p+1)&HTmask; HT[p]=i; } }
static u32 mk(u32 op, u32 a, u32 b, double v) {
  if (N.empty()) { N.push_back(Node{CONST,0,0,0,0.}); rehash(1<<16); }
  u64 h=hsh(op,a,b,bits(v)); u32 p=h&HTmask;
  while (HT[p]) { Node &n=N[HT[p]]; if (n.op==op&&n.a==a&&n.b==b&&(op!=CONST||bits(n.v)==bits(v))) return HT[p]; p=(p+1)&HTmask; }
  u32 i=N.size(); N.push_back(Node{op,a,b,0,v}); HT[p]=i;
  if (N.size()*2>HT.size()) rehash(HT.size()*2);
  return i; }
static u32 raw(u32 op, u32 a, u32 b, double v) { if (N.empty()) mk(CONST,0,0,1.); N.push_back(Node{op,a,b,0,v}); return N.size()-1; }
static inline u32 nd(double d) { return isS(d) ? id(d) : mk(CONST,0,0,d); }
static inline double val(double d) { return isS(d) ? N[id(d)].v : d; }

extern "C" {
int xs_symbolic = 1; int xs_thorough = 0;
double xs_conc(double d) { return isS(d) ? N[id(d)].v : d; }
double xs_concretise(double d) { if (isS(d)) { n_concretised++; return N[id(d)].v; } return d; }
int xs_issym(double d) { return isS(d); }
void xs_enter(const char *n, char *flag) { *flag=1; fns.insert(n); }

double xs_add(double a, double b) {
  bool x=isS(a), y=isS(b); if (!x&&!y) return a+b;
  if (!x&&a==0.) return b; if (!y&&b==0.) return a;
  n_symops++; u32 i=nd(a), j=nd(b); if (i>j) std::swap(i,j);
  return H(mk(ADD,i,j,N[i].v+N[j].v)); }
double xs_neg(double a) { if (!isS(a)) return -a; u32 i=id(a); if (N[i].op==NEG) { double r=H(N[i].a); return r; } n_symops++; return H(mk(NEG,i,0,-N[i].v)); }
double xs_sub(double a, double b) {
  bool x=isS(a), y=isS(b); if (!x&&!y) return a-b;
  if (!y&&b==0.) return a; if (!x&&a==0.) return xs_neg(b);
  n_symops++; u32 i=nd(a), j=nd(b); if (i==j) return 0.;
  return H(mk(SUB,i,j,N[i].v-N[j].v)); }
double xs_mul(double a, double b) {
  bool x=isS(a), y=isS(b); if (!x&&!y) return a*b;
  if (!x) { if (a==0.) return 0.; if (a==1.) return b; if (a==-1.) return xs_neg(b); }
  if (!y) { if (b==0.) return 0.; if (b==1.) return a; if (b==-1.) return xs_neg(a); }
  n_symops++; u32 i=nd(a), j=nd(b); if (i>j) std::swap(i,j);
  return H(mk(MUL,i,j,N[i].v*N[j].v)); }
double xs_div(double a, double b) {
  bool x=isS(a), y=isS(b); if (!x&&!y) return a/b;
  if (!x&&a==0.) return 0.; if (!y&&b==1.) return a;
  n_symops++; u32 i=nd(a), j=nd(b); if (i==j) return 1.;
  return H(mk(DIV,i,j,N[i].v/N[j].v)); }

static bool evalp(int p, double a, double b) {
  bool un = std::isnan(a)||std::isnan(b);
  switch (p) { case 0: return false; case 1: return !un&&a==b; case 2: return !un&&a>b; case 3: return !un&&a>=b;
  case 4: return !un&&a<b; case 5: return !un&&a<=b; case 6: return !un&&a!=b; case 7: return !un; case 8: return un;
  case 9: return un||a==b; case 10: return un||a>b; case 11: return un||a>=b; case 12: return un||a<b; case 13: return un||a<=b; case 14: return un||a!=b; default: return true; } }
int xs_fcmp(int p, double a, double b) {
  if (!isS(a)&&!isS(b)) return evalp(p,a,b);
  if (p==7) return 1; if (p==8) return 0;
  if (isS(a)&&isS(b)&&id(a)==id(b)) return evalp(p,0.,0.);
  u32 i=nd(a), j=nd(b); bool r=evalp(p,N[i].v,N[j].v);
  if (Pset.insert({(u32)p,i,j,(u32)r}).second) P.push_back(PC{p,i,j,r});
  return r; }
int64_t xs_toint(double a) {
  if (!isS(a)) return (int64_t)a;
  u32 i=id(a); int64_t r=(int64_t)N[i].v;
  u32 lo=mk(CONST,0,0,r>0?(double)r:(double)r-1), hi=mk(CONST,0,0,r>=0?(double)r+1:(double)r);
  if (Pset.insert({3,i,lo,1}).second) P.push_back(PC{3,i,lo,true});
  if (Pset.insert({4,i,hi,1}).second) P.push_back(PC{4,i,hi,true});
  return r; }
#define UN(name,op,f) double xs_##name(double a) { if (!isS(a)) return f(a); n_symops++; return H(mk(op,id(a),0,f(N[id(a)].v))); }
UN(sqrt,SQRT,::sqrt) UN(exp,EXP,::exp) UN(log,LOG,::log) UN(sin,SIN,::sin) UN(cos,COS,::cos) UN(tan,TAN,::tan)
UN(asin,ASIN,::asin) UN(acos,ACOS,::acos) UN(atan,ATAN,::atan)
double xs_log10(double a) { return isS(a) ? xs_div(xs_log(a), ::log(10.)) : ::log10(a); }
double xs_pow(double a, double b) { if (!isS(a)&&!isS(b)) return ::pow(a,b);
  if (!isS(b)) { if (b==0.) return 1.; if (b==1.) return a; if (b==2.) return xs_mul(a,a); if (b==-1.) return xs_div(1.,a); if (b==0.5) return xs_sqrt(a); }
  n_symops++; u32 i=nd(a), j=nd(b); return H(mk(POW,i,j,::pow(N[i].v,N[j].v))); }
double xs_atan2(double a, double b) { if (!isS(a)&&!isS(b)) return ::atan2(a,b); n_symops++; u32 i=nd(a), j=nd(b); return H(mk(ATAN2,i,j,::atan2(N[i].v,N[j].v))); }
double xs_fmod(double a, double b) { if (!isS(a)&&!isS(b)) return ::fmod(a,b); n_symops++; u32 i=nd(a), j=nd(b); return H(mk(FMOD,i,j,::fmod(N[i].v,N[j].v))); }
double xs_fabs(double a) { if (!isS(a)) return ::fabs(a); return xs_fcmp(4,a,0.) ? xs_neg(a) : a; }
double xs_copysign(double a, double b) { double m=xs_fabs(a); if (!isS(b)) return std::signbit(b)?xs_neg(m):m; return xs_fcmp(4,b,0.)?xs_neg(m):m; }
double xs_fmax(double a, double b) { if (!isS(a)&&!isS(b)) return ::fmax(a,b); return xs_fcmp(4,a,b)?b:a; }
double xs_fmin(double a, double b) { if (!isS(a)&&!isS(b)) return ::fmin(a,b); return xs_fcmp(4,a,b)?a:b; }
double xs_floor(double a) { if (!isS(a)) return ::floor(a); double f=::floor(N[id(a)].v); xs_fcmp(3,a,f); xs_fcmp(4,a,f+1); return f; }
double xs_ceil(double a) { if (!isS(a)) return ::ceil(a); double f=::ceil(N[id(a)].v); xs_fcmp(2,a,f-1); xs_fcmp(5,a,f); return f; }
double xs_round(double a) { return xs_floor(xs_add(a,.5)); }
double xs_sinh(double a) { if (!isS(a)) return ::sinh(a); return xs_mul(.5,xs_sub(xs_exp(a),xs_exp(xs_neg(a)))); }
double xs_cosh(double a) { if (!isS(a)) return ::cosh(a); return xs_mul(.5,xs_add(xs_exp(a),xs_exp(xs_neg(a)))); }
double xs_tanh(double a) { if (!isS(a)) return ::tanh(a); return xs_div(xs_sinh(a),xs_cosh(a)); }
double xs_expm1(double a) { if (!isS(a)) return ::expm1(a); return xs_sub(xs_exp(a),1.); }
double xs_log1p(double a) { if (!isS(a)) return ::log1p(a); return xs_log(xs_add(a,1.)); }
double xs_cbrt(double a) { if (!isS(a)) return ::cbrt(a); return xs_pow(a,1./3.); }
void xs_sincos(double a, double *s, double *c) { *s=xs_sin(a); *c=xs_cos(a); }

double xs_sym(const char *name, double v, double lo, double hi) {
  { auto it=overrides.find(name); if (it!=overrides.end()) v=it->second; }
  u32 k=S.size(); u32 n=raw(SYM,k,0,v); S.push_back(Sym{name,v,lo,hi,n}); return H(n); }

// real Fortran / LAPACK, run on base values
void dgeev_(const char*,const char*,int*,double*,int*,double*,double*,double*,int*,double*,int*,double*,int*,int*);
void dsyev_(const char*,const char*,int*,double*,int*,double*,double*,int*,int*);
void pentdag_(double*,double*,double*,double*,double*,double*,double*,int*) __attribute__((weak));
void pentdag1_(double*,double*,double*,double*,double*,double*,double*,int*) __attribute__((weak));
void pentdag2_(double*,double*,double*,double*,double*,double*,double*,int*) __attribute__((weak));
}

// ---- eigenproblems: terms whose value is the real routine's, first-order
// variation from the eigen equation
typedef std::complex<double> cd;
struct Eig { int n; bool sym; vector<u32> in; vector<double> wr, wi; vector<cd> V, W; u32 out0; vector<vector<double>> jac; };
static vector<std::unique_ptr<Eig>> E;
static std::map<vector<u32>, u32> Emap;
static void inv(int n, vector<cd> a, vector<cd> &x) {
  x.assign(n*n,0.); for (int i=0;i<n;i++) x[i*n+i]=1.;
  for (int c=0;c<n;c++) { int p=c; for (int r=c;r<n;r++) if (std::abs(a[r*n+c])>std::abs(a[p*n+c])) p=r;
    if (p!=c) for (int j=0;j<n;j++) { std::swap(a[c*n+j],a[p*n+j]); std::swap(x[c*n+j],x[p*n+j]); }
    cd d=a[c*n+c]; for (int j=0;j<n;j++) { a[c*n+j]/=d; x[c*n+j]/=d; }
    for (int r=0;r<n;r++) if (r!=c) { cd f=a[r*n+c]; if (f!=0.) for (int j=0;j<n;j++) { a[r*n+j]-=f*a[c*n+j]; x[r*n+j]-=f*x[c*n+j]; } } } }
static Eig *eig_new(int n, bool sym, const vector<u32> &in) { E.emplace_back(new Eig); Eig *e=E.back().get(); e->n=n; e->sym=sym; e->in=in; return e; }
extern "C" {
// outputs: n wr, n wi, n*n VR (column-major)
void xs_dgeev_(const char *jl, const char *jr, int *n_, double *a, int *lda, double *wr, double *wi, double *vl, int *ldvl, double *vr, int *ldvr, double *work, int *lwork, int *info) {
  int n=*n_; bool any=false; for (int j=0;j<n;j++) for (int i=0;i<n;i++) any|=isS(a[i+j**lda]);
  vector<double> A(n*n), V(n*n), WR(n), WI(n), wk(16*n+16); int lw=16*n+16; 
  vector<u32> key{(u32)n,0};
  for (int j=0;j<n;j++) for (int i=0;i<n;i++) { A[i+j*n]=val(a[i+j**lda]); if (any) key.push_back(nd(a[i+j**lda])); }
  dgeev_("N",jr,&n,A.data(),&n,WR.data(),WI.data(),nullptr,&n,V.data(),&n,wk.data(),&lw,info);
  u32 base=0;
  if (any && *info==0) {
    auto it=Emap.find(key);
    if (it!=Emap.end()) base=it->second;
    else {
      Eig *e=eig_new(n,false,vector<u32>(key.begin()+2,key.end())); u32 ei=E.size()-1;
      e->wr=WR; e->wi=WI; e->V.resize(n*n);
      for (int j=0;j<n;j++) { if (WI[j]==0.) for (int i=0;i<n;i++) e->V[i*n+j]=V[i+j*n];
        else if (WI[j]>0.) for (int i=0;i<n;i++) { e->V[i*n+j]=cd(V[i+j*n],V[i+(j+1)*n]); e->V[i*n+j+1]=std::conj(e->V[i*n+j]); } }
      inv(n,e->V,e->W); e->out0=N.size(); base=N.size();
      for (int k=0;k<n;k++) raw(EIG,ei,k,WR[k]);
      for (int k=0;k<n;k++) raw(EIG,ei,n+k,WI[k]);
      for (int k=0;k<n*n;k++) raw(EIG,ei,2*n+k,V[k]);
      Emap[key]=base; n_symops+=n*n;
    }
  }
  for (int k=0;k<n;k++) { wr[k]=base?H(base+k):WR[k]; wi[k]= (base&&WI[k]!=0.)?H(base+n+k):WI[k]; }
  if (*jr=='V'||*jr=='v') for (int j=0;j<n;j++) for (int i=0;i<n;i++) vr[i+j**ldvr]=base?H(base+2*n+i+j*n):V[i+j*n];
}
void xs_dsyev_(const char *jz, const char *ul, int *n_, double *a, int *lda, double *w, double *work, int *lwork, int *info) {
  int n=*n_; bool lo=(*ul=='L'||*ul=='l'), any=false;
  vector<double> A(n*n), WR(n), wk(16*n+16); int lw=16*n+16; vector<u32> key{(u32)n,1};
  for (int j=0;j<n;j++) for (int i=0;i<n;i++) { double x = (lo ? i>=j : i<=j) ? a[i+j**lda] : a[j+i**lda]; any|=isS(x); A[i+j*n]=val(x); }
  if (any) for (int j=0;j<n;j++) for (int i=0;i<n;i++) key.push_back(nd((lo ? i>=j : i<=j) ? a[i+j**lda] : a[j+i**lda]));
  vector<double> V=A; dsyev_(jz,ul,&n,V.data(),&n,WR.data(),wk.data(),&lw,info);
  u32 base=0;
  if (any && *info==0) { auto it=Emap.find(key);
    if (it!=Emap.end()) base=it->second;
    else { Eig *e=eig_new(n,true,vector<u32>(key.begin()+2,key.end())); u32 ei=E.size()-1;
      e->wr=WR; e->wi.assign(n,0.); e->V.resize(n*n); for (int j=0;j<n;j++) for (int i=0;i<n;i++) e->V[i*n+j]=V[i+j*n];
      inv(n,e->V,e->W); base=N.size(); e->out0=base;
      for (int k=0;k<n;k++) raw(EIG,ei,k,WR[k]);
      for (int k=0;k<n;k++) raw(EIG,ei,n+k,0.);
      for (int k=0;k<n*n;k++) raw(EIG,ei,2*n+k,V[k]);
      Emap[key]=base; n_symops+=n*n; } }
  for (int k=0;k<n;k++) w[k]=base?H(base+k):WR[k];
  for (int j=0;j<n;j++) for (int i=0;i<n;i++) a[i+j**lda]=base?H(base+2*n+i+j*n):V[i+j*n];
}
// Fortran pentadiagonal solver: C model acts on the terms, the real routine on
// base values; where they disagree the real routine's (concrete) result stands.
static u64 n_fortran_mismatch=0;
static bool anysym(const double *p, int n) { for (int i=0;i<n;i++) if (isS(p[i])) return true; return false; }
static vector<double> vals(const double *p, int n) { vector<double> v(n); for (int i=0;i<n;i++) v[i]=val(p[i]); return v; }
static bool near_(double a, double b) { return std::fabs(a-b)<=1e-9*(std::fabs(a)+std::fabs(b))+1e-14; }
#define AT(x,i) x[(i)-1]
void xs_pentdag1_(double *a,double *b,double *c,double *d,double *e,double *p,double *q,int *n_) {
  int n=*n_; bool s=anysym(a,n)||anysym(b,n)||anysym(c,n)||anysym(d,n)||anysym(e,n);
  vector<double> va=vals(a,n),vb=vals(b,n),vc=vals(c,n),vd=vals(d,n),ve=vals(e,n),vp(n),vq(n);
  pentdag1_(va.data(),vb.data(),vc.data(),vd.data(),ve.data(),vp.data(),vq.data(),n_);
  if (s) {
    vector<double> P_(n),Q_(n); double bet=xs_div(1.,c[0]);
    P_[0]=xs_neg(xs_mul(d[0],bet)); Q_[0]=xs_neg(xs_mul(e[0],bet));
    if (n>1) { bet=xs_add(c[1],xs_mul(b[1],P_[0])); bet=xs_div(-1.,bet); P_[1]=xs_mul(xs_add(d[1],xs_mul(b[1],Q_[0])),bet); Q_[1]=xs_mul(e[1],bet); }
    for (int i=2;i<n;i++) { bet=xs_add(b[i],xs_mul(a[i],P_[i-2])); double den=xs_add(xs_add(c[i],xs_mul(a[i],Q_[i-2])),xs_mul(bet,P_[i-1]));
      den=xs_div(-1.,den); P_[i]=xs_mul(xs_add(d[i],xs_mul(bet,Q_[i-1])),den); Q_[i]=xs_mul(e[i],den); }
    bool ok=true; for (int i=0;i<n-1;i++) ok&=near_(val(P_[i]),vp[i]); for (int i=0;i<n-2;i++) ok&=near_(val(Q_[i]),vq[i]);
    if (ok) { for (int i=0;i<n;i++) { p[i]=P_[i]; q[i]=Q_[i]; } return; } n_fortran_mismatch++; }
  for (int i=0;i<n;i++) { p[i]=vp[i]; q[i]=vq[i]; } }
void xs_pentdag2_(double *a,double *b,double *c,double *f,double *u,double *p,double *q,int *n_) {
  int n=*n_; bool s=anysym(a,n)||anysym(b,n)||anysym(c,n)||anysym(f,n)||anysym(p,n)||anysym(q,n);
  vector<double> va=vals(a,n),vb=vals(b,n),vc=vals(c,n),vf=vals(f,n),vu(n),vp=vals(p,n),vq=vals(q,n);
  pentdag2_(va.data(),vb.data(),vc.data(),vf.data(),vu.data(),vp.data(),vq.data(),n_);
  if (s) { vector<double> U(n); U[0]=xs_mul(f[0],xs_div(1.,c[0]));
    if (n>1) { double bet=xs_div(-1.,xs_add(c[1],xs_mul(b[1],p[0]))); U[1]=xs_mul(xs_sub(xs_mul(b[1],U[0]),f[1]),bet); }
    for (int i=2;i<n;i++) { double bet=xs_add(b[i],xs_mul(a[i],p[i-2])); double den=xs_div(-1.,xs_add(xs_add(c[i],xs_mul(a[i],q[i-2])),xs_mul(bet,p[i-1])));
      U[i]=xs_mul(xs_sub(xs_add(xs_mul(a[i],U[i-2]),xs_mul(bet,U[i-1])),f[i]),den); }
    if (n>1) U[n-2]=xs_add(U[n-2],xs_mul(p[n-2],U[n-1]));
    for (int i=n-3;i>=0;i--) U[i]=xs_add(U[i],xs_add(xs_mul(p[i],U[i+1]),xs_mul(q[i],U[i+2])));
    bool ok=true; double sc=0; for (int i=0;i<n;i++) sc=std::max(sc,std::fabs(vu[i])); for (int i=0;i<n;i++) ok&=std::fabs(val(U[i])-vu[i])<=1e-9*sc+1e-14;
    if (ok) { for (int i=0;i<n;i++) u[i]=U[i]; return; } n_fortran_mismatch++; }
  for (int i=0;i<n;i++) u[i]=vu[i]; }
void xs_pentdag_(double *a,double *b,double *c,double *d,double *e,double *f,double *u,int *n_) {
  vector<double> p(*n_), q(*n_); xs_pentdag1_(a,b,c,d,e,p.data(),q.data(),n_); xs_pentdag2_(a,b,c,f,u,p.data(),q.data(),n_); }
void xs_dasymtx_(void) { fprintf(stderr,"xsym: dasymtx unsupported\n"); abort(); }
void xs_asymtx_(void) { abort(); }
void xs_dgesv_(void) { abort(); } void xs_dgtsv_(void) { abort(); } void xs_dgbsv_(void) { abort(); }
void xs_dgecon_() __attribute__((weak)); void xs_dgecon_() { abort(); }
}

// ---- obligations
enum Kind { EQ, POLY, SAME, GE, TRUE_, DERIV };
static const char *kname[]={"eq","poly","same","ge","true","deriv"};
struct Ob { Kind k; string label; u32 a, b; double rtol, atol; int grp; };
static vector<Ob> O;
static std::map<int, vector<std::pair<u32,u32>>> G;   // group -> (x node, d node)
static string cur, failmsg; static vector<string> notes;
static string sel; static bool listing=false; static vector<string> names;
extern "C" {
void xs_explore(int n) { max_paths=n; }
int xs_scenario(const char *name) { if (listing) { names.push_back(name); return 0; } if (sel==name) { cur=name; return 1; } return 0; }
void xs_fail(const char *fmt, ...) { char b[1024]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); if (failmsg.empty()) failmsg=b; }
void xs_note(const char *fmt, ...) { char b[1024]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); notes.push_back(b); }
const char *xs_label(const char *fmt, ...) { static char b[8][256]; static int k=0; k=(k+1)%8; va_list ap; va_start(ap,fmt); vsnprintf(b[k],256,fmt,ap); va_end(ap); return b[k]; }
void xs_check_eq(const char *l,double a,double b,double r,double t) { O.push_back(Ob{EQ,l,nd(a),nd(b),r,t,0}); }
void xs_check_poly(const char *l,double a,double b,double r,double t) { O.push_back(Ob{POLY,l,nd(a),nd(b),r,t,0}); }
void xs_check_same(const char *l,double a,double b,double r,double t) { O.push_back(Ob{SAME,l,nd(a),nd(b),r,t,0}); }
void xs_check_ge(const char *l,double a,double b,double t) { O.push_back(Ob{GE,l,nd(a),nd(b),0,t,0}); }
void xs_check_true(const char *l,int c) { O.push_back(Ob{TRUE_,l,(u32)(c!=0),0,0,0,0}); }
void xs_pair(int g,double x,double d) { G[g].push_back({nd(x),nd(d)}); }
void xs_check_deriv(const char *l,double b,double t,int g,double r,double at) { O.push_back(Ob{DERIV,l,nd(b),nd(t),r,at,g}); }
}

static string js(const string &s) { string r="\""; for (char c: s) { if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if ((unsigned char)c<32) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
static string num(double v) { char b[40]; if (std::isnan(v)||std::isinf(v)) return "null"; snprintf(b,40,"%.17g",v); return b; }
static string rat(double v) { // exact rational of a double
  if (v==0) return "0"; int e; double m=std::frexp(v,&e); int64_t im=(int64_t)std::ldexp(m,53); e-=53; 
  char b[64]; string neg; 
  if (e>=0) { // im*2^e
    snprintf(b,64,"%lld",(long long)im); string s=b; z3::context *c=nullptr; (void)c; // expand via long multiplication
    bool ng=s[0]=='-'; if (ng) s=s.substr(1); for (int k=0;k<e;k++) { string t; int cy=0; for (int i=s.size()-1;i>=0;i--) { int d=(s[i]-'0')*2+cy; t+=char('0'+d%10); cy=d/10; } if (cy) t+=char('0'+cy); std::reverse(t.begin(),t.end()); s=t; } return (ng?"-":"")+s; }
  if (e<-300) { return "0"; }   // below 1e-90: treated as 0
  while (e<0 && im%2==0) { im/=2; e++; }
  snprintf(b,64,"%lld",(long long)im); string den="1"; for (int k=0;k<-e;k++) { string t; int cy=0; for (int i=den.size()-1;i>=0;i--) { int d=(den[i]-'0')*2+cy; t+=char('0'+d%10); cy=d/10; } if (cy) t+=char('0'+cy); std::reverse(t.begin(),t.end()); den=t; }
  return string(b)+(e<0?"/"+den:""); }

// forward-mode evaluation of the cone of the obligations: per node a sparse
// gradient with respect to the symbols and a degree (0 const,1 affine,2 other)
static vector<int> J; static vector<uint8_t> deg; static vector<vector<std::pair<u32,double>>> g;
typedef vector<std::pair<u32,double>> SV;
static void axpy(SV &r, double a, const SV &x, double b, const SV &y) {
  r.clear(); r.reserve(x.size()+y.size()); size_t i=0,j=0;
  while (i<x.size()||j<y.size()) {
    if (j>=y.size()||(i<x.size()&&x[i].first<y[j].first)) { r.push_back({x[i].first,a*x[i].second}); i++; }
    else if (i>=x.size()||y[j].first<x[i].first) { r.push_back({y[j].first,b*y[j].second}); j++; }
    else { r.push_back({x[i].first,a*x[i].second+b*y[j].second}); i++; j++; } } }
static void scale(SV &r, double a, const SV &x) { r.clear(); r.reserve(x.size()); for (auto &p: x) r.push_back({p.first,a*p.second}); }
static void eigjac(Eig *e) { // jac[out] sparse gradient as dense over symbols
  int n=e->n; int K=S.size(); e->jac.assign(2*n+n*n, vector<double>(K,0.));
  vector<double> dA(n*n);
  for (int s=0;s<K;s++) {
    bool any=false;
    for (int j=0;j<n;j++) for (int i=0;i<n;i++) { double x=0; for (auto &p: g[e->in[i+j*n]]) if ((int)p.first==s) x=p.second; dA[i*n+j]=x; any|=x!=0; }
    if (!any) continue;
    // M = W dA V
    vector<cd> T(n*n,0.), M(n*n,0.);
    for (int i=0;i<n;i++) for (int k=0;k<n;k++) if (dA[i*n+k]!=0.) for (int j=0;j<n;j++) T[i*n+j]+=dA[i*n+k]*e->V[k*n+j];
    for (int i=0;i<n;i++) for (int k=0;k<n;k++) for (int j=0;j<n;j++) M[i*n+j]+=e->W[i*n+k]*T[k*n+j];
    for (int j=0;j<n;j++) {
      cd lj(e->wr[j],e->wi[j]); e->jac[j][s]=M[j*n+j].real(); e->jac[n+j][s]=M[j*n+j].imag();
      vector<cd> dv(n,0.);
      for (int i=0;i<n;i++) if (i!=j) { cd dl=lj-cd(e->wr[i],e->wi[i]); /* a perturbation that does not couple a degenerate pair leaves it alone */ if (std::abs(dl)<1e-13*std::abs(lj) && std::abs(M[i*n+j])<1e-10*(std::abs(lj)+std::abs(M[j*n+j]))) continue; cd c=M[i*n+j]/dl; for (int k=0;k<n;k++) dv[k]+=c*e->V[k*n+i]; }
      cd c=0.; double nn=0.; for (int k=0;k<n;k++) { c+=std::conj(e->V[k*n+j])*dv[k]; nn+=std::norm(e->V[k*n+j]); } c/=nn;
      for (int k=0;k<n;k++) dv[k]-=c*e->V[k*n+j];
      if (e->wi[j]==0.) for (int k=0;k<n;k++) e->jac[2*n+k+j*n][s]=dv[k].real();
      else if (e->wi[j]>0.) for (int k=0;k<n;k++) { e->jac[2*n+k+j*n][s]=dv[k].real(); e->jac[2*n+k+(j+1)*n][s]=dv[k].imag(); }
    } } }
static void evaluate() {
  size_t n=N.size(); vector<uint8_t> need(n,0);
  for (auto &o: O) if (o.k!=TRUE_) { need[o.a]=1; need[o.b]=1; }
  for (auto &kv: G) for (auto &p: kv.second) { need[p.first]=1; need[p.second]=1; }
  for (auto &p: P) { need[p.a]=1; need[p.b]=1; }
  for (size_t i=n;i-->1;) if (need[i]) { Node &x=N[i]; switch(x.op) { case CONST: case SYM: break;
      case EIG: for (u32 k: E[x.a]->in) need[k]=1; break;
      case ADD: case SUB: case MUL: case DIV: case POW: case ATAN2: case FMOD: need[x.b]=1; /* fallthrough */ default: need[x.a]=1; } }
  deg.assign(n,0); g.assign(n,SV());
  for (size_t i=1;i<n;i++) if (need[i]) { Node &x=N[i]; double va=0,vb=0; u32 a=x.a,b=x.b; 
    if (x.op!=SYM&&x.op!=EIG&&x.op!=CONST) { va=N[a].v; vb=N[b].v; }
    auto un=[&](double d){ deg[i]=deg[a]?2:0; scale(g[i],d,g[a]); };
    switch (x.op) {
    case CONST: break;
    case SYM: deg[i]=1; g[i].push_back({x.a,1.}); break;
    case ADD: deg[i]=std::max(deg[a],deg[b]); axpy(g[i],1.,g[a],1.,g[b]); break;
    case SUB: deg[i]=std::max(deg[a],deg[b]); axpy(g[i],1.,g[a],-1.,g[b]); break;
    case MUL: deg[i]=std::min(2,deg[a]+deg[b]); axpy(g[i],vb,g[a],va,g[b]); break;
    case DIV: deg[i]=deg[b]?2:deg[a]; axpy(g[i],1./vb,g[a],-va/(vb*vb),g[b]); break;
    case NEG: deg[i]=deg[a]; scale(g[i],-1.,g[a]); break;
    case SQRT: un(.5/::sqrt(va)); break;
    case EXP: un(x.v); break; case LOG: un(1./va); break;
    case SIN: un(::cos(va)); break; case COS: un(-::sin(va)); break; case TAN: un(1.+x.v*x.v); break;
    case ASIN: un(1./::sqrt(1.-va*va)); break; case ACOS: un(-1./::sqrt(1.-va*va)); break; case ATAN: un(1./(1.+va*va)); break;
    case POW: deg[i]=(deg[a]||deg[b])?2:0; axpy(g[i], vb*::pow(va,vb-1.), g[a], deg[b]?x.v*::log(va):0., g[b]); break;
    case ATAN2: deg[i]=(deg[a]||deg[b])?2:0; axpy(g[i], vb/(va*va+vb*vb), g[a], -va/(va*va+vb*vb), g[b]); break;
    case FMOD: deg[i]=(deg[a]||deg[b])?2:0; axpy(g[i], 1., g[a], -std::trunc(va/vb), g[b]); break;
    case EIG: { Eig *e=E[x.a].get(); bool any=false; for (u32 k: e->in) any|=deg[k]>0; deg[i]=any?2:0;
      if (e->jac.empty()) eigjac(e);
      auto &row=e->jac[x.b]; for (u32 s=0;s<row.size();s++) if (row[s]!=0.) g[i].push_back({s,row[s]}); break; }
    } } }

// polynomial normal form (monomial -> coefficient), for POLY obligations
typedef std::map<vector<u32>,double> Poly;
static std::unordered_map<u32,std::unique_ptr<Poly>> pmemo; static bool polyfail;
static const Poly &poly(u32 i) {
  auto it=pmemo.find(i); if (it!=pmemo.end()) return *it->second;
  auto r=std::make_unique<Poly>(); Node x=N[i];
  auto addto=[&](const Poly &p,double s){ for (auto &kv: p) { double &c=(*r)[kv.first]; c+=s*kv.second; } };
  switch (x.op) {
  case CONST: if (x.v!=0.) (*r)[{}]=x.v; break;
  case SYM: (*r)[{x.a}]=1.; break;
  case ADD: addto(poly(x.a),1.); addto(poly(x.b),1.); break;
  case SUB: addto(poly(x.a),1.); addto(poly(x.b),-1.); break;
  case NEG: addto(poly(x.a),-1.); break;
  case MUL: { const Poly &p=poly(x.a); const Poly &q=poly(x.b); for (auto &a: p) for (auto &b: q) { vector<u32> m; m.reserve(a.first.size()+b.first.size()); std::merge(a.first.begin(),a.first.end(),b.first.begin(),b.first.end(),std::back_inserter(m)); (*r)[m]+=a.second*b.second; } break; }
  case DIV: { const Poly &q=poly(x.b); if (q.size()==1&&q.begin()->first.empty()) { double c=q.begin()->second; addto(poly(x.a),1./c); } else polyfail=true; break; }
  default: { bool dep = true; if (x.op!=EIG && deg.size()>i) dep=deg[i]>0; if (!dep) (*r)[{}]=x.v; else polyfail=true; } }
  if (r->size()>200000) polyfail=true;
  return *(pmemo[i]=std::move(r)); }

struct Stat { u64 q=0, unsat=0, sat=0, unk=0; double t=0; };
static std::map<string,Stat> st;
struct Viol { string label, kind, msg; vector<std::pair<string,double>> vals; double a,b; };
static vector<Viol> V; static u64 nonfinite=0;

static void discharge() {
  evaluate();
  z3::context c; z3::params pr(c); pr.set("timeout",60000u);
  z3::solver s(c); s.set(pr);
  vector<z3::expr> x; x.reserve(S.size());
  auto R=[&](double v){ return c.real_val(rat(v).c_str()); };
  for (auto &y: S) { x.push_back(c.real_const(y.name.c_str())); s.add(x.back()>=R(y.lo)); s.add(x.back()<=R(y.hi)); }
  // affine path conditions restrict the box for LRA obligations. Each is written
  // about the base point, so the base point satisfies it exactly; those implied
  // by the box are dropped.
  u64 pc_aff=0, pc_other=0, pc_impl=0; char pb[160];
  // directions that keep to the path: the box about the base point and, for path
  // conditions that are tight at the base point, their linearisation
  z3::solver sj(c), sb(c); sj.set(pr); sb.set(pr);
  for (size_t i=0;i<S.size();i++) { sj.add(x[i]>=R(S[i].lo-S[i].v)); sj.add(x[i]<=R(S[i].hi-S[i].v)); sb.add(x[i]>=R(S[i].lo)); sb.add(x[i]<=R(S[i].hi)); }
  for (auto &y: S) { snprintf(pb,160," %.17g %.17g %.17g\n",y.v,y.lo,y.hi); pctext+="S "+y.name+pb; }
  for (auto &p: P) { if (deg[p.a]<2&&deg[p.b]<2) { SV d; axpy(d,1.,g[p.a],-1.,g[p.b]); double v0=N[p.a].v-N[p.b].v, lo=v0, hi=v0;
      z3::expr_vector t(c); string tx; for (auto &q: d) if (q.second!=0.) { Sym &y=S[q.first]; double a=q.second*(y.lo-y.v), b=q.second*(y.hi-y.v); lo+=std::min(a,b); hi+=std::max(a,b); t.push_back(R(q.second)*(x[q.first]-R(y.v))); snprintf(pb,160," %u %.17g",q.first,q.second); tx+=pb; }
      double eps=1e-12*(std::fabs(N[p.a].v)+std::fabs(N[p.b].v))+1e-300; bool impl=false;
      switch (p.pred&7) { case 1: impl=p.out?t.empty():(lo>0||hi<0); break; case 6: impl=p.out?(lo>0||hi<0):t.empty(); break; case 2: case 3: impl=p.out?lo>eps:hi<-eps; break; case 4: case 5: impl=p.out?hi<-eps:lo>eps; break; }
      if (impl||t.empty()) { pc_impl++; continue; }
      pc_aff++; t.push_back(R(v0)); z3::expr e=z3::sum(t), z=c.real_val(0);
      z3::expr f=c.bool_val(true); switch (p.pred&7) { case 1: f=e==z; break; case 2: f=e>z; break; case 3: f=e>=z; break; case 4: f=e<z; break; case 5: f=e<=z; break; case 6: f=e!=z; break; }
      s.add(p.out?f:!f);
      if (std::fabs(v0)<=eps) { z3::expr_vector tj(c); for (auto &q: d) if (q.second!=0.) tj.push_back(R(q.second)*x[q.first]); z3::expr ej=z3::sum(tj); int pr7=p.pred&7; if (!p.out) { static const int neg[]={0,6,5,4,3,2,1,7}; pr7=neg[pr7]; }
        switch (pr7) { case 1: sj.add(ej==z); break; case 2: case 3: sj.add(ej>=z); break; case 4: case 5: sj.add(ej<=z); break; } }
      snprintf(pb,160,"P %d %d %.17g",p.pred&7,(int)p.out,v0); pctext+=pb+tx+"\n"; } else pc_other++; }
  { // vacuity: the assumptions (box and affine path conditions) are satisfiable
    auto t0=std::chrono::steady_clock::now(); auto r=s.check(); Stat &q=st["reachability"]; q.q++; if (r==z3::sat) q.sat++; else if (r==z3::unsat) q.unsat++; else q.unk++;
    q.t+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); }
  auto query=[&](const char *th, const z3::expr &bad, bool assume_pc, Ob &o, const char *kind, bool jet)->bool {
    auto t0=std::chrono::steady_clock::now(); Stat &q=st[th]; q.q++; z3::solver *sp=jet?&sj:assume_pc?&s:&sb;
    sp->push(); sp->add(bad); auto r=sp->check(); bool ok=false;
    if (r==z3::unsat) { q.unsat++; ok=true; } else if (r==z3::sat) { q.sat++; 
      z3::model m=sp->get_model(); Viol v; v.label=o.label; v.kind=kind; v.a=o.k==TRUE_?0:N[o.a].v; v.b=o.k==TRUE_?0:N[o.b].v; v.msg=th;
      for (size_t i=0;i<S.size();i++) { z3::expr e=m.eval(x[i],true); double d; string ds=e.get_decimal_string(17); if (!ds.empty()&&ds.back()=='?') ds.pop_back(); d=atof(ds.c_str()); v.vals.push_back({S[i].name,d}); }
      V.push_back(v); } else q.unk++;
    sp->pop(); q.t+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); return ok; };
  auto supaff=[&](const SV &gr, double v0){ double c0=v0, lo=0, hi=0; for (auto &p: gr) { c0-=p.second*S[p.first].v; double a=p.second*S[p.first].lo,b=p.second*S[p.first].hi; lo+=std::min(a,b); hi+=std::max(a,b); } return std::max(std::fabs(c0+lo),std::fabs(c0+hi)); };
  auto supjet=[&](const SV &gr){ double s1=0; for (auto &p: gr) { s1+=std::fabs(p.second)*std::max(std::fabs(S[p.first].lo-S[p.first].v),std::fabs(S[p.first].hi-S[p.first].v)); } return s1; };
  auto absge=[&](const z3::expr &e, double tol){ return e>R(tol)||e<R(-tol); };
  auto ground=[&](Ob &o, bool good, const char *th){ Stat &q=st[th]; q.q++; if (good) q.unsat++; else { q.sat++; Viol v; v.label=o.label; v.kind=kname[o.k]; v.msg=th; v.a=o.k==TRUE_?o.a:N[o.a].v; v.b=o.k==TRUE_?1:N[o.b].v; for (auto &y: S) v.vals.push_back({y.name,y.v}); V.push_back(v);} };
  auto doeq=[&](Ob &o){
    int d=std::max(deg[o.a],deg[o.b]); double va=N[o.a].v, vb=N[o.b].v;
    if (!std::isfinite(va)||!std::isfinite(vb)) { nonfinite++; ground(o,false,"finite"); return; }
    SV df; axpy(df,1.,g[o.a],-1.,g[o.b]);
    for (auto &p: df) if (!std::isfinite(p.second)) { nonfinite++; ground(o,false,"finite"); return; }
    if (d==0) { ground(o, std::fabs(va-vb)<=o.atol+o.rtol*std::max(std::fabs(va),std::fabs(vb)), "ground"); return; }
    if (d==1) { double tol=o.atol+o.rtol*std::max(supaff(g[o.a],va),supaff(g[o.b],vb));
      double c0=va-vb; z3::expr_vector t(c); for (auto &p: df) { c0-=p.second*S[p.first].v; if (p.second!=0.) t.push_back(R(p.second)*x[p.first]); } t.push_back(R(c0));
      query("LRA",absge(z3::sum(t),tol),true,o,"eq",false); return; }
    if (std::fabs(va-vb)>o.atol+o.rtol*std::max(std::fabs(va),std::fabs(vb))) { ground(o,false,"base"); return; }
    double tol=o.atol+o.rtol*std::max(supjet(g[o.a]),supjet(g[o.b]));
    z3::expr_vector t(c); for (auto &p: df) if (p.second!=0.) t.push_back(R(p.second)*x[p.first]); t.push_back(c.real_val(0));
    query("LRA-jet",absge(z3::sum(t),tol),false,o,"jet",true); };
  for (auto &o: O) switch (o.k) {
    case TRUE_: ground(o,o.a!=0,"ground"); break;
    case EQ: doeq(o); break;
    case SAME: if (o.a==o.b) { // congruence: top symbol applied to abstracted (shared) arguments
        z3::sort U=c.uninterpreted_sort("F64"); z3::expr p=c.constant(c.str_symbol(("t"+std::to_string(o.a)).c_str()),U);
        Node &n=N[o.a]; z3::expr A=p, B=p; if (n.op!=CONST&&n.op!=SYM&&n.op!=EIG) { z3::func_decl f=c.function(opname[n.op],U,U,U); z3::expr u=c.constant(("t"+std::to_string(n.a)).c_str(),U), v=c.constant(("t"+std::to_string(n.b)).c_str(),U); A=f(u,v); B=f(u,v); }
        query("EUF",A!=B,false,o,"eq",false); }
      else { st["EUF-fallback"].q++; doeq(o); } break;
    case GE: { int d=std::max(deg[o.a],deg[o.b]); if (d==0) { ground(o,N[o.a].v>=N[o.b].v-o.atol,"ground"); break; }
      if (d==1) { SV df; axpy(df,1.,g[o.a],-1.,g[o.b]); double c0=N[o.a].v-N[o.b].v; z3::expr_vector t(c); for (auto &p: df) { c0-=p.second*S[p.first].v; if (p.second!=0.) t.push_back(R(p.second)*x[p.first]); } t.push_back(R(c0)); query("LRA",z3::sum(t)<R(-o.atol),true,o,"ge",false); break; }
      double v0=N[o.a].v-N[o.b].v; if (!(v0>=-o.atol)) { ground(o,false,"base"); break; }
      SV df; axpy(df,1.,g[o.a],-1.,g[o.b]); z3::expr_vector t(c); bool fin=true; for (auto &p: df) { fin&=std::isfinite(p.second); if (p.second!=0.&&std::isfinite(p.second)) t.push_back(R(p.second)*x[p.first]); }
      if (!fin) { nonfinite++; ground(o,false,"finite"); break; }
      t.push_back(R(v0)); query("LRA-jet",z3::sum(t)<R(-o.atol),false,o,"ge",true); break; }
    case POLY: { polyfail=false; Poly d; { const Poly &p=poly(o.a); d=p; } { const Poly &q=poly(o.b); for (auto &kv: q) d[kv.first]-=kv.second; }
      if (polyfail) { st["POLY-fallback"].q++; doeq(o); break; }
      // interval of each monomial over the box; LRA over the monomials (sound abstraction)
      double sup=0; auto range=[&](const vector<u32>&m,double &lo,double &hi){ lo=hi=1; for (size_t i=0;i<m.size();) { size_t j=i; while (j<m.size()&&m[j]==m[i]) j++; int e=j-i; double l=S[m[i]].lo,h=S[m[i]].hi, pl=::pow(l,e), ph=::pow(h,e), a=std::min(pl,ph), b=std::max(pl,ph); if (e%2==0&&l<0&&h>0) a=0; double c1=lo*a,c2=lo*b,c3=hi*a,c4=hi*b; lo=std::min(std::min(c1,c2),std::min(c3,c4)); hi=std::max(std::max(c1,c2),std::max(c3,c4)); i=j; } };
      { const Poly &p=poly(o.a); for (auto &kv: p) { double l,h; range(kv.first,l,h); sup+=std::fabs(kv.second)*std::max(std::fabs(l),std::fabs(h)); } }
      double tol=o.atol+o.rtol*sup; z3::solver q2(c); q2.set(pr); z3::expr_vector t(c), tn(c); int k=0; double amp=0;
      for (auto &kv: d) { if (kv.second==0.) continue; double l,h; range(kv.first,l,h); amp+=std::fabs(kv.second)*std::max(std::fabs(l),std::fabs(h));
        z3::expr prod=c.real_val(1); for (u32 sy: kv.first) prod=prod*x[sy]; tn.push_back(R(kv.second)*prod);
        if (kv.first.empty()) { t.push_back(R(kv.second)); continue; }
        z3::expr m=c.real_const(("m"+std::to_string(k++)).c_str()); q2.add(m>=R(l)); q2.add(m<=R(h)); t.push_back(R(kv.second)*m); }
      t.push_back(c.real_val(0)); tn.push_back(c.real_val(0));
      auto t0=std::chrono::steady_clock::now(); q2.add(absge(z3::sum(t),tol)); auto r=q2.check(); Stat &qs=st["LRA-monomials"]; qs.q++; qs.t+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
      if (r==z3::unsat) qs.unsat++; else { qs.unk++; // refine: the exact nonlinear query
        query("NRA",absge(z3::sum(tn),tol),false,o,"eq",false); }
      break; }
    case DERIV: { // base gradient wrt x_k  vs  tl coefficients of d_k
      double vb=N[o.a].v; auto &gp=G[o.grp]; std::map<u32,u32> x2d; for (auto &p: gp) x2d[N[p.first].a]=N[p.second].a;
      if (!std::isfinite(vb)||!std::isfinite(N[o.b].v)) { ground(o,false,"finite"); break; }
      if (deg[o.b]==2) { xs_note("%s: derivative output not linear in the directions",o.label.c_str()); }
      SV ex; double s1=0, c0=N[o.b].v; bool fin=true;
      for (auto &p: g[o.a]) { auto it=x2d.find(p.first); if (it==x2d.end()) continue; ex.push_back({it->second,p.second}); }
      std::sort(ex.begin(),ex.end()); SV tl=g[o.b]; for (auto &p: tl) { c0-=p.second*S[p.first].v; fin&=std::isfinite(p.second); }
      for (auto &p: ex) fin&=std::isfinite(p.second);
      if (!fin) { ground(o,false,"finite"); break; }
      if (deg[o.b]==1||deg[o.b]==0) {} else c0=0;
      auto sup=[&](SV&v){ double r=0; for (auto &p: v) r+=std::fabs(p.second)*std::max(std::fabs(S[p.first].lo),std::fabs(S[p.first].hi)); return r; };
      s1=std::max(sup(ex),sup(tl)); double tol=o.atol+o.rtol*s1; SV df; axpy(df,1.,tl,-1.,ex);
      z3::expr_vector t(c); for (auto &p: df) if (p.second!=0.) t.push_back(R(p.second)*x[p.first]); t.push_back(R(c0));
      query("LRA-deriv",absge(z3::sum(t),tol),true,o,"deriv",false); break; }
  }
  st["path-conditions-implied-by-box"].q+=pc_impl; st["path-conditions-affine"].q+=pc_aff; st["path-conditions-nonlinear"].q+=pc_other;
}

static void write_result(FILE *f, const char *status) {
  fprintf(f,"{\"path\":%d,",path_no); fprintf(f,"\"at\":{"); { bool f1=true; for (auto &kv: overrides) { fprintf(f,"%s%s:%s",f1?"":",",js(kv.first).c_str(),num(kv.second).c_str()); f1=false; } } fprintf(f,"},");
  fprintf(f,"\"scenario\":%s,\"status\":\"%s\",\"nodes\":%zu,\"symops\":%llu,\"symbols\":%zu,\"obligations\":%zu,\"concretised\":%llu,\"fortran_mismatch\":%llu",
    js(cur).c_str(),status,N.size(),(unsigned long long)n_symops,S.size(),O.size(),(unsigned long long)n_concretised,(unsigned long long)n_fortran_mismatch);
  fprintf(f,",\"fail\":%s,\"notes\":[",failmsg.empty()?"null":js(failmsg).c_str()); bool first=true;
  for (auto &n: notes) { fprintf(f,"%s%s",first?"":",",js(n).c_str()); first=false; }
  fprintf(f,"],\"stats\":{"); first=true; for (auto &kv: st) { fprintf(f,"%s\"%s\":{\"q\":%llu,\"unsat\":%llu,\"sat\":%llu,\"unknown\":%llu,\"t\":%.4f}",first?"":",",kv.first.c_str(),(unsigned long long)kv.second.q,(unsigned long long)kv.second.unsat,(unsigned long long)kv.second.sat,(unsigned long long)kv.second.unk,kv.second.t); first=false; }
  fprintf(f,"},\"fns\":["); first=true; for (auto &n: fns) { fprintf(f,"%s%s",first?"":",",js(n).c_str()); first=false; }
  fprintf(f,"],\"sample\":"); if (!O.empty()) { Ob &o=O[O.size()/2]; fprintf(f,"{\"label\":%s,\"kind\":\"%s\",\"a\":%s,\"b\":%s}",js(o.label).c_str(),kname[o.k],o.k==TRUE_?"null":num(N[o.a].v).c_str(),o.k==TRUE_?"null":num(N[o.b].v).c_str()); } else fprintf(f,"null");
  fprintf(f,",\"symnames\":["); for (size_t i=0;i<S.size()&&i<40;i++) fprintf(f,"%s%s",i?",":"",js(S[i].name).c_str());
  fprintf(f,"],\"violations\":["); first=true; size_t cnt=0;
  for (auto &v: V) { if (cnt++>=12) break; fprintf(f,"%s{\"label\":%s,\"kind\":\"%s\",\"theory\":\"%s\",\"a\":%s,\"b\":%s,\"values\":{",first?"":",",js(v.label).c_str(),v.kind.c_str(),v.msg.c_str(),num(v.a).c_str(),num(v.b).c_str()); bool f2=true; for (auto &p: v.vals) { fprintf(f,"%s%s:%s",f2?"":",",js(p.first).c_str(),num(p.second).c_str()); f2=false; } fprintf(f,"}"); 
    // base values, for first-order counterexamples
    fprintf(f,",\"base\":{"); f2=true; for (auto &y: S) { fprintf(f,"%s%s:%s",f2?"":",",js(y.name).c_str(),num(y.v).c_str()); f2=false; } 
    fprintf(f,"},\"pairs\":{"); f2=true; for (auto &o: O) if (o.label==v.label&&o.k==DERIV) { for (auto &p: G[o.grp]) { fprintf(f,"%s%s:%s",f2?"":",",js(S[N[p.first].a].name).c_str(),js(S[N[p.second].a].name).c_str()); f2=false; } break; }
    double rt=0,at=0; for (auto &o: O) if (o.label==v.label) { rt=o.rtol; at=o.atol; }
    fprintf(f,"},\"rtol\":%g,\"atol\":%g}",rt,at); first=false; }
  fprintf(f,"],\"n_violations\":%zu}\n",V.size()); fflush(f); }

static FILE *outf;
static void onsig(int s) { if (outf) { fprintf(outf,"{\"scenario\":%s,\"status\":\"crash\",\"signal\":%d}\n",js(cur.empty()?sel:cur).c_str(),s); fflush(outf); } _exit(3); }
static void atex() { if (outf&&cur!="<done>") { fprintf(outf,"{\"scenario\":%s,\"status\":\"exit\"}\n",js(cur.empty()?sel:cur).c_str()); fflush(outf); } }
static void path_main(const string &name, const string &out, int tmo, int wfd) {
  int fd=open(out.c_str(),O_WRONLY|O_APPEND|O_CREAT,0644); sel=name;
  struct rlimit rl={6ull<<30,6ull<<30}; setrlimit(RLIMIT_AS,&rl); char *mb; size_t ml;
  FILE *direct=fdopen(fd,"a"); outf=direct; signal(SIGALRM,onsig); alarm(tmo); atexit(atex);
  const char *status="ok";
  try { xs_main(); if (!failmsg.empty()) status="fail"; else discharge(); } catch (std::exception &e) { xs_note("exception: %s",e.what()); status="exception"; } catch (z3::exception &e) { xs_note("z3: %s",e.msg()); status="exception"; }
  FILE *ms=open_memstream(&mb,&ml); write_result(ms,status); fclose(ms); { size_t o=0; while (o<ml) { ssize_t k=write(fd,mb+o,ml-o); if (k<=0) break; o+=k; } }
  string t="M "+std::to_string(max_paths)+" "+std::to_string((unsigned long long)st["path-conditions-nonlinear"].q)+"\n"+pctext; if (t.size()>(1u<<22)) t="M 1 1\n";
  size_t o=0; while (o<t.size()) { ssize_t k=write(wfd,t.data()+o,t.size()-o); if (k<=0) break; o+=k; }
  cur="<done>"; _exit(0); }

// one scenario: concolic exploration of the branches that depend affinely on
// the symbols. Each path runs in its own process; z3 picks the next base point.
static void scenario_main(const string &name, const string &out, int tmo) {
  z3::context c; z3::solver s(c); z3::params pr(c); pr.set("timeout",20000u); s.set(pr); vector<string> nm; vector<z3::expr> x; bool complete=false, decided=true; int limit=1, done=0; u64 nonlin=0;
  auto R=[&](double v){ return c.real_val(rat(v).c_str()); };
  auto T0=std::chrono::steady_clock::now();
  for (;;) {
    int fd[2]; if (pipe(fd)) break; path_no=done; pid_t p=fork(); if (p==0) { close(fd[0]); path_main(name,out,tmo,fd[1]); }
    close(fd[1]); string t; char b[65536]; ssize_t k; while ((k=read(fd[0],b,sizeof b))>0) t.append(b,k); close(fd[0]); int ws; waitpid(p,&ws,0); done++;
    if (WIFSIGNALED(ws)) { FILE *f=fopen(out.c_str(),"a"); fprintf(f,"{\"scenario\":%s,\"status\":\"killed\",\"signal\":%d,\"at\":{",js(name).c_str(),WTERMSIG(ws)); bool f1=true; for (auto &kv: overrides) { fprintf(f,"%s%s:%s",f1?"":",",js(kv.first).c_str(),num(kv.second).c_str()); f1=false; } fprintf(f,"}}\n"); fclose(f); }
    if (t.empty()) { decided=false; break; }
    if (t.size()>(1u<<20)) { size_t mp=t.find("M "); unsigned long long nn=0; if (mp!=string::npos) sscanf(t.substr(mp,60).c_str(),"M %d %llu",&limit,&nn); nonlin=std::max<u64>(nonlin,nn); break; }   // too many affine conditions to complement
    // parse
    z3::expr_vector conj(c); size_t pos=0; vector<double> base; bool first=nm.empty();
    while (pos<t.size()) { size_t e=t.find('\n',pos); if (e==string::npos) break; string l=t.substr(pos,e-pos); pos=e+1; const char *q=l.c_str();
      if (l[0]=='M') { unsigned long long nn; sscanf(q,"M %d %llu",&limit,&nn); nonlin=std::max<u64>(nonlin,nn); }
      else if (l[0]=='S') { char nb[300]; double v,lo,hi; sscanf(q,"S %299s %lf %lf %lf",nb,&v,&lo,&hi); base.push_back(v); if (first) { nm.push_back(nb); x.push_back(c.real_const(nb)); s.add(x.back()>=R(lo)); s.add(x.back()<=R(hi)); } }
      else if (l[0]=='P') { int pd,o,n; double v0; sscanf(q,"P %d %d %lf%n",&pd,&o,&v0,&n); q+=n; z3::expr_vector tt(c); u32 k; double cf; for (;;) { char *z1,*z2; k=strtoul(q,&z1,10); if (z1==q) break; cf=strtod(z1,&z2); if (z2==z1) break; q=z2; if (k<x.size()) tt.push_back(R(cf)*(x[k]-R(base[k]))); } tt.push_back(R(v0)); z3::expr ee=z3::sum(tt), z=c.real_val(0), f=c.bool_val(true);
        switch (pd) { case 1: f=ee==z; break; case 2: f=ee>z; break; case 3: f=ee>=z; break; case 4: f=ee<z; break; case 5: f=ee<=z; break; case 6: f=ee!=z; break; } conj.push_back(o?f:!f); } }
    if (conj.empty()) { complete=true; break; }
    s.add(!z3::mk_and(conj)); auto r=s.check();
    if (r==z3::unsat) { complete=true; break; }
    if (r!=z3::sat||done>=limit||std::chrono::duration<double>(std::chrono::steady_clock::now()-T0).count()>tmo) break;
    z3::model m=s.get_model(); overrides.clear(); for (size_t i=0;i<nm.size();i++) { string ds=m.eval(x[i],true).get_decimal_string(17); if (!ds.empty()&&ds.back()=='?') ds.pop_back(); overrides[nm[i]]=atof(ds.c_str()); }
  }
  FILE *f=fopen(out.c_str(),"a"); fprintf(f,"{\"scenario\":%s,\"status\":\"coverage\",\"paths\":%d,\"affine_branches_complete\":%s,\"nonlinear_branches\":%llu}\n",js(name).c_str(),done,complete?"true":"false",(unsigned long long)nonlin); fclose(f);
}

int main(int argc, char **argv) {
  int jobs=8; double budget=1e9; int tmo=300; string out="/dev/stdout", only;
  for (int i=1;i<argc;i++) { string a=argv[i]; if (a=="--jobs") jobs=atoi(argv[++i]); else if (a=="--out") out=argv[++i]; else if (a=="--only") only=argv[++i]; else if (a=="--budget") budget=atof(argv[++i]); else if (a=="--timeout") tmo=atoi(argv[++i]); else if (a=="--list") only="\001"; }
  const char *t=getenv("VERIF_TIER"); xs_thorough=t&&!strcmp(t,"thorough");
  auto T0=std::chrono::steady_clock::now();
  listing=true; xs_main(); listing=false;
  if (only=="\001") { for (auto &n: names) puts(n.c_str()); return 0; }
  std::map<pid_t,string> kids; size_t next=0; 
  while (next<names.size()||!kids.empty()) {
    if (next<names.size()&&(int)kids.size()<jobs) {
      if (!only.empty()&&names[next].find(only)==string::npos) { next++; continue; }
      double el=std::chrono::duration<double>(std::chrono::steady_clock::now()-T0).count();
      if (el>budget) { FILE *f=fopen(out.c_str(),"a"); fprintf(f,"{\"scenario\":%s,\"status\":\"budget\"}\n",js(names[next]).c_str()); fclose(f); next++; continue; }
      pid_t p=fork(); if (p==0) { scenario_main(names[next],out,tmo); _exit(0); }
      kids[p]=names[next]; next++; continue; }
    int ws; pid_t p=wait(&ws); if (p>0) { if (WIFSIGNALED(ws)) { FILE *f=fopen(out.c_str(),"a"); fprintf(f,"{\"scenario\":%s,\"status\":\"killed\",\"signal\":%d}\n",js(kids[p]).c_str(),WTERMSIG(ws)); fclose(f); } kids.erase(p); }
  }
  return 0; }
