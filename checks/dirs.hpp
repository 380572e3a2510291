// symbolic inputs and the direction symbols that belong to them
#pragma once
#include "configs.hpp"
enum { IN_OMEGA=1, IN_TAU=2, IN_COEF=4, IN_SURF=8, IN_SRC=16, IN_ALL=31, IN_PAR=32 };
// Visits every differentiable input: f(name, group bit, layer, reference to the
// value in the scene, reference to its slot in the DerivIn)
typedef std::function<void(const char*,int,int,double&,double&)> Visit;
static void inputs(Scene &s, DerivIn &e, const Visit &f) {
  int n=s.nl(); e.omega.resize(n,0.); e.ltau.resize(n,0.); e.ampfac.resize(s.kernels.size(),0.); e.params.resize(s.params.size()); e.coef.resize(n);
  if (s.thermal()) e.levels_b.resize(n+1,0.);
  for (int i=0;i<n;i++) { f(xs_label("omega%d",i),IN_OMEGA,i,s.omega[i],e.omega[i]); f(xs_label("ltau%d",i),IN_TAU,i,s.ltau[i],e.ltau[i]);
    e.coef[i].resize(s.coef[i].size()); for (size_t k=0;k<s.coef[i].size();k++) e.coef[i][k].resize(s.coef[i][k].size(),0.);
    for (size_t k=0;k<s.coef[i].size();k++) for (size_t j=(k==0);j<s.coef[i][k].size();j++) if (xs_conc(s.coef[i][k][j])!=0.) f(xs_label("c%d_%d_%d",i,(int)k,(int)j),IN_COEF,i,s.coef[i][k][j],e.coef[i][k][j]); }
  for (size_t k=0;k<s.kernels.size();k++) { f(xs_label("amp%d",(int)k),IN_SURF,n,s.ampfac[k],e.ampfac[k]);
    if (k<s.params.size()) { e.params[k].resize(s.params[k].size(),0.); for (size_t j=0;j<s.params[k].size();j++) f(xs_label("par%d_%d",(int)k,(int)j),IN_PAR,n,s.params[k][j],e.params[k][j]); } }
  if (s.thermal()) { for (int i=0;i<=n;i++) f(xs_label("b%d",i),IN_SRC,n,s.levels_b[i],e.levels_b[i]); f("sb",IN_SRC,n,s.surface_b,e.surface_b); }
  if (xs_conc(s.F_iso_top)!=0) f("F_iso_top",IN_SRC,n,s.F_iso_top,e.F_iso_top);
  if (xs_conc(s.F_iso_bot)!=0) f("F_iso_bot",IN_SRC,n,s.F_iso_bot,e.F_iso_bot);
}
static DerivIn nodir(const Scene &s0) { Scene s=s0; DerivIn e; inputs(s,e,[](const char*,int,int,double&,double&){}); return e; }
// every input symbolic, in a relative box
static Scene symbolic(Scene s) { DerivIn e; inputs(s,e,[](const char*n,int g,int,double &x,double&){ double v=xs_conc(x); if (g==IN_OMEGA) x=R_(n,x,std::min(.05,.5*(1/v-1))); else if (g==IN_SURF&&v>.95) x=xs_sym(n,v,.95*v,1.); else x=R_(n,x,.05); });
  // linearisation with respect to a layer's optical depth carries the output
  // optical depths of that layer along, at fixed relative position
  if (s.has(OPT(OUTPUT_AT_TAUS))) for (double &t: s.out_taus) { double top=0, v=xs_conc(t); for (int i=0;i<s.nl();i++) { double l=xs_conc(s.ltau[i]), c=xs_conc(top); if (v<=c+l+1e-12||i==s.nl()-1) { t=top+s.ltau[i]*std::min(.97,(v-c)/l); break; } top=top+s.ltau[i]; } }
  return s; }
static Scene concrete(Scene s) { DerivIn e; inputs(s,e,[](const char*,int,int,double &x,double&){ x=xs_conc(x); }); for (double &t: s.out_taus) t=xs_conc(t); return s; }
static double unit_(const Str &n) { unsigned h=2166136261u; for (char c: n) h=(h^(unsigned char)c)*16777619u; return ((h>>8)%1000)/1000.; }
// a direction: symbolic components for the inputs selected by bits and layer (-1: all, -2: none)
static DerivIn direction(const Scene &s0, const char *p, int bits, int layer) {
  Scene s=s0; DerivIn e; inputs(s,e,[&](const char*n,int g,int l,double &x,double &d){ double v=std::fabs(xs_conc(x));
    if ((g&bits)&&(layer<0||l==layer||l==s.nl())) d=S_(Str(p)+n,v*(unit_(Str(p)+n)*1.2-.5),-v,v); });
  return e; }
// the configurations with linearisation, n_derivs 4: everything; one layer's
// optics; the surface only; sources only
static Scene with_dirs(Scene s, bool zero=false, bool par=false) {
  s.options|=OPT(CALC_DERIVS); Scene c=s; s.l.clear();
  s.l.push_back(direction(c,"d0.",zero?0:par?IN_ALL|IN_PAR:IN_ALL,-1)); s.l.push_back(direction(c,"d1.",zero?0:(IN_OMEGA|IN_TAU|IN_COEF),c.nl()-1)); s.l.push_back(direction(c,"d2.",zero?0:par?IN_PAR:IN_SURF,-1)); s.l.push_back(direction(c,"d3.",zero?0:(IN_SRC|IN_TAU),0));
  return s; }
