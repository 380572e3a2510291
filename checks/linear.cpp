// P: radiances, mean radiances and fluxes are linear in the sources.
#include "configs.hpp"
static double b_(const char *p, int i, bool zero) { return zero?0.:S_(xs_label("%s_b%d",p,i),.2+.1*i,.05,3.); }   // cold boundaries: see cross cold_top
static Scene with(Scene s, const char *p, bool iso, bool zero=false) {
  auto q=[&](const char *n,double v,double hi){ return zero?0.:S_(xs_label("%s_%s",p,n),v,0,hi); };
  if (s.solar()) s.F_0=q("F_0",1.,10.);
  if (iso) { s.F_iso_top=q("F_iso_top",.2,4.); s.F_iso_bot=q("F_iso_bot",.3,4.); }
  if (s.thermal()) { for (size_t i=0;i<s.levels_b.size();i++) s.levels_b[i]=b_(p,(int)i,zero); s.surface_b=q("sb",.7,3.); }
  return s; }
static Scene sum(Scene a, const Scene &b) { a.F_0+=b.F_0; a.F_iso_top+=b.F_iso_top; a.F_iso_bot+=b.F_iso_bot; a.surface_b+=b.surface_b; for (size_t i=0;i<a.levels_b.size();i++) a.levels_b[i]+=b.levels_b[i]; return a; }
void xs_main(void) {
  for (auto &c: configs()) for (auto &so: SOLVERS) {
    if (!supported(c.s,so.m)) continue;
    for (int iso=0;iso<2;iso++) {
      if (iso && (so.m==SOL(SINGLE))) continue;
      bool sos=so.m==SOL(SOS); if (sos && (c.s.n_stokes>1 || (iso && c.name=="tms"))) continue;
      if (!xs_thorough && !iso && in(c.name,{"levels3","three_layers","thetas","nq1","nq2","nq1_norm","nq2_norm","black","brdf_hapke","brdf_rahman"})) continue;
      if (!xs_scenario(xs_label("%s/%s%s",c.name.c_str(),so.n,iso?"+iso":""))) continue;
      xs_explore(4); Scene C=c.s; if (sos) { for (auto &x: C.ltau) x*=.1; C.sos_max_tau=.01; C.sos_max_os=30; }
      Scene A=with(C,"a",iso), B=with(C,"b",iso), Z=with(C,"z",iso,true); Result a,b,s,z; Str e;
      if (!run(A,so.m,a,e)||!run(B,so.m,b,e)||!run(sum(A,B),so.m,s,e)||!run(Z,so.m,z,e)) { xs_fail("%s",e.c_str()); return; }
      auto x=outs(a),y=outs(b),w=outs(s),o=outs(z);
      for (size_t i=0;i<x.size();i++) { xs_check_eq(xs_label("sum %s",x[i].name.c_str()),w[i].v,x[i].v+y[i].v,sos?1e-5:1e-8,1e-10); xs_check_eq(xs_label("zero %s",x[i].name.c_str()),o[i].v,0.,0,1e-13); } } } }
