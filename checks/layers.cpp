// P: only the optical profile matters, not how it is cut into layers: splitting a
// layer, asking for a level by its optical depth, changes nothing.
#include "dirs.hpp"
static Scene split(const Scene &s, double f) { // layer 0 cut at fraction f
  Scene t=s; t.ltau={s.ltau[0]*f,s.ltau[0]*(1-f)}; t.ltau.insert(t.ltau.end(),s.ltau.begin()+1,s.ltau.end());
  t.omega.insert(t.omega.begin(),s.omega[0]); t.coef.insert(t.coef.begin(),s.coef[0]);
  for (auto &l: t.out_levels) if (l>0) l++;
  return t; }
static Scene sym(Scene s, int so) {
  if (s.solar()) s.F_0=S_("F_0",1.,0,10.); if (!in(sname(so),{"single","two_os","two_stream"})) s.F_iso_bot=S_("F_iso_bot",.3,0,4);
  if (s.thermal()) { for (size_t i=0;i<s.levels_b.size();i++) s.levels_b[i]=S_(xs_label("b%d",(int)i),s.levels_b[i],.05,3.); s.surface_b=S_("sb",s.surface_b,0.,3.); }
  if (s.n_stokes>1||so==SOL(SOS)) return s;
  for (int i=0;i<s.nl();i++) { s.omega[i]=R_(xs_label("omega%d",i),s.omega[i],.02); s.ltau[i]=R_(xs_label("ltau%d",i),s.ltau[i],.05); for (size_t k=1;k<s.coef[i][0].size();k++) s.coef[i][0][k]=R_(xs_label("c%d_%d",i,(int)k),s.coef[i][0][k],.02); }
  return s; }
void xs_main(void) {
  static const char *md[]={"split","taus","cut","reorder"};
  for (auto &c: configs()) for (auto &so: SOLVERS) for (int v=0;v<3;v++) {
    Scene s=c.s; if (!supported(s,so.m)||s.fourier_tol>0||(c.name=="three_layers"&&so.m==SOL(SIX_STREAM))) continue; bool sos=so.m==SOL(SOS);
    if (s.has(OPT(PSA))) continue;
    if (sos) { if (s.n_stokes>1) continue; for (auto &x: s.ltau) x*=.1; for (auto &x: s.out_taus) x*=.1; s.sos_max_tau=.003; s.sos_tol=1e-11; }
    Scene t=s;
    if (v==0) { if (s.has(OPT(OUTPUT_AT_TAUS))) continue; }
    if (v==1) { if (s.has(OPT(OUTPUT_AT_TAUS))) continue; t.options&=~OPT(OUTPUT_AT_LEVELS); t.options|=OPT(OUTPUT_AT_TAUS); for (int l: s.out_levels) t.out_taus.push_back(l); if (!supported(t,so.m)) continue; }
    if (v==2) { if (!s.has(OPT(OUTPUT_AT_TAUS))) continue; }
    if (!xs_thorough && s.n_stokes>1 && in(so.n,{"doub_add","pade_add","mem_bvp"})) continue;
    if (!xs_scenario(xs_label("%s/%s/%s",md[v],c.name.c_str(),so.n))) continue;
    int w=what_of(so.m); Scene X=sym(s,so.m), Y; Result a,b; Str e;
    double rt=sos?1e-4:so.m==SOL(DOUB_ADD)?2e-5:1e-6;
    if (v==0) { Y=split(X,.375); if (X.thermal()) { // the Planck function varies linearly in optical depth within a layer
        V1 z=X.levels_b; z.insert(z.begin()+1,X.levels_b[0]+.375*(X.levels_b[1]-X.levels_b[0])); Y.levels_b=z; } }
    else if (v==1) { Y=X; Y.options=t.options; Y.out_taus.clear(); for (int l: s.out_levels) { double q=0; for (int i=0;i<l;i++) q+=X.ltau[i]; Y.out_taus.push_back(q); } }
    else { // cut exactly at an output depth: the depth becomes a level
      int i=1; double q=xs_conc(X.out_taus[1]); double top=0; int L=0; while (q>top+xs_conc(X.ltau[L])) top+=xs_conc(X.ltau[L++]); X.out_taus={X.out_taus[1]};
      if (L!=0||s.nl()<2) { L=0; X.out_taus={xs_conc(X.ltau[0])*.4}; } double f=xs_conc(X.out_taus[0])/xs_conc(X.ltau[0]); X.out_taus={X.ltau[0]*f};
      Y=split(X,f); if (X.thermal()) { V1 z=X.levels_b; z.insert(z.begin()+1,X.levels_b[0]+f*(X.levels_b[1]-X.levels_b[0])); Y.levels_b=z; }
      Y.options&=~OPT(OUTPUT_AT_TAUS); Y.options|=OPT(OUTPUT_AT_LEVELS); Y.out_taus.clear(); Y.out_levels={1}; if (!supported(Y,so.m)) { xs_note("unsupported"); continue; } }
    if (!run(X,so.m,a,e,w)||!run(Y,so.m,b,e,w)) { xs_fail("%s",e.c_str()); return; }
    auto A=outs(a,w),B=outs(b,w); if (A.size()!=B.size()) { xs_check_true("output count",0); continue; }
    for (size_t i=0;i<A.size();i++) xs_check_eq(A[i].name.c_str(),B[i].v,A[i].v,rt,1e-9); } }
