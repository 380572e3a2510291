// P: every solver that accepts a configuration gives the same answer.
#include "dirs.hpp"
static Scene sources(Scene s) {
  if (s.solar()) s.F_0=S_("F_0",1.,0,10.);
  if (s.thermal()) { for (size_t i=0;i<s.levels_b.size();i++) s.levels_b[i]=S_(xs_label("b%d",(int)i),s.levels_b[i],.05,3.); s.surface_b=S_("sb",s.surface_b,0.,3.); }
  return s; }
static Scene iso(Scene s) { s.F_iso_top=S_("F_iso_top",.2,0,4); s.F_iso_bot=S_("F_iso_bot",.3,0,4); return s; }
static Scene optical(Scene s) {
  for (int i=0;i<s.nl();i++) { s.ltau[i]=R_(xs_label("ltau%d",i),s.ltau[i]); s.omega[i]=R_(xs_label("omega%d",i),s.omega[i],.05);
    for (size_t e=0;e<s.coef[i].size();e++) for (size_t k=(e==0);k<s.coef[i][e].size();k++) if (s.coef[i][e][k]!=0.) s.coef[i][e][k]=R_(xs_label("c%d_%d_%d",i,(int)e,(int)k),s.coef[i][e][k],.2); }
  for (size_t k=0;k<s.ampfac.size();k++) s.ampfac[k]=R_(xs_label("amp%d",(int)k),s.ampfac[k]);
  for (size_t k=0;k<s.params.size();k++) for (size_t j=0;j<s.params[k].size();j++) s.params[k][j]=R_(xs_label("par%d_%d",(int)k,(int)j),s.params[k][j],.1);
  if (s.solar()&&!(s.has(OPT(N_T_TMS))&&s.n_stokes>1)) s.theta_0=R_("theta_0",s.theta_0,.1);   // the rotation angles are not differentiable at the base geometry
  return s; }
// what an option that only selects an algorithm must not change
static Scene canonical(Scene s) { s.options&=~(OPT(TOP_DOWN_ADDING)|OPT(BOTTOM_UP_ADDING)|OPT(SAVE_LEG_POLYS)|OPT(SAVE_PHASE_MATS)|OPT(SAVE_LOCAL_R_T)|OPT(SAVE_LAYER_R_T_S)|OPT(SAVE_TOTAL_R_T_S)|OPT(STACK_REUSE_ADDING)); return s; }
// the reference is the boundary value problem (eigenvector) solver; single and
// two_os are truncated expansions and are covered elsewhere
// a tolerance no term of the azimuthal series falls below changes nothing, whichever way convergence is judged
static void fourier(void) {
  for (auto &c: configs()) for (auto &so: SOLVERS) for (int old=0;old<2;old++) for (int D=0;D<2;D++) {
    Scene s=c.s; if (!s.solar()||s.has(OPT(NO_AZIMUTHAL))||c.s.fourier_tol>0||(!s.has(OPT(N_T_TMS))&&(D||old||(!xs_thorough&&so.m!=SOL(EIG_BVP))))) continue;
    if (old) s.options|=OPT(FOUR_CONV_OLD); if (D) { s.options|=OPT(CALC_DERIVS); s.l.resize(4); } if (!supported(s,so.m)||(so.m==SOL(SOS)&&s.n_stokes>1)) continue;
    if (!xs_thorough&&D&&old&&!adding(so.m)) continue;
    if (!xs_scenario(xs_label("fourier/%s/%s%s%s",c.name.c_str(),so.n,old?"+old":"",D?"+derivs":""))) continue;
    xs_explore(2); if (so.m==SOL(SOS)) { for (auto &x: s.ltau) x*=.1; s.sos_max_tau=.01; s.sos_max_os=20; }
    s.options&=~OPT(CALC_DERIVS); s.l.clear(); if (!in(so.n,{"single","two_os","two_stream"})) { s.F_iso_top=.2; s.F_iso_bot=.3; } s=D?with_dirs(s):sources(s); Scene t=s; t.fourier_tol=1e-14; Result a,b; Str e;
    if (s.has(OPT(FOUR_CONV_OLD))) s.options&=~OPT(FOUR_CONV_OLD);
    if (!run(s,so.m,a,e)||!run(t,so.m,b,e)) { xs_fail("%s",e.c_str()); return; }
    auto A=outs(a),B=outs(b); for (size_t i=0;i<A.size();i++) xs_check_same(A[i].name.c_str(),B[i].v,A[i].v,1e-9,1e-11);
    if (D) for (int k=0;k<4;k++) { auto C=outs_l(a,k),E=outs_l(b,k); for (size_t i=0;i<C.size();i++) xs_check_same(xs_label("d%d %s",k,C[i].name.c_str()),E[i].v,C[i].v,1e-9,1e-11); } } }
void xs_main(void) {
  fourier();
  for (auto &c: configs()) {
    int ref = SOL(EIG_BVP); if (!supported(canonical(c.s),ref)) continue;
    if (c.s.fourier_tol>0) continue;   // results then depend on where each solver stops the series
    for (auto &so: SOLVERS) {
      if (so.m==SOL(SINGLE)||so.m==SOL(TWO_OS)||!supported(c.s,so.m)) continue;
      if (so.m==ref && canonical(c.s).options==c.s.options) continue;
      for (int mode=0;mode<4;mode++) {
        static const char *mn[]={"sources","iso","optical","cold_top"}; Scene t=c.s;
        if (so.m==SOL(SOS)) { for (auto &x: t.ltau) x*=.1; t.sos_max_tau=.005; t.sos_tol=1e-11; }
        bool slow = so.m==SOL(SOS)&&t.n_stokes>1; if (slow&&mode!=0) continue;
        if (mode==3&&!t.thermal()) continue;
        // known findings, exhibited by the named configurations and not repeated in the covering array
        if (starts(c.name,"px")&&((mode==1&&t.has(OPT(TOP_DOWN_ADDING))&&adding(so.m))||(mode==3&&so.m==SOL(DOUB_ADD)))) continue;
        if (!xs_thorough && mode==2 && so.m==SOL(SOS)) continue;
        if (!xs_scenario(xs_label("%s/%s/%s",mn[mode],c.name.c_str(),so.n))) continue;
        if (mode==0) { t=sources(t); xs_explore(3); } else if (mode==1) { t=iso(sources(t)); xs_explore(3); } else if (mode==2) t=optical(t);
        else { t=sources(t); t.levels_b[0]=0; t.surface_b=0; }
        Result a,b; Str e; double rt = so.m==SOL(SOS)?2e-4:1e-5;
        if (!run(canonical(t),ref,a,e)||!run(t,so.m,b,e)) { xs_fail("%s",e.c_str()); return; }
        auto A=outs(a),B=outs(b); for (size_t i=0;i<A.size();i++) xs_check_eq(A[i].name.c_str(),B[i].v,A[i].v,rt,1e-8); } } } }
