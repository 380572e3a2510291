// P: derivatives by the reverse (adjoint) mode are the ones by the tangent linear mode.
#include "dirs.hpp"
// the reverse mode exists for the eigenvector solvers and single scattering, the
// solar source and Lambertian surfaces; one scenario for each thing that is
// accepted without being implemented (recorded as findings)
static const char *GAPS[] = {"solar2/doub_add","solar2/pade_add","solar2/mem_bvp","solar2/sos","solar2/two_os","nq1/two_stream","solar2/eig_add+iso","solar2/eig_bvp+iso","thermal_solar/eig_add","thermal_solar/eig_bvp",
  "brdf_rtls/eig_add","brdf_hapke/eig_bvp","brdf_rahman/single","sfi/eig_bvp","taus/eig_bvp","top_down/eig_add","vector3/eig_bvp","vector3/eig_add","three_layers/eig_add","save_all/eig_bvp","greens/eig_bvp"};
static bool covered(const Str &c, const Str &so, int iso, const Scene &s) {
  if (iso||!in(so,{"eig_add","eig_bvp","single"})) return false;
  if (starts(c,"px")||c.find("_psa")!=Str::npos&&s.has(OPT(SFI))) { bool lamb=true, even=true; for (auto k: s.kernels) lamb=lamb&&k==XRTM_KERNEL_LAMBERTIAN; for (auto &x: s.coef) even=even&&x[0].size()==s.coef[0][0].size();
    if (s.thermal()||!lamb||so!="single"&&(s.has(OPT(SFI))||s.has(OPT(OUTPUT_AT_TAUS))||!even)||so=="eig_bvp"&&s.has(OPT(SAVE_LAYER_R_T_S))||so=="eig_add"&&s.has(OPT(TOP_DOWN_ADDING))) return false; return true; }
  if (c.find("thermal")!=Str::npos||c.find("sfi")!=Str::npos||c.find("taus")!=Str::npos||starts(c,"brdf")) return c.find("taus")!=Str::npos&&so=="single"&&c=="taus";
  if (so=="eig_bvp"&&c=="save_all") return false;
  if ((c=="vector3"&&so!="single")||(c=="three_layers"&&so=="eig_add")) return false;   // layers with unequal numbers of coefficients
  if (c=="top_down"&&so=="eig_add") return false;
  return true; }
// more layers, all with the same number of coefficients
static std::vector<Cfg> cases() {
  auto r=configs(); Scene s=tiny(); s.ltau={.2,.35,.1,.4}; s.omega={.9,.7,.95,.8}; s.coef={hg(.3,4),hg(.1,4),hg(.4,4),hg(.2,4)}; s.out_levels={0,2,4}; r.push_back({"even4",s});
  Scene v=s; v.options|=OPT(VECTOR)|OPT(PHASE_MATRIX_GC); v.n_stokes=3; for (int i=0;i<4;i++) v.coef[i]=mix6(.2+.08*i,4,.7-.1*i); r.push_back({"even4_vector",v});
  s.options|=OPT(BOTTOM_UP_ADDING); s.out_levels={0}; r.push_back({"even4_bottom_up",s}); return r; }
void xs_main(void) {
  for (auto &c: cases()) for (auto &so: SOLVERS) for (int mode=0;mode<5;mode++) {
    Scene s=c.s; s.options|=OPT(CALC_DERIVS)|OPT(REVERSE_DERIVS); s.l.resize(4); if (!supported(s,so.m)) continue;
    Str nm=xs_label("%s/%s%s",c.name.c_str(),so.n,mode==1?"+iso":mode==2?"+tol":mode==3?"+stacks":mode==4?"+again":""); bool gap=false; for (auto g: GAPS) gap=gap||nm==g;
    if (mode==4&&(s.has(OPT(OUTPUT_AT_TAUS))||c.name=="greens")) continue;
    if (mode==2&&(!s.has(OPT(N_T_TMS))||!s.solar())) continue;
    if (mode==3) { s.options=(s.options&~OPT(SAVE_LAYER_R_T_S))|OPT(STACK_REUSE_ADDING); if (so.m!=SOL(EIG_ADD)||!supported(s,so.m)) continue; }
    if (!gap&&!covered(c.name,so.n,mode==1,s)) continue;
    if (!xs_scenario(xs_label("%s%s",gap?"gap/":"",nm.c_str()))) continue;
    if (mode==1) { s.F_iso_top=.2; s.F_iso_bot=.3; }
    if (mode==2) s.fourier_tol=1e-14;
    xs_explore(gap?1:4);
    if (so.m==SOL(SOS)) { for (auto &x: s.ltau) x*=.1; s.sos_max_tau=.005; s.sos_tol=1e-13; }
    s.l.clear(); Scene t=with_dirs(s); Scene f=t; f.options&=~OPT(REVERSE_DERIVS); Result a,b; Str e;
    if (!run(f,so.m,a,e,RAD)||!run(t,so.m,b,e,RAD,true)) { xs_fail("%s",e.c_str()); return; }
    if (mode==4) { // the same instance again, and once more after changes
      Scene u=t; u.solvers=so.m; Model m; if (!m.create(u)||!m.set_all(u)||!m.solve(u,so.m,b,RAD,true)) { xs_fail("%s",m.err.c_str()); return; }
      for (int i=0;i<t.nl();i++) { t.omega[i]=R_(xs_label("again.omega%d",i),t.omega[i]*.9,.05); t.ltau[i]=R_(xs_label("again.ltau%d",i),t.ltau[i]*1.1,.05); if (xrtm_set_omega_1(m.d,i,t.omega[i])||xrtm_set_ltau_1(m.d,i,t.ltau[i])) { xs_fail("set"); return; } }
      for (auto &e: t.l) { for (auto &w: e.omega) w=w*.7; }
      for (size_t k=0;k<t.l.size();k++) for (int i=0;i<t.nl();i++) if (xrtm_set_omega_l_11(m.d,i,k,t.l[k].omega[i])) { xs_fail("set_l"); return; }
      f=t; f.options&=~OPT(REVERSE_DERIVS); if (!run(f,so.m,a,e,RAD)||!m.solve(t,so.m,b,RAD,true)) { xs_fail("%s%s",e.c_str(),m.err.c_str()); return; } }
    auto want=[&](const Str &n){ return !(s.has(OPT(UPWELLING_OUTPUT))&&starts(n,"Im"))&&!(s.has(OPT(DOWNWELLING_OUTPUT))&&starts(n,"Ip")); };
    auto A0=outs(a,RAD),B0=outs(b,RAD); for (size_t i=0;i<A0.size();i++) if (want(A0[i].name)) xs_check_eq(xs_label("base %s",A0[i].name.c_str()),B0[i].v,A0[i].v,1e-8,1e-11);
    for (int k=0;k<4;k++) { auto A=outs_l(a,k,RAD),B=outs_l(b,k,RAD); if (B.size()!=A.size()) { xs_check_true("derivative count",0); continue; }
      for (size_t i=0;i<A.size();i++) if (want(A[i].name)) xs_check_eq(xs_label("d%d %s",k,A[i].name.c_str()),B[i].v,A[i].v,1e-7,1e-10); }
  } }
