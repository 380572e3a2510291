// P: linearised outputs are the exact derivatives of the outputs.
#include "dirs.hpp"
// the layers each derivative varies in, so that the adding chain has stacks to reuse
static Scene spread(Scene s, const char *p) {
  s.options|=OPT(CALC_DERIVS); Scene c=s; s.l.clear(); int n=c.nl(); for (int k=0;k<4;k++) s.l.push_back(direction(c,xs_label("%s%d.",p,k),k==1?(IN_OMEGA|IN_COEF):(IN_OMEGA|IN_TAU|IN_COEF),k==0?n-1:k==1?n/2:k==2?0:n>3?n-2:-1)); return s; }
// an instance that reuses stacks of layers gives what one without gives
static void stacks(void) {
  struct { const char *n; int layers, f; } T[]={{"scalar5",5,0},{"vector4",4,1},{"thermal5",5,2},{"psa4",4,4},{"bottom_up5",5,8},{"taus_delta_m3",3,16},{"six6",6,0},{"thermal_only5",5,34},{"bottom_up_thermal4",4,10},{"brdf5",5,64},{"bottom_up_brdf_thermal4",4,74},{"planck5",5,130},{"planck_bottom_up4",4,202},{"black4",4,256},{"bottom_up_black_thermal4",4,266},{"planck_only_black4",4,418}};
  for (auto &t: T) for (auto &so: SOLVERS) {
    if (!adding(so.m)) continue; Scene s=tiny(); s.ltau.clear(); s.omega.clear(); s.coef.clear(); 
    for (int i=0;i<t.layers;i++) { s.ltau.push_back(.15+.11*((i*3)%5)); s.omega.push_back(.95-.07*((i*2)%5)); s.coef.push_back(t.f==1?mix6(.2+.08*i,4,.7-.1*i):hg(.2+.1*((i*2)%5),4)); }
    s.out_levels={0,t.layers}; if (t.f==1) { s.options|=OPT(VECTOR)|OPT(PHASE_MATRIX_GC); s.n_stokes=3; } if (t.f&2) s=thermal_(s); if (t.f&32) { s.options&=~OPT(SOURCE_SOLAR); s.F_0=0; } if (t.f&64) { s.kernels={XRTM_KERNEL_LAMBERTIAN,XRTM_KERNEL_ROSS_THICK}; s.ampfac={.12,.1}; s.params={{},{}}; } if (t.f&256) { s.kernels.clear(); s.ampfac.clear(); } if (t.f==4) { s.options|=OPT(PSA); s.theta_0=66; s.levels_z.clear(); for (int i=0;i<=t.layers;i++) s.levels_z.push_back(60-11*i); }
    if (t.f&8) { s.options|=OPT(BOTTOM_UP_ADDING); s.out_levels={0}; } if (t.f==16) { s.options|=OPT(DELTA_M); s.max_coef=7; for (auto &c: s.coef) c=hg(.4,7); s.out_thetas={25}; }
    Scene y=s; y.options|=OPT(CALC_DERIVS)|OPT(STACK_REUSE_ADDING); y.l.resize(4); if (!supported(y,so.m)) continue;
    if (!xs_scenario(xs_label("stacks/%s/%s",t.n,so.n))) continue; xs_explore(2);
    Scene x=symbolic(s); x=spread(x,"d"); if (t.f&128) x.l[3]=direction(s,"p.",IN_SRC|IN_SURF,-1); Scene z=x; z.options|=OPT(STACK_REUSE_ADDING); Result a,b; Str e;
    z.solvers=x.solvers=so.m; Model m; if (!run(x,so.m,a,e)||!m.create(z)||!m.set_all(z)||!m.solve(z,so.m,b)) { xs_fail("%s%s",e.c_str(),m.err.c_str()); return; }
    auto cmp=[&](const char *w){ auto A=outs(a),B=outs(b); for (size_t i=0;i<A.size();i++) xs_check_same(xs_label("%s%s",w,A[i].name.c_str()),B[i].v,A[i].v,1e-8,1e-10);
      for (int k=0;k<4;k++) { auto C=outs_l(a,k),D=outs_l(b,k); for (size_t i=0;i<C.size();i++) xs_check_same(xs_label("%sd%d %s",w,k,C[i].name.c_str()),D[i].v,C[i].v,1e-8,1e-10); } };
    cmp("");
    // the chain is rebuilt when what varies changes
    x.l[0]=nodir(x); x.l[0].omega[1]=S_("again",.3,-1,1); x.omega[2]=x.omega[2]*.9; Scene q=x; q.options=z.options;
    if (!run(x,so.m,a,e)||xrtm_set_omega_1(m.d,2,q.omega[2])||!m.set_l(q)||!m.solve(q,so.m,b)) { xs_fail("%s%s",e.c_str(),m.err.c_str()); return; }
    cmp("again: "); } }
void xs_main(void) {
  stacks();
  for (auto &c: configs()) for (auto &so: SOLVERS) for (int mode=0;mode<3;mode++) {
    Scene s=c.s; s.options|=OPT(CALC_DERIVS); s.l.resize(4); if (!supported(s,so.m)) continue;
    bool sos=so.m==SOL(SOS); if (sos&&s.n_stokes>1) continue;
    if (mode==2 && (s.params.empty()||starts(c.name,"px"))) continue;   // known finding, exhibited by the named configurations
    if (mode==1) { if (in(so.n,{"single","two_os"})) continue; s.F_iso_top=.2; s.F_iso_bot=.3; if (!xs_thorough && !in(c.name,{"base","thermal_solar","nq1","three_layers"})) continue; }
    if (!xs_scenario(xs_label("%s/%s%s",c.name.c_str(),so.n,mode==1?"+iso":mode?"+par":""))) continue;
    xs_explore(mode==2?1:4);
    if (sos) { for (auto &x: s.ltau) x*=.1; s.sos_max_tau=.005; s.sos_tol=1e-13; }
    s.options&=~OPT(CALC_DERIVS); s.l.clear(); Scene x=symbolic(s), t=with_dirs(concrete(x),false,mode==2); Result a,b; Str e;
    // STACK_REUSE only exists with derivatives
    x.options&=~OPT(STACK_REUSE_ADDING);
    if (!run(x,so.m,a,e,what_of(so.m))||!run(t,so.m,b,e,what_of(so.m))) { xs_fail("%s",e.c_str()); return; }
    Scene u=x; DerivIn nd=nodir(u);
    for (int k=0;k<4;k++) { std::map<Str,double> xv; inputs(u,nd,[&](const char*n,int,int,double &v,double&){ xv[n]=v; });
      Scene w=t; inputs(w,w.l[k],[&](const char*n,int,int,double&,double &d){ if (xs_issym(d)) xs_pair(k,xv[n],d); }); }
    auto A=outs(a); double rt=sos?1e-4:1e-6;
    auto B0=outs(b); for (size_t i=0;i<A.size();i++) xs_check_eq(xs_label("base %s",A[i].name.c_str()),xs_conc(A[i].v),B0[i].v,rt,1e-9);
    for (int k=0;k<4;k++) { auto B=outs_l(b,k); if (B.size()!=A.size()) { xs_check_true("derivative count",0); continue; }
      for (size_t i=0;i<A.size();i++) xs_check_deriv(xs_label("d%d %s",k,A[i].name.c_str()),A[i].v,B[i].v,k,rt,1e-9); }
  } }
