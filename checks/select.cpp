// P: what is asked for does not change what is answered: each output quantity,
// level, angle and azimuth is the same whether computed alone or with others.
#include "dirs.hpp"
static Scene sym(Scene s, int so) {
  if (s.n_stokes>1||so==SOL(SOS)) { if (s.solar()) s.F_0=S_("F_0",1.,0,10.); s.F_iso_bot=so==SOL(SINGLE)?0:S_("F_iso_bot",.3,0,4); for (size_t i=0;i<s.ampfac.size();i++) s.ampfac[i]=R_(xs_label("amp%d",(int)i),s.ampfac[i],.05); return s; }
  Scene x=symbolic(s); x.out_taus=s.out_taus; return x; }
static bool single_level(const Scene &s) { return !s.has(OPT(OUTPUT_AT_TAUS)); }
void xs_main(void) {
  static const char *md[]={"levels","thetas","phis","direction","quantity","entry","grid"};
  for (auto &c: configs()) for (auto &so: SOLVERS) for (int v=0;v<7;v++) {
    Scene s=c.s; if (so.m==SOL(TWO_STREAM)) s.phis.resize(s.phis.size());
    if (v==0&&s.n_out()<2) continue; if (v==1&&s.out_thetas.size()<2) continue; if ((v==2||v==6)&&s.phis.size()<2) continue;
    if (v==3&&s.has(OPT(UPWELLING_OUTPUT)|OPT(DOWNWELLING_OUTPUT))) continue;
    if (!supported(s,so.m)||s.fourier_tol>0) continue;
    if (so.m==SOL(SOS)) { if (s.n_stokes>1) continue; for (auto &x: s.ltau) x*=.1; for (auto &x: s.out_taus) x*=.1; s.sos_max_tau=.01; s.sos_max_os=20; }
    if (!xs_thorough && s.n_stokes>1 && in(so.n,{"doub_add","pade_add","mem_bvp"})) continue;
    if (!xs_scenario(xs_label("%s/%s/%s",md[v],c.name.c_str(),so.n))) continue;
    int w=what_of(so.m); Scene X=sym(s,so.m); Result a; Str e; if (!run(X,so.m,a,e,w)) { xs_fail("%s",e.c_str()); return; }
    double rt=v==5&&s.has(OPT(SAVE_LAYER_R_T_S)|OPT(SAVE_TOTAL_R_T_S))?1e-5:1e-8; auto same=[&](const char *l, double p, double q){ xs_check_same(l,p,q,rt,1e-11); };
    auto rad=[&](const Result &b, int l0,int m0,int p0,int l1,int m1,int p1,int dirs=3){ for (int k=0;k<a.nst;k++) {
      if (dirs&1) same(xs_label("Ip[%d][%d][%d][%d]",l0,m0,p0,k),b.Ip[b.ix(l1,m1,p1,k)],a.Ip[a.ix(l0,m0,p0,k)]);
      if (dirs&2) same(xs_label("Im[%d][%d][%d][%d]",l0,m0,p0,k),b.Im[b.ix(l1,m1,p1,k)],a.Im[a.ix(l0,m0,p0,k)]); } };
    auto mom=[&](const Result &b,int l0,int l1,int dirs=3,int q=3){ if (a.mp.empty()) return; 
      if (dirs&1) { if (q&1) same(xs_label("mean_p[%d]",l0),b.mp[l1],a.mp[l0]); if (q&2) same(xs_label("flux_p[%d]",l0),b.fp[l1],a.fp[l0]); }
      if (dirs&2) { if (q&1) same(xs_label("mean_m[%d]",l0),b.mm[l1],a.mm[l0]); if (q&2) same(xs_label("flux_m[%d]",l0),b.fm[l1],a.fm[l0]); } };
    int D=s.has(OPT(UPWELLING_OUTPUT))?1:s.has(OPT(DOWNWELLING_OUTPUT))?2:3;
    if (v==0) for (int l=0;l<a.nlev;l++) { Scene y=X; if (single_level(s)) y.out_levels={s.out_levels[l]}; else y.out_taus={X.out_taus[l]};
      if (!supported(y,so.m)) continue; Result b; if (!run(y,so.m,b,e,w)) { xs_fail("%s",e.c_str()); return; } for (int m=0;m<a.nmu;m++) for (int p=0;p<a.nphi;p++) rad(b,l,m,p,0,m,p,D); mom(b,l,0,D); }
    if (v==1) for (int m=0;m<a.nmu;m++) { Scene y=X; y.out_thetas={X.out_thetas[m]}; Result b; if (!run(y,so.m,b,e,w)) { xs_fail("%s",e.c_str()); return; } for (int l=0;l<a.nlev;l++) { for (int p=0;p<a.nphi;p++) rad(b,l,m,p,l,0,p,D); mom(b,l,l,D); } }
    if (v==2) for (int p=0;p<a.nphi;p++) { Scene y=X; y.phis={X.phis[p]}; Result b; if (!run(y,so.m,b,e,w)) { xs_fail("%s",e.c_str()); return; } for (int l=0;l<a.nlev;l++) { for (int m=0;m<a.nmu;m++) rad(b,l,m,p,l,m,0,D); mom(b,l,l,D); } }
    if (v==3) for (int d=1;d<=2;d++) { Scene y=X; y.options|=d==1?OPT(UPWELLING_OUTPUT):OPT(DOWNWELLING_OUTPUT); Result b; if (!run(y,so.m,b,e,w)) { xs_fail("%s",e.c_str()); return; }
      for (int l=0;l<a.nlev;l++) { for (int m=0;m<a.nmu;m++) for (int p=0;p<a.nphi;p++) rad(b,l,m,p,l,m,p,d); mom(b,l,l,d); } }
    if (v==4) for (int q: {(int)RAD,(int)MEAN,(int)FLUX,MEAN|FLUX}) { if (so.m==SOL(SINGLE)&&q!=RAD) continue; Result b; if (!run(X,so.m,b,e,q)) { xs_fail("%s",e.c_str()); return; }
      for (int l=0;l<a.nlev;l++) { if (q&RAD) for (int m=0;m<a.nmu;m++) for (int p=0;p<a.nphi;p++) rad(b,l,m,p,l,m,p,D); if (q!=RAD) mom(b,l,l,D,(q&MEAN?1:0)|(q&FLUX?2:0)); } }
    if (v==6) { // azimuths of their own for each angle
      Scene y=X; y.solvers|=so.m; Model m; if (!m.create(y)||!m.set_all(y)) { xs_fail("%s",m.err.c_str()); return; }
      int L=a.nlev,M=a.nmu,P=a.nphi,T=a.nst; std::vector<V1> ph(M,y.phis); std::vector<double*> op; for (int q=0;q<M;q++) { for (int p=0;p<P;p++) ph[q][p]=y.phis[(p+q)%P]; op.push_back(ph[q].data()); }
      double ****Ip=arr4(L,M,P,T),****Im=arr4(L,M,P,T); if (xrtm_radiance(m.d,(xrtm_solver_mask)so.m,P,op.data(),Ip,Im,0,0)) { xs_fail("xrtm_radiance"); return; }
      for (int l=0;l<L;l++) for (int q=0;q<M;q++) for (int p=0;p<P;p++) for (int k=0;k<T;k++) { if (D&1) same(xs_label("Ip[%d][%d][%d][%d]",l,q,p,k),Ip[l][q][p][k],a.Ip[a.ix(l,q,(p+q)%P,k)]); if (D&2) same(xs_label("Im[%d][%d][%d][%d]",l,q,p,k),Im[l][q][p][k],a.Im[a.ix(l,q,(p+q)%P,k)]); } }
    if (v==5) { // the entry points for one quantity, and several solvers in one instance
      Scene y=X; y.solvers=0; for (auto &o: SOLVERS) if (supported(s,o.m)) y.solvers|=o.m; if (!supported(s,y.solvers)) y.solvers=so.m;
      Model m; if (!m.create(y)||!m.set_all(y)) { xs_fail("%s",m.err.c_str()); return; }
      Result o; for (auto &q: SOLVERS) if ((y.solvers&q.m)&&q.m!=so.m&&q.m!=SOL(SOS)&&!m.solve(y,q.m,o,what_of(q.m))) { xs_fail("%s",m.err.c_str()); return; }
      int L=a.nlev,M=a.nmu,P=a.nphi,T=a.nst; V1 ph=y.phis; std::vector<double*> op(M,ph.data()); Result b=a;
      double ****Ip=arr4(L,M,P,T),****Im=arr4(L,M,P,T); if (xrtm_radiance(m.d,(xrtm_solver_mask)so.m,P,op.data(),Ip,Im,0,0)) { xs_fail("xrtm_radiance"); return; }
      size_t n=(size_t)L*M*P*T; b.Ip.assign(Ip[0][0][0],Ip[0][0][0]+n); b.Im.assign(Im[0][0][0],Im[0][0][0]+n);
      if (!a.mp.empty()) { double *x[4]; for (auto &z: x) z=raw_<double>(L); if (xrtm_mean_radiance(m.d,(xrtm_solver_mask)so.m,x[0],x[1],0,0)||xrtm_flux(m.d,(xrtm_solver_mask)so.m,x[2],x[3],0,0)) { xs_fail("xrtm_mean_radiance/xrtm_flux"); return; }
        b.mp.assign(x[0],x[0]+L); b.mm.assign(x[1],x[1]+L); b.fp.assign(x[2],x[2]+L); b.fm.assign(x[3],x[3]+L); }
      for (int l=0;l<L;l++) { for (int mm=0;mm<M;mm++) for (int p=0;p<P;p++) rad(b,l,mm,p,l,mm,p,D); mom(b,l,l,D); } }
  } }
