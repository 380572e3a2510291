// P17: quadrature rules integrate what they should, and the polynomials and
// generalized spherical functions are the ones of their definitions (explicit sums).
#include "common.hpp"
#include "rtutil_math.h"
typedef double LD;
static LD fact(int n) { LD r=1; for (int i=2;i<=n;i++) r*=i; return r; }
static LD binom(int n, int k) { if (k<0||k>n) return 0; LD r=1; for (int i=1;i<=k;i++) r=r*(n-k+i)/i; return r; }
// P^l_pq without its phase: 2^-r sqrt(..) (1-x)^(a/2) (1+x)^(b/2) Jacobi^(a,b)_(l-r)(x); a even, or a==b and root = sqrt(1-x^2)
static double gsf(int p, int q, int l, double x, double root) {
  int a=abs(p-q), b=abs(p+q), r=abs(p)>abs(q)?abs(p):abs(q), n=l-r; if (n<0) return 0.;
  double s=0; for (int k=0;k<=n;k++) { double t=(double)(binom(n+a,k)*binom(n+b,n-k)); for (int i=0;i<n-k;i++) t=t*(.5*x-.5); for (int i=0;i<k;i++) t=t*(.5*x+.5); s=s+t; }
  double f=(double)(sqrt(fact(l-r)*fact(l+r)/(fact(l-r+a)*fact(l-r+b)))/pow(2,r));
  if (a%2==0) { for (int i=0;i<a/2;i++) s=s*(1-x); for (int i=0;i<b/2;i++) s=s*(1+x); } else for (int i=0;i<a;i++) s=s*root;
  return f*s; }
struct Poly { V1 c; Poly(int d) { for (int k=0;k<=d;k++) c.push_back(S_(xs_label("c%d",k),k%3?.5:-.25,-1,1)); }
  double at(double x) const { double r=0; for (size_t k=c.size();k-->0;) r=r*x+c[k]; return r; }
  double integral(double a, double b) const { double r=0, pa=a, pb=b; for (size_t k=0;k<c.size();k++) { r+=c[k]*(pb-pa)/(k+1); pa*=a; pb*=b; } return r; } };
static void nodes(const char *n, int m, const double *x, const double *w, double a, double b) { bool ok=true; for (int i=0;i<m;i++) { double v=xs_conc(x[i]); ok=ok&&v>a&&v<b&&xs_conc(w[i])>0&&(i==0||v>xs_conc(x[i-1])); } xs_check_true(xs_label("%s: nodes ascend inside the interval, weights are positive",n),ok); }
void xs_main(void) {
  std::vector<int> N={1,2,3,4,5,6,7,8,10,12,16}; if (xs_thorough) N.insert(N.end(),{9,11,20,24,31,32});
  for (int n: N) {
    if (xs_scenario(xs_label("double_gauss/%d",n))) { V1 x(n),w(n); gauss_leg_quad2(n,x.data(),w.data()); nodes("double Gauss",n,x.data(),w.data(),0,1); Poly p(2*n-1); double s=0; for (int i=0;i<n;i++) s+=w[i]*p.at(x[i]); xs_check_eq("integral of any polynomial of degree 2n-1",s,p.integral(0,1),0,1e-12); }
    if (xs_scenario(xs_label("half_gauss/%d",n))) { V1 x(n),w(n); gauss_leg_quad(n,x.data(),w.data()); nodes("half range Gauss",n,x.data(),w.data(),0,1); Poly p(4*n-1); double s=0; for (int i=0;i<n;i++) s+=w[i]*(p.at(x[i])+p.at(-x[i])); xs_check_eq("integral of any polynomial of degree 4n-1 over both halves",s,p.integral(-1,1),0,1e-12); }
    for (int fit=0;fit<2;fit++) if (n<=12&&xs_scenario(xs_label("%s/%d",fit?"gauss_fit":"gauss_interval",n))) {
      double a=S_("a",-.7,-1,0), b=S_("b",.8,.1,1), al=S_("a_l",.3,-1,1), bl=S_("b_l",-.4,-1,1); xs_pair(1,a,al); xs_pair(1,b,bl);
      V1 x(n),w(n),x0(n),w0(n); double *A=&al,*B=&bl, **xl=arr2(n,1),**wl=arr2(n,1);
      if (!fit) { gauss_leg_quadx_l(n,1,a,b,A,B,x.data(),w.data(),xl,wl); gauss_leg_quadx(n,a,b,x0.data(),w0.data()); }
      else { V1 xa(n),wa(n); double **xal=arr2(n,1),**wal=arr2(n,1); gauss_leg_quadx(n,-1,1,xa.data(),wa.data()); for (int i=0;i<n;i++) xal[i][0]=wal[i][0]=0.; gauss_leg_quad_fit_l(n,1,a,b,A,B,xa.data(),wa.data(),x.data(),w.data(),xal,wal,xl,wl); gauss_leg_quad_fit(n,a,b,xa.data(),wa.data(),x0.data(),w0.data()); }
      nodes("Gauss",n,x.data(),w.data(),-.7,.8);
      for (int i=0;i<n;i++) { xs_check_same(xs_label("node %d with and without derivatives",i),x[i],x0[i],1e-13,1e-15); xs_check_same(xs_label("weight %d with and without derivatives",i),w[i],w0[i],1e-13,1e-15);
        xs_check_deriv(xs_label("derivative of node %d",i),x[i],xl[i][0],1,1e-12,1e-13); xs_check_deriv(xs_label("derivative of weight %d",i),w[i],wl[i][0],1,1e-12,1e-13); }
      int D=n<5?2*n-1:9; for (int d=0;d<=D;d++) { double s=0,pa=a,pb=b; for (int i=0;i<n;i++) { double t=w[i]; for (int k=0;k<d;k++) t=t*x[i]; s=s+t; } for (int k=0;k<d;k++) { pa=pa*a; pb=pb*b; } xs_check_poly(xs_label("integral of x^%d over any interval",d),s,(pb-pa)/(d+1),0,1e-12); } }
  }
  for (int n=1;n<=(xs_thorough?15:9);n++) for (int k=0;k<3;k++) { static const char *nm[]={"trapezoidal","extended_trapezoidal","simpson"}; if ((n==1&&k!=1)||(k==2&&n%2==0)) { if (k==2&&n%2==0&&xs_scenario(xs_label("simpson/%d",n))) { V1 x(n),w(n); xs_check_true("an even number of points is refused",simpsons_rule_quad(n,0,1,x.data(),w.data())!=0); } continue; }
    if (!xs_scenario(xs_label("%s/%d",nm[k],n))) continue; double a=S_("a",-.5,-2,0), b=S_("b",.9,.1,2); V1 x(n,0./1),w(n,0.);
    if (k==0) trapezoidal_quad(n,a,b,x.data(),w.data()); else if (k==1) extended_trapezoidal_quad(n,a,b,x.data(),w.data()); else xs_check_true("accepted",simpsons_rule_quad(n,a,b,x.data(),w.data())==0);
    double h=n>1?(b-a)/(n-1):b-a; for (int i=0;i<n;i++) { double c=n==1?1.:k<2?(i==0||i==n-1?.5:1.):(i==0||i==n-1?1/3.:i%2?4/3.:2/3.); xs_check_eq(xs_label("node %d",i),x[i],n==1?.5*(a+b):a+i*h,0,1e-13); xs_check_eq(xs_label("weight %d",i),w[i],c*h,0,1e-13); } }
  int L=xs_thorough?16:10;
  for (double m0: {-.6,.0625,.93}) {
    if (xs_scenario(xs_label("legendre/%g",m0))) { double x[2]={S_("mu",m0,-1,1),S_("nu",.3,-1,1)}, y[64]={0.}, **p=arr2(2,L); leg_poly(L,x[0],y); leg_poly2(2,L,x,p); for (int l=0;l<L;l++) { double o=gsf(0,0,l,x[0],0); xs_check_poly(xs_label("P_%d",l),y[l],o,0,1e-10); xs_check_poly(xs_label("P_%d, first of two",l),p[0][l],o,0,1e-10); xs_check_poly(xs_label("P_%d, second of two",l),p[1][l],gsf(0,0,l,x[1],0),0,1e-10); } }
    if (xs_scenario(xs_label("spherical_prt/%g",m0))) { double x[2]={S_("mu",m0,-1,1),S_("nu",-.4,-1,1)}; static const int P[4]={0,0,2,2},Q[4]={0,2,2,-2}; double y[4][64]={{0.}}, **p[4]; for (auto &q: p) q=arr2(2,L); gen_spher_funcs_prt(L,x[0],y[0],y[1],y[2],y[3]); gen_spher_funcs_prt2(2,L,x,p[0],p[1],p[2],p[3]);
      for (int k=0;k<4;k++) for (int l=0;l<L;l++) for (int j=0;j<3;j++) { double o=(abs(P[k]-Q[k])==2?-1:1)*gsf(P[k],Q[k],l,x[j==2],0); xs_check_poly(xs_label("P_%d%d,%d (%d)",P[k],Q[k],l,j),j==0?y[k][l]:p[k][j-1][l],o,0,1e-10); }
      for (int nl=1;nl<3;nl++) { double z[4][3]; for (auto &q: z) q[0]=q[1]=q[2]=7.; gen_spher_funcs_prt(nl,x[0],z[0],z[1],z[2],z[3]); bool ok=true; for (auto &q: z) for (int l=nl;l<3;l++) ok=ok&&q[l]==7.; xs_check_true("nothing is written past the last function",ok); } }
    if (xs_scenario(xs_label("associated/%g",m0))) { double x[2]={S_("mu",m0,m0-.06,m0+.06),S_("nu",.5,.4,.6)}; double c=0,d=0,c2=0,d2=0; for (int m=0;m<=5;m++) { double y[64]={0.}, **p=arr2(2,L); leg_poly_assoc(m,L,x[0],&c,&d,y,1); leg_poly_assoc2(m,2,L,x,&c2,&d2,p,1); double z[64]={0.}; leg_poly_assoc(m,L,x[0],&c,&d,z,0);
      for (int l=0;l<L;l++) { double o=(m%2?-1:1)*gsf(m,0,l,x[0],sqrt(1-x[0]*x[0])), o2=(m%2?-1:1)*gsf(m,0,l,x[1],sqrt(1-x[1]*x[1])); xs_check_eq(xs_label("P_%d^%d",l,m),y[l],o,0,1e-10); xs_check_eq(xs_label("P_%d^%d again",l,m),z[l],o,0,1e-10); xs_check_eq(xs_label("P_%d^%d, first of two",l,m),p[0][l],o,0,1e-10); xs_check_eq(xs_label("P_%d^%d, second of two",l,m),p[1][l],o2,0,1e-10); } } }
    if (xs_scenario(xs_label("spherical/%g",m0))) { double x=S_("mu",m0,m0-.06,m0+.06), rt=sqrt(1-x*x); typedef dcomplex C;
      auto put=[&](const char *n, int p, int q, const C *y) { int a=abs(p-q); for (int l=0;l<L;l++) { double o=gsf(p,q,l,x,rt), re=0, im=0; switch (a%4) { case 0: re=o; break; case 1: im=-o; break; case 2: re=-o; break; default: im=o; }
        const double *v=(const double*)&y[l]; xs_check_eq(xs_label("%s %d,%d,%d real",n,p,q,l),v[0],re,0,1e-9); xs_check_eq(xs_label("%s %d,%d,%d imaginary",n,p,q,l),v[1],im,0,1e-9); } };
      static const int PQ[][2]={{0,0},{0,1},{0,2},{2,0},{0,3},{2,2},{2,-2},{1,1},{1,-1},{3,3},{0,4},{4,2},{1,3}};
      for (auto &t: PQ) { if (abs(t[0]-t[1])%2&&abs(t[0])!=0&&abs(t[1])!=0) continue; std::vector<C> y(L), z(L); gen_spher_funcs(t[0],t[1],L,x,y.data()); put("P",t[0],t[1],y.data()); C *zz=z.data(); gen_spher_funcs2(t[0],t[1],1,L,&x,&zz); put("P(2)",t[0],t[1],zz); if (t[0]==0) { gen_spher_funcs_0q(t[1],L,x,z.data()); put("P0q",0,t[1],z.data()); gen_spher_funcs_p0(t[1],L,x,z.data()); put("Pp0",t[1],0,z.data()); } } }
  }
  if (xs_scenario("factorial")) { bool ok=true; for (int i=0;i<20;i++) ok=ok&&factorial(i)==(double)fact(i); xs_check_true("factorials",ok); double y=S_("y",1.5,1,2); xs_check_eq("continued",factorial_evaluate(y,4,7),y*840,1e-14,0); }
}
