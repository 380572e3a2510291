/* native side of xsym.h: concrete replay of a counterexample against the plain
 * gcc build of the library. Input file: "scenario NAME", "label NAME",
 * "sym NAME VALUE" lines.  Prints "VAL kind a b" for obligations of the label. */
#include "xsym.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int xs_symbolic = 0, xs_thorough = 0;
static char scen[512], label[512]; static int n; static char (*nm)[256]; static double *vv; static int trace, all;
double xs_sym(const char *name, double v, double lo, double hi) { for (int i=0;i<n;i++) if (!strcmp(nm[i],name)) return vv[i]; return v; }
double xs_conc(double x) { return x; }
int xs_issym(double x) { return 0; }
int xs_scenario(const char *s) { return !strcmp(s, scen); }
static void out(const char *k, const char *l, double a, double b) { if (all) printf("VAL %s %.17g %.17g %s\n", k, a, b, l); else if (!strcmp(l,label)) printf("VAL %s %.17g %.17g\n", k, a, b); }
void xs_check_eq(const char *l,double a,double b,double r,double t) { out("eq",l,a,b); }
void xs_check_poly(const char *l,double a,double b,double r,double t) { out("eq",l,a,b); }
void xs_check_same(const char *l,double a,double b,double r,double t) { out("eq",l,a,b); }
void xs_check_ge(const char *l,double a,double b,double t) { out("ge",l,a,b); }
void xs_check_true(const char *l,int c) { out("true",l,c!=0,1.); }
void xs_check_deriv(const char *l,double base,double tl,int g,double r,double t) { out("deriv",l,base,tl); }
void xs_explore(int n) {}
void xs_pair(int g,double x,double d) {}
void xs_fail(const char *fmt, ...) { va_list ap; va_start(ap,fmt); printf("FAIL "); vprintf(fmt,ap); printf("\n"); va_end(ap); fflush(stdout); }
void xs_note(const char *fmt, ...) {}
const char *xs_label(const char *fmt, ...) { static char b[8][256]; static int k=0; k=(k+1)%8; va_list ap; va_start(ap,fmt); vsnprintf(b[k],256,fmt,ap); va_end(ap); return b[k]; }
int main(int argc, char **argv) {
  const char *t=getenv("VERIF_TIER"); xs_thorough = t && !strcmp(t,"thorough");
  nm = malloc(256*100000); vv = malloc(8*100000);
  FILE *f = fopen(argv[1],"r"); char line[1024]; if (!f) return 2;
  while (fgets(line,sizeof line,f)) { line[strcspn(line,"\n")]=0;
    if (!strncmp(line,"scenario ",9)) strcpy(scen,line+9);
    else if (!strncmp(line,"label ",6)) strcpy(label,line+6);
    else if (!strncmp(line,"tier thorough",13)) xs_thorough=1;
    else if (!strncmp(line,"all",3)) all=1;
    else if (!strncmp(line,"sym ",4)) { char a[256]; double v; if (sscanf(line+4,"%255s %lf",a,&v)==2) { strcpy(nm[n],a); vv[n++]=v; } } }
  fclose(f); xs_main(); printf("DONE\n"); return 0; }
