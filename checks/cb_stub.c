/* stand-ins for what the interface properties do not depend on */
void gauss_leg_quad(int n, double *x, double *w) { for (int i=0;i<n;i++) { x[i]=.25+.5*i/n; w[i]=1./n; } }
void gauss_leg_quad2(int n, double *x, double *w) { for (int i=0;i<n;i++) { x[i]=.25+.5*i/n; w[i]=1./n; } }
struct wd; int work_init(struct wd *w,int a,int b,int c,int e,int f,int g) { return 0; }
void work_free(struct wd *w) {}
int get_solution() { return 0; }
int cb_stop, cb_reached; int cb_setjmp() { cb_reached=1; return cb_stop; }
/* what of these two the name lists use; CBMC has no models of them */
#include <stdarg.h>
int cb_snprintf(char *s, unsigned long n, const char *f, ...) { va_list a; int l=0; va_start(a,f); const char *t=f[0]=='%'?va_arg(a,const char *):f; for (;t[l];l++) if (l+1<n) s[l]=t[l]; if (n) s[l<n?l:n-1]=0; va_end(a); return l; }
static int sep(char c, const char *d) { for (int i=0;d[i];i++) if (d[i]==c) return 1; return 0; }
char *cb_strtok_r(char *s, const char *d, char **l) { if (!s) s=*l; while (*s&&sep(*s,d)) s++; if (!*s) { *l=s; return 0; } char *t=s; while (*s&&!sep(*s,d)) s++; if (*s) *s++=0; *l=s; return t; }
