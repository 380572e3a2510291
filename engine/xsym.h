/* xsym: symbolic reals for natively executed C code.
 *
 * The same driver source is compiled twice:
 *   - XSYM defined:    linked with the instrumented library; xs_sym() returns a
 *                      symbolic value, obligations are decided by an SMT solver.
 *   - XSYM undefined:  linked with the plain gcc build of the library; xs_sym()
 *                      returns a concrete value taken from a replay file.
 */
#ifndef XSYM_H
#define XSYM_H
#ifdef __cplusplus
extern "C" {
#endif

/* a new symbolic real named name, base value v, range [lo,hi] */
double xs_sym(const char *name, double v, double lo, double hi);
/* base value of a (possibly symbolic) double */
double xs_conc(double);
int    xs_issym(double);

/* obligations; tolerance is atol + rtol*sup(|a|,|b|) over the box.
   xs_check_eq   exact over the whole box when both sides are linear in the
                 symbols (LRA); first order about the base point otherwise
   xs_check_poly a and b are polynomials of the symbols: over the whole box
   xs_check_same a and b are the same term (bit-exact, uninterpreted
                 arithmetic); falls back on xs_check_eq when they are not
   xs_check_ge   a >= b - tol over the box (linear)
   xs_check_deriv tl (linear in directions d_i) == sum_i d(base)/d(x_i) * d_i
                 for every direction in the box, x_i at the base point        */
void xs_check_eq   (const char *label, double a, double b, double rtol, double atol);
void xs_check_poly (const char *label, double a, double b, double rtol, double atol);
void xs_check_same (const char *label, double a, double b, double rtol, double atol);
void xs_check_ge   (const char *label, double a, double b, double tol);
void xs_check_true (const char *label, int cond);
void xs_pair(int group, double x, double d);   /* d is the direction symbol that belongs to x */
void xs_check_deriv(const char *label, double base, double tl, int group, double rtol, double atol);

/* scenarios */
int  xs_scenario(const char *name);       /* 1: run this scenario now */
void xs_explore(int n);                   /* follow up to n affine-branch paths over the box */
void xs_fail(const char *fmt, ...);       /* the library failed where it must not: a violation if it replays */
void xs_note(const char *fmt, ...);
const char *xs_label(const char *fmt, ...);

/* provided by the driver */
void xs_main(void);
extern int xs_thorough;                   /* VERIF_TIER=thorough */
extern int xs_symbolic;                   /* 1 in the instrumented build */
#ifdef __cplusplus
}
#endif
#endif
