/* Harness macros: under CBMC inputs are nondeterministic and CHECK is an
   assertion; natively inputs come from a replay file and CHECK reports. */
#include <gutil.h>
#include "xrtm.h"
#include "xrtm_interface.h"
#include <float.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef CBMC
double nondet_double(void); int nondet_int(void);
#define IN_D(x) double x=nondet_double()
#define IN_I(x) int x=nondet_int()
#define CHECK(c,l) __CPROVER_assert(c,"PROP " l)
#define ASSUME(c) __CPROVER_assume(c)
#define REACH() __CPROVER_assert(0,"REACH")
#else
extern int cb_failed; double cb_read(const char *name); void cb_check(int c,const char *l);
#define IN_D(x) double x=cb_read(#x)
#define IN_I(x) int x=(int)cb_read(#x)
#define CHECK(c,l) cb_check(!!(c),l)
#define ASSUME(c) do { if (!(c)) { printf("ASSUME %s\n",#c); exit(3); } } while (0)
#define REACH()
#endif
#define FIN(x) ASSUME((x)-(x)==0.)
#define OP(x) XRTM_OPTION_##x
#define BASE (OP(OUTPUT_AT_LEVELS)|OP(SOURCE_SOLAR))
static int mk(xrtm_data *d, int options, int solvers, int max_coef, int n_quad, int n_stokes, int n_derivs, int n_layers, int n_kernels, enum xrtm_kernel_type *k, int n_levels, int n_thetas) {
  return xrtm_create(d,(enum xrtm_option_mask)options,(enum xrtm_solver_mask)solvers,max_coef,n_quad,n_stokes,n_derivs,n_layers,1,n_kernels,n_kernels?1:0,k,n_levels,n_thetas); }
