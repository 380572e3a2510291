/* P14: names, indexes and masks of options, solvers, outputs and kernels; the lists made of them. */
#include "cb.h"
#include "xrtm_brdf.h"
typedef struct { const char *name; unsigned v; } row;
static const row options[]={ {"calc_derivs",XRTM_OPTION_CALC_DERIVS}, {"reverse_derivs",XRTM_OPTION_REVERSE_DERIVS}, {"delta_m",XRTM_OPTION_DELTA_M}, {"n_t_tms",XRTM_OPTION_N_T_TMS}, {"four_conv_old",XRTM_OPTION_FOUR_CONV_OLD}, {"four_conv_new",XRTM_OPTION_FOUR_CONV_NEW}, {"no_azimuthal",XRTM_OPTION_NO_AZIMUTHAL}, {"output_at_levels",XRTM_OPTION_OUTPUT_AT_LEVELS}, {"output_at_taus",XRTM_OPTION_OUTPUT_AT_TAUS}, {"part_sol_classical",XRTM_OPTION_PART_SOL_CLASSICAL}, {"part_sol_greens",XRTM_OPTION_PART_SOL_GREENS}, {"phase_scalar",XRTM_OPTION_PHASE_SCALAR}, {"phase_matrix_gc",XRTM_OPTION_PHASE_MATRIX_GC}, {"phase_matrix_lc",XRTM_OPTION_PHASE_MATRIX_LC}, {"psa",XRTM_OPTION_PSA}, {"quad_norm_gaus_leg",XRTM_OPTION_QUAD_NORM_GAUS_LEG}, {"quad_doub_gaus_leg",XRTM_OPTION_QUAD_DOUB_GAUS_LEG}, {"quad_lobatto",XRTM_OPTION_QUAD_LOBATTO}, {"save_leg_polys",XRTM_OPTION_SAVE_LEG_POLYS}, {"save_phase_mats",XRTM_OPTION_SAVE_PHASE_MATS}, {"save_local_r_t",XRTM_OPTION_SAVE_LOCAL_R_T}, {"save_layer_r_t_s",XRTM_OPTION_SAVE_LAYER_R_T_S}, {"save_total_r_t_s",XRTM_OPTION_SAVE_TOTAL_R_T_S}, {"sfi",XRTM_OPTION_SFI}, {"source_solar",XRTM_OPTION_SOURCE_SOLAR}, {"source_thermal",XRTM_OPTION_SOURCE_THERMAL}, {"stack_reuse_adding",XRTM_OPTION_STACK_REUSE_ADDING}, {"top_down_adding",XRTM_OPTION_TOP_DOWN_ADDING}, {"bottom_up_adding",XRTM_OPTION_BOTTOM_UP_ADDING}, {"upwelling_output",XRTM_OPTION_UPWELLING_OUTPUT}, {"downwelling_output",XRTM_OPTION_DOWNWELLING_OUTPUT}, {"vector",XRTM_OPTION_VECTOR} }, solvers[]={ {"doub_add",XRTM_SOLVER_DOUB_ADD}, {"eig_add",XRTM_SOLVER_EIG_ADD}, {"eig_bvp",XRTM_SOLVER_EIG_BVP}, {"four_stream",XRTM_SOLVER_FOUR_STREAM}, {"mem_bvp",XRTM_SOLVER_MEM_BVP}, {"pade_add",XRTM_SOLVER_PADE_ADD}, {"single",XRTM_SOLVER_SINGLE}, {"six_stream",XRTM_SOLVER_SIX_STREAM}, {"sos",XRTM_SOLVER_SOS}, {"two_os",XRTM_SOLVER_TWO_OS}, {"two_stream",XRTM_SOLVER_TWO_STREAM} }, outputs[]={ {"radiance",XRTM_OUTPUT_RADIANCE}, {"radiance_mean",XRTM_OUTPUT_RADIANCE_MEAN}, {"flux",XRTM_OUTPUT_FLUX}, {"flux_divergence",XRTM_OUTPUT_FLUX_DIVERGENCE} }, kernels[]={ {"lambertian",XRTM_KERNEL_LAMBERTIAN}, {"direct_and_diffuse",XRTM_KERNEL_DIRECT_AND_DIFFUSE}, {"roujean",XRTM_KERNEL_ROUJEAN}, {"li_sparse",XRTM_KERNEL_LI_SPARSE}, {"li_dense",XRTM_KERNEL_LI_DENSE}, {"ross_thin",XRTM_KERNEL_ROSS_THIN}, {"ross_thick",XRTM_KERNEL_ROSS_THICK}, {"hapke",XRTM_KERNEL_HAPKE}, {"rahman",XRTM_KERNEL_RAHMAN}, {"cox_munk",XRTM_KERNEL_COX_MUNK}, {"user_defined",XRTM_KERNEL_USER_DEFINED} };
static int same(const char *a, const char *b) { if (!a||!b) return a==b; for (int i=0;i<24;i++) { if (a[i]!=b[i]) return 0; if (!a[i]) return 1; } return 0; }
static int bits(unsigned m) { int n=0; for (int i=0;i<32;i++) n+=(m>>i)&1; return n; }
#define TABLE(T,t,n,TO,FROM,TYPE) do { IN_I(i_##T); int i=i_##T; ASSUME(i>=-2&&i<=(n)+1); CHECK(xrtm_##T##_n()==(n),#T ": how many there are"); \
  for (int k=-2;k<=(n)+1;k++) if (i==k) { const char *nm=xrtm_##T##_index_to_name(k); unsigned v=(unsigned)xrtm_##T##_index_to_##TO(k); \
    if (k<0||k>=(n)) { CHECK(nm==NULL,#T ": an index out of range has no name"); CHECK((int)v==-1,#T ": an index out of range has no value"); } \
    else { CHECK(same(nm,t[k].name),#T ": index to name"); CHECK(v==t[k].v,#T ": index to value"); CHECK(xrtm_##T##_name_to_index(t[k].name)==k,#T ": name to index"); CHECK((unsigned)xrtm_##T##_name_to_##TO(t[k].name)==t[k].v,#T ": name to value"); \
      CHECK(same(xrtm_##T##_##TO##_to_name((TYPE)t[k].v),t[k].name),#T ": value to name"); CHECK(xrtm_##T##_##TO##_to_index((TYPE)t[k].v)==k,#T ": value to index"); } } \
  int mx=0; for (int k=0;k<(n);k++) { int l=0; while (t[k].name[l]) l++; if (l>mx) mx=l; } CHECK(xrtm_##T##_max_name_length()==mx,#T ": longest name"); } while (0)
#ifdef h_names_option
void HARNESS(void) { TABLE(option,options,32,mask,mask,enum xrtm_option_mask); REACH(); }
#endif
#ifdef h_names_rest
void HARNESS(void) { TABLE(solver,solvers,11,mask,mask,enum xrtm_solver_mask); TABLE(output,outputs,4,mask,mask,enum xrtm_output_mask); TABLE(kernel,kernels,11,value,value,enum xrtm_kernel_type); REACH(); }
#endif
/* any string at all */
#define STR IN_I(c0); IN_I(c1); IN_I(c2); IN_I(c3); IN_I(c4); IN_I(c5); IN_I(c6); IN_I(c7); IN_I(c8); IN_I(c9); IN_I(c10); IN_I(c11); IN_I(c12); IN_I(c13); char w[15]={c0,c1,c2,c3,c4,c5,c6,c7,c8,c9,c10,c11,c12,c13,0}
#define ANY(T,t,n,TO) do { int e=-1; for (int k=0;k<(n);k++) if (same(w,t[k].name)) e=k; CHECK(xrtm_##T##_name_to_index(w)==e,#T ": only the names themselves are known"); CHECK((int)xrtm_##T##_name_to_##TO(w)==(e<0?-1:(int)t[e].v),#T ": only the names themselves have a value"); } while (0)
#ifdef h_any_name
void HARNESS(void) { STR; ANY(solver,solvers,11,mask); ANY(output,outputs,4,mask); ANY(kernel,kernels,11,value); REACH(); }
#endif
/* MK: the bits of the mask that are free; L: the longest list asked for */
#define LISTS(T,t,n,MK,L,TYPE) do { IN_I(m_##T); IN_I(l_##T); unsigned m=(unsigned)m_##T&(MK); int len=l_##T; ASSUME(len>=0&&len<=(L)); int ix[(L)+1]; long vx[(L)+1]; for (int k=0;k<=(L);k++) ix[k]=-7, vx[k]=-7; \
  int r=xrtm_##T##_mask_to_index_list((TYPE)m,ix,len), c=bits(m), e=c<len?c:len, at=0, ok=1; CHECK(r==e,#T ": as many indexes as bits, and no more than fit"); for (int k=0;k<(n);k++) if ((m>>k)&1) { if (at<e) ok=ok&&ix[at]==k; at++; } for (int k=0;k<=(L);k++) if (k>=e) ok=ok&&ix[k]==-7; CHECK(ok,#T ": the indexes of the bits, nothing beyond"); \
  r=xrtm_##T##_mask_to_value_list((TYPE)m,vx,len); CHECK(r==e,#T ": as many values as bits, and no more than fit"); ok=1; for (int k=0;k<=(L);k++) if (k>=e) ok=ok&&vx[k]==-7; CHECK(ok,#T ": no value beyond"); if (e==c) CHECK((unsigned)xrtm_##T##_value_list_to_mask(vx,e)==m,#T ": the values make up the mask again"); } while (0)
#ifdef h_lists
void HARNESS(void) { LISTS(solver,solvers,11,0x7ff,11,enum xrtm_solver_mask); LISTS(output,outputs,4,0xf,4,enum xrtm_output_mask); REACH(); }
#endif
#ifdef h_lists_lo
void HARNESS(void) { LISTS(option,options,32,0xfffu,12,enum xrtm_option_mask); REACH(); }
#endif
#ifdef h_lists_mid
void HARNESS(void) { LISTS(option,options,32,0x3ff800u,12,enum xrtm_option_mask); REACH(); }
#endif
#ifdef h_lists_hi
void HARNESS(void) { LISTS(option,options,32,0xffe00000u,12,enum xrtm_option_mask); REACH(); }
#endif
static int put(char *s, int n, const char *t) { for (int k=0;k<24&&t[k];k++) s[n++]=t[k]; return n; }
/* one or two names in any of the separators the interface takes */
#define NAMES(T,t,n) do { IN_I(i_##T); IN_I(s_##T); int i=i_##T; ASSUME(i>=0&&i<(n)); ASSUME(s_##T>=0&&s_##T<4); for (int k=0;k<(n);k++) for (int q=0;q<4;q++) if (i==k&&s_##T==q) { char s[64]; int j=(k+5)%(n); int l=put(s,0,t[k].name); unsigned e=t[k].v; \
    if (q) { l=put(s,l,q==1?",":q==2?" ":", \t"); l=put(s,l,t[j].name); e|=t[j].v; } s[l]=0; CHECK((unsigned)xrtm_##T##_name_list_to_mask(s)==e,#T ": a list of names makes up the mask"); } } while (0)
#ifdef h_name_lists
void HARNESS(void) { NAMES(option,options,32); NAMES(solver,solvers,11); NAMES(output,outputs,4); char z[8]="nonsens"; CHECK((int)xrtm_solver_name_list_to_mask(z)==-1,"an unknown name is refused"); REACH(); }
#endif
/* a mask written out: never beyond the buffer, and the names of its bits in order when they fit */
#define TEXT(T,t,n,MAX,TYPE) do { IN_I(m_##T); IN_I(l_##T); unsigned m=(unsigned)m_##T&((1u<<(n))-1); int len=l_##T; ASSUME(len>=1&&len<=(MAX)); char s[2*(MAX)], x[(MAX)+1]; for (int k=0;k<2*(MAX);k++) s[k]='#'; \
  for (int k=0;k<=(MAX);k++) x[k]=0; int l=0, first=1; for (int k=0;k<(n);k++) if ((m>>k)&1) { if (!first) x[l++]=','; first=0; l=put(x,l,t[k].name); } \
  char *r=xrtm_##T##_mask_to_name_list((TYPE)m,s,len); CHECK(r==s,#T ": returns the text"); int ok=1; for (int k=0;k<2*(MAX);k++) if (k>=len) ok=ok&&s[k]=='#'; CHECK(ok,#T ": nothing is written beyond the buffer"); \
  ok=1; for (int k=0;k<(MAX);k++) { if (k<len-1&&k<l) ok=ok&&s[k]==x[k]; if (k==(l<len-1?l:len-1)) ok=ok&&s[k]==0; } CHECK(ok,#T ": the names of the bits, cut off where the buffer ends"); } while (0)
#ifdef h_text /* unwind 100 */
void HARNESS(void) { TEXT(output,outputs,4,48,enum xrtm_output_mask); REACH(); }
#endif
