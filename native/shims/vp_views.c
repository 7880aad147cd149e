/* one function per view macro of apop.h, so that the macro's own expansion is what is verified.
   Positions and lengths are passed as expressions: a macro must parenthesise them. */
#include "apop_internal.h"
void vp_rs(apop_data *d, int row, int len, apop_data **out){ *out = Apop_rs(d, -1+row+1, -1+len+1); }
void vp_r(apop_data *d, int row, apop_data **out){ *out = Apop_r(d, -1+row+1); }
void vp_cs(apop_data *d, int col, int len, apop_data **out){ *out = Apop_cs(d, -1+col+1, -1+len+1); }
void vp_c(apop_data *d, int col, apop_data **out){ *out = Apop_c(d, -1+col+1); }
void vp_rv(apop_data *d, int row, gsl_vector **out){ *out = Apop_rv(d, -1+row+1); }
void vp_cv(apop_data *d, int col, gsl_vector **out){ *out = Apop_cv(d, -1+col+1); }
void vp_mrv(gsl_matrix *m, int row, gsl_vector **out){ *out = Apop_mrv(m, -1+row+1); }
void vp_mcv(gsl_matrix *m, int col, gsl_vector **out){ *out = Apop_mcv(m, -1+col+1); }
void vp_subm(gsl_matrix *m, int srow, int scol, int nrows, int ncols, gsl_matrix **out){ *out = Apop_subm(m, -1+srow+1, -1+scol+1, -1+nrows+1, -1+ncols+1); }
