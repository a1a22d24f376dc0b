/* One entry point into a build of the library with some other configuration (index type, profiling, ...). */
#include <stdlib.h>
#include <string.h>
#include "ecos.h"
#include "ecos_bb.h"
#undef MAX
#undef MIN
static idxint *cvt(const long *v, long n) { long i; idxint *r = v ? (idxint *)malloc((n + 1) * sizeof(idxint)) : 0; if (r) for (i = 0; i < n; i++) r[i] = (idxint)v[i]; return r; }
/* num: feastol abstol reltol feastol_inacc abstol_inacc reltol_inacc; cnt: nitref maxit verbose
   h2/b2/c2 (may be null): a second solve on the same workspace after ECOS_updateData with the pr arrays given */
__attribute__((visibility("default"))) long shim_solve(long n, long m, long p, long l, long nq, const long *q, long nex, double *Gpr, const long *Gjc, const long *Gir, double *Apr, const long *Ajc, const long *Air, double *c, double *h, double *b,
    const double *num, const long *cnt, double *G2, double *A2, double *c2, double *h2, double *b2, double *x, double *y, double *s, double *z, double *info) {
  long code = -99; pwork *w; idxint *qq = cvt(q, nq), *gj = cvt(Gjc, n + 1), *gi = cvt(Gir, Gjc[n]), *aj = cvt(Ajc, n + 1), *ai = Ajc ? cvt(Air, Ajc[n]) : 0;
  w = ECOS_setup(n, m, p, l, nq, qq, nex, Gpr, gj, gi, Apr, aj, ai, c, h, b);
  if (w) { int r; for (r = 0; r < (c2 ? 2 : 1); r++) { if (r) ECOS_updateData(w, G2, A2, c2, h2, b2);
      w->stgs->feastol = num[0]; w->stgs->abstol = num[1]; w->stgs->reltol = num[2]; w->stgs->feastol_inacc = num[3]; w->stgs->abstol_inacc = num[4]; w->stgs->reltol_inacc = num[5]; w->stgs->nitref = cnt[0]; w->stgs->maxit = cnt[1]; w->stgs->verbose = cnt[2];
      code = ECOS_solve(w); }
    memcpy(x, w->x, n * sizeof(double)); if (p) memcpy(y, w->y, p * sizeof(double)); memcpy(s, w->s, m * sizeof(double)); memcpy(z, w->z, m * sizeof(double));
    info[0] = w->info->pcost; info[1] = w->info->dcost; info[2] = w->info->pres; info[3] = w->info->dres; info[4] = w->info->gap; info[5] = w->info->relgap; info[6] = w->info->iter; info[7] = w->info->pinfres; info[8] = w->info->dinfres; ECOS_cleanup(w, 0); }
  free(qq); free(gj); free(gi); free(aj); free(ai); return code;
}
__attribute__((visibility("default"))) long shim_bb(long n, long m, long p, long l, long nq, const long *q, long nex, double *Gpr, const long *Gjc, const long *Gir, double *Apr, const long *Ajc, const long *Air, double *c, double *h, double *b,
    long nb, const long *bi, long ni, const long *ii, const long *cnt, double *x, double *info) {
  long code = -99; ecos_bb_pwork *w; idxint *qq = cvt(q, nq), *gj = cvt(Gjc, n + 1), *gi = cvt(Gir, Gjc[n]), *aj = cvt(Ajc, n + 1), *ai = Ajc ? cvt(Air, Ajc[n]) : 0, *bb = cvt(bi, nb), *iv = cvt(ii, ni);
  srand(1); w = ECOS_BB_setup(n, m, p, l, nq, qq, nex, Gpr, gj, gi, Apr, aj, ai, c, h, b, nb, bb, ni, iv, 0);
  if (w) { w->stgs->maxit = cnt[0]; w->stgs->branching_strategy = (enum BRANCHING_STRATEGY)cnt[1]; w->stgs->node_selection_method = (enum NODE_SELECTION_METHOD)cnt[2]; w->stgs->reliable_eta = cnt[3]; w->stgs->verbose = 0; code = ECOS_BB_solve(w); memcpy(x, w->x, n * sizeof(double)); info[0] = w->info->pcost; info[1] = w->iter; info[2] = w->global_U; info[3] = w->global_L; ECOS_BB_cleanup(w, 0); }
  free(qq); free(gj); free(gi); free(aj); free(ai); free(bb); free(iv); return code;
}
