/* One life cycle behind an interface without index types; compiled once per library build (see builds.cpp). */
#include <stdlib.h>
#include <string.h>
#include "ecos.h"
#include "ecos_bb.h"
#include "wrap.h"
static double *o; static long k, cap;
static void put(double v) { if (k < cap) o[k] = v; k++; }
static void puts_(const pfloat *v, long n) { long i; for (i = 0; i < n; i++) put(v ? v[i] : -12345); }
static void puti(const idxint *v, long n) { long i; for (i = 0; i < n; i++) put(v ? (double)v[i] : -12345); }
static long ccs(const double *D, long r, long c, pfloat *pr, idxint *jc, idxint *ir) { long i, j, t = 0; jc[0] = 0; for (j = 0; j < c; j++) { for (i = 0; i < r; i++) if (D[i * c + j] != 0) { pr[t] = D[i * c + j]; ir[t++] = (idxint)i; } jc[j + 1] = (idxint)t; } return t; }
static void info(const stats *s) { put(s->pcost); put(s->dcost); put(s->pres); put(s->dres); put(s->pinf); put(s->dinf); put(s->pinfres); put(s->dinfres); put(s->gap); put(s->relgap); put(s->sigma); put(s->mu); put(s->step); put(s->step_aff); put(s->kapovert); put(s->iter); put(s->nitref1); put(s->nitref2); put(s->nitref3); }
static void result(pwork *w, long code) { put(code); puts_(w->x, w->n); puts_(w->y, w->p); puts_(w->z, w->m); puts_(w->s, w->m); put(w->tau); put(w->kap); put(w->best_tau); info(w->info); }
static void bresult(ecos_bb_pwork *w, long code) { long n = w->ecos_prob->n, i; put(code); puts_(w->x, n); put(w->global_L); put(w->global_U); put(w->iter); info(w->info); for (i = 0; i <= w->iter; i++) { put(w->nodes[i].status); put(w->nodes[i].L); put(w->nodes[i].U); put(w->nodes[i].split_idx); put(w->nodes[i].split_val); } }
#define NZ(x) ((x) > 0 ? (x) : 1)
long wrap_run(const struct vreq *q) {
  long n = q->n, m = q->m, p = q->p, i, gz, az; o = q->out; k = 0; cap = q->cap;
  pfloat *Gp = (pfloat *)malloc(8 * NZ(n * m)), *Ap = (pfloat *)malloc(8 * NZ(n * p)), *c = (pfloat *)malloc(8 * n), *h = (pfloat *)malloc(8 * NZ(m)), *b = (pfloat *)malloc(8 * NZ(p)), *G2 = (pfloat *)malloc(8 * NZ(n * m)), *A2 = (pfloat *)malloc(8 * NZ(n * p)), *c2 = (pfloat *)malloc(8 * n), *h2 = (pfloat *)malloc(8 * NZ(m)), *b2 = (pfloat *)malloc(8 * NZ(p));
  idxint *Gj = (idxint *)malloc(sizeof(idxint) * (n + 1)), *Gi = (idxint *)malloc(sizeof(idxint) * NZ(n * m)), *Aj = (idxint *)malloc(sizeof(idxint) * (n + 1)), *Ai = (idxint *)malloc(sizeof(idxint) * NZ(n * p)), *cq = (idxint *)malloc(sizeof(idxint) * NZ(q->ncones)), *bi = (idxint *)malloc(sizeof(idxint) * NZ(q->nb)), *ii = (idxint *)malloc(sizeof(idxint) * NZ(q->ni));
  gz = ccs(q->G, m, n, Gp, Gj, Gi); az = ccs(q->A, p, n, Ap, Aj, Ai); memcpy(c, q->c, 8 * n); memcpy(h, q->h, 8 * m); memcpy(b, q->b, 8 * p); for (i = 0; i < q->ncones; i++) cq[i] = (idxint)q->q[i]; for (i = 0; i < q->nb; i++) bi[i] = (idxint)q->bi[i]; for (i = 0; i < q->ni; i++) ii[i] = (idxint)q->ii[i];
  for (i = 0; i < gz; i++) G2[i] = Gp[i] * (i & 1 ? 1.5 : 0.75); memcpy(A2, Ap, 8 * az); for (i = 0; i < n; i++) c2[i] = c[i] * (1 + 0.25 * i); for (i = 0; i < m; i++) h2[i] = h[i] + 0.125; memcpy(b2, b, 8 * p);
  if (!q->mip) {
    pwork *w = ECOS_setup(n, m, p, q->l, q->ncones, q->ncones ? cq : NULL, q->nex, Gp, Gj, Gi, p ? Ap : NULL, p ? Aj : NULL, p ? Ai : NULL, c, h, p ? b : NULL);
    put(w != NULL);
    if (w) { w->stgs->verbose = (idxint)q->verbose; if (q->maxit) w->stgs->maxit = (idxint)q->maxit;
      result(w, ECOS_solve(w)); put(w->stgs->maxit); puti(w->KKT->P, w->KKT->PKPt->n); puti(w->KKT->L->jc, w->KKT->PKPt->n + 1);
      if (q->life) { result(w, ECOS_solve(w)); ECOS_updateData(w, G2, p ? A2 : NULL, c2, h2, p ? b2 : NULL); result(w, ECOS_solve(w)); ecos_updateDataEntry_c(w, 0, 0.5); if (m) ecos_updateDataEntry_h(w, m - 1, 0.25); result(w, ECOS_solve(w)); }
      ECOS_cleanup(w, 0); }
  } else {
    settings_bb *st = NULL; ecos_bb_pwork *w; if (q->strategy) { st = get_default_ECOS_BB_settings(); st->branching_strategy = (enum BRANCHING_STRATEGY)(q->strategy % 5); st->node_selection_method = (enum NODE_SELECTION_METHOD)(q->strategy / 5 % 3); if (q->maxit) st->maxit = (idxint)q->maxit; }
    w = ECOS_BB_setup(n, m, p, q->l, q->ncones, q->ncones ? cq : NULL, q->nex, Gp, Gj, Gi, p ? Ap : NULL, p ? Aj : NULL, p ? Ai : NULL, c, h, p ? b : NULL, q->nb, q->nb ? bi : NULL, q->ni, q->ni ? ii : NULL, st);
    put(w != NULL);
    if (w) { w->stgs->verbose = (idxint)q->verbose; bresult(w, ECOS_BB_solve(w)); if (q->life) { updateDataEntry_c(w, 0, -0.5); if (m) updateDataEntry_h(w, m - 1, 0.25); bresult(w, ECOS_BB_solve(w)); } ECOS_BB_cleanup(w, 0); }
    if (st) free(st);
  }
  puts_(Gp, gz); puts_(Ap, az); puts_(c, n); puts_(h, m); puts_(b, p); puts_(G2, gz); puts_(A2, az); puts_(c2, n); puts_(h2, m); puts_(b2, p); puti(Gj, n + 1); puti(Gi, gz); puti(Aj, n + 1); puti(Ai, az); puti(cq, q->ncones); puti(bi, q->nb); puti(ii, q->ni);
  free(Gp); free(Ap); free(c); free(h); free(b); free(G2); free(A2); free(c2); free(h2); free(b2); free(Gj); free(Gi); free(Aj); free(Ai); free(cq); free(bi); free(ii);
  return k;
}
long wrap_width(void) { return (long)sizeof(idxint); }
