/* run the library entry point on a raw system and compare with the reference */
#include "neogb/gb.c"
#include "refgb.h"
#ifndef GLEN
#define GLEN 16
#endif
#ifndef GEXP
#define GEXP 1024
#define GCF 200
#endif
typedef struct { int ng; int32_t lens[GLEN]; int32_t exps[GEXP]; int32_t cfs[GCF]; int nt; } gsys;
static void g_term(gsys *s, int64_t c, const int *e) { memcpy(s->exps + s->nt * R_nv, e, R_nv * sizeof(int)); for (int v = 0; v < R_nv; v++) s->exps[s->nt * R_nv + v] = e[v]; s->cfs[s->nt] = (int32_t)c; s->nt++; s->lens[s->ng]++; }
static int in_to_ref(const gsys *s, rpoly *g) { int t = 0; for (int i = 0; i < s->ng; i++) { g[i].n = s->lens[i]; for (int j = 0; j < s->lens[i]; j++, t++) { memset(g[i].e[j], 0, sizeof g[i].e[j]); for (int v = 0; v < R_nv; v++) g[i].e[j][v] = s->exps[t * R_nv + v]; int64_t c = s->cfs[t]; g[i].c[j] = ((c % R_p) + R_p) % R_p; } r_normalise(&g[i]); } return s->ng; }
static int out_to_poly(int32_t bld, const int32_t *blen, const int32_t *bexp, const int32_t *bcf, rpoly *g) { int t = 0; for (int i = 0; i < bld; i++) { if (blen[i] > RMAXT) abort(); g[i].n = blen[i]; for (int j = 0; j < blen[i]; j++, t++) { memset(g[i].e[j], 0, sizeof g[i].e[j]); for (int v = 0; v < R_nv; v++) g[i].e[j][v] = bexp[t * R_nv + v]; g[i].c[j] = bcf[t]; } } return bld; }
static void same_basis(rpoly *a, int na, rpoly *r, int nr) {
  sym_assert(na == nr, "basis has the size of the reduced Groebner basis of the input ideal");
  for (int i = 0; i < na; i++) {
    sym_assert(a[i].n > 0, "basis element is nonzero"); int k; for (k = 0; k < nr; k++) if (!r_cmp(a[i].e[0], r[k].e[0])) break;
    sym_assert(k < nr, "leading monomial belongs to the reduced basis"); sym_assert(a[i].n == r[k].n, "support size matches the reduced basis");
    int ok = 1; for (int j = 0; j < a[i].n; j++) { ok &= !r_cmp(a[i].e[j], r[k].e[j]); } sym_assert(ok, "support matches the reduced basis, terms in decreasing order");
    for (int j = 0; j < a[i].n; j++) sym_assert(a[i].c[j] == r[k].c[j], "coefficient equals that of the reduced basis");
    for (int q = 0; q < i; q++) sym_assert(r_cmp(a[i].e[0], a[q].e[0]) != 0, "leading monomials are pairwise distinct");
  }
}
