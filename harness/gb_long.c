/* long sparse rows (vectorised loops, their remainders, many reducers): lexicographical systems
   v_i + t_i(y), i < k, and polynomials c_1 v_1 + ... + c_k v_k + t(y); coefficients extreme or pseudo-random,
   two symbolic ones at chosen positions.  mode 0: normal form, mode 1: Groebner basis of the whole set */
#define RMAXV 48
#define RMAXT 90
#define RMAXP 52
#define GLEN 52
#define GEXP 60000
#define GCF 1600
#include "gbapi.h"
static rpoly ref[RMAXP], T[4], out[RMAXP];
static int64_t st = 7; static int64_t nxt(int kind, int64_t p) { st = (st * 1103515245 + 12345) & 0x7fffffff; if (kind == 0 || kind == 3) return p - 1; if (kind == 1) return 1 + st % (p - 1); return (st >> 8) & 1 ? p - 1 : 1 + (st >> 4) % (p > 4 ? 3 : p - 1); }
void harness(void) {
  int64_t p = sym_param("p", 101); R_p = p; R_ord = 1; R_elim = 0; int k = (int)sym_param("k", 3), L = (int)sym_param("len", 41), kind = (int)sym_param("kind", 0), mode = (int)sym_param("mode", 0), gap = (int)sym_param("gap", 1);
  R_nv = k + 1; gsys g, f; memset(&g, 0, sizeof g); memset(&f, 0, sizeof f); int e[RMAXV];
  int64_t A = sym_int("A", 1, p - 1), B = sym_int("B", 1, p - 1); int pa = (int)sym_param("pa", 5), pb = (int)sym_param("pb", 17), ra = (int)sym_param("ra", 0), rb = (int)sym_param("rb", 9999);
  for (int i = 0; i < k; i++) { memset(e, 0, sizeof e); e[i] = 1; g_term(&g, 1, e); e[i] = 0; for (int j = L - 1; j >= 0; j -= 1 + (gap > 1 ? (i + j) % gap : 0)) { e[k] = j; int64_t c = nxt(kind, p); if (i == ra && j == pa) c = A; if (i == rb && j == pb) c = B; g_term(&g, c, e); } g.ng++; }
  gsys *q = mode ? &g : &f;
  memset(e, 0, sizeof e); for (int i = 0; i < k; i++) { e[i] = 1; g_term(q, rb == 9999 && i == k - 1 ? B : kind == 3 ? 1 : nxt(kind, p), e); e[i] = 0; } for (int j = L - 1; j >= 0; j--) { e[k] = j; g_term(q, nxt(kind, p), e); } q->ng++;
  if (mode == 0) {
    int n = in_to_ref(&g, ref), m = in_to_ref(&f, T); int32_t ld, *len, *ex; void *cf;
    export_nf(malloc, &ld, &len, &ex, &cf, f.ng, f.lens, f.exps, f.cfs, g.ng, g.lens, g.exps, g.cfs, (uint32_t)p, R_ord, R_elim, R_nv, 1, 1, 0);
    sym_assert(ld == 1, "one normal form"); out_to_poly(ld, len, ex, cf, out); for (int i = 0; i < n; i++) r_monic(&ref[i]); r_reduce(&T[0], ref, n, -1, NULL);
    if (out[0].n == 1 && sym_branch(out[0].c[0] == 0)) out[0].n = 0;
    sym_assert(out[0].n == T[0].n, "normal form has the support size of the remainder");
    for (int j = 0; j < T[0].n; j++) { sym_assert(!r_cmp(out[0].e[j], T[0].e[j]), "normal form has the monomials of the remainder"); sym_assert(out[0].c[j] == T[0].c[j], "normal form has the coefficients of the remainder"); }
  } else {
    int n = in_to_ref(&g, ref); int32_t ld, *len, *ex; void *cf;
    export_f4(malloc, &ld, &len, &ex, &cf, g.lens, g.exps, g.cfs, (uint32_t)p, R_ord, R_elim, R_nv, g.ng, 8, 1, 0, 0, (int)sym_param("la", 2), 1, 0, 0);
    n = r_groebner(ref, n); int m = out_to_poly(ld, len, ex, cf, out); same_basis(out, m, ref, n);
  }
  sym_cover("done");
}
