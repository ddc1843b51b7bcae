/* several long rows at once: linear systems  v_i + t_i(w), i < k,  and m rows  c_1 v_1 + ... + c_k v_k + t(w);
   the reduced Groebner basis is the reduced row echelon form, computed densely by the reference */
#define RMAXV 64
#define RMAXT 64
#define RMAXP 40
#define GLEN 52
#define GEXP 120000
#define GCF 2000
#include "gbapi.h"
static rpoly out[RMAXP]; static int64_t M[40][64];
static int64_t st = 7; static int64_t nxt(int kind, int64_t p) { st = (st * 1103515245 + 12345) & 0x7fffffff; if (kind == 0) return p - 1; if (kind == 1) return 1 + st % (p - 1); return (st >> 8) & 1 ? p - 1 : 1 + (st >> 4) % (p > 4 ? 3 : p - 1); }
void harness(void) {
  int64_t p = sym_param("p", 101); R_p = p; R_ord = (int)sym_param("ord", 0); R_elim = 0; int k = (int)sym_param("k", 3), m = (int)sym_param("m", 3), L = (int)sym_param("len", 17), kind = (int)sym_param("kind", 1), gap = (int)sym_param("gap", 0);
  int nc = k + L, nr = k + m; R_nv = nc; static gsys g; memset(&g, 0, sizeof g); int e[RMAXV];
  int64_t A = sym_int("A", 1, p - 1), B = sym_int("B", 1, p - 1); int pa = (int)sym_param("pa", 5), ra = (int)sym_param("ra", k), pb = (int)sym_param("pb", 7), rb = (int)sym_param("rb", k + 1);
  for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) M[i][j] = i < k ? (j < k ? i == j : gap && (i + j) % gap == 0 ? 0 : nxt(kind, p)) : gap > 1 && j >= k && (i + 2 * j) % (gap + 1) == 0 ? 0 : nxt(j < k ? 1 : kind, p);
  M[ra][k + pa] = A; if (rb < nr) M[rb][k + pb] = B;
  for (int i = 0; i < nr; i++) { for (int j = 0; j < nc; j++) { memset(e, 0, sizeof e); e[j] = 1; int nz = !((i == ra && j == k + pa) || (i == rb && j == k + pb)) ? M[i][j] != 0 : 1; if (nz) g_term(&g, M[i][j], e); } g.ng++; }
  int32_t ld, *len, *ex; void *cf;
  export_f4(malloc, &ld, &len, &ex, &cf, g.lens, g.exps, g.cfs, (uint32_t)p, R_ord, 0, R_nv, g.ng, 8, 1, 0, 0, (int)sym_param("la", 2), 1, 0, 0);
  int n = out_to_poly(ld, len, ex, cf, out);
  int r = 0; static int piv[40]; for (int c = 0; c < nc && r < nr; c++) { int q; for (q = r; q < nr; q++) if (sym_branch(M[q][c] != 0)) break; if (q == nr) continue;
    if (q != r) for (int j = 0; j < nc; j++) { int64_t t = M[q][j]; M[q][j] = M[r][j]; M[r][j] = t; } int64_t iv = ref_inv(M[r][c], p); for (int j = c; j < nc; j++) M[r][j] = j == c ? 1 : r_mul(M[r][j], iv);
    for (int i = 0; i < nr; i++) if (i != r && sym_branch(M[i][c] != 0)) { int64_t f = M[i][c]; for (int j = c; j < nc; j++) { int64_t v = M[i][j] + p - r_mul(f, M[r][j]); M[i][j] = j == c ? 0 : v % p; } } piv[r++] = c; }
  sym_assert(n == r, "basis has as many elements as the rank");
  for (int i = 0; i < n; i++) { int c = 0; while (c < nc && !out[i].e[0][c]) c++; int q; for (q = 0; q < r; q++) if (piv[q] == c) break; sym_assert(q < r, "leading variables are the pivots of the echelon form");
    int t = 0; for (int j = c; j < nc; j++) if (sym_branch(M[q][j] != 0)) { sym_assert(t < out[i].n && out[i].e[t][j] == 1, "row has the support of the echelon form"); sym_assert(out[i].c[t] == M[q][j], "row has the coefficients of the echelon form"); t++; } sym_assert(t == out[i].n, "row has no further terms"); }
  sym_cover("done");
}
