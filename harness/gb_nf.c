/* normal forms: export_nf returns, for each input polynomial, its unique remainder modulo the ideal */
#include "gbapi.h"
#include "syspoly.h"
static const struct { int nv; const char *g, *f; } NFS[] = {
/*0*/ {2, "x^2+A*y, x*y+1", "x^3*y+B*x^2+y, x^2-3*y, x"},
/*1*/ {3, "x+A*y+z, y^2+z, z^3-2", "x^2*y+B*z^2, y*z^3+x*z, 5"},
/*2*/ {2, "x^2-A, y^2-B", "x^3*y^3+x*y+1, x^2*y+x^2, y^4-y"},
/*3*/ {3, "x*y-A*z^2, y^2-x*z, x^2-y*z", "x*y*z+B*z^3, x^3-y^3, x*y^2*z"},
/*4*/ {3, "x^2+y+z-A, x+y^2+z-1, x+y+z^2-1", "x^4+B*y, x^2*y^2*z"},
/*5*/ {2, "x*y+A*x, y^2+B", "x^3+x, x*y^3, x^2+x*y+y^2"},
/*6*/ {1, "x^3+A*x+B", "x^5, x^4-x, x^2"},
/*7*/ {4, "x-A*y, z*w+y, w^2-B", "x*z*w+z^2*w^2, x+y+z+w, x*w^3"},
/*8*/ {2, "A*x^2+B*y, x*y", "x^5+y^5, x^2+y, A*x^2+B*y"},
/*9*/ {2, "x+A, x+B", "x*y+y^2, 1"},
/*10*/{3, "x*y+A*z, y^2-z", "-B*x*y+z, -x*y^2, x^2*y-7*x"},
};
static rpoly G[RMAXP], T[16], out[RMAXP];
void harness(void) {
  int64_t p = sym_param("p", 65537); int k = (int)sym_param("sys", 0);
  R_nv = NFS[k].nv; R_ord = (int)sym_param("ord", 0); R_elim = (int)sym_param("elim", 0); R_p = p;
  gsys b, t; parse_sys(&b, NFS[k].g); parse_sys(&t, NFS[k].f); int isgb = (int)sym_param("isgb", 0);
  int n = in_to_ref(&b, G), m = in_to_ref(&t, T); n = r_groebner(G, n);
  if (isgb) { memset(&b, 0, sizeof b); for (int i = 0; i < n; i++) { for (int j = 0; j < G[i].n; j++) g_term(&b, G[i].c[j], G[i].e[j]); b.ng++; } }
  int32_t ld = -1, *len = NULL, *ex = NULL; void *cf = NULL;
  export_nf(malloc, &ld, &len, &ex, &cf, t.ng, t.lens, t.exps, t.cfs, b.ng, b.lens, b.exps, b.cfs, (uint32_t)p, R_ord, R_elim, R_nv, isgb, 1, 0);
  sym_assert(ld == m, "one normal form per input polynomial");
  int q = out_to_poly(ld, len, ex, cf, out);
  for (int i = 0; i < q; i++) {
    r_reduce(&T[i], G, n, -1, NULL);
    if (out[i].n == 1 && sym_branch(out[i].c[0] == 0)) out[i].n = 0; /* the zero polynomial is written as the term 0 */
    sym_assert(out[i].n == T[i].n, "normal form has the support size of the remainder");
    for (int j = 0; j < T[i].n; j++) { sym_assert(!r_cmp(out[i].e[j], T[i].e[j]), "normal form has the monomials of the remainder in decreasing order"); sym_assert(out[i].c[j] == T[i].c[j], "normal form has the coefficients of the remainder"); }
  }
  sym_cover("done");
}
