/* P: every basis the library entry point returns is THE reduced Groebner basis of the input ideal */
#include "gbapi.h"
#include "syspoly.h"
static gsys in;
static void with_zeros(const gsys *s, int mask) { /* zero polynomials among the generators */
  static const int e0[RMAXV]; int t = 0; memset(&in, 0, sizeof in);
  for (int g = 0; g <= s->ng; g++) {
    for (int b = g; b < 16; b += s->ng + 1) if (mask >> b & 1) { g_term(&in, 0, e0); in.ng++; }
    if (g < s->ng) { for (int j = 0; j < s->lens[g]; j++, t++) g_term(&in, s->cfs[t], s->exps + t * R_nv); in.ng++; }
  }
}
static rpoly ref[RMAXP], out[RMAXP];
void harness(void) {
  int64_t p = sym_param("p", 101); int k = (int)sym_param("sys", 0);
  R_nv = SYSTEMS[k].nv; R_ord = (int)sym_param("ord", 0); R_elim = (int)sym_param("elim", 0); R_p = p;
  gsys s; parse_sys(&s, SYSTEMS[k].s);
  with_zeros(&s, (int)sym_param("zero", 0));
  int32_t bld = -1; int32_t *blen = NULL, *bexp = NULL; void *bcf = NULL;
  export_f4(malloc, &bld, &blen, &bexp, &bcf, in.lens, in.exps, in.cfs, (uint32_t)p, R_ord, R_elim, R_nv, in.ng, (int)sym_param("ht", 6), 1, (int)sym_param("mnsel", 0), (int)sym_param("reset", 0), (int)sym_param("la", 2), 1, 0, 0);
  int n = in_to_ref(&s, ref); n = r_groebner(ref, n);
  int m = out_to_poly(bld, blen, bexp, bcf, out);
  same_basis(out, m, ref, n);
  sym_cover("done");
}
