/* P: F4 over Q modulo primes: what the learning phase returns is the reduced Groebner basis modulo the first prime, and what
   replaying its trace modulo another prime returns, when it reports no error, is the reduced basis modulo that prime. */
#include "gbapi.h"
#include "syspoly.h"
static rpoly ref[RMAXP], lref[RMAXP], out[RMAXP];
static int read_basis(const bs_t *bs, int64_t p, rpoly *g) {
  const ht_t *ht = bs->ht; int n = 0;
  for (int i = 0; i < (int)bs->lml; i++, n++) {
    const hm_t *hm = bs->hm[bs->lmps[i]]; int len = (int)hm[LENGTH]; if (n >= RMAXP || len > RMAXT) abort(); g[n].n = len;
    for (int j = 0; j < len; j++) {
      const exp_t *ev = ht->ev[hm[OFFSET + j]]; memset(g[n].e[j], 0, sizeof g[n].e[j]);
      for (int v = 0; v < R_nv; v++) g[n].e[j][v] = v < R_elim ? ev[v + 1] : ev[v + 1 + (R_elim > 0)];
      int64_t c; if (p < 256) c = bs->cf_8[hm[COEFFS]][j]; else if (p < 65536) c = bs->cf_16[hm[COEFFS]][j]; else c = bs->cf_32[hm[COEFFS]][j];
      g[n].c[j] = c;
    }
  }
  return n;
}
static int same_exp(const exp_t *ev, const int *e) { for (int v = 0; v < R_nv; v++) if (e[v] != (v < R_elim ? ev[v + 1] : ev[v + 1 + (R_elim > 0)])) return 0; return 1; }
static int same_lead(rpoly *a, int na, rpoly *b, int nb) {
  if (na != nb) return 0;
  for (int i = 0; i < na; i++) { int k; for (k = 0; k < nb; k++) if (!r_cmp(a[i].e[0], b[k].e[0])) break; if (k == nb) return 0; }
  return 1;
}
void harness(void) {
  int64_t p1 = sym_param("p1", 1073741827), p2 = sym_param("p", 101); int k = (int)sym_param("sys", 0), mode = (int)sym_param("mode", 0);
  int64_t a0 = sym_param("a0", 7), b0 = sym_param("b0", 11), wide = sym_param("wide", 0);
  R_nv = SYSTEMS[k].nv; R_ord = (int)sym_param("ord", 0); R_elim = (int)sym_param("elim", 0);
  if (mode == 0) { SYMC['A' - 'A'] = a0; SYMC['B' - 'A'] = b0; SYMD[0] = SYMD[1] = 1; }
  R_p = mode == 0 ? p1 : p2;
  static gsys s, s2; parse_sys(&s, SYSTEMS[k].s);
  int nt = s.nt; static mpz_t num[GCF], den[GCF]; static mpz_t *cf[2 * GCF];
  for (int i = 0; i < nt; i++) { mpz_init(num[i]); mpz_set_si(num[i], s.cfs[i]); mpz_init(den[i]); mpz_set_ui(den[i], 1); cf[2 * i] = &num[i]; cf[2 * i + 1] = &den[i]; }
  bs_t *bsq = NULL; ht_t *bht = NULL; md_t *st = allocate_meta_data();
  int ok = initialize_gba_input_data(&bsq, &bht, &st, s.lens, s.exps, (void *)cf, 0, R_ord, R_elim, R_nv, s.ng, 0, (int)sym_param("ht", 8), 1, (int)sym_param("mnsel", 0), (int)sym_param("reset", 0), (int)sym_param("la", 2), 0, 1, 0, 0, 0);
  sym_assert(ok == 1, "the generators are accepted");
  int pad = (int)sym_param("pad", 0); /* further monomials already in the table, as many as the solver likes */
  if (pad) { int64_t w = sym_int("pad", 0, pad); exp_t ev[16]; for (int i = 0; i < pad && sym_branch(i < w); i++) { memset(ev, 0, sizeof ev); ev[bht->evl - 1] = (exp_t)(300 + i); ev[R_elim ? bht->ebl : 0] = (exp_t)(300 + i); while (bht->esz - bht->eld < 2) enlarge_hash_table(bht); insert_in_hash_table(ev, bht); } }
  int32_t err = 0; st->f4_qq_round = 1; int64_t pl = mode == 0 ? p1 : p2;
  bs_t *b1 = core_gba(bsq, st, &err, (len_t)pl);
  sym_assert(err == 0 && b1 != NULL, "the learning phase succeeds");
  int n = in_to_ref(&s, lref); n = r_groebner(lref, n);
  int m = read_basis(b1, pl, out); same_basis(out, m, lref, n); sym_cover("learned");
  if (mode) return;
  /* the same supports with other coefficients, modulo another prime */
  SYMD[0] = SYMD[1] = 0; R_p = p2; parse_sys(&s2, SYSTEMS[k].s);
  static char used[GLEN];
  for (int i = 0; i < (int)bsq->ld; i++) {
    hm_t *hm = bsq->hm[i]; mpz_t *row = bsq->cf_qq[hm[COEFFS]]; int len = (int)hm[LENGTH], t0 = 0, hit = -1; static int at[RMAXT];
    for (int g = 0; g < s2.ng && hit < 0; t0 += s2.lens[g], g++) { /* the input generator this row is a multiple of */
      if (used[g] || len != s2.lens[g]) continue; int all = 1;
      for (int j = 0; j < len && all; j++) { at[j] = -1; for (int u = 0; u < len; u++) if (same_exp(bsq->ht->ev[hm[OFFSET + j]], s2.exps + (t0 + u) * R_nv)) at[j] = t0 + u; if (at[j] < 0) all = 0; }
      for (int j = 1; j < len && all; j++) { mpz_t l, r; mpz_init(l); mpz_init(r); mpz_mul_si(l, row[j], s.cfs[at[0]]); mpz_mul_si(r, row[0], s.cfs[at[j]]); if (mpz_cmp(l, r)) all = 0; mpz_clear(l); mpz_clear(r); }
      if (all) hit = g; }
    if (hit < 0) abort(); used[hit] = 1;
    for (int j = 0; j < len; j++) { mpz_set_si(row[j], s2.cfs[at[j]]); if (wide) { mpz_t w; mpz_init(w); mpz_set_si(w, p2); mpz_mul_si(w, w, wide); mpz_add(row[j], row[j], w); mpz_clear(w); } }
  }
  st->f4_qq_round = 2; err = 0;
  bs_t *b2 = core_gba(bsq, st, &err, (len_t)p2);
  int same = s.nt == s2.nt && p1 == p2; for (int i = 0; i < s.nt; i++) same = same && sym_branch(s.cfs[i] == s2.cfs[i]);
  if (err != 0) { sym_assert(!same, "replaying the trace on the system it was learned from succeeds"); sym_cover("refused"); return; }
  int n2 = in_to_ref(&s2, ref); n2 = r_groebner(ref, n2); int m2 = read_basis(b2, p2, out);
  /* msolve drops the prime when the leading monomials differ from the learned ones */
  if (!same_lead(out, m2, lref, n)) { sym_assert(!same, "replaying the trace on the same system gives the learned leading monomials"); sym_cover("other staircase"); return; }
  if (!same_lead(ref, n2, lref, n)) { sym_cover("undetected unlucky prime"); return; }
  same_basis(out, m2, ref, n2); sym_cover("compared");
}
