/* Chinese remaindering and rational reconstruction, all residues symbolic */
#define main msolve_main
#include "msolve/libmsolve.c"
#include "symx.h"
void harness(void) {
  int mode = (int)sym_param("mode", 0); mpz_t m1, m2, m12, r1, out, tmp, t; mpz_inits(m1, m2, m12, r1, out, tmp, t, NULL);
  int k = (int)sym_param("k", 1); int64_t p = sym_param("m2", 1073741827); static const uint64_t PR[] = {2147483647, 1073741789, 1073741783, 1518500213, 1879048201};
  mpz_set_ui(m1, 1); if (sym_param("m1", 0)) mpz_set_ui(m1, sym_param("m1", 0)); else for (int i = 0; i < k; i++) mpz_mul_ui(m1, m1, PR[i]);
  mpz_mul_ui(m12, m1, p);
  if (mode <= 2) { /* CRT; mode 2: in place, output overwrites the old residue */
    int sign = mode == 1; char hi[400], lo[400]; mpz_sub_ui(t, m1, 1); mpz_get_str(hi, 10, t); strcpy(lo, "0"); if (sign) { mpz_fdiv_q_2exp(t, m1, 1); mpz_get_str(hi, 10, t); mpz_neg(t, t); mpz_get_str(lo, 10, t); }
    sym_mpz(r1, "r1", lo, hi); uint64_t r2 = sym_int("r2", 0, p - 1); mpz_set(t, r1);
    if (mode == 2) { mpz_CRT_ui(r1, r1, m1, r2, p, m12, tmp, 0); mpz_set(out, r1); } else mpz_CRT_ui(out, r1, m1, r2, p, m12, tmp, sign);
    mpz_sub(tmp, out, t); mpz_fdiv_r(tmp, tmp, m1); sym_assert(mpz_sgn(tmp) == 0, "lifted value is congruent to the old residue");
    sym_assert(mpz_fdiv_ui(out, p) == r2, "lifted value is congruent to the new residue");
    if (!sign) { sym_assert(mpz_sgn(out) >= 0, "lifted value is non-negative"); sym_assert(mpz_cmp(out, m12) < 0, "lifted value is below the product of the moduli"); }
    else { mpz_mul_2exp(tmp, out, 1); sym_assert(mpz_cmpabs(tmp, m12) <= 0, "lifted value is the symmetric representative"); }
  } else if (mode <= 6) { /* 3 ratrecon sound, 4 complete, 5 ratreconwden sound, 6 complete */
    rrec_data_t rd; initialize_rrec_data(rd); mpz_set(t, m1); mpz_t u, n, d, g, w; mpz_inits(u, n, d, g, w, NULL); int64_t M = mpz_get_si(m1), Nn = sym_param("N", 7), Dd = sym_param("D", 7);
    mpz_set_si(rd->N, Nn); mpz_set_si(rd->D, Dd); int64_t gd = mode >= 5 ? sym_param("g", 6) : 1; mpz_set_si(g, gd);
    if (mode == 3 || mode == 5) { int64_t uv = sym_int("u", 0, M - 1); mpz_set_si(u, uv);
      int b = mode == 3 ? ratrecon(n, d, u, m1, rd) : ratreconwden(n, d, u, m1, g, rd);
      if (sym_branch(b != 0)) { mpz_abs(w, n); sym_assert(mpz_cmp(w, rd->N) <= 0, "numerator is within its bound"); sym_assert(mpz_sgn(d) > 0, "denominator is positive"); sym_assert(mpz_cmp(d, rd->D) <= 0, "denominator is within its bound");
        mpz_mul_si(w, d, 1); mpz_mul_si(u, u, gd); mpz_mul(w, w, u); mpz_sub(w, w, n); sym_assert(mpz_fdiv_ui(w, M) == 0, "fraction is congruent to the residue");
        mpz_gcd(w, n, d); sym_assert(mpz_cmp_ui(w, 1) == 0, "fraction is reduced"); sym_cover("found"); }
    } else { int64_t nv = sym_int("n", -Nn, Nn), dv = sym_int("d", 1, Dd), uv = sym_int("u", 0, M - 1), x = sym_int("x", 0, Nn), y = sym_int("y", -Nn, Nn), kk = sym_int("kk", -Dd * gd - 2, Dd * gd + 2);
      sym_assume(x * dv + y * nv == 1); sym_assume(dv * uv * gd == nv + kk * M); mpz_set_si(u, uv);
      int b = mode == 4 ? ratrecon(n, d, u, m1, rd) : ratreconwden(n, d, u, m1, g, rd);
      sym_assert(b != 0, "a fraction within the bounds is found"); mpz_sub_ui(w, n, 0); sym_assert(mpz_cmp_si(n, nv) == 0, "its numerator is returned"); sym_assert(mpz_cmp_si(d, dv) == 0, "its denominator is returned"); }
  }
  else { /* 7: vectors of residues over one denominator, 8: with a guessed denominator */
    enum { L = 3 }; rrec_data_t rd; initialize_rrec_data(rd); int64_t M = mpz_get_si(m1), g = sym_param("g", 1); mpz_set_si(rd->N, sym_param("N", 7)); mpz_set_si(rd->D, sym_param("D", 7));
    mpz_t rec[L], den, pol[L], rn, rdn, tn[L], td[L], lcm, gn, gd; mpz_inits(den, rn, rdn, lcm, gn, gd, NULL); int64_t u[L]; char nm[3] = "u0";
    int len = (int)sym_param("len", 2); for (int i = 0; i < len; i++) { mpz_inits(rec[i], pol[i], tn[i], td[i], NULL); nm[1] = '0' + i; u[i] = sym_int(nm, 0, M - 1); mpz_set_si(pol[i], u[i]); }
    deg_t mr = (deg_t)sym_param("mr", 0); mpz_set_si(gd, g);
    int b = mode == 7 ? rational_reconstruction_mpz_ptr(rec, den, pol, len, m1, &mr, NULL, rn, rdn, tn, td, lcm, gn, gd, rd, 0) : rational_reconstruction_mpz_ptr_with_denom(rec, den, pol, len, m1, &mr, NULL, rn, rdn, tn, td, lcm, gn, gd, rd, 0);
    if (sym_branch(b != 0)) { sym_assert(mpz_sgn(den) > 0, "common denominator is positive"); for (int i = 0; i < len; i++) { mpz_mul_si(tmp, den, u[i]); mpz_mul_si(tmp, tmp, g); mpz_sub(tmp, tmp, rec[i]); sym_assert(mpz_fdiv_ui(tmp, M) == 0, "every coefficient over the common denominator is congruent to its residue"); } sym_cover("found"); }
  }
  sym_cover("done");
}
