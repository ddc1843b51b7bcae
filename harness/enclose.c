/* enclosures: interval evaluation of polynomials, coordinates of real solutions */
#define main msolve_main
#include "msolve/libmsolve.c"
#include "symx.h"
static mpz_t P[8], Q[8], D[8], W[8];
static void horner(mpz_t v, mpz_t *f, int d, const mpz_t n, const mpz_t e) { mpz_t t, pw; mpz_inits(t, pw, NULL); mpz_set_ui(v, 0); mpz_set_ui(pw, 1); /* e^d f(n/e) */
  for (int i = d; i >= 0; i--) { mpz_mul(v, v, n); mpz_mul(t, f[i], pw); mpz_add(v, v, t); mpz_mul(pw, pw, e); } }
static int64_t symdiv(int64_t a, int64_t b) { int64_t q = a / b; return q * b > a ? q - 1 : q; }
void harness(void) {
  int mode = (int)sym_param("mode", 0), deg = (int)sym_param("deg", 2), m = (int)sym_param("m", 1); long k = (long)sym_param("k", 2); int64_t R = sym_param("R", 4), lo = sym_param("lo", -5), hi = sym_param("hi", 5), w = sym_param("w", 1); char nm[3] = "c0";
  mpz_t a, b, x, e, f, vd, vu, tmp, t; mpz_inits(a, b, x, e, f, vd, vu, tmp, t, NULL); for (int i = 0; i < 8; i++) mpz_inits(P[i], Q[i], D[i], W[i], NULL);
  if (mode <= 2) {
    for (int i = 0; i <= deg; i++) { nm[1] = '0' + i; mpz_set_si(P[i], sym_int(nm, -R, R)); }
    int64_t av = sym_int("a", lo, hi), tv = sym_int("t", 0, w << m); sym_assume(av >= 0 || av + w <= 0); mpz_set_si(a, av); mpz_set_si(b, av + w);
    mpz_set_si(x, (av << m) + tv); mpz_set_ui(e, 1); mpz_mul_2exp(e, e, k + m); horner(f, P, deg, x, e); /* 2^((k+m) deg) P(x) */
    long sc; /* the result is [vd, vu] / 2^sc */
    if (mode == 0) { mpz_poly_eval_interval(P, deg, k, a, b, tmp, vd, vu); sc = k * deg; }
    else { interval r; memset(&r, 0, sizeof r); mpz_init(r.numer); mpz_set(r.numer, a); r.k = k; long corr = (long)sym_param("corr", 6); sym_assume(w == 1);
      generate_table_values_full(&r, t, deg + 1, 16, corr, Q, D); mpz_scalar_product_interval(P, deg, k, Q, D, tmp, vd, vu, corr); sc = corr; }
    mpz_mul_2exp(f, f, sc); mpz_mul_2exp(vd, vd, (k + m) * deg); mpz_mul_2exp(vu, vu, (k + m) * deg);
    sym_assert(mpz_cmp(vd, f) <= 0, "lower bound is below the value at every point of the interval"); sym_assert(mpz_cmp(f, vu) <= 0, "upper bound is above the value at every point of the interval");
  } else { /* a rational parametrization: roots of elim with known rational roots n_i/d_i */
    int n = (int)sym_param("n", 2); int64_t rt[4], dn[4], den = sym_param("den", 3), lc = sym_param("lc", 1); mpz_param_t par; mpz_param_init(par); par->nvars = 2; par->nsols = n; par->dim = 0; par->dquot = n;
    mpz_upoly_init2(par->elim, n + 1, 64); mpz_upoly_init2(par->denom, n, 64); par->elim->length = n + 1; par->coords = malloc(sizeof(mpz_upoly_t)); int cl = (int)sym_param("cl", n); mpz_upoly_init2(par->coords[0], cl, 64); par->coords[0]->length = cl; par->cfs = malloc(sizeof(mpz_t)); mpz_init(par->cfs[0]); mpz_set_si(par->cfs[0], sym_param("cf", 3));
    mpz_t *E = par->elim->coeffs; mpz_set_si(E[0], lc); for (int i = 1; i <= n; i++) mpz_set_ui(E[i], 0); nm[0] = 'r';
    for (int i = 0; i < n; i++) { nm[1] = '0' + i; dn[i] = i & 1 ? sym_param("den2", 1) : den; rt[i] = i && sym_param("f1", 0) ? sym_param("f1", 0) : sym_int(nm, lo, hi); if (i) sym_assume(rt[i - 1] * dn[i] < rt[i] * dn[i - 1]); for (int j = n; j >= 0; j--) { mpz_mul_si(tmp, E[j], rt[i]); if (j) mpz_mul_si(t, E[j - 1], dn[i]); else mpz_set_ui(t, 0); mpz_sub(E[j], t, tmp); } }
    par->denom->length = n; for (int i = 0; i < n; i++) mpz_mul_si(par->denom->coeffs[i], E[i + 1], i + 1); nm[0] = 'c'; for (int i = 0; i < cl; i++) { nm[1] = '0' + i; int64_t x1 = i ? sym_param("x1", 0) : 0; mpz_set_si(par->coords[0]->coeffs[i], x1 ? x1 : sym_int(nm, -R, R)); }
    for (int i = 0; i <= n; i++) mpz_set(W[i], E[i]);
    long nb = 77; interval *rts = NULL; real_point_t *pts;
    if (mode == 4) { /* the extraction alone, from isolating intervals of width 2^-k */
      nb = n; rts = calloc(n, sizeof *rts); pts = malloc(n * sizeof(real_point_t)); int64_t fl[4];
      for (int i = 0; i < n; i++) { fl[i] = symdiv(rt[i] << k, dn[i]); int ex = sym_branch(fl[i] * dn[i] == rt[i] << k); if (i) sym_assume(fl[i - 1] < fl[i]); mpz_init(rts[i].numer); mpz_set_si(rts[i].numer, fl[i]); rts[i].k = k; rts[i].isexact = ex; rts[i].sign_left = ex ? 0 : (n - i) & 1 ? -(lc > 0 ? 1 : -1) : lc > 0 ? 1 : -1; real_point_init(pts[i], 2); }
      extract_real_roots_param(par, rts, n, pts, (long)sym_param("prec", 16), 64, 1e9, 0);
    } else pts = isolate_real_roots_param(par, &nb, &rts, (int)sym_param("prec", 16), 1, 0);
    sym_assert(nb == n, "one point per real root");
    for (int i = 0; i < n; i++) { mpz_set_si(x, rt[i]); mpz_set_si(e, dn[i]); horner(f, par->coords[0]->coeffs, cl - 1, x, e); mpz_neg(f, f); for (int j = cl; j < n; j++) mpz_mul_si(f, f, dn[i]); /* coordinate = f / g */
      for (int j = 0; j < n; j++) mpz_mul_si(D[j], W[j + 1], j + 1); horner(t, D, n - 1, x, e); mpz_mul(t, t, par->cfs[0]); if (sym_branch(mpz_sgn(t) < 0)) { mpz_neg(t, t); mpz_neg(f, f); }
      coord_t *c = pts[i]->coords; mpz_mul_2exp(vd, f, c[0]->k_do); mpz_mul(vu, c[0]->val_do, t); sym_assert(mpz_cmp(vu, vd) <= 0, "first coordinate is above the lower end"); mpz_mul_2exp(vd, f, c[0]->k_up); mpz_mul(vu, c[0]->val_up, t); sym_assert(mpz_cmp(vd, vu) <= 0, "first coordinate is below the upper end");
      mpz_mul_2exp(vd, x, c[1]->k_do); mpz_mul(vu, c[1]->val_do, e); sym_assert(mpz_cmp(vu, vd) <= 0, "last coordinate is above the lower end"); mpz_mul_2exp(vd, x, c[1]->k_up); mpz_mul(vu, c[1]->val_up, e); sym_assert(mpz_cmp(vd, vu) <= 0, "last coordinate is below the upper end"); }
  }
  sym_cover("done");
}
