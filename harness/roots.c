/* real root isolation and refinement of univariate integer polynomials (usolve) */
#include "usolve/usolve.c"
#include "symx.h"
enum { MX = 1400 }; static mpz_t P[MX], Q[MX]; static int deg;
static void mulin(int64_t b, int64_t a) { mpz_t t, u; mpz_inits(t, u, NULL); /* P *= b x - a */
  mpz_set_ui(P[deg + 1], 0); for (int i = deg + 1; i >= 0; i--) { if (i) mpz_mul_si(t, P[i - 1], b); else mpz_set_ui(t, 0); mpz_mul_si(u, P[i], a); mpz_sub(P[i], t, u); } deg++; }
static void horner(mpz_t v, mpz_t *f, int d, const mpz_t c, long k) { mpz_t t; mpz_init(t); mpz_set_ui(v, 0); /* 2^(k d) f(c/2^k) */
  for (int i = d; i >= 0; i--) { mpz_mul(v, v, c); mpz_mul_2exp(t, f[i], k * (d - i)); mpz_add(v, v, t); } }
static void ends(interval *r, mpz_t lo, mpz_t hi, long *k) { mpz_set(lo, r->numer); mpz_set(hi, lo); *k = r->k; if (*k < 0) { mpz_t o; mpz_init(o); mpz_set_ui(o, 1); if (!r->isexact) { mpz_mul_2exp(o, o, -*k); mpz_add(hi, lo, o); } *k = 0; } else if (!r->isexact) mpz_add_ui(hi, hi, 1); }
static int sgnside(mpz_t c, long k, int side) { static mpz_t d[MX]; mpz_t v; mpz_init(v); horner(v, P, deg, c, k); int s = mpz_sgn(v); if (sym_branch(s != 0)) return s; /* a root: use the derivative */
  for (int i = 0; i < deg; i++) { mpz_init(d[i]); mpz_mul_si(d[i], P[i + 1], i + 1); } horner(v, d, deg - 1, c, k); s = mpz_sgn(v); return side * s; }
void harness(void) {
  int form = (int)sym_param("form", 0), n = (int)sym_param("n", 2), prec = (int)sym_param("prec", -1); int64_t lo = sym_param("lo", -8), hi = sym_param("hi", 8), base = sym_param("base", 0), den = sym_param("den", 1), sp = sym_param("sp", 0), lc = sym_param("lc", 1);
  for (int i = 0; i <= (form >= 3 ? n + 1 : 15); i++) mpz_inits(P[i], Q[i], NULL);
  int64_t rt[8], dn[8]; int nr = 0; char nm[3] = "r0";
  mpz_set_si(P[0], lc); deg = 0;
  if (form == 4) { /* P(x) -> P(x+1) for large degrees: the coefficient of x^j is the sum of binomial(i,j) c_i */
    usolve_flags *fl = malloc(sizeof *fl); initialize_flags(fl); initialize_heap_flags(fl, n); mpz_t e, bin; mpz_inits(e, bin, NULL);
    for (int i = 0; i <= n; i++) mpz_set_si(P[i], (int64_t)(i * 2654435761u % 4001) - 2000);
    int at[5] = {0, (int)sym_param("at", n / 2), n - 1, n, (int)sym_param("at2", n / 3)}; for (int i = 0; i < (int)sym_param("ns", 5); i++) { nm[1] = '0' + i; int64_t v = sym_int(nm, lo, hi); mpz_set_si(P[at[i]], v); }
    int bin_ = (int)sym_param("bin", 0); if (bin_) for (int i = 0; i <= n; i++) mpz_mul_2exp(P[i], P[i], bin_ == 1 ? i % 7 : bin_ == 2 ? 1 + 8 * i / n : 3 * (i > n / bin_));
    for (int i = 0; i <= n; i++) mpz_set(Q[i], P[i]);
    taylorshift1_dac(Q, n, fl->tmpol, fl->shift_pwx, fl->pwx, 1);
    for (int j = 0; j <= n; j++) { mpz_set_ui(e, 0); mpz_set_ui(bin, 1); for (int i = j; i <= n; i++) { mpz_addmul(e, bin, P[i]); mpz_mul_ui(bin, bin, i + 1); mpz_divexact_ui(bin, bin, i + 1 - j); } sym_assert(mpz_cmp(e, Q[j]) == 0, "translated polynomial has the coefficients of P(x+1)"); if (j > 8 && j < n - 8) j += 12; }
    sym_cover("done"); return; }
  if (form == 3) { deg = n; int64_t c = sym_int("c", lo, hi); mpz_set_si(P[0], -c); mpz_set_si(P[n], lc); if (base) mpz_set_si(P[base], sp); nr = n & 1 ? 1 : 2; form = 5; } else
  if (form == 0 || form == 2) { /* product of n linear factors with symbolic roots base*i + s_i over den, times x^2+sp if sp */
    for (int i = 0; i < n; i++) { nm[1] = '0' + i; dn[i] = i & 1 ? 1 : den; rt[i] = sym_int(nm, lo, hi) + base * i; if (i) sym_assume(rt[i - 1] * dn[i] < rt[i] * dn[i - 1]); mulin(dn[i], rt[i]); }
    nr = n; if (sp) { mpz_set_ui(P[deg + 1], 0); mpz_set_ui(P[deg + 2], 0); mpz_t t; mpz_init(t); for (int i = deg + 2; i >= 0; i--) { mpz_mul_si(P[i], P[i], sp); if (i >= 2) mpz_add(P[i], P[i], P[i - 2]); } deg += 2; } }
  else if (form == 1) { /* symbolic coefficients, degree n <= 3 */
    deg = n; int64_t c[4]; for (int i = 0; i <= n; i++) { nm[0] = 'c'; nm[1] = '0' + i; c[i] = i == n && lc ? lc : i == 2 && n == 3 ? base : i == 0 ? sym_int(nm, sym_param("lo0", lo), sym_param("hi0", hi)) : sym_int(nm, lo, hi); mpz_set_si(P[i], c[i]); }
    sym_assume(c[n] != 0); int64_t D;
    if (n == 1) D = 1; else if (n == 2) D = c[1] * c[1] - 4 * c[2] * c[0];
    else D = 18 * c[3] * c[2] * c[1] * c[0] - 4 * c[2] * c[2] * c[2] * c[0] + c[2] * c[2] * c[1] * c[1] - 4 * c[3] * c[1] * c[1] * c[1] - 27 * c[3] * c[3] * c[0] * c[0];
    sym_assume(D != 0); nr = n == 1 ? 1 : sym_branch(D > 0) ? n : n - 2; }
  for (int i = 0; i <= deg; i++) mpz_set(Q[i], P[i]);
  unsigned long np = 77, nn = 77; interval *r = real_roots(Q, deg, &np, &nn, prec, 1, 0);
  sym_assert(np + nn == nr, "every real root is returned once");
  mpz_t a, b, pb, x, y; mpz_inits(a, b, pb, x, y, NULL); long k, pk = 0; int pex = 0;
  for (int i = 0; i < nr; i++) { ends(r + i, a, b, &k); int ex = r[i].isexact != 0;
    sym_assert(ex || mpz_cmp(a, b) < 0, "interval is not empty");
    if (i) { mpz_mul_2exp(x, pb, k); mpz_mul_2exp(y, a, pk); int c = mpz_cmp(x, y); sym_assert(c < 0 || c == 0 && !(ex && pex), "intervals are disjoint and increasing"); }
    if (i < nn) { if (ex) sym_assert(mpz_sgn(a) < 0, "negative root"); else sym_assert(mpz_sgn(b) <= 0, "negative interval"); } else sym_assert(mpz_sgn(a) >= 0, "non-negative interval");
    if (ex) sym_assert(r[i].k >= 0, "exact root has a non-negative exponent");
    if (form == 0 || form == 2) { mpz_set_si(x, rt[i]); mpz_mul_2exp(x, x, k); mpz_mul_si(y, a, dn[i]); mpz_t z; mpz_init(z); mpz_mul_si(z, b, dn[i]); if (ex) sym_assert(mpz_cmp(x, y) == 0, "exact root is the root"); else { sym_assert(mpz_cmp(y, x) < 0, "root is above the lower end"); sym_assert(mpz_cmp(x, z) < 0, "root is below the upper end"); } }
    else if (ex) { horner(x, P, deg, a, k); sym_assert(mpz_sgn(x) == 0, "exact root is a root"); }
    else sym_assert(sgnside(a, k, 1) * sgnside(b, k, -1) < 0, "polynomial changes sign over the interval");
    if (prec >= 0 && !ex) sym_assert(r[i].k >= prec, "interval is at most 2^-prec wide");
    mpz_set(pb, b); pk = k; pex = ex; }
  sym_cover("done");
}
