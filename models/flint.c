/* C models of the FLINT services the sources call: plain modular arithmetic, schoolbook polynomials. */
#include <flint/flint.h>
#include <flint/ulong_extras.h>
#include <flint/nmod_poly.h>
#include <stdlib.h>
#include <string.h>
ulong ref_inv2(ulong a, ulong p);
ulong n_preinvert_limb(ulong n) { return 0; }
ulong n_ll_mod_preinv(ulong h, ulong l, ulong n, ulong ni) { return (ulong)((((unsigned __int128)h << 64) | l) % n); }
ulong n_gcdinv(ulong *a, ulong x, ulong y) { __int128 r0 = y, r1 = x, t0 = 0, t1 = 1; while (r1) { __int128 q = r0 / r1, z = r0 - q * r1; r0 = r1; r1 = z; z = t0 - q * t1; t0 = t1; t1 = z; } if (t0 < 0) t0 += y; *a = (ulong)t0; return (ulong)r0; }
/* fmpz modelled as a pointer to an integer (null = 0), fmpz_poly as an array of them */
#include <gmp.h>
#include <flint/fmpz.h>
#include <flint/fmpz_poly.h>
static mpz_ptr fz(fmpz *c) { if (!*c) { mpz_ptr z = malloc(sizeof(mpz_t)); mpz_init(z); *c = (slong)z; } return (mpz_ptr)*c; }
void fmpz_init_set_readonly(fmpz_t f, const mpz_t z) { f[0] = 0; mpz_set(fz(f), z); }
void fmpz_clear_readonly(fmpz_t f) { f[0] = 0; }
void fmpz_get_mpz(mpz_t x, const fmpz_t f) { if (f[0]) mpz_set(x, (mpz_ptr)f[0]); else mpz_set_ui(x, 0); }
void fmpz_poly_init2(fmpz_poly_t p, slong n) { p->coeffs = calloc(n ? n : 1, sizeof(fmpz)); p->alloc = n; p->length = 0; }
void fmpz_poly_init(fmpz_poly_t p) { fmpz_poly_init2(p, 1); }
void fmpz_poly_clear(fmpz_poly_t p) { free(p->coeffs); p->coeffs = NULL; }
void fmpz_poly_set_coeff_fmpz(fmpz_poly_t p, slong n, const fmpz_t x) { if (n >= p->alloc) { p->coeffs = realloc(p->coeffs, (n + 1) * sizeof(fmpz)); for (slong i = p->alloc; i <= n; i++) p->coeffs[i] = 0; p->alloc = n + 1; } if (n >= p->length) p->length = n + 1; fmpz_get_mpz(fz(p->coeffs + n), x); }
void fmpz_poly_mul(fmpz_poly_t r, const fmpz_poly_t a, const fmpz_poly_t b) { slong n = a->length && b->length ? a->length + b->length - 1 : 0; fmpz *c = calloc(n ? n : 1, sizeof(fmpz));
  for (slong i = 0; i < a->length; i++) for (slong j = 0; j < b->length; j++) if (a->coeffs[i] && b->coeffs[j]) mpz_addmul(fz(c + i + j), (mpz_ptr)a->coeffs[i], (mpz_ptr)b->coeffs[j]);
  free(r->coeffs); r->coeffs = c; r->alloc = n; r->length = n; }
int flint_set_num_threads_dummy;
#undef flint_set_num_threads
void flint_set_num_threads(int n) { }
void mpq_get_num(mpz_t n, const mpq_t q) { mpz_set(n, mpq_numref(q)); }
void mpq_get_den(mpz_t n, const mpq_t q) { mpz_set(n, mpq_denref(q)); }
static int isd(char c) { return c >= '0' && c <= '9'; }
static int isw(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int zstr(mpz_t z, const char *s, const char *e) { while (s < e && isw(*s)) s++; int neg = 0; if (s < e && *s == '-') { neg = 1; s++; } if (s >= e || !isd(*s)) return -1; mpz_t v, d; mpz_init(v); mpz_init(d);
  for (; s < e; s++) { if (isw(*s)) continue; if (!isd(*s)) return -1; mpz_mul_ui(v, v, 10); mpz_set_si(d, (long)*s - '0'); mpz_add(v, v, d); } if (neg) mpz_neg(v, v); mpz_set(z, v); return 0; }
int mpq_set_str(mpq_t q, const char *s, int base) { const char *m = strchr(s, '/'), *e = s + strlen(s); if (base != 10) abort(); if (!m) { mpz_set_ui(mpq_denref(q), 1); return zstr(mpq_numref(q), s, e); } if (zstr(mpq_numref(q), s, m)) return -1; return zstr(mpq_denref(q), m + 1, e); }
