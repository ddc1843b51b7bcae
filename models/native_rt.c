/* native runtime of the harness API: replays the solver's assignment against the real code */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <gmp.h>
#include <unistd.h>
#include "symx.h"
static FILE *vf; static int seed_mode; static unsigned long rs = 88172645463325252UL; static int trace;
static void init(void) { static int d; if (d) return; d = 1; trace = getenv("SYMX_TRACE") != NULL; const char *f = getenv("SYMX_VALUES"); if (f) vf = fopen(f, "r"); else { seed_mode = 1; const char *s = getenv("SYMX_SEED"); if (s) rs ^= strtoul(s, 0, 10) * 0x9E3779B97F4A7C15UL; } }
static unsigned long rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static int next(mpz_t z) { char l[1 << 16]; while (vf && fgets(l, sizeof l, vf)) { if (l[0] == '#' || l[0] == '!') continue; char *p = strrchr(l, ' '); if (!p) continue; p++; p[strcspn(p, "\n")] = 0; mpz_set_str(z, p, 10); return 1; } return 0; }
int64_t sym_int(const char *name, int64_t lo, int64_t hi) { init(); int64_t v = lo; if (seed_mode) { unsigned long w = (unsigned long)hi - (unsigned long)lo + 1; unsigned long k = rnd(); v = w ? (int64_t)((unsigned long)lo + (rnd() % 4 == 0 ? (k & 1 ? 0 : w - 1) : k % w)) : (int64_t)k; } else { mpz_t z; mpz_init(z); if (next(z)) v = mpz_get_si(z); if (mpz_cmp_si(z, 0) > 0 && !mpz_fits_slong_p(z)) v = (int64_t)mpz_get_ui(z); mpz_clear(z); if (lo <= hi && (v < lo || v > hi)) { fprintf(stderr, "value out of range\n"); fflush(stdout); _exit(77); } } if (trace) fprintf(stderr, "%s = %ld\n", name, (long)v); return v; }
void sym_mpz(mpz_t z, const char *name, const char *lo, const char *hi) { init(); if (seed_mode) { mpz_t l, h; mpz_init_set_str(l, lo, 10); mpz_init_set_str(h, hi, 10); mpz_sub(h, h, l); mpz_add_ui(h, h, 1); mpz_set_ui(z, 0); for (int i = 0; i < 6; i++) { mpz_mul_2exp(z, z, 64); mpz_add_ui(z, z, rnd()); } mpz_mod(z, z, h); mpz_add(z, z, l); mpz_clear(l); mpz_clear(h); } else if (!next(z)) mpz_set_str(z, lo, 10); if (trace) gmp_fprintf(stderr, "%s = %Zd\n", name, z); }
void sym_assume(int c) { if (!c) { fprintf(stderr, "assumption not met\n"); fflush(stdout); _exit(77); } }
void sym_assert(int c, const char *msg) { if (!c) { fprintf(stderr, "REPLAY-VIOLATION: %s\n", msg); fflush(stdout); _exit(99); } }
int64_t sym_conc(int64_t v) { return v; } int sym_branch(int c) { return c; } void sym_cover(const char *l) { if (trace) fprintf(stderr, "cover %s\n", l); } int sym_is_symbolic_run(void) { return 0; }
void sym_dbg(const char *n, int64_t v) { if (trace) fprintf(stderr, "dbg %s: %ld\n", n, (long)v); }
int64_t sym_ite(int c, int64_t a, int64_t b) { return c ? a : b; }
static char paths[16][256]; static int np;
const char *sym_path(const char *n) { const char *d = getenv("SYMX_TMP"); if (!d) d = "."; char *p = paths[np++ & 15]; snprintf(p, 256, "%s/%s", d, n); return p; }
void sym_file(const char *n, const char *b, uint64_t len) { FILE *f = fopen(sym_path(n), "w"); fwrite(b, 1, len, f); fclose(f); }
uint64_t sym_outfile(const char *n, char *b, uint64_t cap) { FILE *f = fopen(sym_path(n), "r"); if (!f) return ~0UL; uint64_t l = 0; int c; while ((c = fgetc(f)) != EOF) { if (l < cap) b[l] = (char)c; l++; } fclose(f); return l; }
/* SYMX_PARAMS="a=1 b=2" */
int64_t sym_param(const char *n, int64_t d) { const char *e = getenv("SYMX_PARAMS"); size_t l = strlen(n); while (e && *e) { while (*e == ' ') e++; if (!strncmp(e, n, l) && e[l] == '=') return strtol(e + l + 1, 0, 10); e = strchr(e, ' '); } return d; }
/* same pseudo-random sequence as the executor's model */
static uint64_t lcg = 12345; int rand(void) { lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; return (lcg >> 33) & 0x7fffffff; } void srand(unsigned s) { (void)s; }
extern void HARNESS_ENTRY(void);
int main(void) { HARNESS_ENTRY(); fprintf(stderr, "replay finished without violation\n"); return 0; }
#include <time.h>
__attribute__((weak)) double realtime(void) { return (double)time(0); }
__attribute__((weak)) double cputime(void) { return 0; }
