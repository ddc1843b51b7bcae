/* Reference Buchberger over Z/p for tiny systems; exponents concrete, coefficients possibly symbolic. */
#ifndef REFGB_H
#define REFGB_H
#include "symx.h"
#include <string.h>
#include <stdlib.h>
#ifndef RMAXV
#define RMAXV 5
#endif
#ifndef RMAXT
#define RMAXT 64
#endif
#ifndef RMAXP
#define RMAXP 64
#endif
typedef struct { int n; int e[RMAXT][RMAXV]; int64_t c[RMAXT]; } rpoly;
static int R_nv, R_ord, R_elim; static int64_t R_p;
static int r_drl(const int *a, const int *b, int s, int t) { int da = 0, db = 0; for (int i = s; i < t; i++) da += a[i], db += b[i]; if (da != db) return da > db ? 1 : -1; for (int i = t - 1; i >= s; i--) if (a[i] != b[i]) return a[i] < b[i] ? 1 : -1; return 0; }
/* R_ord 0: degree reverse lexicographical (two blocks when R_elim > 0), 1: lexicographical */
static int r_cmp(const int *a, const int *b) {
  if (R_ord == 1) { for (int i = 0; i < R_nv; i++) if (a[i] != b[i]) return a[i] > b[i] ? 1 : -1; return 0; }
  if (R_elim > 0) { int c = r_drl(a, b, 0, R_elim); if (c) return c; return r_drl(a, b, R_elim, R_nv); }
  return r_drl(a, b, 0, R_nv);
}
__attribute__((noinline)) int64_t ref_inv(int64_t a, int64_t p) { int64_t r = 1, b = a % p, e = p - 2; while (e) { if (e & 1) r = (int64_t)((__int128)r * b % p); b = (int64_t)((__int128)b * b % p); e >>= 1; } return r; }
static int64_t r_mul(int64_t a, int64_t b) { if (R_p < (1L << 31)) return a * b % R_p; return (int64_t)((__int128)a * b % R_p); }
/* f := f - c * x^m * g, result sorted, zero terms removed */
static void r_submul(rpoly *f, int64_t c, const int *m, const rpoly *g) {
  static rpoly t; int i = 0, j = 0, k = 0; int e[RMAXV];
  while (i < f->n || j < g->n) {
    int s; if (j < g->n) for (int v = 0; v < R_nv; v++) e[v] = g->e[j][v] + m[v];
    if (i >= f->n) s = -1; else if (j >= g->n) s = 1; else s = r_cmp(f->e[i], e);
    if (k >= RMAXT) abort();
    if (s > 0) { memcpy(t.e[k], f->e[i], sizeof t.e[k]); t.c[k] = f->c[i]; i++; k++; continue; }
    int64_t q = r_mul(c, g->c[j]); int64_t v;
    if (s < 0) { v = (R_p - q) % R_p; memset(t.e[k], 0, sizeof t.e[k]); memcpy(t.e[k], e, R_nv * sizeof(int)); j++; }
    else { v = (f->c[i] + R_p - q) % R_p; memset(t.e[k], 0, sizeof t.e[k]); memcpy(t.e[k], e, R_nv * sizeof(int)); i++; j++; }
    if (sym_branch(v != 0)) { t.c[k] = v; k++; }
  }
  t.n = k; *f = t;
}
static int r_div(const int *a, const int *b) { for (int v = 0; v < R_nv; v++) if (a[v] > b[v]) return 0; return 1; }
static void r_monic(rpoly *f) { if (!f->n) return; int64_t iv = ref_inv(f->c[0], R_p); f->c[0] = 1; for (int i = 1; i < f->n; i++) f->c[i] = r_mul(f->c[i], iv); }
/* full reduction of f by the monic polynomials g[0..ng), skipping index skip */
static void r_reduce(rpoly *f, rpoly *g, int ng, int skip, const int *dead) {
  int i = 0, m[RMAXV];
  while (i < f->n) {
    int k; for (k = 0; k < ng; k++) if (k != skip && !(dead && dead[k]) && g[k].n && r_div(g[k].e[0], f->e[i])) break;
    if (k == ng) { i++; continue; }
    for (int v = 0; v < R_nv; v++) m[v] = f->e[i][v] - g[k].e[0][v];
    int64_t c = f->c[i]; r_submul(f, c, m, &g[k]);
  }
}
static void r_spoly(rpoly *s, const rpoly *a, const rpoly *b) {
  int m1[RMAXV], m2[RMAXV]; for (int v = 0; v < R_nv; v++) { int l = a->e[0][v] > b->e[0][v] ? a->e[0][v] : b->e[0][v]; m1[v] = l - a->e[0][v]; m2[v] = l - b->e[0][v]; }
  s->n = 0; r_submul(s, R_p - 1, m1, a); r_submul(s, 1, m2, b);
}
static void r_normalise(rpoly *f) { /* sort, merge and drop zero terms of a raw polynomial */
  rpoly t; t.n = 0; for (int i = 0; i < f->n; i++) { rpoly one; one.n = 1; memcpy(one.e[0], f->e[i], sizeof one.e[0]); one.c[0] = (R_p - f->c[i] % R_p) % R_p; int m[RMAXV] = {0}; r_submul(&t, 1, m, &one); } *f = t; }
/* in: g[0..n) raw inputs in normal form; out: reduced Groebner basis, number of elements */
static int r_groebner(rpoly *g, int n) {
  int k = 0; for (int i = 0; i < n; i++) if (g[i].n) { if (k != i) g[k] = g[i]; r_monic(&g[k]); k++; } n = k;
  static int pq[RMAXP * RMAXP][2]; int np = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { pq[np][0] = j; pq[np++][1] = i; }
  static rpoly s;
  while (np > 0) {
    int best = 0, bd = 1 << 30; for (int q = 0; q < np; q++) { int d = 0; for (int v = 0; v < R_nv; v++) { int a = g[pq[q][0]].e[0][v], b = g[pq[q][1]].e[0][v]; d += a > b ? a : b; } if (d < bd) { bd = d; best = q; } }
    int i = pq[best][0], j = pq[best][1]; pq[best][0] = pq[np - 1][0]; pq[best][1] = pq[np - 1][1]; np--;
    int cop = 1; for (int v = 0; v < R_nv; v++) if (g[i].e[0][v] && g[j].e[0][v]) cop = 0; if (cop) continue;
    r_spoly(&s, &g[i], &g[j]); r_reduce(&s, g, n, -1, NULL);
    if (s.n) { r_monic(&s); if (n >= RMAXP) abort(); g[n] = s; for (int q = 0; q < n; q++) { pq[np][0] = q; pq[np++][1] = n; } n++; }
  }
  /* minimal, then fully reduced */
  int dead[RMAXP] = {0}; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && !dead[j] && !dead[i] && r_div(g[j].e[0], g[i].e[0])) { dead[i] = 1; break; }
  k = 0; for (int i = 0; i < n; i++) if (!dead[i]) { if (k != i) g[k] = g[i]; k++; } n = k;
  for (int i = 0; i < n; i++) { r_reduce(&g[i], g, n, i, NULL); r_monic(&g[i]); }
  return n;
}
#endif
