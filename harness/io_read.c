/* reading an input file: what get_data_from_file stores is, for every generator, the polynomial the text denotes;
   mode 2: the whole program run on the file prints the reduced Groebner basis of what the text denotes.
   In a template # is any digit, @ any of + and -, ? any of x and y, ~ a run of zeros, _ any of tab, newline, vertical tab, form feed, return, % any tab or return. */
#define main msolve_main
#ifndef VERSION
#define VERSION "0"
#endif
#include "msolve/main.c"
#undef main
#include "symx.h"
#include "refgb.h"
static const char *TPL[] = {
/*0*/ "x,y\nP\n#*x@#*y,\n#@##*x^2*y\n",
/*1*/ "x, y , z\nP\n@x@y@z^#,_@2*x*y_@_z\n",
/*2*/ "x,y\nP\n ##*? + #*?^2 @ ?^3 - 1,x\n\n",
/*3*/ "x,y\nP\n@#/3*x^2@4/7*y,\ny@#*y@1\n",
/*4*/ "a1,a10 ,%b_c\nP\n@a1*a10@#*a10^#*a1@b_c,_\n_3*b_c^2\n  @ a1\n",
/*5*/ "x,y\nP\n@##########*x@1,y@00#*x\n",
/*6*/ "x,y\nP\n?*?@#*x*y@?^2@x*y@y^2\n",
/*7*/ "x\nP\n@x^#@x^#@1,@#,x\n",
/*8*/ "x,y\nP\nx@y,x*y@#,_y^2@x,@#\n",
/*9*/ "%x%, y\nP\n@#*x_@_#*y_,_x@y_,_\n_",
/*10*/"x,y,z,w\nP\n@x*y*z*w@#*x^2*z@w@z@#*y@#,w*z*y*x@x^10*w^#\n",
/*11*/"x,y\nP\n@#####/##7*x@#/2*y@#######\n",
/*12*/"x,y\nP\n@x*1@y*x^2@5*?^1@0*x*y^3,@#*x^0@y^0\n",
/*13*/"x,y\nP\n1#*x^2@y,@x*y@10\n",
/*14*/"x,y,z\nP\nx@1#*y_@z,\n\ny^2@z*?\n",
/*15*/"x,y\nP\n@x@1#,x@y^2,y^2@2*x\n",
/*16*/"u, x10,x1\nP\nx10^2@1#*x1*x10-x1^3,x1*u-3,@u^2@2*x1\n",
/*17*/"x,y,z\nP\n@x*z@2*y*x,_@y^2@1#*z\n,z^2@?*z\n",
/*18*/"x,y\nP\n@1#\n",
/*19*/"x\nP\n@x^11@1##*x^2@7\n",
/*20*/"x,y\nP\n@3*x^2@1#*y,2*y^2@x,x^3*y@1#*x*y^2@y\n",
/*21*/"x,y,z\nP\nx*y@1#*z^2,y^2@x*z,x^2*y@?*z^2,@x*y^2@z\n",
/*22*/"x,y\nP\nx@1#*y,x^2@1#*y^2\n",
/*23*/"x,y,z\nP\n@5*y*z@1#*x,x^3*y^2*z@2*z^5@4,@6,x*?\n",
/*24*/"x,y\nP\nx^2*y@1#*x*y,x*y^2@?*y,?\n",
/*25*/"x,y,z\nP\nx*y@1#*x*z,x^2@x*y,x\n",
/*26*/"x,y\nP\nx^3@1#*x^2,x*y@x,x@y\n",
/*27*/"x,y,z\nP\nx*y*z@1#*z^2,y*z@x*z,x^2*z@3*z,z@y\n",
/*28*/"x,y\nP\nx^2*y,y\n",
/*29*/"x,y,z\nP\nx^2*?@z^2*?,x@2\n",
/*30*/"x,y\nP\nx^2*y^2@1#*y^2,y\n",
/*31*/"x,y,z\nP\n@x*y,z^2@?*z,?\n",
/*32*/"x,y\nP\nx*y@1#*x,x^2,y@3\n",
/*33*/"x,y,z\nP\nx*z@2*x,y^2*z@1#*y,z@y\n",
/*34*/"x,y\nP\nx^3*y+2*x^2*y^2-3*x*y^3+5*y^4@1#*x^2*y+7*x*y^2-11*y^3+4*x*y-6*y^2+9*y,y\n",
/*35*/"x,y\nP\nx^3+2*x^2*y-3*x*y^2+5*y^3@12*x^2+7*x*y-11*y^2+4*x-6*y+9,y^2*x-3*y*x-2*y,y\n",
/*36*/"x,y\nP\nx^3*y+2*x^3-3*x*y^2+5*y^3@12*x^2*y+7*x*y-11*y^2+4*x-6*y+9,x*y-3*x+y-3,y-3\n",
/*37*/"x,y\nP\n@~#*x@y,x@~#\n",
/*38*/"x,y\nP\nx^3-x,y^3-y,3*x@7*y\n",
/*39*/"x,y\nP\n-10*x*y^3-7*x*y^2-x*y,6*x*y+3*x-2*y^2-y,2*y@1\n",
/*40*/"x,y,z\nP\nx^2*z-5*x*y*z,2*y*z^2,x-z\n",
/*41*/"x,y\nP\n6*x^2@y,2*x^2@3*y^2+1#*y,-x\n",
/*42*/"x,y\nP\nx^2@12*x,y^2*x@2*y*x@y^2,5*x@1\n",
/*43*/"x,y\nP\ny^2,x@y@3,y*x^2+1#*y,y@x@1\n",
/*44*/"x,y\nP\nx^3-x,y^3-y,x@7*y@1\n",
/*45*/"x,y\nP\nx^4@x^2,y^2-y,3*x@y\n",
/*46*/"x,y,z\nP\nx^2@y,y^2@z,z^2@x,x@2*y\n",
/*47*/"x,y\nP\nx^2-x,y^2-y,x@y@2\n",
/*48*/"x,y\nP\n3*x^3@3*x^2,2*x^2@2*x*y@3*y^2,y\n",
/*49*/"x,y\nP\n4*x^2@1,-x^2@5*y,-5*x^2*y@x^2,x\n",
/*50*/"x,y,z\nP\n2*x^3@2*y*z,2*x+3*y^3@5*y,3*y^2*z^2@3*z^4+2*z^2,z^2\n",
/*51*/"x\nP\nx^8@x,2*x^4@x^2\n",
/*52*/"x,y\nP\nx^8-x,y^2@1,2*x^4+?^2\n",
};
enum { MC = 1 << 17, MT = 24, MV = 4 }; static char txt[MC]; static char kind[MC]; static int tl;
static void build(const char *t, int64_t p) { int k = 0; tl = 0;
  for (; *t; t++) { char nm[4] = {'s', (char)('a' + k / 26), (char)('a' + k % 26), 0}, c = *t; int64_t v = (unsigned char)c; kind[tl] = c;
    if (c == '~') { for (int64_t z = sym_param("pad", 40); z--; ) { kind[tl] = 'L'; txt[tl++] = '0'; } continue; }
    if (c == 'P') { char b[24]; int n = 0; do { b[n++] = '0' + p % 10; p /= 10; } while (p); while (n) { kind[tl] = 'P'; txt[tl++] = b[--n]; } continue; }
    if (c == '#') { nm[0] = 'd'; v = '0' + sym_int(nm, 0, 9); k++; } else if (c == '@') { v = '+' + 2 * sym_int(nm, 0, 1); k++; } else if (c == '?') { nm[0] = 'v'; v = 'x' + sym_int(nm, 0, 1); k++; }
    else if (c == '_' && !(tl && t[-1] == 'b' && t[1] == 'c')) { nm[0] = 'w'; v = sym_int(nm, 9, 13); k++; } else if (c == '%') { nm[0] = 'w'; v = 9 + 4 * sym_int(nm, 0, 1); k++; } else kind[tl] = 'L';
    if (tl >= MC - 1) abort(); txt[tl++] = (char)v; }
  txt[tl] = 0; }
static int ws(int i) { return kind[i] == '_' || kind[i] == '%' || kind[i] == 'L' && (txt[i] == ' ' || txt[i] == '\n'); }
/* the oracle: terms of generator g as exponents and a rational coefficient */
typedef struct { int n; int64_t e[MT][MV]; mpz_t num[MT], den[MT]; } rgen; static rgen R[8]; static int nr, nv; static char *names[MV]; static char nmbuf[MV][16];
static int P_; static int num(int i, mpz_t z, int *any) { mpz_set_ui(z, 0); *any = 0; mpz_t d; mpz_init(d); for (;; i++) { if (ws(i)) continue; if (!(kind[i] == '#' || kind[i] == 'L' && txt[i] >= '0' && txt[i] <= '9')) break; *any = 1; mpz_mul_ui(z, z, 10); mpz_set_si(d, (int64_t)txt[i] - '0'); mpz_add(z, z, d); } mpz_clear(d); return i; }
static void oracle(void) { int i = 0; nv = 0;
  for (;; i++) { while (ws(i) && txt[i] != '\n') i++; int n = 0; while (kind[i] == 'L' && txt[i] != ',' && txt[i] != ' ' && txt[i] != '\n') nmbuf[nv][n++] = txt[i++]; names[nv] = nmbuf[nv]; nv++; while (ws(i) && (kind[i] != 'L' || txt[i] != '\n')) i++; if (txt[i] == '\n') break; }
  i++; while (!(kind[i] == 'L' && txt[i] == '\n')) i++; i++; nr = 0; mpz_t z; mpz_init(z); int any;
  for (;;) { while (ws(i)) i++; if (i >= tl) break; rgen *g = &R[nr++]; g->n = 0;
    for (;;) { while (ws(i)) i++; if (i >= tl) break; if (kind[i] == 'L' && txt[i] == ',') { i++; break; }
      int64_t sg = 1; while (kind[i] == '@' || kind[i] == 'L' && (txt[i] == '+' || txt[i] == '-') || ws(i)) { if (!ws(i)) sg = sg * (44 - (int64_t)txt[i]); i++; }
      int t = g->n++; mpz_init(g->num[t]); mpz_init(g->den[t]); mpz_set_si(g->num[t], 1); mpz_set_si(g->den[t], 1); for (int v = 0; v < nv; v++) g->e[t][v] = 0;
      for (;;) { while (ws(i)) i++; i = num(i, z, &any); if (any) { mpz_mul(g->num[t], g->num[t], z); if (kind[i] == 'L' && txt[i] == '/') { i = num(i + 1, z, &any); mpz_mul(g->den[t], g->den[t], z); } }
        else { int64_t at[MV]; if (kind[i] == '?') { for (int v = 0; v < nv; v++) at[v] = (int64_t)txt[i] == (int64_t)names[v][0]; i++; }
          else { char b[16]; int n = 0; while (kind[i] == 'L' && !ws(i) && !strchr("*^,+-", txt[i])) b[n++] = txt[i++]; b[n] = 0; for (int v = 0; v < nv; v++) at[v] = !strcmp(b, names[v]); }
          while (ws(i)) i++; int64_t x = 1; if (kind[i] == 'L' && txt[i] == '^') { i = num(i + 1, z, &any); x = mpz_get_si(z); } for (int v = 0; v < nv; v++) g->e[t][v] += at[v] * x; }
        while (ws(i)) i++; if (kind[i] == 'L' && txt[i] == '*') { i++; continue; } break; }
      mpz_mul_si(g->num[t], g->num[t], sg); } } }
static void collect(rgen *g) { /* like terms */ int n = 0; mpz_t z; mpz_init(z);
  for (int t = 0; t < g->n; t++) { int k; for (k = 0; k < n; k++) { int eq = 1; for (int v = 0; v < nv; v++) eq &= g->e[k][v] == g->e[t][v]; if (sym_branch(eq)) break; }
    if (k == n) { if (n != t) { for (int v = 0; v < nv; v++) g->e[n][v] = g->e[t][v]; mpz_set(g->num[n], g->num[t]); mpz_set(g->den[n], g->den[t]); } n++; }
    else { mpz_mul(z, g->num[t], g->den[k]); mpz_mul(g->num[k], g->num[k], g->den[t]); mpz_add(g->num[k], g->num[k], z); mpz_mul(g->den[k], g->den[k], g->den[t]); } } g->n = n; }
static int zero(rgen *g, int k, int64_t p) { return p ? sym_branch(mpz_fdiv_ui(g->num[k], p) == 0) : sym_branch(mpz_sgn(g->num[k]) == 0); }
static int64_t pw(int64_t b, int64_t e, int64_t p) { int64_t r = 1; for (b %= p; e; e >>= 1) { if (e & 1) r = (int64_t)((__int128)r * b % p); b = (int64_t)((__int128)b * b % p); } return r; }
static int64_t residue(rgen *g, int k, int64_t p) { return mpz_fdiv_ui(g->num[k], p) * pw(mpz_fdiv_ui(g->den[k], p), p - 2, p) % p; }
static rpoly G[RMAXP], F[8]; static char ob[1 << 14];
static void program(int64_t p) { int prob = (int)sym_param("la", 2), mode = (int)sym_param("g", 2), el = (int)sym_param("elim", 0); char el_s[2] = {(char)('0' + el), 0}, g_s[2] = {(char)('0' + mode), 0}; const char *la_s = prob == 44 ? "44" : prob == 42 ? "42" : prob == 1 ? "1" : "2";
  int nf = (int)sym_param("nf", 0), sat = (int)sym_param("sat", 0), cl = nf ? nf : sat; char n_s[2] = {(char)('0' + nf), 0};
  char *av[20] = {"msolve", "-f", (char *)sym_path("in.ms"), "-o", (char *)sym_path("out.ms"), "-g", g_s, "-l", (char *)la_s, "-e", el_s}; int ac = 11; if (nf) { av[ac++] = "-n"; av[ac++] = n_s; } if (sym_param("isgb", 0)) av[ac++] = "-i"; if (sat) av[ac++] = "-S";
  msolve_main(ac, av); uint64_t l = sym_outfile("out.ms", ob, sizeof ob - 1); sym_assert(l < sizeof ob, "an output file is written"); ob[l] = 0;
  R_nv = nv; R_ord = 0; R_elim = el; R_p = p; for (int g = 0; g < nr; g++) { collect(&R[g]); G[g].n = R[g].n; for (int k = 0; k < R[g].n; k++) { for (int v = 0; v < nv; v++) G[g].e[k][v] = (int)sym_conc(R[g].e[k][v]); G[g].c[k] = residue(&R[g], k, p); } r_normalise(&G[g]); }
  int m = nr - cl, n; for (int i = 0; i < cl; i++) F[i] = G[m + i];
  if (sat) { /* adjoin t in front with t*f = 1 and eliminate it */
    for (int g = 0; g < nr; g++) for (int k = 0; k < G[g].n; k++) { for (int v = nv; v > 0; v--) G[g].e[k][v] = G[g].e[k][v - 1]; G[g].e[k][0] = g == m; } rpoly *f = &G[m]; f->c[f->n] = p - 1; memset(f->e[f->n], 0, sizeof f->e[0]); f->n++; R_nv = nv + 1; R_elim = 1;
    for (int g = 0; g < nr; g++) r_normalise(&G[g]); n = r_groebner(G, nr); R_nv = nv; R_elim = el; int q = 0; for (int g = 0; g < n; g++) if (!G[g].e[0][0]) { G[q] = G[g]; for (int k = 0; k < G[q].n; k++) { for (int v = 0; v < nv; v++) G[q].e[k][v] = G[q].e[k][v + 1]; G[q].e[k][nv] = 0; } q++; } n = q; if (el) { for (int g = 0; g < n; g++) r_normalise(&G[g]); n = r_groebner(G, n); } }
  else n = r_groebner(G, m);
  if (nf) { for (int i = 0; i < nf; i++) { r_reduce(&F[i], G, n, -1, NULL); G[n + i] = F[i]; } memmove(G, G + n, sizeof *G * nf); n = nf; }
  char *s = ob; for (;;) { while (*s == '\n' || *s == ' ') s++; if (*s != '#') break; while (*s && *s != '\n') s++; }
  sym_assert(*s++ == '[', "the basis starts with a bracket"); static char hit[RMAXP]; memset(hit, 0, sizeof hit); int cnt = 0;
  for (;;) { static int e[RMAXT][RMAXV]; int64_t c[RMAXT]; int t = 0; /* one element */
    for (;;) { while (*s == ' ' || *s == '\n') s++; int64_t sg = 1; if (*s == '+') s++; else if (*s == '-') { sg = -1; s++; } if (t >= RMAXT) abort(); memset(e[t], 0, sizeof e[t]); c[t] = 1; int fac = 0;
      for (;;) { if (*s >= '0' && *s <= '9') { int64_t v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); c[t] = c[t] * v; fac = 1; }
        else { int v, hitv = -1; size_t bl = 0; for (v = 0; v < nv; v++) { size_t nl = strlen(names[v]); if (!strncmp(s, names[v], nl) && nl > bl) { bl = nl; hitv = v; } } if (hitv < 0) break; s += bl; int x = 1; if (*s == '^') { s++; x = 0; while (*s >= '0' && *s <= '9') x = x * 10 + (*s++ - '0'); } e[t][hitv] += x; fac = 1; }
        if (*s == '*') { s++; continue; } break; }
      if (!fac) { sym_assert(0, "every term is printed"); return; } c[t] *= sg; t++; if (*s == '+' || *s == '-') continue; break; }
    int k = cnt; if (nf) { if (k < n && t == 1 && e[0][0] == 0 && !r_cmp(e[0], (int[RMAXV]){0}) && G[k].n == 0) { sym_assert(c[0] == 0, "a remainder that is zero is printed as 0"); cnt++; if (*s == ',') { s++; continue; } break; } } else for (k = 0; k < n; k++) if (!hit[k] && !r_cmp(G[k].e[0], e[0])) break;
    if (t == 1 && n == 0) sym_assert(c[0] == 0, "the zero ideal is printed as 0"); else if (mode == 1) { sym_assert(k < n, "leading monomials are those of the reduced basis"); hit[k] = 1; cnt++; }
    else { sym_assert(k < n, nf ? "no more normal forms than asked for" : "leading monomials are those of the reduced basis"); hit[k] = 1; cnt++; sym_assert(t == G[k].n, nf ? "element has the terms of the remainder" : "element has the terms of the reduced basis"); for (int j = 0; j < t; j++) { sym_assert(!r_cmp(e[j], G[k].e[j]), nf ? "monomials are those of the remainder" : "monomials are those of the reduced basis"); sym_assert(c[j] == G[k].c[j], nf ? "coefficients are those of the remainder" : "coefficients are those of the reduced basis"); } }
    if (*s == ',') { s++; continue; } break; }
  sym_assert(cnt == n, "the whole reduced basis is printed"); sym_assert(*s == ']', "the basis ends with a bracket"); sym_cover("printed"); }
void harness(void) {
  int64_t p = sym_param("p", 101); int mode = (int)sym_param("mode", 0); build(TPL[sym_param("tpl", 0)], p); oracle();
  sym_file("in.ms", txt, tl); if (mode == 2) { program(p); return; }
  int32_t a = -7, fc = -7, b = -7; data_gens_ff_t *gens = allocate_data_gens(); get_data_from_file((char *)sym_path("in.ms"), &a, &fc, &b, gens);
  sym_assert(a == nv && gens->nvars == nv, "number of variables"); sym_assert(fc == p && gens->field_char == p, "characteristic"); sym_assert(b == nr && gens->ngens == nr, "number of generators");
  for (int v = 0; v < nv; v++) sym_assert(!strcmp(gens->vnames[v], names[v]), "variable name");
  int64_t pos = 0; mpz_t l, r; mpz_init(l); mpz_init(r);
  for (int g = 0; g < nr; g++) { collect(&R[g]); int want = 0; static char hit[MT]; memset(hit, 0, sizeof hit); int len = gens->lens[g]; for (int k = 0; k < R[g].n; k++) if (!zero(&R[g], k, p)) want++; else hit[k] = 1;
    if (!want) { sym_assert(len == 1, "a zero generator is a single term"); if (p) sym_assert(gens->cfs[pos] == 0, "with coefficient zero"); else sym_assert(mpz_sgn(*gens->mpz_cfs[2 * pos]) == 0, "with coefficient zero"); sym_cover("zero generator"); pos++; continue; }
    sym_assert(len == want, "as many terms as the polynomial has");
    for (int j = 0; j < len; j++, pos++) { int k; for (k = 0; k < R[g].n; k++) { if (hit[k]) continue; int eq = 1; for (int v = 0; v < nv; v++) eq &= R[g].e[k][v] == (int64_t)gens->exps[pos * nv + v]; if (sym_branch(eq)) break; }
      sym_assert(k < R[g].n, "monomial occurs in the polynomial"); hit[k] = 1;
      if (p) { int64_t c = gens->cfs[pos]; sym_assert(c > 0, "coefficient is a reduced residue"); sym_assert(c < p, "coefficient is a reduced residue"); int64_t d = mpz_fdiv_ui(R[g].den[k], p); sym_assert(c * d % p == mpz_fdiv_ui(R[g].num[k], p), "coefficient is the residue of the one written"); }
      else { mpz_mul(l, *gens->mpz_cfs[2 * pos], R[g].den[k]); mpz_mul(r, *gens->mpz_cfs[2 * pos + 1], R[g].num[k]); sym_assert(mpz_cmp(l, r) == 0, "coefficient is the one written"); sym_assert(mpz_sgn(*gens->mpz_cfs[2 * pos + 1]) != 0, "denominator is not zero"); } } }
  sym_assert(gens->nterms == pos, "number of terms"); sym_cover("read");
}
