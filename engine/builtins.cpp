#include <map>
// libc, GMP and harness-API models of the symbolic executor.
#include "interp.h"
#include <unordered_map>
#include <cstring>
#include <cmath>
#include <functional>
Node *newSym(const std::string &name, const Z &lo, const Z &hi);
void coverLabel(const std::string &s); void onExit(int code, const char *how);
static std::unordered_map<std::string, Builtin> tab;
Builtin findBuiltin(const std::string &n) { auto it = tab.find(n); return it == tab.end() ? nullptr : it->second; }
static uint64_t cc(V v, int w, const char *why = "builtin argument") { return v.n ? concretize(v, w, why) : v.c; }
static uint64_t fD(double d) { uint64_t c; memcpy(&c, &d, 8); return c; } static double asD(uint64_t c) { double d; memcpy(&d, &c, 8); return d; }
#define B(nm) tab[#nm] = [](V *a, int n, V *r)
static Z zs(const std::string &s) { return Z(s); }
// ---- mpz
static std::vector<Node *> zv; static const uint64_t TAG = 0x7A5A000000000000ull;
static uint64_t zh(uint64_t p) { V h = memLoad(p + 8, 8); uint64_t c = cc(h, 64); if ((c >> 48) != (TAG >> 48) || (c & 0xffffffffffffull) >= zv.size() || !zv[c & 0xffffffffffffull]) violation("use of uninitialised or cleared mpz", nullptr); return c & 0xffffffffffffull; }
static Node *zg(V p) { return zv[zh(cc(p, 64))]; }
static void zset(V p, Node *n) { zv[zh(cc(p, 64))] = n; }
static void zinit(V pv, Node *n) { uint64_t p = cc(pv, 64); zv.push_back(n); memStore(p, cV(1), 4); memStore(p + 4, cV(0), 4); memStore(p + 8, cV(TAG | (zv.size() - 1)), 8); }
static void zclear(V pv) { uint64_t p = cc(pv, 64); uint64_t h = zh(p); zv[h] = nullptr; }
static Node *ui(V v) { return mkU(vN(v, 64), 64); } static Node *si(V v, int w = 64) { return mkS(vN(v, w), w); }
static void nz(Node *d) { if (d->lo <= 0 && d->hi >= 0) { Node *e = mkEQ0(d); if (isC(e) ? e->c != 0 : branchOn(e)) violation("mpz division by zero", nullptr); } }
static Node *sgnN(Node *a) { return mkSub(mkLE(mkC(1L), a), mkLE(a, mkC(-1L))); }
static Node *absN(Node *a) { if (a->lo >= 0) return a; if (a->hi <= 0) return mkNeg(a); return mkIte(mkLE0(mkAdd(a, mkC(1L))), mkNeg(a), a); }
static Node *cdiv(Node *a, Node *b) { return mkNeg(mkFDiv(mkNeg(a), b)); }
static unsigned nb(const Z &z) { return z == 0 ? 0 : mpz_sizeinbase(z.get_mpz_t(), 2); }
static Node *bitlen(Node *a) { a = absN(a); unsigned h = nb(a->hi), l = a->lo > 0 ? nb(a->lo) : 0; Node *r = mkC((long)(l ? l : 1)); for (unsigned i = (l ? l : 1); i < h; i++) r = mkAdd(r, mkLE(mkC(pow2(i)), a)); return r; }
static V I32(Node *n) { return nV(n, 32); }
static Node *gcdN(Node *a, Node *b) { // symbolic Euclid by forking when small, else Bezout node
  if (isC(a) && isC(b)) return mkGcd(a, b); a = absN(a); b = absN(b);
  if (isC(b)) std::swap(a, b);
  if (isC(a) && a->c > 1 && a->c <= 4096) { std::vector<Z> t; for (long i = 0; i < a->c.get_si(); i++) t.push_back(gcd(Z(i), a->c)); return mkSel(t, mkFMod(b, a)); }
  if (b->hi <= 128 && (a->hi > b->hi)) std::swap(a, b);
  if (a->hi <= 128) { Node *r = mkC(1L); for (long d = 2; d <= a->hi.get_si(); d++) r = mkIte(mkBAnd(mkEQ0(mkFMod(a, mkC(d))), mkEQ0(mkFMod(b, mkC(d)))), mkC(d), r); // largest common divisor of a positive small number
    return a->lo > 0 ? r : mkIte(mkEQ0(a), b, r); }
  if (getenv("SYMX_V")) fprintf(stderr, "gcd [%s %s] [%s %s]\n", a->lo.get_str().c_str(), a->hi.get_str().c_str(), b->lo.get_str().c_str(), b->hi.get_str().c_str());
  return mkGcd(a, b);
}
static bool isq(Node *n) { return isC(n); }
void registerBuiltins() {
  // memory
  B(malloc) { r[0] = cV(memAlloc(cc(a[0], 64, "malloc size"), "heap")); };
  B(calloc) { uint64_t x = cc(a[0], 64, "calloc"), y = cc(a[1], 64, "calloc"); r[0] = cV(memAlloc(x * y, "heap", true)); memFill(r[0].c, cV(0), x * y <= (1 << 16) ? x * y : 0); };
  B(realloc) { uint64_t p = cc(a[0], 64), s = cc(a[1], 64, "realloc size"); uint64_t q = memAlloc(s, "heap"); if (p) { uint64_t o = memSize(p); memCopy(q, p, o < s ? o : s); memFree(p); } r[0] = cV(q); };
  B(free) { memFree(cc(a[0], 64)); };
  B(posix_memalign) { uint64_t p = cc(a[0], 64); memStore(p, cV(memAlloc(cc(a[2], 64), "heap")), 8); r[0] = cV(0); };
  B(aligned_alloc) { r[0] = cV(memAlloc(cc(a[1], 64), "heap")); };
  tab["flint_malloc"] = tab["malloc"]; tab["flint_free"] = tab["free"]; tab["flint_realloc"] = tab["realloc"]; tab["flint_calloc"] = tab["calloc"];
  B(memcpy) { memCopy(cc(a[0], 64), cc(a[1], 64), cc(a[2], 64)); r[0] = a[0]; }; tab["memmove"] = tab["memcpy"]; B(memset) { memFill(cc(a[0], 64), a[1], cc(a[2], 64)); r[0] = a[0]; };
  // process and environment
  B(exit) { onExit((int)cc(a[0], 32), "exit"); }; B(abort) { violation("abort called", nullptr); }; B(flint_abort) { violation("flint_abort called", nullptr); }; B(flint_throw) { violation("flint_throw called", nullptr); }; B(__assert_fail) { violation("assert failed", nullptr); };
  B(clock) { r[0] = cV(0); }; B(time) { if (a[0].c) memStore(a[0].c, cV(1), 8); r[0] = cV(1); }; B(gettimeofday) { memStore(cc(a[0], 64), cV(0), 8); memStore(cc(a[0], 64) + 8, cV(0), 8); r[0] = cV(0); };
  B(omp_get_wtime) { r[0] = cV(0); }; B(omp_get_max_threads) { r[0] = cV(1); }; B(omp_get_thread_num) { r[0] = cV(0); };
  B(srand) {}; B(rand) { static uint64_t s = 12345; s = s * 6364136223846793005ull + 1442695040888963407ull; r[0] = cV((s >> 33) & 0x7fffffff); }; tab["random"] = tab["rand"];
  auto m1 = [](const char *nm, Builtin b) { tab[nm] = b; };
  m1("exp2", [](V *a, int, V *r) { if (a[0].n) inconclusive("symbolic float"); r[0] = cV(fD(exp2(asD(a[0].c)))); }); m1("log", [](V *a, int, V *r) { if (a[0].n) inconclusive("symbolic float"); r[0] = cV(fD(log(asD(a[0].c)))); }); m1("log2", [](V *a, int, V *r) { if (a[0].n) inconclusive("symbolic float"); r[0] = cV(fD(log2(asD(a[0].c)))); }); m1("sqrt", [](V *a, int, V *r) { if (a[0].n) inconclusive("symbolic float"); r[0] = cV(fD(sqrt(asD(a[0].c)))); }); m1("ldexp", [](V *a, int, V *r) { r[0] = cV(fD(ldexp(asD(a[0].c), (int)a[1].c))); }); m1("pow", [](V *a, int, V *r) { r[0] = cV(fD(pow(asD(a[0].c), asD(a[1].c)))); }); m1("floor", [](V *a, int, V *r) { r[0] = cV(fD(floor(asD(a[0].c)))); }); m1("ceil", [](V *a, int, V *r) { r[0] = cV(fD(ceil(asD(a[0].c)))); });
  // harness API
  B(sym_int) { std::string nm = memStr(cc(a[0], 64)); Node *v = newSym(nm, Z((long)cc(a[1], 64)), Z((long)cc(a[2], 64))); r[0] = nV(isC(v) ? v : v, 64); };
  B(sym_param) { extern std::map<std::string, long> g_params; std::string nm = memStr(cc(a[0], 64)); auto it = g_params.find(nm); r[0] = it == g_params.end() ? a[1] : cV((uint64_t)it->second); };
  B(sym_assume) { assumeTrue(mkBool(mkU(vN(a[0], 32), 32))); };
  B(sym_assert) { checkTrue(mkBool(mkU(vN(a[0], 32), 32)), memStr(cc(a[1], 64))); };
  B(sym_conc) { r[0] = cV(cc(a[0], 64, "sym_conc")); };
  B(sym_branch) { Node *c = mkBool(mkU(vN(a[0], 32), 32)); r[0] = cV(branchOn(c)); };
  B(sym_cover) { coverLabel(memStr(cc(a[0], 64))); };
  B(sym_is_symbolic_run) { r[0] = cV(1); };
  B(sym_dbg) { std::string s = memStr(cc(a[0], 64)); if (getenv("SYMX_V")) fprintf(stderr, "dbg %s: %s\n", s.c_str(), a[1].n ? nodeStr(a[1].n, 12).c_str() : std::to_string((long)a[1].c).c_str()); };
  B(sym_ite) { Node *c = mkBool(mkU(vN(a[0], 32), 32)); r[0] = nV(mkIte(c, si(a[1]), si(a[2])), 64); };
  B(sym_mpz) { std::string nm = memStr(cc(a[1], 64)); Z lo = zs(memStr(cc(a[2], 64))), hi = zs(memStr(cc(a[3], 64))); zset(a[0], newSym(nm, lo, hi)); };
  B(sym_mpz_range) { /* tell interval */ };
  // ---- GMP
#define Zf(nm) tab["__gmpz_" #nm] = [](V *a, int n, V *r)
#define Zs(nm) tab["symx_mpz_" #nm] = [](V *a, int n, V *r)
  Zf(init) { zinit(a[0], mkC(0L)); }; Zf(init2) { zinit(a[0], mkC(0L)); }; Zf(clear) { zclear(a[0]); };
  Zf(inits) { for (int i = 0; i < n; i++) { if (!a[i].n && !a[i].c) break; zinit(a[i], mkC(0L)); } }; Zf(clears) { for (int i = 0; i < n; i++) { if (!a[i].n && !a[i].c) break; zclear(a[i]); } };
  Zf(init_set) { Node *v = zg(a[1]); zinit(a[0], v); }; Zf(init_set_ui) { zinit(a[0], ui(a[1])); }; Zf(init_set_si) { zinit(a[0], si(a[1])); }; Zf(init_set_str) { std::string s = memStr(cc(a[1], 64)); Z z; int e = z.set_str(s, (int)cc(a[2], 32)); zinit(a[0], mkC(z)); r[0] = cV((uint32_t)e); };
  Zf(set) { zset(a[0], zg(a[1])); }; Zf(set_ui) { zset(a[0], ui(a[1])); }; Zf(set_si) { zset(a[0], si(a[1])); }; Zf(set_str) { std::string s = memStr(cc(a[1], 64)); Z z; int e = z.set_str(s, (int)cc(a[2], 32)); if (e == 0) zset(a[0], mkC(z)); r[0] = cV((uint32_t)e); };
  Zf(swap) { Node *x = zg(a[0]), *y = zg(a[1]); zset(a[0], y); zset(a[1], x); };
  Zf(realloc2) {};
  Zf(add) { zset(a[0], mkAdd(zg(a[1]), zg(a[2]))); }; Zf(add_ui) { zset(a[0], mkAdd(zg(a[1]), ui(a[2]))); }; Zf(sub) { zset(a[0], mkSub(zg(a[1]), zg(a[2]))); }; Zf(sub_ui) { zset(a[0], mkSub(zg(a[1]), ui(a[2]))); }; Zf(ui_sub) { zset(a[0], mkSub(ui(a[1]), zg(a[2]))); };
  Zf(mul) { zset(a[0], mkMul(zg(a[1]), zg(a[2]))); }; Zf(mul_ui) { zset(a[0], mkMul(zg(a[1]), ui(a[2]))); }; Zf(mul_si) { zset(a[0], mkMul(zg(a[1]), si(a[2]))); }; Zf(mul_2exp) { zset(a[0], mkMul(zg(a[1]), mkC(pow2(cc(a[2], 64))))); };
  Zf(addmul) { zset(a[0], mkAdd(zg(a[0]), mkMul(zg(a[1]), zg(a[2])))); }; Zf(submul) { zset(a[0], mkSub(zg(a[0]), mkMul(zg(a[1]), zg(a[2])))); }; Zf(addmul_ui) { zset(a[0], mkAdd(zg(a[0]), mkMul(zg(a[1]), ui(a[2])))); }; Zf(submul_ui) { zset(a[0], mkSub(zg(a[0]), mkMul(zg(a[1]), ui(a[2])))); };
  Zf(tdiv_q) { Node *d = zg(a[2]); nz(d); zset(a[0], mkTDiv(zg(a[1]), d)); }; Zf(tdiv_r) { Node *d = zg(a[2]); nz(d); zset(a[0], mkTRem(zg(a[1]), d)); }; Zf(tdiv_qr) { Node *x = zg(a[2]), *d = zg(a[3]); nz(d); zset(a[0], mkTDiv(x, d)); zset(a[1], mkTRem(x, d)); };
  Zf(fdiv_q) { Node *d = zg(a[2]); nz(d); zset(a[0], mkFDiv(zg(a[1]), d)); }; Zf(fdiv_r) { Node *d = zg(a[2]); nz(d); zset(a[0], mkFMod(zg(a[1]), d)); }; Zf(fdiv_qr) { Node *x = zg(a[2]), *d = zg(a[3]); nz(d); zset(a[0], mkFDiv(x, d)); zset(a[1], mkFMod(x, d)); }; Zf(cdiv_q) { Node *d = zg(a[2]); nz(d); zset(a[0], cdiv(zg(a[1]), d)); };
  Zf(mod) { Node *d = absN(zg(a[2])); nz(d); zset(a[0], mkFMod(zg(a[1]), d)); };
  Zf(fdiv_ui) { Node *d = ui(a[1]); nz(d); r[0] = nV(mkFMod(zg(a[0]), d), 64); }; Zf(fdiv_r_ui) { Node *d = ui(a[2]); nz(d); Node *x = mkFMod(zg(a[1]), d); zset(a[0], x); r[0] = nV(x, 64); }; Zf(fdiv_q_ui) { Node *d = ui(a[2]); nz(d); Node *x = zg(a[1]); zset(a[0], mkFDiv(x, d)); r[0] = nV(mkFMod(x, d), 64); }; Zf(tdiv_ui) { Node *d = ui(a[1]); nz(d); r[0] = nV(absN(mkTRem(zg(a[0]), d)), 64); }; Zf(tdiv_q_ui) { Node *d = ui(a[2]); nz(d); Node *x = zg(a[1]); zset(a[0], mkTDiv(x, d)); r[0] = nV(absN(mkTRem(x, d)), 64); };
  Zf(divexact) { Node *d = zg(a[2]), *x = zg(a[1]); nz(d); zset(a[0], mkTDiv(x, d)); }; Zf(divexact_ui) { Node *d = ui(a[2]), *x = zg(a[1]); nz(d); zset(a[0], mkTDiv(x, d)); };
  Zf(tdiv_q_2exp) { zset(a[0], mkTDiv(zg(a[1]), mkC(pow2(cc(a[2], 64))))); }; Zf(fdiv_q_2exp) { zset(a[0], mkFDiv(zg(a[1]), mkC(pow2(cc(a[2], 64))))); }; Zf(cdiv_q_2exp) { zset(a[0], cdiv(zg(a[1]), mkC(pow2(cc(a[2], 64))))); }; Zf(fdiv_r_2exp) { zset(a[0], mkFMod(zg(a[1]), mkC(pow2(cc(a[2], 64))))); }; Zf(tdiv_r_2exp) { zset(a[0], mkTRem(zg(a[1]), mkC(pow2(cc(a[2], 64))))); };
  Zf(divisible_p) { Node *x = zg(a[0]), *d = absN(zg(a[1])); if (isC(d) && d->c == 0) { r[0] = I32(mkEQ0(x)); return; } if (d->lo <= 0) { if (branchOn(mkEQ0(d))) { r[0] = I32(mkEQ0(x)); return; } } r[0] = I32(mkEQ0(mkFMod(x, d))); }; Zf(divisible_ui_p) { Node *x = zg(a[0]), *d = ui(a[1]); nz(d); r[0] = I32(mkEQ0(mkFMod(x, d))); }; Zf(divisible_2exp_p) { r[0] = I32(mkEQ0(mkFMod(zg(a[0]), mkC(pow2(cc(a[1], 64)))))); };
  Zf(congruent_p) { Node *d = zg(a[2]); nz(d); r[0] = I32(mkEQ0(mkFMod(mkSub(zg(a[0]), zg(a[1])), d))); };
  Zf(cmp) { r[0] = I32(sgnN(mkSub(zg(a[0]), zg(a[1])))); }; Zf(cmpabs) { r[0] = I32(sgnN(mkSub(absN(zg(a[0])), absN(zg(a[1]))))); }; Zf(cmp_ui) { r[0] = I32(sgnN(mkSub(zg(a[0]), ui(a[1])))); }; Zf(cmp_si) { r[0] = I32(sgnN(mkSub(zg(a[0]), si(a[1])))); }; Zf(cmpabs_ui) { r[0] = I32(sgnN(mkSub(absN(zg(a[0])), ui(a[1])))); };
  tab["symx_mpz_cmp_ui"] = tab["__gmpz_cmp_ui"]; tab["symx_mpz_cmp_si"] = tab["__gmpz_cmp_si"];
  Zs(sgn) { r[0] = I32(sgnN(zg(a[0]))); }; Zs(odd_p) { r[0] = I32(mkFMod(zg(a[0]), mkC(2L))); }; Zs(even_p) { r[0] = I32(mkEQ0(mkFMod(zg(a[0]), mkC(2L)))); };
  Zf(abs) { zset(a[0], absN(zg(a[1]))); }; Zf(neg) { zset(a[0], mkNeg(zg(a[1]))); }; tab["symx_mpz_abs"] = tab["__gmpz_abs"]; tab["symx_mpz_neg"] = tab["__gmpz_neg"];
  Zf(get_ui) { r[0] = nV(mkU(absN(zg(a[0])), 64), 64); }; tab["symx_mpz_get_ui"] = tab["__gmpz_get_ui"]; Zf(get_si) { Node *x = zg(a[0]); r[0] = nV(x, 64); if (x->lo < -pow2(63) || x->hi >= pow2(63)) { if (!isC(x)) { if (!branchOn(mkBAnd(mkLE(mkC(Z(-pow2(63))), x), mkLE(x, mkC(Z(pow2(63) - 1)))))) inconclusive("mpz_get_si overflow"); } } };
  Zf(fits_ulong_p) { Node *x = zg(a[0]); r[0] = I32(mkBAnd(mkLE0(mkNeg(x)), mkLE(x, mkC(Z(pow2(64) - 1))))); }; tab["symx_mpz_fits_ulong_p"] = tab["__gmpz_fits_ulong_p"]; Zf(fits_slong_p) { Node *x = zg(a[0]); r[0] = I32(mkBAnd(mkLE(mkC(Z(-pow2(63))), x), mkLE(x, mkC(Z(pow2(63) - 1))))); };
  Zf(get_d) { Node *x = zg(a[0]); if (!isC(x)) inconclusive("mpz_get_d symbolic"); r[0] = cV(fD(x->c.get_d())); };
  Zf(sizeinbase) { uint64_t b = cc(a[1], 32); Node *x = zg(a[0]); if (b != 2) { if (!isC(x)) inconclusive("sizeinbase"); r[0] = cV(mpz_sizeinbase(x->c.get_mpz_t(), b)); return; } r[0] = nV(bitlen(x), 64); };
  Zf(size) { Node *x = zg(a[0]); Node *bl = bitlen(x); r[0] = nV(mkIte(mkEQ0(x), mkC(0L), mkFDiv(mkAdd(bl, mkC(63L)), mkC(64L))), 64); }; tab["symx_mpz_size"] = tab["__gmpz_size"];
  Zf(scan1) { Node *x = zg(a[0]); uint64_t s = cc(a[1], 64); if (s == 0 && !isC(x)) { if (branchOn(mkEQ0(x))) { r[0] = cV(~0ull); return; } Z m = x->hi > -x->lo ? x->hi : Z(-x->lo); unsigned n = nb(m); Node *t = mkC(0L), *low = mkC(1L); for (unsigned i = 1; i < n; i++) { low = mkEQ0(mkFMod(x, mkC(pow2(i)))); t = mkAdd(t, low); } r[0] = cV(cc(nV(t, 64), 64, "scan1")); return; }
    for (uint64_t i = s; i < 4000; i++) { Node *bit = mkFMod(mkFDiv(x, mkC(pow2(i))), mkC(2L)); if (branchOn(mkBool(bit))) { r[0] = cV(i); return; } if (branchOn(mkEQ0(mkFDiv(x, mkC(pow2(i)))))) { r[0] = cV(~0ull); return; } } inconclusive("scan1"); };
  Zf(tstbit) { r[0] = I32(mkFMod(mkFDiv(zg(a[0]), mkC(pow2(cc(a[1], 64)))), mkC(2L))); };
  Zf(gcd) { zset(a[0], gcdN(zg(a[1]), zg(a[2]))); }; Zf(gcd_ui) { Node *g = gcdN(zg(a[1]), ui(a[2])); if (a[0].n || a[0].c) zset(a[0], g); r[0] = nV(g, 64); };
  Zf(lcm) { Node *x = zg(a[1]), *y = zg(a[2]); if (isC(x) && isC(y)) { zset(a[0], mkC(Z(lcm(x->c, y->c)))); return; } Node *g = gcdN(x, y); if (branchOn(mkEQ0(g))) { zset(a[0], mkC(0L)); return; } zset(a[0], absN(mkMul(mkTDiv(x, g), y))); };
  Zf(invert) { Node *x = zg(a[1]), *m = absN(zg(a[2]));
    if (isC(x) && isC(m)) { Z z; int k = mpz_invert(z.get_mpz_t(), x->c.get_mpz_t(), m->c.get_mpz_t()); if (k) zset(a[0], mkC(z)); r[0] = cV(k); return; }
    if (isC(m) && m->c <= 4096 && m->c > 1) { std::vector<Z> t, g; for (long i = 0; i < m->c.get_si(); i++) { Z z, q = i; int k = mpz_invert(z.get_mpz_t(), q.get_mpz_t(), m->c.get_mpz_t()); t.push_back(k ? z : Z(0)); g.push_back(k ? 1 : 0); } Node *y = mkFMod(x, m); Node *gs = mkSel(g, y); if (!branchOn(mkBool(gs))) { r[0] = cV(0); return; } zset(a[0], mkSel(t, y)); r[0] = cV(1); return; }
    inconclusive("mpz_invert symbolic"); };
  Zf(nextprime) { Node *x = zg(a[1]); if (!isC(x)) inconclusive("nextprime symbolic"); Z z; mpz_nextprime(z.get_mpz_t(), x->c.get_mpz_t()); zset(a[0], mkC(z)); };
  Zf(probab_prime_p) { Node *x = zg(a[0]); if (!isC(x)) inconclusive("probab_prime symbolic"); r[0] = cV(mpz_probab_prime_p(x->c.get_mpz_t(), 25)); };
  auto sqrtf = [](V *a, int n, V *r) { Node *x = zg(a[1]); if (isC(x)) { Z z; mpz_sqrt(z.get_mpz_t(), x->c.get_mpz_t()); zset(a[0], mkC(z)); return; } Z lo, hi; Z l = x->lo < 0 ? Z(0) : x->lo, h = x->hi < 0 ? Z(0) : x->hi; mpz_sqrt(lo.get_mpz_t(), l.get_mpz_t()); mpz_sqrt(hi.get_mpz_t(), h.get_mpz_t()); Node *s = newSym("!sqrt", lo, hi); assumeTrue(mkBAnd(mkLE(mkMul(s, s), x), mkLT(x, mkMul(mkAdd(s, mkC(1L)), mkAdd(s, mkC(1L)))))); zset(a[0], s); };
  tab["__gmpz_sqrt"] = sqrtf;
  Zf(root) { Node *x = zg(a[1]); if (!isC(x)) inconclusive("mpz_root symbolic"); Z z; int k = mpz_root(z.get_mpz_t(), x->c.get_mpz_t(), cc(a[2], 64)); zset(a[0], mkC(z)); r[0] = cV(k); };
  Zf(pow_ui) { Node *x = zg(a[1]); uint64_t e = cc(a[2], 64); Node *p = mkC(1L); while (e--) p = mkMul(p, x); zset(a[0], p); }; Zf(ui_pow_ui) { Z z; mpz_ui_pow_ui(z.get_mpz_t(), cc(a[1], 64), cc(a[2], 64)); zset(a[0], mkC(z)); };
  Zf(out_str) { r[0] = cV(1); };
  Zf(get_str) { Node *x = zg(a[2]); if (!isC(x)) inconclusive("mpz_get_str symbolic"); std::string s = x->c.get_str((int)cc(a[1], 32)); uint64_t p = cc(a[0], 64); if (!p) p = memAlloc(s.size() + 1, "heap"); for (size_t i = 0; i <= s.size(); i++) memStore(p + i, cV((uint8_t)s.c_str()[i]), 1); r[0] = cV(p); };
  // mpq: two consecutive mpz structs
#define Qf(nm) tab["__gmpq_" #nm] = [](V *a, int n, V *r)
#define QN(v) cV(cc(v, 64))
#define QD(v) cV(cc(v, 64) + 16)
  Qf(init) { zinit(QN(a[0]), mkC(0L)); zinit(QD(a[0]), mkC(1L)); }; Qf(clear) { zclear(QN(a[0])); zclear(QD(a[0])); };
  Qf(canonicalize) { Node *p = zg(QN(a[0])), *q = zg(QD(a[0])); nz(q); if (isC(p) && isC(q)) { Z g = gcd(p->c, q->c); if (q->c < 0) g = -g; zset(QN(a[0]), mkC(Z(p->c / g))); zset(QD(a[0]), mkC(Z(q->c / g))); return; } Node *g = gcdN(p, q); if (q->lo < 0) { g = mkIte(mkLE0(mkAdd(q, mkC(1L))), mkNeg(g), g); } zset(QN(a[0]), mkTDiv(p, g)); zset(QD(a[0]), mkTDiv(q, g)); };
  Qf(set_ui) { zset(QN(a[0]), ui(a[1])); zset(QD(a[0]), ui(a[2])); }; Qf(set_si) { zset(QN(a[0]), si(a[1])); zset(QD(a[0]), ui(a[2])); }; Qf(set) { Node *x = zg(QN(a[1])), *y = zg(QD(a[1])); zset(QN(a[0]), x); zset(QD(a[0]), y); };
  (void)isq;
}
