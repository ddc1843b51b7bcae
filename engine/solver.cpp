#include "expr.h"
#include <z3.h>
#include <ctime>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <unordered_map>
#include <algorithm>
static Z3_context C; static Z3_solver S = nullptr; static Z3_solver SI = nullptr;
static std::vector<Node *> PC; static size_t nS = 0, nSI = 0; static bool intBroken = false;
SolverStats *g_ss; bool g_prefer_int = false; double g_query_timeout = 10, g_hard_timeout = 60;
static std::vector<Z3_ast> varBV, varInt;
static std::vector<Node *> sideBV, sideInt;  // var range constraints pending
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static unsigned nb(const Z &z) { return z == 0 ? 0 : mpz_sizeinbase(z.get_mpz_t(), 2); }
static unsigned widthOf(const Z &lo, const Z &hi) { Z l = lo < 0 ? Z(-lo - 1) : Z(0), h = hi < 0 ? Z(0) : hi; return std::max(nb(l), nb(h)) + 1; }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_ast bvc(const Z &v, unsigned w) { Z r; mpz_fdiv_r_2exp(r.get_mpz_t(), v.get_mpz_t(), w); return keep(Z3_mk_numeral(C, r.get_str().c_str(), Z3_mk_bv_sort(C, w))); }
struct BVx { Z3_ast a; unsigned w; };
struct Low { Z3_ast a; unsigned w; };
static std::unordered_map<uint64_t, Z3_ast> truncCache;
static Z3_ast lowBool(Node *n);
static BVx low(Node *n);
static std::vector<Z3_ast> pendBV, pendInt;
static Z3_ast ext(BVx x, unsigned w) { if (x.w == w) return x.a; if (x.w > w) return keep(Z3_mk_extract(C, w - 1, 0, x.a)); return keep(Z3_mk_sign_ext(C, w - x.w, x.a)); }
// value of n modulo 2^w as w-bit vector
static Z3_ast lowT(Node *n, unsigned w) {
  if (isC(n)) return bvc(n->c, w);
  if (n->bv) { Low *l = (Low *)n->bv; if (l->w <= w || (n->op != O_LIN && n->op != O_MUL && n->op != O_ITE)) return ext({l->a, l->w}, w); }
  if (n->b) { return keep(Z3_mk_ite(C, lowBool(n), bvc(1, w), bvc(0, w))); }
  unsigned own = widthOf(n->lo, n->hi);
  if (w >= own || (n->op != O_LIN && n->op != O_MUL && n->op != O_ITE)) { return ext(low(n), w); }
  uint64_t key = ((uint64_t)n->id << 16) | w;
  auto it = truncCache.find(key); if (it != truncCache.end()) return it->second;
  Z3_ast r;
  if (n->op == O_LIN) {
    r = n->c == 0 ? nullptr : bvc(n->c, w);
    for (size_t i = 0; i < n->k.size(); i++) {
      Z3_ast t = lowT(n->k[i], w);
      Z co = n->co[i];
      bool neg = co < 0; Z ab = abs(co);
      if (ab != 1) { if (mpz_popcount(ab.get_mpz_t()) == 1) { unsigned s = nb(ab) - 1; if (s >= w) continue; t = keep(Z3_mk_concat(C, keep(Z3_mk_extract(C, w - 1 - s, 0, t)), bvc(0, s))); } else t = keep(Z3_mk_bvmul(C, bvc(ab, w), t)); }
      if (!r) r = neg ? keep(Z3_mk_bvneg(C, t)) : t; else r = keep(neg ? Z3_mk_bvsub(C, r, t) : Z3_mk_bvadd(C, r, t));
    }
    if (!r) r = bvc(0, w);
  } else if (n->op == O_MUL) r = keep(Z3_mk_bvmul(C, lowT(n->k[0], w), lowT(n->k[1], w)));
  else r = keep(Z3_mk_ite(C, lowBool(n->k[0]), lowT(n->k[1], w), lowT(n->k[2], w)));
  truncCache[key] = r; return r;
}
static Z3_ast freshBV(const char *p, unsigned w) { return keep(Z3_mk_fresh_const(C, p, Z3_mk_bv_sort(C, w))); }
static BVx low(Node *n) {
  if (n->bv) { Low *l = (Low *)n->bv; return {l->a, l->w}; }
  unsigned w = widthOf(n->lo, n->hi); Z3_ast r = nullptr;
  switch (n->op) {
  case O_CONST: r = bvc(n->c, w); break;
  case O_VAR: {
    r = freshBV("v", w);
    if ((int)varBV.size() <= n->aux) varBV.resize(n->aux + 1, nullptr);
    varBV[n->aux] = r;
    pendBV.push_back(keep(Z3_mk_bvsle(C, bvc(n->lo, w), r))); pendBV.push_back(keep(Z3_mk_bvsle(C, r, bvc(n->hi, w))));
    break; }
  case O_LIN: {
    for (size_t i = 0; i < n->k.size(); i++) {
      Z3_ast t = lowT(n->k[i], w); Z co = n->co[i]; bool neg = co < 0; Z ab = abs(co);
      if (ab != 1) { if (mpz_popcount(ab.get_mpz_t()) == 1) { unsigned s = nb(ab) - 1; if (s >= w) continue; t = s ? keep(Z3_mk_concat(C, keep(Z3_mk_extract(C, w - 1 - s, 0, t)), bvc(0, s))) : t; } else t = keep(Z3_mk_bvmul(C, bvc(ab, w), t)); }
      if (!r) r = neg ? keep(Z3_mk_bvneg(C, t)) : t; else r = keep(neg ? Z3_mk_bvsub(C, r, t) : Z3_mk_bvadd(C, r, t));
    }
    if (!r) r = bvc(n->c, w); else if (n->c != 0) r = keep(Z3_mk_bvadd(C, r, bvc(n->c, w)));
    break; }
  case O_MUL: {
    // keep multiplier narrow: multiply at w bits
    r = keep(Z3_mk_bvmul(C, lowT(n->k[0], w), lowT(n->k[1], w)));
    // sound interval lemma
    if (w > 12) { pendBV.push_back(keep(Z3_mk_bvsle(C, bvc(n->lo, w), r))); pendBV.push_back(keep(Z3_mk_bvsle(C, r, bvc(n->hi, w)))); }
    break; }
  case O_FMOD: case O_FDIV: {
    Node *a = n->k[0], *b = n->k[1];
    if (isC(b) && b->c > 0 && mpz_popcount(b->c.get_mpz_t()) == 1) {
      unsigned s = nb(b->c) - 1;
      if (n->op == O_FMOD) { Z3_ast t = lowT(a, s); r = ext({keep(Z3_mk_zero_ext(C, 1, t)), s + 1}, w); }
      else { BVx x = low(a); if (s >= x.w) s = x.w - 1; Z3_ast t = keep(Z3_mk_extract(C, x.w - 1, s, x.a)); r = ext({t, x.w - s}, w); }
      break;
    }
    if (isC(b) && b->c > 0) {
      Node *a2 = a; Z K = 0;
      if (a->lo < 0) { Z q; mpz_fdiv_q(q.get_mpz_t(), a->lo.get_mpz_t(), b->c.get_mpz_t()); K = -q; }
      Z hi2 = a->hi + K * b->c; unsigned ww = std::max(nb(hi2), nb(b->c)) ; if (ww == 0) ww = 1;
      Z3_ast x = lowT(a2, ww); if (K != 0) x = keep(Z3_mk_bvadd(C, x, bvc(K * b->c, ww)));
      if (n->op == O_FMOD) { Z3_ast t = keep(Z3_mk_bvurem(C, x, bvc(b->c, ww))); r = ext({keep(Z3_mk_zero_ext(C, 1, t)), ww + 1}, w); }
      else { Z3_ast t = keep(Z3_mk_bvudiv(C, x, bvc(b->c, ww))); BVx y{keep(Z3_mk_zero_ext(C, 1, t)), ww + 1}; unsigned w3 = std::max(w, ww + 2); Z3_ast z = ext(y, w3); if (K != 0) z = keep(Z3_mk_bvsub(C, z, bvc(K, w3))); r = ext({z, w3}, w); }
      break;
    }
    if (a->lo >= 0 && b->lo >= 0) {
      unsigned ww = std::max(nb(a->hi), nb(b->hi)); if (!ww) ww = 1; Z3_ast x = lowT(a, ww), y = lowT(b, ww);
      Z3_ast t = keep(n->op == O_FMOD ? Z3_mk_bvurem(C, x, y) : Z3_mk_bvudiv(C, x, y)); r = ext({keep(Z3_mk_zero_ext(C, 1, t)), ww + 1}, w); break;
    }
    unsigned ww = std::max(widthOf(a->lo, a->hi), widthOf(b->lo, b->hi)) + 1;
    Z3_ast x = lowT(a, ww), y = lowT(b, ww);
    if (n->op == O_FMOD) r = ext({keep(Z3_mk_bvsmod(C, x, y)), ww}, w);
    else { Z3_ast m = keep(Z3_mk_bvsmod(C, x, y)); r = ext({keep(Z3_mk_bvsdiv(C, keep(Z3_mk_bvsub(C, x, m)), y)), ww}, w); }
    break; }
  case O_TDIV: case O_TREM: {
    Node *a = n->k[0], *b = n->k[1]; unsigned ww = std::max(widthOf(a->lo, a->hi), widthOf(b->lo, b->hi)) + 1;
    Z3_ast x = lowT(a, ww), y = lowT(b, ww); r = ext({keep(n->op == O_TDIV ? Z3_mk_bvsdiv(C, x, y) : Z3_mk_bvsrem(C, x, y)), ww}, w); break; }
  case O_AND: case O_OR: case O_XOR: {
    unsigned ww = std::max(widthOf(n->k[0]->lo, n->k[0]->hi), widthOf(n->k[1]->lo, n->k[1]->hi));
    Z3_ast x = lowT(n->k[0], ww), y = lowT(n->k[1], ww);
    r = ext({keep(n->op == O_AND ? Z3_mk_bvand(C, x, y) : n->op == O_OR ? Z3_mk_bvor(C, x, y) : Z3_mk_bvxor(C, x, y)), ww}, w); break; }
  case O_SHL: { Z3_ast x = lowT(n->k[0], w), y = lowT(n->k[1], w); r = keep(Z3_mk_bvshl(C, x, y)); break; }
  case O_SHR: { unsigned ww = std::max(widthOf(n->k[0]->lo, n->k[0]->hi), widthOf(n->k[1]->lo, n->k[1]->hi)); Z3_ast x = lowT(n->k[0], ww), y = lowT(n->k[1], ww); r = ext({keep(Z3_mk_bvashr(C, x, y)), ww}, w); break; }
  case O_ITE: r = keep(Z3_mk_ite(C, lowBool(n->k[0]), lowT(n->k[1], w), lowT(n->k[2], w))); break;
  case O_SWRAP: r = ext({lowT(n->k[0], n->aux), (unsigned)n->aux}, w); break;
  case O_SEL: {
    auto &t = selTable(n->aux); Node *x = n->k[0]; long l = std::max(0L, x->lo.get_si()), h = std::min((long)t.size() - 1, x->hi.get_si());
    unsigned ww = widthOf(x->lo, x->hi); Z3_ast ix = lowT(x, ww);
    // binary decision tree over index bits
    struct R { static Z3_ast go(const std::vector<Z> &t, Z3_ast ix, unsigned ww, long l, long h, unsigned w) {
      bool same = true; for (long i = l + 1; i <= h; i++) if (t[i] != t[l]) { same = false; break; }
      if (same) return bvc(t[l], w); long m = (l + h) / 2;
      Z3_ast c = keep(Z3_mk_bvsle(C, ix, bvc(m, ww))); return keep(Z3_mk_ite(C, c, go(t, ix, ww, l, m, w), go(t, ix, ww, m + 1, h, w))); } };
    r = R::go(t, ix, ww, l, h, w); break; }
  case O_INV: {
    Node *a = n->k[0]; Z p = n->k[1]->c; unsigned wp = nb(p); 
    if (p <= 700) { std::vector<Z> t; for (long i = 0; i < p.get_si(); i++) { Z z, q = i; if (i) mpz_invert(z.get_mpz_t(), q.get_mpz_t(), p.get_mpz_t()); t.push_back(z); } unsigned ww = wp + 1; Z3_ast ix = lowT(a, ww);
      struct R { static Z3_ast go(const std::vector<Z> &t, Z3_ast ix, unsigned ww, long l, long h, unsigned w) { if (l == h) return bvc(t[l], w); long m = (l + h) / 2; Z3_ast c = keep(Z3_mk_bvsle(C, ix, bvc(m, ww))); return keep(Z3_mk_ite(C, c, go(t, ix, ww, l, m, w), go(t, ix, ww, m + 1, h, w))); } };
      r = R::go(t, ix, ww, 0, p.get_si() - 1, w); break; }
    Z3_ast x = freshBV("inv", wp + 1); unsigned ww = 2 * wp + 1; Z3_ast A = lowT(a, ww), X = keep(Z3_mk_zero_ext(C, ww - wp - 1, x));
    pendBV.push_back(keep(Z3_mk_bvult(C, x, bvc(p, wp + 1))));
    Z3_ast az = keep(Z3_mk_eq(C, A, bvc(0, ww))); Z3_ast pr = keep(Z3_mk_bvurem(C, keep(Z3_mk_bvmul(C, A, X)), bvc(p, ww)));
    pendBV.push_back(keep(Z3_mk_eq(C, pr, keep(Z3_mk_ite(C, az, bvc(0, ww), bvc(1, ww)))))); Z3_ast o2[2] = {keep(Z3_mk_not(C, az)), keep(Z3_mk_eq(C, x, bvc(0, wp + 1)))}; pendBV.push_back(keep(Z3_mk_or(C, 2, o2)));
    r = ext({x, wp + 1}, w); break; }
  case O_GCD: {
    Node *a = n->k[0], *b = n->k[1]; Z ma = std::max(Z(abs(a->lo)), Z(abs(a->hi))), mb = std::max(Z(abs(b->lo)), Z(abs(b->hi)));
    Z m = std::max(ma, mb); unsigned wm = nb(m) + 2, ww = 2 * wm + 2;
    Z3_ast g = freshBV("g", wm), qa = freshBV("qa", wm), qb = freshBV("qb", wm), s = freshBV("s", wm), t = freshBV("t", wm);
    auto E = [&](Z3_ast x) { return keep(Z3_mk_sign_ext(C, ww - wm, x)); };
    Z3_ast A = lowT(a, ww), B = lowT(b, ww); Z3_ast zero = bvc(0, wm);
    pendBV.push_back(keep(Z3_mk_bvsge(C, g, zero)));
    pendBV.push_back(keep(Z3_mk_eq(C, A, keep(Z3_mk_bvmul(C, E(g), E(qa))))));
    pendBV.push_back(keep(Z3_mk_eq(C, B, keep(Z3_mk_bvmul(C, E(g), E(qb))))));
    for (Z3_ast x : {qa, qb, s, t, g}) { pendBV.push_back(keep(Z3_mk_bvsle(C, x, bvc(m + 1, wm)))); pendBV.push_back(keep(Z3_mk_bvsge(C, x, bvc(-m - 1, wm)))); }
    // g == 0 (a=b=0) or bezout
    Z3_ast bz = keep(Z3_mk_eq(C, keep(Z3_mk_bvadd(C, keep(Z3_mk_bvmul(C, E(s), E(qa))), keep(Z3_mk_bvmul(C, E(t), E(qb))))), bvc(1, ww)));
    Z3_ast gz = keep(Z3_mk_eq(C, g, zero)); Z3_ast o[2] = {gz, bz}; pendBV.push_back(keep(Z3_mk_or(C, 2, o)));
    r = ext({g, wm}, w); break; }
  default:
    if (n->b) { r = keep(Z3_mk_ite(C, lowBool(n), bvc(1, w), bvc(0, w))); break; }
    abort();
  }
  n->bv = new Low{r, w}; return {r, w};
}
static std::unordered_map<Node *, Z3_ast> boolBV, boolInt;
static Z3_ast lowBool(Node *n) {
  if (isC(n)) return keep(n->c != 0 ? Z3_mk_true(C) : Z3_mk_false(C));
  auto it = boolBV.find(n); if (it != boolBV.end()) return it->second;
  Z3_ast r;
  switch (n->op) {
  case O_NOT: r = keep(Z3_mk_not(C, lowBool(n->k[0]))); break;
  case O_BAND: { Z3_ast o[2] = {lowBool(n->k[0]), lowBool(n->k[1])}; r = keep(Z3_mk_and(C, 2, o)); break; }
  case O_BOR: { Z3_ast o[2] = {lowBool(n->k[0]), lowBool(n->k[1])}; r = keep(Z3_mk_or(C, 2, o)); break; }
  case O_LE0: case O_EQ0: {
    Node *a = n->k[0];
    // split into positive and negative sides
    std::vector<std::pair<Node *, Z>> P, N; Z cp = 0, cn = 0;
    if (a->op == O_LIN) { for (size_t i = 0; i < a->k.size(); i++) if (a->co[i] > 0) P.push_back({a->k[i], a->co[i]}); else N.push_back({a->k[i], -a->co[i]}); if (a->c > 0) cp = a->c; else cn = -a->c; }
    else P.push_back({a, 1});
    auto rng = [](std::vector<std::pair<Node *, Z>> &v, Z c, Z &lo, Z &hi) { lo = hi = c; for (auto &p : v) { lo += p.second * p.first->lo; hi += p.second * p.first->hi; } };
    Z l1, h1, l2, h2; rng(P, cp, l1, h1); rng(N, cn, l2, h2);
    unsigned w = std::max(widthOf(l1, h1), widthOf(l2, h2));
    auto build = [&](std::vector<std::pair<Node *, Z>> &v, Z c) { Z3_ast s = (c != 0 || v.empty()) ? bvc(c, w) : nullptr; for (auto &p : v) { Z3_ast t = lowT(p.first, w); if (p.second != 1) t = keep(Z3_mk_bvmul(C, bvc(p.second, w), t)); s = s ? keep(Z3_mk_bvadd(C, s, t)) : t; } return s; };
    Z3_ast x = build(P, cp), y = build(N, cn);
    r = keep(n->op == O_LE0 ? Z3_mk_bvsle(C, x, y) : Z3_mk_eq(C, x, y)); break; }
  default: abort();
  }
  boolBV[n] = r; return r;
}
// ---- Int lowering
struct Unsup {};
static Z3_ast ic(const Z &v) { return keep(Z3_mk_numeral(C, v.get_str().c_str(), Z3_mk_int_sort(C))); }
static Z3_ast ilowBool(Node *n);
static bool g_unsup = false;
static Z3_ast ilow(Node *n) {
  if (n->iv) return (Z3_ast)n->iv;
  Z3_ast r = nullptr;
  switch (n->op) {
  case O_CONST: r = ic(n->c); break;
  case O_VAR: r = keep(Z3_mk_fresh_const(C, "i", Z3_mk_int_sort(C))); if ((int)varInt.size() <= n->aux) varInt.resize(n->aux + 1, nullptr); varInt[n->aux] = r;
    pendInt.push_back(keep(Z3_mk_le(C, ic(n->lo), r))); pendInt.push_back(keep(Z3_mk_le(C, r, ic(n->hi)))); break;
  case O_LIN: { std::vector<Z3_ast> v; if (n->c != 0) v.push_back(ic(n->c)); for (size_t i = 0; i < n->k.size(); i++) { Z3_ast t = ilow(n->k[i]); if (n->co[i] != 1) { Z3_ast o[2] = {ic(n->co[i]), t}; t = keep(Z3_mk_mul(C, 2, o)); } v.push_back(t); } r = v.size() == 1 ? v[0] : keep(Z3_mk_add(C, v.size(), v.data())); break; }
  case O_MUL: { Z3_ast o[2] = {ilow(n->k[0]), ilow(n->k[1])}; Z3_ast p = keep(Z3_mk_mul(C, 2, o)); r = keep(Z3_mk_fresh_const(C, "m", Z3_mk_int_sort(C))); pendInt.push_back(keep(Z3_mk_eq(C, r, p))); pendInt.push_back(keep(Z3_mk_le(C, ic(n->lo), r))); pendInt.push_back(keep(Z3_mk_le(C, r, ic(n->hi)))); break; }
  case O_FMOD: case O_FDIV: {
    Node *a = n->k[0], *b = n->k[1]; Z3_ast A = ilow(a), B = ilow(b);
    if (isC(b) && b->c > 0) { // q, r encoding
      Z3_ast q = keep(Z3_mk_fresh_const(C, "q", Z3_mk_int_sort(C))), m = keep(Z3_mk_fresh_const(C, "r", Z3_mk_int_sort(C)));
      Z3_ast o[2] = {B, q}; Z3_ast s[2] = {keep(Z3_mk_mul(C, 2, o)), m}; pendInt.push_back(keep(Z3_mk_eq(C, A, keep(Z3_mk_add(C, 2, s)))));
      pendInt.push_back(keep(Z3_mk_le(C, ic(0), m))); pendInt.push_back(keep(Z3_mk_lt(C, m, B))); r = n->op == O_FMOD ? m : q; break; }
    if (b->lo > 0) { r = keep(n->op == O_FMOD ? Z3_mk_mod(C, A, B) : Z3_mk_div(C, A, B)); break; }
    g_unsup = true; r = A; break; }
  case O_ITE: r = keep(Z3_mk_ite(C, ilowBool(n->k[0]), ilow(n->k[1]), ilow(n->k[2]))); break;
  case O_SWRAP: { Z h = pow2(n->aux - 1); Node *t = mkSub(mkFMod(mkAdd(n->k[0], mkC(h)), mkC(pow2(n->aux))), mkC(h)); if (t == n) { g_unsup = true; r = ic(0); } else r = ilow(t); break; }
  case O_TDIV: case O_TREM: { Node *a = n->k[0], *b = n->k[1]; if (isC(b) && b->c > 0) { // trunc via ite
      Node *q = mkIte(mkLE0(mkNeg(a)), mkFDiv(a, b), mkNeg(mkFDiv(mkNeg(a), b))); r = ilow(n->op == O_TDIV ? q : mkSub(a, mkMul(q, b))); break; } g_unsup = true; r = ic(0); break; }
  case O_SEL: { auto &t = selTable(n->aux); Node *x = n->k[0]; long l = std::max(0L, x->lo.get_si()), h = std::min((long)t.size() - 1, x->hi.get_si()); if (h - l > 300) { g_unsup = true; r = ic(0); break; } Z3_ast ix = ilow(x); r = ic(t[h]); for (long i = h - 1; i >= l; i--) r = keep(Z3_mk_ite(C, keep(Z3_mk_le(C, ix, ic(i))), ic(t[i]), r)); break; }
  default: if (n->b) { r = keep(Z3_mk_ite(C, ilowBool(n), ic(1), ic(0))); break; } g_unsup = true; r = ic(0); break;
  }
  n->iv = r; return r;
}
static Z3_ast ilowBool(Node *n) {
  if (isC(n)) return keep(n->c != 0 ? Z3_mk_true(C) : Z3_mk_false(C));
  auto it = boolInt.find(n); if (it != boolInt.end()) return it->second;
  Z3_ast r;
  switch (n->op) {
  case O_NOT: r = keep(Z3_mk_not(C, ilowBool(n->k[0]))); break;
  case O_BAND: { Z3_ast o[2] = {ilowBool(n->k[0]), ilowBool(n->k[1])}; r = keep(Z3_mk_and(C, 2, o)); break; }
  case O_BOR: { Z3_ast o[2] = {ilowBool(n->k[0]), ilowBool(n->k[1])}; r = keep(Z3_mk_or(C, 2, o)); break; }
  case O_LE0: r = keep(Z3_mk_le(C, ilow(n->k[0]), ic(0))); break;
  case O_EQ0: r = keep(Z3_mk_eq(C, ilow(n->k[0]), ic(0))); break;
  default: abort();
  }
  boolInt[n] = r; return r;
}
void solverInit() {
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context_rc(cfg); Z3_set_error_handler(C, errh);
  S = nullptr;
}
static Z3_solver mkS_() { Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, s); return s; }
static void setTO(Z3_solver s, double t) { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), (unsigned)(t * 1000)); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p); }
static void flushPend(Z3_solver s, std::vector<Z3_ast> &v, size_t from) { for (size_t i = from; i < v.size(); i++) Z3_solver_assert(C, s, v[i]); }
static size_t pendDoneBV = 0, pendDoneInt = 0;
// refinement safety: lower condition before refining intervals
void solverAssert(Node *c) { if (isC(c)) return; PC.push_back(c); if (!g_prefer_int) lowBool(c); refineTrue(c); }
static void getModel(Z3_solver s, Model *m, bool isInt) {
  Z3_model mo = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, mo);
  m->assign(g_vars.size(), Z(0));
  for (size_t i = 0; i < g_vars.size(); i++) {
    Z3_ast v = isInt ? (i < varInt.size() ? varInt[i] : nullptr) : (i < varBV.size() ? varBV[i] : nullptr);
    if (!v) { (*m)[i] = g_vars[i].n->lo; continue; }
    Z3_ast val = nullptr; Z3_model_eval(C, mo, v, true, &val); Z3_inc_ref(C, val);
    Z z(Z3_get_numeral_string(C, val));
    if (!isInt) { unsigned w = Z3_get_bv_sort_size(C, Z3_get_sort(C, v)); if (z >= pow2(w - 1)) z -= pow2(w); }
    (*m)[i] = z;
  }
  Z3_model_dec_ref(C, mo);
}
static bool validModel(Model *m, Node *cond) {
  uint32_t ep = newEpoch();
  if (!inRange(*m)) { fprintf(stderr, "ENGINE BUG: model out of range\n"); return false; }
  for (auto c : PC) if (evalNode(c, *m, ep) == 0) return false;
  return evalNode(cond, *m, ep) != 0;
}
static SRes tryInt(Node *cond, Model *m, double to) {
  g_unsup = false; if (intBroken) return S_UNK;
  if (!SI) { SI = Z3_mk_solver(C); Z3_solver_inc_ref(C, SI); }
  for (; nSI < PC.size(); nSI++) { Z3_ast a = ilowBool(PC[nSI]); flushPend(SI, pendInt, pendDoneInt); pendDoneInt = pendInt.size(); Z3_solver_assert(C, SI, a); }
  Z3_ast a = ilowBool(cond); flushPend(SI, pendInt, pendDoneInt); pendDoneInt = pendInt.size();
  if (g_unsup) { intBroken = true; return S_UNK; }
  g_ss->intq++;
  setTO(SI, to); Z3_solver_push(C, SI); Z3_solver_assert(C, SI, a); Z3_lbool r = Z3_solver_check(C, SI);
  SRes res = r == Z3_L_TRUE ? S_SAT : r == Z3_L_FALSE ? S_UNSAT : S_UNK;
  if (res == S_SAT && m) { getModel(SI, m, true); if (!validModel(m, cond)) { fprintf(stderr, "warn: invalid int model\n"); res = S_UNK; } }
  Z3_solver_pop(C, SI, 1); return res;
}
static SRes tryBV(Node *cond, Model *m, double to) {
  if (!S) S = mkS_();
  for (; nS < PC.size(); nS++) { Z3_ast a = lowBool(PC[nS]); flushPend(S, pendBV, pendDoneBV); pendDoneBV = pendBV.size(); Z3_solver_assert(C, S, a); }
  Z3_ast a = lowBool(cond); flushPend(S, pendBV, pendDoneBV); pendDoneBV = pendBV.size();
  setTO(S, to); Z3_solver_push(C, S); Z3_solver_assert(C, S, a); Z3_lbool r = Z3_solver_check(C, S);
  SRes res = r == Z3_L_TRUE ? S_SAT : r == Z3_L_FALSE ? S_UNSAT : S_UNK;
  if (res == S_SAT && m) { getModel(S, m, false); if (!validModel(m, cond)) { fprintf(stderr, "ENGINE BUG: invalid bv model for %s\n", nodeStr(cond, 6).c_str()); res = S_UNK; } }
  Z3_solver_pop(C, S, 1); return res;
}
static SRes tryFresh(Node *cond, Model *m, double to) {
  Z3_solver s = mkS_();
  for (auto c : PC) Z3_solver_assert(C, s, lowBool(c));
  Z3_ast a = lowBool(cond); flushPend(s, pendBV, 0); Z3_solver_assert(C, s, a); setTO(s, to);
  Z3_lbool r = Z3_solver_check(C, s); SRes res = r == Z3_L_TRUE ? S_SAT : r == Z3_L_FALSE ? S_UNSAT : S_UNK;
  if (res == S_SAT && m) { getModel(s, m, false); if (!validModel(m, cond)) res = S_UNK; }
  Z3_solver_dec_ref(C, s); return res;
}
SRes solverCheck(Node *cond, Model *m, double to, bool quick) {
  if (isC(cond) && cond->c == 0) return S_UNSAT;
  double t0 = now(); SRes r;
  if (g_prefer_int) { r = tryInt(cond, m, to); if (r == S_UNK) r = tryBV(cond, m, to); }
  else {
    r = tryBV(cond, m, to);
    if (quick && r == S_UNK) {} else {
    if (r == S_UNK) r = tryInt(cond, m, to);
    if (r == S_UNK) r = tryFresh(cond, m, g_hard_timeout); }
  }
  double dt = now() - t0;
  __sync_fetch_and_add(&g_ss->queries, 1);
  __sync_fetch_and_add(r == S_SAT ? &g_ss->sat : r == S_UNSAT ? &g_ss->unsat : &g_ss->unk, 1);
  // time accumulated in microseconds through integer atomics to stay race free
  uint64_t *tm = (uint64_t *)&g_ss->time; __sync_fetch_and_add(tm, (uint64_t)(dt * 1e6));
  uint64_t *mx = (uint64_t *)&g_ss->maxtime; uint64_t us = dt * 1e6; if (us > *mx) *mx = us;
  if (getenv("SYMX_SLOW") && dt > atof(getenv("SYMX_SLOW"))) fprintf(stderr, "slow query %.2fs res=%d: %s\n", dt, r, nodeStr(cond, getenv("SYMX_DEPTH") ? atoi(getenv("SYMX_DEPTH")) : 5).c_str());
  return r;
}
const std::vector<Node *> &solverPC() { return PC; }
void solverDump(const char *fn, Node *cond) {
  FILE *f = fopen(fn, "w"); if (!f) return; Z3_solver s = mkS_();
  for (auto c : PC) Z3_solver_assert(C, s, lowBool(c)); Z3_ast a = lowBool(cond); flushPend(s, pendBV, 0); Z3_solver_assert(C, s, a);
  fprintf(f, "%s\n(check-sat)\n", Z3_solver_to_string(C, s)); fclose(f); Z3_solver_dec_ref(C, s);
}
