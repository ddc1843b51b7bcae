#include "field.h"
#include <map>
#include <unordered_map>
#include <algorithm>
#include <cstdlib>
#include <cstdio>
Z g_fieldP = 0;
typedef std::vector<std::pair<uint32_t, uint16_t>> Mono; // (atom id, exponent) sorted
typedef unsigned __int128 u128;
struct MLess { bool operator()(const Mono &a, const Mono &b) const { // lexicographic, larger monomials first
  size_t i = 0; for (; i < a.size() && i < b.size(); i++) { if (a[i].first != b[i].first) return a[i].first < b[i].first; if (a[i].second != b[i].second) return a[i].second > b[i].second; } return a.size() > b.size(); } };
typedef std::map<Mono, uint64_t, MLess> FP; // leading monomial first
static uint64_t P() { return mpz_get_ui(g_fieldP.get_mpz_t()); }
static uint64_t mulm(uint64_t a, uint64_t b) { return (u128)a * b % P(); }
static uint64_t powm(uint64_t a, uint64_t e) { uint64_t r = 1; while (e) { if (e & 1) r = mulm(r, a); a = mulm(a, a); e >>= 1; } return r; }
static uint64_t zmod(const Z &z) { Z r; mpz_fdiv_r(r.get_mpz_t(), z.get_mpz_t(), g_fieldP.get_mpz_t()); return mpz_get_ui(r.get_mpz_t()); }
static std::unordered_map<uint32_t, Node *> atoms;
static const size_t CAP = 600; static bool over;
static Mono mmul(const Mono &a, const Mono &b) { Mono r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first, (uint16_t)(a[i].second + b[j].second)}); i++; j++; } } return r; }
static bool mdiv(const Mono &a, const Mono &b, Mono &q) { // a / b
  q.clear(); size_t i = 0; for (auto &y : b) { while (i < a.size() && a[i].first < y.first) q.push_back(a[i++]); if (i >= a.size() || a[i].first != y.first || a[i].second < y.second) return false; if (a[i].second > y.second) q.push_back({y.first, (uint16_t)(a[i].second - y.second)}); i++; } while (i < a.size()) q.push_back(a[i++]); return true; }
static void fadd(FP &a, const Mono &m, uint64_t c) { if (!c) return; auto it = a.find(m); if (it == a.end()) { a[m] = c; return; } it->second = (it->second + c) % P(); if (!it->second) a.erase(it); }
static FP fmul(const FP &a, const FP &b) { FP r; if (a.size() * b.size() > 40 * CAP) { over = true; return r; } for (auto &x : a) for (auto &y : b) fadd(r, mmul(x.first, y.first), mulm(x.second, y.second)); if (r.size() > CAP) over = true; return r; }
static void faxpy(FP &a, const FP &b, uint64_t c) { for (auto &y : b) fadd(a, y.first, mulm(y.second, c)); if (a.size() > CAP) over = true; }
static bool fdivx(const FP &a, const FP &b, FP &q) { // exact division
  q.clear(); FP r = a; int guard = 0; uint64_t il = powm(b.begin()->second, P() - 2);
  while (!r.empty()) { Mono m; if (!mdiv(r.begin()->first, b.begin()->first, m)) return false; uint64_t c = mulm(r.begin()->second, il); fadd(q, m, c); FP t; for (auto &y : b) t[mmul(m, y.first)] = y.second; for (auto &y : t) fadd(r, y.first, P() - mulm(y.second, c) == P() ? 0 : P() - mulm(y.second, c)); if (++guard > 300) return false; }
  return true; }
static uint64_t fmonic(FP &a) { if (a.empty()) return 0; uint64_t l = a.begin()->second; if (l == 1) return 1; uint64_t il = powm(l, P() - 2); for (auto &x : a) x.second = mulm(x.second, il); return l; }
static std::map<FP, int> polyIds; static std::vector<FP> polys; // interned monic polynomials
static int internP(const FP &a) { auto it = polyIds.find(a); if (it != polyIds.end()) return it->second; polys.push_back(a); polyIds[a] = polys.size() - 1; return polys.size() - 1; }
struct Rat { FP n; std::map<int, int> d; };
static std::unordered_map<Node *, Rat> memo;
static FP fone(uint64_t c = 1) { FP r; if (c) r[Mono()] = c; return r; }
static FP prodD(const std::map<int, int> &d) { FP r = fone(); for (auto &x : d) for (int i = 0; i < x.second && !over; i++) r = fmul(r, polys[x.first]); return r; }
static void cancel(Rat &r) { if (r.n.empty()) { r.d.clear(); return; } for (auto it = r.d.begin(); it != r.d.end();) { FP q; while (it->second > 0 && fdivx(r.n, polys[it->first], q)) { r.n = q; it->second--; } if (it->second == 0) it = r.d.erase(it); else ++it; } }
static std::vector<int> nonzero; static std::vector<FP> zeros; // path knowledge (monic)
static FP atomP(Node *n) { atoms[n->id] = n; FP r; r[Mono{{n->id, 1}}] = 1; return r; }
static bool divP(const Z &m) { return mpz_divisible_p(m.get_mpz_t(), g_fieldP.get_mpz_t()); }
// split off known nonzero factors and nonzero single variables; returns monic core
static void stripUnits(FP &a) {
  // monomial content
  if (a.empty()) return; Mono g = a.begin()->first; for (auto &x : a) { Mono h; for (auto &y : g) for (auto &z : x.first) if (z.first == y.first) h.push_back({y.first, std::min(y.second, z.second)}); g = h; if (g.empty()) break; }
  Mono drop; for (auto &y : g) { Node *v = atoms[y.first]; bool nzr = (v->lo > 0 && v->hi < g_fieldP); if (!nzr) { FP vp; vp[Mono{{y.first, 1}}] = 1; auto it = polyIds.find(vp); if (it != polyIds.end() && std::find(nonzero.begin(), nonzero.end(), it->second) != nonzero.end()) nzr = true; } if (nzr) drop.push_back(y); }
  if (!drop.empty()) { FP b; for (auto &x : a) { Mono q; mdiv(x.first, drop, q); b[q] = x.second; } a.swap(b); }
  for (int id : nonzero) { FP q; const FP &f = polys[id]; if (f.size() == 1 && f.begin()->first.empty()) continue; while (a.size() > 1 || !a.begin()->first.empty()) { if (!fdivx(a, f, q)) break; a = q; } }
  fmonic(a);
}
static void reduceZeros(FP &a) { // multivariate division by the known zeros
  if (zeros.empty()) return; FP out; int guard = 0;
  while (!a.empty()) { bool hit = false; for (auto &z : zeros) { Mono q; if (mdiv(a.begin()->first, z.begin()->first, q)) { uint64_t c = P() - a.begin()->second; FP t; for (auto &y : z) t[mmul(q, y.first)] = y.second; faxpy(a, t, c); hit = true; break; } } if (!hit) { out[a.begin()->first] = a.begin()->second; a.erase(a.begin()); } if (++guard > 2000 || over) { over = true; return; } }
  a.swap(out);
}
static const Rat *ratOf(Node *n, int depth) {
  auto it = memo.find(n); if (it != memo.end()) return &it->second; if (depth > 3000) { over = true; return nullptr; }
  Rat r;
  auto addR = [&](Rat &x, const Rat &y, uint64_t c) {
    if (y.n.empty() || !c) return; if (x.d == y.d) { faxpy(x.n, y.n, c); }
    else { std::map<int, int> l = x.d; for (auto &e : y.d) l[e.first] = std::max(l.count(e.first) ? l[e.first] : 0, e.second); std::map<int, int> ex, ey; for (auto &e : l) { int a = e.second - (x.d.count(e.first) ? x.d.at(e.first) : 0), b = e.second - (y.d.count(e.first) ? y.d.at(e.first) : 0); if (a) ex[e.first] = a; if (b) ey[e.first] = b; } FP p = fmul(x.n, prodD(ex)), q = fmul(y.n, prodD(ey)); faxpy(p, q, c); x.n = p; x.d = l; }
    cancel(x); };
  switch (n->op) {
  case O_CONST: r.n = fone(zmod(n->c)); break;
  case O_VAR: r.n = atomP(n); break;
  case O_LIN: { r.n = fone(zmod(n->c)); for (size_t i = 0; i < n->k.size(); i++) { uint64_t c = zmod(n->co[i]); if (!c) continue; const Rat *k = ratOf(n->k[i], depth + 1); if (!k || over) return nullptr; addR(r, *k, c); if (over) return nullptr; } break; }
  case O_MUL: { const Rat *a = ratOf(n->k[0], depth + 1); if (!a) return nullptr; Rat A = *a; const Rat *b = ratOf(n->k[1], depth + 1); if (!b) return nullptr; r.n = fmul(A.n, b->n); r.d = A.d; for (auto &e : b->d) r.d[e.first] += e.second; cancel(r); break; }
  case O_FMOD: case O_TREM: if (isC(n->k[1]) && divP(n->k[1]->c)) { const Rat *a = ratOf(n->k[0], depth + 1); if (!a) return nullptr; r = *a; } else r.n = atomP(n); break;
  case O_INV: if (isC(n->k[1]) && n->k[1]->c == g_fieldP) { const Rat *a = ratOf(n->k[0], depth + 1); if (!a) return nullptr; if (a->n.empty()) { r.n = atomP(n); break; } FP m = a->n; uint64_t lc = fmonic(m); r.n = prodD(a->d); if (over) return nullptr; uint64_t ic = powm(lc, P() - 2); for (auto &x : r.n) x.second = mulm(x.second, ic);
      // denominator: split into known factors
      std::map<int, int> d; for (int id : nonzero) { FP q; const FP &f = polys[id]; if (f.size() == 1 && f.begin()->first.empty()) continue; while ((m.size() > 1 || !m.begin()->first.empty()) && fdivx(m, f, q)) { m = q; d[id]++; } } if (m.size() > 1 || !m.begin()->first.empty()) { if (m.size() == 1) { for (auto &y : m.begin()->first) { FP v; v[Mono{{y.first, 1}}] = 1; d[internP(v)] += y.second; } } else d[internP(m)]++; } r.d = d; cancel(r); } else r.n = atomP(n); break;
  case O_ITE: { const Rat *a = ratOf(n->k[1], depth + 1); if (!a) return nullptr; Rat A = *a; const Rat *b = ratOf(n->k[2], depth + 1); if (!b) return nullptr; Rat D = A; addR(D, *b, P() - 1); if (D.n.empty()) r = A; else r.n = atomP(n); break; }
  default: r.n = atomP(n); break;
  }
  if (over) return nullptr; return &(memo[n] = r);
}
static Node *polyNode(const FP &a) { Node *s = mkC(0L); for (auto &x : a) { Node *m = nullptr; for (auto &y : x.first) for (int i = 0; i < y.second; i++) { Node *v = atoms[y.first]; m = m ? mkMul(m, v) : v; } uint64_t c = x.second; Z zc; mpz_set_ui(zc.get_mpz_t(), c); if (2 * zc > g_fieldP) zc -= g_fieldP; s = mkAdd(s, m ? mkMul(m, mkC(zc)) : mkC(zc)); } return s; }
static bool fieldValued(Node *e) { // e == 0 decided modulo p
  auto inF = [](Node *n) { return (n->op == O_FMOD || n->op == O_INV) && isC(n->k[1]) && n->k[1]->c == g_fieldP; };
  if (inF(e)) return true;
  if (e->op == O_LIN && e->lo > -g_fieldP && e->hi < g_fieldP) return true; // any value strictly within (-p,p): zero iff zero mod p
  if (e->lo > -g_fieldP && e->hi < g_fieldP) return true;
  if (e->op == O_FMOD && isC(e->k[1]) && e->k[1]->c % g_fieldP == 0) return false;
  return false;
}
static std::vector<uint64_t> uroots(std::vector<uint64_t> f);
Node *fieldNorm(Node *c) {
  if (g_fieldP == 0 || isC(c)) return c;
  if (c->op == O_NOT) { Node *x = fieldNorm(c->k[0]); return x == c->k[0] ? c : mkNot(x); }
  if (c->op == O_BAND) { Node *a = fieldNorm(c->k[0]), *b = fieldNorm(c->k[1]); return a == c->k[0] && b == c->k[1] ? c : mkBAnd(a, b); }
  if (c->op == O_BOR) { Node *a = fieldNorm(c->k[0]), *b = fieldNorm(c->k[1]); return a == c->k[0] && b == c->k[1] ? c : mkBOr(a, b); }
  if (c->op == O_LE0) { // 1 - x <= 0 with x in [0,p): x != 0 ; x <= 0 with x >= 0: x == 0
    Node *a = c->k[0]; if (a->lo >= 0 && a->hi < g_fieldP) return fieldNorm(mkEQ0(a));
    Node *b = mkSub(mkC(1L), a); if (b->lo >= 0 && b->hi < g_fieldP) { Node *e = mkEQ0(b); return mkNot(fieldNorm(e)); }
    return c; }
  if (c->op != O_EQ0) return c;
  Node *e = c->k[0]; if (!fieldValued(e)) return c;
  over = false; const Rat *r = ratOf(e, 0); if (!r || over) return c;
  FP a = r->n; if (a.empty()) return mkC(1L); fmonic(a); stripUnits(a); if (a.size() == 1 && a.begin()->first.empty()) return mkC(0L);
  if (!zeros.empty()) { reduceZeros(a); if (over) return c; if (a.empty()) return mkC(1L); fmonic(a); stripUnits(a); if (a.size() == 1 && a.begin()->first.empty()) return mkC(0L); }
  // single power x^k: x == 0
  if (a.size() == 1 && a.begin()->first.size() >= 1) { Node *o = mkC(0L); for (auto &y : a.begin()->first) { Node *v = atoms[y.first]; Node *z = mkEQ0(mkFMod(v, mkC(g_fieldP))); o = mkBOr(o, z); } return o; }
  // one unknown: its roots
  { uint32_t id = 0; bool uni = true; for (auto &t : a) for (auto &y : t.first) { if (id && id != y.first) uni = false; id = y.first; }
    Node *v = id ? atoms[id] : nullptr; if (uni && v && v->op == O_VAR && v->lo >= 0 && v->hi < g_fieldP) { std::vector<uint64_t> f; bool big = false; for (auto &t : a) { size_t e = t.first.empty() ? 0 : t.first[0].second; if (e > 64) { big = true; break; } if (f.size() <= e) f.resize(e + 1, 0); f[e] = t.second; }
      if (!big) { Node *o = mkC(0L); for (uint64_t r : uroots(f)) { Z z; mpz_set_ui(z.get_mpz_t(), r); if (z >= v->lo && z <= v->hi) o = mkBOr(o, mkEQ0(mkSub(v, mkC(z)))); } return o; } } }
  // homogeneous in two nonzero unknowns: x = t*y for the roots t
  { uint32_t i1 = 0, i2 = 0; bool ok = true; int deg = -1; for (auto &t : a) { int d = 0; for (auto &y : t.first) { d += y.second; if (y.first == i1 || y.first == i2) continue; if (!i1) i1 = y.first; else if (!i2) i2 = y.first; else ok = false; } if (deg < 0) deg = d; if (d != deg) ok = false; if (!ok) break; }
    if (ok && i1 && i2 && deg >= 2 && deg <= 64) { Node *x = atoms[i1], *y = atoms[i2]; auto nzr = [](Node *v) { return v->op == O_VAR && v->lo > 0 && v->hi < g_fieldP; }; if (nzr(x) && nzr(y)) { std::vector<uint64_t> f(deg + 1, 0); for (auto &t : a) { int e = 0; for (auto &u : t.first) if (u.first == i1) e = u.second; f[e] = t.second; } Node *o = mkC(0L); for (uint64_t r : uroots(f)) if (r) { Z z; mpz_set_ui(z.get_mpz_t(), r); if (2 * z > g_fieldP) z -= g_fieldP; o = mkBOr(o, mkEQ0(mkFMod(mkSub(x, mkMul(mkC(z), y)), mkC(g_fieldP)))); } return o; } } }
  Node *q = mkFMod(polyNode(a), mkC(g_fieldP)); return mkEQ0(q);
}
// if x == 0 then (0 or a multiple of x) else b, with b a reduced residue vanishing whenever x does: the same as b
Node *fieldIte(Node *c, Node *a, Node *b) {
  if (g_fieldP == 0) return nullptr; bool z = (isC(a) && a->c == 0); if (!z && !isC(a)) z = mkEQ0(a) == c; if (!z) return nullptr;
  if (!(b->lo >= 0 && b->hi < g_fieldP) && !(b->op == O_TREM && isC(b->k[1]) && b->k[1]->c == g_fieldP) && !(b->lo > -g_fieldP && b->hi < g_fieldP)) return nullptr;
  Node *x = c->k[0]; over = false; const Rat *rx = ratOf(x, 0); if (!rx || over) return nullptr; FP X = rx->n; const Rat *rb = ratOf(b, 0); if (!rb || over) return nullptr; if (rb->n.empty()) return mkC(0L);
  if (X.empty()) return nullptr; FP q; if (!fdivx(rb->n, X, q)) return nullptr; return b;
}
static bool polyOfCond(Node *e, FP &a) { if (!fieldValued(e)) return false; over = false; const Rat *r = ratOf(e, 0); if (!r || over) return false; a = r->n; return true; }
static bool contra = false; // the known zeros have no common zero outside the known nonzeros
static bool isOne(const FP &a) { return a.size() == 1 && a.begin()->first.empty(); }
static FP spoly(const FP &f, const FP &g, bool &cop) {
  const Mono &x = f.begin()->first, &y = g.begin()->first; Mono l; size_t p = 0, q = 0; cop = true; while (p < x.size() || q < y.size()) { if (q >= y.size() || (p < x.size() && x[p].first < y[q].first)) l.push_back(x[p++]); else if (p >= x.size() || y[q].first < x[p].first) l.push_back(y[q++]); else { cop = false; l.push_back({x[p].first, std::max(x[p].second, y[q].second)}); p++; q++; } }
  FP s; if (cop) return s; Mono mx, my; mdiv(l, x, mx); mdiv(l, y, my); for (auto &t : f) fadd(s, mmul(mx, t.first), t.second); for (auto &t : g) fadd(s, mmul(my, t.first), P() - t.second); return s; }
static void complete(std::vector<FP> work) { // Buchberger with caps; dropping a polynomial only loses knowledge
  int guard = 0; std::vector<std::pair<FP, FP>> pairs;
  while (!contra && (!work.empty() || !pairs.empty())) {
    if (++guard > 250) return; FP a;
    if (!work.empty()) { a = work.back(); work.pop_back(); } else { auto pr = pairs.back(); pairs.pop_back(); bool cop; a = spoly(pr.first, pr.second, cop); if (cop) continue; }
    over = false; for (int k = 0; k < 6; k++) { if (a.empty()) break; fmonic(a); stripUnits(a); FP b = a; reduceZeros(b); if (over) break; if (b == a) break; a = b; } if (over || a.empty()) continue; fmonic(a); if (isOne(a)) { contra = true; return; }
    if (a.size() > 60 || zeros.size() > 30) continue;
    std::vector<FP> keep; for (auto &z : zeros) { Mono q; bool h = false; for (auto &t : z) if (mdiv(t.first, a.begin()->first, q)) { h = true; break; } if (h) work.push_back(z); else keep.push_back(z); } zeros.swap(keep);
    for (auto &z : zeros) pairs.push_back({z, a}); zeros.push_back(a);
  }
}
void fieldLearn(Node *c) {
  if (g_fieldP == 0 || isC(c)) return;
  if (c->op == O_BAND) { fieldLearn(c->k[0]); fieldLearn(c->k[1]); return; }
  FP a;
  if (c->op == O_NOT) { Node *d = c->k[0]; if (d->op == O_BOR) { fieldLearn(mkNot(d->k[0])); fieldLearn(mkNot(d->k[1])); return; }
    if (d->op == O_EQ0 && polyOfCond(d->k[0], a) && !a.empty()) { size_t n0 = nonzero.size(); fmonic(a); if (a.size() == 1) { for (auto &y : a.begin()->first) { FP v; v[Mono{{y.first, 1}}] = 1; int id = internP(v); if (std::find(nonzero.begin(), nonzero.end(), id) == nonzero.end()) nonzero.push_back(id); } } else { stripUnits(a); if (!isOne(a)) { int id = internP(a); if (std::find(nonzero.begin(), nonzero.end(), id) == nonzero.end()) nonzero.push_back(id); } }
      if (nonzero.size() > n0 && !zeros.empty()) { auto z = zeros; bool ch = false; for (auto &q : z) { FP o = q; stripUnits(q); if (!(o == q)) ch = true; } if (ch) { zeros.clear(); complete(z); memo.clear(); } } }
    return; }
  if (c->op == O_EQ0 && polyOfCond(c->k[0], a) && !a.empty()) { complete({a}); memo.clear(); }
}
static uint64_t rs = 0x2545F4914F6CDD1Dull; static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static uint64_t fpow(uint64_t a, unsigned e) { return powm(a, e); }

// ---- univariate roots over Z/p
typedef std::vector<uint64_t> UP; // coefficients, low first
static void utrim(UP &a) { while (!a.empty() && !a.back()) a.pop_back(); }
static UP umod(UP a, const UP &b) { uint64_t il = powm(b.back(), P() - 2); while (a.size() >= b.size()) { uint64_t c = mulm(a.back(), il); size_t o = a.size() - b.size(); if (c) for (size_t i = 0; i < b.size(); i++) { uint64_t t = mulm(c, b[i]); a[o + i] = (a[o + i] + P() - t) % P(); } a.pop_back(); } utrim(a); return a; }
static UP umul(const UP &a, const UP &b, const UP &f) { if (a.empty() || b.empty()) return UP(); UP r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = (r[i + j] + mulm(a[i], b[j])) % P(); utrim(r); return umod(r, f); }
static UP ugcd(UP a, UP b) { while (!b.empty()) { UP t = umod(a, b); a = b; b = t; } return a; }
static UP upow(UP b, uint64_t e, const UP &f) { UP r = umod(UP{1}, f); b = umod(b, f); while (e) { if (e & 1) r = umul(r, b, f); b = umul(b, b, f); e >>= 1; } return r; }
static UP udivq(UP a, const UP &b) { UP q(a.size() - b.size() + 1, 0); uint64_t il = powm(b.back(), P() - 2); while (a.size() >= b.size()) { uint64_t c = mulm(a.back(), il); size_t o = a.size() - b.size(); q[o] = c; for (size_t i = 0; i < b.size(); i++) a[o + i] = (a[o + i] + P() - mulm(c, b[i])) % P(); a.pop_back(); } return q; }
static void usplit(const UP &g, std::vector<uint64_t> &out) { // g: product of distinct linear factors
  if (g.size() <= 1) return; if (g.size() == 2) { out.push_back(mulm((P() - g[0]) % P(), powm(g[1], P() - 2))); return; }
  for (uint64_t a = 1;; a++) { UP h = upow(UP{a % P(), 1}, (P() - 1) / 2, g); if (h.empty()) h = UP{P() - 1}; else { h[0] = (h[0] + P() - 1) % P(); utrim(h); } if (h.empty()) continue; UP d = ugcd(g, h); if (d.size() > 1 && d.size() < g.size()) { usplit(d, out); usplit(udivq(g, d), out); return; } if (a > 200) return; } }
static std::vector<uint64_t> uroots(UP f) { std::vector<uint64_t> out; utrim(f); if (f.size() <= 1) return out;
  if (P() < 500) { for (uint64_t x = 0; x < P(); x++) { uint64_t v = 0; for (size_t i = f.size(); i-- > 0;) v = (mulm(v, x) + f[i]) % P(); if (!v) out.push_back(x); } return out; }
  if (f[0] == 0) { out.push_back(0); while (f[0] == 0) f.erase(f.begin()); if (f.size() <= 1) return out; }
  if (f.size() == 2) { usplit(f, out); return out; }
  UP h = upow(UP{0, 1}, P(), f); while (h.size() < 2) h.push_back(0); h[1] = (h[1] + P() - 1) % P(); utrim(h); UP g = h.empty() ? f : ugcd(f, h); usplit(g, out); return out; }
// conditions whose only variable is one field unknown: complete decision by root finding. 0 = infeasible, 2 = not decided here
static bool rangeVal(Node *v, uint64_t x, Z &zx) { Z p = g_fieldP; mpz_set_ui(zx.get_mpz_t(), x); if (zx < v->lo) { Z d = v->lo - zx, q; mpz_cdiv_q(q.get_mpz_t(), d.get_mpz_t(), p.get_mpz_t()); zx += q * p; } if (zx > v->hi) { Z d = zx - v->hi, q; mpz_cdiv_q(q.get_mpz_t(), d.get_mpz_t(), p.get_mpz_t()); zx -= q * p; } return zx >= v->lo && zx <= v->hi; }
struct Search { std::map<uint32_t, int> varIdx; Node *cond; const std::vector<Node *> *pc; Model *m; bool complete; int budget; std::vector<char> fixed; };
static bool searchZ(Search &S, std::vector<FP> cur) {
  if (--S.budget < 0) { S.complete = false; return false; }
  if (cur.empty()) { uint32_t ep = newEpoch(); bool ok = evalNode(S.cond, *S.m, ep) != 0; for (size_t i = S.pc->size(); ok && i-- > 0;) if (evalNode((*S.pc)[i], *S.m, ep) == 0) ok = false; if (!ok) for (char f : S.fixed) if (!f) { S.complete = false; break; } return ok; }
  int vi = -1; UP f; std::vector<int> occ;
  for (auto &z : cur) { int v = -1; bool uni = true; for (auto &t : z) for (auto &y : t.first) { int k = S.varIdx[y.first]; if (std::find(occ.begin(), occ.end(), k) == occ.end()) occ.push_back(k); if (v >= 0 && v != k) uni = false; v = k; }
    if (v < 0) return false; if (uni) { UP g; for (auto &t : z) { size_t e = t.first.empty() ? 0 : t.first[0].second; if (e > 60) { S.complete = false; return false; } if (g.size() <= e) g.resize(e + 1, 0); g[e] = t.second; } if (vi < 0 || g.size() < f.size()) { vi = v; f = g; } } }
  std::vector<Z> vals; Z old;
  if (vi >= 0) { Node *v = g_vars[vi].n; if (v->hi - v->lo >= g_fieldP) S.complete = false; std::vector<uint64_t> rt = uroots(f); size_t o = rt.empty() ? 0 : rnd() % rt.size(); for (size_t i = 0; i < rt.size(); i++) { Z z; if (rangeVal(v, rt[(i + o) % rt.size()], z)) vals.push_back(z); } }
  else { S.complete = false; vi = occ[rnd() % occ.size()]; vals.push_back((*S.m)[vi]); }
  uint32_t id = g_vars[vi].n->id; old = (*S.m)[vi]; S.fixed[vi] = 1;
  for (auto &val : vals) { (*S.m)[vi] = val; uint64_t x = zmod(val); std::vector<FP> nx; bool dead = false;
    for (auto &z : cur) { FP r; for (auto &t : z) { uint64_t c = t.second; Mono mm; for (auto &y : t.first) if (y.first == id) c = mulm(c, powm(x, y.second)); else mm.push_back(y); fadd(r, mm, c); } if (r.empty()) continue; if (isOne(r) || (r.size() == 1 && r.begin()->first.empty())) { dead = true; break; } nx.push_back(r); }
    if (!dead && searchZ(S, nx)) return true; }
  (*S.m)[vi] = old; S.fixed[vi] = 0; return false;
}
static int g_fdec; // 0: infeasible, 1: model found, 2: unknown
int fieldSolve(Node *cond, Model *m, const std::vector<Node *> &pc, int tries) {
  if (g_fieldP == 0) return 2; auto sz = zeros; auto sn = nonzero; bool sc = contra; if (cond->op == O_EQ0 || cond->op == O_NOT || cond->op == O_BAND) fieldLearn(cond); std::vector<FP> zs = zeros; bool c = contra; zeros = sz; nonzero = sn; contra = sc; memo.clear(); over = false; if (c) return 0;
  size_t n = g_vars.size(); Search S; for (size_t i = 0; i < n; i++) S.varIdx[g_vars[i].n->id] = i; for (auto &z : zs) for (auto &t : z) for (auto &y : t.first) if (!S.varIdx.count(y.first)) return 2;
  S.cond = cond; S.pc = &pc; S.m = m;
  for (int t = 0; t < tries; t++) {
    m->assign(n, Z(0)); for (size_t i = 0; i < n; i++) { Node *v = g_vars[i].n; Z w = v->hi - v->lo + 1; Z r; mpz_set_ui(r.get_mpz_t(), rnd()); if (t < 4) mpz_set_ui(r.get_mpz_t(), rnd() % 4); Z q; mpz_fdiv_r(q.get_mpz_t(), r.get_mpz_t(), w.get_mpz_t()); (*m)[i] = v->lo + q; }
    S.complete = true; S.budget = 400; S.fixed.assign(n, 0); for (size_t i = 0; i < n; i++) if (g_vars[i].n->lo == g_vars[i].n->hi) S.fixed[i] = 1; if (searchZ(S, zs)) return 1; if (S.complete && !zs.empty()) return 0; }
  return 2;
}
