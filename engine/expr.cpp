#include "expr.h"
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <functional>
std::vector<VarInfo> g_vars;
uint32_t g_nnodes = 0;
static uint32_t g_epoch = 0;
uint32_t newEpoch() { return ++g_epoch; }
static size_t hz(const Z &z) { return mpz_get_ui(z.get_mpz_t()) * 31 + mpz_size(z.get_mpz_t()) * 7 + (sgn(z) < 0); }
static size_t hashNode(const Node *n) {
  size_t h = n->op * 1000003u + n->aux * 7919u;
  for (auto k : n->k) h = h * 1099511628211ull + k->id;
  for (auto &z : n->co) h = h * 1099511628211ull + hz(z);
  return h * 31 + hz(n->c);
}
struct NH { size_t operator()(const Node *n) const { return n->h; } };
struct NE { bool operator()(const Node *a, const Node *b) const {
  return a->op == b->op && a->aux == b->aux && a->k == b->k && a->c == b->c && a->co == b->co; } };
static std::unordered_set<Node *, NH, NE> g_tab;

static Node *intern(Node &t) {
  t.h = hashNode(&t);
  auto it = g_tab.find(&t);
  if (it != g_tab.end()) return *it;
  Node *n = new Node(t);
  n->id = ++g_nnodes;
  g_tab.insert(n);
  return n;
}
Z pow2(unsigned n) { Z r; mpz_setbit(r.get_mpz_t(), n); return r; }
Node *mkC(const Z &v) { Node t; t.op = O_CONST; t.b = (v == 0 || v == 1); t.aux = 0; t.c = v; t.lo = v; t.hi = v; return intern(t); }
static Node *smallc[65];
Node *mkC(long v) { if (v >= 0 && v < 65) { if (!smallc[v]) smallc[v] = mkC(Z(v)); return smallc[v]; } return mkC(Z(v)); }
Node *mkVar(const std::string &name, const Z &lo, const Z &hi) {
  Node t; t.op = O_VAR; t.b = false; t.aux = (int)g_vars.size(); t.lo = lo; t.hi = hi;
  Node *n = intern(t); g_vars.push_back({name, n, lo, hi}); return n;
}
// --- linear forms
typedef std::vector<std::pair<Node *, Z>> Lin;
static void toLin(Node *n, const Z &f, Lin &l, Z &c) {
  if (n->op == O_CONST) { c += f * n->c; return; }
  if (n->op == O_LIN) { c += f * n->c; for (size_t i = 0; i < n->k.size(); i++) l.push_back({n->k[i], f * n->co[i]}); return; }
  l.push_back({n, f});
}
static Node *fromLin(Lin &l, const Z &c) {
  std::sort(l.begin(), l.end(), [](auto &a, auto &b) { return a.first->id < b.first->id; });
  Lin r;
  for (auto &p : l) {
    if (!r.empty() && r.back().first == p.first) r.back().second += p.second;
    else { if (!r.empty() && r.back().second == 0) r.pop_back(); r.push_back(p); }
  }
  if (!r.empty() && r.back().second == 0) r.pop_back();
  if (r.empty()) return mkC(c);
  // k*(X div k) + (X mod k) == X
  { bool dv = false, md = false; for (auto &p : r) { if (p.first->op == O_FDIV) dv = true; if (p.first->op == O_FMOD) md = true; }
    if (dv && md && r.size() < 40) for (size_t i = 0; i < r.size(); i++) if (r[i].first->op == O_FDIV && isC(r[i].first->k[1])) for (size_t j = 0; j < r.size(); j++) if (r[j].first->op == O_FMOD && r[j].first->k[1] == r[i].first->k[1] && r[i].second == r[j].second * r[i].first->k[1]->c && mkFMod(r[i].first->k[0], r[i].first->k[1]) == r[j].first) {
      Lin q; Z cc = c; for (size_t m = 0; m < r.size(); m++) if (m != i && m != j) q.push_back(r[m]); toLin(r[i].first->k[0], r[j].second, q, cc); return fromLin(q, cc); } }
  if (r.size() == 1 && r[0].second == 1 && c == 0) return r[0].first;
  Node t; t.op = O_LIN; t.b = false; t.aux = 0; t.c = c; t.lo = c; t.hi = c;
  for (auto &p : r) {
    t.k.push_back(p.first); t.co.push_back(p.second);
    if (p.second > 0) { t.lo += p.second * p.first->lo; t.hi += p.second * p.first->hi; }
    else { t.lo += p.second * p.first->hi; t.hi += p.second * p.first->lo; }
  }
  if (t.lo == t.hi) return mkC(t.lo);
  // t + m*[t<0] and t - m*[t>=m]: conditional corrections have a tighter range than their parts
  for (size_t i = 0; i < r.size() && r.size() < 64; i++) if (r[i].first->op == O_LE0 && abs(r[i].second) > 2) {
    Z m = r[i].second; Node *ch = r[i].first; Lin q = r; q.erase(q.begin() + i); Node *rest = fromLin(q, c); Z lo, hi;
    if (m > 0 && mkLE0(mkAdd(rest, mkC(1L))) == ch) { lo = std::min(Z(rest->lo + m), Z(0)); hi = std::max(Z(m - 1), rest->hi); }
    else if (m < 0 && mkLE0(mkSub(mkC(Z(-m)), rest)) == ch) { lo = std::min(rest->lo, Z(0)); hi = std::max(Z(-m - 1), Z(rest->hi + m)); }
    else continue;
    if (lo > t.lo) t.lo = lo; if (hi < t.hi) t.hi = hi; if (t.lo == t.hi) return mkC(t.lo); break; }
  return intern(t);
}
static Node *tight(Node *n, const Z &lo, const Z &hi) { if (n->op == O_LIN && lo <= hi) { if (lo > n->lo && lo <= n->hi) n->lo = lo; if (hi < n->hi && hi >= n->lo) n->hi = hi; } return n; }
Node *mkAdd(Node *a, Node *b) {
  if (isC(a) && isC(b)) return mkC(Z(a->c + b->c));
  if (isC(a) && a->c == 0) return b; if (isC(b) && b->c == 0) return a;
  Lin l; Z c = 0; toLin(a, 1, l, c); toLin(b, 1, l, c); return tight(fromLin(l, c), a->lo + b->lo, a->hi + b->hi);
}
Node *mkSub(Node *a, Node *b) {
  if (isC(a) && isC(b)) return mkC(Z(a->c - b->c));
  if (a == b) return mkC(0L); if (isC(b) && b->c == 0) return a;
  if (b->op == O_MUL) for (int i = 0; i < 2; i++) { Node *q = b->k[i], *y = b->k[1 - i]; if (q->op == O_FDIV && q->k[0] == a && q->k[1] == y && y->lo > 0) return mkFMod(a, y); } // x - floor(x/y)*y
  Lin l; Z c = 0; toLin(a, 1, l, c); toLin(b, -1, l, c); return tight(fromLin(l, c), a->lo - b->hi, a->hi - b->lo);
}
static Node *scale(Node *a, const Z &f) {
  if (f == 1) return a; if (f == 0) return mkC(0L);
  Lin l; Z c = 0; toLin(a, f, l, c); return f > 0 ? tight(fromLin(l, c), a->lo * f, a->hi * f) : tight(fromLin(l, c), a->hi * f, a->lo * f);
}
Node *mkNeg(Node *a) { return scale(a, Z(-1)); }
static Node *mk2(Op op, Node *a, Node *b, const Z &lo, const Z &hi, bool bl = false, int aux = 0) {
  if (lo == hi) return mkC(lo);
  Node t; t.op = op; t.b = bl; t.aux = aux; t.k.push_back(a); if (b) t.k.push_back(b); t.lo = lo; t.hi = hi; return intern(t);
}
static void mulIv(Node *a, Node *b, Z &lo, Z &hi) {
  Z p[4] = {a->lo * b->lo, a->lo * b->hi, a->hi * b->lo, a->hi * b->hi};
  lo = p[0]; hi = p[0]; for (int i = 1; i < 4; i++) { if (p[i] < lo) lo = p[i]; if (p[i] > hi) hi = p[i]; }
}
Node *mkMul(Node *a, Node *b) {
  if (isC(a)) return scale(b, a->c);
  if (isC(b)) return scale(a, b->c);
  // factor single-term LINs without constant
  if (a->op == O_LIN && a->k.size() == 1 && a->c == 0) return scale(mkMul(a->k[0], b), a->co[0]);
  if (b->op == O_LIN && b->k.size() == 1 && b->c == 0) return scale(mkMul(a, b->k[0]), b->co[0]);
  if (a->b && a != b) return mkIte(a, b, mkC(0L));
  if (b->b && a != b) return mkIte(b, a, mkC(0L));
  if (a->id > b->id) std::swap(a, b);
  Z lo, hi; mulIv(a, b, lo, hi);
  if (a == b && lo < 0) lo = 0;
  return mk2(O_MUL, a, b, lo, hi);
}
static Z fdiv(const Z &a, const Z &b) { Z r; mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static Z fmod_(const Z &a, const Z &b) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static Z tdiv(const Z &a, const Z &b) { Z r; mpz_tdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static Z trem(const Z &a, const Z &b) { Z r; mpz_tdiv_r(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static Z maxabs(Node *n) { Z a = abs(n->lo), b = abs(n->hi); return a > b ? a : b; }

Node *mkFMod(Node *a, Node *b) {
  if (isC(b)) {
    const Z &m = b->c;
    if (m == 0) return mkC(0L);
    if (m < 0) { // floor mod by negative: -( (-a) mod -m )
      return mkNeg(mkFMod(mkNeg(a), mkC(Z(-m))));
    }
    if (m == 1) return mkC(0L);
    if (isC(a)) return mkC(fmod_(a->c, m));
    Z ql = fdiv(a->lo, m), qh = fdiv(a->hi, m);
    if (ql == qh) return mkSub(a, mkC(Z(ql * m)));
    if (a->op == O_ITE) {
      Node *x = mkFMod(a->k[1], b), *y = mkFMod(a->k[2], b);
      if (x == y) return x;
      if (isC(x) && isC(y)) return mkIte(a->k[0], x, y);
    }
    if (a->op == O_LIN) { Lin r0; bool any = a->c < 0 || a->c >= m; for (size_t i = 0; i < a->k.size(); i++) if (fmod_(a->co[i], m) == 0) any = true; else r0.push_back({a->k[i], a->co[i]}); if (any) { Node *n0 = fromLin(r0, fmod_(a->c, m)); Z l = fdiv(n0->lo, m), h = fdiv(n0->hi, m); if (l == h) return mkSub(n0, mkC(Z(l * m))); } }
    bool big = m > 1;
    // normalise linear form modulo m
    if (big && (a->op == O_LIN || a->op == O_FMOD || a->op == O_SWRAP)) {
      Lin l; Z c = 0; toLin(a, 1, l, c);
      bool chg = false; Lin r; Z cc = 0;
      std::vector<std::pair<Node*,Z>> work(l.begin(), l.end());
      while (!work.empty()) {
        auto p = work.back(); work.pop_back();
        Z f = fmod_(p.second, m); if (2 * f > m) f -= m;
        if (f == 0) { chg = true; continue; }
        Node *t = p.first;
        // t == fmod(t', m') with m | f*m'  -> f*t'
        if (t->op == O_FMOD && isC(t->k[1]) && fmod_(f * t->k[1]->c, m) == 0) { chg = true; Lin s; Z c2 = 0; toLin(t->k[0], f, s, c2); cc += c2; for (auto &q : s) work.push_back(q); continue; }
        if (t->op == O_SWRAP && fmod_(f * pow2(t->aux), m) == 0) { chg = true; Lin s; Z c2 = 0; toLin(t->k[0], f, s, c2); cc += c2; for (auto &q : s) work.push_back(q); continue; }
        if (f != p.second) chg = true;
        r.push_back({t, f});
      }
      c += cc; Z c1 = fmod_(c, m); if (2 * c1 > m) c1 -= m; if (c1 != c) chg = true;
      if (chg) { Node *na = fromLin(r, c1); if (na != a) return mkFMod(na, b); }
      // common factor with modulus: (g*x) mod (g*m') = g*(x mod m')
      if (a->op == O_LIN) {
        Z g = gcd(a->c, m); for (auto &z : a->co) g = gcd(g, z);
        if (g > 1) { Lin l2; for (size_t i = 0; i < a->k.size(); i++) l2.push_back({a->k[i], a->co[i] / g}); return scale(mkFMod(fromLin(l2, a->c / g), mkC(Z(m / g))), g); }
      }
    }
    Z lo = 0, hi = m - 1;
    return mk2(O_FMOD, a, b, lo, hi);
  }
  // symbolic modulus
  Z lo = 0, hi = 0;
  if (b->hi > 0) hi = b->hi - 1;
  if (b->lo < 0) lo = b->lo + 1;
  if (a->lo >= 0 && b->lo > 0) { if (a->hi < hi) hi = a->hi; if (a->hi < b->lo) return a; }
  return mk2(O_FMOD, a, b, lo, hi);
}
Node *mkFDiv(Node *a, Node *b) {
  if (isC(b)) {
    if (b->c == 0) return mkC(0L);
    if (b->c == 1) return a;
    if (b->c < 0) return mkFDiv(mkNeg(a), mkC(Z(-b->c)));
    if (isC(a)) return mkC(fdiv(a->c, b->c));
    Z lo = fdiv(a->lo, b->c), hi = fdiv(a->hi, b->c);
    if (lo == hi) return mkC(lo);
// coefficients q*b + r with the remainder part inside one block of b
    if (a->op == O_LIN) { Lin in, out; Z c0 = fmod_(a->c, b->c), c1 = fdiv(a->c, b->c); bool any = false; for (size_t i = 0; i < a->k.size(); i++) { Z q = fdiv(a->co[i], b->c), r = a->co[i] - q * b->c; if (q != 0 && r != 0) any = true; if (q != 0) out.push_back({a->k[i], q}); if (r != 0) in.push_back({a->k[i], r}); }
      if (any) { Node *i2 = fromLin(in, c0); Z l = fdiv(i2->lo, b->c), h = fdiv(i2->hi, b->c); if (l == h) return fromLin(out, c1 + l); } }
        // pull out multiples of b from linear form
    if (a->op == O_LIN) {
      Lin in, out; Z c0 = fmod_(a->c, b->c), c1 = fdiv(a->c, b->c); bool any = c1 != 0;
      for (size_t i = 0; i < a->k.size(); i++) { Z q = tdiv(a->co[i], b->c), r = a->co[i] - q * b->c; if (q != 0 && r == 0) { out.push_back({a->k[i], q}); any = true; } else in.push_back({a->k[i], a->co[i]}); }
      if (any) { Node *i2 = fromLin(in, c0); Node *o2 = fromLin(out, c1); return mkAdd(mkFDiv(i2, b), o2); }
      Z g = gcd(a->c, b->c); for (auto &z : a->co) g = gcd(g, z);
      if (g > 1) { Lin l2; for (size_t i = 0; i < a->k.size(); i++) l2.push_back({a->k[i], a->co[i] / g}); return mkFDiv(fromLin(l2, a->c / g), mkC(Z(b->c / g))); }
    }
    if (a->op == O_FDIV && isC(a->k[1])) return mkFDiv(a->k[0], mkC(Z(a->k[1]->c * b->c)));
    if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkFDiv(a->k[1], b), mkFDiv(a->k[2], b));
    return mk2(O_FDIV, a, b, lo, hi);
  }
  if (a == b) return mkC(1L);
  Z m = maxabs(a) + 1; Z lo = -m, hi = m;
  if (a->lo >= 0 && b->lo > 0) { lo = fdiv(a->lo, b->hi); hi = fdiv(a->hi, b->lo); }
  else if (b->lo > 0) { lo = fdiv(a->lo, a->lo < 0 ? b->lo : b->hi); hi = fdiv(a->hi, a->hi < 0 ? b->hi : b->lo); }
  return mk2(O_FDIV, a, b, lo, hi);
}
Node *mkTDiv(Node *a, Node *b) {
  if (isC(b) && b->c == 0) return mkC(0L);
  if (isC(a) && isC(b)) return mkC(tdiv(a->c, b->c));
  if (a->lo >= 0 && b->lo >= 0) return mkFDiv(a, b);
  if (isC(b) && b->c < 0) return mkNeg(mkTDiv(a, mkC(Z(-b->c))));
  if (a->hi <= 0 && b->lo > 0) return mkNeg(mkTDiv(mkNeg(a), b));
  Z m = maxabs(a);
  if (isC(b)) { Z lo = tdiv(a->lo, b->c), hi = tdiv(a->hi, b->c); if (lo > hi) std::swap(lo, hi); return mk2(O_TDIV, a, b, lo, hi); }
  return mk2(O_TDIV, a, b, -m, m);
}
Node *mkTRem(Node *a, Node *b) {
  if (isC(b) && b->c == 0) return mkC(0L);
  if (isC(a) && isC(b)) return mkC(trem(a->c, b->c));
  if (a->lo >= 0 && b->lo >= 0) return mkFMod(a, b);
  if (isC(b) && b->c < 0) return mkTRem(a, mkC(Z(-b->c)));
  if (a->hi <= 0 && b->lo > 0) return mkNeg(mkTRem(mkNeg(a), b));
  Z m = maxabs(b) - 1; if (maxabs(a) < m) m = maxabs(a);
  return mk2(O_TREM, a, b, a->lo >= 0 ? Z(0) : Z(-m), a->hi <= 0 ? Z(0) : m);
}
static unsigned nbits(const Z &z) { return z == 0 ? 0 : mpz_sizeinbase(z.get_mpz_t(), 2); }
static unsigned ivBits(Node *n) { // bits b such that value in [-2^b, 2^b)
  Z l = n->lo < 0 ? Z(-n->lo - 1) : Z(0), h = n->hi < 0 ? Z(0) : n->hi; return std::max(nbits(l), nbits(h)); }
// bit fields [lo,hi) a nonnegative node may occupy; false if unknown
static bool bitFields(Node *n, std::vector<std::pair<unsigned, unsigned>> &f) {
  if (n->lo < 0) return false; if (isC(n)) { Z v = n->c; unsigned p = 0; while (v != 0) { unsigned z = mpz_scan1(v.get_mpz_t(), 0); v >>= z; p += z; unsigned o = mpz_scan0(v.get_mpz_t(), 0); f.push_back({p, p + o}); v >>= o; p += o; } return true; }
  if (n->op != O_LIN) { f.push_back({0, nbits(n->hi)}); return true; }
  if (n->c < 0) return false;
  // x - (x mod 2^l) pairs, then groups of terms by their power of two
  struct T { unsigned t; Z lo, hi; }; std::vector<T> ts; std::vector<char> used(n->k.size(), 0);
  for (size_t i = 0; i < n->k.size(); i++) { if (used[i] || n->co[i] < 0 || n->k[i]->lo < 0) continue;
    for (size_t j = 0; j < n->k.size(); j++) if (!used[j] && n->co[j] == -n->co[i] && n->k[j]->op == O_FMOD && isC(n->k[j]->k[1]) && mpz_popcount(n->k[j]->k[1]->c.get_mpz_t()) == 1 && mkFMod(n->k[i], n->k[j]->k[1]) == n->k[j]) { used[i] = used[j] = 1; ts.push_back({(unsigned)(mpz_scan1(n->co[i].get_mpz_t(), 0) + mpz_scan1(n->k[j]->k[1]->c.get_mpz_t(), 0)), 0, n->co[i] * n->k[i]->hi}); break; } }
  for (size_t i = 0; i < n->k.size(); i++) if (!used[i]) { T t; t.t = mpz_scan1(n->co[i].get_mpz_t(), 0); if (n->co[i] > 0) { t.lo = n->co[i] * n->k[i]->lo; t.hi = n->co[i] * n->k[i]->hi; } else { t.lo = n->co[i] * n->k[i]->hi; t.hi = n->co[i] * n->k[i]->lo; } ts.push_back(t); }
  std::sort(ts.begin(), ts.end(), [](const T &a, const T &b) { return a.t < b.t; }); Z c = n->c; size_t i = 0;
  if (ts[0].t > 0) { Z lowc = fmod_(c, pow2(ts[0].t)); if (lowc != 0) bitFields(mkC(lowc), f); c -= lowc; }
  while (i < ts.size()) { size_t j = i; Z lo = 0, hi = 0; for (;;) { unsigned t = ts[j].t; while (j < ts.size() && ts[j].t == t) { lo += ts[j].lo; hi += ts[j].hi; j++; } if (j == ts.size()) { if (lo + c < 0) return false; f.push_back({ts[i].t, nbits(Z(hi + c))}); return true; }
      Z U = pow2(ts[j].t), cp = fmod_(c, U); if (lo + cp >= 0 && hi + cp < U) { f.push_back({ts[i].t, nbits(Z(hi + cp))}); c -= cp; break; } } i = j; }
  return true; }
static bool disjointBits(Node *a, Node *b) { std::vector<std::pair<unsigned, unsigned>> x, y; if (!bitFields(a, x) || !bitFields(b, y)) return false; if (x.size() * y.size() > 4096) return false; for (auto &p : x) for (auto &q : y) if (p.first < q.second && q.first < p.second) return false;
  for (int r = 0; r < 2; r++) { auto &v = r ? y : x; std::sort(v.begin(), v.end()); for (size_t i = 1; i < v.size(); i++) if (v[i - 1].second > v[i].first) return false; } return true; }
Node *mkAnd(Node *a, Node *b) {
  if (isC(a) && isC(b)) return mkC(Z(a->c & b->c));
  if (isC(a)) std::swap(a, b);
  if (a == b) return a;
  if (a->b && b->b) return mkBAnd(a, b);
  if (isC(b)) {
    if (b->c == 0) return mkC(0L); if (b->c == -1) return a;
    Z c1 = b->c + 1;
    if (b->c > 0 && mpz_popcount(c1.get_mpz_t()) == 1) return mkFMod(a, mkC(c1)); // mask
    if (b->c < 0) { Z m = -b->c; if (mpz_popcount(m.get_mpz_t()) == 1) return mkSub(a, mkFMod(a, mkC(m))); }
    // contiguous shifted mask
    if (b->c > 0) { unsigned z = mpz_scan1(b->c.get_mpz_t(), 0); Z s = b->c >> z; Z s1 = s + 1;
      if (mpz_popcount(s1.get_mpz_t()) == 1) { Node *x = mkFMod(a, mkC(Z(s1 << z))); return mkSub(x, mkFMod(x, mkC(pow2(z)))); } }
    if (b->c < 0) { if (a->lo >= 0) return mkAnd(a, mkC(Z(b->c & (pow2(nbits(a->hi)) - 1)))); Z m = -b->c - 1; std::vector<std::pair<unsigned, unsigned>> f; bitFields(mkC(m), f); if (f.size() <= 4) return mkSub(a, mkAnd(a, mkC(m))); }
    // a few runs of ones
    if (b->c > 0) { std::vector<std::pair<unsigned, unsigned>> f; bitFields(b, f); if (f.size() <= 4) { Node *r = mkC(0L); for (auto &p : f) { Node *x = mkFMod(a, mkC(pow2(p.second))); r = mkAdd(r, mkSub(x, mkFMod(x, mkC(pow2(p.first))))); } return r; } }
  }
  for (int r = 0; r < 2; r++) {
    if (a->lo >= -1 && a->hi <= 0) return mkIte(mkLE0(mkAdd(a, mkC(1L))), b, mkC(0L)); // 0 or -1
    std::swap(a, b);
  }
  if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkAnd(a->k[1], b), mkAnd(a->k[2], b));
  if (b->op == O_ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkAnd(a, b->k[1]), mkAnd(a, b->k[2]));
  Z lo, hi;
  if (a->lo >= 0 || b->lo >= 0) { lo = 0; if (a->lo >= 0 && b->lo >= 0) hi = std::min(a->hi, b->hi); else hi = a->lo >= 0 ? a->hi : b->hi; }
  else { unsigned w = std::max(ivBits(a), ivBits(b)); lo = -pow2(w); hi = pow2(w) - 1; }
  if (a->id > b->id) std::swap(a, b);
  return mk2(O_AND, a, b, lo, hi);
}
Node *mkOr(Node *a, Node *b) {
  if (isC(a) && isC(b)) return mkC(Z(a->c | b->c));
  if (isC(a)) std::swap(a, b);
  if (a == b) return a;
  if (a->b && b->b) return mkBOr(a, b);
  if (isC(b)) { if (b->c == 0) return a; if (b->c == -1) return b; }
  // disjoint bits: a multiple of 2^k, b < 2^k
  for (int r = 0; r < 2; r++) {
    if (b->lo >= 0) {
      Z p = pow2(nbits(b->hi)); bool ok = true;
      if (a->op == O_LIN) { if (fmod_(a->c, p) != 0) ok = false; for (auto &z : a->co) if (fmod_(z, p) != 0) ok = false; }
      else if (isC(a)) ok = fmod_(a->c, p) == 0; else ok = false;
      if (ok) return mkAdd(a, b);
    }
    std::swap(a, b);
  }
  if (disjointBits(a, b)) return mkAdd(a, b);
  if (a->lo >= -1 && a->hi <= 0) return mkIte(mkLE0(mkAdd(a, mkC(1L))), mkC(Z(-1)), b);
  if (b->lo >= -1 && b->hi <= 0) return mkIte(mkLE0(mkAdd(b, mkC(1L))), mkC(Z(-1)), a);
  unsigned w = std::max(ivBits(a), ivBits(b)); Z lo, hi;
  if (a->lo >= 0 && b->lo >= 0) { lo = std::max(a->lo, b->lo); hi = pow2(w) - 1; } else { lo = -pow2(w); hi = (a->hi < 0 || b->hi < 0) ? Z(-1) : Z(pow2(w) - 1); }
  if (a->id > b->id) std::swap(a, b);
  return mk2(O_OR, a, b, lo, hi);
}
Node *mkXor(Node *a, Node *b) {
  if (isC(a) && isC(b)) return mkC(Z(a->c ^ b->c));
  if (isC(a)) std::swap(a, b);
  if (a == b) return mkC(0L);
  if (isC(b)) { if (b->c == 0) return a; if (b->c == -1) return mkSub(mkC(-1L), a); if (b->c == 1 && a->b) return mkNot(a); }
  if (a->b && b->b) return mkBOr(mkBAnd(a, mkNot(b)), mkBAnd(mkNot(a), b));
  if (disjointBits(a, b)) return mkAdd(a, b);
  unsigned w = std::max(ivBits(a), ivBits(b)); Z lo, hi;
  if (a->lo >= 0 && b->lo >= 0) { lo = 0; hi = pow2(w) - 1; } else { lo = -pow2(w); hi = pow2(w) - 1; }
  if (a->id > b->id) std::swap(a, b);
  return mk2(O_XOR, a, b, lo, hi);
}
Node *mkShl(Node *a, Node *b) {
  if (isC(b)) return scale(a, pow2(b->c.get_ui()));
  if (b->hi > 4096) { fprintf(stderr, "mkShl: huge shift\n"); abort(); }
  Z f = pow2(b->hi.get_ui()); Z lo = a->lo < 0 ? Z(a->lo * f) : Z(a->lo << b->lo.get_ui()), hi = a->hi < 0 ? Z(a->hi << b->lo.get_ui()) : Z(a->hi * f);
  if (b->hi <= 70) { // multiplication by table of powers
    std::vector<Z> t; for (unsigned i = 0; i <= b->hi.get_ui(); i++) t.push_back(pow2(i));
    return mkMul(a, mkSel(t, b));
  }
  return mk2(O_SHL, a, b, lo, hi);
}
Node *mkShr(Node *a, Node *b) {
  if (isC(b)) return mkFDiv(a, mkC(pow2(b->c.get_ui())));
  Z lo = a->lo < 0 ? Z(a->lo >> b->lo.get_ui()) : Z(a->lo >> b->hi.get_ui()), hi = a->hi < 0 ? Z(a->hi >> b->hi.get_ui()) : Z(a->hi >> b->lo.get_ui());
  return mk2(O_SHR, a, b, lo, hi);
}
Node *(*g_iteHook)(Node *, Node *, Node *) = nullptr;
Node *mkIte(Node *c, Node *a, Node *b) {
  if (isC(c)) return c->c != 0 ? a : b;
  if (a == b) return a;
  if (c->op == O_NOT) return mkIte(c->k[0], b, a);
  if (isC(a) && isC(b)) { // b + (a-b)*[c]
    if (a->c == 1 && b->c == 0) return c;
    if (a->c == 0 && b->c == 1) return mkNot(c);
    Z d = a->c - b->c; Lin l; l.push_back({c, d}); return fromLin(l, b->c);
  }
  if (a->b && b->b) return mkBOr(mkBAnd(c, a), mkBAnd(mkNot(c), b));
  // if x == 0 then 0|x else x mod m  ->  x mod m
  if (c->op == O_EQ0 && (b->op == O_FMOD || b->op == O_TREM) && b->k[0] == c->k[0] && (a == c->k[0] || (isC(a) && a->c == 0))) return b;
  if (c->op == O_EQ0 && a == c->k[0]) a = mkC(0L);
  // if x == 0 then 0 else y*x -> y*x
  if (c->op == O_EQ0 && isC(a) && a->c == 0 && b == c->k[0]) return b;
  if (g_iteHook && c->op == O_EQ0) { Node *h = g_iteHook(c, a, b); if (h) return h; }
  // difference constant -> linear
  Node *d = mkSub(a, b);
  if (isC(d)) { Lin l; Z k = 0; toLin(b, 1, l, k); l.push_back({c, d->c}); return fromLin(l, k); }
  if (a->op == O_ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == O_ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
  Node t; t.op = O_ITE; t.b = false; t.aux = 0; t.k = {c, a, b}; t.lo = std::min(a->lo, b->lo); t.hi = std::max(a->hi, b->hi);
  return intern(t);
}
Node *mkU(Node *a, int bits) {
  if (a->lo >= 0 && nbits(a->hi) <= (unsigned)bits) return a;
  return mkFMod(a, mkC(pow2(bits)));
}
Node *mkS(Node *a, int bits) {
  Z h = pow2(bits - 1);
  if (a->lo >= -h && a->hi < h) return a;
  if (isC(a)) { Z r = fmod_(a->c, pow2(bits)); if (r >= h) r -= pow2(bits); return mkC(r); }
  Z ql = fdiv(a->lo + h, pow2(bits)), qh = fdiv(a->hi + h, pow2(bits));
  if (ql == qh) return mkSub(a, mkC(Z(ql * pow2(bits))));
  // strip inner wraps
  if ((a->op == O_FMOD && isC(a->k[1]) && fmod_(a->k[1]->c, pow2(bits)) == 0)) return mkS(a->k[0], bits);
  if (a->op == O_SWRAP && a->aux >= bits) return mkS(a->k[0], bits);
  Node *f = mkFMod(a, mkC(pow2(bits)));
  if (f->op == O_FMOD && f->k[0] != a) return mkS(f->k[0], bits);
  return mk2(O_SWRAP, a, nullptr, -h, h - 1, false, bits);
}
Node *mkGcd(Node *a, Node *b) {
  if (isC(a) && isC(b)) return mkC(Z(gcd(a->c, b->c)));
  if (isC(a) && abs(a->c) == 1) return mkC(1L);
  if (isC(b) && abs(b->c) == 1) return mkC(1L);
  Z m = std::max(maxabs(a), maxabs(b));
  return mk2(O_GCD, a, b, Z(0), m);
}
Node *mkInv(Node *a, const Z &p) {
  Node *x = mkFMod(a, mkC(p));
  if (isC(x)) { Z r; if (x->c == 0) return mkC(0L); mpz_invert(r.get_mpz_t(), x->c.get_mpz_t(), p.get_mpz_t()); return mkC(r); }
  if (x->op == O_INV && x->k[1]->c == p) return x->k[0];
  return mk2(O_INV, x, mkC(p), x->lo > 0 ? Z(1) : Z(0), Z(p - 1));
}
static std::vector<std::vector<Z>> g_sel;
const std::vector<Z> &selTable(int aux) { return g_sel[aux]; }
Node *mkSel(const std::vector<Z> &tab, Node *idx) {
  if (isC(idx)) { long i = idx->c.get_si(); if (i < 0 || i >= (long)tab.size()) { fprintf(stderr, "mkSel range\n"); abort(); } return mkC(tab[i]); }
  long l = std::max(0L, idx->lo.get_si()), h = std::min((long)tab.size() - 1, idx->hi.get_si());
  Z lo = tab[l], hi = tab[l]; bool lin = true; Z d = h > l ? Z(tab[l + 1] - tab[l]) : Z(0);
  for (long i = l; i <= h; i++) { if (tab[i] < lo) lo = tab[i]; if (tab[i] > hi) hi = tab[i]; if (i > l && tab[i] - tab[i - 1] != d) lin = false; }
  if (lo == hi) return mkC(lo);
  if (lin) return mkAdd(mkC(Z(tab[l] - d * l)), scale(idx, d));
  int t = -1; for (size_t i = 0; i < g_sel.size(); i++) if (g_sel[i] == tab) { t = i; break; }
  if (t < 0) { t = g_sel.size(); g_sel.push_back(tab); }
  return mk2(O_SEL, idx, nullptr, lo, hi, false, t);
}
// truth function of a linear form of two comparisons (three-way comparison results): simplest equivalent formula, or null
static Node *twoBools(Node *a, bool eq) {
  if (a->op != O_LIN || a->k.size() != 2 || !a->k[0]->b || !a->k[1]->b) return nullptr; Node *P = a->k[0], *Q = a->k[1];
  bool excl = false; Node *mid = nullptr; if (P->op == O_LE0 && Q->op == O_LE0) { Node *s = mkAdd(P->k[0], Q->k[0]); if (isC(s) && s->c > 0) { excl = true; if (s->c == 2) mid = mkEQ0(mkSub(mkC(1L), P->k[0])); } }
  int tt = 0, care = excl ? 7 : 15; for (int i = 0; i < 4; i++) { Z v = a->c + ((i & 1) ? a->co[0] : Z(0)) + ((i & 2) ? a->co[1] : Z(0)); if (eq ? v == 0 : v <= 0) tt |= 1 << i; } // bit i: P = i&1, Q = i>>1
  tt &= care; auto is = [&](int f) { return (f & care) == tt; };
  if (is(0)) return mkC(0L); if (is(15)) return mkC(1L); if (is(10)) return P; if (is(12)) return Q; if (is(5)) return mkNot(P); if (is(3)) return mkNot(Q);
  if (mid && tt == 1) return mid; if (mid && tt == 6) return mkNot(mid);
  if (is(1)) return mkBAnd(mkNot(P), mkNot(Q)); if (is(8)) return mkBAnd(P, Q); if (is(14)) return mkBOr(P, Q); if (is(2)) return mkBAnd(P, mkNot(Q)); if (is(4)) return mkBAnd(Q, mkNot(P));
  return nullptr;
}
Node *mkLE0(Node *a) {
  if (a->hi <= 0) return mkC(1L);
  if (a->lo > 0) return mkC(0L);
  if (a->op == O_LIN) {
    Z g = 0; for (auto &z : a->co) g = gcd(g, z);
    if (g > 1) { Lin l; for (size_t i = 0; i < a->k.size(); i++) l.push_back({a->k[i], a->co[i] / g}); // sum <= -c  => sum/g <= floor(-c/g)
      Z c = -fdiv(Z(-a->c), g); return mkLE0(fromLin(l, c)); }
    if (a->k.size() == 1 && a->k[0]->b) { // coef +-1
      // co*b + c <= 0
      bool t1 = a->co[0] + a->c <= 0, t0 = a->c <= 0; if (t1 && t0) return mkC(1L); if (!t1 && !t0) return mkC(0L); return t1 ? a->k[0] : mkNot(a->k[0]);
    }
    if (Node *t = twoBools(a, false)) return t;
  } else if (a->b) return mkNot(a);
  return mk2(O_LE0, a, nullptr, Z(0), Z(1), true);
}
Node *mkLE(Node *a, Node *b) { return mkLE0(mkSub(a, b)); }
Node *mkLT(Node *a, Node *b) { return mkLE0(mkAdd(mkSub(a, b), mkC(1L))); }
Node *mkEQ0(Node *a) {
  if (isC(a)) return mkC(a->c == 0 ? 1L : 0L);
  if (a->lo > 0 || a->hi < 0) return mkC(0L);
  if (a->b) return mkNot(a);
  if (a->op == O_LIN) {
    if (Node *t = twoBools(a, true)) return t;
    Z g = 0; for (auto &z : a->co) g = gcd(g, z);
    if (fmod_(a->c, g) != 0) return mkC(0L);
    bool flip = a->co[0] < 0;
    if (g > 1 || flip) { if (flip) g = -g; Lin l; for (size_t i = 0; i < a->k.size(); i++) l.push_back({a->k[i], a->co[i] / g}); return mkEQ0(fromLin(l, a->c / g)); }
    if (a->k.size() == 1 && a->k[0]->b) { if (a->c == 0) return mkNot(a->k[0]); if (a->c == -1) return a->k[0]; return mkC(0L); }
    if (a->k.size() == 1 && a->k[0]->op == O_ITE) { Node *i = a->k[0]; Z v = -a->c; // ite == v
      if (isC(i->k[1]) || isC(i->k[2])) return mkBOr(mkBAnd(i->k[0], mkEQ0(mkSub(i->k[1], mkC(v)))), mkBAnd(mkNot(i->k[0]), mkEQ0(mkSub(i->k[2], mkC(v))))); }
  }
  if (a->op == O_MUL) return mkBOr(mkEQ0(a->k[0]), mkEQ0(a->k[1]));
  if (a->op == O_SWRAP) return mkEQ0(mkFMod(a->k[0], mkC(pow2(a->aux))));
  if (a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkBOr(mkBAnd(a->k[0], mkEQ0(a->k[1])), mkBAnd(mkNot(a->k[0]), mkEQ0(a->k[2])));
  return mk2(O_EQ0, a, nullptr, Z(0), Z(1), true);
}
Node *mkEQ(Node *a, Node *b) { return mkEQ0(mkSub(a, b)); }
Node *mkNot(Node *a) {
  if (isC(a)) return mkC(a->c == 0 ? 1L : 0L);
  if (!a->b) return mkEQ0(a);
  if (a->op == O_NOT) return a->k[0];
  if (a->op == O_LE0) return mkLE0(mkSub(mkC(1L), a->k[0]));
  return mk2(O_NOT, a, nullptr, Z(0), Z(1), true);
}
Node *mkBool(Node *a) { if (a->b) return a; return mkNot(mkEQ0(a)); }
Node *mkBAnd(Node *a, Node *b) {
  a = mkBool(a); b = mkBool(b);
  if (isC(a)) return a->c != 0 ? b : mkC(0L);
  if (isC(b)) return b->c != 0 ? a : mkC(0L);
  if (a == b) return a;
  if (mkNot(a) == b) return mkC(0L);
  if (a->id > b->id) std::swap(a, b);
  return mk2(O_BAND, a, b, Z(0), Z(1), true);
}
Node *mkBOr(Node *a, Node *b) {
  a = mkBool(a); b = mkBool(b);
  if (isC(a)) return a->c != 0 ? mkC(1L) : b;
  if (isC(b)) return b->c != 0 ? mkC(1L) : a;
  if (a == b) return a;
  if (mkNot(a) == b) return mkC(1L);
  if (a->id > b->id) std::swap(a, b);
  return mk2(O_BOR, a, b, Z(0), Z(1), true);
}
bool inRange(const std::vector<Z> &m) { for (size_t i = 0; i < m.size() && i < g_vars.size(); i++) if (m[i] < g_vars[i].lo || m[i] > g_vars[i].hi) return false; return true; }
void refineTrue(Node *c) {
  if (c->op == O_BAND) { refineTrue(c->k[0]); refineTrue(c->k[1]); return; }
  if (c->op == O_NOT) {
    Node *e = c->k[0];
    if (e->op == O_BOR) { refineTrue(mkNot(e->k[0])); refineTrue(mkNot(e->k[1])); return; }
    if (e->op == O_EQ0) { Node *a = e->k[0]; Node *t = a; Z v = 0;
      if (a->op == O_LIN && a->k.size() == 1 && abs(a->co[0]) == 1) { t = a->k[0]; v = -a->c * a->co[0]; } else if (a->op == O_LIN) return;
      if (t->lo == v && t->lo < t->hi) t->lo += 1; else if (t->hi == v && t->lo < t->hi) t->hi -= 1; }
    return;
  }
  if (c->op == O_LE0 || c->op == O_EQ0) {
    Node *a = c->k[0]; Node *t = a; Z co = 1, cc = 0;
    if (a->op == O_LIN) { if (a->k.size() != 1) { if (a->hi > 0) a->hi = 0; return; } t = a->k[0]; co = a->co[0]; cc = a->c; }
    if (t->b) return;
    if (c->op == O_LE0) { // co*t <= -cc
      if (co > 0) { Z u = fdiv(Z(-cc), co); if (u < t->hi && u >= t->lo) t->hi = u; }
      else { Z u = -fdiv(Z(-cc), Z(-co)); if (u > t->lo && u <= t->hi) t->lo = u; }
    } else { Z v = fdiv(Z(-cc), co); if (v * co == -cc && v >= t->lo && v <= t->hi) { t->lo = v; t->hi = v; } }
  }
}
Z evalNode(Node *n, const Model &m, uint32_t ep) {
  if (n->op == O_CONST) return n->c;
  if (n->ev_epoch == ep) return n->ev;
  Z r;
  switch (n->op) {
  case O_VAR: r = n->aux < (int)m.size() ? m[n->aux] : n->lo; break;
  case O_LIN: r = n->c; for (size_t i = 0; i < n->k.size(); i++) r += n->co[i] * evalNode(n->k[i], m, ep); break;
  case O_ITE: r = evalNode(n->k[0], m, ep) != 0 ? evalNode(n->k[1], m, ep) : evalNode(n->k[2], m, ep); break;
  case O_NOT: r = evalNode(n->k[0], m, ep) == 0 ? 1 : 0; break;
  case O_LE0: r = evalNode(n->k[0], m, ep) <= 0 ? 1 : 0; break;
  case O_EQ0: r = evalNode(n->k[0], m, ep) == 0 ? 1 : 0; break;
  case O_BAND: r = (evalNode(n->k[0], m, ep) != 0 && evalNode(n->k[1], m, ep) != 0) ? 1 : 0; break;
  case O_BOR: r = (evalNode(n->k[0], m, ep) != 0 || evalNode(n->k[1], m, ep) != 0) ? 1 : 0; break;
  case O_SWRAP: { Z h = pow2(n->aux - 1); r = fmod_(evalNode(n->k[0], m, ep) + h, pow2(n->aux)) - h; break; }
  case O_SEL: { Z i = evalNode(n->k[0], m, ep); auto &t = g_sel[n->aux]; r = (i >= 0 && i < (long)t.size()) ? t[i.get_si()] : Z(0); break; }
  default: {
    Z a = evalNode(n->k[0], m, ep), b = evalNode(n->k[1], m, ep);
    switch (n->op) {
    case O_MUL: r = a * b; break;
    case O_TDIV: r = b == 0 ? Z(0) : tdiv(a, b); break;
    case O_TREM: r = b == 0 ? Z(0) : trem(a, b); break;
    case O_FDIV: r = b == 0 ? Z(0) : fdiv(a, b); break;
    case O_FMOD: r = b == 0 ? Z(0) : fmod_(a, b); break;
    case O_AND: r = a & b; break; case O_OR: r = a | b; break; case O_XOR: r = a ^ b; break;
    case O_SHL: r = a << b.get_ui(); break; case O_SHR: r = a >> b.get_ui(); break;
    case O_GCD: r = gcd(a, b); break;
    case O_INV: if (fmod_(a, b) == 0) r = 0; else mpz_invert(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); break;
    default: abort();
    } }
  }
  n->ev_epoch = ep; n->ev = r; return r;
}
std::string nodeStr(Node *n, int d) {
  if (isC(n)) return n->c.get_str();
  if (n->op == O_VAR) return g_vars[n->aux].name;
  static const char *nm[] = {"const","var","lin","mul","tdiv","trem","fdiv","fmod","and","or","xor","shl","shr","ite","swrap","sel","gcd","inv","le0","eq0","not","band","bor"};
  std::string s = std::string("(") + nm[n->op]; if (n->aux) s += "#" + std::to_string(n->aux);
  if (d <= 0) return s + " ..)";
  if (n->op == O_LIN) s += " " + n->c.get_str();
  for (size_t i = 0; i < n->k.size(); i++) { s += " "; if (n->op == O_LIN) s += n->co[i].get_str() + "*"; s += nodeStr(n->k[i], d - 1); }
  return s + ")";
}
