// symx: symbolic execution of LLVM IR; path conditions decided by Z3.
#include "interp.h"
#include "field.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Support/SourceMgr.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <semaphore.h>
#include <cmath>
#include <ctime>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <unordered_map>
#include <errno.h>
using namespace llvm;
static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout *DL;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// ---------------- shared state
struct Shared { sem_t tokens; volatile int stop; int nviol; int maxviol; uint64_t paths, forks, steps, asserts, assertsTriv, inconc, assumeDead, exits, branches; char inc[64][200]; int ninc; char cover[128][48]; uint64_t coverN[128]; int ncover; sem_t mu; double deadline; uint64_t procs; SolverStats ss; uint64_t maxnodes, guess, fnorm, merged, fundec, softcut; char funcs[1 << 16]; uint32_t fnlen; int killed; };
static Shared *SH; std::string g_out = "."; uint64_t g_steps = 0; static uint64_t g_maxsteps = 2000000000ull; static bool haveToken = true; static std::vector<Model> models; static bool g_exitviol = false; static std::vector<std::string> g_summ; static bool g_noinc = false; static int g_witness = 0; static std::vector<std::string> g_inv;
// ---------------- memory
static const uint64_t ABASE = 0x100000000000ull, ASIZE = 1ull << 36; static uint8_t *SHD; static uint64_t abump = ABASE + 65536; static const uint64_t SBASE = ABASE + ASIZE - (1ull << 30); static uint64_t sp = SBASE;
struct SymB { Node *n; uint8_t off, sz; };
struct Gran { SymB b[8]; };
static std::unordered_map<uint64_t, Gran> sym;
struct Alloc { uint64_t size; const char *tag; bool live; };
static std::map<uint64_t, Alloc> allocs;
static inline uint8_t &shd(uint64_t a) { return SHD[(a - ABASE) >> 3]; }
static const uint8_t SYMF = 0x80, FREED = 0x40;
static void setShadow(uint64_t a, uint64_t n) { // a 8-aligned
  memset(&shd(a), 8, n / 8); if (n & 7) shd(a + (n & ~7ull)) = n & 7; }
static void dropSym(uint64_t a, uint64_t n) { for (uint64_t g = a >> 3; g <= (a + (n ? n - 1 : 0)) >> 3; g++) if (SHD[g - (ABASE >> 3)] & SYMF) { sym.erase(g); SHD[g - (ABASE >> 3)] &= ~SYMF; } }
uint64_t memAlloc(uint64_t size, const char *tag, bool zero) {
  uint64_t a = (abump + 63) & ~63ull; if (a + size + 128 > SBASE) inconclusive("arena exhausted");
  abump = a + size + 64; setShadow(a, size); allocs[a] = {size, tag, true};
  if (!zero && size <= (1 << 16)) memset((void *)a, 0xBE, size);
  return a;
}
static void memBad(uint64_t addr, uint64_t n, bool w) {
  std::string s = w ? "invalid write" : "invalid read"; char buf[160];
  auto it = allocs.upper_bound(addr); std::string ob = "no object";
  if (it != allocs.begin()) { --it; snprintf(buf, sizeof buf, "%s object '%s' size %lu offset %ld", it->second.live ? "live" : "FREED", it->second.tag, (unsigned long)it->second.size, (long)(addr - it->first)); ob = buf; }
  snprintf(buf, sizeof buf, " of %lu bytes at 0x%lx: ", (unsigned long)n, (unsigned long)addr); violation(s + buf + ob, nullptr);
}
void memCheck(uint64_t a, uint64_t n, bool w) {
  if (!n) return; if (a < ABASE || a + n > ABASE + ASIZE) memBad(a, n, w);
  uint64_t e = a + n;
  for (uint64_t g = a & ~7ull; g < e; g += 8) { uint8_t s = shd(g) & 0x0f; if (s == 8) continue; uint64_t last = e - g; if (last > 8) last = 8; if (last > s || (shd(g) & FREED)) memBad(a, n, w); }
}
void memFree(uint64_t a) {
  if (!a) return; auto it = allocs.find(a); if (it == allocs.end() || !it->second.live || it->second.tag[0] != 'h') { violation(it == allocs.end() ? "free of invalid pointer" : "double free or free of non-heap object", nullptr); }
  it->second.live = false; uint64_t n = it->second.size; dropSym(a, n); memset(&shd(a), FREED, (n + 7) / 8);
  if (n >= (1 << 16)) { uint64_t s = (a + 4095) & ~4095ull, e = (a + n) & ~4095ull; if (e > s) madvise((void *)s, e - s, MADV_DONTNEED); }
}
uint64_t memSize(uint64_t a) { auto it = allocs.find(a); if (it == allocs.end() || !it->second.live) violation("realloc of invalid pointer", nullptr); return it->second.size; }
Node *vN(V v, int w) { if (v.n) return v.n; if (w == 64) { Z z; mpz_set_ui(z.get_mpz_t(), v.c); return mkC(z); } return mkC((long)v.c); }
static inline uint64_t msk(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static uint64_t zlow(const Z &z) { Z r; mpz_fdiv_r_2exp(r.get_mpz_t(), z.get_mpz_t(), 64); return mpz_get_ui(r.get_mpz_t()); }
V nV(Node *n, int w) {
  if (w > 64) return V{0, n}; if (isC(n)) return V{zlow(n->c) & msk(w), nullptr};
  // keep lazily-wrapped values bounded
  if (n->hi > 0 && mpz_sizeinbase(n->hi.get_mpz_t(), 2) > (unsigned)(2 * w + 8)) { n = mkU(n, w); if (isC(n)) return V{zlow(n->c), nullptr}; }
  else if (n->lo < 0 && mpz_sizeinbase(n->lo.get_mpz_t(), 2) > (unsigned)(2 * w + 8)) { n = mkU(n, w); if (isC(n)) return V{zlow(n->c), nullptr}; }
  return V{0, n};
}
static V loadSlow(uint64_t a, int n) {
  memCheck(a, n, false);
  bool anys = false; for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; g++) if (SHD[g - (ABASE >> 3)] & SYMF) anys = true;
  uint64_t raw = 0;
  if (!anys) { memcpy(&raw, (void *)a, n); return cV(raw); }
  SymB bs[16]; bool any = false;
  for (int i = 0; i < n; i++) { bs[i].n = nullptr; uint64_t g = (a + i) >> 3; if (SHD[g - (ABASE >> 3)] & SYMF) { bs[i] = sym[g].b[(a + i) & 7]; if (bs[i].n) any = true; } }
  if (!any) { memcpy(&raw, (void *)a, n); return cV(raw); }
  bool run = bs[0].n != nullptr; for (int i = 1; i < n && run; i++) if (bs[i].n != bs[0].n || bs[i].off != bs[0].off + i) run = false;
  if (run) { if (bs[0].off == 0) return nV(bs[0].n, n * 8); Node *x = mkFDiv(mkU(bs[0].n, bs[0].sz * 8), mkC(pow2(8 * bs[0].off))); return nV(mkU(x, n * 8), n * 8); }
  Node *r = mkC(0L);
  for (int i = 0; i < n;) { // group maximal runs
    if (!bs[i].n) { uint8_t b = *(uint8_t *)(a + i); if (b) r = mkAdd(r, mkC(Z(Z(b) << (8 * i)))); i++; continue; }
    int j = i + 1; while (j < n && bs[j].n == bs[i].n && bs[j].off == bs[i].off + (j - i)) j++;
    Node *x = mkFDiv(mkU(bs[i].n, bs[i].sz * 8), mkC(pow2(8 * bs[i].off))); x = mkU(x, (j - i) * 8); r = mkAdd(r, mkMul(x, mkC(pow2(8 * i)))); i = j;
  }
  return nV(r, n * 8);
}
V memLoad(uint64_t a, int n) {
  if (a >= ABASE && a + n <= ABASE + ASIZE && (a & 7) + n <= 8 && shd(a) == 8) { uint64_t r = 0; switch (n) { case 1: return cV(*(uint8_t *)a); case 2: return cV(*(uint16_t *)a); case 4: return cV(*(uint32_t *)a); case 8: return cV(*(uint64_t *)a); } memcpy(&r, (void *)a, n); return cV(r); }
  if (n > 8) { memCheck(a, n, false); Node *r = mkC(0L); int k = 0; while (k < n) { int m = n - k > 8 ? 8 : n - k; V v = memLoad(a + k, m); r = mkAdd(r, mkMul(mkU(vN(v, 64), m * 8), mkC(pow2(8 * k)))); k += m; } return V{0, r}; }
  return loadSlow(a, n);
}
static void storeSlow(uint64_t a, V v, int n) {
  memCheck(a, n, true);
  for (int i = 0; i < n; i++) {
    uint64_t g = (a + i) >> 3; uint8_t &s = SHD[g - (ABASE >> 3)];
    if (v.n) { if (!(s & SYMF)) { s |= SYMF; Gran z; memset(&z, 0, sizeof z); sym[g] = z; } sym[g].b[(a + i) & 7] = {v.n, (uint8_t)i, (uint8_t)n}; }
    else { *(uint8_t *)(a + i) = v.c >> (8 * i); if (s & SYMF) { Gran &gr = sym[g]; gr.b[(a + i) & 7].n = nullptr; bool any = false; for (int k = 0; k < 8; k++) if (gr.b[k].n) any = true; if (!any) { sym.erase(g); s &= ~SYMF; } } }
  }
}
void memStore(uint64_t a, V v, int n) {
  if (!v.n && a >= ABASE && a + n <= ABASE + ASIZE && (a & 7) + n <= 8 && shd(a) == 8) { switch (n) { case 1: *(uint8_t *)a = v.c; return; case 2: *(uint16_t *)a = v.c; return; case 4: *(uint32_t *)a = v.c; return; case 8: *(uint64_t *)a = v.c; return; } memcpy((void *)a, &v.c, n); return; }
  if (n > 8) { memCheck(a, n, true); int k = 0; while (k < n) { int m = n - k > 8 ? 8 : n - k; Node *x = mkU(mkFDiv(mkU(vN(v, 64), n * 8), mkC(pow2(8 * k))), 8 * m); memStore(a + k, nV(x, 8 * m), m); k += m; } return; }
  storeSlow(a, v, n);
}
void memCopy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n || d == s) { if (n) memCheck(d, n, true); return; }
  memCheck(s, n, false); memCheck(d, n, true);
  bool anyS = false; for (uint64_t g = s >> 3; g <= (s + n - 1) >> 3; g++) if (SHD[g - (ABASE >> 3)] & SYMF) { anyS = true; break; }
  bool anyD = false; for (uint64_t g = d >> 3; g <= (d + n - 1) >> 3; g++) if (SHD[g - (ABASE >> 3)] & SYMF) { anyD = true; break; }
  if (!anyS && !anyD) { memmove((void *)d, (void *)s, n); return; }
  // byte records
  std::vector<SymB> bs(n); for (uint64_t i = 0; i < n; i++) { bs[i].n = nullptr; uint64_t g = (s + i) >> 3; if (SHD[g - (ABASE >> 3)] & SYMF) bs[i] = sym[g].b[(s + i) & 7]; }
  std::vector<uint8_t> raw((uint8_t *)s, (uint8_t *)s + n);
  for (uint64_t i = 0; i < n; i++) { uint64_t g = (d + i) >> 3; uint8_t &h = SHD[g - (ABASE >> 3)];
    if (bs[i].n) { if (!(h & SYMF)) { h |= SYMF; Gran z; memset(&z, 0, sizeof z); sym[g] = z; } sym[g].b[(d + i) & 7] = bs[i]; }
    else { *(uint8_t *)(d + i) = raw[i]; if (h & SYMF) { Gran &gr = sym[g]; gr.b[(d + i) & 7].n = nullptr; bool any = false; for (int k = 0; k < 8; k++) if (gr.b[k].n) any = true; if (!any) { sym.erase(g); h &= ~SYMF; } } } }
}
void memFill(uint64_t d, V v, uint64_t n) {
  if (!n) return; memCheck(d, n, true);
  if (v.n) { for (uint64_t i = 0; i < n; i++) memStore(d + i, v, 1); return; }
  uint64_t i = 0; // handle partial granules through memStore when symbolic
  bool anyD = false; for (uint64_t g = d >> 3; g <= (d + n - 1) >> 3; g++) if (SHD[g - (ABASE >> 3)] & SYMF) { anyD = true; break; }
  if (anyD) { for (i = 0; i < n; i++) memStore(d + i, v, 1); return; }
  memset((void *)d, (int)v.c, n);
}
std::string memStr(uint64_t a) { std::string s; for (;;) { V v = memLoad(a++, 1); uint64_t c = v.n ? concretize(v, 8, "string") : v.c; if (!c) break; s.push_back((char)c); if (s.size() > 1 << 20) break; } return s; }
// ---------------- functions and frames
static std::unordered_map<std::string, Func *> funcs; static std::unordered_map<uint64_t, Func *> byAddr; static std::unordered_map<const Value *, Func *> byVal;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
struct Frame { Func *f; int pc; int base; int retDst; uint64_t sp; uint64_t va; };
static std::vector<Frame> fr; static std::vector<V> regs; static std::vector<V> cpool;
std::string backtrace() { std::string s; for (int i = (int)fr.size() - 1; i >= 0 && i > (int)fr.size() - 14; i--) { s += fr[i].f->name; s += i ? " <- " : ""; } return s; }
// ---------------- path termination
static void flushStats() {
  __sync_fetch_and_add(&SH->steps, g_steps); g_steps = 0; if (g_nnodes > SH->maxnodes) SH->maxnodes = g_nnodes;
}
[[noreturn]] static void procExit() {
  flushStats(); fflush(stdout); fflush(stderr);
  if (haveToken) { sem_post(&SH->tokens); haveToken = false; }
  int st; while (wait(&st) > 0 || errno == EINTR) if (st != 0) { SH->killed++; }
  _exit(0);
}
static bool modelOK(Node *cond, Model *&out);
void pathEnd() { uint64_t k = __sync_fetch_and_add(&SH->paths, 1);
  if (k < (uint64_t)g_witness || (k & (k - 1)) == 0 && k < 5000 && g_witness) { Model *m; if (modelOK(mkC(1L), m)) { std::string fn = g_out + "/path_" + std::to_string(k) + ".txt"; FILE *f = fopen((fn + ".tmp").c_str(), "w"); if (f) { for (size_t i = 0; i < g_vars.size(); i++) fprintf(f, "%s %s\n", g_vars[i].name.c_str(), i < m->size() ? (*m)[i].get_str().c_str() : g_vars[i].n->lo.get_str().c_str()); fclose(f); rename((fn + ".tmp").c_str(), fn.c_str()); } } }
  procExit(); }
void inconclusive(const std::string &why) {
  __sync_fetch_and_add(&SH->inconc, 1); sem_wait(&SH->mu); bool f = false; for (int i = 0; i < SH->ninc; i++) if (!strncmp(SH->inc[i], why.c_str(), 199)) f = true;
  if (!f && SH->ninc < 64) { strncpy(SH->inc[SH->ninc], why.c_str(), 199); SH->ninc++; } sem_post(&SH->mu);
  if (getenv("SYMX_V")) fprintf(stderr, "inconclusive: %s at %s\n", why.c_str(), backtrace().c_str());
  procExit();
}
static void needModel(Node *cond, Model &m) {
  if (g_fieldP != 0) { int d = fieldSolve(cond ? cond : mkC(1L), &m, solverPC(), 200); if (d == 1) return; if (d == 0) procExit(); }
  SRes r = solverCheck(cond ? cond : mkC(1L), &m, g_hard_timeout); if (r == S_UNSAT) procExit(); if (r != S_SAT) inconclusive("no model for violation");
}
static void writeViol(const std::string &msg, const Model &m) {
  if (!inRange(m)) inconclusive("model out of range");
  int k = __sync_fetch_and_add(&SH->nviol, 1); if (k >= SH->maxviol) { SH->stop = 1; procExit(); }
  if (k + 1 >= SH->maxviol) SH->stop = 1;
  std::string fn = g_out + "/viol_" + std::to_string(k) + ".txt"; FILE *f = fopen((fn + ".tmp").c_str(), "w");
  fprintf(f, "# %s\n# at %s\n", msg.c_str(), backtrace().c_str());
  for (size_t i = 0; i < g_vars.size(); i++) fprintf(f, "%s %s\n", g_vars[i].name.c_str(), i < m.size() ? m[i].get_str().c_str() : g_vars[i].n->lo.get_str().c_str());
  fclose(f); rename((fn + ".tmp").c_str(), fn.c_str());
  fprintf(stderr, "symx violation: %s\n  at %s\n", msg.c_str(), backtrace().c_str());
}
static bool modelOK(Node *cond, Model *&out) { for (auto &m : models) { if (m.size() < g_vars.size()) { size_t o = m.size(); m.resize(g_vars.size()); for (size_t i = o; i < m.size(); i++) m[i] = g_vars[i].n->lo; } if (evalNode(cond, m, newEpoch()) != 0) { out = &m; return true; } } return false; }
void violation(const std::string &msg, Node *cond) {
  Model m; Model *pm; if (modelOK(cond ? cond : mkC(1L), pm)) m = *pm; else needModel(cond, m);
  writeViol(msg, m); procExit();
}
static void tick() { if (SH->stop) procExit(); if (now() > SH->deadline) inconclusive("time budget exhausted"); }
static bool exhOK(); static void addModel(const Model &m) { if (exhOK()) return; if (models.size() >= 6) models.erase(models.begin()); models.push_back(m); }
static void keepModels(Node *c) { std::vector<Model> k; for (auto &m : models) { if (m.size() < g_vars.size()) { size_t o = m.size(); m.resize(g_vars.size()); for (size_t i = o; i < m.size(); i++) m[i] = g_vars[i].n->lo; } if (evalNode(c, m, newEpoch()) != 0) k.push_back(m); } models.swap(k); }
static bool p_large() { return g_fieldP > 300; }
// returns: feasible? and stores model
// When the solver certifies that the path condition has only a few models left (it lists them and then answers unsat), later conditions of the path are decided on that list.
static bool exh; static size_t exhVars; static unsigned exhQ, exhLim = 24; enum { EXHMAX = 24 };
static bool exhOK() { if (exh && exhVars != g_vars.size()) { exh = false; exhQ = 0; } return exh; }
static void exhTry() { static bool off = getenv("SYMX_NOEXH"); if (off || exh || g_fieldP != 0 || ++exhQ < exhLim) return; exhQ = 0; std::vector<Model> all; Node *blk = mkC(1L); for (size_t n = g_vars.size();;) { Model m; SRes r = solverCheck(blk, &m, g_query_timeout); if (r == S_UNSAT) { models.swap(all); exh = true; exhVars = n; return; } if (r != S_SAT || all.size() >= EXHMAX) { exhLim *= 2; return; } for (size_t o = m.size(); o < n; o++) m.push_back(g_vars[o].n->lo); all.push_back(m); Node *eq = mkC(1L); for (size_t i = 0; i < n; i++) eq = mkBAnd(eq, mkEQ(g_vars[i].n, mkC(m[i]))); blk = mkBAnd(blk, mkNot(eq)); } }
static int feasible(Node *c) { // 1 sat, 0 unsat, 2 unknown
  if (isC(c)) return c->c != 0; Model *pm; if (modelOK(c, pm)) { __sync_fetch_and_add(&g_ss->cached, 1); return 1; }
  if (exhOK()) { __sync_fetch_and_add(&g_ss->cached, 1); return 0; }
  tick(); exhTry(); if (exhOK()) return modelOK(c, pm); Model m; if (g_fieldP != 0) { int d = fieldSolve(c, &m, solverPC(), 40); if (d != 2) __sync_fetch_and_add(&SH->guess, 1); if (d == 1) { addModel(m); return 1; } if (d == 0) return 0; Node *k = c->op == O_NOT ? c->k[0] : c; if (p_large() && k->op == O_EQ0 && k->k[0]->op == O_FMOD && isC(k->k[0]->k[1]) && k->k[0]->k[1]->c == g_fieldP) { __sync_fetch_and_add(&SH->fundec, 1); return 2; } }
  SRes r = solverCheck(c, &m, g_fieldP != 0 ? std::min(0.5, g_query_timeout) : g_query_timeout, g_fieldP != 0); if (r == S_SAT) { addModel(m); return 1; } return r == S_UNSAT ? 0 : 2;
}
static bool doFork() { // true in child
  fflush(stderr); fflush(stdout);
  __sync_fetch_and_add(&SH->forks, 1);
  bool got = sem_trywait(&SH->tokens) == 0;
  flushStats();
  pid_t p; int tries = 0; while ((p = fork()) < 0) { if (++tries > 50) inconclusive("fork failed"); usleep(20000); }
  if (p == 0) { haveToken = got ? true : haveToken; if (!got) { haveToken = false; } return true; }
  if (!got) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (st != 0) SH->killed++; }
  return false;
}
static void take(Node *c) { static const char *tk = getenv("SYMX_TAKE"); if (tk) fprintf(stderr, "take[%d] %s at %s\n", getpid(), nodeStr(c, atoi(tk)).c_str(), backtrace().c_str()); fieldLearn(c); solverAssert(c); keepModels(c); }
static std::map<Node *, bool> softZero; static int softForks; int g_softmax = 4;
static bool fieldPure(Node *e, std::set<Node *> &seen) { if (isC(e) || e->op == O_VAR || !seen.insert(e).second) return true; if (e->op != O_LIN && e->op != O_MUL && e->op != O_FMOD && e->op != O_INV) return false; for (auto *k : e->k) if (!fieldPure(k, seen)) return false; return true; }
bool branchOn(Node *cond) {
  cond = mkBool(cond); if (isC(cond)) return cond->c != 0;
  if (g_fieldP != 0) { Node *f = fieldNorm(cond); if (f != cond) { __sync_fetch_and_add(&SH->fnorm, 1); cond = f; if (isC(cond)) return cond->c != 0; if (cond->op == O_BOR) { Node *a = cond->k[0], *b = cond->k[1]; if (branchOn(a)) return true; return branchOn(b); } if (cond->op == O_NOT && cond->k[0]->op == O_BOR) return !branchOn(cond->k[0]); if (cond->op == O_NOT && cond->k[0]->op == O_BOR) return !branchOn(cond->k[0]); } if (cond->op == O_BOR) { bool fl = true; std::vector<Node *> st{cond}; while (!st.empty() && fl) { Node *n = st.back(); st.pop_back(); if (n->op == O_BOR) { st.push_back(n->k[0]); st.push_back(n->k[1]); } else if (n->op != O_EQ0) fl = false; } if (fl) { Node *a = cond->k[0], *b = cond->k[1]; if (branchOn(a)) return true; return branchOn(b); } } }
  if (g_fieldP != 0) { // zero test of an unreduced accumulator: decide the residue first; a zero residue leaves "0 or a nonzero multiple of p" open
    Node *k = cond->op == O_NOT ? cond->k[0] : cond; bool neg = k != cond;
    if (k->op == O_EQ0 && k->k[0]->hi - k->k[0]->lo >= g_fieldP) { Node *e = k->k[0]; auto it = softZero.find(e); if (it != softZero.end()) return it->second != neg; Node *r = mkFMod(e, mkC(g_fieldP)); std::set<Node *> seen;
      if (r != e && fieldPure(r, seen)) { if (branchOn(mkNot(mkEQ0(r)))) { softZero[e] = false; return neg; }
        if (isC(e) ) return (e->c == 0) != neg; __sync_fetch_and_add(&SH->fundec, 1);
        Model *pm; bool z = modelOK(mkEQ0(e), pm), nz = modelOK(mkNot(mkEQ0(e)), pm); bool one = softForks >= g_softmax; if (one) { __sync_fetch_and_add(&SH->softcut, 1); softZero[e] = !nz && z; return softZero[e] != neg; }
        softForks++; bool ch = doFork(); softZero[e] = ch; return ch != neg; } } }
  __sync_fetch_and_add(&SH->branches, 1);
  Node *nc = mkNot(cond); int t = feasible(cond), f;
  if (t == 0) { take(nc); return false; }
  f = feasible(nc); if (f == 0) { take(cond); return true; }
  if (SH->stop) procExit();
  if (doFork()) { take(nc); return false; }
  take(cond); return true;
}
uint64_t concretize(V v, int w, const char *why) {
  if (!v.n) return v.c; Node *u = mkU(v.n, w); if (isC(u)) return zlow(u->c);
  int guard = 0;
  for (;;) {
    Node *t = mkC(1L); if (feasible(t) == 0) procExit(); Model *pm; if (!modelOK(t, pm)) { Model m; SRes r = solverCheck(t, &m, g_hard_timeout); if (r == S_UNSAT) procExit(); if (r == S_UNK) inconclusive(std::string("concretize: ") + why); addModel(m); pm = &models.back(); }
    Z val = evalNode(u, *pm, newEpoch()); Node *eq = mkEQ(u, mkC(val));
    if (branchOn(eq)) return zlow(val);
    if (++guard > 4096) inconclusive(std::string("too many values: ") + why);
  }
}
void assumeTrue(Node *c) { c = mkBool(c); if (isC(c)) { if (c->c == 0) { __sync_fetch_and_add(&SH->assumeDead, 1); procExit(); } return; }
  int f = feasible(c); if (f == 0) { __sync_fetch_and_add(&SH->assumeDead, 1); procExit(); } take(c); }
Node *normCong(Node *c);
void checkTrue(Node *c, const std::string &msg) {
  __sync_fetch_and_add(&SH->asserts, 1); c = mkBool(c);
  if (isC(c)) { if (c->c != 0) { __sync_fetch_and_add(&SH->assertsTriv, 1); return; } violation(msg, nullptr); }
  if (g_fieldP != 0) { Node *f = fieldNorm(c); if (f != c) { __sync_fetch_and_add(&SH->fnorm, 1); c = f; if (isC(c) && c->c != 0) { __sync_fetch_and_add(&SH->assertsTriv, 1); return; } if (isC(c)) violation(msg, nullptr); } }
  Node *c2 = normCong(c); if (isC(c2) && c2->c != 0) { __sync_fetch_and_add(&SH->assertsTriv, 1); return; }
  Node *nc = mkNot(c2); Model *pm; if (modelOK(nc, pm)) { Model m = *pm; writeViol(msg, m); procExit(); } if (exhOK()) return;
  tick(); Model m; if (g_fieldP != 0) { int d = fieldSolve(nc, &m, solverPC(), 100); if (d == 1) { writeViol(msg, m); procExit(); } if (d == 0) { __sync_fetch_and_add(&SH->assertsTriv, 1); return; } }
  SRes r = solverCheck(nc, &m, g_hard_timeout);
  if (r == S_SAT) { writeViol(msg, m); procExit(); }
  if (r == S_UNK) { __sync_fetch_and_add(&SH->inconc, 1); sem_wait(&SH->mu); std::string w = "assert undecided: " + msg; bool f = false; for (int i = 0; i < SH->ninc; i++) if (!strncmp(SH->inc[i], w.c_str(), 199)) f = true; if (!f && SH->ninc < 64) { strncpy(SH->inc[SH->ninc], w.c_str(), 199); SH->ninc++; } sem_post(&SH->mu);
    if (getenv("SYMX_DUMP")) solverDump(getenv("SYMX_DUMP"), nc); take(c); return; }
}
// ---------------- decoding
enum { I_BIN, I_FBIN, I_ICMP, I_FCMP, I_CAST, I_SELECT, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_ICALL, I_COPY, I_SHUF, I_EXTE, I_INSE, I_FNEG, I_UNREACH, I_INTR, I_ATOMICRMW, I_CMPXCHG, I_UNSUP, I_NOP };
static int lanesOf(Type *t) {
  if (t->isVoidTy()) return 0; if (auto *vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
  if (auto *st = dyn_cast<StructType>(t)) { int n = 0; for (auto *e : st->elements()) n += lanesOf(e); return n; }
  if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * lanesOf(at->getElementType());
  return 1;
}
static int widthOf(Type *t) { if (auto *vt = dyn_cast<FixedVectorType>(t)) t = vt->getElementType(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80; if (t->isIntegerTy()) return t->getIntegerBitWidth(); return 0; }
static void flatTypes(Type *t, uint64_t off, std::vector<std::pair<uint64_t, int>> &o) { // (byte offset, width)
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { int w = widthOf(t); for (unsigned i = 0; i < vt->getNumElements(); i++) o.push_back({off + (w == 1 ? 0 : i * ((w + 7) / 8)), w}); return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatTypes(st->getElementType(i), off + sl->getElementOffset(i), o); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) flatTypes(at->getElementType(), off + i * es, o); return; }
  o.push_back({off, widthOf(t)});
}
static uint64_t globalAddr(const GlobalValue *g);
static void constVals(const Constant *c, std::vector<V> &o);
static uint64_t constAddrExpr(const Constant *c) { std::vector<V> o; constVals(c, o); return o[0].c; }
static void constVals(const Constant *c, std::vector<V> &o) {
  Type *t = c->getType(); int n = lanesOf(t);
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) o.push_back(cV(ci->getZExtValue())); else { SmallString<64> s; ci->getValue().toString(s, 10, false); o.push_back(V{0, mkC(Z(s.str().str()))}); } return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { o.push_back(cV(cf->getValueAPF().bitcastToAPInt().getLimitedValue())); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { std::vector<std::pair<uint64_t, int>> ft; flatTypes(t, 0, ft); for (int i = 0; i < n; i++) o.push_back(ft[i].second > 64 ? V{0, mkC(0L)} : cV(0)); return; }
  if (auto *gv = dyn_cast<GlobalValue>(c)) { o.push_back(cV(globalAddr(gv))); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), o); return; }
  if (isa<ConstantVector>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) constVals(cast<Constant>(c->getOperand(i)), o); return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) { auto *g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) abort(); o.push_back(cV(constAddrExpr(cast<Constant>(ce->getOperand(0))) + off.getSExtValue())); return; }
    if (ce->isCast()) { uint64_t v = constAddrExpr(cast<Constant>(ce->getOperand(0))); o.push_back(cV(v & msk(widthOf(t)))); return; }
    if (ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Add) { uint64_t x = constAddrExpr(cast<Constant>(ce->getOperand(0))), y = constAddrExpr(cast<Constant>(ce->getOperand(1))); o.push_back(cV((ce->getOpcode() == Instruction::Sub ? x - y : x + y) & msk(widthOf(t)))); return; }
    if (ce->getOpcode() == Instruction::ICmp) { uint64_t x = constAddrExpr(cast<Constant>(ce->getOperand(0))), y = constAddrExpr(cast<Constant>(ce->getOperand(1))); auto p = ce->getPredicate(); o.push_back(cV(p == CmpInst::ICMP_EQ ? x == y : p == CmpInst::ICMP_NE ? x != y : x < y)); return; }
  }
  fprintf(stderr, "unsupported constant\n"); c->print(errs()); abort();
}
static uint64_t faddr = ABASE + 4096;
static Func *getFunc(const Function *f) {
  auto it = byVal.find(f); if (it != byVal.end()) return it->second;
  Func *x = new Func; x->name = f->getName().str(); x->llf = (void *)f; x->defined = !f->isDeclaration(); x->addr = faddr; faddr += 16; byVal[f] = x; byAddr[x->addr] = x; funcs[x->name] = x;
  Builtin b = findBuiltin(x->name); if (b) { x->bi = b; x->defined = false; }
  for (auto &s : g_summ) if (s == x->name) x->summarize = true;
  x->vararg = f->isVarArg(); x->retLanes = lanesOf(f->getReturnType()); x->retw = widthOf(f->getReturnType());
  return x;
}
static void initGlobalMem(uint64_t a, const Constant *c) { std::vector<std::pair<uint64_t, int>> ft; 
  Type *t = c->getType();
  if (isa<UndefValue>(c) || c->isNullValue()) return;
  if (auto *at = dyn_cast<ArrayType>(t)) { if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy((void *)a, r.data(), r.size()); return; } uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initGlobalMem(a + i * es, c->getAggregateElement(i)); return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initGlobalMem(a + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  flatTypes(t, 0, ft); std::vector<V> o; constVals(c, o);
  for (size_t i = 0; i < ft.size(); i++) memStore(a + ft[i].first, o[i], (ft[i].second + 7) / 8);
}
static uint64_t globalAddr(const GlobalValue *g) {
  if (auto *f = dyn_cast<Function>(g)) return getFunc(f)->addr;
  if (auto *al = dyn_cast<GlobalAlias>(g)) return constAddrExpr(al->getAliasee());
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  auto *gv = cast<GlobalVariable>(g); uint64_t sz = gv->getValueType()->isSized() ? DL->getTypeAllocSize(gv->getValueType()) : 64; if (sz < 8 && !gv->hasInitializer()) sz = 64;
  uint64_t a = memAlloc(sz, strdup(("g:" + gv->getName().str()).c_str()), true); memset((void *)a, 0, sz); gaddr[g] = a;
  if (gv->hasInitializer()) initGlobalMem(a, gv->getInitializer());
  return a;
}
// bitcast of an unaligned vector load in the same block with no write in between: load at the target type
static const CallBase *lddqu(const Instruction *I) { auto *bc = dyn_cast<BitCastInst>(I); if (!bc) return nullptr; auto *cb = dyn_cast<CallBase>(bc->getOperand(0)); if (!cb || !cb->getCalledFunction() || !cb->getCalledFunction()->getName().contains("avx.ldu.dq") || cb->getParent() != I->getParent()) return nullptr;
  for (const Instruction *k = cb->getNextNode(); k; k = k->getNextNode()) { if (k == I) return cb; if (k->mayWriteToMemory()) return nullptr; } return nullptr; }
struct Dec {
  Func *f; const Function *lf; std::unordered_map<const Value *, int> slot; std::unordered_map<const Constant *, int> csl; std::unordered_map<const BasicBlock *, int> bbid;
  int newSlots(int n) { int r = f->nslots; f->nslots += n; return r; }
  int op(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) { auto it = csl.find(c); if (it != csl.end()) return it->second; std::vector<V> o; constVals(c, o); int r = ~(int)cpool.size(); // lanes are laid out descending: cpool index = ~r + lane
      for (auto &x : o) cpool.push_back(x); csl[c] = r; return r; }
    auto it = slot.find(v); if (it == slot.end()) { if (isa<MetadataAsValue>(v)) return 0; fprintf(stderr, "no slot\n"); v->print(errs()); abort(); } return it->second;
  }
  int edge(const BasicBlock *from, const BasicBlock *to) {
    std::vector<std::pair<int, int>> cp; 
    for (auto &I : *to) { auto *ph = dyn_cast<PHINode>(&I); if (!ph) break; const Value *v = ph->getIncomingValueForBlock(from); int n = lanesOf(ph->getType()); int s = op(v), d = slot[ph]; for (int i = 0; i < n; i++) cp.push_back({d + i, s >= 0 ? s + i : s - i}); }
    if (cp.empty()) return -1; f->edges.push_back(cp); return f->edges.size() - 1;
  }
  void run();
};
static Ins mk(int op) { Ins i; i.op = op; i.sub = 0; i.w = i.w2 = 0; i.lanes = 1; i.dst = -1; i.a = i.b = i.c = 0; i.imm = 0; i.p = nullptr; return i; }
enum { X_MEMSET, X_MEMCPY, X_SMAX, X_SMIN, X_UMAX, X_UMIN, X_FSHL, X_FSHR, X_ABS, X_FABS, X_FLOOR, X_CEIL, X_SQRT, X_FMULADD, X_CTPOP, X_CTLZ, X_CTTZ, X_BSWAP, X_UADDO, X_SADDO, X_USUBO, X_SSUBO, X_UMULO, X_SMULO, X_USUBSAT, X_UADDSAT, X_RED_ADD, X_RED_OR, X_RED_AND, X_RED_XOR, X_RED_UMAX, X_RED_SMAX, X_RED_UMIN, X_RED_SMIN, X_STACKSAVE, X_STACKRESTORE, X_VASTART, X_TRAP, X_PMULHU, X_LOG2, X_LOG, X_POW, X_EXP, X_ASSUMENOP, X_EXPECT, X_OBJSIZE, X_ROUND, X_RINT, X_TRUNC, X_ISCONST, X_RED_MUL, X_VACOPY };
void Dec::run() {
  lf = (const Function *)f->llf;
  for (auto &A : lf->args()) { int n = lanesOf(A.getType()); int s = newSlots(n); slot[&A] = s; f->argSlots.push_back(s); f->argLanes.push_back(n); }
  f->nargs = f->argSlots.size(); int bi = 0;
  for (auto &B : *lf) { bbid[&B] = bi++; for (auto &I : B) if (!I.getType()->isVoidTy()) { int s0 = slot[&I] = newSlots(lanesOf(I.getType())); f->slotw.resize(f->nslots, 0); for (int q = s0; q < f->nslots; q++) f->slotw[q] = widthOf(I.getType()); } }
  f->blockStart.resize(bi);
  for (auto &B : *lf) {
    f->blockStart[bbid[&B]] = f->code.size();
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue; Ins x = mk(I_UNSUP); Type *t = I.getType(); if (!t->isVoidTy()) x.dst = slot[&I]; x.lanes = lanesOf(t); x.w = widthOf(t); x.p = (void *)&I;
      if (auto *bo = dyn_cast<BinaryOperator>(&I)) { x.a = op(bo->getOperand(0)); x.b = op(bo->getOperand(1)); x.sub = bo->getOpcode(); bool fp = t->isFPOrFPVectorTy(); x.op = fp ? I_FBIN : I_BIN; if (fp && x.w != 64 && x.w != 32) x.op = I_UNSUP; }
      else if (auto *ic = dyn_cast<ICmpInst>(&I)) { x.op = I_ICMP; x.a = op(ic->getOperand(0)); x.b = op(ic->getOperand(1)); x.sub = ic->getPredicate(); x.w = widthOf(ic->getOperand(0)->getType()); }
      else if (auto *fc = dyn_cast<FCmpInst>(&I)) { x.op = I_FCMP; x.a = op(fc->getOperand(0)); x.b = op(fc->getOperand(1)); x.sub = fc->getPredicate(); x.w = widthOf(fc->getOperand(0)->getType()); }
      else if (auto *lc = lddqu(&I)) { x.op = I_LOAD; x.a = op(lc->getArgOperand(0)); std::vector<std::pair<uint64_t, int>> ft; flatTypes(t, 0, ft); for (auto &p : ft) { x.im.push_back(p.first); x.im.push_back(p.second); } }
      else if (auto *ca = dyn_cast<CastInst>(&I)) {
        x.a = op(ca->getOperand(0)); x.sub = ca->getOpcode(); x.w2 = widthOf(ca->getSrcTy()); x.op = I_CAST; x.imm = lanesOf(ca->getSrcTy());
        if (ca->getOpcode() == Instruction::PtrToInt || ca->getOpcode() == Instruction::IntToPtr) x.sub = x.w < x.w2 ? Instruction::Trunc : x.w > x.w2 ? Instruction::ZExt : Instruction::BitCast;
      }
      else if (auto *se = dyn_cast<SelectInst>(&I)) { x.op = I_SELECT; x.a = op(se->getCondition()); x.b = op(se->getTrueValue()); x.c = op(se->getFalseValue()); x.imm = se->getCondition()->getType()->isVectorTy(); std::vector<std::pair<uint64_t,int>> ft; flatTypes(t,0,ft); for (auto&q:ft) x.im.push_back(q.second); }
      else if (auto *ge = dyn_cast<GetElementPtrInst>(&I)) {
        if (t->isVectorTy()) { x.op = I_UNSUP; } else {
        x.op = I_GEP; x.a = op(ge->getPointerOperand()); int64_t off = 0;
        for (auto gi = gep_type_begin(ge), e = gep_type_end(ge); gi != e; ++gi) {
          Value *ix = gi.getOperand();
          if (StructType *st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          uint64_t es = gi.getSequentialElementStride(*DL);
          if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * (int64_t)es; else { x.ops.push_back(op(ix)); x.im.push_back(es); x.im.push_back(widthOf(ix->getType())); }
        }
        x.imm = off; }
      }
      else if (auto *ld = dyn_cast<LoadInst>(&I)) { x.op = I_LOAD; x.a = op(ld->getPointerOperand()); std::vector<std::pair<uint64_t, int>> ft; flatTypes(t, 0, ft); for (auto &p : ft) { x.im.push_back(p.first); x.im.push_back(p.second); } if (t->isVectorTy() && x.w == 1) { x.imm = 1; } }
      else if (auto *st = dyn_cast<StoreInst>(&I)) { x.op = I_STORE; x.a = op(st->getPointerOperand()); x.b = op(st->getValueOperand()); Type *vt = st->getValueOperand()->getType(); std::vector<std::pair<uint64_t, int>> ft; flatTypes(vt, 0, ft); for (auto &p : ft) { x.im.push_back(p.first); x.im.push_back(p.second); } x.lanes = ft.size(); if (vt->isVectorTy() && widthOf(vt) == 1) x.imm = 1; }
      else if (auto *al = dyn_cast<AllocaInst>(&I)) { x.op = I_ALLOCA; x.imm = DL->getTypeAllocSize(al->getAllocatedType()); x.a = op(al->getArraySize()); x.w2 = widthOf(al->getArraySize()->getType()); }
      else if (auto *br = dyn_cast<BranchInst>(&I)) {
        if (br->isUnconditional()) { x.op = I_BR; x.im = {bbid[br->getSuccessor(0)], edge(&B, br->getSuccessor(0))}; }
        else { x.op = I_CBR; x.a = op(br->getCondition()); x.im = {bbid[br->getSuccessor(0)], edge(&B, br->getSuccessor(0)), bbid[br->getSuccessor(1)], edge(&B, br->getSuccessor(1))}; }
      }
      else if (auto *sw = dyn_cast<SwitchInst>(&I)) { x.op = I_SWITCH; x.a = op(sw->getCondition()); x.w = widthOf(sw->getCondition()->getType()); x.im = {bbid[sw->getDefaultDest()], edge(&B, sw->getDefaultDest())}; for (auto &c : sw->cases()) { x.im.push_back((int64_t)c.getCaseValue()->getZExtValue()); x.im.push_back(bbid[c.getCaseSuccessor()]); x.im.push_back(edge(&B, c.getCaseSuccessor())); } }
      else if (auto *re = dyn_cast<ReturnInst>(&I)) { x.op = I_RET; if (re->getReturnValue()) { x.a = op(re->getReturnValue()); x.lanes = lanesOf(re->getReturnValue()->getType()); } else x.lanes = 0; }
      else if (isa<UnreachableInst>(I)) x.op = I_UNREACH;
      else if (isa<FreezeInst>(I)) { x.op = I_COPY; x.a = op(I.getOperand(0)); }
      else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { x.op = I_COPY; int s = op(ev->getAggregateOperand()); Type *ct = ev->getAggregateOperand()->getType(); int o = 0; for (unsigned ix : ev->indices()) { if (auto *sty = dyn_cast<StructType>(ct)) { for (unsigned k = 0; k < ix; k++) o += lanesOf(sty->getElementType(k)); ct = sty->getElementType(ix); } else { auto *aty = cast<ArrayType>(ct); o += ix * lanesOf(aty->getElementType()); ct = aty->getElementType(); } } x.a = s >= 0 ? s + o : s - o; }
      else if (auto *iv = dyn_cast<InsertValueInst>(&I)) { x.op = I_INSE; x.sub = 1; x.a = op(iv->getAggregateOperand()); x.b = op(iv->getInsertedValueOperand()); Type *ct = t; int o = 0; for (unsigned ix : iv->indices()) { if (auto *sty = dyn_cast<StructType>(ct)) { for (unsigned k = 0; k < ix; k++) o += lanesOf(sty->getElementType(k)); ct = sty->getElementType(ix); } else { auto *aty = cast<ArrayType>(ct); o += ix * lanesOf(aty->getElementType()); ct = aty->getElementType(); } } x.imm = o; x.im = {lanesOf(iv->getInsertedValueOperand()->getType())}; }
      else if (auto *ee = dyn_cast<ExtractElementInst>(&I)) { x.op = I_EXTE; x.a = op(ee->getVectorOperand()); x.b = op(ee->getIndexOperand()); x.w2 = lanesOf(ee->getVectorOperand()->getType()); }
      else if (auto *ie = dyn_cast<InsertElementInst>(&I)) { x.op = I_INSE; x.sub = 0; x.a = op(ie->getOperand(0)); x.b = op(ie->getOperand(1)); x.c = op(ie->getOperand(2)); }
      else if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) { x.op = I_SHUF; x.a = op(sv->getOperand(0)); x.b = op(sv->getOperand(1)); int n = lanesOf(sv->getOperand(0)->getType()); for (int m : sv->getShuffleMask()) x.im.push_back(m < 0 ? -1 : m < n ? (x.a >= 0 ? x.a + m : x.a - m) : (x.b >= 0 ? x.b + (m - n) : x.b - (m - n))), x.ops.push_back(m); }
      else if (I.getOpcode() == Instruction::FNeg) { x.op = I_FNEG; x.a = op(I.getOperand(0)); }
      else if (auto *rmw = dyn_cast<AtomicRMWInst>(&I)) { x.op = I_ATOMICRMW; x.sub = rmw->getOperation(); x.a = op(rmw->getPointerOperand()); x.b = op(rmw->getValOperand()); }
      else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) { x.op = I_CMPXCHG; x.a = op(cx->getPointerOperand()); x.b = op(cx->getCompareOperand()); x.c = op(cx->getNewValOperand()); x.w = widthOf(cx->getCompareOperand()->getType()); }
      else if (isa<FenceInst>(I)) x.op = I_NOP;
      else if (auto *cb = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(cb)) continue;
        const Function *cf = cb->getCalledFunction(); 
        if (cf && cf->isIntrinsic()) {
          StringRef nm = cf->getName(); x.op = I_INTR; for (auto &a : cb->args()) x.ops.push_back(op(a.get())); for (auto &a : cb->args()) { x.im.push_back(widthOf(a->getType())); } for (auto &a : cb->args()) x.im.push_back(lanesOf(a->getType()));
          x.imm = -1;
          switch (cf->getIntrinsicID()) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::vaend: case Intrinsic::donothing: continue;
          case Intrinsic::memset: x.imm = X_MEMSET; break; case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: x.imm = X_MEMCPY; break;
          case Intrinsic::smax: x.imm = X_SMAX; break; case Intrinsic::smin: x.imm = X_SMIN; break; case Intrinsic::umax: x.imm = X_UMAX; break; case Intrinsic::umin: x.imm = X_UMIN; break;
          case Intrinsic::fshl: x.imm = X_FSHL; break; case Intrinsic::fshr: x.imm = X_FSHR; break; case Intrinsic::abs: x.imm = X_ABS; break;
          case Intrinsic::fabs: x.imm = X_FABS; break; case Intrinsic::floor: x.imm = X_FLOOR; break; case Intrinsic::ceil: x.imm = X_CEIL; break; case Intrinsic::sqrt: x.imm = X_SQRT; break; case Intrinsic::fmuladd: case Intrinsic::fma: x.imm = X_FMULADD; break; case Intrinsic::log2: x.imm = X_LOG2; break; case Intrinsic::log: x.imm = X_LOG; break; case Intrinsic::pow: x.imm = X_POW; break; case Intrinsic::exp: x.imm = X_EXP; break; case Intrinsic::round: x.imm = X_ROUND; break; case Intrinsic::rint: x.imm = X_RINT; break; case Intrinsic::trunc: x.imm = X_TRUNC; break;
          case Intrinsic::ctpop: x.imm = X_CTPOP; break; case Intrinsic::ctlz: x.imm = X_CTLZ; break; case Intrinsic::cttz: x.imm = X_CTTZ; break; case Intrinsic::bswap: x.imm = X_BSWAP; break;
          case Intrinsic::uadd_with_overflow: x.imm = X_UADDO; break; case Intrinsic::sadd_with_overflow: x.imm = X_SADDO; break; case Intrinsic::usub_with_overflow: x.imm = X_USUBO; break; case Intrinsic::ssub_with_overflow: x.imm = X_SSUBO; break; case Intrinsic::umul_with_overflow: x.imm = X_UMULO; break; case Intrinsic::smul_with_overflow: x.imm = X_SMULO; break;
          case Intrinsic::usub_sat: x.imm = X_USUBSAT; break; case Intrinsic::uadd_sat: x.imm = X_UADDSAT; break;
          case Intrinsic::vector_reduce_add: x.imm = X_RED_ADD; break; case Intrinsic::vector_reduce_mul: x.imm = X_RED_MUL; break; case Intrinsic::vector_reduce_or: x.imm = X_RED_OR; break; case Intrinsic::vector_reduce_and: x.imm = X_RED_AND; break; case Intrinsic::vector_reduce_xor: x.imm = X_RED_XOR; break; case Intrinsic::vector_reduce_umax: x.imm = X_RED_UMAX; break; case Intrinsic::vector_reduce_smax: x.imm = X_RED_SMAX; break; case Intrinsic::vector_reduce_umin: x.imm = X_RED_UMIN; break; case Intrinsic::vector_reduce_smin: x.imm = X_RED_SMIN; break;
          case Intrinsic::stacksave: x.imm = X_STACKSAVE; break; case Intrinsic::stackrestore: x.imm = X_STACKRESTORE; break; case Intrinsic::vastart: x.imm = X_VASTART; break; case Intrinsic::vacopy: x.imm = X_VACOPY; break; case Intrinsic::trap: x.imm = X_TRAP; break; case Intrinsic::expect: x.imm = X_EXPECT; break; case Intrinsic::objectsize: x.imm = X_OBJSIZE; break; case Intrinsic::is_constant: x.imm = X_ISCONST; break;
          default: if (nm.contains("pmulhu.w")) x.imm = X_PMULHU; else if (nm.contains("avx.ldu.dq")) { x.op = I_LOAD; x.a = x.ops[0]; x.ops.clear(); x.im.clear(); std::vector<std::pair<uint64_t, int>> ft; flatTypes(t, 0, ft); for (auto &p : ft) { x.im.push_back(p.first); x.im.push_back(p.second); } x.imm = 0; break; } else { x.op = I_UNSUP; } }
          if (x.imm < 0) x.op = I_UNSUP;
          // width for overflow intrinsics
          if (x.imm >= X_UADDO && x.imm <= X_SMULO) x.w = x.im[0];
        } else if (cb->isInlineAsm()) { x.op = I_UNSUP; }
        else {
          std::vector<int> al; for (auto &a : cb->args()) { int s = op(a.get()); int n = lanesOf(a->getType()); for (int k = 0; k < n; k++) x.ops.push_back(s >= 0 ? s + k : s - k); x.im.push_back(n); }
          if (cf) { x.op = I_CALL; x.p = getFunc(cf); } else { x.op = I_ICALL; x.a = op(cb->getCalledOperand()); }
        }
      }
      f->code.push_back(x);
    }
  }
  f->decoded = true;
}
static void decode(Func *f) { Dec d; d.f = f; d.run(); if (SH->fnlen + f->name.size() + 2 < sizeof SH->funcs) { sem_wait(&SH->mu); std::string k = f->name + "\n"; std::string all(SH->funcs, SH->fnlen); if (("\n" + all).find("\n" + k) == std::string::npos) { memcpy(SH->funcs + SH->fnlen, k.data(), k.size()); SH->fnlen += k.size(); } sem_post(&SH->mu); } }
// ---------------- execution
static double asD(uint64_t c) { double d; memcpy(&d, &c, 8); return d; } static uint64_t fD(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }
static float asF(uint64_t c) { float d; uint32_t x = c; memcpy(&d, &x, 4); return d; } static uint64_t fF(float d) { uint32_t c; memcpy(&c, &d, 4); return c; }
static inline int64_t sx(uint64_t v, int w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w)) >> (64 - w)); }
static V binop(int op, V a, V b, int w) {
  if (!a.n && !b.n && w <= 64) {
    uint64_t x = a.c, y = b.c, r = 0;
    switch (op) {
    case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
    case Instruction::UDiv: if (!y) violation("division by zero", nullptr); r = x / y; break; case Instruction::URem: if (!y) violation("division by zero", nullptr); r = x % y; break;
    case Instruction::SDiv: case Instruction::SRem: { int64_t p = sx(x, w), q = sx(y, w); if (!q) violation("division by zero", nullptr); if (q == -1) r = op == Instruction::SDiv ? -(uint64_t)p : 0; else r = op == Instruction::SDiv ? p / q : p % q; break; }
    case Instruction::Shl: r = y >= (uint64_t)w ? 0 : x << y; break; case Instruction::LShr: r = y >= (uint64_t)w ? 0 : x >> y; break; case Instruction::AShr: r = sx(x, w) >> (y >= (uint64_t)w ? w - 1 : y); break;
    case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break; }
    return cV(r & msk(w));
  }
  Node *x = vN(a, w), *y = vN(b, w);
  switch (op) {
  case Instruction::Add: { if (!a.n) x = mkS(x, w); if (!b.n) y = mkS(y, w); return nV(mkAdd(x, y), w); }
  case Instruction::Sub: { if (!a.n) x = mkS(x, w); if (!b.n) y = mkS(y, w); return nV(mkSub(x, y), w); }
  case Instruction::Mul: { if (!a.n) x = mkS(x, w); if (!b.n) y = mkS(y, w); 
      // keep operands wrapped when clearly out of range
      Z lim = pow2(w); if (x->hi >= lim || x->lo < -lim) x = mkU(x, w); if (y->hi >= lim || y->lo < -lim) y = mkU(y, w); return nV(mkMul(x, y), w); }
  case Instruction::UDiv: case Instruction::URem: { x = mkU(x, w); y = mkU(y, w); if (y->lo <= 0) { Node *z = mkEQ0(y); if (!isC(z)) { if (branchOn(z)) violation("division by zero", nullptr); } else if (z->c != 0) violation("division by zero", nullptr); } return nV(op == Instruction::UDiv ? mkFDiv(x, y) : mkFMod(x, y), w); }
  case Instruction::SDiv: case Instruction::SRem: { x = mkS(x, w); y = mkS(y, w); if (y->lo <= 0 && y->hi >= 0) { if (branchOn(mkEQ0(y))) violation("division by zero", nullptr); } return nV(op == Instruction::SDiv ? mkTDiv(x, y) : mkTRem(x, y), w); }
  case Instruction::Shl: { y = mkU(y, w); if (!isC(y) && y->hi >= w) { if (branchOn(mkLE(mkC((long)w), y))) return cV(0); y = mkU(y, w); } if (isC(y) && y->c >= w) return cV(0); if (y->hi >= w) { y = mkC(Z(concretize(V{0, y}, w, "shift"))); if (y->c >= w) return cV(0);} Z lim = pow2(w); if (x->hi >= lim || x->lo < -lim) x = mkU(x, w); return nV(mkShl(x, y), w); }
  case Instruction::LShr: case Instruction::AShr: { y = mkU(y, w); x = op == Instruction::LShr ? mkU(x, w) : mkS(x, w); if (isC(y) && y->c >= w) y = mkC((long)(w - 1)); if (y->hi >= w) { uint64_t k = concretize(V{0, y}, w, "shift"); if (k >= (uint64_t)w) return op == Instruction::LShr ? cV(0) : nV(mkShr(x, mkC((long)w - 1)), w); y = mkC((long)k); } return nV(mkShr(x, y), w); }
  case Instruction::And: case Instruction::Or: case Instruction::Xor: {
    if (w == 1) { x = mkBool(mkU(x, 1)); y = mkBool(mkU(y, 1)); Node *r = op == Instruction::And ? mkBAnd(x, y) : op == Instruction::Or ? mkBOr(x, y) : mkXor(x, y); return nV(r, 1); }
    // prefer a view where both operands share a range
    if (op == Instruction::And) { // sign-mask pattern wants signed view of masks; low masks want any view
      if (!b.n) { Node *yu = y; Z y1 = yu->c + 1; if (mpz_popcount(y1.get_mpz_t()) == 1) return nV(mkFMod(x, mkC(y1)), w); Node *ys = mkS(y, w); Z m = -ys->c; if (ys->c < 0 && mpz_popcount(m.get_mpz_t()) == 1) return nV(mkAnd(x, ys), w); return nV(mkAnd(mkU(x, w), yu), w); }
      if (!a.n) return binop(op, b, a, w);
      bool mx = x->lo >= -1 && x->hi <= 0, my = y->lo >= -1 && y->hi <= 0; if (mx || my) return nV(mkAnd(x, y), w);
      Node *xs = mkS(x, w), *ys = mkS(y, w); if ((xs->lo >= -1 && xs->hi <= 0) || (ys->lo >= -1 && ys->hi <= 0)) return nV(mkAnd(xs, ys), w);
      return nV(mkAnd(mkU(x, w), mkU(y, w)), w);
    }
    if (op == Instruction::Xor) { if (!b.n && mkS(y, w)->c == -1) return nV(mkSub(mkC(-1L), x), w); if (!a.n && mkS(x, w)->c == -1) return nV(mkSub(mkC(-1L), y), w); 
      Node *xs = mkS(x, w), *ys = mkS(y, w); return nV(xs->lo >= 0 && ys->lo >= 0 ? mkXor(xs, ys) : mkXor(mkU(x, w), mkU(y, w)), w); }
    return nV(mkOr(mkU(x, w), mkU(y, w)), w); }
  }
  inconclusive("binop"); return cV(0);
}
static V icmp(int pred, V a, V b, int w) {
  if (!a.n && !b.n) { uint64_t x = a.c, y = b.c; int64_t p = sx(x, w), q = sx(y, w); bool r = false;
    switch (pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break; case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break; }
    return cV(r); }
  Node *x = vN(a, w), *y = vN(b, w), *r;
  if (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) {
    Z lim = pow2(w), h = pow2(w - 1);
    if (!b.n) y = mkC(y->c); Node *ys = mkS(y, w), *xs = mkS(x, w);
    auto inU = [&](Node *n) { return n->lo >= 0 && n->hi < lim; }; auto inS = [&](Node *n) { return n->lo >= -h && n->hi < h; };
    if (inU(x) && inU(y)) r = mkEQ(x, y); else if (inS(x) && isC(ys)) r = mkEQ(x, ys); else if (inS(y) && isC(xs)) r = mkEQ(xs, y); else if (inS(x) && inS(y)) r = mkEQ(x, y); else r = mkEQ0(mkU(mkSub(x, y), w));
    if (pred == CmpInst::ICMP_NE) r = mkNot(r); return nV(r, 1);
  }
  bool sg = pred >= CmpInst::ICMP_SGT; x = sg ? mkS(x, w) : mkU(x, w); y = sg ? mkS(y, w) : mkU(y, w);
  switch (pred) { case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: r = mkLT(x, y); break; case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: r = mkLE(x, y); break; case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: r = mkLT(y, x); break; default: r = mkLE(y, x); }
  return nV(r, 1);
}
static V sel(V c, V a, V b, int w) { if (!c.n) return (c.c & 1) ? a : b; if (!a.n && !b.n && a.c == b.c && w <= 64) return a; Node *x = vN(a, w), *y = vN(b, w);
  if (!a.n && w <= 64 && w > 1) { Node *s = mkS(x, w); if (b.n && y->lo < 0) x = s; } if (!b.n && w <= 64 && w > 1) { Node *s = mkS(y, w); if (a.n && x->lo < 0) y = s; }
  return nV(mkIte(mkBool(mkU(c.n, 1)), x, y), w); }
static const char *opLoc(const Ins &x) { return fr.back().f->name.c_str(); }
// resolve a possibly symbolic address for an access of n bytes
static V symLoad(Node *an, int n, int w) {
  an = mkU(an, 64);
  // object from a model value
  Model *pm; Node *t = mkC(1L); if (!modelOK(t, pm)) { if (feasible(t) != 1) inconclusive("no model"); modelOK(t, pm); }
  uint64_t a0 = zlow(evalNode(an, *pm, newEpoch())); auto it = allocs.upper_bound(a0); if (it == allocs.begin()) memBad(a0, n, false); --it;
  uint64_t lo = it->first, hi = it->first + it->second.size;
  // tighten by interval
  Node *inb = mkBAnd(mkLE(mkC(Z(lo)), an), mkLE(an, mkC(Z(hi - n))));
  if (!isC(inb) || inb->c == 0) { if (!branchOn(inb)) { // out of that object: concretize
      uint64_t a = concretize(V{0, an}, 64, "pointer"); return memLoad(a, n); } }
  uint64_t l = lo, h = hi - n; if (an->lo > Z(lo)) l = zlow(an->lo); if (an->hi < Z(h)) h = zlow(an->hi);
  // stride: gcd of linear coefficients
  uint64_t stride = 1, base = l; if (an->op == O_LIN) { Z g = 0; for (auto &c : an->co) g = gcd(g, c); stride = g.get_ui(); if (!stride) stride = 1; uint64_t c0 = zlow(an->c) % stride; base = l + ((c0 + stride - l % stride) % stride); }
  if ((h - base) / stride > 300) { uint64_t a = concretize(V{0, an}, 64, "pointer (large object)"); return memLoad(a, n); }
  bool allC = true; std::vector<V> vs; for (uint64_t a = base; a <= h; a += stride) { V v = memLoad(a, n); if (v.n) allC = false; vs.push_back(v); }
  Node *idx = mkFDiv(mkSub(an, mkC(Z(base))), mkC(Z(stride)));
  if (allC && w <= 64) { std::vector<Z> tab; for (auto &v : vs) tab.push_back(Z(v.c)); if (isC(idx)) return vs[idx->c.get_ui()]; return nV(mkSel(tab, idx), w); }
  Node *r = vN(vs.back(), w); for (int i = (int)vs.size() - 2; i >= 0; i--) r = mkIte(mkEQ(idx, mkC((long)i)), vN(vs[i], w), r);
  return nV(r, w);
}
static void unsupported(const Ins &x) { std::string s; raw_string_ostream os(s); ((Instruction *)x.p)->print(os); inconclusive("unsupported: " + s.substr(0, 150)); }
static void pushFrame(Func *f, const V *args, const std::vector<int> *lanes, int total, int retDst, int nfix) {
  if (!f->decoded) decode(f); if (fr.size() > 20000) inconclusive("call depth");
  int base = fr.empty() ? 0 : fr.back().base + fr.back().f->nslots; if ((int)regs.size() < base + f->nslots + 64) regs.resize((base + f->nslots) * 2 + 1024);
  Frame n; n.f = f; n.pc = 0; n.base = base; n.retDst = retDst; n.sp = sp; n.va = 0;
  int k = 0; for (int i = 0; i < f->nargs; i++) for (int j = 0; j < f->argLanes[i]; j++) regs[base + f->argSlots[i] + j] = args[k++];
  if (f->vararg) { uint64_t a = memAlloc((total - k) * 8 + 8, "va"); n.va = a; int j = 0; for (int i = k; i < total; i++, j++) memStore(a + 8 * j, args[i], 8); }
  f->calls++; fr.push_back(n);
}
static void runUntil(size_t depth);
static bool inSumm = false; static uint64_t summSteps;
static std::map<std::string, std::vector<Z>> summCache;
// does the real inversion routine return the inverse for every residue? (executed for all of them when p is small)
static std::map<std::string, int> invStat; V runFunc(Func *f, std::vector<V> a);
static bool invOK(Func *f, int aw) {
  auto it = invStat.find(f->name); if (it != invStat.end()) return it->second;
  uint64_t p = mpz_get_ui(g_fieldP.get_mpz_t()); if (p > 1000) return invStat[f->name] = 1; // assumed: discharged by the modular-inverse property
  bool sv = inSumm; inSumm = true; int ok = 1; for (uint64_t v = 1; v < p && ok; v++) { V r = runFunc(f, {cV(v), cV(p)}); if (r.n || (__uint128_t)r.c * v % p != 1 || r.c >= p) ok = 0; } inSumm = sv; return invStat[f->name] = ok;
}
static bool trySumm(Func *f, V *args, int n, V *ret) {
  if (inSumm) return false; int si = -1; for (int i = 0; i < n; i++) if (args[i].n) { if (si >= 0) return false; si = i; } if (si < 0) return false;
  if (!f->decoded) decode(f); int aw = widthOf(((Function *)f->llf)->getArg(si)->getType());
  bool isInv = false; for (auto &q : g_inv) if (q == f->name) isInv = true;
  if (isInv && n == 2 && si == 0 && !args[1].n && g_fieldP != 0 && args[1].c == mpz_get_ui(g_fieldP.get_mpz_t())) { Node *u = mkU(args[0].n, aw); if (branchOn(mkEQ0(mkFMod(u, mkC(g_fieldP))))) return false; if (invOK(f, aw)) { *ret = nV(mkInv(u, g_fieldP), f->retw); return true; } }
  Node *u = mkU(args[si].n, aw); if (u->hi - u->lo > 5000) { Node *s = mkS(args[si].n, aw); if (s->hi - s->lo > 5000) return false; u = s; }
  long lo = u->lo.get_si(), hi = u->hi.get_si(); std::string key = f->name; for (int i = 0; i < n; i++) key += i == si ? ":*" : ":" + std::to_string(args[i].c);
  std::vector<Z> tab; 
  std::string key2 = key + ":" + std::to_string(lo) + ":" + std::to_string(hi);
  auto it = summCache.find(key2); if (it != summCache.end()) tab = it->second; else {
  inSumm = true;
  for (long v = lo; v <= hi; v++) { std::vector<V> a(args, args + n); a[si] = cV((uint64_t)v & msk(aw)); 
    if (v == 0) { tab.push_back(0); continue; } // zero argument excluded below
    int base = fr.back().base + fr.back().f->nslots; (void)base; size_t d = fr.size(); pushFrame(f, a.data(), nullptr, n, -2, n); summSteps = 0; runUntil(d);
    extern V g_summRet; Z z; mpz_set_ui(z.get_mpz_t(), g_summRet.c); tab.push_back(z); }
  inSumm = false; summCache[key2] = tab; }
  if (lo <= 0 && hi >= 0) { if (branchOn(mkEQ0(u))) return false; }
  Node *idx = mkSub(u, mkC(lo)); if (isC(idx)) { *ret = cV(zlow(tab[idx->c.get_si()])); return true; }
  *ret = nV(mkSel(tab, idx), f->retw); return true;
}
V g_summRet;
V runFunc(Func *f, std::vector<V> a) { if (fr.empty()) { Frame z; static Func dummy; dummy.nslots = 0; dummy.name = "(root)"; z.f = &dummy; z.pc = 0; z.base = 0; z.retDst = -1; z.sp = sp; z.va = 0; fr.push_back(z); size_t d = fr.size(); pushFrame(f, a.data(), nullptr, a.size(), -2, 0); runUntil(d); fr.pop_back(); return g_summRet; } size_t d = fr.size(); pushFrame(f, a.data(), nullptr, a.size(), -2, 0); runUntil(d); return g_summRet; }
static void intrinsic(const Ins &x, V *R) {
#define G(o) ((o) >= 0 ? R[o] : cpool[~(o)])
#define GL(o, l) ((o) >= 0 ? R[(o) + (l)] : cpool[~(o) + (l)])
  int na = x.ops.size(); auto A = [&](int i) -> V { return G(x.ops[i]); };
  auto AL = [&](int i, int l) -> V { return GL(x.ops[i], l); }; int w = x.w;
  auto conc = [&](V v, int ww) { return v.n ? concretize(v, ww, "intrinsic operand") : v.c; };
  switch (x.imm) {
  case X_MEMSET: memFill(conc(A(0), 64), A(1), conc(A(2), 64)); return;
  case X_MEMCPY: { uint64_t d = conc(A(0), 64), s = conc(A(1), 64), n = conc(A(2), 64); memCopy(d, s, n); return; }
  case X_SMAX: case X_SMIN: case X_UMAX: case X_UMIN: for (int l = 0; l < x.lanes; l++) { V a = AL(0, l), b = AL(1, l); int p = x.imm == X_SMAX ? CmpInst::ICMP_SGT : x.imm == X_SMIN ? CmpInst::ICMP_SLT : x.imm == X_UMAX ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT; 
      if (a.n) { Node *v = (x.imm == X_SMAX || x.imm == X_SMIN) ? mkS(a.n, w) : mkU(a.n, w); a = nV(v, w); } if (b.n) { Node *v = (x.imm == X_SMAX || x.imm == X_SMIN) ? mkS(b.n, w) : mkU(b.n, w); b = nV(v, w); }
      R[x.dst + l] = sel(icmp(p, a, b, w), a, b, w); } return;
  case X_FSHL: case X_FSHR: for (int l = 0; l < x.lanes; l++) { V a = AL(0, l), b = AL(1, l), s = AL(2, l); uint64_t k = conc(s, w) % w; if (k == 0) { R[x.dst + l] = x.imm == X_FSHL ? a : b; continue; } uint64_t sl = x.imm == X_FSHL ? k : w - k; R[x.dst + l] = binop(Instruction::Or, binop(Instruction::Shl, a, cV(sl), w), binop(Instruction::LShr, b, cV(w - sl), w), w); } return;
  case X_ABS: for (int l = 0; l < x.lanes; l++) { V a = AL(0, l); if (a.n) a = nV(mkS(a.n, w), w); R[x.dst + l] = sel(icmp(CmpInst::ICMP_SLT, a, cV(0), w), binop(Instruction::Sub, cV(0), a, w), a, w); } return;
  case X_FABS: case X_FLOOR: case X_CEIL: case X_SQRT: case X_LOG2: case X_LOG: case X_EXP: case X_ROUND: case X_RINT: case X_TRUNC: { V a = A(0); if (a.n || w != 64) inconclusive("symbolic float"); double d = asD(a.c); d = x.imm == X_FABS ? fabs(d) : x.imm == X_FLOOR ? floor(d) : x.imm == X_CEIL ? ceil(d) : x.imm == X_SQRT ? sqrt(d) : x.imm == X_LOG2 ? log2(d) : x.imm == X_LOG ? log(d) : x.imm == X_ROUND ? round(d) : x.imm == X_RINT ? rint(d) : x.imm == X_TRUNC ? trunc(d) : exp(d); R[x.dst] = cV(fD(d)); return; }
  case X_POW: { if (A(0).n || A(1).n) inconclusive("symbolic float"); R[x.dst] = cV(fD(pow(asD(A(0).c), asD(A(1).c)))); return; }
  case X_FMULADD: { if (A(0).n || A(1).n || A(2).n || w != 64) inconclusive("symbolic float"); R[x.dst] = cV(fD(asD(A(0).c) * asD(A(1).c) + asD(A(2).c))); return; }
  case X_CTPOP: for (int l = 0; l < x.lanes; l++) { uint64_t v; V a = AL(0, l); if (a.n) { Node *r = mkC(0L), *u = mkU(a.n, w); for (int i = 0; i < w; i++) r = mkAdd(r, mkFMod(mkFDiv(u, mkC(pow2(i))), mkC(2L))); R[x.dst + l] = nV(r, w); continue; } v = a.c; R[x.dst + l] = cV(__builtin_popcountll(v)); } return;
  case X_CTLZ: case X_CTTZ: { V a = A(0); if (a.n) { Node *u = mkU(a.n, w); // fork on position
        int lead = x.imm == X_CTLZ; if (lead) { for (int i = w - 1; i >= 0; i--) if (branchOn(mkLE(mkC(pow2(i)), u))) { R[x.dst] = cV(w - 1 - i); return; } R[x.dst] = cV(w); return; } for (int i = 0; i < w; i++) if (branchOn(mkNot(mkEQ0(mkFMod(u, mkC(pow2(i + 1))))))) { R[x.dst] = cV(i); return; } R[x.dst] = cV(w); return; }
      uint64_t v = a.c; if (!v) R[x.dst] = cV(w); else R[x.dst] = cV(x.imm == X_CTLZ ? __builtin_clzll(v) - (64 - w) : __builtin_ctzll(v)); return; }
  case X_BSWAP: { uint64_t v = conc(A(0), w); R[x.dst] = cV(__builtin_bswap64(v) >> (64 - w)); return; }
  case X_UADDO: case X_SADDO: case X_USUBO: case X_SSUBO: case X_UMULO: case X_SMULO: {
    bool sg = x.imm == X_SADDO || x.imm == X_SSUBO || x.imm == X_SMULO; Node *a = vN(A(0), w), *b = vN(A(1), w); a = sg ? mkS(a, w) : mkU(a, w); b = sg ? mkS(b, w) : mkU(b, w);
    Node *r = (x.imm == X_UADDO || x.imm == X_SADDO) ? mkAdd(a, b) : (x.imm == X_USUBO || x.imm == X_SSUBO) ? mkSub(a, b) : mkMul(a, b); Z lo = sg ? Z(-pow2(w - 1)) : Z(0), hi = sg ? Z(pow2(w - 1) - 1) : Z(pow2(w) - 1);
    Node *ok = mkBAnd(mkLE(mkC(lo), r), mkLE(r, mkC(hi))); R[x.dst] = nV(r, w); R[x.dst + 1] = nV(mkNot(ok), 1); return; }
  case X_USUBSAT: for (int l = 0; l < x.lanes; l++) { V a = AL(0, l), b = AL(1, l); if (a.n) a = nV(mkU(a.n, w), w); if (b.n) b = nV(mkU(b.n, w), w); R[x.dst + l] = sel(icmp(CmpInst::ICMP_ULT, a, b, w), cV(0), binop(Instruction::Sub, a, b, w), w); } return;
  case X_UADDSAT: for (int l = 0; l < x.lanes; l++) { V a = AL(0, l), b = AL(1, l); Node *r = mkAdd(mkU(vN(a, w), w), mkU(vN(b, w), w)); R[x.dst + l] = nV(mkIte(mkLE(r, mkC(Z(pow2(w) - 1))), r, mkC(Z(pow2(w) - 1))), w); } return;
  case X_RED_ADD: case X_RED_OR: case X_RED_AND: case X_RED_XOR: case X_RED_UMAX: case X_RED_SMAX: case X_RED_UMIN: case X_RED_SMIN: case X_RED_MUL: { int nl = x.im[na]; V r = AL(0, 0); for (int l = 1; l < nl; l++) { V b = AL(0, l); switch (x.imm) { case X_RED_ADD: r = binop(Instruction::Add, r, b, w); break; case X_RED_MUL: r = binop(Instruction::Mul, r, b, w); break; case X_RED_OR: r = binop(Instruction::Or, r, b, w); break; case X_RED_AND: r = binop(Instruction::And, r, b, w); break; case X_RED_XOR: r = binop(Instruction::Xor, r, b, w); break; default: r = sel(icmp(x.imm == X_RED_UMAX ? CmpInst::ICMP_UGT : x.imm == X_RED_SMAX ? CmpInst::ICMP_SGT : x.imm == X_RED_UMIN ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT, r, b, w), r, b, w); } } R[x.dst] = r; return; }
  case X_STACKSAVE: R[x.dst] = cV(sp); return;
  case X_STACKRESTORE: { return; }
  case X_VASTART: { uint64_t p = conc(A(0), 64); memStore(p, cV(48), 4); memStore(p + 4, cV(176), 4); memStore(p + 8, cV(fr.back().va), 8); memStore(p + 16, cV(0), 8); return; }
  case X_VACOPY: memCopy(conc(A(0), 64), conc(A(1), 64), 24); return;
  case X_TRAP: violation("trap", nullptr); return;
  case X_EXPECT: R[x.dst] = A(0); return;
  case X_OBJSIZE: R[x.dst] = cV(~0ull & msk(w)); return;
  case X_ISCONST: R[x.dst] = cV(0); return;
  case X_PMULHU: for (int l = 0; l < x.lanes; l++) R[x.dst + l] = nV(mkFDiv(mkMul(mkU(vN(AL(0, l), 16), 16), mkU(vN(AL(1, l), 16), 16)), mkC(pow2(16))), 16); return;
  }
  unsupported(x);
}
static void popStack(uint64_t to) { if (sp > to) { dropSym(to, sp - to); memset(&shd(to), 0, (sp - to + 7) / 8); for (auto it = allocs.lower_bound(to); it != allocs.end() && it->first < sp;) it = allocs.erase(it); sp = to; } }
static void jump(int blk, int e) {
  Frame &f = fr.back(); V *R = &regs[f.base];
  if (e >= 0) { auto &cp = f.f->edges[e]; if (cp.size() == 1) { R[cp[0].first] = G(cp[0].second); } else { static std::vector<V> tmp; tmp.resize(cp.size()); for (size_t i = 0; i < cp.size(); i++) tmp[i] = G(cp[i].second); for (size_t i = 0; i < cp.size(); i++) R[cp[i].first] = tmp[i]; } }
  f.pc = f.f->blockStart[blk];
}
static uint64_t symStoreAddr(V a) { return a.n ? concretize(a, 64, "store address") : a.c; }

// ---------------- if-conversion: small pure triangles/diamonds are merged by ITE instead of forking
static bool memOK(uint64_t a, uint64_t n) { if (a < ABASE || a + n > ABASE + ASIZE) return false; uint64_t e = a + n; for (uint64_t g = a & ~7ull; g < e; g += 8) { uint8_t s = shd(g) & 0x0f; if (shd(g) & FREED) return false; if (s == 8) continue; uint64_t last = e - g; if (last > 8) last = 8; if (last > s) return false; } return true; }
struct SpecStore { uint64_t a; int n, w; V v; };
static bool specBlock(Func *f, int blk, V *R, std::vector<SpecStore> &st, int &nextBlk, int &nextEdge) {
  int pc = f->blockStart[blk];
  for (int k = 0; k < 16; k++, pc++) {
    const Ins &x = f->code[pc];
    switch (x.op) {
    case I_BIN: for (int l = 0; l < x.lanes; l++) { V a = GL(x.a, l), b = GL(x.b, l); if (x.w > 64) return false;
        if (x.sub == Instruction::UDiv || x.sub == Instruction::URem || x.sub == Instruction::SDiv || x.sub == Instruction::SRem) { if (b.n || b.c == 0) return false; }
        if (x.sub == Instruction::Shl || x.sub == Instruction::LShr || x.sub == Instruction::AShr) if (b.n) return false;
        R[x.dst + l] = binop(x.sub, a, b, x.w); } break;
    case I_ICMP: for (int l = 0; l < x.lanes; l++) R[x.dst + l] = icmp(x.sub, GL(x.a, l), GL(x.b, l), x.w); break;
    case I_CAST: if (x.lanes != 1 || x.imm != 1 || x.w > 64 || x.w2 > 64) return false; { V a = G(x.a); V r = a; switch (x.sub) {
        case Instruction::Trunc: if (a.n) { Node *n = x.w == 1 ? mkBool(mkU(a.n, 1)) : a.n; r = nV(n, x.w); } else r = cV(a.c & msk(x.w)); break;
        case Instruction::ZExt: if (a.n) r = nV(x.w2 == 1 ? mkBool(mkU(a.n, 1)) : mkU(a.n, x.w2), x.w); break;
        case Instruction::SExt: if (a.n) r = nV(x.w2 == 1 ? mkNeg(mkBool(mkU(a.n, 1))) : mkS(a.n, x.w2), x.w); else r = cV(sx(a.c, x.w2) & msk(x.w)); break;
        default: return false; } R[x.dst] = r; } break;
    case I_SELECT: for (int l = 0; l < x.lanes; l++) R[x.dst + l] = sel(x.imm ? GL(x.a, l) : G(x.a), GL(x.b, l), GL(x.c, l), x.im[l]); break;
    case I_GEP: { V a = G(x.a); if (a.n) return false; uint64_t c = a.c + x.imm; for (size_t i = 0; i < x.ops.size(); i++) { V v = G(x.ops[i]); if (v.n) return false; c += (uint64_t)(sx(v.c, x.im[2 * i + 1]) * x.im[2 * i]); } R[x.dst] = cV(c); break; }
    case I_LOAD: { V a = G(x.a); if (a.n || x.lanes != 1 || x.imm == 1 || x.w > 64) return false; int n = (x.w + 7) / 8; if (!memOK(a.c, n)) return false; bool hit = false; for (int i = (int)st.size() - 1; i >= 0; i--) { if (st[i].a + st[i].n <= a.c || a.c + n <= st[i].a) continue; if (st[i].a == a.c && st[i].n == n) { R[x.dst] = st[i].v; hit = true; break; } return false; } if (!hit) R[x.dst] = memLoad(a.c, n); break; }
    case I_STORE: { V a = G(x.a); if (a.n || x.lanes != 1 || x.imm == 1) return false; int w = x.im[1]; if (w > 64 || (w & 7)) return false; if (!memOK(a.c, w / 8)) return false; for (auto &s : st) if (!(s.a + s.n <= a.c || a.c + w / 8 <= s.a) && !(s.a == a.c && s.n == w / 8)) return false; bool rep = false; for (auto &s : st) if (s.a == a.c) { s.v = G(x.b); rep = true; } if (!rep) st.push_back({a.c, w / 8, w, G(x.b)}); break; }
    case I_COPY: for (int l = 0; l < x.lanes; l++) R[x.dst + l] = GL(x.a, l); break;
    case I_NOP: break;
    case I_BR: nextBlk = x.im[0]; nextEdge = x.im[1]; return true;
    default: return false; }
  }
  return false;
}
static bool g_ifconv = true;
static bool ifConv(const Ins &x, V c) {
  if (!g_ifconv) return false; Frame &F = fr.back(); Func *f = F.f; V *R = &regs[F.base]; int T = x.im[0], E = x.im[2]; 
  int tn = -1, te = -1, en = -1, ee = -1; std::vector<SpecStore> st, se; bool tb, eb; int J, eT, eE;
  tb = specBlock(f, T, R, st, tn, te);
  if (tb && tn == E) { J = E; eT = te; eE = x.im[3]; }
  else { eb = specBlock(f, E, R, se, en, ee); if (eb && en == T) { J = T; eT = x.im[1]; eE = ee; st.clear(); } else if (tb && eb && tn == en) { J = tn; eT = te; eE = ee; } else return false; }
  if ((eT < 0) != (eE < 0)) return false;
  // merged values: give up when both sides are distinct constants (control-like data)
  Node *cn = mkBool(mkU(c.n, 1)); std::vector<std::pair<int, V>> w;
  auto width = [&](int) { return 64; }; (void)width;
  if (eT >= 0) { auto &A = f->edges[eT], &B = f->edges[eE]; if (A.size() != B.size()) return false; for (size_t i = 0; i < A.size(); i++) { V a = G(A[i].second), b = G(B[i].second); if (A[i].first != B[i].first) return false; if (!a.n && !b.n) { if (a.c != b.c) return false; w.push_back({A[i].first, a}); continue; } if (a.n == b.n && a.n) { w.push_back({A[i].first, a}); continue; }
      int wd = f->slotw[A[i].first]; if (wd == 0 || wd > 64) return false; w.push_back({A[i].first, sel(V{0, cn}, a, b, wd)}); } }
  std::vector<SpecStore> out; 
  for (int side = 0; side < 2; side++) for (auto &s : side ? se : st) { if (side) { bool dup = false; for (auto &o : st) if (o.a == s.a && o.n == s.n) dup = true; else if (!(s.a + s.n <= o.a || o.a + o.n <= s.a)) return false; if (dup) continue; }
    V other = memLoad(s.a, s.n); if (!side) for (auto &o : se) { if (o.a == s.a && o.n == s.n) other = o.v; } 
    V a = side ? other : s.v, b = side ? s.v : other; if (!a.n && !b.n) { if (a.c != b.c) return false; out.push_back({s.a, s.n, s.w, a}); continue; } out.push_back({s.a, s.n, s.w, sel(V{0, cn}, a, b, s.w)}); }
  for (auto &s : out) memStore(s.a, s.v, s.n); for (auto &p : w) R[p.first] = p.second; F.pc = f->blockStart[J]; __sync_fetch_and_add(&SH->merged, 1); return true;
}
static void runUntil(size_t depth) {
  while (fr.size() > depth) {
    Frame *F = &fr.back(); V *R = &regs[F->base]; const Ins &x = F->f->code[F->pc++];
    if ((++g_steps & 0xfffff) == 0) { tick(); static uint64_t tot = 0; tot += 0x100000; if (tot > g_maxsteps) inconclusive("step limit"); }
    switch (x.op) {
    case I_BIN: if (x.lanes == 1) R[x.dst] = binop(x.sub, G(x.a), G(x.b), x.w); else for (int l = 0; l < x.lanes; l++) { V r = binop(x.sub, GL(x.a, l), GL(x.b, l), x.w); regs[fr.back().base + x.dst + l] = r; } break;
    case I_FBIN: for (int l = 0; l < x.lanes; l++) { V a = GL(x.a, l), b = GL(x.b, l); if (a.n || b.n) inconclusive("symbolic float"); if (x.w == 64) { double p = asD(a.c), q = asD(b.c), r = x.sub == Instruction::FAdd ? p + q : x.sub == Instruction::FSub ? p - q : x.sub == Instruction::FMul ? p * q : x.sub == Instruction::FDiv ? p / q : fmod(p, q); R[x.dst + l] = cV(fD(r)); } else { float p = asF(a.c), q = asF(b.c), r = x.sub == Instruction::FAdd ? p + q : x.sub == Instruction::FSub ? p - q : x.sub == Instruction::FMul ? p * q : x.sub == Instruction::FDiv ? p / q : fmodf(p, q); R[x.dst + l] = cV(fF(r)); } } break;
    case I_ICMP: if (x.lanes == 1) R[x.dst] = icmp(x.sub, G(x.a), G(x.b), x.w); else for (int l = 0; l < x.lanes; l++) R[x.dst + l] = icmp(x.sub, GL(x.a, l), GL(x.b, l), x.w); break;
    case I_FCMP: for (int l = 0; l < x.lanes; l++) { V a = GL(x.a, l), b = GL(x.b, l); if (a.n || b.n) inconclusive("symbolic float"); double p = x.w == 64 ? asD(a.c) : asF(a.c), q = x.w == 64 ? asD(b.c) : asF(b.c); bool un = p != p || q != q, r = false;
        switch (x.sub) { case CmpInst::FCMP_OEQ: r = !un && p == q; break; case CmpInst::FCMP_OGT: r = p > q; break; case CmpInst::FCMP_OGE: r = p >= q; break; case CmpInst::FCMP_OLT: r = p < q; break; case CmpInst::FCMP_OLE: r = p <= q; break; case CmpInst::FCMP_ONE: r = !un && p != q; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || p == q; break; case CmpInst::FCMP_UGT: r = un || p > q; break; case CmpInst::FCMP_UGE: r = un || p >= q; break; case CmpInst::FCMP_ULT: r = un || p < q; break; case CmpInst::FCMP_ULE: r = un || p <= q; break; case CmpInst::FCMP_UNE: r = un || p != q; break; case CmpInst::FCMP_TRUE: r = true; break; default: break; } R[x.dst + l] = cV(r); } break;
    case I_CAST: {
      if (x.sub == Instruction::BitCast && (x.lanes != x.imm || x.w != x.w2)) { // re-slice bits
        int sl = x.imm, sw = x.w2, dw = x.w; 
        Node *acc = nullptr; // build per destination lane
        if (dw >= sw) { int k = dw / sw; std::vector<V> out; for (int d = 0; d < x.lanes; d++) { bool sy = dw > 64; for (int j = 0; j < k; j++) if (GL(x.a, d * k + j).n) sy = true; if (!sy) { uint64_t r = 0; for (int j = 0; j < k; j++) r |= GL(x.a, d * k + j).c << (j * sw); out.push_back(cV(r)); } else { 
              acc = mkC(0L); bool allb = sw == 1; if (allb) {} for (int j = 0; j < k; j++) acc = mkAdd(acc, mkMul(mkU(vN(GL(x.a, d * k + j), sw), sw), mkC(pow2(j * sw)))); out.push_back(nV(acc, dw)); } } for (int d = 0; d < x.lanes; d++) R[x.dst + d] = out[d]; }
        else { int k = sw / dw; std::vector<V> out; for (int s = 0; s < sl; s++) { V v = GL(x.a, s); for (int j = 0; j < k; j++) { if (!v.n) out.push_back(cV((v.c >> (j * dw)) & msk(dw))); else { Node *u = j == 0 ? v.n : mkFDiv(mkU(v.n, sw), mkC(pow2(j * dw))); if (dw == 1) u = mkBool(mkU(u, 1)); else if (j) u = mkU(u, dw); out.push_back(nV(u, dw)); } } } for (int d = 0; d < x.lanes; d++) R[x.dst + d] = out[d]; }
        break; }
      for (int l = 0; l < x.lanes; l++) { V a = GL(x.a, l); V r = a;
        switch (x.sub) {
        case Instruction::Trunc: if (a.n) { Node *n = x.w == 1 ? mkBool(mkU(a.n, 1)) : a.n; r = nV(n, x.w); } else r = cV(a.c & msk(x.w)); break;
        case Instruction::ZExt: if (a.n) r = nV(x.w2 == 1 ? mkBool(mkU(a.n, 1)) : mkU(a.n, x.w2), x.w); else if (x.w > 64) r = V{0, vN(a, 64)}; break;
        case Instruction::SExt: if (a.n) r = nV(x.w2 == 1 ? mkNeg(mkBool(mkU(a.n, 1))) : mkS(a.n, x.w2), x.w); else if (x.w > 64) r = V{0, mkC(Z((long)sx(a.c, x.w2)))}; else r = cV(sx(a.c, x.w2) & msk(x.w)); break;
        case Instruction::BitCast: break;
        case Instruction::UIToFP: case Instruction::SIToFP: { uint64_t c = a.n ? concretize(a, x.w2, "int to float") : a.c; R = &regs[fr.back().base]; double d = x.sub == Instruction::UIToFP ? (double)c : (double)sx(c, x.w2); if (x.w == 32) r = cV(fF(x.sub == Instruction::UIToFP ? (float)c : (float)sx(c, x.w2))); else if (x.w == 64) r = cV(fD(d)); else unsupported(x); break; }
        case Instruction::FPToUI: case Instruction::FPToSI: { if (a.n) inconclusive("symbolic float"); double d = x.w2 == 64 ? asD(a.c) : asF(a.c); uint64_t c = x.sub == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d; r = cV(c & msk(x.w)); break; }
        case Instruction::FPExt: if (x.w != 64) unsupported(x); r = cV(fD(asF(a.c))); break; case Instruction::FPTrunc: if (x.w2 != 64) unsupported(x); r = cV(fF(asD(a.c))); break;
        default: unsupported(x); }
        R[x.dst + l] = r; } break; }
    case I_SELECT: for (int l = 0; l < x.lanes; l++) R[x.dst + l] = sel(x.imm ? GL(x.a, l) : G(x.a), GL(x.b, l), GL(x.c, l), x.im[l]); break;
    case I_GEP: { V a = G(x.a); bool sy = a.n != nullptr; uint64_t c = a.c + x.imm; Node *n = a.n ? mkAdd(a.n, mkC((long)x.imm)) : nullptr;
        for (size_t i = 0; i < x.ops.size(); i++) { V v = G(x.ops[i]); int w = x.im[2 * i + 1]; int64_t s = x.im[2 * i]; if (!sy && !v.n) { c += (uint64_t)(sx(v.c, w) * s); continue; } if (!sy) { n = mkC(Z(c)); sy = true; } Node *t = v.n ? mkS(v.n, w) : mkC((long)sx(v.c, w)); n = mkAdd(n, mkMul(t, mkC((long)s))); }
        R[x.dst] = sy ? nV(n, 64) : cV(c); break; }
    case I_LOAD: {
      V a = G(x.a);
      if (x.imm == 1) { uint64_t ad = a.n ? concretize(a, 64, "vector load") : a.c; R = &regs[fr.back().base]; for (int l = 0; l < x.lanes; l++) { V b = memLoad(ad + l / 8, 1); R[x.dst + l] = b.n ? nV(mkBool(mkU(mkFDiv(mkU(b.n, 8), mkC(pow2(l % 8))), 1)), 1) : cV((b.c >> (l % 8)) & 1); } break; }
      if (!a.n) { for (int l = 0; l < x.lanes; l++) { V v = memLoad(a.c + x.im[2 * l], (x.im[2 * l + 1] + 7) / 8); R[x.dst + l] = v; } }
      else if (x.lanes == 1) { V v = symLoad(a.n, (x.w + 7) / 8, (x.w + 7) / 8 * 8); R = &regs[fr.back().base]; R[x.dst] = v; }
      else { uint64_t ad = concretize(a, 64, "load address"); R = &regs[fr.back().base]; for (int l = 0; l < x.lanes; l++) R[x.dst + l] = memLoad(ad + x.im[2 * l], (x.im[2 * l + 1] + 7) / 8); }
      break; }
    case I_STORE: { uint64_t ad = symStoreAddr(G(x.a)); R = &regs[fr.back().base];
      if (x.imm == 1) { for (int l = 0; l < x.lanes; l += 8) { Node *acc = mkC(0L); for (int j = 0; j < 8 && l + j < x.lanes; j++) acc = mkAdd(acc, mkMul(mkU(vN(GL(x.b, l + j), 1), 1), mkC(pow2(j)))); memStore(ad + l / 8, nV(acc, 8), 1); } break; }
      for (int l = 0; l < x.lanes; l++) { int w = x.im[2 * l + 1]; V v = GL(x.b, l); if (v.n && (w & 7)) v = nV(mkU(v.n, w), w); memStore(ad + x.im[2 * l], v, (w + 7) / 8); } break; }
    case I_ALLOCA: { V n = G(x.a); uint64_t c = n.n ? concretize(n, x.w2, "alloca") : n.c; R = &regs[fr.back().base]; uint64_t sz = c * x.imm; sp = (sp + 63) & ~63ull; uint64_t a = sp; if (a + sz + 4096 > ABASE + ASIZE) inconclusive("stack overflow"); setShadow(a, sz); allocs[a] = {sz, "stack", true}; if (sz <= 65536) memset((void *)a, 0xBE, sz); sp = a + sz + 32; R[x.dst] = cV(a); break; }
    case I_BR: jump(x.im[0], x.im[1]); break;
    case I_CBR: { V c = G(x.a); if (c.n) { c = nV(mkBool(mkU(c.n, 1)), 1); if (c.n && g_fieldP != 0) { Node *fnn = fieldNorm(c.n); if (isC(fnn)) c = cV(fnn->c != 0); } if (c.n && ifConv(x, c)) break; } bool t = c.n ? branchOn(mkU(c.n, 1)) : (c.c & 1); if (t) jump(x.im[0], x.im[1]); else jump(x.im[2], x.im[3]); break; }
    case I_SWITCH: { V c = G(x.a); size_t n = x.im.size(); size_t pick = 0;
        if (!c.n) { for (size_t i = 2; i < n; i += 3) if ((uint64_t)x.im[i] == c.c) { pick = i + 1; break; } }
        else for (size_t i = 2; i < n; i += 3) { V e = icmp(CmpInst::ICMP_EQ, c, cV((uint64_t)x.im[i]), x.w); bool t = e.n ? branchOn(e.n) : e.c; if (t) { pick = i + 1; break; } }
        jump(x.im[pick], x.im[pick + 1]); break; }
    case I_RET: { V rv[64]; int n = x.lanes; std::vector<V> big; V *p = rv; if (n > 64) { big.resize(n); p = big.data(); } for (int l = 0; l < n; l++) p[l] = GL(x.a, l); Frame old = fr.back(); fr.pop_back(); popStack(old.sp);
        if (old.retDst == -2) { g_summRet = p[0]; break; } if (!fr.empty() && old.retDst >= 0) { V *R2 = &regs[fr.back().base]; for (int l = 0; l < n; l++) R2[old.retDst + l] = p[l]; } break; }
    case I_CALL: case I_ICALL: {
      Func *g = (Func *)x.p;
      if (x.op == I_ICALL) { V a = G(x.a); uint64_t ad = a.n ? concretize(a, 64, "function pointer") : a.c; R = &regs[fr.back().base]; auto it = byAddr.find(ad); if (it == byAddr.end()) violation("call through invalid function pointer", nullptr); g = it->second; }
      V args[64]; int n = x.ops.size(); if (n > 64) inconclusive("too many args"); for (int i = 0; i < n; i++) args[i] = G(x.ops[i]);
      if (g->bi) { V ret[8]; ret[0] = cV(0); ret[1] = cV(0); int di = x.dst; g->bi(args, n, ret); if (di >= 0) { V *R2 = &regs[fr.back().base]; for (int l = 0; l < x.lanes && l < 8; l++) R2[di + l] = ret[l]; } break; }
      if (!g->defined) { inconclusive("external function " + g->name); }
      if (g->summarize) { V ret; int di = x.dst; if (trySumm(g, args, n, &ret)) { regs[fr.back().base + di] = ret; break; } }
      pushFrame(g, args, nullptr, n, x.dst, 0); break; }
    case I_COPY: for (int l = 0; l < x.lanes; l++) R[x.dst + l] = GL(x.a, l); break;
    case I_SHUF: { V t[128]; if (x.im.size() > 128) unsupported(x); for (size_t l = 0; l < x.im.size(); l++) t[l] = x.ops[l] < 0 ? cV(0) : G((int)x.im[l]); for (size_t l = 0; l < x.im.size(); l++) R[x.dst + l] = t[l]; break; }
    case I_EXTE: { V i = G(x.b); uint64_t k = i.n ? concretize(i, 64, "lane") : i.c; R = &regs[fr.back().base]; R[x.dst] = k < (uint64_t)x.w2 ? GL(x.a, (int)k) : cV(0); break; }
    case I_INSE: { std::vector<V> t(x.lanes); for (int l = 0; l < x.lanes; l++) t[l] = GL(x.a, l); if (x.sub == 1) for (int l = 0; l < x.im[0]; l++) t[x.imm + l] = GL(x.b, l); else { V i = G(x.c); if (i.n) inconclusive("symbolic lane"); t[i.c] = G(x.b); } for (int l = 0; l < x.lanes; l++) R[x.dst + l] = t[l]; break; }
    case I_FNEG: for (int l = 0; l < x.lanes; l++) { V a = GL(x.a, l); if (a.n) inconclusive("symbolic float"); R[x.dst + l] = cV(x.w == 64 ? fD(-asD(a.c)) : fF(-asF(a.c))); } break;
    case I_UNREACH: violation("unreachable executed", nullptr); break;
    case I_INTR: intrinsic(x, R); break;
    case I_NOP: break;
    case I_ATOMICRMW: { uint64_t ad = symStoreAddr(G(x.a)); V o = memLoad(ad, x.w / 8), b = G(x.b), r; switch (x.sub) { case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::Add: r = binop(Instruction::Add, o, b, x.w); break; case AtomicRMWInst::Sub: r = binop(Instruction::Sub, o, b, x.w); break; case AtomicRMWInst::And: r = binop(Instruction::And, o, b, x.w); break; case AtomicRMWInst::Or: r = binop(Instruction::Or, o, b, x.w); break; default: unsupported(x); r = b; } memStore(ad, r, x.w / 8); regs[fr.back().base + x.dst] = o; break; }
    case I_CMPXCHG: { uint64_t ad = symStoreAddr(G(x.a)); V o = memLoad(ad, x.w / 8), e = G(x.b), nw = G(x.c); V q = icmp(CmpInst::ICMP_EQ, o, e, x.w); bool t = q.n ? branchOn(q.n) : q.c; if (t) memStore(ad, nw, x.w / 8); V *R2 = &regs[fr.back().base]; R2[x.dst] = o; R2[x.dst + 1] = cV(t); break; }
    default: unsupported(x);
    }
  }
}
// ---------------- congruence normalisation of asserted equalities modulo a constant
typedef std::map<std::vector<uint32_t>, Z> Poly; static std::unordered_map<uint32_t, Node *> atomById;
static bool polyOf(Node *n, const Z &m, Poly &out, int depth, size_t cap, std::unordered_map<Node *, Poly> &memo) {
  auto it = memo.find(n); if (it != memo.end()) { out = it->second; return true; }
  auto red = [&](Z z) { Z r; mpz_fdiv_r(r.get_mpz_t(), z.get_mpz_t(), m.get_mpz_t()); return r; };
  out.clear(); if (depth > 400) return false;
  auto atom = [&](Node *a) { atomById[a->id] = a; out[{a->id}] = 1; };
  if (isC(n)) { Z r = red(n->c); if (r != 0) out[{}] = r; }
  else if (n->op == O_LIN) { Z r = red(n->c); if (r != 0) out[{}] = r; for (size_t i = 0; i < n->k.size(); i++) { Z co = red(n->co[i]); if (co == 0) continue; Poly p; if (!polyOf(n->k[i], m, p, depth + 1, cap, memo)) return false; for (auto &t : p) { Z &z = out[t.first]; z = red(z + co * t.second); if (z == 0) out.erase(t.first); } if (out.size() > cap) return false; } }
  else if (n->op == O_MUL) { Poly p, q; if (!polyOf(n->k[0], m, p, depth + 1, cap, memo) || !polyOf(n->k[1], m, q, depth + 1, cap, memo)) return false; if (p.size() * q.size() > cap) return false; for (auto &a : p) for (auto &b : q) { std::vector<uint32_t> k; k.reserve(a.first.size() + b.first.size()); std::merge(a.first.begin(), a.first.end(), b.first.begin(), b.first.end(), std::back_inserter(k)); Z &z = out[k]; z = red(z + a.second * b.second); if (z == 0) out.erase(k); } }
  else if (n->op == O_FMOD && isC(n->k[1]) && mpz_divisible_p(n->k[1]->c.get_mpz_t(), m.get_mpz_t())) { if (!polyOf(n->k[0], m, out, depth + 1, cap, memo)) return false; }
  else if (n->op == O_TREM && isC(n->k[1]) && mpz_divisible_p(n->k[1]->c.get_mpz_t(), m.get_mpz_t())) { if (!polyOf(n->k[0], m, out, depth + 1, cap, memo)) return false; }
  else if (n->op == O_SWRAP && mpz_divisible_p(pow2(n->aux).get_mpz_t(), m.get_mpz_t())) { if (!polyOf(n->k[0], m, out, depth + 1, cap, memo)) return false; }
  else if (n->op == O_ITE) { Poly p, q; if (polyOf(n->k[1], m, p, depth + 1, cap, memo) && polyOf(n->k[2], m, q, depth + 1, cap, memo) && p == q) out = p; else { out.clear(); atom(n); } }
  else atom(n);
  memo[n] = out; return true;
}
static bool zeroMod(Node *e, const Z &m) { std::unordered_map<Node *, Poly> memo; Poly p; return polyOf(e, m, p, 0, 20000, memo) && p.empty(); }
Node *normCong(Node *c) {
  if (c->op == O_BAND) return mkBAnd(normCong(c->k[0]), normCong(c->k[1]));
  if (c->op == O_BOR) { Node *a = normCong(c->k[0]); if (isC(a) && a->c != 0) return a; Node *b = normCong(c->k[1]); return mkBOr(a, b); }
  if (c->op == O_EQ0) {
    Node *a = c->k[0];
    if (a->op == O_FMOD && isC(a->k[1])) { if (zeroMod(a->k[0], a->k[1]->c)) return mkC(1L); return c; }
    if (a->op == O_MUL || a->op == O_LIN) {
      // difference of values: same residue and within one modulus of each other
      std::set<Z> ms; for (auto k : a->k) if (k->op == O_FMOD && isC(k->k[1])) ms.insert(k->k[1]->c);
      for (auto &m : ms) if (a->lo > -m && a->hi < m && zeroMod(a, m)) return mkC(1L);
      // plain polynomial identity: modulus larger than any value
      Z big = 2 * std::max(Z(abs(a->lo)), Z(abs(a->hi))) + 1; std::unordered_map<Node *, Poly> memo; Poly p; if (polyOf(a, big * 4 + 3, p, 0, 20000, memo) && p.empty()) return mkC(1L);
    }
  }
  return c;
}
// ---------------- symbolic variable API (used by builtins)
Node *newSym(const std::string &name, const Z &lo, const Z &hi) { Node *n = mkVar(name, lo, hi); for (auto &m : models) { m.resize(g_vars.size()); m.back() = lo; } return n; }
void coverLabel(const std::string &s) { sem_wait(&SH->mu); int i; for (i = 0; i < SH->ncover; i++) if (!strncmp(SH->cover[i], s.c_str(), 47)) break; if (i == SH->ncover && i < 128) { strncpy(SH->cover[i], s.c_str(), 47); SH->ncover++; } if (i < 128) SH->coverN[i]++; sem_post(&SH->mu); }
void onExit(int code, const char *how) { if (g_exitviol) violation(std::string("program exit: ") + how + " code " + std::to_string(code), nullptr); __sync_fetch_and_add(&SH->exits, 1); pathEnd(); }
uint64_t globalByName(const char *nm) { auto *g = M->getNamedGlobal(nm); return g ? globalAddr(g) : 0; }
uint64_t funcAddrByName(const char *nm) { auto *f = M->getFunction(nm); return f ? getFunc(f)->addr : 0; }
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
std::map<std::string, long> g_params;
int main(int argc, char **argv) {
  const char *bc = nullptr; std::string entry = "harness"; double T = 60; int J = 8; std::vector<std::string> cov; int maxviol = 3;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "-e") entry = argv[++i]; else if (a == "-o") g_out = argv[++i]; else if (a == "-t") T = atof(argv[++i]); else if (a == "-j") J = atoi(argv[++i]); else if (a == "-q") g_query_timeout = atof(argv[++i]); else if (a == "-Q") g_hard_timeout = atof(argv[++i]); else if (a == "-int") g_prefer_int = true; else if (a == "-s") g_summ.push_back(argv[++i]); else if (a == "-p") g_fieldP = Z(argv[++i]); else if (a == "-inv") { g_inv.push_back(argv[++i]); g_summ.push_back(argv[i]); } else if (a == "-noifc") g_ifconv = false; else if (a == "-soft") g_softmax = atoi(argv[++i]); else if (a == "-P") { std::string kv = argv[++i]; size_t e = kv.find('='); g_params[kv.substr(0, e)] = atol(kv.c_str() + e + 1); } else if (a == "-w") g_witness = atoi(argv[++i]); else if (a == "-exitviol") g_exitviol = true; else if (a == "-maxviol") maxviol = atoi(argv[++i]); else if (a == "-steps") g_maxsteps = strtoull(argv[++i], 0, 10); else bc = argv[i]; }
  if (g_fieldP != 0) g_iteHook = fieldIte; double t0 = now(); mkdir(g_out.c_str(), 0777);
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sem_init(&SH->tokens, 1, J - 1); sem_init(&SH->mu, 1, 1); SH->maxviol = maxviol; SH->deadline = t0 + T; g_ss = &SH->ss;
  if (mmap((void *)ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != (void *)ABASE) { perror("mmap"); return 2; }
  SHD = (uint8_t *)mmap(0, ASIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (SHD == MAP_FAILED) { perror("mmap"); return 2; }
  SMDiagnostic err; M = parseIRFile(bc, err, Ctx); if (!M) { err.print("symx", errs()); return 2; } DL = &M->getDataLayout();
  registerBuiltins();
  Function *f = M->getFunction(entry); if (!f || f->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  double tl = now() - t0;
  fflush(stdout); pid_t p = fork();
  if (p == 0) { setpgid(0, 0); solverInit(); models.push_back(Model()); if (g_fieldP != 0) for (auto &q : g_inv) { Function *iff = M->getFunction(q); if (iff && !iff->isDeclaration()) { Func *fi = getFunc(iff); invOK(fi, 32); } } V none; pushFrame(getFunc(f), &none, nullptr, 0, -1, 0); runUntil(0); pathEnd(); }
  int st; double hard = t0 + T + g_hard_timeout + 20; bool tmo = false;
  for (;;) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break; usleep(3000); if (now() > hard) { kill(-p, SIGKILL); waitpid(p, &st, 0); tmo = true; break; } }
  kill(-p, SIGKILL);
  if (st != 0 && !tmo) { SH->killed++; }
  if (tmo) { SH->inconc++; strcpy(SH->inc[SH->ninc++ & 63], "hard time limit"); }
  FILE *o = fopen((g_out + "/result.json").c_str(), "w"); int nv = std::min(SH->nviol, SH->maxviol);
  fprintf(o, "{\"entry\":\"%s\",\"paths\":%lu,\"forks\":%lu,\"branches\":%lu,\"steps\":%lu,\"asserts\":%lu,\"asserts_syntactic\":%lu,\"assume_dead\":%lu,\"exits\":%lu,\"violations\":%d,\"inconclusive\":%lu,\"killed\":%d,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"int_queries\":%lu,\"model_hits\":%lu,\"solver_s\":%.3f,\"solver_max_s\":%.3f,\"load_s\":%.2f,\"wall_s\":%.2f,\"nodes\":%lu,\"field_guess\":%lu,\"field_norm\":%lu,\"merged\":%lu,\"field_open\":%lu,\"soft_cut\":%lu,", entry.c_str(), SH->paths, SH->forks, SH->branches, SH->steps, SH->asserts, SH->assertsTriv, SH->assumeDead, SH->exits, nv, SH->inconc, SH->killed, SH->ss.queries, SH->ss.sat, SH->ss.unsat, SH->ss.unk, SH->ss.intq, SH->ss.cached, *(uint64_t *)&SH->ss.time * 1e-6, *(uint64_t *)&SH->ss.maxtime * 1e-6, tl, now() - t0, SH->maxnodes, SH->guess, SH->fnorm, SH->merged, SH->fundec, SH->softcut);
  fprintf(o, "\"reasons\":["); for (int i = 0; i < SH->ninc && i < 64; i++) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(SH->inc[i]).c_str());
  fprintf(o, "],\"cover\":{"); for (int i = 0; i < SH->ncover; i++) fprintf(o, "%s\"%s\":%lu", i ? "," : "", jesc(SH->cover[i]).c_str(), SH->coverN[i]);
  fprintf(o, "},\"functions\":["); { std::string all(SH->funcs, SH->fnlen); size_t p0 = 0; bool first = true; while (p0 < all.size()) { size_t e = all.find('\n', p0); fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(all.substr(p0, e - p0)).c_str()); first = false; p0 = e + 1; } }
  fprintf(o, "]}\n"); fclose(o);
  return nv ? 1 : (SH->inconc || SH->killed) ? 3 : 0;
}
