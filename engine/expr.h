// symx expression layer: hash-consed mathematical-integer DAG with intervals.
// Every machine value is represented by an integer congruent to it mod 2^n.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <vector>
#include <string>
#include <utility>

typedef mpz_class Z;
enum Op : uint8_t { O_CONST, O_VAR, O_LIN, O_MUL, O_TDIV, O_TREM, O_FDIV, O_FMOD,
  O_AND, O_OR, O_XOR, O_SHL, O_SHR, O_ITE, O_SWRAP, O_SEL, O_GCD, O_INV,
  // boolean valued (0/1)
  O_LE0, O_EQ0, O_NOT, O_BAND, O_BOR };

struct Node {
  Op op; bool b;            // b: boolean valued
  uint32_t id; int aux;     // aux: wrap width, var index, table index
  std::vector<Node*> k;     // children
  std::vector<Z> co;        // LIN coefficients
  Z c;                      // CONST value / LIN constant
  Z lo, hi;                 // interval
  void *bv = nullptr;       // cached lowering (own width)
  void *iv = nullptr;       // cached Int lowering
  uint32_t ev_epoch = 0; Z ev;
  size_t h;
};
struct VarInfo { std::string name; Node *n; Z lo, hi; }; // the declared range
bool inRange(const std::vector<Z> &m);
extern std::vector<VarInfo> g_vars;

Node *mkC(const Z &v);
Node *mkC(long v);
Node *mkVar(const std::string &name, const Z &lo, const Z &hi);
Node *mkAdd(Node *a, Node *b);
Node *mkSub(Node *a, Node *b);
Node *mkNeg(Node *a);
Node *mkMul(Node *a, Node *b);
Node *mkTDiv(Node *a, Node *b);
Node *mkTRem(Node *a, Node *b);
Node *mkFDiv(Node *a, Node *b);
Node *mkFMod(Node *a, Node *b);   // b > 0 or any nonzero (floor mod)
Node *mkAnd(Node *a, Node *b);
Node *mkOr(Node *a, Node *b);
Node *mkXor(Node *a, Node *b);
Node *mkShl(Node *a, Node *b);
Node *mkShr(Node *a, Node *b);
Node *mkIte(Node *c, Node *a, Node *b);
Node *mkU(Node *a, int bits);     // unsigned view
Node *mkS(Node *a, int bits);     // signed view
Node *mkGcd(Node *a, Node *b);
Node *mkInv(Node *a, const Z &p);  // inverse of a modulo the prime p, 0 for a == 0 mod p
Node *mkSel(const std::vector<Z> &tab, Node *idx); // idx in [0,n)
Node *mkLE0(Node *a);
Node *mkLE(Node *a, Node *b);
Node *mkLT(Node *a, Node *b);
Node *mkEQ0(Node *a);
Node *mkEQ(Node *a, Node *b);
Node *mkNot(Node *a);
Node *mkBAnd(Node *a, Node *b);
Node *mkBOr(Node *a, Node *b);
Node *mkBool(Node *a);            // a != 0
inline bool isC(Node *n) { return n->op == O_CONST; }
Z pow2(unsigned n);
void refineTrue(Node *cond);      // tighten intervals along the path
const std::vector<Z> &selTable(int aux);

typedef std::vector<Z> Model;     // by var index
Z evalNode(Node *n, const Model &m, uint32_t epoch);
uint32_t newEpoch();
std::string nodeStr(Node *n, int depth = 4);
extern uint32_t g_nnodes;

// ---- solver ----
enum SRes { S_UNSAT = 0, S_SAT = 1, S_UNK = 2 };
struct SolverStats { uint64_t queries, sat, unsat, unk, cached; double time, maxtime; uint64_t intq; };
extern SolverStats *g_ss;         // shared memory
void solverInit();
void solverAssert(Node *cond);    // add to path condition
SRes solverCheck(Node *cond, Model *m, double timeout_s, bool quick = false); // PC && cond
extern bool g_prefer_int;
extern double g_query_timeout, g_hard_timeout;
const std::vector<Node *> &solverPC();
void solverDump(const char *fn, Node *cond);
extern Node *(*g_iteHook)(Node *, Node *, Node *);
