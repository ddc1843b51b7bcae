#pragma once
#include "expr.h"
#include <string>
#include <vector>
struct V { uint64_t c; Node *n; };
struct Func;
struct Ins {
  uint16_t op; uint16_t sub; int16_t w; int16_t w2; int lanes; int dst; int a, b, c;
  int64_t imm; void *p; std::vector<int> ops; std::vector<int64_t> im;
};
struct Block { int first, last; };
typedef void (*Builtin)(V *args, int n, V *ret);
struct Func {
  std::string name; bool defined = false, decoded = false; void *llf = nullptr; Builtin bi = nullptr; bool summarize = false;
  int nargs = 0, nslots = 0, retLanes = 0; bool vararg = false; uint64_t addr = 0;
  std::vector<int> argSlots, argLanes; int retw = 0;
  std::vector<Ins> code; std::vector<int> blockStart;
  std::vector<std::vector<std::pair<int,int>>> edges; // phi copies
  uint64_t calls = 0; std::vector<int> slotw;
};
// memory
uint64_t memAlloc(uint64_t size, const char *tag, bool zero = false);
void memFree(uint64_t addr);
uint64_t memSize(uint64_t addr);
V memLoad(uint64_t addr, int bytes);
void memStore(uint64_t addr, V v, int bytes);
void memCheck(uint64_t addr, uint64_t n, bool write);
void memCopy(uint64_t d, uint64_t s, uint64_t n);
void memFill(uint64_t d, V v, uint64_t n);
std::string memStr(uint64_t addr);
// paths
void violation(const std::string &msg, Node *cond);   // does not return
void inconclusive(const std::string &why);            // does not return
void pathEnd();                                       // does not return
bool branchOn(Node *cond);
uint64_t concretize(V v, int w, const char *why);
Node *vN(V v, int w);
V nV(Node *n, int w);
inline V cV(uint64_t c) { return V{c, nullptr}; }
void assumeTrue(Node *c);
void checkTrue(Node *c, const std::string &msg);
// builtins
void registerBuiltins();
Builtin findBuiltin(const std::string &name);
extern std::string g_out;
extern uint64_t g_steps;
std::string backtrace();
