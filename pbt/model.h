// Model-based executor for the C interface: a manager under test paired with a
// reference model (truth tables, variable order, associations, blocks, references).
#pragma once
#include <cassert>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <unordered_map>
#include "frame.h"
#include "tt.h"
extern "C" {
#include "cal.h"
// defined here for the library's verification hooks
extern long calVerifMinGCLimit;
extern int calVerifGCCheck;
extern unsigned long calVerifLargeBdd; extern int calVerifCacheIndex;
}

[[noreturn]] void failf(const char *fmt, ...);
struct Env;

struct Var { Cal_Bdd b; long id; int tv; }; // tv: truth-table variable, -1: never used by functions
struct Slot { Cal_Bdd b; TT t; };
struct Assoc { std::map<int, TT> map; int refs = 0; bool pairs = false; std::map<int, bool> isVar; };
struct Block { Cal_Block b; std::vector<int> members; bool reorderable; bool live = true; };
struct Prov { Cal_Bdd b; TT t; int depth = 0; };

struct Operand { Cal_Bdd b; TT t; bool owned; };

struct Mgr {
  Env &e; Cal_BddManager m; int N; // N: truth table variables
  std::vector<Var> vars; std::vector<int> tv2var; std::vector<int> order; // order: var numbers by index
  std::vector<Slot> slots;
  std::map<int, Assoc> assocs; std::vector<int> bulkAssocs; /* see ASSOCMANY */ Assoc temp; int cur = -1; bool curKnown = true;
  std::vector<Block> blocks;
  int technique = 0, method = 0; bool gcOn = true; long limit = 0; bool autoReorder = false;
  int pstate = 0; int pop = 0; std::vector<Prov> provs; std::vector<Cal_Bdd> pheld; unsigned long maxSeen = 0; // 0 ready 1 create 2 update
  long saturated = 0; void *hook = nullptr; bool bfUsed = false; bool asked = false, blocksLost = false;
  std::unordered_map<Cal_Bdd, long> refs; // handle (regular) -> references held by the harness
  bool exactOk = true;
  long lastGCs = 0, lastReorders = 0, lastFreed = 0, lastPeak = 0, lastMade = 0; double repack = 0.75; std::function<void()> hookBefore, hookAfter; /* around the next call of Cal_BddReorder */ // as last printed by Cal_BddStats
  Mgr(Env &e);
  ~Mgr();
  void quit();
  int nact() const { return (int)tv2var.size(); }
  TT zero() const { return TT(N, false); }
  TT one() const { return TT(N, true); }
  // references
  static Cal_Bdd reg(Cal_Bdd b) { return (Cal_Bdd)((uintptr_t)b & ~(uintptr_t)1); }
  void ref(Cal_Bdd b) { long &r = refs[reg(b)]; if (++r >= 250) { saturated++; exactOk = false; } }
  void drop(Cal_Bdd b); // release one reference through the API
  void unref(Cal_Bdd b) { auto i = refs.find(reg(b)); if (i != refs.end() && --i->second <= 0) refs.erase(i); }
  bool newVar(int kind, int refIdx, bool active, bool check = true);
  void syncOrder(const char *why, bool changed);
  void checkOrder(const char *why);
  std::vector<int> tvOrder() const { std::vector<int> o; for (int v : order) if (vars[v].tv >= 0) o.push_back(vars[v].tv); return o; }
  int indexOf(int var) const { for (size_t i = 0; i < order.size(); i++) if (order[i] == var) return i; return -1; }
  int varOfId(long id) const { for (size_t i = 0; i < vars.size(); i++) if (vars[i].id == id) return i; return -1; }
  bool structureStable() const { return technique == 0; }
  // evaluation through the public interface
  TT eval(Cal_Bdd b, const char *what, std::set<int> *dummySupport = nullptr);
  void expect(Cal_Bdd r, const TT &t, const char *what);
  bool put(Cal_Bdd r, const TT &t, const char *what); // takes ownership; false on (legal) overflow
  bool nullOk(const char *what);
  void checkAll(const char *why);
  void canon(const char *why);
  Operand opnd(long a);
  void rel(Operand &o) { if (o.owned) drop(o.b); o.owned = false; }
  Shape shape(const std::vector<TT> &fs);
  // operations
  bool build(const TT &t, const char *what);
  void query(Operand &f);
  void queryMulti(std::vector<Operand> &fs);
  long expectedNodes();
  void nodeCheck();
  void reorder();
  void afterReorder(const std::vector<int> &before, const char *why);
  const Assoc &curAssoc() const { if (cur == -1) return temp; return assocs.at(cur); }
  bool pipelineBusy() const { return pstate != 0; }
  void closePipeline();
  void releaseHeld() { for (auto b : pheld) drop(b); pheld.clear(); }
  bool assocLive(int v) const;
};

struct Env {
  const Case &c; Stats &st;
  std::vector<std::unique_ptr<Mgr>> mgrs; int cur = 0;
  Env(const Case &c, Stats &s) : c(c), st(s) {}
  Mgr &m() { return *mgrs[cur]; }
  void run();
  void step(const Op &o);
};
// printing and dumping
void opStats(Mgr &m, const Op &o);
void opPrint(Mgr &m, Operand &f, long mode);
void opPrintProfile(Mgr &m, std::vector<Operand> &fs, long mode);
void opDump(Env &e, Mgr &src, Mgr &dst, std::vector<Operand> &fs, long seed, bool sameList);
void opUndumpRaw(Mgr &m, Operand &f, const Op &o);
TT makeFunction(int N, int nact, long seed, long kind, long k);
struct MemCount { long blocks, bytes; };
MemCount memOutstanding();
// allocation requests above the limit fail (0: no limit); largest request since the last reset
void memLimit(long bytes);
void memSegLimit(long bytes); // the same for segments of node pages only
void memPeakReset();
long memPeak();
void rawFree(void *p);
