// C26: long histories. A short sequence of operations is repeated thousands of times in one manager;
// every repetition has to give the functions the first one gave, and memory must not keep growing.
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <unordered_map>
#include "frame.h"
#include "capture.h"
extern "C" {
#include "cal.h"
extern long calVerifMinGCLimit; extern int calVerifGCCheck; extern unsigned long calVerifLargeBdd; extern int calVerifCacheIndex;
}
using std::string; using std::vector;
void memSegLimit(long bytes);
struct MemCount { long blocks, bytes; };
MemCount memOutstanding();
void rawFree(void *p);
[[noreturn]] static void failf(const char *f, ...) { char b[900]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); throw Fail{b}; }
static long A(const Op &o, size_t i) { return i < o.a.size() ? labs(o.a[i]) : 0; }

// what the repetition multiplies the number of rounds with (expensive operations are repeated less)
static int cost(const string &n) { return n == "REORDER" ? 40 : n == "PRINT" || n == "STATS" ? 6 : n == "UNDUMP" || n == "BADDUMP" ? 5 : n == "MANAGER" ? 200 : n == "PIPE" || n == "MULTI" || n == "PAIR" || n == "RELPROD" || n == "SUBST" || n == "LIMIT" ? 2 : 1; }

struct Steady {
  const Case &c; Stats &st; Cal_BddManager m; int nv; vector<Cal_Bdd> var, pool; vector<uint64_t> pt; // pt: point of each variable, by id
  vector<std::unordered_map<long, vector<uint64_t>>> first; long round = 0; size_t at = 0; bool look = false, tech = false, determ = true; vector<uint64_t> got; FILE *null;
  Steady(const Case &c, Stats &st) : c(c), st(st) {
    m = Cal_BddManagerInit(); nv = (int)c.get("nv", 6); Rng r(c.get("pool", 1)); null = fopen("/dev/null", "w");
    for (int i = 0; i < nv; i++) var.push_back(Cal_BddManagerCreateNewVarLast(m));
    pt.resize(nv + 2); for (auto &x : pt) x = r.next() % P;
    if (c.get("params", 0)) { long v = c.get("params", 0); Cal_BddManagerSetParameters(m, 10 + v % 9000, 10 + v / 7 % 900, (v % 100) / 100.0, (v / 3 % 100) / 100.0); }
    if (c.get("blocks", 0)) { Cal_BddNewVarBlock(m, var[nv / 2], nv); if (nv > 3) Cal_BddNewVarBlock(m, var[0], nv / 2); }
    for (int i = 0; i < (int)c.get("fns", 6); i++) { Cal_Bdd f = Cal_BddIdentity(m, var[r.range(0, nv - 1)]); long k = r.range(1, c.get("depth", 6)); for (long q = 0; q < k; q++) { Cal_Bdd g = var[r.range(0, nv - 1)], h; if (r.chance(25) && !pool.empty()) g = pool[r.range(0, pool.size() - 1)]; int w = r.range(0, 4); h = w == 0 ? Cal_BddAnd(m, f, g) : w == 1 ? Cal_BddOr(m, f, g) : w == 2 ? Cal_BddXor(m, f, g) : w == 3 ? Cal_BddNand(m, f, g) : Cal_BddITE(m, f, g, var[r.range(0, nv - 1)]); if (Cal_BddIsBddConst(m, h)) { Cal_BddFree(m, h); continue; } Cal_BddFree(m, f); f = h; } pool.push_back(f); }
    first.resize(c.ops.size());
    if (c.get("tech", 0)) { tech = true; Cal_BddDynamicReordering(m, (int)c.get("tech", 0), (int)c.get("meth", 0)); }
  }
  static const uint64_t P = (1ull << 61) - 1;
  static uint64_t mul(uint64_t a, uint64_t b) { return (uint64_t)((unsigned __int128)a * b % P); }
  // the function as a polynomial evaluated at one random point: equal for equal functions, whatever the order
  uint64_t print(Cal_Bdd f, std::unordered_map<Cal_Bdd, uint64_t> &memo) {
    if (!f) return 7; if (Cal_BddIsBddOne(m, f)) return 1; if (Cal_BddIsBddZero(m, f)) return 0;
    auto it = memo.find(f); if (it != memo.end()) return it->second;
    size_t id = Cal_BddGetIfId(m, f); if (id >= pt.size()) failf("a result has a variable with the id %zu", id); Cal_Bdd t = Cal_BddThen(m, f), e = Cal_BddElse(m, f); uint64_t a = print(t, memo), b = print(e, memo); Cal_BddFree(m, t); Cal_BddFree(m, e);
    uint64_t x = pt[id], v = (mul(x, a) + mul((P + 1 - x) % P, b)) % P; memo[f] = v; return v;
  }
  void value(uint64_t v) { if (look) got.push_back(v); }
  // takes the result over: notes its function and releases it
  void res(Cal_Bdd f, bool sure = true) { if (look && sure) { std::unordered_map<Cal_Bdd, uint64_t> memo; got.push_back(print(f, memo)); } if (f) Cal_BddFree(m, f); }
  Cal_Bdd fn(long a) { long k = (a / 8 + round * c.get("rot", 0)) % (long)pool.size(); return pool[k]; }
  // an argument to release: sometimes complemented, a variable, a constant
  Cal_Bdd arg(long a) { Cal_Bdd f = fn(a); switch (a % 8) { case 0: case 1: return Cal_BddNot(m, f); case 2: return Cal_BddIdentity(m, var[a / 8 % nv]); case 3: return a % 96 == 3 ? Cal_BddOne(m) : a % 96 == 11 ? Cal_BddZero(m) : Cal_BddIdentity(m, f); default: return Cal_BddIdentity(m, f); } }
  struct Arg { Steady &s; Cal_Bdd b; Arg(Steady &s, long a) : s(s), b(s.arg(a)) {} Arg(const Arg &) = delete; ~Arg() { Cal_BddFree(s.m, b); } };
  vector<Cal_Bdd> vars(long seed, int k) { vector<Cal_Bdd> v = var; Rng r(seed); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.next() % i]); v.resize(std::max(1, std::min(k, nv))); return v; }
  // an association with the given pairs (or variables) made current; how: temporary, registered, registered twice
  int open(vector<Cal_Bdd> l, bool pairs, long how) {
    l.push_back(nullptr);
    if (how % 3 == 0) { if (how & 4 && l.size() > 3) { vector<Cal_Bdd> h(l.begin(), l.begin() + 2), t(l.begin() + 2, l.end()); h.push_back(nullptr); Cal_TempAssociationInit(m, h.data(), pairs); Cal_TempAssociationAugment(m, t.data(), pairs); } else Cal_TempAssociationInit(m, l.data(), pairs); Cal_AssociationSetCurrent(m, -1); return -1; }
    int id = Cal_AssociationInit(m, l.data(), pairs); if (id < 0) failf("no association"); if (how % 3 == 2 && Cal_AssociationInit(m, l.data(), pairs) != id) failf("the same association has another id"); Cal_AssociationSetCurrent(m, id); return id;
  }
  void close(int id, long how) { if (id < 0) { Cal_TempAssociationQuit(m); return; } Cal_AssociationSetCurrent(m, -1); Cal_AssociationQuit(m, id); if (how % 3 == 2) Cal_AssociationQuit(m, id); }
  void step(const Op &o) {
    const string &n = o.name; const char *w = n.c_str();
    if (n == "BOOL") { Arg a(*this, A(o, 1)), b(*this, A(o, 2)); switch (A(o, 0) % 6) { case 0: res(Cal_BddAnd(m, a.b, b.b)); break; case 1: res(Cal_BddNand(m, a.b, b.b)); break; case 2: res(Cal_BddOr(m, a.b, b.b)); break; case 3: res(Cal_BddNor(m, a.b, b.b)); break; case 4: res(Cal_BddXor(m, a.b, b.b)); break; default: res(Cal_BddXnor(m, a.b, b.b)); } return; }
    if (n == "ITE") { Arg a(*this, A(o, 0)), b(*this, A(o, 1)), d(*this, A(o, 2)); res(Cal_BddITE(m, a.b, b.b, d.b)); return; }
    if (n == "COPIES") { Cal_Bdd f = fn(A(o, 0)); int k = 1 + (int)(A(o, 1) % 60); for (int i = 0; i < k; i++) Cal_BddUnFree(m, f); for (int i = 0; i < k; i++) Cal_BddFree(m, f); res(Cal_BddIdentity(m, f)); res(Cal_BddNot(m, f)); value(Cal_BddGetRegular(m, f) == Cal_BddGetRegular(m, fn(A(o, 0)))); return; }
    if (n == "NODES") { Cal_Bdd f = fn(A(o, 0)); res(Cal_BddIf(m, f), false); res(Cal_BddThen(m, f), !tech); res(Cal_BddElse(m, f), !tech); res(Cal_BddManagerGetVarWithId(m, 1 + A(o, 1) % nv)); res(Cal_BddManagerGetVarWithIndex(m, A(o, 1) % nv), false); return; }
    if (n == "MULTI" || n == "PAIR") { vector<Cal_Bdd> l; for (size_t i = 1; i < o.a.size(); i++) l.push_back(arg(A(o, i))); if (n == "PAIR" && l.size() % 2) { Cal_BddFree(m, l.back()); l.pop_back(); } size_t k = l.size(); if (!k) return; l.push_back(nullptr); int q = A(o, 0) % 3;
      if (n == "MULTI") res(q == 0 ? Cal_BddMultiwayAnd(m, l.data()) : q == 1 ? Cal_BddMultiwayOr(m, l.data()) : Cal_BddMultiwayXor(m, l.data()));
      else { Cal_Bdd *r = q == 0 ? Cal_BddPairwiseAnd(m, l.data()) : q == 1 ? Cal_BddPairwiseOr(m, l.data()) : Cal_BddPairwiseXor(m, l.data()); if (!r) failf("%s: null", w); for (size_t i = 0; i < k / 2; i++) res(r[i]); free(r); }
      for (size_t i = 0; i < k; i++) Cal_BddFree(m, l[i]); return; }
    if (n == "WITNESS") { Arg a(*this, A(o, 1)), b(*this, A(o, 2)); res(A(o, 0) & 1 ? Cal_BddIntersects(m, a.b, b.b) : Cal_BddImplies(m, a.b, b.b), false); return; }
    if (n == "QUANT" || n == "RELPROD") { Arg a(*this, A(o, 1)), b(*this, A(o, 2)); int id = open(vars(A(o, 3), 1 + (int)(A(o, 3) % nv)), false, A(o, 4)); res(n == "RELPROD" ? Cal_BddRelProd(m, a.b, b.b) : A(o, 0) & 1 ? Cal_BddExists(m, a.b) : Cal_BddForAll(m, a.b)); close(id, A(o, 4)); return; }
    if (n == "SUBST") { Arg a(*this, A(o, 1)); bool vs = A(o, 0) & 1; vector<Cal_Bdd> l = vars(A(o, 3), 1 + (int)(A(o, 3) % 3)), to = vars(A(o, 3) + 1, (int)l.size()), q; for (size_t i = 0; i < l.size(); i++) { q.push_back(l[i]); q.push_back(vs ? to[i] : arg(A(o, 2) + i)); }
      int id = open(q, true, A(o, 4)); res(vs && (A(o, 0) & 2) ? Cal_BddVarSubstitute(m, a.b) : Cal_BddSubstitute(m, a.b)); close(id, A(o, 4)); if (!vs) for (size_t i = 1; i < q.size(); i += 2) Cal_BddFree(m, q[i]); return; }
    if (n == "COMPOSE") { Arg a(*this, A(o, 0)), b(*this, A(o, 1)); if (Cal_BddIsBddConst(m, b.b)) return; res(Cal_BddCompose(m, a.b, var[A(o, 2) % nv], b.b)); return; }
    if (n == "SWAP") { Arg a(*this, A(o, 0)); res(Cal_BddSwapVars(m, a.b, var[A(o, 1) % nv], var[A(o, 2) % nv])); return; }
    if (n == "COFACTOR") { Arg a(*this, A(o, 0)), b(*this, A(o, 1)); if (Cal_BddIsBddZero(m, b.b)) return; res(Cal_BddCofactor(m, a.b, b.b), !tech); return; }
    if (n == "REDUCE") { Arg a(*this, A(o, 1)), b(*this, A(o, 2)); if (A(o, 0) & 1) { Cal_Bdd lo = Cal_BddAnd(m, a.b, b.b); res(Cal_BddBetween(m, lo, a.b), false); Cal_BddFree(m, lo); } else { if (Cal_BddIsBddZero(m, b.b)) return; res(Cal_BddReduce(m, a.b, b.b), false); } return; }
    if (n == "SATISFY") { Arg a(*this, A(o, 1)); if (Cal_BddIsBddZero(m, a.b)) return; if (A(o, 0) & 1) { int id = open(vars(A(o, 2), 1 + (int)(A(o, 2) % nv)), false, A(o, 3)); res(Cal_BddSatisfySupport(m, a.b), false); close(id, A(o, 3)); } else res(Cal_BddSatisfy(m, a.b), false); return; }
    if (n == "QUERY") { Cal_Bdd f = fn(A(o, 0)), g = fn(A(o, 1)); vector<Cal_Bdd> s(nv + 1, nullptr); vector<long> p(nv + 2, 0); Cal_Bdd l[3] = {f, g, nullptr}; bool ng = A(o, 2) & 1;
      long sz = Cal_BddSize(m, f, ng), sm = Cal_BddSizeMultiple(m, l, ng); Cal_BddSupport(m, f, s.data()); uint64_t ids = 0; for (int i = 0; i < nv && s[i]; i++) ids += 1ull << Cal_BddGetIfId(m, s[i]); if (!tech) { value(sz); value(sm); } value(ids);
      Cal_BddProfile(m, f, p.data(), ng); Cal_BddProfileMultiple(m, l, p.data(), ng); Cal_BddFunctionProfile(m, f, p.data()); Cal_BddFunctionProfileMultiple(m, l, p.data()); if (!tech) for (long x : p) value(x);
      value(!!Cal_BddDependsOn(m, f, var[A(o, 2) % nv])); value(!!Cal_BddIsCube(m, f)); value(!!Cal_BddIsEqual(m, f, g)); value((uint64_t)(Cal_BddSatisfyingFraction(m, f) * 4096)); value(Cal_BddVars(m)); return; }
    if (n == "NULLS") { Cal_Bdd f = fn(A(o, 0)), z = Cal_BddNull(m); value(Cal_BddAnd(m, f, z) == z); value(Cal_BddITE(m, z, f, f) == z); value(Cal_BddCompose(m, f, z, f) == z); value(Cal_BddIdentity(m, z) == z); value(Cal_BddCofactor(m, f, z) == z); Cal_Bdd l[3] = {f, z, nullptr}; (void)l; return; }
    if (n == "UNDUMP" || n == "BADDUMP") { Arg a(*this, A(o, 0)); vector<Cal_Bdd> l = var; l.push_back(nullptr); char *buf = nullptr; size_t len = 0; FILE *fp = open_memstream(&buf, &len); bool ok = Cal_BddDumpBdd(m, a.b, l.data(), fp); fclose(fp); if (!ok) { rawFree(buf); failf("dump failed"); }
      if (n == "BADDUMP") len = len * (A(o, 1) % 97) / 97; if (!len) { rawFree(buf); return; } fp = fmemopen(buf, len, "r"); int err = -1; Cal_Bdd b = Cal_BddUndumpBdd(m, l.data(), fp, &err); fclose(fp); rawFree(buf); value(err); res(b); return; }
    if (n == "PIPE") { int k = A(o, 0) % 3, how = (int)(A(o, 1) % 5), cnt = 1 + (int)(A(o, 2) % 5); Cal_PipelineSetDepth(m, (int)(A(o, 3) % 5)); if (!Cal_PipelineInit(m, k == 0 ? CAL_AND : k == 1 ? CAL_OR : CAL_XOR)) failf("no pipeline");
      vector<Cal_Bdd> args, pr; for (int i = 0; i < cnt; i++) { Cal_Bdd x = i && (A(o, 3 + i) & 16) ? pr[A(o, 3 + i) % i] : nullptr, y; if (!x) { x = arg(A(o, 3 + i)); args.push_back(x); } y = arg(A(o, 4 + i)); args.push_back(y); Cal_Bdd p = Cal_PipelineCreateProvisionalBdd(m, x, y); if (!p) failf("no provisional diagram"); pr.push_back(p); }
      vector<Cal_Bdd> up; if (how) { if (!Cal_PipelineExecute(m)) failf("the pipeline was not executed"); if (how > 1) for (auto p : pr) up.push_back(Cal_PipelineUpdateProvisionalBdd(m, p)); } // 0: left before execution, 1: left without fetching the results
      Cal_PipelineQuit(m); for (auto u : up) res(u); for (auto x : args) Cal_BddFree(m, x); return; }
    if (n == "PRINT") { Cal_Bdd f = fn(A(o, 0)), l[3] = {f, fn(A(o, 1)), nullptr}; switch (A(o, 2) % 6) { case 0: Cal_BddPrintBdd(m, f, 0, 0, 0, null); break; case 1: Cal_BddPrintProfile(m, f, 0, 0, 79, null); break; case 2: Cal_BddPrintProfileMultiple(m, l, 0, 0, 79, null); break; case 3: Cal_BddPrintFunctionProfile(m, f, 0, 0, 79, null); break; case 4: Cal_BddPrintFunctionProfileMultiple(m, l, 0, 0, 79, null); break; default: Cal_BddStats(m, null); } return; }
    if (n == "LIMIT") { Cal_BddNodeLimit(m, std::max<long>(1, (long)Cal_BddManagerGetNumNodes(m) - 5 + A(o, 0) % 40)); Arg a(*this, A(o, 2)), b(*this, A(o, 3)); Cal_Bdd r = nullptr; int id = -2; switch (A(o, 1) % 6) { case 0: r = Cal_BddAnd(m, a.b, b.b); break; case 1: r = Cal_BddXor(m, a.b, b.b); break; case 2: r = Cal_BddITE(m, a.b, b.b, fn(A(o, 4))); break; case 3: id = open(vars(A(o, 4), 2), false, 0); r = Cal_BddRelProd(m, a.b, b.b); break; case 4: if (!Cal_BddIsBddZero(m, b.b)) r = Cal_BddCofactor(m, a.b, b.b); break;
        default: { Cal_Bdd l[4] = {a.b, b.b, fn(A(o, 4)), nullptr}; r = Cal_BddMultiwayXor(m, l); } } if (id == -1) Cal_TempAssociationQuit(m); if (r) Cal_BddFree(m, r); else st.inc("overflows"); Cal_BddOverflow(m); Cal_BddNodeLimit(m, 0); return; }
    if (n == "REORDER") { int k = (int)(A(o, 0) & 1) + 1, q = (int)(A(o, 1) & 1); Cal_BddDynamicReordering(m, k, q); Cal_BddReorder(m); Cal_BddDynamicReordering(m, (int)c.get("tech", 0), (int)c.get("meth", 0)); st.inc("reorders"); return; }
    if (n == "MANAGER") { Cal_BddManager o2 = Cal_BddManagerInit(); Cal_Bdd x = Cal_BddManagerCreateNewVarLast(o2), y = Cal_BddManagerCreateNewVarFirst(o2), z = Cal_BddXor(o2, x, y); value((uint64_t)(Cal_BddSatisfyingFraction(o2, z) * 4)); Cal_BddManagerQuit(o2); return; }
    if (n == "FORGET") { Cal_AssociationSetCurrent(m, -1); Cal_BddManagerSetGCLimit(m); Cal_BddSetGCMode(m, 1); return; }
    failf("harness: unknown operation %s", w);
  }
  void rounds(long k) {
    long gcp = c.get("gcp", 3), P0 = pool.size();
    for (long q = 0; q < k; q++, round++) {
      look = round < 2 * P0 || round % 37 == 5 || q + P0 >= k;
      for (at = 0; at < c.ops.size(); at++) { got.clear(); step(c.ops[at]); if (look) { st.inc("compared"); auto &f = first[at]; long ph = c.get("rot", 0) ? round % P0 : 0; auto it = f.find(ph); if (it == f.end()) f[ph] = got; else if (it->second != got) failf("round %ld of %s gives another result than round %ld", round, c.ops[at].name.c_str(), ph); } }
      if (round % gcp == gcp - 1) Cal_BddManagerGC(m);
    }
  }
  unsigned long collect() { Cal_BddManagerGC(m); return Cal_BddManagerGetNumNodes(m); }
  void run() {
    bool reord = tech; int co = 1; for (auto &o : c.ops) { co = std::max(co, cost(o.name)); if (o.name == "REORDER") reord = tech = true; }
    long win = c.get("rounds", 10000) / co; if (win < 30) win = 30;
    unsigned long n0 = collect(); rounds(win / 2 + 30);
    unsigned long n1 = collect(); long prev = memOutstanding().bytes, base = prev; int k = 0;
    auto nodes = [&](unsigned long x, const char *when) { if (!reord && x != n0) failf("%s %lu nodes are in use after a collection, %lu before the first repetition", when, x, n0); };
    nodes(n1, "after the first repetitions");
    int grew = 0; for (k = 0; k < 6 && (k < 2 || grew); k++) { rounds(win); unsigned long x = collect(); nodes(x, "after all repetitions"); long b = memOutstanding().bytes; if (b > prev) { grew++; st.inc("grew"); } prev = std::max(prev, b); }
    if (grew >= 3 && prev - base > 4096) failf("memory grows by %ld bytes over %ld repetitions, at %d of the last %d looks", prev - base, win * k, grew, k);
    st.inc("rounds", round);
    for (auto f : pool) Cal_BddFree(m, f);
    pool.clear(); unsigned long x = collect(); if (x != (unsigned long)nv + 1) failf("%lu nodes remain after everything was released, expected the %d variables and the constant", x, nv);
    Cal_BddManagerQuit(m); fclose(null);
  }
};
void execCase(const Case &c, Stats &st) {
  calVerifMinGCLimit = c.get("gclim", 10000); calVerifGCCheck = (int)c.get("gcchk", 100); calVerifLargeBdd = (unsigned long)c.get("large", 1 << 19); calVerifCacheIndex = (int)c.get("cidx", 16); memSegLimit(4096 * c.get("segs", 0));
  MemCount a = memOutstanding(); { Steady s(c, st); s.run(); } MemCount b = memOutstanding(); if (a.blocks != b.blocks) failf("leak: %ld blocks of memory remain after the manager was quit", b.blocks - a.blocks);
}
void harnessInit() {}
#if defined(__SANITIZE_ADDRESS__)
static const long ROUNDS = 9000;
#else
static const long ROUNDS = 10000;
#endif
static Case gen(Rng &r, bool th) {
  Case c; struct W { const char *n; int w, k; };
  static const W mix[] = {{"BOOL", 10, 3}, {"ITE", 6, 3}, {"COPIES", 2, 2}, {"NODES", 2, 2}, {"MULTI", 4, 6}, {"PAIR", 4, 7}, {"WITNESS", 5, 3}, {"QUANT", 8, 5}, {"RELPROD", 7, 5}, {"SUBST", 10, 5}, {"COMPOSE", 6, 3}, {"SWAP", 6, 3}, {"COFACTOR", 5, 2}, {"REDUCE", 5, 3}, {"SATISFY", 5, 4}, {"QUERY", 4, 3}, {"NULLS", 2, 1}, {"UNDUMP", 4, 1}, {"BADDUMP", 3, 2}, {"PIPE", 8, 9}, {"PRINT", 2, 3}, {"LIMIT", 4, 5}, {"REORDER", 2, 2}, {"MANAGER", 1, 0}, {"FORGET", 1, 0}};
  int tot = 0; for (auto &w : mix) tot += w.w;
  c.cfg["nv"] = r.range(3, 12); c.cfg["pool"] = r.range(1, 1 << 30); c.cfg["fns"] = r.range(2, 9); c.cfg["depth"] = r.range(2, 14); c.cfg["rot"] = r.chance(60) ? r.range(1, 3) : 0;
  c.cfg["gcp"] = r.chance(75) ? r.range(1, 6) : r.range(7, 400); if (r.chance(30)) c.cfg["cidx"] = r.range(7, 12); if (r.chance(10)) c.cfg["segs"] = r.range(4, 63); if (r.chance(40)) c.cfg["gclim"] = r.range(1, 300); if (r.chance(30)) c.cfg["gcchk"] = r.range(1, 30); if (r.chance(25)) c.cfg["large"] = r.range(1, 60);
  if (r.chance(15)) c.cfg["params"] = r.range(1, 1 << 20); if (r.chance(10)) c.cfg["blocks"] = 1; if (r.chance(8)) { c.cfg["tech"] = r.range(1, 2); c.cfg["meth"] = r.range(0, 1); }
  c.cfg["rounds"] = (th ? 3 : r.chance(30) ? 2 : 1) * ROUNDS / 2;
  int n = r.chance(45) ? 1 : r.range(2, 4);
  for (int i = 0; i < n; i++) { int x = r.range(0, tot - 1); const W *s = mix; while (x >= s->w) { x -= s->w; s++; } Op o; o.name = s->n; for (int q = 0; q < s->k; q++) o.a.push_back(r.range(0, 65535)); c.ops.push_back(o); }
  return c;
}
vector<PropDef> &properties() {
  static vector<PropDef> p = {{"C26", gen, [](const Stats &s, const Case &) { return s.get("rounds") >= 300 && s.get("compared") >= 10; }, "an operation sequence repeated at least 300 times in one manager, at least 10 repetitions compared with the first", {1200, 45}, {12000, 600}, 1, 60}};
  return p;
}
