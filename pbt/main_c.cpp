// Property table and generators for the C interface.
#include "model.h"
#include <malloc.h>
using std::string; using std::vector;

void execCase(const Case &c, Stats &st) { Env e(c, st); e.run(); }
void harnessInit() {}

// ---- generators -----------------------------------------------------------
struct W { const char *name; int weight; };
typedef vector<W> Mix;

struct Prof { int minA, maxA, minOps, maxOps; int dummies; bool smallGC; };

static long big(Rng &r) { return r.range(0, 65535); }

// arguments for one operation
static Op makeOp(Rng &r, const string &n, long na) {
  Op o; o.name = n;
  auto opn = [&]() { return big(r); };
  auto args = [&](int k) { for (int i = 0; i < k; i++) o.a.push_back(opn()); };
  if (n == "FUNC" && na >= 11 && r.chance(60)) { o.a = {r.range(0, 999999), 0, r.range(10, na)}; return o; }
  if (n == "FUNC") { o.a = {r.range(0, 999999), r.range(0, 6), r.range(1, std::max(1L, na))}; return o; }
  if (n == "ITE") args(3);
  else if (n == "MAND" || n == "MOR" || n == "MXOR") args(r.chance(5) ? r.range(1, 2) : r.chance(6) ? r.range(17, 70) : r.chance(1) ? r.range(500, 1200) : r.range(2, 12));
  else if (n == "PAND" || n == "POR" || n == "PXOR") args(2 * (r.chance(5) ? r.range(9, 20) : r.range(1, 6)));
  else if (n == "COMPOSE" || n == "SWAP" || n == "BETWEEN") args(3);
  else if (n == "QMULTI") args(r.range(1, 5));
  else if (n == "NEWVAR") o.a = {r.range(0, 3), r.range(0, 200), r.range(0, 1)};
  else if (n == "ASSOCINIT" || n == "TINIT" || n == "TAUG") { o.a.push_back(r.range(0, 3)); int k = r.chance(5) ? 0 : r.range(1, 5); for (int i = 0; i < k; i++) { o.a.push_back(big(r)); o.a.push_back(opn()); } }
  else if (n == "DUP") o.a = {big(r), r.chance(30) ? r.range(250, 299) : r.range(0, 6), r.range(0, 1)};
  else if (n == "LIMIT") { switch (r.range(0, 3)) { case 0: o.a = {r.range(1, 400), 0}; break; case 1: o.a = {0, 0}; break; default: o.a = {r.range(-10, 60), 1}; } }
  else if (n == "PARAMS") o.a = {r.chance(60) ? r.range(0, 60) : r.range(0, 6000), r.chance(50) ? r.range(0, 40) : r.range(100, 60000), r.range(0, 100), r.range(0, 100)};
  else if (n == "SEPAR") o.a = {r.range(0, 99999), r.range(0, 3), r.range(0, 7), r.range(0, 1), r.range(0, 1)};
  else if (n == "DYN") o.a = {r.range(0, 2), r.range(0, 1)};
  else if (n == "REORDERAS") o.a = {r.range(0, 1), r.range(0, 1)};
  else if (n == "BLOCK") o.a = {r.range(0, 200), r.chance(75) ? r.range(0, 4) : r.range(0, 20), r.range(0, 1)};
  else if (n == "PPROF") { o.a.push_back(r.range(0, 63)); args(r.range(1, 4)); }
  else if (n == "DUMP") { o.a = {r.range(0, 99999), r.range(0, 1), r.chance(60) ? 0 : r.range(0, 3)}; args(r.range(1, 3)); }
  else if (n == "UNDUMPRAW") o.a = {opn(), r.range(0, 999999), r.range(0, 9), r.range(0, 1)};
  else if (n == "NULLOP") o.a = {opn(), r.range(0, 25), r.range(0, 7)};
  else if (n == "GCMODE") o.a = {r.range(0, 1)};
  else if (n == "MQUIT") o.a = {0};
  else if (n == "STATS") o.a = {r.range(0, r.chance(15) ? 7 : 6), big(r)};
  else if (n == "PDEPTH") o.a = {r.range(0, 8)};
  else if (n == "GC" || n == "NODECHK" || n == "REORDER" || n == "CHECKALL" || n == "PEXEC" || n == "PQUIT" || n == "TQUIT" || n == "SETGCLIMIT" || n == "OVERFLOW" || n == "FREEALL") { o.a.clear(); }
  else args(2);
  return o;
}

static void addOps(Rng &r, Case &c, const Mix &mix, int n) {
  int tot = 0; for (auto &w : mix) tot += w.weight;
  long na = c.get("na", 6);
  for (int i = 0; i < n; i++) { int x = r.range(0, tot - 1); for (auto &w : mix) { if (x < w.weight) { c.ops.push_back(makeOp(r, w.name, na)); break; } x -= w.weight; } }
}

static void baseCfg(Rng &r, Case &c, int minA, int maxA) {
  c.cfg["na"] = r.range(minA, maxA); c.cfg["vseed"] = r.range(1, 99999);
  if (r.chance(60)) { c.cfg["gclim"] = r.chance(50) ? r.range(1, 60) : r.range(60, 600); c.cfg["gcchk"] = r.range(1, 20); }
  if (r.chance(50)) c.cfg["large"] = r.range(0, 1) ? 0 : r.range(1, 30);
  if (r.chance(25)) c.cfg["cidx"] = c.get("na", 6) >= 10 ? r.range(9, 13) : r.chance(60) ? r.range(1, 4) : r.range(2, 12); // a small computed table: collisions, growth
  if (r.chance(6)) c.cfg["segs"] = r.range(4, 63); // memory for node pages only in small pieces
  if (r.chance(25)) c.cfg["late"] = r.range(1, 3);
  if (r.chance(20)) c.cfg["dummies"] = r.range(1, 6);
  if (r.chance(8)) c.cfg["dummies"] = r.range(20, 70);
  if (r.chance(15)) { c.cfg["repa"] = r.range(0, 100); c.cfg["tblr"] = r.range(0, 100); }
}

// the usual profile choice: many small cases, some larger
static int profile(Rng &r, Case &c, bool thorough) {
  int p = r.range(0, 99); if (getenv("PBT_BIG")) p = 99; // (developer aid)
  if (p < 60) { baseCfg(r, c, 1, 6); return r.range(8, 40); }
  if (p < 88) { baseCfg(r, c, 5, 8); return r.range(10, 40); }
  if (p < 97) { baseCfg(r, c, 8, 10); return r.range(8, 24); }
  // large diagrams: several pages of nodes per variable, tables that grow
  baseCfg(r, c, 11, 13); c.cfg["dummies"] = std::min(c.get("dummies", 0), 3L); if (r.chance(60)) c.cfg["gclim"] = r.range(300, 6000); if (r.chance(50)) { c.cfg["repa"] = r.range(50, 150); c.cfg["tblr"] = r.range(30, 100); }
  return r.range(4, thorough ? 16 : 10);
}
static void seedFuncs(Rng &r, Case &c, int n) { for (int i = 0; i < n; i++) c.ops.push_back(makeOp(r, "FUNC", c.get("na", 6))); }

static const Mix boolMix = {{"AND", 5}, {"NAND", 2}, {"OR", 5}, {"NOR", 2}, {"XOR", 5}, {"XNOR", 2}, {"ITE", 5}, {"NOT", 2}, {"ID", 1}};
static Mix operator+(Mix a, const Mix &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static const Mix noise = {{"FREE", 4}, {"KEEP", 1}, {"GC", 1}, {"NEWVAR", 1}, {"FUNC", 3}, {"REORDERAS", 1}};

static Case genC01(Rng &r, bool th) { Case c; int n = profile(r, c, th); seedFuncs(r, c, 3); addOps(r, c, boolMix + Mix{{"INTERSECTS", 3}, {"IMPLIES", 3}, {"NULLOP", 1}} + noise, n); return c; }
static Case genC02(Rng &r, bool th) { Case c; int n = profile(r, c, th); c.cfg["na"] = std::min(c.get("na", 4), r.chance(70) ? 4L : 8L); seedFuncs(r, c, 3); addOps(r, c, boolMix + Mix{{"EXISTS", 2}, {"TINIT", 1}, {"COFACTOR", 2}, {"COMPOSE", 2}, {"SWAP", 2}, {"MOR", 1}, {"PXOR", 1}, {"SATISFY", 1}, {"DUP", 1}, {"CHECKALL", 1}} + noise, n); return c; }
static Case genC03(Rng &r, bool th) { Case c; int n = profile(r, c, th); seedFuncs(r, c, r.range(3, 8)); addOps(r, c, Mix{{"MAND", 6}, {"MOR", 6}, {"MXOR", 6}, {"PAND", 6}, {"POR", 6}, {"PXOR", 6}, {"XOR", 2}, {"PDEPTH", 1}} + noise, n); return c; }
static const Mix assocMix = {{"ASSOCINIT", 3}, {"SETCUR", 4}, {"TINIT", 3}, {"TAUG", 2}, {"ASSOCQUIT", 1}, {"TQUIT", 1}};
// the same operands under the temporary association, tens of thousands of quantifications later
static void churn(Rng &r, Case &c, int pct) {
  if (!r.chance(pct)) return;
  auto put = [&](const char *n, vector<long> a) { Op o; o.name = n; o.a = a; c.ops.push_back(o); };
  auto fn = [&]() { return 8 * r.range(0, 3); };
  put("SETCUR", {0}); c.ops.push_back(makeOp(r, "TINIT", 6));
  struct Q { const char *n; vector<long> a; }; vector<Q> qs; int nq = r.range(1, 4);
  for (int i = 0; i < nq; i++) { const char *n = r.chance(40) ? "EXISTS" : r.chance(50) ? "RELPROD" : r.chance(30) ? "VSUBST" : "FORALL"; qs.push_back({n, {fn(), fn()}}); if (r.chance(30)) put("AND", qs.back().a); }
  for (auto &q : qs) put(q.n, q.a);
  static const long base[] = {65536, 65536, 65536, 65536 - 0x3000, 65536 - 0x2000, 65536 - 0x5000, 65536 - 0x4000, 65536 - 0x8000};
  c.ops.push_back(makeOp(r, "TINIT", 6)); put("TCHURN", {base[r.range(0, 7)] - r.range(0, 8)});
  for (int k = 0; k < 2; k++) for (auto &q : qs) put(q.n, q.a);
}
static Case genC04(Rng &r, bool th) { Case c; int n = profile(r, c, th); seedFuncs(r, c, 4); addOps(r, c, Mix{{"EXISTS", 8}, {"FORALL", 8}, {"RELPROD", 12}, {"XOR", 2}, {"AND", 2}} + assocMix + noise, n); churn(r, c, 3); return c; }
static Case genC05(Rng &r, bool th) { Case c; int n = profile(r, c, th); seedFuncs(r, c, 4); addOps(r, c, Mix{{"COMPOSE", 8}, {"SUBST", 10}, {"VSUBST", 8}, {"SWAP", 8}, {"XOR", 2}, {"AND", 1}} + assocMix + noise, n); churn(r, c, 2); return c; }
static Case genC06(Rng &r, bool th) { Case c; int n = profile(r, c, th); seedFuncs(r, c, 4); addOps(r, c, Mix{{"COFACTOR", 10}, {"REDUCE", 10}, {"BETWEEN", 10}, {"XOR", 2}, {"AND", 2}, {"NOT", 1}} + noise, n); return c; }
static Case genC07(Rng &r, bool th) { Case c; int n = profile(r, c, th); seedFuncs(r, c, 4); addOps(r, c, Mix{{"SATISFY", 10}, {"SATSUP", 12}, {"QUERY", 2}, {"XOR", 2}, {"AND", 2}, {"NOT", 1}} + assocMix + noise, n); return c; }
static Case genC08(Rng &r, bool th) { Case c; int n = profile(r, c, th) / 2 + 4; seedFuncs(r, c, 4); addOps(r, c, Mix{{"QUERY", 12}, {"QMULTI", 10}, {"XOR", 2}, {"AND", 2}, {"NOT", 1}, {"SATISFY", 1}, {"NULLOP", 1}, {"PRINT", 1}, {"FPRINT", 1}, {"PPROF", 1}, {"DUMP", 1}} + noise, n); return c; }
static Case genC09(Rng &r, bool th) { Case c; int n = profile(r, c, th); c.cfg["late"] = r.range(1, 8); if (r.chance(30)) c.cfg["dummies"] = r.range(20, 32); if (r.chance(10)) c.cfg["dummies"] = r.range(52, 64); if (r.chance(4)) c.cfg["dummies"] = r.range(112, 122); seedFuncs(r, c, 3);
  addOps(r, c, Mix{{"NEWVAR", 16}, {"QUERY", 1}, {"SUBST", 1}, {"EXISTS", 1}, {"MXOR", 1}, {"BLOCK", 1}} + boolMix + assocMix + noise, n); return c; }
static Case genC10(Rng &r, bool th) { Case c; int n = profile(r, c, th) + 6; c.cfg["na"] = std::min(c.get("na", 4), 7L); seedFuncs(r, c, 3); c.cfg["endfree"] = r.range(0, 1);
  addOps(r, c, Mix{{"ASSOCINIT", 8}, {"SETCUR", 8}, {"TINIT", 5}, {"TAUG", 6}, {"ASSOCQUIT", 5}, {"TQUIT", 1}, {"EXISTS", 4}, {"FORALL", 2}, {"RELPROD", 3}, {"SUBST", 6}, {"VSUBST", 3}, {"SATSUP", 1}, {"NODECHK", 2}, {"FREE", 3}} + noise, n); churn(r, c, 3);
#ifndef __SANITIZE_ADDRESS__
  if (r.range(1, 1200) == 1) { // thousands of associations (takes about two seconds)
    c.cfg["na"] = std::max(c.get("na", 4), 5L); auto put = [&](const char *n, vector<long> a) { Op o; o.name = n; o.a = a; c.ops.push_back(o); }; c.ops.clear(); c.cfg.erase("tech"); c.cfg.erase("mgrs");
    auto some = [&](int k) { for (int i = 0; i < k; i++) { Op o = makeOp(r, "ASSOCINIT", 6); if (r.chance(70)) o.a[0] |= 3; c.ops.push_back(o); } };
    seedFuncs(r, c, 4); int e = r.range(1, 3); some(e); put("ASSOCMANY", {r.range(0, 5), r.chance(70) ? 0 : r.range(0, 3)}); int l = r.range(1, 4); some(l);
    for (int i = 0; i < 60; i++) { static const char *nm[] = {"EXISTS", "EXISTS", "FORALL", "RELPROD", "VSUBST", "VSUBST", "VSUBST", "SUBST"}; put("SETCUR", {r.range(1, e + l)}); put(nm[r.range(0, 7)], {8 * r.range(0, 1), 8 * r.range(0, 2)}); }
    addOps(r, c, Mix{{"ASSOCQUIT", 3}, {"SETCUR", 2}, {"EXISTS", 2}, {"FREE", 1}, {"GC", 1}}, 6); }
#endif
  return c; }
static Case genC11(Rng &r, bool th) { Case c; int n = profile(r, c, th) + 6; if (r.chance(60)) c.cfg["na"] = std::min(c.get("na", 4), 6L); seedFuncs(r, c, 4); c.cfg["endfree"] = r.range(0, 1); if (r.chance(40)) c.cfg["repa"] = r.range(0, 150);
  addOps(r, c, Mix{{"FREE", 14}, {"KEEP", 4}, {"DUP", 4}, {"GC", 6}, {"NODECHK", 6}, {"SETGCLIMIT", 1}, {"FUNC", 6}, {"EXISTS", 1}, {"RELPROD", 1}, {"SUBST", 1}, {"COMPOSE", 1}, {"COFACTOR", 1}, {"REDUCE", 1}, {"BETWEEN", 1}, {"SWAP", 1}, {"VSUBST", 1}, {"SATISFY", 1}, {"SATSUP", 1}, {"MOR", 1}, {"PAND", 1}, {"INTERSECTS", 1}, {"TINIT", 1}, {"ASSOCINIT", 1}, {"SETCUR", 1}, {"ASSOCQUIT", 1}, {"DUMP", 1}, {"QUERY", 1}} + boolMix, n); return c; }
static Case genC12(Rng &r, bool th) { Case c; int n = profile(r, c, th); seedFuncs(r, c, r.range(2, 5)); c.cfg["thr"] = r.chance(70) ? 0 : r.range(0, 60); c.cfg["fwd"] = r.chance(60) ? r.range(0, 30) : 50000; c.cfg["tblr"] = r.range(0, 100); c.cfg["repa"] = r.range(0, 100);
  if (r.chance(25)) { c.cfg["tech"] = r.range(1, 2); c.cfg["meth"] = r.range(0, 1); c.cfg["gclim"] = r.range(1, 80); c.cfg["gcchk"] = r.range(1, 8); }
  addOps(r, c, Mix{{"REORDER", 4}, {"REORDERAS", 10}, {"DYN", 3}, {"PARAMS", 2}, {"FUNC", 6}, {"FREE", 5}, {"KEEP", 2}, {"GC", 2}, {"NEWVAR", 2}, {"NODECHK", 2}, {"EXISTS", 1}, {"RELPROD", 1}, {"SUBST", 1}, {"COFACTOR", 1}, {"MAND", 1}, {"SWAP", 1}, {"QUERY", 1}} + assocMix + boolMix, n / 2 + 4); return c; }
static Case genC13(Rng &r, bool th) { Case c; (void)th; baseCfg(r, c, 3, 9); int n = r.range(6, 20); c.cfg["meth"] = 1; c.cfg["thr"] = 0; seedFuncs(r, c, r.range(2, 5));
  addOps(r, c, Mix{{"BLOCK", 10}}, r.range(1, 6));
  addOps(r, c, Mix{{"BLOCK", 4}, {"BLOCKMARK", 2}, {"NEWVAR", 4}, {"FUNC", 5}, {"AND", 2}, {"XOR", 2}, {"FREE", 3}}, n / 2);
  for (int i = 0; i < 3; i++) { Op o; o.name = "REORDERAS"; o.a = {r.range(0, 1), 1}; c.ops.push_back(o); addOps(r, c, Mix{{"BLOCK", 4}, {"BLOCKMARK", 2}, {"NEWVAR", 4}, {"FUNC", 4}, {"XOR", 2}, {"FREE", 3}, {"NODECHK", 1}}, r.range(0, 5)); }
  return c; }
static const Mix limited = Mix{{"LIMIT", 8}, {"OVERFLOW", 2}, {"NULLOP", 3}, {"FUNC", 5}, {"FREE", 3}, {"KEEP", 1}, {"GC", 1}, {"EXISTS", 2}, {"FORALL", 1}, {"RELPROD", 2}, {"SUBST", 2}, {"VSUBST", 1}, {"COMPOSE", 2}, {"SWAP", 2}, {"COFACTOR", 2}, {"REDUCE", 2}, {"BETWEEN", 2}, {"SATISFY", 1}, {"SATSUP", 1}, {"MAND", 2}, {"MOR", 1}, {"MXOR", 2}, {"PAND", 2}, {"POR", 2}, {"PXOR", 2}, {"INTERSECTS", 1}, {"IMPLIES", 1}, {"DUMP", 2}, {"NEWVAR", 1}, {"NODECHK", 1}, {"PINIT", 1}, {"PCREATE", 3}, {"PEXEC", 1}, {"PUPD", 1}, {"PQUIT", 1}, {"TINIT", 2}, {"ASSOCINIT", 1}, {"SETCUR", 1}} + boolMix;
static Case genC14(Rng &r, bool th) { Case c; int n = profile(r, c, th); bool tight = r.chance(75); c.cfg["gclim"] = tight ? r.range(1, 8) : r.range(1, 40); c.cfg["gcchk"] = tight ? r.range(1, 2) : r.range(1, 4);
  if (tight && c.get("na", 6) < 5) c.cfg["na"] = r.range(5, 7);
  seedFuncs(r, c, 3);
  if (!tight) addOps(r, c, limited, n + 6);
  else for (int k = 0, rounds = n / 6 + 1; k < rounds; k++) { // a limit just above what is in use, then work
    auto put = [&](const char *nm, vector<long> a) { Op o; o.name = nm; o.a = a; c.ops.push_back(o); };
    addOps(r, c, {{"FUNC", 4}, {"TINIT", 2}, {"ASSOCINIT", 1}, {"SETCUR", 1}, {"FREE", 1}, {"XOR", 1}}, r.range(1, 3));
    if (r.chance(70)) put("GC", {}); put("LIMIT", {r.chance(80) ? r.range(-2, 12) : r.range(12, 60), 1});
    if (r.chance(12)) { c.ops.push_back(makeOp(r, "PINIT", 6)); addOps(r, c, {{"PCREATE", 10}}, r.range(2, 8)); c.ops.push_back(makeOp(r, "PEXEC", 6)); addOps(r, c, {{"PUPD", 10}}, r.range(1, 5)); c.ops.push_back(makeOp(r, "PQUIT", 6)); continue; }
    Mix m; for (auto &w : limited) if (string(w.name) != "LIMIT") m.push_back(w); addOps(r, c, m, r.range(2, 8));
    if (r.chance(40)) put("LIMIT", {0, 0}); }
  Op o; o.name = "LIMIT"; o.a = {0, 0}; c.ops.push_back(o); addOps(r, c, boolMix + Mix{{"RELPROD", 3}, {"MXOR", 2}, {"COMPOSE", 2}}, 4); return c; }
static Case genC15(Rng &r, bool th) { Case c; int n = profile(r, c, th) / 2 + 4; c.cfg["mgrs"] = r.range(1, 2); c.cfg["samevars"] = 0; if (r.chance(10)) c.cfg["dummies"] = r.range(60, 140); if (r.chance(4)) { c.cfg["dummies"] = r.range(250, 262); c.cfg["na"] = std::min(c.get("na", 5), 6L); } seedFuncs(r, c, 4);
  addOps(r, c, Mix{{"DUMP", 12}, {"XOR", 2}, {"AND", 2}, {"ITE", 2}, {"USE", 2}, {"NOT", 1}} + noise, n); return c; }
static Case genC16(Rng &r, bool th) { Case c; int n = profile(r, c, th) / 2 + 4; c.cfg["na"] = std::min(c.get("na", 5), 7L); seedFuncs(r, c, 4); c.cfg["endfree"] = r.range(0, 1);
  addOps(r, c, Mix{{"UNDUMPRAW", 20}, {"XOR", 2}, {"AND", 1}, {"ITE", 2}, {"FUNC", 3}, {"FREE", 2}, {"GC", 1}}, n); return c; }
static Case genC17(Rng &r, bool th) { Case c; int n = profile(r, c, th); seedFuncs(r, c, 4); if (r.chance(30)) { c.cfg["thr"] = 0; c.cfg["tech"] = r.range(0, 2); c.cfg["meth"] = r.range(0, 1); }
  int rounds = r.range(1, 3); Mix between = {{"GC", 2}, {"REORDER", 2}, {"REORDERAS", 2}, {"AND", 2}, {"XOR", 2}, {"FUNC", 2}, {"FREE", 2}, {"EXISTS", 1}, {"ITE", 1}, {"QUERY", 1}, {"TINIT", 1}, {"MAND", 1}, {"MXOR", 1}, {"PAND", 1}, {"COMPOSE", 1}, {"NEWVAR", 1}, {"DUMP", 1}, {"SUBST", 1}, {"SWAP", 1}, {"RELPROD", 1}, {"NULLOP", 1}};
  for (int k = 0; k < rounds; k++) {
    if (r.chance(50)) c.ops.push_back(makeOp(r, "PDEPTH", 6));
    c.ops.push_back(makeOp(r, "PINIT", 6)); addOps(r, c, {{"PCREATE", 10}, {"PUPD", 1}}, r.range(1, 14)); if (r.chance(8)) { Op o; o.name = "PCHAIN"; o.a = {big(r), r.chance(50) ? r.range(5, 40) : r.range(250, 299)}; c.ops.push_back(o); }
    if (r.chance(40)) { addOps(r, c, between, r.range(1, 4)); addOps(r, c, {{"PCREATE", 10}}, r.range(0, 5)); }
    c.ops.push_back(makeOp(r, "PEXEC", 6));
    addOps(r, c, {{"PUPD", 10}}, r.range(0, 8)); if (r.chance(60)) { addOps(r, c, between, r.range(1, 5)); addOps(r, c, {{"PUPD", 10}}, r.range(1, 8)); }
    c.ops.push_back(makeOp(r, "PQUIT", 6)); addOps(r, c, noise + boolMix, r.range(0, n / 3));
  } return c; }
static Case genC18(Rng &r, bool th) { Case c; int n = profile(r, c, th) / 2 + 4; c.cfg["na"] = std::min(c.get("na", 5), 9L); seedFuncs(r, c, 4); addOps(r, c, Mix{{"PRINT", 10}, {"FPRINT", 5}, {"PPROF", 10}, {"XOR", 2}, {"AND", 2}, {"ITE", 2}} + noise, n); return c; }
static const Mix everything = boolMix + assocMix + noise + Mix{{"INTERSECTS", 1}, {"IMPLIES", 1}, {"MAND", 1}, {"MOR", 1}, {"MXOR", 1}, {"PAND", 1}, {"POR", 1}, {"PXOR", 1}, {"EXISTS", 2}, {"FORALL", 2}, {"RELPROD", 2}, {"SUBST", 2}, {"VSUBST", 2}, {"COMPOSE", 2}, {"SWAP", 2}, {"COFACTOR", 2}, {"REDUCE", 2}, {"BETWEEN", 2}, {"SATISFY", 1}, {"SATSUP", 1}, {"QUERY", 1}, {"QMULTI", 1}, {"DUP", 1}, {"NODECHK", 1}, {"REORDER", 1}, {"DUMP", 1}, {"PRINT", 1}, {"PPROF", 1}, {"STATS", 1}, {"NULLOP", 1}};
static const Mix tuning = {{"PARAMS", 3}, {"DYN", 3}, {"SETGCLIMIT", 1}, {"GCMODE", 2}, {"REORDER", 2}, {"PDEPTH", 1}};
static const Mix pipe_ = {{"PINIT", 2}, {"PCREATE", 6}, {"PEXEC", 2}, {"PUPD", 4}, {"PQUIT", 1}};
static Case genC21(Rng &r, bool th) { Case c; int n = profile(r, c, th) + 10; c.cfg["na"] = std::min(c.get("na", 5), 6L); c.cfg["mgrs"] = r.range(1, 4); c.cfg["samevars"] = r.range(0, 1); c.cfg["quitrev"] = r.range(0, 1); c.cfg["endcheck"] = r.range(0, 1); seedFuncs(r, c, 2);
  addOps(r, c, everything + tuning + pipe_ + Mix{{"USE", 24}, {"MQUIT", 2}, {"MNEW", 3}, {"FUNC", 6}, {"LIMIT", 2}, {"BLOCK", 1}}, n + 10); return c; }
static Case genC22(Rng &r, bool th) { Case c; int n = profile(r, c, th); seedFuncs(r, c, 3); c.cfg["gcchk"] = r.range(1, 10); c.cfg["gclim"] = r.range(1, 100); c.cfg["repa"] = r.range(0, 100); c.cfg["tblr"] = r.range(0, 100);
  if (r.chance(60)) { c.cfg["tech"] = r.range(1, 2); c.cfg["meth"] = r.range(0, 1); c.cfg["thr"] = r.chance(60) ? 0 : r.range(0, 100); c.cfg["fwd"] = r.chance(50) ? r.range(0, 50) : 50000; } else if (r.chance(50)) { c.cfg["gcmode"] = 0; }
  addOps(r, c, everything + tuning, n); churn(r, c, 1); return c; }
static Case genC23(Rng &r, bool th) { Case c; int n = profile(r, c, th); if (r.chance(30)) n *= 2; seedFuncs(r, c, 3); if (r.chance(40)) { c.cfg["gcchk"] = r.range(1, 10); c.cfg["gclim"] = r.range(1, 100); }
  if (r.chance(20)) { c.cfg["tech"] = r.range(1, 2); c.cfg["meth"] = r.range(0, 1); c.cfg["thr"] = 0; }
  c.cfg["mgrs"] = r.chance(80) ? 1 : 2;
  addOps(r, c, everything + tuning + pipe_ + Mix{{"LIMIT", 1}, {"USE", 2}, {"BLOCK", 1}, {"UNDUMPRAW", 1}, {"MNEW", 0}}, n); churn(r, c, 1); return c; }

static Case genC27(Rng &r, bool th) { Case c; int n = profile(r, c, th); seedFuncs(r, c, 3); if (r.chance(40)) { c.cfg["gcchk"] = r.range(1, 10); c.cfg["gclim"] = r.range(1, 100); }
  if (r.chance(30)) { c.cfg["tech"] = r.range(1, 2); c.cfg["meth"] = r.range(0, 1); c.cfg["thr"] = 0; }
  if (r.chance(15)) c.cfg["mgrs"] = 2;
  addOps(r, c, everything + tuning + pipe_ + Mix{{"STATS", 30}, {"LIMIT", 3}, {"USE", 2}, {"BLOCK", 1}, {"REORDERAS", 2}, {"FUNC", 3}, {"FREE", 3}}, n + 6); return c; }
static Case genC24(Rng &r, bool th) { Case c; int n = profile(r, c, th); c.cfg["nogrow"] = 1; if (r.chance(60)) c.cfg["large"] = 1 << 19; seedFuncs(r, c, r.range(2, 5));
  if (r.chance(30)) { c.cfg["meth"] = 1; c.cfg["thr"] = 0; addOps(r, c, Mix{{"BLOCK", 10}}, r.range(1, 4)); }
  for (int i = 0, k = r.range(1, 4); i < k; i++) { addOps(r, c, boolMix + Mix{{"FUNC", 6}, {"FREE", 5}, {"KEEP", 2}, {"GC", 1}, {"NEWVAR", 2}, {"EXISTS", 1}, {"COFACTOR", 1}, {"SUBST", 1}, {"BLOCKMARK", 1}} + assocMix, r.range(1, n / 3)); c.ops.push_back(makeOp(r, "REORDERAS", 6)); }
  if (r.chance(25)) c.ops.push_back(makeOp(r, "SEPAR", 6));
  return c; }

// Features meet: in some of the cases operations of every other kind are strewn over the history.
template <Case (*G)(Rng &, bool)> static Case mixed(Rng &r, bool th) {
  Case c = G(r, th); if (!r.chance(30)) return c;
  Case x; addOps(r, x, everything + tuning + pipe_ + Mix{{"BLOCK", 1}, {"UNDUMPRAW", 1}, {"FPRINT", 1}, {"NEWVAR", 2}, {"GC", 2}, {"REORDERAS", 2}}, 1 + r.range(0, (int)c.ops.size() / 2));
  for (auto &o : x.ops) c.ops.insert(c.ops.begin() + r.range(0, (int)c.ops.size()), o);
  return c; }

#define NT(expr) [](const Stats &s, const Case &) -> bool { (void)s; return expr; }
vector<PropDef> &properties() {
  static vector<PropDef> p = {
    {"C01", mixed<genC01>, NT(s.get("op_bool") + s.get("op_ite") + s.get("op_witness") >= 3 && s.get("checked_nonconst") >= 3), "at least 3 Boolean operations and at least 3 non-constant results compared with the truth-table model", {40000, 40}, {400000, 600}, 24, 20},
    {"C02", mixed<genC02>, NT(s.get("checked_nonconst") >= 5), "at least 5 non-constant results compared pairwise (handle equality against function equality) with all live handles", {40000, 40}, {400000, 600}, 24, 20},
    {"C03", mixed<genC03>, NT(s.get("op_multi3") + s.get("op_pair2") >= 2), "at least 2 list operations with three or more operands / two or more pairs", {32000, 40}, {300000, 600}, 24, 20},
    {"C04", mixed<genC04>, NT(s.get("op_quant_real") >= 2), "at least 2 quantifications or relational products that change the function", {32000, 40}, {300000, 600}, 24, 20},
    {"C05", mixed<genC05>, NT(s.get("op_subst_real") >= 2), "at least 2 compositions/substitutions/swaps that change the function", {32000, 40}, {300000, 600}, 24, 20},
    {"C06", mixed<genC06>, NT(s.get("op_cof_real") >= 2), "at least 2 cofactor/reduce/between results that differ from the operand", {32000, 40}, {300000, 600}, 24, 20},
    {"C07", mixed<genC07>, NT(s.get("op_sat_real") >= 2), "at least 2 satisfying assignments of functions other than constant one", {32000, 40}, {300000, 600}, 24, 20},
    {"C08", mixed<genC08>, NT(s.get("shape_checks_nontrivial") + s.get("shape_checks_multi") >= 2), "at least 2 complete structural query comparisons of functions with two or more support variables", {20000, 40}, {200000, 600}, 24, 20},
    {"C09", mixed<genC09>, NT(s.get("newvars_late") >= 1 && s.get("checked_nonconst") >= 2), "a variable created after functions exist, and at least 2 non-constant results checked", {20000, 40}, {200000, 600}, 24, 20},
    {"C10", mixed<genC10>, NT(s.get("assoc_inits") + s.get("temp_inits") >= 2 && s.get("op_quant_real") + s.get("op_subst_real") >= 1), "at least 2 associations made and one operation under them that changes the function", {24000, 40}, {200000, 600}, 24, 60},
    {"C11", mixed<genC11>, NT(s.get("node_checks_nontrivial") >= 1 && s.get("frees") >= 1), "handles released and the node count after collection compared with the model while other functions were alive", {28000, 40}, {300000, 600}, 24, 20},
    {"C12", mixed<genC12>, NT(s.get("order_changed") + s.get("reorders_live") >= 1), "at least one reordering with two or more live functions", {24000, 45}, {200000, 600}, 24, 20},
    {"C13", genC13, NT(s.get("block_checks") >= 1 && s.get("order_changed") >= 1), "a reordering that changed the order while at least one block existed", {24000, 40}, {200000, 600}, 24, 20},
    {"C14", genC14, NT(s.get("overflows") >= 1 && s.get("checked_nonconst") >= 2), "at least one overflow and at least 2 non-constant results checked", {28000, 45}, {300000, 600}, 24, 20},
    {"C15", mixed<genC15>, NT(s.get("dumps_nontrivial") >= 1), "at least one dump read back of a function with three or more support variables", {24000, 40}, {200000, 600}, 24, 20},
    {"C16", genC16, NT(s.get("raw_rejected") >= 1), "at least one damaged file rejected", {24000, 40}, {200000, 600}, 24, 20},
    {"C17", mixed<genC17>, NT(s.get("provisionals") >= 2 && s.get("pupdates") >= 1), "at least 2 provisional diagrams created and one updated after execution", {32000, 40}, {300000, 600}, 24, 20},
    {"C18", mixed<genC18>, NT(s.get("prints_nontrivial") + s.get("pprofs_nontrivial") >= 2), "at least 2 printed texts of diagrams with two or more internal nodes parsed back", {20000, 40}, {200000, 600}, 24, 20},
    {"C21", genC21, NT(s.get("checked_nonconst") >= 3), "several managers used and at least 3 non-constant results checked", {16000, 45}, {150000, 600}, 24, 30},
    {"C22", genC22, NT(s.get("checked_nonconst") >= 3), "non-default tuning parameters and at least 3 non-constant results checked", {24000, 45}, {200000, 600}, 24, 20},
    {"C23", genC23, NT(s.get("checked_nonconst") >= 4 && s.get("full_checks_3plus") >= 1), "at least 4 non-constant results and one check of all live handles with three or more alive", {24000, 60}, {200000, 900}, 24, 30},
    {"C27", genC27, NT(s.get("stats_nontrivial") >= 2 && s.get("stats_gc") + s.get("stats_reorder") >= 1), "statistics printed and read back at least twice with more nodes in use than the variables alone need, and around a collection or reordering", {24000, 45}, {200000, 600}, 24, 20},
    {"C24", genC24, NT(s.get("grow_checks_shrank") + s.get("separated") >= 1), "a reordering that made the live diagrams smaller, or one of a function with separated partner variables", {24000, 45}, {200000, 600}, 24, 20},
  };
  return p;
}
