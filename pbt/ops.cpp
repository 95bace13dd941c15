// The operation interpreter: every line of a case is one call (or a small group of
// calls) of the public C interface, checked against the reference model.
#include "capture.h"
#include <sstream>
#include "model.h"
#include <algorithm>
using std::string; using std::vector; using std::set; using std::map;

static long argOf(const Op &o, size_t i, long d = 0) { return i < o.a.size() ? o.a[i] : d; }
static long absl(long x) { return x < 0 ? -x : x; }

typedef Cal_Bdd (*Fn1)(Cal_BddManager, Cal_Bdd);
typedef Cal_Bdd (*Fn2)(Cal_BddManager, Cal_Bdd, Cal_Bdd);
typedef Cal_Bdd (*Fn3)(Cal_BddManager, Cal_Bdd, Cal_Bdd, Cal_Bdd);
typedef Cal_Bdd (*FnL)(Cal_BddManager, Cal_Bdd *);
typedef Cal_Bdd *(*FnP)(Cal_BddManager, Cal_Bdd *);

static const map<string, Fn2> fn2 = {{"AND", Cal_BddAnd}, {"NAND", Cal_BddNand}, {"OR", Cal_BddOr}, {"NOR", Cal_BddNor}, {"XOR", Cal_BddXor}, {"XNOR", Cal_BddXnor}};
static TT model2(const string &n, const TT &a, const TT &b) {
  if (n == "AND") return a & b;
  if (n == "NAND") return ~(a & b);
  if (n == "OR") return a | b;
  if (n == "NOR") return ~(a | b);
  if (n == "XOR") return a ^ b;
  return ~(a ^ b);
}

static bool isCubeTT(const TT &t, bool zeroIs) {
  if (t.isZero()) return zeroIs;
  for (int v : t.support()) if (!t.cof(v, false).isZero() && !t.cof(v, true).isZero()) return false;
  return true;
}

// one live result whose exact function is constrained only by a predicate
static void putChecked(Mgr &m, Cal_Bdd r, const char *what, const std::function<void(const TT &)> &chk) {
  if (!r) { m.nullOk(what); return; }
  m.ref(r);
  TT t = m.eval(r, what);
  chk(t);
  m.expect(r, t, what);
  m.slots.push_back({r, t});
  if (m.slots.size() > 48) { Slot s = m.slots[m.slots.size() / 2]; m.slots.erase(m.slots.begin() + m.slots.size() / 2); m.drop(s.b); }
}

// quantified variables of the current association
static TT quant(Mgr &m, TT t, bool ex) {
  for (auto &k : m.curAssoc().map) { int tv = m.vars[k.first].tv; if (tv >= 0) t = ex ? t.exists(tv) : t.forall(tv); }
  return t;
}

static int pickVar(Mgr &m, long a) { return m.tv2var[absl(a) % m.nact()]; }

static void releaseAll(Mgr &m, vector<Operand> &v) { for (auto &o : v) m.rel(o); }

static void assocRelease(Mgr &, Assoc &) {}

static Cal_Bdd callNull(Mgr &m, int k, Cal_Bdd x, int pos) {
  Cal_Bdd n = nullptr, a = pos & 1 ? n : x, b = pos & 2 ? n : x, c = pos & 4 ? n : x;
  if (a && b && c) a = n;
  switch (k) {
  case 0: return Cal_BddAnd(m.m, a, a && b ? n : b);
  case 1: return Cal_BddNand(m.m, a, a && b ? n : b);
  case 2: return Cal_BddOr(m.m, a, a && b ? n : b);
  case 3: return Cal_BddNor(m.m, a, a && b ? n : b);
  case 4: return Cal_BddXor(m.m, a, a && b ? n : b);
  case 5: return Cal_BddXnor(m.m, a, a && b ? n : b);
  case 6: return Cal_BddITE(m.m, a, b, c);
  case 7: return Cal_BddNot(m.m, n);
  case 8: return Cal_BddIdentity(m.m, n);
  case 9: return Cal_BddIntersects(m.m, a, a && b ? n : b);
  case 10: return Cal_BddImplies(m.m, a, a && b ? n : b);
  case 11: return Cal_BddExists(m.m, n);
  case 12: return Cal_BddForAll(m.m, n);
  case 13: return Cal_BddRelProd(m.m, a, a && b ? n : b);
  case 14: return Cal_BddSubstitute(m.m, n);
  case 15: return Cal_BddCofactor(m.m, a, a && b ? n : b);
  case 16: return Cal_BddReduce(m.m, a, a && b ? n : b);
  case 17: return Cal_BddBetween(m.m, a, a && b ? n : b);
  case 18: return Cal_BddSatisfy(m.m, n);
  case 19: return Cal_BddSatisfySupport(m.m, n);
  case 20: { if (!m.nact()) return n; Cal_Bdd v = m.vars[m.tv2var[0]].b; Cal_Bdd f = pos & 1 ? n : x, g = pos & 2 ? n : v, h = pos & 4 ? n : x; if (f && g && h) f = n; return Cal_BddCompose(m.m, f, g, h); }
  case 21: { if (!m.nact()) return n; Cal_Bdd v = m.vars[m.tv2var[0]].b; Cal_Bdd f = pos & 1 ? n : x, g = pos & 2 ? n : v, h = pos & 4 ? n : v; if (f && g && h) f = n; return Cal_BddSwapVars(m.m, f, g, h); }
  case 22: return Cal_BddVarSubstitute(m.m, n);
  case 23: return Cal_BddIf(m.m, n);
  case 24: return Cal_BddThen(m.m, n);
  case 25: return Cal_BddElse(m.m, n);
  }
  return n;
}

void Env::run() {
  calVerifMinGCLimit = c.get("gclim", 10000);
  calVerifGCCheck = (int)c.get("gcchk", 100);
  calVerifLargeBdd = (unsigned long)c.get("large", 1 << 19); calVerifCacheIndex = (int)c.get("cidx", 16); memSegLimit(4096 * c.get("segs", 0));
  MemCount m0 = memOutstanding();
  int nm = (int)std::max(1L, std::min(4L, c.get("mgrs", 1)));
  auto mk = [&](int i) {
    mgrs.emplace_back(new Mgr(*this)); Mgr &m = *mgrs.back();
    m.autoReorder = false;
    Cal_BddManagerSetHooks(m.m, m.hook = (void *)(uintptr_t)(0x1000 + i));
    int na = (int)c.get("na", 6), nd = (int)c.get("dummies", 0), late = (int)c.get("late", 0), start = std::max(0, na - late);
    Rng r((uint64_t)c.get("vseed", 1) + (c.get("samevars", 1) ? 0 : i * 77));
    vector<int> kinds; for (int k = 0; k < start; k++) kinds.push_back(1); for (int k = 0; k < nd; k++) kinds.push_back(0);
    for (size_t k = kinds.size(); k > 1; k--) std::swap(kinds[k - 1], kinds[r.range(0, k - 1)]);
    for (size_t k = 0; k < kinds.size(); k++) m.newVar(c.get("vorder", 1) ? (int)r.range(0, 3) : 1, (int)r.range(0, 1000), kinds[k], kinds.size() < 20 || k % 9 == 0);
    m.technique = (int)c.get("tech", 0); m.method = (int)c.get("meth", 1);
    Cal_BddDynamicReordering(m.m, m.technique, m.method);
    Cal_BddManagerSetParameters(m.m, c.get("thr", 5000), c.get("fwd", 50000), m.repack = c.get("repa", 75) / 100.0, c.get("tblr", 90) / 100.0);
    if (c.get("gcmode", 1) == 0) { Cal_BddSetGCMode(m.m, 0); m.gcOn = false; }
    if (c.get("limit", 0)) { m.limit = c.get("limit", 0); Cal_BddNodeLimit(m.m, m.limit); }
  };
  for (int i = 0; i < nm; i++) mk(i);
  for (size_t i = 0; i < c.ops.size(); i++) {
    if (mgrs.empty()) mk(nm + (int)i);
    if (cur >= (int)mgrs.size()) cur = 0;
    if (getenv("PBT_TRACE")) { fprintf(stderr, "%zu %s", i, c.ops[i].name.c_str()); for (long x : c.ops[i].a) fprintf(stderr, " %ld", x); fprintf(stderr, "\n"); }
    unsigned long before = m().gcOn ? 0 : Cal_BddManagerGetNumNodes(m().m);
    bool collects = m().gcOn; m().asked = false;
    Mgr *w = &m();
    step(c.ops[i]);
    bool alive = false; for (auto &p : mgrs) alive |= p.get() == w;
    if (alive && !collects && !w->gcOn && !w->asked && !w->limit) {
      unsigned long after = Cal_BddManagerGetNumNodes(w->m);
      if (after < before) failf("gcmode: the number of nodes fell from %lu to %lu although automatic collection is off", before, after);
      st.inc("gcoff_steps");
      if (after > (unsigned long)calVerifMinGCLimit) st.inc("gcoff_steps_over_limit");
    }
    if (alive) w->maxSeen = std::max(w->maxSeen, Cal_BddManagerGetNumNodes(w->m));
    st.inc("ops");
    if (getenv("PBT_CHECK")) { for (auto &p : mgrs) p->checkAll("trace"); }
  }
  for (auto &p : mgrs) {
    p->closePipeline();
    if (p->technique && getenv("PBT_NEVER")) abort();
    p->checkAll("end");
    if (Cal_BddManagerGetHooks(p->m) != p->hook) failf("hooks: the hook value changed");
  }
  if (c.get("endcheck", 1)) for (auto &p : mgrs) {
    p->nodeCheck(); p->checkAll("end after collection");
  }
  bool handlesLeft = c.get("endfree", 0);
  if (handlesLeft) for (auto &p : mgrs) { // release everything: only variables may remain
    Mgr &m = *p;
    for (auto &s : m.slots) m.drop(s.b);
    m.slots.clear();
    for (auto &a : m.assocs) for (int i = 0; i < a.second.refs; i++) Cal_AssociationQuit(m.m, a.first);
    for (int id : m.bulkAssocs) Cal_AssociationQuit(m.m, id);
    m.bulkAssocs.clear(); m.assocs.clear(); m.cur = -1; Cal_TempAssociationQuit(m.m); m.temp = Assoc();
    m.nodeCheck();
    st.inc("endfree");
  }
  while (!mgrs.empty()) { size_t k = c.get("quitrev", 0) ? mgrs.size() - 1 : 0; mgrs[k]->quit(); mgrs.erase(mgrs.begin() + k); for (auto &p : mgrs) if (p->slots.size() < 20) p->checkAll("after destroying another manager"); }
  MemCount m1 = memOutstanding();
  if (m1.blocks != m0.blocks || m1.bytes != m0.bytes) failf("leak: %ld blocks (%ld bytes) still allocated after all managers were destroyed", m1.blocks - m0.blocks, m1.bytes - m0.bytes);
}

static void listOps(Mgr &m, const Op &o, vector<Operand> &fs, size_t from = 0) { for (size_t i = from; i < o.a.size(); i++) fs.push_back(m.opnd(o.a[i])); }

// k pairs (x_i, y_i), all x above all y: the diagram has about 2^k nodes, but a few per variable once partners
// are neighbours. Every technique and method has to get there. Runs in a manager of its own.
static void opSeparated(Stats &st, const Op &o) {
  Rng r((uint64_t)argOf(o, 0) * 5 + 3); int kind = (int)(absl(argOf(o, 1)) % 4), k = 3 + (int)(absl(argOf(o, 2)) % 8), tech = 1 + (int)(absl(argOf(o, 3)) % 2), me = (int)(absl(argOf(o, 4)) % 2);
  Cal_BddManager m = Cal_BddManagerInit();
  vector<Cal_Bdd> x, y, lit; vector<bool> neg; int extra = 0;
  bool sift = tech == 1; // window permutation gets stuck on variables that no node uses
  auto dummy = [&]() { if (sift && r.chance(10)) { Cal_BddManagerCreateNewVarLast(m); extra++; } };
  for (int i = 0; i < k; i++) { dummy(); x.push_back(Cal_BddManagerCreateNewVarLast(m)); }
  for (int i = 0; i < k; i++) { dummy(); y.push_back(Cal_BddManagerCreateNewVarLast(m)); }
  auto shuffle = [&](vector<Cal_Bdd> &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.range(0, i - 1)]); };
  shuffle(x); shuffle(y);
  Cal_Bdd f = kind == 1 || kind == 2 ? Cal_BddOne(m) : Cal_BddZero(m);
  for (int i = 0; i < k; i++) {
    neg.push_back(r.chance(50)); Cal_Bdd a = neg[i] ? Cal_BddNot(m, x[i]) : Cal_BddIdentity(m, x[i]), t, g;
    if (kind == 0) { t = Cal_BddAnd(m, a, y[i]); g = Cal_BddOr(m, f, t); } else if (kind == 1) { t = Cal_BddXnor(m, a, y[i]); g = Cal_BddAnd(m, f, t); }
    else if (kind == 2) { t = Cal_BddOr(m, a, y[i]); g = Cal_BddAnd(m, f, t); } else { t = Cal_BddAnd(m, a, y[i]); g = Cal_BddXor(m, f, t); }
    Cal_BddFree(m, f); Cal_BddFree(m, t); Cal_BddFree(m, a); f = g;
  }
  Cal_BddManagerGC(m); long before = (long)Cal_BddManagerGetNumNodes(m), vars = 2 * k + extra;
  for (int round = 0, rounds = (int)r.range(1, 2); round < rounds; round++) {
    if (round) { tech = sift ? 1 : (int)r.range(1, 2); me = (int)r.range(0, 1); }
    Cal_BddDynamicReordering(m, tech, me); Cal_BddReorder(m); Cal_BddManagerGC(m);
    long after = (long)Cal_BddManagerGetNumNodes(m);
    if (after > 7 * vars + 10 || (round == 0 && after >= before)) failf("separated pairs: %ld nodes before reordering, %ld after, over %ld variables", before, after, vars);
    st.inc(after > 4 * vars ? "separated_4" : after > 3 * vars ? "separated_3" : "separated_2"); before = after;
  }
  for (int q = 0; q < 40; q++) { // and it is still the same function
    std::map<Cal_Bdd, bool> in; bool want = kind == 1 || kind == 2;
    for (int i = 0; i < k; i++) { bool a = r.chance(50), b = r.chance(50); if (r.chance(60)) b = a != neg[i] ? (kind == 1 || kind == 2) : !(kind == 1 || kind == 2) ? b : true; in[x[i]] = a; in[y[i]] = b; bool u = a != neg[i], t = kind == 1 ? u == b : kind == 2 ? (u || b) : (u && b); want = kind == 0 ? want || t : kind == 3 ? want != t : want && t; }
    Cal_Bdd p = Cal_BddIdentity(m, f);
    while (!Cal_BddIsBddConst(m, p)) { Cal_Bdd v = Cal_BddIf(m, p), nx; if (!in.count(v)) failf("separated pairs: unknown variable in the diagram"); nx = in[v] ? Cal_BddThen(m, p) : Cal_BddElse(m, p); Cal_BddFree(m, p); p = nx; }
    bool got = Cal_BddIsBddOne(m, p); Cal_BddFree(m, p); if (got != want) failf("separated pairs: the function changed");
  }
  Cal_BddFree(m, f); Cal_BddManagerQuit(m); st.inc("separated");
}

static void opFunctionPrint(Mgr &m, Operand &f);
void Env::step(const Op &o) {
  Mgr &m = this->m(); Cal_BddManager M = m.m; const string &n = o.name; const char *w = n.c_str();
  long a0 = argOf(o, 0), a1 = argOf(o, 1), a2 = argOf(o, 2);
  auto one = [&](Fn1 f, const std::function<TT(const TT &)> &md) { Operand x = m.opnd(a0); m.put(f(M, x.b), md(x.t), w); m.rel(x); };

  auto f2 = fn2.find(n);
  if (f2 != fn2.end()) { Operand a = m.opnd(a0), b = m.opnd(a1); m.put(f2->second(M, a.b, b.b), model2(n, a.t, b.t), w); m.rel(a); m.rel(b); st.inc("op_bool"); return; }
  if (n == "NOT") { one(Cal_BddNot, [](const TT &t) { return ~t; }); return; }
  if (n == "ID") { one(Cal_BddIdentity, [](const TT &t) { return t; }); return; }
  if (n == "ITE") { Operand a = m.opnd(a0), b = m.opnd(a1), d = m.opnd(a2); m.put(Cal_BddITE(M, a.b, b.b, d.b), a.t.ite(b.t, d.t), w); m.rel(a); m.rel(b); m.rel(d); st.inc("op_ite"); return; }
  if (n == "INTERSECTS" || n == "IMPLIES") {
    bool in = n == "INTERSECTS"; Operand a = m.opnd(a0), b = m.opnd(a1); TT want = in ? (a.t & b.t) : (a.t & ~b.t);
    putChecked(m, in ? Cal_BddIntersects(M, a.b, b.b) : Cal_BddImplies(M, a.b, b.b), w, [&](const TT &t) {
      if (!t.implies(want)) failf("%s: the witness does not imply the required function", w);
      if (t.isZero() != want.isZero()) failf("%s: witness is %s although the required function is %s", w, t.isZero() ? "zero" : "not zero", want.isZero() ? "zero" : "not zero"); });
    m.rel(a); m.rel(b); st.inc("op_witness"); return; }
  if (n == "FUNC") { TT t = makeFunction(m.N, m.nact(), a0, a1, a2 ? a2 : 4); m.build(t, w); return; }
  if (n == "MAND" || n == "MOR" || n == "MXOR") {
    vector<Operand> fs; listOps(m, o, fs); if (fs.empty()) { return; }
    if (fs.size() > 100) m.exactOk = false; // reference counts of shared intermediate results may saturate
    vector<Cal_Bdd> l; TT t = n == "MAND" ? m.one() : m.zero();
    for (auto &f : fs) { l.push_back(f.b); t = n == "MAND" ? t & f.t : n == "MOR" ? t | f.t : t ^ f.t; }
    l.push_back(nullptr);
    FnL f = n == "MAND" ? Cal_BddMultiwayAnd : n == "MOR" ? Cal_BddMultiwayOr : Cal_BddMultiwayXor;
    m.put(f(M, l.data()), t, w); releaseAll(m, fs); st.inc("op_multi"); if (fs.size() >= 3) st.inc("op_multi3"); return; }
  if (n == "PAND" || n == "POR" || n == "PXOR") {
    vector<Operand> fs; listOps(m, o, fs); if (fs.size() % 2) { m.rel(fs.back()); fs.pop_back(); }
    if (fs.empty()) return;
    vector<Cal_Bdd> l; for (auto &f : fs) l.push_back(f.b);
    l.push_back(nullptr);
    FnP f = n == "PAND" ? Cal_BddPairwiseAnd : n == "POR" ? Cal_BddPairwiseOr : Cal_BddPairwiseXor;
    Cal_Bdd *r = f(M, l.data());
    if (!r) { m.nullOk(w); releaseAll(m, fs); return; }
    size_t np = fs.size() / 2, i = 0;
    // every returned handle carries a reference: register all before checking any
    vector<Cal_Bdd> rs; for (; i < np && r[i]; i++) { rs.push_back(r[i]); m.ref(r[i]); }
    free(r);
    if (i != np) { // a limited manager may return no results
      if (i) failf("%s: array ends after %zu of %zu results", w, i, np);
      m.nullOk(w); releaseAll(m, fs); return; }
    for (i = 0; i < np; i++) {
      TT t = n == "PAND" ? fs[2 * i].t & fs[2 * i + 1].t : n == "POR" ? fs[2 * i].t | fs[2 * i + 1].t : fs[2 * i].t ^ fs[2 * i + 1].t;
      m.expect(rs[i], t, w); m.slots.push_back({rs[i], t});
    }
    while (m.slots.size() > 48) { Slot s = m.slots.front(); m.slots.erase(m.slots.begin()); m.drop(s.b); }
    releaseAll(m, fs); st.inc("op_pair"); if (np >= 2) st.inc("op_pair2"); return; }
  if (n == "EXISTS" || n == "FORALL") {
    bool ex = n == "EXISTS"; Operand f = m.opnd(a0); TT t = quant(m, f.t, ex); bool nt = t != f.t;
    m.put(ex ? Cal_BddExists(M, f.b) : Cal_BddForAll(M, f.b), t, w); m.rel(f); st.inc("op_quant"); if (nt) st.inc("op_quant_real"); return; }
  if (n == "RELPROD") {
    Operand f = m.opnd(a0), g = m.opnd(a1); TT p = f.t & g.t, t = quant(m, p, true); bool nt = t != p;
    m.put(Cal_BddRelProd(M, f.b, g.b), t, w); m.rel(f); m.rel(g); st.inc("op_quant"); if (nt) st.inc("op_quant_real"); return; }
  if (n == "COMPOSE") {
    if (!m.nact()) return;
    int v = pickVar(m, a1), tv = m.vars[v].tv; Operand f = m.opnd(a0), h = m.opnd(a2);
    TT t = h.t.ite(f.t.cof(tv, true), f.t.cof(tv, false));
    m.put(Cal_BddCompose(M, f.b, m.vars[v].b, h.b), t, w); if (f.t.dependsOn(tv)) st.inc("op_subst_real"); m.rel(f); m.rel(h); return; }
  if (n == "SWAP") {
    if (!m.nact()) return;
    int v = pickVar(m, a1), u = pickVar(m, a2); Operand f = m.opnd(a0);
    TT tv_ = TT::var(m.N, m.vars[v].tv), tu = TT::var(m.N, m.vars[u].tv); vector<const TT *> s(m.N, nullptr);
    s[m.vars[v].tv] = &tu; s[m.vars[u].tv] = &tv_;
    TT t = v == u ? f.t : f.t.subst(s);
    m.put(Cal_BddSwapVars(M, f.b, m.vars[v].b, m.vars[u].b), t, w); if (t != f.t) st.inc("op_subst_real"); m.rel(f); return; }
  if (n == "SUBST" || n == "VSUBST") {
    const Assoc &as = m.curAssoc(); vector<const TT *> s(m.N, nullptr); bool vars = true;
    for (auto &k : as.map) { bool isv = false; for (int i = 0; i < m.nact(); i++) if (k.second == TT::var(m.N, i)) isv = true; vars &= isv; if (m.vars[k.first].tv >= 0) s[m.vars[k.first].tv] = &k.second; }
    if (n == "VSUBST" && !vars) return;
    Operand f = m.opnd(a0); TT t = f.t.subst(s);
    m.put(n == "SUBST" ? Cal_BddSubstitute(M, f.b) : Cal_BddVarSubstitute(M, f.b), t, w);
    st.inc("op_subst"); if (t != f.t) st.inc("op_subst_real"); m.rel(f); return; }
  if (n == "COFACTOR") {
    Operand f = m.opnd(a0), g = m.opnd(a1);
    if (g.t.isZero()) { Cal_Bdd r = Cal_BddCofactor(M, f.b, g.b); if (!r) m.nullOk(w); else { m.ref(r); m.eval(r, w); m.drop(r); } }
    else if (m.structureStable()) { TT t = ttConstrain(f.t, g.t, m.tvOrder()); m.put(Cal_BddCofactor(M, f.b, g.b), t, w); if (t != f.t) st.inc("op_cof_real"); }
    else putChecked(m, Cal_BddCofactor(M, f.b, g.b), w, [&](const TT &t) { if ((t & g.t) != (f.t & g.t)) failf("%s: disagrees with f inside the care set", w); st.inc("op_cof_real"); });
    m.rel(f); m.rel(g); st.inc("op_cof"); return; }
  if (n == "REDUCE") {
    Operand f = m.opnd(a0), g = m.opnd(a1); TT ff = f.t, gg = g.t;
    putChecked(m, Cal_BddReduce(M, f.b, g.b), w, [&](const TT &t) { if ((t & gg) != (ff & gg)) failf("%s: disagrees with f inside the care set", w); if (t != ff) st.inc("op_cof_real");
      for (int v : t.support()) if (!ff.dependsOn(v)) failf("%s: the result depends on a variable that f does not depend on", w);
      if (m.structureStable()) { long a = m.shape({t}).sizeNeg(), b = m.shape({ff}).sizeNeg(); if (a > b) failf("%s: the result has %ld nodes, f only %ld", w, a, b); if (a < b) st.inc("op_reduce_smaller"); } });
    m.rel(f); m.rel(g); st.inc("op_cof"); return; }
  if (n == "BETWEEN") {
    Operand f = m.opnd(a0), g = m.opnd(a1); Cal_Bdd lo = Cal_BddAnd(M, f.b, g.b); if (!lo) { m.nullOk(w); m.rel(f); m.rel(g); return; }
    m.ref(lo); Cal_Bdd hi = argOf(o, 2) & 1 ? Cal_BddOr(M, f.b, g.b) : Cal_BddIdentity(M, f.b); TT tl = f.t & g.t, th = argOf(o, 2) & 1 ? f.t | g.t : f.t;
    if (!hi) { m.nullOk(w); m.drop(lo); m.rel(f); m.rel(g); return; }
    m.ref(hi);
    putChecked(m, Cal_BddBetween(M, lo, hi), w, [&](const TT &t) { if (!tl.implies(t)) failf("%s: does not contain the lower bound", w); if (!t.implies(th)) failf("%s: exceeds the upper bound", w); if (t != tl && t != th) st.inc("op_between_free"); st.inc("op_cof_real");
      if (m.structureStable()) { long a = m.shape({t}).sizeNeg(), b = std::min(m.shape({tl}).sizeNeg(), m.shape({th}).sizeNeg()); if (a > b) failf("%s: the result has %ld nodes, the smaller bound only %ld", w, a, b); } });
    m.drop(lo); m.drop(hi); m.rel(f); m.rel(g); st.inc("op_cof"); return; }
  if (n == "SATISFY") {
    Operand f = m.opnd(a0);
    if (f.t.isZero()) { Cal_Bdd r = Cal_BddSatisfy(M, f.b); if (r && !Cal_BddIsBddZero(M, r)) failf("satisfy: an assignment for the zero function"); m.rel(f); return; }
    TT ff = f.t;
    putChecked(m, Cal_BddSatisfy(M, f.b), w, [&](const TT &t) { if (t.isZero()) failf("satisfy: zero for a satisfiable function"); if (!t.implies(ff)) failf("satisfy: result does not imply the function"); if (!isCubeTT(t, false)) failf("satisfy: result is not a single assignment"); if (!ff.isOne()) st.inc("op_sat_real"); });
    m.rel(f); st.inc("op_sat"); return; }
  if (n == "SATSUP") {
    Operand f = m.opnd(a0);
    if (f.t.isZero()) { Cal_Bdd r = Cal_BddSatisfySupport(M, f.b); if (r && !Cal_BddIsBddZero(M, r)) failf("satisfysupport: an assignment for the zero function"); m.rel(f); return; }
    set<int> need, dneed; for (auto &k : m.curAssoc().map) { int tv = m.vars[k.first].tv; if (tv >= 0) need.insert(tv); else dneed.insert(k.first); }
    Cal_Bdd r = Cal_BddSatisfySupport(M, f.b);
    if (!r) { m.nullOk(w); m.rel(f); return; }
    m.ref(r); set<int> dgot; TT t = m.eval(r, w, &dgot);
    if (t.isZero()) failf("satisfysupport: zero for a satisfiable function");
    if (!t.implies(f.t)) failf("satisfysupport: result does not imply the function");
    if (!isCubeTT(t, false)) failf("satisfysupport: more than one node at a level");
    for (int v : need) if (!t.dependsOn(v)) failf("satisfysupport: no node for an associated variable");
    if (dgot != dneed) failf("satisfysupport: nodes for the wrong variables");
    if (m.structureStable()) { Shape s = m.shape({t}); long sz = Cal_BddSize(M, r, 1); if (sz != s.sizeNeg() + (long)dgot.size()) failf("satisfysupport: result has %ld nodes, expected %ld", sz, s.sizeNeg() + (long)dgot.size()); }
    if (dgot.empty()) { m.expect(r, t, w); m.slots.push_back({r, t}); } else m.drop(r);
    m.rel(f); st.inc("op_sat"); if (need.size() >= 2) st.inc("op_sat_real"); return; }
  if (n == "QUERY") { Operand f = m.opnd(a0); m.query(f); m.rel(f); return; }
  if (n == "QMULTI") { vector<Operand> fs; listOps(m, o, fs); if (!fs.empty()) m.queryMulti(fs); releaseAll(m, fs); return; }
  if (n == "NEWVAR") {
    if (m.vars.size() >= 150) return;
    m.newVar((int)(absl(a0) % 4), (int)absl(a1), a2 & 1); return; }
  if (n == "ASSOCINIT" || n == "TINIT" || n == "TAUG") {
    // args: pairs, then (variable, operand) pairs
    if (m.vars.empty()) return;
    bool pairs = a0 & 1; vector<Operand> fs; vector<Cal_Bdd> l; map<int, TT> mp; bool onlyVars = (a0 & 2) != 0; vector<Cal_Bdd> handles;
    for (size_t i = 1; i + 1 < o.a.size(); i += 2) {
      int v = (int)(absl(o.a[i]) % m.vars.size()); bool twice = o.a.size() % 3 == 0; // sometimes a variable is given twice: the last function counts
      if (m.vars[v].tv < 0 && m.nact() && absl(o.a[i]) % 5) v = pickVar(m, o.a[i]);
      if (mp.count(v)) { if (!twice) continue; st.inc("assoc_twice"); }
      l.push_back(m.vars[v].b); Operand f;
      if (pairs) {
        if (onlyVars && m.nact()) { int u = pickVar(m, o.a[i + 1]); f.b = m.vars[u].b; f.t = TT::var(m.N, m.vars[u].tv); f.owned = false; } else f = m.opnd(o.a[i + 1]);
        l.push_back(f.b); fs.push_back(f); mp[v] = f.t; }
      else mp[v] = m.one();
    }
    l.push_back(nullptr);
    if (n == "ASSOCINIT") {
      int id = Cal_AssociationInit(M, l.data(), pairs);
      if (id < 0) failf("associationinit: rejected a valid association");
      int same = -1; for (auto &k : m.assocs) if (k.second.map == mp) same = k.first;
      if (same >= 0) { if (id != same) failf("associationinit: equal association got another identifier (%d, expected %d)", id, same); m.assocs[id].refs++; st.inc("assoc_shared"); }
      else { if (m.assocs.count(id)) failf("associationinit: identifier %d of another live association returned", id); Assoc a; a.map = mp; a.refs = 1; m.assocs[id] = a; }
      st.inc("assoc_inits");
    } else if (n == "TINIT") { Cal_TempAssociationInit(M, l.data(), pairs); m.temp.map = mp; st.inc("temp_inits"); }
    else { Cal_TempAssociationAugment(M, l.data(), pairs); for (auto &k : mp) m.temp.map[k.first] = k.second; st.inc("temp_inits"); }
    releaseAll(m, fs); return; }
  if (n == "TCHURN") { // many quantifications under the temporary association, each trivial
    long k = absl(a0) % 70000; Cal_AssociationSetCurrent(M, -1); Cal_Bdd t = Cal_BddOne(M);
    for (long i = 0; i < k; i++) { Cal_Bdd r = i & 1 ? Cal_BddForAll(M, t) : Cal_BddExists(M, t); if (r != t) failf("quantification of the constant one is not one"); Cal_BddFree(M, r); }
    Cal_BddFree(M, t); Cal_AssociationSetCurrent(M, m.cur); st.inc("churns"); return; }
  if (n == "ASSOCMANY") { // thousands of further associations, so that the next ones get large identifiers
    static const int upto[] = {4096, 8192, 16384, 16384, 16384, 16384}; int want = upto[absl(a0) % 6] - (int)(absl(a1) % 4); size_t nv = m.vars.size(); if (!m.bulkAssocs.empty() || nv < 5) return;
    for (long k = 1; k < 17000; k++) { vector<Cal_Bdd> l; long d = k; for (size_t i = 0; i < nv && d; i++, d /= (long)nv + 1) if (d % (nv + 1)) { l.push_back(m.vars[i].b); l.push_back(m.vars[d % (nv + 1) - 1].b); } l.push_back(nullptr);
      int id = Cal_AssociationInit(M, l.data(), 1); if (id < 0) failf("associationinit: rejected a valid association"); m.bulkAssocs.push_back(id); if (id >= want) break; }
    st.inc("assoc_many"); return; }
  if (n == "TQUIT") { Cal_TempAssociationQuit(M); m.temp.map.clear(); return; }
  if (n == "ASSOCQUIT") {
    if (m.assocs.empty()) return;
    auto it = m.assocs.begin(); std::advance(it, absl(a0) % m.assocs.size()); int id = it->first;
    Cal_AssociationQuit(M, id);
    if (--it->second.refs == 0) m.assocs.erase(it);
    if (m.cur == id) { Cal_AssociationSetCurrent(M, m.assocs.count(id) ? id : -1); if (!m.assocs.count(id)) m.cur = -1; }
    st.inc("assoc_quits"); return; }
  if (n == "SETCUR") {
    int id = -1; size_t k = absl(a0) % (m.assocs.size() + 1);
    if (k) { auto it = m.assocs.begin(); std::advance(it, k - 1); id = it->first; }
    int old = Cal_AssociationSetCurrent(M, id);
    if (old != m.cur) failf("associationsetcurrent: previous association reported as %d, expected %d", old, m.cur);
    m.cur = id; st.inc("set_current"); return; }
  if (n == "FREE") { if (m.slots.empty()) return; size_t k = absl(a0) % m.slots.size(); Slot s = m.slots[k]; m.slots.erase(m.slots.begin() + k); m.drop(s.b); st.inc("frees"); return; }
  if (n == "FREEALL") { for (auto &s : m.slots) m.drop(s.b); m.slots.clear(); return; }
  if (n == "KEEP") { // keep only every k-th handle
    size_t k = 2 + absl(a0) % 4, i = 0; vector<Slot> keep; for (auto &s : m.slots) { if (i++ % k == 0) keep.push_back(s); else m.drop(s.b); } m.slots = keep; st.inc("frees"); return; }
  if (n == "DUP") { // extra references, released by UNDUP or kept
    if (m.slots.empty()) return; Slot s = m.slots[absl(a0) % m.slots.size()]; long k = 1 + absl(a1) % 300;
    for (long i = 0; i < k; i++) {
      if (a2 & 1) { Cal_BddUnFree(M, s.b); m.ref(s.b); }
      else { Cal_Bdd r = Cal_BddIdentity(M, s.b); if (!r) { m.nullOk(w); return; } if (r != s.b) failf("identity: another handle"); m.ref(r); }
    }
    // and release them again, one at a time
    for (long i = 0; i < k; i++) m.drop(s.b);
    if (k > 255) st.inc("saturations"); st.inc("dups"); return; }
  if (n == "NODECHK") { m.closePipeline(); m.nodeCheck(); if (m.slots.size() < 24) m.checkAll("after collection"); return; }
  if (n == "GC") { m.asked = true; Cal_BddManagerGC(M); st.inc("gcs"); m.checkAll("after collection"); return; }
  if (n == "CHECKALL") { m.checkAll("check"); return; }
  if (n == "SETGCLIMIT") { Cal_BddManagerSetGCLimit(M); return; }
  if (n == "GCMODE") { m.gcOn = a0 & 1; Cal_BddSetGCMode(M, m.gcOn); return; }
  if (n == "LIMIT") { // absolute (a1=0) or relative to the present size
    long l = a1 & 1 ? (long)Cal_BddManagerGetNumNodes(M) + a0 : a0; if (l < 0) l = 0;
    long old = Cal_BddNodeLimit(M, l); if (old != m.limit) failf("nodelimit: previous limit reported as %ld, expected %ld", old, m.limit);
    m.limit = l; st.inc("limits"); if (!l) Cal_BddOverflow(M); return; }
  if (n == "OVERFLOW") { Cal_BddOverflow(M); if (Cal_BddOverflow(M)) failf("overflow: not cleared by the query"); return; }
  if (n == "PARAMS") { Cal_BddManagerSetParameters(M, absl(a0), absl(a1), m.repack = (absl(a2) % 101) / 100.0, (absl(argOf(o, 3)) % 101) / 100.0); st.inc("params"); return; }
  if (n == "SEPAR") { opSeparated(st, o); return; }
  if (n == "DYN") {
    if (m.pipelineBusy() && 0) return;
    int t = (int)(absl(a0) % 3), me = (int)(absl(a1) % 2);
    bool was = m.technique; Cal_BddDynamicReordering(M, t, me);
    if (was) { vector<int> b; m.syncOrder("dynamic reordering", true); if (m.method == 0) { if (m.blocks.size()) m.blocksLost = true; m.blocks.clear(); } }
    m.technique = t; m.method = me; st.inc("dyn"); return; }
  if (n == "REORDER") { if (m.blocks.size() && m.technique == 2 && 0) return; m.reorder(); return; }
  if (n == "REORDERAS") { // switch on, reorder once, switch off
    if (m.technique) { Cal_BddDynamicReordering(M, 0, m.method); m.syncOrder("dyn", true); if (m.method == 0) { if (m.blocks.size()) m.blocksLost = true; m.blocks.clear(); } m.technique = 0; }
    int t = 1 + (int)(absl(a0) % 2), me = (int)(absl(a1) % 2);
    vector<int> sync; Cal_BddDynamicReordering(M, t, me); m.technique = t; m.method = me; m.reorder();
    Cal_BddDynamicReordering(M, 0, me); m.syncOrder("dyn", true); m.technique = 0; return; }
  if (n == "BLOCK") { // start, length, reorderable: only blocks that nest with the existing ones
    if (m.vars.empty() || m.blocks.size() > 12 || m.blocksLost || !m.structureStable()) return;
    long nv = m.vars.size(), f = absl(a0) % nv, len = 1 + absl(a1) % nv; if (f + len > nv) len = nv - f;
    long l = f + len - 1; vector<int> mem(m.order.begin() + f, m.order.begin() + l + 1);
    for (auto &b : m.blocks) { long bf = 1 << 30, bl = -1; for (int v : b.members) { long ix = m.indexOf(v); bf = std::min(bf, ix); bl = std::max(bl, ix); }
      bool dis = l < bf || f > bl, in = f >= bf && l <= bl, out = bf >= f && bl <= l; if (!dis && !in && !out) return; if (bf == f && bl == l) return; }
    Block b; b.members = mem; b.reorderable = a2 & 1; b.b = Cal_BddNewVarBlock(M, m.vars[m.order[f]].b, f + len == nv && absl(a0) % 3 == 0 ? len + 1 + absl(a0) % 5 : len == 1 && absl(a0) % 5 == 0 ? -(absl(a0) % 2) : len); // beyond the last variable: as far as it goes; not positive: one variable
    if (!b.b) failf("block: no block returned");
    Cal_BddVarBlockReorderable(M, b.b, b.reorderable); m.blocks.push_back(b); st.inc("blocks"); return; }
  if (n == "BLOCKMARK") { if (m.blocks.empty()) return; Block &b = m.blocks[absl(a0) % m.blocks.size()]; b.reorderable = a1 & 1; Cal_BddVarBlockReorderable(M, b.b, b.reorderable); return; }
  if (n == "PDEPTH") { if (m.pipelineBusy()) return; Cal_PipelineSetDepth(M, (int)(absl(a0) % 9)); return; }
  if (n == "PINIT") {
    int op = (int)(absl(a0) % 3); int r = Cal_PipelineInit(M, op == 0 ? CAL_AND : op == 1 ? CAL_OR : CAL_XOR);
    if (m.pstate != 0) { if (r) failf("pipelineinit: succeeded although a pipeline is open"); return; }
    if (!r) failf("pipelineinit: failed in the ready state");
    m.pstate = 1; m.pop = op; m.provs.clear(); st.inc("pipelines"); return; }
  if (n == "PCREATE") {
    auto get = [&](long x, int &depth) -> Operand { depth = -1; x = absl(x); if (x % 3 == 2 && !m.provs.empty()) { auto &p = m.provs[(x / 3) % m.provs.size()]; depth = p.depth; if ((x / 3) & 256) { st.inc("provisional_negated"); return Operand{Cal_BddNot(M, p.b), ~p.t, false}; } return Operand{p.b, p.t, false}; } return m.opnd(x / 3); };
    if (m.pstate != 1) { if (m.pstate == 0 && !m.slots.empty()) { Cal_Bdd r = Cal_PipelineCreateProvisionalBdd(M, m.slots[0].b, m.slots[0].b); if (r) failf("pipelinecreate: succeeded without an open pipeline"); } return; }
    if (m.provs.size() > 40) return;
    int d1, d2; Operand f = get(a0, d1), g = get(a1, d2); int d = 1 + std::max(d1, d2);
    Cal_Bdd r = Cal_PipelineCreateProvisionalBdd(M, f.b, g.b);
    if (d >= 256) { if (r) failf("pipelinecreate: depth %d accepted", d); if (f.owned) m.rel(f); if (g.owned) m.rel(g); return; }
    if (!r) failf("pipelinecreate: null at depth %d", d);
    // operands stay referenced until the pipeline has been executed
    for (auto x : {&f, &g}) if (d1 < 0 || x == &g) { if ((x == &f ? d1 : d2) < 0) { if (x->owned) { m.pheld.push_back(x->b); x->owned = false; } else { Cal_BddUnFree(M, x->b); m.ref(x->b); m.pheld.push_back(x->b); } } }
    if (!Cal_BddIsProvisional(M, r)) failf("pipelinecreate: the new diagram is not provisional");
    Prov p; p.b = r; p.depth = d; p.t = m.pop == 0 ? f.t & g.t : m.pop == 1 ? f.t | g.t : f.t ^ g.t; m.provs.push_back(p);
    st.inc("provisionals"); if (d > 0) st.inc("provisionals_dep"); return; }
  if (n == "PCHAIN") { // a chain of provisional diagrams, each an operand of the next
    if (m.pstate != 1 || m.provs.size() > 40 || m.slots.empty()) return;
    Operand f = m.opnd(a0); TT acc = f.t; Cal_Bdd last = f.b; int depth = -1;
    Cal_BddUnFree(M, f.b); m.ref(f.b); m.pheld.push_back(f.b); m.rel(f);
    for (long i = 0; i < absl(a1) % 300; i++) {
      Operand g = m.opnd(a0 + 7 * i + 3); Cal_BddUnFree(M, g.b); m.ref(g.b); m.pheld.push_back(g.b);
      Cal_Bdd r = Cal_PipelineCreateProvisionalBdd(M, last, g.b); TT gt = g.t; m.rel(g); depth++;
      if (depth >= 256) { if (r) failf("pipelinecreate: depth %d accepted", depth); st.inc("pchain_limit"); break; }
      if (!r) failf("pipelinecreate: null at depth %d", depth);
      last = r; acc = m.pop == 0 ? acc & gt : m.pop == 1 ? acc | gt : acc ^ gt;
      Prov p; p.b = r; p.depth = depth; p.t = acc; if (i % 16 == 15 || i < 4 || depth == 255) m.provs.push_back(p); }
    m.exactOk = false; st.inc("pchains"); return; }
  if (n == "PEXEC") {
    int r = Cal_PipelineExecute(M);
    if (m.pstate != 1) { if (r) failf("pipelineexecute: succeeded in the wrong state"); return; }
    m.releaseHeld();
    if (!r) { if (m.limit <= 0) failf("pipelineexecute: failed without a node limit"); st.inc("pipeline_overflow"); Cal_BddOverflow(M); m.closePipeline(); return; }
    m.pstate = 2; st.inc("pexecs"); return; }
  if (n == "PUPD") {
    if (m.provs.empty()) return;
    Prov &p = m.provs[absl(a0) % m.provs.size()];
    if (m.pstate == 1) { if (!Cal_BddIsProvisional(M, p.b)) failf("provisional: not reported before execution"); if (a1 & 1) { if (Cal_PipelineUpdateProvisionalBdd(M, p.b)) failf("pipelineupdate: a result before execution"); } return; }
    Cal_Bdd r = Cal_PipelineUpdateProvisionalBdd(M, p.b);
    if (!r) failf("pipelineupdate: null result after execution");
    if (Cal_BddIsProvisional(M, r)) failf("pipelineupdate: the result is still provisional");
    TT t = p.t; m.put(r, t, w); st.inc("pupdates"); return; }
  if (n == "PQUIT") { m.closePipeline(); if (m.slots.size() < 24) m.checkAll("after closing the pipeline"); return; }
  if (n == "FPRINT") { Operand f = m.opnd(a0); opFunctionPrint(m, f); m.rel(f); return; }
  if (n == "PRINT") { Operand f = m.opnd(a0); opPrint(m, f, a1); m.rel(f); return; }
  if (n == "PPROF") { vector<Operand> fs; listOps(m, o, fs, 1); if (!fs.empty()) opPrintProfile(m, fs, a0); releaseAll(m, fs); return; }
  if (n == "DUMP") { // seed, mode, target manager, operands
    vector<Operand> fs; listOps(m, o, fs, 3); if (fs.empty()) return;
    size_t dst = absl(a2) % mgrs.size();
    mgrs[dst]->closePipeline();
    opDump(*this, m, *mgrs[dst], fs, a0, (a1 & 1) && dst == (size_t)cur); releaseAll(m, fs); return; }
  if (n == "UNDUMPRAW") { Operand f = m.opnd(a0); opUndumpRaw(m, f, o); m.rel(f); return; }
  if (n == "USE") { cur = (int)(absl(a0) % mgrs.size()); return; }
  if (n == "MQUIT") { if (mgrs.size() < 2 && !(a0 & 1)) return; m.quit(); mgrs.erase(mgrs.begin() + cur); cur = 0; st.inc("mgr_quits"); for (auto &p : mgrs) p->checkAll("after destroying another manager"); return; }
  if (n == "MNEW") { if (mgrs.size() >= 4) return; mgrs.emplace_back(new Mgr(*this)); Mgr &k = *mgrs.back(); Cal_BddManagerSetHooks(k.m, k.hook = (void *)(uintptr_t)(0x9000 + mgrs.size())); for (long i = 0; i < 3 + absl(a0) % 4; i++) k.newVar(1, 0, true); cur = (int)mgrs.size() - 1; st.inc("mgr_news"); return; }
  if (n == "STATS") { opStats(m, o); return; }
  if (n == "NULLOP") {
    Operand x = m.opnd(a0); int k = (int)(absl(a1) % 26);
    Cal_Bdd r = callNull(m, k, x.b, (int)(absl(a2) % 8));
    if (r) failf("nullop: operation %d returned a diagram for a null operand", k);
    Operand dummy = x; (void)dummy; m.rel(x); st.inc("nullops");
    if (Cal_BddType(M, nullptr) != CAL_BDD_TYPE_OVERFLOW) failf("type: null is not of type overflow");
    if (!Cal_BddIsBddNull(M, nullptr)) failf("isnull: wrong for null");
    return; }
  if (n == "NOP") return;
  failf("harness: unknown operation %s", w);
}

// ---------------------------------------------------------------- printing

static char *nameUser(Cal_BddManager m, Cal_Bdd v, Cal_Pointer_t env) {
  static char buf[64]; long mode = (long)(uintptr_t)env; long id = Cal_BddGetIfId(m, v);
  if (mode == 2 && id % 2 == 0) return nullptr; // default name for some
  snprintf(buf, sizeof buf, mode == 3 ? "a_rather_long_variable_name_%ld" : "x%ld", id); return buf;
}
static char *termUser(Cal_BddManager, Cal_Address_t, Cal_Address_t, Cal_Pointer_t) { return nullptr; }

struct Text { string s; };
static string capture(const std::function<void(FILE *)> &f) { char *p = nullptr; size_t n = 0; FILE *fp = open_memstream(&p, &n); f(fp); fclose(fp); string s(p, n); rawFree(p); return s; }

// ---- statistics ----
// Every figure of the printed statistics that the harness can know: settings as they were set,
// sizes as the queries report them, counts of collections and reorderings as they were asked for.
struct Figures {
  std::map<string, string> all; Mgr &m;
  Figures(Mgr &mm) : m(mm) {
    unsigned long before = Cal_BddManagerGetNumNodes(m.m);
    string s = capture([&](FILE *fp) { Cal_BddStats(mm.m, fp); }); size_t at = 0;
    if (Cal_BddManagerGetNumNodes(m.m) != before) failf("stats: printing statistics changed the number of nodes");
    while (at < s.size()) { size_t e = s.find('\n', at); if (e == string::npos) e = s.size(); string l = s.substr(at, e - at); at = e + 1;
      size_t c = l.find(':'); if (c == string::npos) continue; string k, v = l.substr(c + 1); for (char ch : l.substr(0, c)) if (isalnum((unsigned char)ch)) k += (char)tolower(ch); all[k] = v; }
  }
  const string &text(const char *k) const { auto i = all.find(k); if (i == all.end()) failf("stats: no line for \"%s\"", k); return i->second; }
  long num(const char *k) const { const string &v = text(k); char *e; long x = strtol(v.c_str(), &e, 10); if (e == v.c_str()) failf("stats: no number for \"%s\": %s", k, v.c_str()); return x; }
  long second(const char *k) const { const string &v = text(k); size_t p = v.find_first_of(",("); if (p == string::npos) failf("stats: no second number for \"%s\": %s", k, v.c_str()); return strtol(v.c_str() + p + 1, nullptr, 10); }
  bool yes(const char *k) const { const string &v = text(k); if (v.find("yes") != string::npos) return true; if (v.find("no") == string::npos) failf("stats: neither yes nor no for \"%s\": %s", k, v.c_str()); return false; }
};
static Figures figures(Mgr &m) {
  Figures f(m); long nodes = (long)Cal_BddManagerGetNumNodes(m.m); m.maxSeen = std::max(m.maxSeen, (unsigned long)nodes);
  auto eq = [&](const char *k, long want) { if (f.num(k) != want) failf("stats: \"%s\" is %ld, expected %ld", k, f.num(k), want); };
  eq("nodelimit", m.limit); eq("totalbddnodeusage", nodes); eq("totalnumberofvariables", Cal_BddVars(m.m)); eq("totalnumberofvariables", (long)m.vars.size());
  if ((long)Cal_BddTotalSize(m.m) != nodes) failf("stats: total size %ld with %ld nodes in use", (long)Cal_BddTotalSize(m.m), nodes);
  if (f.yes("garbagecollectionenabled") != m.gcOn) failf("stats: collection reported as %s", m.gcOn ? "off" : "on");
  if (f.yes("dynamicreorderingofbddsenabled") != (m.technique != 0)) failf("stats: reordering reported as %s", m.technique ? "off" : "on");
  if (std::fabs(atof(f.text("repackingaftergcthreshold").c_str()) - m.repack) > 1e-5) failf("stats: repacking threshold %s, set to %f", f.text("repackingaftergcthreshold").c_str(), m.repack);
  long peak = f.num("peakbddnodeusage"); if (peak < (long)m.maxSeen || peak < m.lastPeak) failf("stats: peak usage of %ld nodes, but %ld were in use at once (last peak printed: %ld)", peak, (long)m.maxSeen, m.lastPeak);
  long bytes = f.second("totalbddnodeusage"), per = nodes ? bytes / nodes : 0; if (bytes != per * nodes || per < (long)sizeof(void *) || f.second("peakbddnodeusage") != per * peak) failf("stats: %ld bytes for %ld nodes, %ld for %ld", bytes, nodes, f.second("peakbddnodeusage"), peak);
  long pages = f.num("totalmemoryallocatedforbddnodes"), pb = f.second("totalmemoryallocatedforbddnodes"); if (pages < 0 || (pages && pb % pages) || pb < bytes - 64 * (long)(m.vars.size() + 1)) failf("stats: %ld pages (%ld bytes) for %ld bytes of nodes", pages, pb, bytes);
  if (f.num("totalmemoryconsumed") < pages || f.second("totalmemoryconsumed") < pb) failf("stats: less memory in total than for nodes");
  long locked = f.num("numberofnodeslocked"); long nv = (long)m.vars.size(); // the variables always are
  if (locked > nodes || locked < nv || (m.maxSeen < 100 && m.exactOk && locked > nv)) failf("stats: %ld of %ld nodes locked, %ld of them for variables", locked, nodes, nv);
  long hits = f.num("cachehits"), look = f.all.count("cachelookup") ? f.num("cachelookup") : 0; if (hits < 0 || hits > look) failf("stats: %ld cache hits in %ld lookups", hits, look);
  if (f.num("cacheentries") > f.num("cachesize") || f.num("cacheentries") > f.num("cacheinsertions") || f.num("cachecollisions") > f.num("cacheinsertions")) failf("stats: %ld cache entries in %ld places after %ld insertions with %ld collisions", f.num("cacheentries"), f.num("cachesize"), f.num("cacheinsertions"), f.num("cachecollisions"));
  if (look && std::fabs(atof(f.text("cachehitratio").c_str()) - (double)hits / look) > 0.0051) failf("stats: cache hit ratio %s for %ld of %ld", f.text("cachehitratio").c_str(), hits, look);
  long g = f.num("numberofgarbagecollections"), ro = f.num("numberofdynamicreorderings"), fr = f.num("numberofnodesgarbagecollected");
  if (g < m.lastGCs || ro < m.lastReorders || fr < m.lastFreed) failf("stats: a running count went back (collections %ld to %ld, reorderings %ld to %ld, freed nodes %ld to %ld)", m.lastGCs, g, m.lastReorders, ro, m.lastFreed, fr);
  if (nodes + fr < m.lastMade) failf("stats: %ld nodes in use and %ld collected, but %ld had been made before", nodes, fr, m.lastMade);
  m.lastMade = nodes + fr; m.lastGCs = g; m.lastReorders = ro; m.lastFreed = fr; m.lastPeak = peak; m.e.st.inc("stats_read"); if (nodes > (long)m.vars.size() + 5) m.e.st.inc("stats_nontrivial");
  return f;
}
// nodes with more parents than can be counted are locked: at least those built here
static void opPinned(Stats &st, long seed) {
  Rng r(seed + 77); Cal_BddManager m = Cal_BddManagerInit(); int low = (int)r.range(1, 6), top = (int)r.range(1, 3); vector<Cal_Bdd> x;
  for (int i = 0; i < top + 9 + low; i++) x.push_back(Cal_BddManagerCreateNewVarLast(m));
  long n = (long)x.size();
  auto locked = [&]() { string s = capture([&](FILE *fp) { Cal_BddStats(m, fp); }); size_t p = s.find("locked"); p = p == string::npos ? p : s.find(':', p); if (p == string::npos) failf("stats: no line for locked nodes"); return strtol(s.c_str() + p + 1, nullptr, 10); };
  if (locked() != n) failf("stats: %ld nodes locked with %ld variables and nothing else", locked(), n);
  std::set<Cal_Bdd> children; vector<Cal_Bdd> keep; // distinct functions of the lowest variables, not variables themselves
  auto var = [&](int from, int to) { Cal_Bdd v = x[r.range(from, to)]; return r.chance(50) ? Cal_BddNot(m, v) : Cal_BddIdentity(m, v); };
  int lo = top + 9; std::set<Cal_Bdd> own; for (auto v : x) own.insert(Mgr::reg(v));
  for (int i = 0, k = (int)r.range(1, 12); i < k; i++) { Cal_Bdd a = var(lo, (int)n - 1), b = var(lo, (int)n - 1), c = var(lo, (int)n - 1), d = Cal_BddITE(m, a, b, c); Cal_BddFree(m, a); Cal_BddFree(m, b); Cal_BddFree(m, c);
    if (!Cal_BddIsBddConst(m, d) && !own.count(Mgr::reg(d))) children.insert(Mgr::reg(d)); keep.push_back(d); }
  // 280 distinct functions of the nine middle variables, and over each child one parent for each
  vector<Cal_Bdd> mid; for (int i = 0; i < 280; i++) { Cal_Bdd f = Cal_BddOne(m); for (int b = 0; b < 9; b++) { Cal_Bdd l = (i >> b) & 1 ? Cal_BddNot(m, x[top + b]) : Cal_BddIdentity(m, x[top + b]), t = Cal_BddAnd(m, f, l); Cal_BddFree(m, f); Cal_BddFree(m, l); f = t; } mid.push_back(f); }
  for (auto c : children) { Cal_Bdd v = x[r.range(0, top - 1)]; for (auto g : mid) keep.push_back(r.chance(50) ? Cal_BddITE(m, v, c, g) : Cal_BddITE(m, v, g, c)); }
  long want = n + (long)children.size(); bool tidy = r.chance(50);
  for (auto g : mid) Cal_BddFree(m, g);
  if (tidy) Cal_BddManagerGC(m);
  if (locked() < want || locked() > (long)Cal_BddManagerGetNumNodes(m)) failf("stats: %ld nodes locked, expected at least %ld (%ld of them variables)", locked(), want, n);
  for (auto b : keep) Cal_BddFree(m, b);
  Cal_BddManagerGC(m); if (locked() < want) failf("stats: %ld nodes locked after releasing and collecting, expected at least %ld", locked(), want);
  if ((long)Cal_BddManagerGetNumNodes(m) < want) failf("stats: %ld nodes in use, but %ld are locked", (long)Cal_BddManagerGetNumNodes(m), want);
  Cal_BddManagerQuit(m); st.inc("pinned", (long)children.size());
}
void opStats(Mgr &m, const Op &o) {
  if (absl(argOf(o, 0)) % 8 == 7) { opPinned(m.e.st, argOf(o, 1)); return; }
  Figures a = figures(m); long k = absl(argOf(o, 0)) % 4, na = a.num("totalbddnodeusage");
  if (k == 1) { m.asked = true; Cal_BddManagerGC(m.m); Figures b = figures(m); long nb = b.num("totalbddnodeusage");
    if (b.num("numberofgarbagecollections") != a.num("numberofgarbagecollections") + 1) failf("stats: one collection counted as %ld", b.num("numberofgarbagecollections") - a.num("numberofgarbagecollections"));
    if (b.num("numberofnodesgarbagecollected") - a.num("numberofnodesgarbagecollected") != na - nb) failf("stats: %ld nodes collected, %ld fewer in use", b.num("numberofnodesgarbagecollected") - a.num("numberofnodesgarbagecollected"), na - nb);
    if (b.num("numberofdynamicreorderings") != a.num("numberofdynamicreorderings")) failf("stats: a collection counted as a reordering");
    m.e.st.inc("stats_gc"); if (na > nb) m.e.st.inc("stats_gc_freed"); m.checkAll("after collection"); }
  else if (k == 2) { // read immediately before and after: everything else can set off further reorderings
    int t = m.technique; long n0 = 0;
    m.hookBefore = [&]() { n0 = figures(m).num("numberofdynamicreorderings"); };
    m.hookAfter = [&]() { long d = figures(m).num("numberofdynamicreorderings") - n0; if (d != (t ? 1 : 0)) failf("stats: %d reordering counted as %ld", t ? 1 : 0, d); m.e.st.inc("stats_reorder"); };
    m.reorder(); m.hookBefore = m.hookAfter = nullptr; }
}

static string varName(Mgr &m, int v, long mode) {
  char b[80]; long id = m.vars[v].id;
  if (mode == 0 || (mode == 2 && id % 2 == 0)) snprintf(b, sizeof b, "var.%d", m.indexOf(v));
  else snprintf(b, sizeof b, mode == 3 ? "a_rather_long_variable_name_%ld" : "x%ld", id);
  return b;
}

// "name = ( a ( 1 ) + a' ( 0 ) )": letters are variable identifiers counted from 'a'
static void opFunctionPrint(Mgr &m, Operand &f) {
  if (!m.structureStable()) return;
  for (int v : f.t.support()) if (m.vars[m.tv2var[v]].id > 26) return;
  if (f.t.support().size() > 8) return;
  char name[] = "some_name"; string out = captureStdout([&] { Cal_BddFunctionPrint(m.m, f.b, name); });
  vector<string> tok; { std::istringstream in(out); string x; while (in >> x) tok.push_back(x); }
  if (out.empty() || out.back() != '\n') failf("functionprint: the line is not terminated");
  if (tok.size() < 2 || tok[0] != name || tok[1] != "=") failf("functionprint: the name is missing");
  size_t pos = 2; auto next = [&]() -> string { if (pos >= tok.size()) failf("functionprint: text ends early"); return tok[pos++]; };
  std::function<TT()> parse = [&]() -> TT {
    if (next() != "(") failf("functionprint: malformed text"); string h = next(); TT r(m.N, false);
    if (h == "1") r = m.one(); else if (h == "0") r = m.zero();
    else {
      int var = h.size() == 1 && h[0] >= 'a' && h[0] <= 'z' ? m.varOfId(h[0] - 'a' + 1) : -1; if (var < 0 || m.vars[var].tv < 0) failf("functionprint: unknown variable '%s'", h.c_str());
      TT x = TT::var(m.N, m.vars[var].tv), t = parse(); if (next() != "+" || next() != h + "'") failf("functionprint: malformed text"); TT e = parse(); r = (x & t) | (~x & e);
    }
    if (next() != ")") failf("functionprint: malformed text"); return r; };
  TT t = parse(); if (pos != tok.size()) failf("functionprint: trailing text");
  if (t != f.t) failf("functionprint: the printed text denotes another function");
  m.e.st.inc("fprints"); if (f.t.support().size() >= 2) m.e.st.inc("prints_nontrivial");
}

void opPrint(Mgr &m, Operand &f, long mode) {
  if (!m.structureStable()) return;
  mode = absl(mode) % 4;
  string out = capture([&](FILE *fp) { Cal_BddPrintBdd(m.m, f.b, mode ? nameUser : Cal_BddNamingFnNone, mode > 1 ? termUser : Cal_BddTerminalIdFnNone, (Cal_Pointer_t)(uintptr_t)mode, fp); });
  map<string, int> names; for (size_t v = 0; v < m.vars.size(); v++) names[varName(m, v, mode)] = v;
  vector<string> lines; { size_t p = 0; while (p < out.size()) { size_t e = out.find('\n', p); if (e == string::npos) failf("print: last line not terminated"); lines.push_back(out.substr(p, e - p)); p = e + 1; } }
  size_t pos = 0; map<long, TT> shared; long ifs = 0;
  auto strip = [](const string &s) { size_t k = s.find_first_not_of(' '); return k == string::npos ? string() : s.substr(k); };
  auto var = [&](const string &s) -> TT { auto i = names.find(s); if (i == names.end()) failf("print: unknown variable name '%s'", s.c_str()); if (m.vars[i->second].tv < 0) failf("print: mentions a variable outside the support"); return TT::var(m.N, m.vars[i->second].tv); };
  std::function<TT(int)> parse = [&](int depth) -> TT {
    if (pos >= lines.size()) failf("print: text ends early");
    if (depth > 200) failf("print: nesting too deep");
    string l = strip(lines[pos++]);
    if (l == "0") return m.zero();
    if (l == "1") return m.one();
    bool neg = false; string b = l; if (!b.empty() && b[0] == '!') { neg = true; b = b.substr(1); }
    if (b.compare(0, 11, "subformula ") == 0) { auto i = shared.find(atol(b.c_str() + 11)); if (i == shared.end()) failf("print: subformula used before its definition"); return neg ? ~i->second : i->second; }
    long label = -1; if (!neg && isdigit((unsigned char)b[0])) { size_t c = b.find(": "); if (c == string::npos) failf("print: malformed line '%s'", l.c_str()); label = atol(b.c_str()); b = b.substr(c + 2); }
    if (!neg && b.compare(0, 3, "if ") == 0) {
      string nm = b.substr(3); TT v = var(nm); ifs++;
      TT t = parse(depth + 1);
      if (pos >= lines.size() || strip(lines[pos]) != "else if !" + nm) failf("print: missing else");
      pos++; TT e = parse(depth + 1);
      if (pos >= lines.size() || strip(lines[pos]) != "endif " + nm) failf("print: missing endif");
      pos++; TT r = v.ite(t, e);
      if (label >= 0) { if (shared.count(label)) failf("print: label %ld defined twice", label); shared.emplace(label, r); }
      return r;
    }
    TT v = var(b); return neg ? ~v : v;
  };
  TT t = parse(0);
  if (pos != lines.size()) failf("print: trailing text");
  if (t != f.t) failf("print: the printed text denotes another function");
  // one if per node that is not a variable
  Shape s = m.shape({f.t}); long lit = 0;
  { // nodes whose function is a literal
    vector<int> ord = m.tvOrder(); string P = f.t.permuted(ord); int k = ord.size();
    for (int l = 0; l < k; l++) { size_t len = (size_t)1 << (k - l); string pos_ = string(len / 2, 0) + string(len / 2, 1), neg_ = string(len / 2, 1) + string(len / 2, 0); bool found = false; for (size_t o = 0; o < P.size(); o += len) { if (!P.compare(o, len, pos_) || !P.compare(o, len, neg_)) found = true; } if (found) lit++; }
  }
  long want = 0; for (long x : s.lvlNeg) want += x; 
  want -= lit;
  if (ifs != want) failf("print: %ld conditionals for a diagram with %ld internal nodes that are not variables", ifs, want);
  m.e.st.inc("prints"); if (ifs >= 2) m.e.st.inc("prints_nontrivial"); if (!shared.empty()) m.e.st.inc("prints_shared");
}

void opPrintProfile(Mgr &m, vector<Operand> &fs, long mode) {
  if (!m.structureStable()) return;
  mode = absl(mode); long nm = mode % 4; bool multi = (mode / 4) % 2, func = (mode / 8) % 2; int lens[] = {79, 40, 25, 130}; int len = lens[(mode / 16) % 4];
  if (!multi) { vector<Operand> one_(fs.begin(), fs.begin() + 1); Operand keep = fs[0]; (void)keep; }
  vector<Cal_Bdd> a; vector<TT> ts; for (auto &f : fs) { a.push_back(f.b); ts.push_back(f.t); if (!multi) break; }
  a.push_back(nullptr);
  string out = capture([&](FILE *fp) {
    Cal_VarNamingFn_t nf = nm ? nameUser : Cal_BddNamingFnNone; char *env = (char *)(uintptr_t)nm;
    if (!multi && !func) Cal_BddPrintProfile(m.m, a[0], nf, env, len, fp);
    else if (multi && !func) Cal_BddPrintProfileMultiple(m.m, a.data(), nf, env, len, fp);
    else if (!multi) Cal_BddPrintFunctionProfile(m.m, a[0], nf, env, len, fp);
    else Cal_BddPrintFunctionProfileMultiple(m.m, a.data(), nf, env, len, fp); });
  Shape s = m.shape(ts); vector<long> want(func ? s.func : s.lvlNeg); size_t nv = m.vars.size(); if (!func) want[nv] = s.constNeg;
  size_t p = 0; long total = 0; long maxPrefix = 5;
  for (size_t i = 0; i < nv; i++) if (want[i]) maxPrefix = std::max(maxPrefix, (long)(varName(m, m.order[i], nm).size() + std::to_string(want[i]).size()));
  long width = std::max(20L, len - (maxPrefix + 3) - 1), limit = std::max((long)len, maxPrefix + 3 + 20);
  (void)width;
  vector<std::pair<long, long>> bars;
  auto nextLine = [&]() { size_t e = out.find('\n', p); if (e == string::npos) failf("printprofile: the output ends early"); string l = out.substr(p, e - p); p = e + 1; return l; };
  auto row = [&](const string &name, long cnt) {
    string l = nextLine(); size_t c = l.find(':'); if (c == string::npos || l.substr(0, c) != name) failf("printprofile: expected a row for '%s', got '%s'", name.c_str(), l.c_str());
    char *end; long v = strtol(l.c_str() + c + 1, &end, 10); if (v != cnt) failf("printprofile: row '%s' shows %ld, expected %ld", name.c_str(), v, cnt);
    string bar = end; size_t h = 0; for (char ch : bar) { if (ch == '#') h++; else if (ch != ' ') failf("printprofile: unexpected text in row '%s'", name.c_str()); }
    bars.push_back({cnt, (long)h});
    if ((long)l.size() > limit) failf("printprofile: a row of %zu characters for line length %d", l.size(), len);
    total += cnt; };
  for (size_t i = 0; i < nv; i++) if (want[i]) row(varName(m, m.order[i], nm), want[i]);
  row("leaf", want[nv]);
  string l = nextLine(); if (l != "Total: " + std::to_string(total)) failf("printprofile: total line '%s', expected %ld", l.c_str(), total);
  if (p != out.size()) failf("printprofile: trailing text");
  for (auto &x : bars) for (auto &y : bars) if (x.first < y.first && x.second > y.second) failf("printprofile: the bar of %ld is longer than the bar of %ld", x.first, y.first);
  m.e.st.inc("pprofs"); if (total >= 4) m.e.st.inc("pprofs_nontrivial");
}

// ---------------------------------------------------------------- dumping

// a list of distinct variables containing those with truth-table numbers in need
static vector<int> varList(Mgr &m, Rng &r, const set<int> &need, int extra) {
  vector<int> l; for (int tv : need) l.push_back(m.tv2var[tv]);
  vector<int> rest; for (size_t v = 0; v < m.vars.size(); v++) if (m.vars[v].tv < 0 || !need.count(m.vars[v].tv)) rest.push_back(v);
  for (size_t i = rest.size(); i > 1; i--) std::swap(rest[i - 1], rest[r.range(0, i - 1)]);
  for (int i = 0; i < extra && i < (int)rest.size(); i++) l.push_back(rest[i]);
  for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[r.range(0, i - 1)]);
  return l;
}
static vector<Cal_Bdd> handles(Mgr &m, const vector<int> &l) { vector<Cal_Bdd> h; for (int v : l) h.push_back(m.vars[v].b); h.push_back(nullptr); return h; }

// a stream over a string that fails at one place
struct Faulty { string data; size_t at = 0, fail = 0; bool failed = false; };
static ssize_t faultyRead(void *c, char *b, size_t n) { Faulty &f = *(Faulty *)c; if (f.at >= f.fail) { f.failed = true; errno = EIO; return -1; } n = std::min({n, f.data.size() - f.at, f.fail - f.at}); memcpy(b, f.data.data() + f.at, n); f.at += n; return (ssize_t)n; }
static ssize_t faultyWrite(void *c, const char *b, size_t n) { Faulty &f = *(Faulty *)c; if (f.data.size() + n > f.fail) n = f.fail - std::min(f.fail, f.data.size()); if (!n) { f.failed = true; errno = ENOSPC; return 0; } f.data.append(b, n); return (ssize_t)n; }
static FILE *openFaulty(Faulty &f, bool write, long buf) {
  cookie_io_functions_t io = {}; if (write) io.write = faultyWrite; else io.read = faultyRead;
  FILE *fp = fopencookie(&f, write ? "w" : "r", io); if (buf == 0) setvbuf(fp, nullptr, _IONBF, 0); return fp; }
void opDump(Env &e, Mgr &src, Mgr &dst, vector<Operand> &fs, long seed, bool sameList) {
  Rng r((uint64_t)seed * 31 + 5);
  struct Rec { vector<int> l1, l2; TT want; const Operand *f; };
  vector<Rec> recs; char *buf = nullptr; size_t len = 0; FILE *fp = open_memstream(&buf, &len);
  for (auto &f : fs) {
    Rec k; auto sv = f.t.support(); set<int> need(sv.begin(), sv.end()); int extra = r.chance(20) ? (int)src.vars.size() : (int)r.range(0, 3);
    k.l1 = varList(src, r, need, extra); k.f = &f;
    if (sameList) { k.l2 = k.l1; k.want = f.t; }
    else {
      // positions of support variables get active variables of the target
      vector<int> act, other; for (size_t v = 0; v < dst.vars.size(); v++) (dst.vars[v].tv >= 0 ? act : other).push_back(v);
      for (size_t i = act.size(); i > 1; i--) std::swap(act[i - 1], act[r.range(0, i - 1)]);
      if (act.size() < need.size() || dst.vars.size() < k.l1.size()) continue;
      vector<int> pool(act.begin() + need.size(), act.end()); pool.insert(pool.end(), other.begin(), other.end());
      for (size_t i = pool.size(); i > 1; i--) std::swap(pool[i - 1], pool[r.range(0, i - 1)]);
      size_t ai = 0, pi = 0; k.l2.resize(k.l1.size());
      for (size_t i = 0; i < k.l1.size(); i++) k.l2[i] = src.vars[k.l1[i]].tv >= 0 && need.count(src.vars[k.l1[i]].tv) ? act[ai++] : pool[pi++];
      vector<TT> keep; keep.reserve(k.l1.size()); vector<const TT *> s(src.N, nullptr);
      for (size_t i = 0; i < k.l1.size(); i++) { int tv = src.vars[k.l1[i]].tv; if (tv >= 0 && need.count(tv)) { keep.push_back(TT::var(dst.N, dst.vars[k.l2[i]].tv)); s[tv] = &keep.back(); } }
      k.want = f.t.subst(s);
    }
    auto h = handles(src, k.l1);
    long before = len; (void)before;
    if (!Cal_BddDumpBdd(src.m, f.b, h.data(), fp)) failf("dump: rejected a valid variable list");
    recs.push_back(k);
  }
  // dumping with an incomplete list must be refused and write nothing
  fflush(fp); size_t mark = len;
  for (auto &f : fs) { auto sv = f.t.support(); if (sv.empty()) continue; set<int> need(sv.begin(), sv.end()); need.erase(sv[r.range(0, sv.size() - 1)]); vector<int> l; for (int tv : need) l.push_back(src.tv2var[tv]); auto h = handles(src, l); if (Cal_BddDumpBdd(src.m, f.b, h.data(), fp)) failf("dump: accepted a variable list without part of the support"); break; }
  fflush(fp); if (len != mark) failf("dump: wrote output for a refused dump");
  fclose(fp);
  // a dump that the file does not take completely is not a success
  if (recs.size() && r.chance(25)) { auto &k = recs[r.range(0, recs.size() - 1)]; auto h = handles(src, k.l1); string all = capture([&](FILE *q) { Cal_BddDumpBdd(src.m, k.f->b, h.data(), q); });
    Faulty ft; ft.fail = r.chance(25) ? all.size() : (size_t)r.range(0, (long)all.size() - 1); bool nb = r.chance(70); FILE *q = openFaulty(ft, true, nb ? 0 : 1); int ok = Cal_BddDumpBdd(src.m, k.f->b, h.data(), q); bool bad = ferror(q); fclose(q);
    if (ok && bad) failf("dump: success reported although only %zu of %zu bytes could be written", ft.data.size(), all.size());
    if (ft.fail >= all.size() && (!ok || ft.data != all)) failf("dump: failed on a file that takes everything");
    e.st.inc(ft.fail >= all.size() ? "write_ok" : bad ? "write_faults" : "write_faults_late"); }
  if (recs.empty()) { rawFree(buf); return; }
  FILE *in = fmemopen(buf, len, "rb");
  for (auto &k : recs) {
    auto h = handles(dst, k.l2); int err = -7;
    Cal_Bdd g = Cal_BddUndumpBdd(dst.m, h.data(), in, &err);
    if (!g) {
      if (dst.limit > 0 && err == CAL_BDD_UNDUMP_OVERFLOW) { e.st.inc("overflows"); Cal_BddOverflow(dst.m); break; }
      failf("undump: reading back failed with error %d", err);
    }
    if (err != 0) failf("undump: error code %d with a result", err);
    if (sameList && g != k.f->b) { // identity is required
      dst.ref(g); TT t = dst.eval(g, "undump"); if (t == k.want) failf("undump: another handle for the dumped diagram"); failf("undump: wrong function read back"); }
    dst.put(g, k.want, "undump");
    e.st.inc("dumps"); if (k.want.support().size() >= 3) e.st.inc("dumps_nontrivial"); if (!sameList) e.st.inc("dumps_relabelled");
  }
  fclose(in); rawFree(buf);
}

void opUndumpRaw(Mgr &m, Operand &f, const Op &o) {
  Rng r((uint64_t)argOf(o, 1) * 131 + 7); long mode = absl(argOf(o, 2)) % 10;
  auto sv = f.t.support(); set<int> need(sv.begin(), sv.end());
  vector<int> l = varList(m, r, need, (int)r.range(0, 2)); auto h = handles(m, l);
  string s = capture([&](FILE *fp) { if (!Cal_BddDumpBdd(m.m, f.b, h.data(), fp)) failf("dump: rejected a valid variable list"); });
  size_t hdr = 18, full = s.size(); Faulty ft; int expectErr = 0; // the only acceptable error, 0: any
  auto put = [&](size_t at, int bytes, unsigned long v) { for (int i = 0; i < bytes && at + i < s.size(); i++) s[at + i] = (char)(v >> (8 * (bytes - 1 - i))); };
  switch (mode) {
  case 0: case 9: s.resize(r.range(0, (long)s.size())); expectErr = s.size() < full ? CAL_BDD_UNDUMP_EOF : -1; break; // -1: none
  case 8: ft.data = s; ft.fail = (size_t)r.range(0, (long)s.size()); expectErr = ft.fail < full ? CAL_BDD_UNDUMP_IOERROR : -1; break; // the file cannot be read beyond some place
                                    // truncation
  case 1: { int k = r.range(1, 4); for (int i = 0; i < k && !s.empty(); i++) { size_t at = r.range(0, s.size() - 1); s[at] ^= 1 << r.range(0, 7); } break; }
  case 2: { int k = r.range(1, 3); for (int i = 0; i < k && s.size() > hdr; i++) { size_t at = r.range(hdr, s.size() - 1); static const int vals[] = {0xff, 0, 1, 2, 3, 4, 5, 6, 7, 8}; s[at] = (char)(r.chance(70) ? vals[r.range(0, 9)] : r.range(0, 255)); } break; }
  case 3: { static const unsigned long ns[] = {0, 1, 2, 255, 256, 257, 65536, 65537, 1ul << 24, (1ul << 24) + 1, 1ul << 31, 1ul << 32, 1ul << 40, 1ul << 60, ~0ul, 1ul << 63}; put(10, 8, r.chance(60) ? ns[r.range(0, 15)] : (unsigned long)r.range(0, 40)); break; } // shared count
  case 4: { size_t at = s.size() > hdr ? r.range(hdr, s.size()) : s.size(); string ins; int k = r.range(1, 6); for (int i = 0; i < k; i++) ins += (char)(r.chance(60) ? 0xff : r.range(0, 255)); s.insert(at, ins); break; }
  case 5: { if (s.size() > hdr) { size_t at = r.range(hdr, s.size() - 1); s.erase(at, r.range(1, 4)); } break; }
  case 6: { // header kept, random body biased to encodings and small numbers
    if (s.size() < hdr) break;
    s.resize(hdr); put(10, 8, r.range(0, 4)); int is = l.size() + 1 <= 0x100 ? 1 : 2, k = r.range(0, 60);
    for (int i = 0; i < k; i++) { int c = r.range(0, 9); if (c < 4 && !l.empty()) { for (int b = 1; b < is; b++) s += (char)0; s += (char)r.range(0, l.size() - 1); } else if (c < 9) { for (int b = 0; b < is; b++) s += (char)0xff; s += (char)r.range(0, 8); if (r.chance(50)) s += (char)r.range(0, 5); } else s += (char)r.range(0, 255); }
    break; }
  case 7: { // nesting: the same header byte many times
    if (s.size() < hdr || l.empty()) break;
    long k = r.chance(30) ? 200000 : r.range(1, 3000); s.resize(hdr); put(10, 8, r.chance(50) ? 0 : 5); string unit = r.chance(70) ? string(1, (char)r.range(0, l.size() - 1)) : string("\xff\x06", 2); for (long i = 0; i < k; i++) s += unit; break; }
  }
  FILE *in = mode == 8 ? openFaulty(ft, false, r.range(0, 2)) : s.empty() ? fopen("/dev/null", "rb") : fmemopen(&s[0], s.size(), "rb"); int err = -7;
  memLimit(1 << 28); memPeakReset();
  Cal_Bdd g = Cal_BddUndumpBdd(m.m, h.data(), in, &err);
  long peak = memPeak(); memLimit(0);
  fclose(in); bool strict = m.limit <= 0; if (mode == 8) m.e.st.inc("raw_read_faults");
  if (strict && expectErr > 0 && g) failf("undump: a result from %zu of %zu bytes", mode == 8 ? ft.fail : s.size(), full);
  if (strict && expectErr > 0 && err != expectErr) failf("undump: error code %d, expected %d for a file that %s", err, expectErr, mode == 8 ? "cannot be read to its end" : "ends early");
  if (strict && expectErr < 0 && g != f.b) failf("undump: an intact file was not read back");
  if (peak > (long)(64 << 20)) failf("undump: asked for %ld MB to read a file of %zu bytes", peak >> 20, s.size());
  if (g) {
    if (err) failf("undump: a result together with error code %d", err);
    m.ref(g); set<int> d; TT t = m.eval(g, "undump of a damaged file", &d); set<int> allowed(l.begin(), l.end());
    for (int v : d) if (!allowed.count(v)) failf("undump: result depends on a variable outside the list");
    for (int tv : t.support()) if (!allowed.count(m.tv2var[tv])) failf("undump: result depends on a variable outside the list");
    m.drop(g); m.e.st.inc("raw_accepted");
  } else {
    if (err < CAL_BDD_UNDUMP_FORMAT || err > CAL_BDD_UNDUMP_EOF) failf("undump: null result with error code %d", err);
    if (err == CAL_BDD_UNDUMP_IOERROR && mode != 8) failf("undump: I/O error reported for a readable file");
    if (err == CAL_BDD_UNDUMP_OVERFLOW) Cal_BddOverflow(m.m);
    char k[32]; snprintf(k, sizeof k, "raw_error_%d", err); m.e.st.inc(k); m.e.st.inc("raw_rejected");
  }
  m.e.st.inc("raws"); if (argOf(o, 3) & 1) { m.closePipeline(); m.nodeCheck(); if (m.slots.size() < 24) m.checkAll("after reading a damaged file"); }
}
