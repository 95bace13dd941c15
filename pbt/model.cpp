#include "model.h"
#include <algorithm>
using std::string; using std::vector; using std::set; using std::map;


void failf(const char *fmt, ...) { char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); throw Fail{b}; }

Mgr::Mgr(Env &e) : e(e) {
  N = std::max<int>(6, e.c.get("na", 6));
  m = Cal_BddManagerInit();
  if (!m) failf("init: no manager");
  if (Cal_BddVars(m) != 0) failf("init: new manager has variables");
}
Mgr::~Mgr() {}
void Mgr::quit() { Cal_BddManagerQuit(m); m = nullptr; }

void Mgr::drop(Cal_Bdd b) { if (!b) return; Cal_BddFree(m, b); unref(b); }

TT Mgr::eval(Cal_Bdd b0, const char *what, set<int> *dummy) {
  std::unordered_map<Cal_Bdd, TT> memo; vector<Cal_Bdd> hold;
  std::function<TT(Cal_Bdd, int)> go = [&](Cal_Bdd b, int depth) -> TT {
    if (!b) failf("%s: null diagram inside a result", what);
    if (Cal_BddIsBddOne(m, b)) return one();
    if (Cal_BddIsBddZero(m, b)) return zero();
    auto it = memo.find(b); if (it != memo.end()) return it->second;
    if (depth > (int)vars.size()) failf("%s: path longer than the number of variables", what);
    long id, id2; Cal_Bdd t, f; int tries = 0;
    for (;;) {
      id = Cal_BddGetIfId(m, b); t = Cal_BddThen(m, b); f = Cal_BddElse(m, b); id2 = Cal_BddGetIfId(m, b);
      if (t) hold.push_back(t);
      if (f) hold.push_back(f);
      if (id == id2) break;
      if (structureStable() || ++tries > 50) failf("%s: top variable changed without reordering", what);
    }
    if (!t || !f) failf("%s: then/else of a non-constant diagram is null", what);
    if (t == f) failf("%s: redundant node: then and else are the same handle", what);
    int v = varOfId(id);
    if (v < 0) failf("%s: unknown variable id %ld", what, id);
    TT tt = go(t, depth + 1), ff = go(f, depth + 1);
    if (structureStable()) {
      long i0 = Cal_BddGetIfIndex(m, b);
      for (Cal_Bdd ch : {t, f}) if (!Cal_BddIsBddConst(m, ch) && Cal_BddGetIfIndex(m, ch) <= i0) failf("%s: order violated: child index %d under index %ld", what, (int)Cal_BddGetIfIndex(m, ch), i0);
    }
    TT r;
    if (vars[v].tv < 0) { if (!dummy) failf("%s: result depends on variable id %ld which no operand mentions", what, id); dummy->insert(v); r = tt | ff; }
    else r = TT::var(N, vars[v].tv).ite(tt, ff);
    memo.emplace(b, r);
    return r;
  };
  TT r;
  try { r = go(b0, 0); } catch (Fail &) { throw; }
  for (auto h : hold) Cal_BddFree(m, h);
  e.st.inc("evals");
  return r;
}

void Mgr::expect(Cal_Bdd r, const TT &t, const char *what) {
  if (!r) failf("%s: null result for valid operands without a node limit", what);
  bool one_ = t.isOne(), zero_ = t.isZero();
  if (!!Cal_BddIsBddOne(m, r) != one_) failf("%s: is-one query disagrees (table %s)", what, t.str().c_str());
  if (!!Cal_BddIsBddZero(m, r) != zero_) failf("%s: is-zero query disagrees (table %s)", what, t.str().c_str());
  TT g = eval(r, what);
  if (g != t) failf("%s: wrong function: got %s expected %s", what, g.str().c_str(), t.str().c_str());
  // canonicity against every live handle
  TT nt = ~t;
  for (auto &s : slots) {
    bool eq = s.t == t; 
    if ((s.b == r) != eq) failf("%s: %s", what, eq ? "not canonical: equal function has a different handle" : "not canonical: different functions share a handle");
    if (!!Cal_BddIsEqual(m, s.b, r) != eq) failf("%s: equality query wrong", what);
    if (s.t == nt && reg(s.b) != reg(r)) failf("%s: not canonical: complement is stored separately", what);
  }
  e.st.inc("checked"); if (!one_ && !zero_) e.st.inc("checked_nonconst");
}

bool Mgr::nullOk(const char *what) {
  if (limit > 0) { if (Cal_BddOverflow(m)) { e.st.inc("overflows"); if (Cal_BddOverflow(m)) failf("%s: overflow report not cleared by the query", what); return true; } failf("%s: null result but no overflow reported", what); }
  failf("%s: null result for valid operands without a node limit", what);
}

bool Mgr::put(Cal_Bdd r, const TT &t, const char *what) {
  if (!r) { nullOk(what); return false; }
  ref(r);
  expect(r, t, what);
  slots.push_back({r, t});
  if (slots.size() > 48) { Slot s = slots[slots.size() / 2]; slots.erase(slots.begin() + slots.size() / 2); drop(s.b); }
  return true;
}

void Mgr::canon(const char *why) {
  for (size_t i = 0; i < slots.size(); i++) for (size_t j = i + 1; j < slots.size(); j++)
    if ((slots[i].b == slots[j].b) != (slots[i].t == slots[j].t)) failf("%s: canonicity lost between two live handles", why);
}
void Mgr::checkAll(const char *why) {
  if (pstate == 2 && false) return;
  for (auto &s : slots) {
    TT g = eval(s.b, why);
    if (g != s.t) failf("%s: a live handle changed its function: now %s was %s", why, g.str().c_str(), s.t.str().c_str());
  }
  canon(why);
  checkOrder(why);
  e.st.inc("full_checks");
  if (slots.size() >= 3) e.st.inc("full_checks_3plus");
}

void Mgr::checkOrder(const char *why) {
  long nv = Cal_BddVars(m);
  if (nv != (long)vars.size()) failf("%s: variable count %ld, expected %zu", why, nv, vars.size());
  if (!structureStable()) { // the order may move at any call; check only identity by id
    for (auto &v : vars) { Cal_Bdd b = Cal_BddManagerGetVarWithId(m, v.id); if (b != v.b) failf("%s: lookup by id %ld gives another handle", why, v.id); }
    return;
  }
  vector<int> now(nv, -1);
  for (size_t v = 0; v < vars.size(); v++) {
    Cal_Bdd b = Cal_BddManagerGetVarWithId(m, vars[v].id);
    if (b != vars[v].b) failf("%s: lookup by id %ld gives another handle", why, vars[v].id);
    if (Cal_BddGetIfId(m, b) != vars[v].id) failf("%s: id query of variable %ld gives %d", why, vars[v].id, (int)Cal_BddGetIfId(m, b));
    long ix = Cal_BddGetIfIndex(m, b);
    if (ix < 0 || ix >= nv || now[ix] != -1) failf("%s: index %ld of variable id %ld not part of a permutation", why, ix, vars[v].id);
    now[ix] = v;
    Cal_Bdd c = Cal_BddManagerGetVarWithIndex(m, ix);
    if (c != b) failf("%s: lookup by index %ld does not give the variable with that index", why, ix);
  }
  if (now != order) failf("%s: variable order differs from the expected order", why);
  if (Cal_BddManagerGetVarWithIndex(m, nv) || Cal_BddManagerGetVarWithId(m, nv + 1) || Cal_BddManagerGetVarWithId(m, 0)) failf("%s: lookup outside the range is not null", why);
  if (nv < 60000 && (Cal_BddManagerGetVarWithIndex(m, nv + 7) || Cal_BddManagerGetVarWithId(m, nv + 9))) failf("%s: lookup outside the range is not null", why);
}

// read the current order from the manager (after reordering)
void Mgr::syncOrder(const char *why, bool) {
  long nv = Cal_BddVars(m);
  if (nv != (long)vars.size()) failf("%s: variable count changed", why);
  vector<int> now; set<int> seen;
  for (long i = 0; i < nv; i++) {
    Cal_Bdd b = Cal_BddManagerGetVarWithIndex(m, i); int v = -1;
    for (size_t k = 0; k < vars.size(); k++) if (vars[k].b == b) v = k;
    if (v < 0 || !seen.insert(v).second) failf("%s: after reordering the order is not a permutation of the variables", why);
    now.push_back(v);
  }
  order = now;
}

bool Mgr::newVar(int kind, int refIdx, bool active, bool check) {
  if (active && nact() >= N) active = false;
  Cal_Bdd b; size_t pos; int nv = vars.size();
  if (nv == 0 && kind >= 2) kind = 1;
  if (kind == 0) { b = Cal_BddManagerCreateNewVarFirst(m); pos = 0; }
  else if (kind == 1) { b = Cal_BddManagerCreateNewVarLast(m); pos = nv; }
  else {
    if (!structureStable()) { // keep the order readable
      kind = 1; b = Cal_BddManagerCreateNewVarLast(m); pos = nv;
    } else {
      int rv = order[refIdx % nv];
      if (kind == 2) { b = Cal_BddManagerCreateNewVarBefore(m, vars[rv].b); pos = indexOf(rv); }
      else { b = Cal_BddManagerCreateNewVarAfter(m, vars[rv].b); pos = indexOf(rv) + 1; }
    }
  }
  if (!b) failf("newvar: null variable");
  for (auto &v : vars) if (v.b == b) failf("newvar: handle of an existing variable returned");
  Var v; v.b = b; v.id = Cal_BddGetIfId(m, b); v.tv = -1;
  if (v.id != nv + 1) failf("newvar: id %ld, expected %d", v.id, nv + 1);
  if (varOfId(v.id) >= 0) failf("newvar: id %ld is already used", v.id);
  if (active) { v.tv = nact(); }
  vars.push_back(v); int num = vars.size() - 1;
  if (active) tv2var.push_back(num);
  if (structureStable()) {
    for (auto &bl : blocks) { // strictly inside: becomes a member
      long first = 1 << 30, last = -1; for (int x : bl.members) { long ix = indexOf(x); first = std::min(first, ix); last = std::max(last, ix); }
      if ((long)pos > first && (long)pos <= last) bl.members.push_back(num);
    }
    order.insert(order.begin() + pos, num);
  } else syncOrder("newvar", true);
  if (Cal_BddType(m, b) != CAL_BDD_TYPE_POSVAR) failf("newvar: a new variable is not of type positive variable");
  if (check) checkOrder("newvar");
  e.st.inc("newvars"); if (!slots.empty()) e.st.inc("newvars_late");
  if (active) { TT g = eval(b, "newvar"); if (g != TT::var(N, v.tv)) failf("newvar: wrong function"); }
  return true;
}

Operand Mgr::opnd(long a) {
  if (a < 0) a = -a;
  long kind = a % 8, x = a / 8; Operand o; o.owned = false;
  if (kind == 7 && !slots.empty()) { Slot &s = slots[x % slots.size()]; o.b = Cal_BddNot(m, s.b); o.t = ~s.t; if (!o.b) failf("not: null result"); o.owned = true; ref(o.b); return o; }
  if (kind == 5 && nact() > 0) { int t = x % nact(); o.b = vars[tv2var[t]].b; o.t = TT::var(N, t); return o; }
  if (kind == 6 || slots.empty()) { o.t = (x & 1) ? one() : zero(); o.b = (x & 1) ? Cal_BddOne(m) : Cal_BddZero(m); return o; }
  Slot &s = slots[x % slots.size()]; o.b = s.b; o.t = s.t; return o;
}

Shape Mgr::shape(const vector<TT> &fs) {
  Shape s; vector<int> ord = tvOrder(); int k = ord.size(); size_t nv = order.size();
  s.lvlNeg.assign(nv + 1, 0); s.lvlPos.assign(nv + 1, 0); s.func.assign(nv + 1, 0);
  vector<string> P; for (auto &f : fs) P.push_back(f.permuted(ord));
  vector<size_t> posOf(k); { int i = 0; for (size_t p = 0; p < nv; p++) if (vars[order[p]].tv >= 0) posOf[i++] = p; }
  auto compl_ = [](const string &x) { string y(x); for (auto &c : y) c = !c; return y; };
  for (int l = 0; l < k; l++) {
    set<string> all, dep, depc; size_t len = (size_t)1 << (k - l);
    for (auto &p : P) for (size_t o = 0; o < p.size(); o += len) all.insert(p.substr(o, len));
    for (auto &b : all) if (b.compare(0, len / 2, b, len / 2, len / 2) != 0) { dep.insert(b); depc.insert(std::min(b, compl_(b))); }
    s.lvlPos[posOf[l]] = dep.size(); s.lvlNeg[posOf[l]] = depc.size();
    s.func[posOf[l]] = dep.empty() ? 0 : (long)all.size();
  }
  bool c0 = false, c1 = false;
  for (auto &p : P) for (char ch : p) (ch ? c1 : c0) = true;
  s.constPos = (c0 ? 1 : 0) + (c1 ? 1 : 0); s.constNeg = (c0 || c1) ? 1 : 0;
  s.lvlNeg[nv] = s.constNeg; s.lvlPos[nv] = s.constPos; s.func[nv] = s.constPos;
  // the per-level vectors carry the constants in their last entry; keep sizes without them
  Shape r = s; r.lvlNeg[nv] = r.lvlPos[nv] = 0; r.func = s.func; return r;
}

bool Mgr::build(const TT &t, const char *what) {
  std::unordered_map<TT, Cal_Bdd, TTHash> memo; vector<Cal_Bdd> mine; bool over = false;
  int n = nact();
  std::function<Cal_Bdd(const TT &, int)> go = [&](const TT &f, int v) -> Cal_Bdd {
    if (over) return nullptr;
    if (f.isZero()) return Cal_BddZero(m);
    if (f.isOne()) return Cal_BddOne(m);
    auto it = memo.find(f); if (it != memo.end()) return it->second;
    while (v < n && !f.dependsOn(v)) v++;
    if (v >= n) failf("harness: function outside the variables");
    Cal_Bdd h = go(f.cof(v, true), v + 1), l = go(f.cof(v, false), v + 1);
    if (over) return nullptr;
    Cal_Bdd r = Cal_BddITE(m, vars[tv2var[v]].b, h, l);
    if (!r) { nullOk(what); over = true; return nullptr; }
    mine.push_back(r); ref(r);
    memo.emplace(f, r);
    return r;
  };
  Cal_Bdd r = go(t, 0);
  if (!over) { Cal_Bdd x = Cal_BddIdentity(m, r); if (!x) over = true, nullOk(what); else put(x, t, what); }
  for (auto b : mine) drop(b);
  return !over;
}

long Mgr::expectedNodes() {
  vector<TT> fs; for (auto &s : slots) fs.push_back(s.t);
  auto add = [&](const Assoc &a) { for (auto &k : a.map) fs.push_back(k.second); };
  for (auto &a : assocs) add(a.second);
  add(temp);
  for (size_t i = 0; i < tv2var.size(); i++) fs.push_back(TT::var(N, i));
  if (fs.empty()) return vars.size() - tv2var.size();
  Shape s = shape(fs); long k = 0; for (long x : s.lvlNeg) k += x;
  return k + (long)(vars.size() - tv2var.size());
}

bool Mgr::assocLive(int) const { return true; }

void Mgr::nodeCheck() {
  // releases garbage and compares the node count with the shared reduced diagram of everything referenced
  if (pstate) return;
  asked = true; Cal_BddManagerGC(m);
  long got = Cal_BddManagerGetNumNodes(m), base = 1; // the constant is counted once
  if (!structureStable()) syncOrder("node count", true);
  long want = expectedNodes();
  e.st.inc("node_checks"); if (want > (long)vars.size() + 3) e.st.inc("node_checks_nontrivial");
  if (got < want + base) failf("node count: %ld nodes after collection but %ld are referenced", got, want + base);
  // reference counts saturate at 255: exact only while no node can have had so many references
  long slack = nact() <= 6 && maxSeen < 200 ? 0 : 60 + want / 8;
  if (exactOk && !slack) e.st.inc("node_checks_exact");
  if (exactOk && got > want + base + slack) failf("node count: %ld nodes after collection, %ld referenced: unreferenced nodes are never reclaimed", got, want + base);
}

void Mgr::afterReorder(const vector<int> &before, const char *why) {
  syncOrder(why, true);
  bool bf = method == 0;
  if (bf) { if (blocks.size()) blocksLost = true; blocks.clear(); }
  else for (auto &bl : blocks) {
    vector<long> ix; for (int v : bl.members) ix.push_back(indexOf(v));
    long mn = *std::min_element(ix.begin(), ix.end()), mx = *std::max_element(ix.begin(), ix.end());
    if (mx - mn + 1 != (long)ix.size()) failf("%s: block: the variables of a block are no longer consecutive", why);
    e.st.inc("block_checks");
    if (!bl.reorderable) {
      // children: maximal blocks inside, and single variables; their relative order must be kept
      map<int, int> child; // member -> child number
      int nc = 0;
      set<int> mem(bl.members.begin(), bl.members.end());
      vector<const Block *> inner;
      for (auto &o : blocks) if (&o != &bl && o.members.size() < bl.members.size() && mem.count(o.members[0])) inner.push_back(&o);
      std::sort(inner.begin(), inner.end(), [](const Block *a, const Block *b) { return a->members.size() > b->members.size(); });
      for (auto o : inner) { bool taken = false; for (int v : o->members) if (child.count(v)) taken = true; if (taken) continue; for (int v : o->members) child[v] = nc; nc++; }
      for (int v : bl.members) if (!child.count(v)) child[v] = nc++;
      vector<int> a, b;
      for (int v : before) if (mem.count(v) && (a.empty() || a.back() != child[v])) a.push_back(child[v]);
      for (int v : order) if (mem.count(v) && (b.empty() || b.back() != child[v])) b.push_back(child[v]);
      if (a != b) failf("%s: block: the children of a block that is not reorderable changed their order", why);
      e.st.inc("block_checks_fixed");
    }
  }
  if (order != before) e.st.inc("order_changed");
}

void Mgr::reorder() {
  if (!structureStable()) syncOrder("before reordering", true);
  vector<TT> fs; for (auto &s : slots) fs.push_back(s.t);
  vector<int> before = order; Shape s0 = shape(fs);
  // "grew" needs the library's count and the model's to agree, so that nodes whose reference
  // count saturated on the way (they stay as garbage) do not matter
  bool watch = e.c.get("nogrow", 0) && technique && exactOk && !pstate; long lib0 = 0, mod0 = 0;
  asked = true;
  if (watch) { Cal_BddManagerGC(m); lib0 = (long)Cal_BddManagerGetNumNodes(m); mod0 = expectedNodes(); }
  if (hookBefore) hookBefore();
  Cal_BddReorder(m);
  if (hookAfter) hookAfter();
  e.st.inc("reorders"); if (fs.size() >= 2 && technique) e.st.inc("reorders_live");
  syncOrder("reorder", true);
  if (technique == 0 && order != before) failf("reorder: the order changed although reordering is off");
  if (technique) {
    afterReorder(before, "reorder");
    if (watch) {
      Cal_BddManagerGC(m); long lib1 = (long)Cal_BddManagerGetNumNodes(m); syncOrder("reorder", true); long mod1 = expectedNodes();
      if (lib1 > lib0 && mod1 > mod0) failf("reorder grew: %ld nodes in use before (%ld referenced), %ld after (%ld referenced)", lib0, mod0, lib1, mod1);
      e.st.inc("grow_checks"); if (mod1 < mod0) e.st.inc("grow_checks_shrank");
    }
    Shape s1 = shape(fs);
    if (s1.sizeNeg() > s0.sizeNeg()) e.st.inc("reorder_grew");
    if (s1.sizeNeg() < s0.sizeNeg()) e.st.inc("reorder_shrank");
  }
  checkAll("reorder");
}

void Mgr::closePipeline() { if (pstate) { Cal_PipelineQuit(m); pstate = 0; provs.clear(); releaseHeld(); } }

void Mgr::query(Operand &f) {
  bool st = structureStable();
  vector<int> sup = f.t.support();
  // support
  vector<Cal_Bdd> out(vars.size() + 2, (Cal_Bdd)0x10);
  Cal_BddSupport(m, f.b, out.data());
  set<int> got; size_t i = 0;
  for (; i < vars.size() + 1 && out[i]; i++) { int v = -1; for (size_t k = 0; k < vars.size(); k++) if (vars[k].b == out[i]) v = k; if (v < 0) failf("support: entry is not a variable"); if (vars[v].tv < 0) failf("support: contains a variable the function does not depend on"); if (!got.insert(vars[v].tv).second) failf("support: duplicate variable"); }
  if (i > vars.size()) failf("support: list not terminated");
  if (got != set<int>(sup.begin(), sup.end())) failf("support: %zu variables reported, %zu expected", got.size(), sup.size());
  for (size_t v = 0; v < vars.size(); v++) {
    if (vars.size() > 24 && vars[v].tv < 0 && v % 7) continue;
    bool d = vars[v].tv >= 0 && f.t.dependsOn(vars[v].tv);
    if (!!Cal_BddDependsOn(m, f.b, vars[v].b) != d) failf("dependson: wrong answer for variable id %ld", vars[v].id);
  }
  // type
  int ty = Cal_BddType(m, f.b), want = CAL_BDD_TYPE_NONTERMINAL;
  if (f.t.isZero()) want = CAL_BDD_TYPE_ZERO; else if (f.t.isOne()) want = CAL_BDD_TYPE_ONE;
  else if (sup.size() == 1) want = f.t == TT::var(N, sup[0]) ? CAL_BDD_TYPE_POSVAR : CAL_BDD_TYPE_NEGVAR;
  if (ty != want) failf("type: got %d expected %d", ty, want);
  bool cube = !f.t.isZero();
  if (cube) for (int v : sup) if (!f.t.cof(v, false).isZero() && !f.t.cof(v, true).isZero()) cube = false;
  if (!!Cal_BddIsCube(m, f.b) != cube) failf("iscube: got %d expected %d", (int)!cube, (int)cube);
  if (!!Cal_BddIsBddConst(m, f.b) != f.t.isConst()) failf("isconst: wrong");
  if (!!Cal_BddIsBddNull(m, f.b)) failf("isnull: wrong");
  if (Cal_BddIsProvisional(m, f.b)) failf("isprovisional: true for an ordinary diagram");
  double fr = Cal_BddSatisfyingFraction(m, f.b), ex = (double)f.t.count() / (double)f.t.bits();
  if (std::fabs(fr - ex) > 1e-12) failf("fraction: got %.17g expected %.17g", fr, ex);
  Cal_Bdd rg = Cal_BddGetRegular(m, f.b); // no reference taken
  if (rg != f.b && rg != (Cal_Bdd)((uintptr_t)f.b ^ 1)) { TT g = eval(rg, "regular"); if (g != f.t && g != ~f.t) failf("regular: neither the function nor its complement"); }
  { Cal_Bdd nb = Cal_BddNot(m, f.b); if (!nb) { nullOk("not"); } else { if (Cal_BddGetRegular(m, nb) != rg) failf("regular: differs between a function and its complement"); Cal_BddFree(m, nb); } }
  if (st) {
    Shape s = shape({f.t});
    long sz = Cal_BddSize(m, f.b, 1), szp = Cal_BddSize(m, f.b, 0);
    if (sz != s.sizeNeg()) failf("size: got %ld expected %ld (with complement edges)", sz, s.sizeNeg());
    if (szp != s.sizePos()) failf("size: got %ld expected %ld (without complement edges)", szp, s.sizePos());
    vector<long> p(vars.size() + 2, -77);
    for (int neg = 0; neg < 2; neg++) {
      std::fill(p.begin(), p.end(), -77);
      Cal_BddProfile(m, f.b, p.data(), neg);
      for (size_t k = 0; k < vars.size(); k++) if (p[k] != (neg ? s.lvlNeg[k] : s.lvlPos[k])) failf("profile: level %zu has %ld, expected %ld", k, p[k], neg ? s.lvlNeg[k] : s.lvlPos[k]);
      if (p[vars.size()] != (neg ? s.constNeg : s.constPos)) failf("profile: constants %ld, expected %ld", p[vars.size()], neg ? s.constNeg : s.constPos);
      if (p[vars.size() + 1] != -77) failf("profile: writes beyond the array");
    }
    std::fill(p.begin(), p.end(), -77);
    Cal_BddFunctionProfile(m, f.b, p.data());
    for (size_t k = 0; k < vars.size(); k++) if (p[k] != s.func[k]) failf("functionprofile: level %zu has %ld, expected %ld", k, p[k], s.func[k]);
    if (p[vars.size()] != s.func[vars.size()]) failf("functionprofile: constants %ld, expected %ld", p[vars.size()], s.func[vars.size()]);
    // top variable and cofactors
    if (!f.t.isConst()) {
      int top = -1; for (int v : order) if (vars[v].tv >= 0 && f.t.dependsOn(vars[v].tv)) { top = v; break; }
      Cal_Bdd b = Cal_BddIf(m, f.b); if (b != vars[top].b) failf("if: wrong top variable"); 
      if (Cal_BddGetIfId(m, f.b) != vars[top].id) failf("ifid: wrong");
      if (Cal_BddGetIfIndex(m, f.b) != indexOf(top)) failf("ifindex: wrong");
      Cal_Bdd t = Cal_BddThen(m, f.b), el = Cal_BddElse(m, f.b); ref(t); ref(el);
      expect(t, f.t.cof(vars[top].tv, true), "then"); expect(el, f.t.cof(vars[top].tv, false), "else");
      drop(t); drop(el);
    }
    e.st.inc("shape_checks"); if (sup.size() >= 2) e.st.inc("shape_checks_nontrivial");
  }
}

void Mgr::queryMulti(vector<Operand> &fs) {
  if (!structureStable()) return;
  vector<Cal_Bdd> a; vector<TT> ts; for (auto &f : fs) a.push_back(f.b), ts.push_back(f.t);
  a.push_back(nullptr);
  Shape s = shape(ts); if (ts.empty()) return;
  long sz = Cal_BddSizeMultiple(m, a.data(), 1), szp = Cal_BddSizeMultiple(m, a.data(), 0);
  if (sz != s.sizeNeg()) failf("sizemultiple: got %ld expected %ld (with complement edges)", sz, s.sizeNeg());
  if (szp != s.sizePos()) failf("sizemultiple: got %ld expected %ld (without)", szp, s.sizePos());
  vector<long> p(vars.size() + 2, -77);
  for (int neg = 0; neg < 2; neg++) {
    Cal_BddProfileMultiple(m, a.data(), p.data(), neg);
    for (size_t k = 0; k < vars.size(); k++) if (p[k] != (neg ? s.lvlNeg[k] : s.lvlPos[k])) failf("profilemultiple: level %zu has %ld, expected %ld", k, p[k], neg ? s.lvlNeg[k] : s.lvlPos[k]);
    if (p[vars.size()] != (neg ? s.constNeg : s.constPos)) failf("profilemultiple: constants");
  }
  Cal_BddFunctionProfileMultiple(m, a.data(), p.data());
  for (size_t k = 0; k < vars.size(); k++) if (p[k] != s.func[k]) failf("functionprofilemultiple: level %zu has %ld, expected %ld", k, p[k], s.func[k]);
  if (p[vars.size()] != s.func[vars.size()]) failf("functionprofilemultiple: constants %ld expected %ld", p[vars.size()], s.func[vars.size()]);
  e.st.inc("shape_checks_multi");
}

TT makeFunction(int N, int nact, long seed, long kind, long k) {
  Rng r((uint64_t)seed * 7919 + kind);
  TT z(N, false); if (nact <= 0) return (seed & 1) ? ~z : z;
  k = std::max(1L, std::min<long>(k, nact));
  vector<int> vs(nact); for (int i = 0; i < nact; i++) vs[i] = i;
  for (int i = nact - 1; i > 0; i--) std::swap(vs[i], vs[r.range(0, i)]);
  vs.resize(k);
  auto lit = [&](int v) { TT t = TT::var(N, v); return r.chance(50) ? t : ~t; };
  TT t = z;
  switch (kind % 7) {
  case 0: { // dense random over k variables
    vector<bool> tab((size_t)1 << k); for (size_t i = 0; i < tab.size(); i++) tab[i] = r.next() & 1;
    for (size_t x = 0; x < t.bits(); x++) { size_t p = 0; for (int i = 0; i < k; i++) if ((x >> vs[i]) & 1) p |= (size_t)1 << i; t.set(x, tab[p]); }
    break; }
  case 1: { // sum of cubes
    int nc = r.range(1, 2 + k); for (int c = 0; c < nc; c++) { TT q(N, true); int w = r.range(1, k); for (int i = 0; i < w; i++) q = q & lit(vs[r.range(0, k - 1)]); t = t | q; }
    if (r.chance(40)) t = ~t;
    break; }
  case 2: { // threshold or modular counting
    int th = r.range(0, k), mode = r.range(0, 2);
    for (size_t x = 0; x < t.bits(); x++) { int c = 0; for (int v : vs) c += (x >> v) & 1; t.set(x, mode == 0 ? c >= th : mode == 1 ? c == th : (c % 3) == (th % 3)); }
    break; }
  case 3: { t = ~z; for (int v : vs) t = t & lit(v); break; }
  case 4: { for (int i = 0; i + 1 < k; i += 2) t = t | (lit(vs[i]) & lit(vs[i + 1])); if (k == 1) t = lit(vs[0]); break; }
  case 5: { for (int v : vs) t = t ^ lit(v); if (k > 2 && r.chance(50)) t = t & lit(vs[0]); break; }
  case 6: { // random expression tree
    t = lit(vs[0]); for (int i = 1; i < 2 * k; i++) { TT l = lit(vs[r.range(0, k - 1)]); switch (r.range(0, 2)) { case 0: t = t & l; break; case 1: t = t | l; break; default: t = t ^ l; } }
    break; }
  }
  return t;
}
