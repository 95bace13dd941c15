// C19: the C++ interface against truth tables, against a C manager built alike, and its reference balance.
#include <vector>
#include <list>
#include <deque>
#include <set>
#include <map>
#include <string>
#include <memory>
#include <sstream>
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <unistd.h>
#include <type_traits>
#include "frame.h"
#include "tt.h"
#include "capture.h"
#include <calObj.hh>
using std::string; using std::vector;
struct MemCount { long blocks, bytes; };
MemCount memOutstanding();
extern "C" { extern long calVerifMinGCLimit; extern int calVerifGCCheck; extern unsigned long calVerifLargeBdd; extern int calVerifCacheIndex; }
#define NV 6

[[noreturn]] static void failf(const char *f, ...) { char b[900]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); throw Fail{b}; }
static long absl(long x) { return x < 0 ? -x : x; }

struct Obj { std::unique_ptr<BDD> b; TT t; bool null = false; int mg = 0; };
struct M { // one manager: the object under test, and a plain C manager with the same variables
  std::unique_ptr<Cal> cal; Cal_BddManager cm; vector<Cal_Bdd> cv; // cv[tv]: variable of the C manager
  vector<int> tvOfId{-1}; int nv = 0; bool reordered = false; long limit = 0; int keptAssoc = -1; vector<std::pair<int, TT>> keptMap; bool temp = false;
};

static string slurp(FILE *f) { string s; rewind(f); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); return s; }
// a diagram passed by value and returned: temporaries in between
static BDD through(BDD x) { BDD y = x; return y; }

struct Env {
  const Case &c; Stats &st; vector<M> ms; vector<Obj> objs;
  Env(const Case &c, Stats &st) : c(c), st(st) {}
  static TT var(int v) { return TT::var(NV, v); }

  bool newVar(M &m, int kind, long ref) {
    if (m.nv >= NV) return false;
    BDD r; Cal_Bdd cr = nullptr; BDD rv; int rid = 0;
    if (m.nv) { rid = 1 + (int)(ref % m.nv); rv = m.cal->Id(rid); }
    if (kind >= 2 && !m.nv) kind = 1;
    switch (kind) {
      case 0: r = m.cal->CreateNewVarFirst(); cr = Cal_BddManagerCreateNewVarFirst(m.cm); break;
      case 1: r = m.cal->CreateNewVarLast(); cr = Cal_BddManagerCreateNewVarLast(m.cm); break;
      case 2: r = m.cal->CreateNewVarBefore(rv); cr = Cal_BddManagerCreateNewVarBefore(m.cm, m.cv[m.tvOfId[rid]]); break;
      default: r = m.cal->CreateNewVarAfter(rv); cr = Cal_BddManagerCreateNewVarAfter(m.cm, m.cv[m.tvOfId[rid]]);
    }
    m.cv.push_back(cr); m.tvOfId.push_back(m.nv); m.nv++;
    if (r.IsNull()) failf("newvar: null");
    if (r.Id() != m.nv) failf("newvar: identifier %d, expected %d", (int)r.Id(), m.nv);
    if (m.cal->Vars() != m.nv) failf("newvar: %ld variables, expected %d", m.cal->Vars(), m.nv);
    if (!m.reordered && r.Index() != Cal_BddGetIfIndex(m.cm, cr)) failf("newvar: at index %d, the C interface puts it at %d", (int)r.Index(), (int)Cal_BddGetIfIndex(m.cm, cr));
    if (m.cal->Id(m.nv) != r || m.cal->Index(r.Index()) != r) failf("newvar: lookups disagree");
    return true;
  }
  TT eval(const BDD &b, M &m, int depth = 0) {
    if (b.IsNull()) failf("eval: null diagram");
    if (b.IsOne()) return TT(NV, true);
    if (b.IsZero()) return TT(NV, false);
    if (depth > NV + 1) failf("eval: diagram too deep");
    BDD::Id_t id = b.Id(); if (id == 0 || id > m.nv) failf("eval: identifier %d", (int)id);
    return var(m.tvOfId[id]).ite(eval(b.Then(), m, depth + 1), eval(b.Else(), m, depth + 1));
  }
  void check(const Obj &o, const char *w) {
    if (o.null) { if (!o.b->IsNull()) failf("%s: a null object became valid", w); return; }
    if (o.b->IsNull()) failf("%s: a valid object became null", w);
    TT t = eval(*o.b, ms[o.mg]); if (t != o.t) failf("%s: an object denotes %s, expected %s", w, t.str().c_str(), o.t.str().c_str());
    st.inc("evals"); if (!t.isConst()) st.inc("evals_nonconst");
  }
  void checkAll(const char *w) { for (auto &o : objs) check(o, w); refcounts(w); equalities(w); }
  void equalities(const char *w) {
    for (size_t i = 0; i < objs.size(); i++) for (size_t j = i; j < objs.size(); j++) { auto &a = objs[i], &b = objs[j]; if (a.null || b.null || a.mg != b.mg) continue;
      bool want = a.t == b.t; if ((*a.b == *b.b) != want || (*a.b != *b.b) == want || a.b->IsEqualTo(*b.b) != want || ms[a.mg].cal->IsEqual(*a.b, *b.b) != want) failf("%s: equality of two objects is wrong", w); }
  }
  // the reference count of a function is the number of objects denoting it or its complement
  void refcounts(const char *w) {
    for (size_t i = 0; i < objs.size(); i++) {
      auto &o = objs[i]; if (o.null) { if (o.b->RefCount() != 255) failf("%s: reference count of null", w); continue; }
      auto sup = o.t.support(); if (sup.size() < 2 && (o.t.isConst() || sup.size() == 1)) { continue; } // constants and variables are permanent
      int n = 0; for (auto &p : objs) if (!p.null && p.mg == o.mg && (p.t == o.t || p.t == ~o.t)) n++;
      int got = o.b->RefCount(); if (got != n) failf("%s: a function has %d references but %d objects", w, got, n);
      st.inc("refcount_checks"); if (n > 1) st.inc("refcount_checks_shared");
    }
  }
  int idx(long x) { return objs.empty() ? -1 : (int)(absl(x) % objs.size()); }
  // a valid object of the manager
  int pick(long x, int mg) { if (objs.empty()) return -1; size_t n = objs.size(); for (size_t k = 0; k < n; k++) { size_t i = (absl(x) + k) % n; if (!objs[i].null && objs[i].mg == mg) return (int)i; } return -1; }
  void put(BDD &&r, const TT &t, int mg, const char *w) {
    Obj o; o.mg = mg; o.t = t; o.null = r.IsNull();
    if (o.null && ms[mg].limit <= 0) failf("%s: null result without a node limit", w);
    if (o.null) { if (!ms[mg].cal->Overflow()) st.inc("null_quiet"); st.inc("null_results"); }
    o.b.reset(new BDD(std::move(r))); if (!r.IsNull()) failf("%s: a moved-from object is not null", w);
    if (objs.size() >= 40) { size_t v = t.hash() % objs.size(); objs[v] = std::move(o); check(objs[v], w); } else { objs.push_back(std::move(o)); check(objs.back(), w); }
    st.inc("results");
  }
  BDD fromTT(M &m, const TT &t, int mg) { // through operators
    BDD acc = m.cal->Zero();
    for (int x = 0; x < (1 << m.nv); x++) if (t.get(x)) { BDD cube = m.cal->One(); for (int v = 0; v < m.nv; v++) { BDD lit = m.cal->Id(v + 1); cube &= (x >> v) & 1 ? lit : ~lit; } acc |= cube; }
    (void)mg; return acc;
  }
  Cal_Bdd cFromTT(M &m, const TT &t) { // the same function in the C manager
    Cal_Bdd acc = Cal_BddZero(m.cm);
    for (int x = 0; x < (1 << m.nv); x++) if (t.get(x)) { Cal_Bdd cube = Cal_BddOne(m.cm); for (int v = 0; v < m.nv; v++) { Cal_Bdd lit = (x >> v) & 1 ? Cal_BddIdentity(m.cm, m.cv[v]) : Cal_BddNot(m.cm, m.cv[v]); Cal_Bdd n = Cal_BddAnd(m.cm, cube, lit); Cal_BddFree(m.cm, cube); Cal_BddFree(m.cm, lit); cube = n; }
      Cal_Bdd n = Cal_BddOr(m.cm, acc, cube); Cal_BddFree(m.cm, acc); Cal_BddFree(m.cm, cube); acc = n; }
    return acc;
  }
  bool usable(const M &m, const TT &t) { for (int v : t.support()) if (v >= m.nv) return false; return true; }

  template <class L> void listOp(const string &n, M &m, int mg, const L &l, const vector<TT> &ts, long variant) {
    Cal &k = *m.cal; auto fold = [&](TT a, const TT &b) { return n[1] == 'A' ? a & b : n[1] == 'O' ? a | b : a ^ b; };
    if (n[0] == 'M') {
      TT t = n[1] == 'A' ? TT(NV, true) : TT(NV, false); for (auto &x : ts) t = fold(t, x);
      BDD r = n[1] == 'A' ? (variant & 1 ? k.And(l) : k.And(l.begin(), l.end())) : n[1] == 'O' ? (variant & 1 ? k.Or(l) : k.Or(l.begin(), l.end())) : (variant & 1 ? k.Xor(l) : k.Xor(l.begin(), l.end()));
      if (ts.empty()) { if (!r.IsNull()) failf("multi: a result for an empty list"); return; }
      put(std::move(r), t, mg, n.c_str()); st.inc("lists");
    } else {
      vector<BDD> r = n[1] == 'A' ? (variant & 1 ? k.PairwiseAnd(l) : k.PairwiseAnd(l.begin(), l.end())) : n[1] == 'O' ? (variant & 1 ? k.PairwiseOr(l) : k.PairwiseOr(l.begin(), l.end())) : (variant & 1 ? k.PairwiseXor(l) : k.PairwiseXor(l.begin(), l.end()));
      if (r.empty() && m.limit > 0 && ts.size()) { st.inc("null_results"); return; }
      if (r.size() != ts.size() / 2) failf("pairwise: %zu results for %zu pairs", r.size(), ts.size() / 2);
      for (size_t i = 0; i < r.size(); i++) { TT t = fold(ts[2 * i], ts[2 * i + 1]); TT got = eval(r[i], m); if (got != t) failf("pairwise: wrong function in pair %zu", i); }
      for (size_t i = 0; i < r.size() && i < 3; i++) { TT t = fold(ts[2 * i], ts[2 * i + 1]); put(BDD(r[i]), t, mg, n.c_str()); }
      st.inc("pairlists");
    }
  }
  TT quant(TT f, const vector<int> &vs, bool ex) { for (int v : vs) f = ex ? f.exists(v) : f.forall(v); return f; }

  void query(Obj &o, M &m, int mg) {
    BDD &b = *o.b; Cal &k = *m.cal; auto sup = o.t.support();
    if (b.IsOne() != o.t.isOne() || k.IsOne(b) != o.t.isOne() || b.IsZero() != o.t.isZero() || k.IsZero(b) != o.t.isZero() || b.IsConst() != o.t.isConst() || k.IsConst(b) != o.t.isConst() || b.IsNull() || k.IsNull(b)) failf("query: constant predicates are wrong");
    bool cube = !o.t.isZero(); for (int v : sup) if (!o.t.cof(v, false).isZero() && !o.t.cof(v, true).isZero()) cube = false;
    if (b.IsCube() != cube || k.IsCube(b) != cube) failf("query: cube");
    for (int v = 0; v < m.nv; v++) { bool d = o.t.dependsOn(v); BDD x = k.Id(v + 1); if (b.DependsOn(x) != d || k.DependsOn(b, x) != d) failf("query: dependence"); }
    double ex = (double)o.t.count() / o.t.bits(); if (std::fabs(b.SatisfyingFraction() - ex) > 1e-12 || std::fabs(k.SatisfyingFraction(b) - ex) > 1e-12) failf("query: satisfying fraction");
    int ty = BDD::NonTerminal; if (o.t.isZero()) ty = BDD::Zero; else if (o.t.isOne()) ty = BDD::One; else if (sup.size() == 1) ty = o.t == var(sup[0]) ? BDD::Posvar : BDD::Negvar;
    if (b.Type() != ty) failf("query: type %d, expected %d", (int)b.Type(), ty);
    if (!o.t.isConst()) {
      int v = m.tvOfId[b.Id()]; if (k.IfId(b) != b.Id() || k.IfIndex(b) != b.Index()) failf("query: top variable queries disagree");
      for (int u : sup) if (k.Id(u + 1).Index() < b.Index()) failf("query: the top variable is not the first of the support");
      if (b.If() != k.Id(b.Id()) || k.If(b) != k.Index(b.Index())) failf("query: top variable");
      BDD th = b.Then(), el = k.Else(b); if (eval(th, m) != o.t.cof(v, true) || eval(el, m) != o.t.cof(v, false)) failf("query: cofactors");
      if (k.Then(b) != th || b.Else() != el) failf("query: cofactors disagree");
    }
    BDD reg = b.Regular(), nreg = (~b).Regular(); if (reg != nreg || (reg != b && reg != ~b) || k.Regular(b) != reg) failf("query: regular");
    vector<long> p1 = b.Profile(true), p0 = k.Profile(b, false), fp = b.FunctionProfile();
    if ((long)p1.size() != m.nv + 1 || (long)p0.size() != m.nv + 1 || (long)fp.size() != m.nv + 1) failf("query: a profile has %zu entries, expected %d", p1.size(), m.nv + 1);
    long s1 = 0, s0 = 0; for (long x : p1) s1 += x; for (long x : p0) s0 += x;
    if (s1 != (long)b.Size(true) || s1 != (long)b.Size() || s0 != (long)b.Size(false) || s0 != (long)k.Size(b, false)) failf("query: profile and size disagree");
    string ts = b.ToString(); if (o.t.isOne() != (ts == "(1)") || o.t.isZero() != (ts == "(0)") || ts == "NULL") failf("query: text form");
    st.inc("queries");
    (void)mg;
  }
  // the same questions to the C interface about the same functions under the same order
  void mirror(const vector<int> &is, M &m, long variant) {
    if (m.reordered) return;
    vector<BDD> l; vector<Cal_Bdd> cl; for (int i : is) { l.push_back(*objs[i].b); cl.push_back(cFromTT(m, objs[i].t)); } cl.push_back(nullptr);
    Cal &k = *m.cal; int nv = m.nv + 1; vector<long> w(nv);
    bool neg = variant & 1; int len = variant & 2 ? 79 : 40 + (int)(variant % 60);
    auto same = [&](const vector<long> &got, const char *what) { if (got != w) failf("mirror: %s differs from the C interface", what); };
    if ((long)k.Size(l.begin(), l.end(), neg) != (long)Cal_BddSizeMultiple(m.cm, cl.data(), neg) || k.Size(l, neg) != k.Size(l.begin(), l.end(), neg)) failf("mirror: size of several");
    Cal_BddProfileMultiple(m.cm, cl.data(), w.data(), neg); same(k.Profile(l.begin(), l.end(), neg), "profile of several"); same(k.Profile(l, neg), "profile of several");
    Cal_BddFunctionProfileMultiple(m.cm, cl.data(), w.data()); same(k.FunctionProfile(l.begin(), l.end()), "function profile of several"); same(k.FunctionProfile(l), "function profile of several");
    Cal_BddProfile(m.cm, cl[0], w.data(), neg); same(l[0].Profile(neg), "profile"); same(k.Profile(l[0], neg), "profile");
    Cal_BddFunctionProfile(m.cm, cl[0], w.data()); same(l[0].FunctionProfile(), "function profile"); same(k.FunctionProfile(l[0]), "function profile");
    if (l[0].Size(neg) != Cal_BddSize(m.cm, cl[0], neg)) failf("mirror: size");
    int which = (int)((variant / 4) % 6); FILE *a = tmpfile(), *b = tmpfile(); if (!a || !b) { if (a) fclose(a); if (b) fclose(b); goto out; }
    switch (which) {
      case 0: l[0].Print(a); Cal_BddPrintBdd(m.cm, cl[0], Cal_BddNamingFnNone, Cal_BddTerminalIdFnNone, nullptr, b); break;
      case 1: k.Print(l[0], a); Cal_BddPrintBdd(m.cm, cl[0], Cal_BddNamingFnNone, Cal_BddTerminalIdFnNone, nullptr, b); break;
      case 2: if (neg) l[0].PrintProfile(len, a); else k.PrintProfile(l[0], len, a); Cal_BddPrintProfile(m.cm, cl[0], Cal_BddNamingFnNone, nullptr, len, b); break;
      case 3: if (neg) l[0].PrintFunctionProfile(len, a); else k.PrintFunctionProfile(l[0], len, a); Cal_BddPrintFunctionProfile(m.cm, cl[0], Cal_BddNamingFnNone, nullptr, len, b); break;
      case 4: if (neg) k.PrintProfile(l, len, a); else k.PrintProfile(l.begin(), l.end(), len, a); Cal_BddPrintProfileMultiple(m.cm, cl.data(), Cal_BddNamingFnNone, nullptr, len, b); break;
      default: if (neg) k.PrintFunctionProfile(l, len, a); else k.PrintFunctionProfile(l.begin(), l.end(), len, a); Cal_BddPrintFunctionProfileMultiple(m.cm, cl.data(), Cal_BddNamingFnNone, nullptr, len, b);
    }
    { string x = slurp(a), y = slurp(b); fclose(a); fclose(b); if (x != y) failf("mirror: printed text %d differs from the C interface", which); if (x.empty()) failf("mirror: nothing printed"); }
    { string nm = "g", x = captureStdout([&] { l[0].FunctionPrint(nm); }), y = captureStdout([&] { Cal_BddFunctionPrint(m.cm, cl[0], nm.data()); }); if (x != y || x.size() < 5) failf("mirror: the printed function differs from the C interface"); }
  out:
    for (auto x : cl) if (x) Cal_BddFree(m.cm, x);
    st.inc("mirrors");
  }

  void step(const Op &o) {
    const string &n = o.name; const char *w = n.c_str();
    auto A = [&](size_t i) { return i < o.a.size() ? absl(o.a[i]) : 0L; };
    int mg = (int)(A(0) % ms.size()); M &m = ms[mg]; Cal &k = *m.cal;
    auto tail = [&](size_t from) { return vector<long>(o.a.begin() + std::min(from, o.a.size()), o.a.end()); };
    if (n == "FUNC") { TT t(NV); Rng r(A(1)); t.w[0] = r.next() & (A(2) & 1 ? r.next() : ~0ull); for (int v = m.nv; v < NV; v++) t = t.cof(v, false); put(fromTT(m, t, mg), t, mg, w); return; }
    if (n == "VAR") { if (!m.nv) return; int v = (int)(A(1) % m.nv); put(A(2) & 1 ? k.Id(v + 1) : k.Index(k.Id(v + 1).Index()), var(v), mg, w); return; }
    if (n == "CONST") { switch (A(1) % 4) { case 0: put(k.One(), TT(NV, true), mg, w); break; case 1: put(k.Zero(), TT(NV, false), mg, w); break; case 2: { if (!k.Null().IsNull() || !k.Id(m.nv + 1).IsNull() || !k.Index(m.nv).IsNull()) failf("const: a valid diagram outside the range"); break; } default: { Obj x; x.mg = mg; x.null = true; x.b.reset(new BDD()); if (objs.size() < 40) objs.push_back(std::move(x)); } } return; }
    if (n == "COPY") { int i = idx(A(1)); if (i < 0 || objs.size() >= 40) return; Obj x; x.t = objs[i].t; x.null = objs[i].null; x.mg = objs[i].mg; if (A(2) & 1) x.b.reset(new BDD(*objs[i].b)); else { x.b.reset(new BDD()); *x.b = through(*objs[i].b); } objs.push_back(std::move(x)); st.inc("copies"); return; }
    if (n == "MOVE") { int i = idx(A(1)); if (i < 0 || objs.size() >= 40) return; Obj x; x.t = objs[i].t; x.null = objs[i].null; x.mg = objs[i].mg; x.b.reset(new BDD(std::move(*objs[i].b))); objs[i].null = true; if (!objs[i].b->IsNull()) failf("move: the moved-from object is not null"); objs.push_back(std::move(x)); st.inc("moves"); return; }
    if (n == "ASSIGN") { int i = idx(A(1)), j = idx(A(2)); if (i < 0) return; BDD &ret = (*objs[i].b = *objs[j].b); if (&ret != objs[i].b.get()) failf("assign: returns another object"); objs[i].t = objs[j].t; objs[i].null = objs[j].null; objs[i].mg = objs[j].mg; st.inc("assigns"); if (i == j) st.inc("self_assigns"); check(objs[i], w); check(objs[j], w); return; }
    if (n == "MASSIGN") { int i = idx(A(1)), j = idx(A(2)); if (i < 0 || i == j) return; *objs[i].b = std::move(*objs[j].b); objs[i].t = objs[j].t; objs[i].null = objs[j].null; objs[i].mg = objs[j].mg; objs[j].null = true; if (!objs[j].b->IsNull()) failf("move: the moved-from object is not null"); st.inc("moves"); check(objs[i], w); return; }
    if (n == "SWAPOBJ") { int i = idx(A(1)), j = idx(A(2)); if (i < 0) return; std::swap(*objs[i].b, *objs[j].b); if (i != j) { std::swap(objs[i].t, objs[j].t); std::swap(objs[i].null, objs[j].null); std::swap(objs[i].mg, objs[j].mg); check(objs[i], w); check(objs[j], w); } else { bool nul = objs[i].b->IsNull(); (void)nul; check(objs[i], w); } st.inc("swaps"); return; }
    if (n == "DESTROY") { int i = idx(A(1)); if (i < 0) return; objs.erase(objs.begin() + i); st.inc("destroys"); return; }
    if (n == "GC") { k.GC(); st.inc("gcs"); return; }
    if (n == "CHECK") { checkAll(w); return; }
    if (n == "NEWVAR") { newVar(m, (int)(A(1) % 4), A(2)); return; }
    if (n == "REORDER") { if (c.get("noreorder", 0)) return; auto te = (A(1) & 1) ? Cal::Sift : Cal::Window; auto me = (A(2) & 1) ? Cal::DF : Cal::BF; if (A(2) & 2) k.DynamicReordering(te); else k.DynamicReordering(te, me); k.Reorder(); k.DynamicReordering(Cal::None); m.reordered = true; checkAll(w); st.inc("reorders"); return; }
    if (n == "PARAMS") { k.SetParameters(A(1), A(2), (A(3) % 101) / 100.0, (A(3) % 97) / 100.0); return; }
    if (n == "LIMIT") { long l = A(1) & 1 ? 0 : (long)k.Nodes() + A(2) % 20; long old = k.NodeLimit(l); if (old != m.limit) failf("limit: previous limit %ld, expected %ld", old, m.limit); m.limit = l; k.Overflow(); if (k.Overflow()) failf("limit: overflow not cleared"); return; }
    if (n == "GCMODE") { k.SetGCMode(A(1) & 1); k.SetGCLimit(); return; }
    if (n == "MOVECAL") { // objects keep working after the manager object has moved
      std::unique_ptr<Cal> nc(new Cal(std::move(*m.cal))); m.cal = std::move(nc); checkAll(w); st.inc("cal_moves"); return; }
    if (n == "STATS") { FILE *f = fopen("/dev/null", "w"); if (f) { k.Stats(f); fclose(f); } if (k.TotalSize() == 0) failf("stats: total size is zero"); return; }

    if (n == "NOT") { int i = pick(A(1), mg); if (i < 0) return; BDD &b = *objs[i].b; TT t = objs[i].t; switch (A(2) % 4) { case 0: put(~b, ~t, mg, w); break; case 1: put(b.Not(), ~t, mg, w); break; case 2: put(k.Not(b), ~t, mg, w); break; default: put(A(3) & 1 ? b.Identity() : k.Identity(b), t, mg, w); } return; }
    if (n == "BIN") {
      int i = pick(A(1), mg), j = pick(A(2), mg); if (i < 0) return; BDD &f = *objs[i].b, &g = *objs[j].b; TT a = objs[i].t, b = objs[j].t; int v = (int)(A(4) % 4);
      auto compound = [&](int op, const TT &t) { // a op= b, also with itself
        BDD x(f); if (v == 2) { BDD &r = op == 0 ? (x &= g) : op == 1 ? (x |= g) : op == 2 ? (x ^= g) : (x -= g); if (&r != &x) failf("compound: returns another object"); }
        else { BDD &r = op == 0 ? (f &= g) : op == 1 ? (f |= g) : op == 2 ? (f ^= g) : (f -= g); if (&r != &f) failf("compound: returns another object"); objs[i].t = t; objs[i].null = f.IsNull(); if (objs[i].null && m.limit <= 0) failf("compound: null without a limit"); check(objs[i], w); st.inc("compounds"); return; }
        put(std::move(x), t, mg, w); };
      switch (A(3) % 10) {
        case 0: if (v >= 2) compound(0, a & b); else put(v ? f.And(g) : f & g, a & b, mg, w); break;
        case 1: if (v >= 2) compound(1, a | b); else put(v ? f.Or(g) : f | g, a | b, mg, w); break;
        case 2: if (v >= 2) compound(2, a ^ b); else put(v ? f.Xor(g) : f ^ g, a ^ b, mg, w); break;
        case 3: if (v >= 2) compound(3, a & ~b); else put(v ? f.Diff(g) : f - g, a & ~b, mg, w); break;
        case 4: put(v & 1 ? f.Nand(g) : k.Nand(f, g), ~(a & b), mg, w); break;
        case 5: put(v & 1 ? f.Nor(g) : k.Nor(f, g), ~(a | b), mg, w); break;
        case 6: put(v & 1 ? f.Xnor(g) : k.Xnor(f, g), ~(a ^ b), mg, w); break;
        case 7: put(k.And(f, g), a & b, mg, w); break;
        case 8: put(k.Or(f, g), a | b, mg, w); break;
        default: put(k.Xor(f, g), a ^ b, mg, w);
      }
      st.inc("bins"); return; }
    if (n == "WITNESS") {
      int i = pick(A(1), mg), j = pick(A(2), mg); if (i < 0) return; BDD &f = *objs[i].b, &g = *objs[j].b; TT a = objs[i].t, b = objs[j].t; bool imp = A(3) & 1;
      TT want = imp ? a & ~b : a & b; BDD r = imp ? (A(4) & 1 ? f.Implies(g) : k.Implies(f, g)) : (A(4) & 1 ? f.Intersects(g) : k.Intersects(f, g));
      if (r.IsNull()) { if (m.limit <= 0) failf("witness: null"); return; }
      TT t = eval(r, m); if (!t.implies(want) || t.isZero() != want.isZero()) failf("witness: not a witness"); put(std::move(r), t, mg, w); return; }
    if (n == "ITE") { int i = pick(A(1), mg), j = pick(A(2), mg), l = pick(A(3), mg); if (i < 0) return; BDD &f = *objs[i].b, &g = *objs[j].b, &h = *objs[l].b; put(A(4) & 1 ? f.ITE(g, h) : k.ITE(f, g, h), objs[i].t.ite(objs[j].t, objs[l].t), mg, w); return; }
    if (n == "COMPOSE") { int i = pick(A(1), mg), j = pick(A(2), mg); if (i < 0 || !m.nv) return; int v = (int)(A(3) % m.nv); vector<const TT *> s(NV, nullptr); TT h = objs[j].t; s[v] = &h; put(A(4) & 1 ? objs[i].b->Compose(k.Id(v + 1), *objs[j].b) : k.Compose(*objs[i].b, k.Id(v + 1), *objs[j].b), objs[i].t.subst(s), mg, w); return; }
    if (n == "SWAPVARS") { int i = pick(A(1), mg); if (i < 0 || !m.nv) return; int u = (int)(A(2) % m.nv), v = (int)(A(3) % m.nv); TT tu = var(u), tv = var(v); vector<const TT *> s(NV, nullptr); s[u] = &tv; s[v] = &tu; put(A(4) & 1 ? objs[i].b->SwapVars(k.Id(u + 1), k.Id(v + 1)) : k.SwapVars(*objs[i].b, k.Id(u + 1), k.Id(v + 1)), u == v ? objs[i].t : objs[i].t.subst(s), mg, w); return; }
    if (n == "COF") {
      int i = pick(A(1), mg), j = pick(A(2), mg); if (i < 0 || objs[j].t.isZero()) return; TT f = objs[i].t, cs = objs[j].t;
      vector<std::pair<int, int>> ord; for (int v = 0; v < m.nv; v++) ord.push_back({(int)k.Id(v + 1).Index(), v}); std::sort(ord.begin(), ord.end()); vector<int> ov; for (auto &p : ord) ov.push_back(p.second); for (int v = m.nv; v < NV; v++) ov.push_back(v);
      if (A(3) % 2) { put(A(4) & 1 ? objs[i].b->Cofactor(*objs[j].b) : k.Cofactor(*objs[i].b, *objs[j].b), ttConstrain(f, cs, ov), mg, w); return; }
      BDD r = A(4) & 1 ? objs[i].b->Reduce(*objs[j].b) : k.Reduce(*objs[i].b, *objs[j].b); if (r.IsNull()) { if (m.limit <= 0) failf("reduce: null"); return; }
      TT t = eval(r, m); if ((t & cs) != (f & cs)) failf("reduce: differs inside the care set"); put(std::move(r), t, mg, w); return; }
    if (n == "BETWEEN") { int i = pick(A(1), mg), j = pick(A(2), mg); if (i < 0) return; BDD lo = *objs[i].b & *objs[j].b, hi = *objs[i].b | *objs[j].b; if (lo.IsNull() || hi.IsNull()) return; TT a = objs[i].t & objs[j].t, b = objs[i].t | objs[j].t; BDD r = k.Between(lo, hi); if (r.IsNull()) { if (m.limit <= 0) failf("between: null"); return; } TT t = eval(r, m); if (!a.implies(t) || !t.implies(b)) failf("between: outside the bounds"); put(std::move(r), t, mg, w); return; }
    if (n == "SAT") { int i = pick(A(1), mg); if (i < 0 || objs[i].t.isZero()) return; BDD r = A(2) & 1 ? objs[i].b->Satisfy() : k.Satisfy(*objs[i].b); if (r.IsNull()) { if (m.limit <= 0) failf("satisfy: null"); return; } TT t = eval(r, m); if (t.isZero() || !t.implies(objs[i].t) || !r.IsCube()) failf("satisfy: not a cube of the function"); put(std::move(r), t, mg, w); return; }
    if (n[0] == 'M' || n[0] == 'P') { // MAND MOR MXOR PAND POR PXOR: variant, operands
      if (n != "MAND" && n != "MOR" && n != "MXOR" && n != "PAND" && n != "POR" && n != "PXOR") failf("harness: unknown operation %s", w);
      vector<long> xs = tail(2); long var_ = A(1); vector<TT> ts;
      if ((var_ / 2) % 4 == 3 && m.nv) { // identifiers
        vector<int> ids; for (long x : xs) { int v = (int)(absl(x) % m.nv); ids.push_back(v + 1); ts.push_back(var(v)); }
        if (n[0] == 'P' && ids.size() % 2) { ids.pop_back(); ts.pop_back(); } if (n[0] == 'P' && ids.empty()) return;
        if ((var_ / 8) & 1) { std::list<int> l(ids.begin(), ids.end()); listOp(n, m, mg, l, ts, var_); } else listOp(n, m, mg, ids, ts, var_);
        st.inc("id_lists"); return; }
      vector<BDD> l; for (long x : xs) { int i = pick(x, mg); if (i < 0) break; l.push_back(*objs[i].b); ts.push_back(objs[i].t); }
      if (n[0] == 'P' && l.size() % 2) { l.pop_back(); ts.pop_back(); } if (n[0] == 'P' && l.empty()) return;
      switch ((var_ / 2) % 4) { case 0: listOp(n, m, mg, l, ts, var_); break; case 1: { std::list<BDD> q(l.begin(), l.end()); l.clear(); listOp(n, m, mg, q, ts, var_); break; } default: { std::deque<BDD> q(l.begin(), l.end()); listOp(n, m, mg, q, ts, var_); } }
      return; }
    if (n == "QUANT") { // kind, variant, operand f, operand g, variables
      if (!m.nv) return; int i = pick(A(3), mg), j = pick(A(4), mg); if (i < 0) return; std::set<int> vs; for (long x : tail(5)) vs.insert((int)(absl(x) % m.nv)); vector<int> vv(vs.begin(), vs.end());
      vector<int> ids; vector<BDD> bs; for (int v : vv) { ids.push_back(v + 1); bs.push_back(k.Id(v + 1)); }
      int variant = (int)(A(2) % 6), as = -1, prev = -2;
      switch (variant) {
        case 0: as = k.AssociationInit(bs.begin(), bs.end()); break;
        case 1: as = k.AssociationInit(ids.begin(), ids.end()); break;
        case 2: k.TempAssociationInit(bs.begin(), bs.end()); m.temp = true; break;
        case 3: k.TempAssociationInit(ids.begin(), ids.end()); m.temp = true; break;
        default: { size_t h = vv.size() / 2; k.TempAssociationInit(bs.begin(), bs.begin() + h); if (variant == 4) k.TempAssociationAugment(bs.begin() + h, bs.end()); else k.TempAssociationAugment(ids.begin() + h, ids.end()); m.temp = true; }
      }
      prev = k.AssociationSetCurrent(as); (void)prev; TT f = objs[i].t, g = objs[j].t; BDD &F = *objs[i].b, &G = *objs[j].b;
      switch (A(1) % 4) { case 0: put(k.Exists(F), quant(f, vv, true), mg, w); break;
        case 3: { if (f.isZero()) break; BDD r = variant & 1 ? F.SatisfySupport() : k.SatisfySupport(F); if (r.IsNull()) { if (m.limit <= 0) failf("satisfysupport: null"); break; } TT t = eval(r, m); if (t.isZero() || !t.implies(f) || !r.IsCube()) failf("satisfysupport: not a cube of the function"); for (int v : vv) if (!t.dependsOn(v)) failf("satisfysupport: an associated variable is missing"); st.inc("satsups"); break; } case 1: put(k.ForAll(F), quant(f, vv, false), mg, w); break; default: put(k.RelProd(F, G), quant(f & g, vv, true), mg, w); }
      int cur = k.AssociationSetCurrent(-1); if (cur != as) failf("association: current is %d, expected %d", cur, as);
      if (as >= 0) k.AssociationQuit(as); else if (A(2) & 8) { k.TempAssociationQuit(); m.temp = false; }
      st.inc("quants"); if (vv.size()) st.inc("quants_real"); return; }
    if (n == "SUBST") { // variant, operand, (variable, operand)...
      if (!m.nv) return; int i = pick(A(2), mg); if (i < 0) return; std::map<int, int> mp; auto t = tail(3); for (size_t q = 0; q + 1 < t.size(); q += 2) { int y = pick(t[q + 1], mg); if (y >= 0) mp[(int)(absl(t[q]) % m.nv)] = y; }
      if (mp.empty()) return; bool varsOnly = A(1) & 1; vector<BDD> l; vector<int> ids; vector<TT> keep(NV); vector<const TT *> s(NV, nullptr);
      for (auto &p : mp) { l.push_back(k.Id(p.first + 1)); ids.push_back(p.first + 1); if (varsOnly) { int v = p.second % m.nv; l.push_back(k.Id(v + 1)); ids.push_back(v + 1); keep[p.first] = var(v); } else { l.push_back(*objs[p.second].b); keep[p.first] = objs[p.second].t; } s[p.first] = &keep[p.first]; }
      bool tmp = A(1) & 2; int as = -1; bool useIds = varsOnly && (A(1) & 4);
      if (tmp) { if (useIds) k.TempAssociationInit(ids.begin(), ids.end(), true); else k.TempAssociationInit(l.begin(), l.end(), true); m.temp = true; } else as = useIds ? k.AssociationInit(ids.begin(), ids.end(), true) : k.AssociationInit(l.begin(), l.end(), true);
      l.clear(); k.AssociationSetCurrent(as);
      if (A(1) & 8) k.GC(); // only the association holds the values now
      BDD &F = *objs[i].b; TT r = objs[i].t.subst(s); put(varsOnly && (A(1) & 16) ? k.VarSubstitute(F) : k.Substitute(F), r, mg, w);
      k.AssociationSetCurrent(-1); if (as >= 0) k.AssociationQuit(as);
      st.inc("substs"); return; }
    if (n == "KEEPASSOC") { // an association outlives the objects it was made from
      if (m.keptAssoc >= 0) { k.AssociationQuit(m.keptAssoc); m.keptAssoc = -1; m.keptMap.clear(); return; }
      if (!m.nv) return; vector<BDD> l; std::set<int> seen; auto t = tail(1); m.keptMap.clear();
      for (size_t q = 0; q + 1 < t.size(); q += 2) { int v = (int)(absl(t[q]) % m.nv), y = pick(t[q + 1], mg); if (y < 0 || !seen.insert(v).second) continue; l.push_back(k.Id(v + 1)); l.push_back(*objs[y].b); m.keptMap.push_back({v, objs[y].t}); }
      if (l.empty()) return; m.keptAssoc = k.AssociationInit(l.begin(), l.end(), true); st.inc("kept_assocs"); return; }
    if (n == "USEASSOC") { if (m.keptAssoc < 0) return; int i = pick(A(1), mg); if (i < 0) return; vector<const TT *> s(NV, nullptr); for (auto &p : m.keptMap) s[p.first] = &p.second; k.AssociationSetCurrent(m.keptAssoc); put(k.Substitute(*objs[i].b), objs[i].t.subst(s), mg, w); k.AssociationSetCurrent(-1); st.inc("kept_assoc_uses"); return; }
    if (n == "QUERY") { int i = pick(A(1), mg); if (i < 0) return; query(objs[i], m, mg); return; }
    if (n == "COMPARE") { vector<int> is; for (long x : tail(2)) { int i = pick(x, mg); if (i >= 0 && usable(m, objs[i].t)) is.push_back(i); } if (is.empty()) return; mirror(is, m, A(1)); return; }
    if (n == "VECTOR") { // containers: growth, insertion, removal, rotation, sorting by size
      vector<BDD> v; vector<TT> t; vector<int> mgs; for (long x : tail(1)) { int i = pick(x, mg); if (i < 0) break; v.push_back(*objs[i].b); t.push_back(objs[i].t); if (x % 3 == 0) { v.insert(v.begin(), *objs[i].b); t.insert(t.begin(), objs[i].t); } if (x % 5 == 0 && v.size() > 1) { v.erase(v.begin() + 1); t.erase(t.begin() + 1); } if (x % 7 == 0) { std::rotate(v.begin(), v.begin() + v.size() / 2, v.end()); std::rotate(t.begin(), t.begin() + t.size() / 2, t.end()); } if (x % 11 == 0) { vector<BDD> u(v); v = u; v = std::move(u); } if (x % 13 == 0) { std::reverse(v.begin(), v.end()); std::reverse(t.begin(), t.end()); } }
      if (v.empty()) return; k.GC(); for (size_t q = 0; q < v.size(); q++) if (eval(v[q], m) != t[q]) failf("vector: an element changed");
      std::map<int, BDD> mp; for (size_t q = 0; q < v.size(); q++) mp[(int)(q % 3)] = v[q]; for (auto &p : mp) { size_t q = p.first; while (q + 3 < v.size()) q += 3; if (p.second != v[q]) failf("map: an element changed"); }
      st.inc("containers"); return; }
    if (n == "NOP") return;
    failf("harness: unknown operation %s", w);
  }
  void run() {
    calVerifMinGCLimit = c.get("gclim", 10000); calVerifGCCheck = (int)c.get("gcchk", 100); calVerifLargeBdd = 1ul << 19;
    { int nm = (int)c.get("mgrs", 1);
      for (int i = 0; i < nm; i++) { ms.emplace_back(); M &m = ms.back(); int nv = (int)c.get("nv", 4); m.cm = Cal_BddManagerInit(); if (c.get("ctor", 0)) { m.cal.reset(new Cal((unsigned)nv)); if (m.cal->Vars() != nv) failf("constructor: %ld variables, expected %d", m.cal->Vars(), nv); for (int v = 0; v < nv; v++) { m.cv.push_back(Cal_BddManagerCreateNewVarLast(m.cm)); m.tvOfId.push_back(m.nv++); } } else { m.cal.reset(new Cal()); for (int v = 0; v < nv; v++) newVar(m, (int)((c.get("vorder", 5) >> (2 * v)) & 3), v * 7); } }
      for (size_t i = 0; i < c.ops.size(); i++) { if (getenv("PBT_TRACE")) { fprintf(stderr, "%zu %s", i, c.ops[i].name.c_str()); for (long x : c.ops[i].a) fprintf(stderr, " %ld", x); fprintf(stderr, "\n"); } step(c.ops[i]); st.inc("ops"); if (i % 5 == 4) refcounts("step"); }
      for (auto &m : ms) { m.cal->NodeLimit(0); m.limit = 0; m.cal->SetGCMode(true); m.cal->Overflow(); }
      checkAll("end");
      if (c.get("early", 0) && !objs.empty()) { objs.resize(objs.size() / 2); for (auto &m : ms) m.cal->GC(); checkAll("half destroyed"); }
      // every object gone: everything is collectable
      if (c.get("rev", 0)) while (!objs.empty()) objs.pop_back(); else objs.clear();
      for (auto &m : ms) { if (m.keptAssoc >= 0) m.cal->AssociationQuit(m.keptAssoc); if (m.temp) m.cal->TempAssociationQuit(); m.cal->GC(); unsigned long n = m.cal->Nodes(); if (n != (unsigned long)m.nv + 1) failf("leak: %lu nodes remain after all objects were destroyed, expected %d", n, m.nv + 1); st.inc("balance_checks"); }
      for (auto &m : ms) Cal_BddManagerQuit(m.cm);
      ms.clear(); }
  }
};
void execCase(const Case &c, Stats &st) { Env *e = new Env(c, st); MemCount a = memOutstanding(); e->run(); MemCount b = memOutstanding(); if (a.blocks != b.blocks) failf("leak: %ld blocks of memory remain after the managers were quit", b.blocks - a.blocks); delete e; }
void harnessInit() {}

static Case gen(Rng &r, bool th) {
  Case c; c.cfg["nv"] = r.chance(10) ? r.range(0, 2) : r.range(3, NV); c.cfg["ctor"] = r.range(0, 1); c.cfg["vorder"] = r.range(0, 4095); c.cfg["mgrs"] = r.chance(75) ? 1 : 2; c.cfg["rev"] = r.range(0, 1); c.cfg["early"] = r.range(0, 1); c.cfg["noreorder"] = r.chance(70);
  if (r.chance(60)) { c.cfg["gcchk"] = r.range(1, 10); c.cfg["gclim"] = r.range(1, 60); }
  struct W { const char *n; int w, lo, hi; };
  static const W mix[] = {{"FUNC", 6, 3, 3}, {"VAR", 3, 3, 3}, {"CONST", 2, 2, 2}, {"COPY", 6, 3, 3}, {"MOVE", 4, 2, 2}, {"ASSIGN", 6, 3, 3}, {"MASSIGN", 4, 3, 3}, {"SWAPOBJ", 3, 3, 3}, {"DESTROY", 8, 2, 2}, {"GC", 4, 1, 1}, {"CHECK", 3, 1, 1}, {"NEWVAR", 1, 3, 3}, {"REORDER", 1, 3, 3}, {"PARAMS", 1, 4, 4}, {"LIMIT", 1, 3, 3}, {"GCMODE", 1, 2, 2}, {"MOVECAL", 1, 1, 1}, {"STATS", 1, 1, 1},
    {"NOT", 5, 4, 4}, {"BIN", 20, 5, 5}, {"WITNESS", 3, 5, 5}, {"ITE", 4, 5, 5}, {"COMPOSE", 3, 5, 5}, {"SWAPVARS", 3, 5, 5}, {"COF", 4, 5, 5}, {"BETWEEN", 2, 3, 3}, {"SAT", 3, 3, 3}, {"MAND", 2, 2, 9}, {"MOR", 2, 2, 9}, {"MXOR", 2, 2, 9}, {"PAND", 2, 4, 10}, {"POR", 2, 4, 10}, {"PXOR", 2, 4, 10}, {"QUANT", 6, 6, 9}, {"SUBST", 5, 5, 9}, {"KEEPASSOC", 2, 3, 7}, {"USEASSOC", 3, 2, 2}, {"QUERY", 6, 2, 2}, {"COMPARE", 6, 3, 6}, {"VECTOR", 3, 3, 10}};
  int tot = 0; for (auto &w : mix) tot += w.w;
  int n = r.range(10, th ? 120 : 70);
  for (int i = 0; i < 4; i++) { Op o; o.name = "FUNC"; o.a = {i % 2, r.range(0, 999999), r.range(0, 1)}; c.ops.push_back(o); }
  for (int i = 0; i < n; i++) { int x = r.range(0, tot - 1); const W *s = mix; while (x >= s->w) { x -= s->w; s++; } Op o; o.name = s->n; int k = r.range(s->lo, s->hi); for (int q = 0; q < k; q++) o.a.push_back(r.range(0, 65535)); if (o.name == "FUNC") { o.a[1] = r.range(0, 999999); } c.ops.push_back(o); }
  return c;
}
vector<PropDef> &properties() {
  static vector<PropDef> p = {{"C19", gen, [](const Stats &s, const Case &) { return s.get("evals_nonconst") >= 5 && s.get("copies") + s.get("moves") + s.get("assigns") >= 2 && s.get("balance_checks") >= 1; }, "at least 5 non-constant results of the C++ interface compared with the truth-table model, at least 2 copies/moves/assignments, and the reference balance checked after the last object was destroyed", {12000, 45}, {200000, 600}, 24, 20}};
  return p;
}
