// Large functions: the C interface against a small reference implementation of reduced ordered
// diagrams (complement edges, same variable order), so that functions of dozens of variables
// and tens of thousands of nodes are compared exactly.
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdlib>
#include <memory>
#include <functional>
#include <unordered_map>
#include <unordered_set>
#include "frame.h"
extern "C" {
#include "cal.h"
extern long calVerifMinGCLimit; extern int calVerifGCCheck; extern unsigned long calVerifLargeBdd; extern int calVerifCacheIndex;
}
using std::string; using std::vector;
void memSegLimit(long bytes);
struct MemCount { long blocks, bytes; };
MemCount memOutstanding();
void rawFree(void *p);

[[noreturn]] static void failf(const char *fmt, ...) { char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); throw Fail{b}; }

// ---- reference diagrams ----------------------------------------------------
typedef uint32_t E; // node number * 2 + negated; 0 is true, 1 is false
struct Full {};
struct Ref {
  struct N { int lv; E hi, lo; };
  struct C { E a, b, c, r; };
  vector<N> nd; vector<uint32_t> tab; vector<C> cache; size_t limit = SIZE_MAX;
  Ref() : tab(1 << 12, 0), cache(1 << 15, C{UINT32_MAX, 0, 0, 0}) { nd.push_back({INT_MAX, 0, 0}); }
  static uint64_t h3(uint64_t a, uint64_t b, uint64_t c) { uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15) * 0xBF58476D1CE4E5B9ull ^ (c + 77) * 0x94D049BB133111EBull; return z ^ (z >> 29); }
  int lv(E e) const { return nd[e >> 1].lv; }
  E hi(E e, int l) const { return nd[e >> 1].lv == l ? nd[e >> 1].hi ^ (e & 1) : e; }
  E lo(E e, int l) const { return nd[e >> 1].lv == l ? nd[e >> 1].lo ^ (e & 1) : e; }
  E mk(int l, E h, E o) {
    if (h == o) return h;
    E neg = h & 1; h ^= neg; o ^= neg;
    size_t m = tab.size() - 1, i = h3(l, h, o) & m;
    for (; tab[i]; i = (i + 1) & m) { const N &n = nd[tab[i]]; if (n.lv == l && n.hi == h && n.lo == o) return tab[i] * 2 + neg; }
    if (nd.size() >= limit) throw Full();
    uint32_t k = nd.size(); nd.push_back({l, h, o}); tab[i] = k;
    if (nd.size() * 2 > tab.size()) { vector<uint32_t> t(tab.size() * 2, 0); m = t.size() - 1; for (uint32_t q = 1; q < nd.size(); q++) { size_t j = h3(nd[q].lv, nd[q].hi, nd[q].lo) & m; while (t[j]) j = (j + 1) & m; t[j] = q; } tab.swap(t); if (cache.size() < tab.size() && cache.size() < (1u << 20)) cache.assign(cache.size() * 2, C{UINT32_MAX, 0, 0, 0}); }
    return k * 2 + neg;
  }
  E var(int l) { return mk(l, 0, 1); }
  E ite(E f, E g, E h) {
    if (f == 0) return g;
    if (f == 1) return h;
    if (g == h) return g;
    if (g == f) g = 0; else if (g == (f ^ 1)) g = 1;
    if (h == f) h = 1; else if (h == (f ^ 1)) h = 0;
    if (g == h) return g;
    if (g == 0 && h == 1) return f;
    if (g == 1 && h == 0) return f ^ 1;
    if (f & 1) { f ^= 1; std::swap(g, h); }
    E neg = g & 1; g ^= neg; h ^= neg;
    size_t ci = h3(f, g, h) & (cache.size() - 1);
    if (cache[ci].a == f && cache[ci].b == g && cache[ci].c == h) return cache[ci].r ^ neg;
    int l = std::min(lv(f), std::min(lv(g), lv(h)));
    E a = ite(hi(f, l), hi(g, l), hi(h, l)), b = ite(lo(f, l), lo(g, l), lo(h, l));
    E r = mk(l, a, b);
    ci = h3(f, g, h) & (cache.size() - 1); cache[ci] = {f, g, h, r};
    return r ^ neg;
  }
  // per level: nodes told apart by polarity, and subfunctions left after restricting everything above; constants last
  void shape(const vector<E> &roots, int nv, vector<long> &pos, vector<long> &func) const {
    pos.assign(nv + 1, 0); func.assign(nv + 1, 0);
    vector<std::set<E>> at(nv + 1); long pending = 0;
    auto put = [&](E e) { int l = (e >> 1) ? lv(e) : nv; if (at[l].insert(e).second) pending++; };
    for (E e : roots) put(e);
    for (int l = 0; l <= nv; l++) { pos[l] = at[l].size(); if (pos[l]) func[l] = pending; pending -= pos[l]; if (l < nv) for (E e : at[l]) { put(hi(e, l)); put(lo(e, l)); } } }
  E And(E a, E b) { return ite(a, b, 1); }
  E Or(E a, E b) { return ite(a, 0, b); }
  E Xor(E a, E b) { return ite(a, b ^ 1, b); }
  E exists(E f, const vector<char> &q, std::unordered_map<E, E> &memo) {
    if (f < 2) return f;
    auto i = memo.find(f); if (i != memo.end()) return i->second;
    int l = lv(f); E a = exists(hi(f, l), q, memo), b = exists(lo(f, l), q, memo), r = q[l] ? Or(a, b) : mk(l, a, b);
    memo[f] = r; return r;
  }
  // pairs of subfunctions a conjunction meets (a bound on the work of a relational product), counted up to cap
  size_t pairs(E f, E g, size_t cap) {
    std::unordered_set<uint64_t> seen; vector<std::pair<E, E>> st{{f, g}};
    while (!st.empty() && seen.size() < cap) { auto [a, b] = st.back(); st.pop_back(); if (a > b) std::swap(a, b); if (a < 2 || a == b || a == (b ^ 1) || !seen.insert((uint64_t)a << 32 | b).second) continue;
      int l = std::min(lv(a), lv(b)); st.push_back({hi(a, l), hi(b, l)}); st.push_back({lo(a, l), lo(b, l)}); }
    return seen.size(); }
  E subst(E f, const vector<E> &s, std::unordered_map<E, E> &memo) {
    if (f < 2) return f;
    if (f & 1) return subst(f ^ 1, s, memo) ^ 1;
    auto i = memo.find(f); if (i != memo.end()) return i->second;
    int l = lv(f); E a = subst(hi(f, l), s, memo), b = subst(lo(f, l), s, memo), r = ite(s[l], a, b);
    memo[f] = r; return r;
  }
  E constrain(E f, E c, std::unordered_map<uint64_t, E> &memo) {
    if (c == 0 || f < 2) return f;
    if (f == c) return 0;
    if (f == (c ^ 1)) return 1;
    uint64_t key = (uint64_t)f << 32 | c; auto i = memo.find(key); if (i != memo.end()) return i->second;
    int l = std::min(lv(f), lv(c)); E r, c1 = hi(c, l), c0 = lo(c, l);
    if (c1 == 1) r = constrain(lo(f, l), c0, memo); else if (c0 == 1) r = constrain(hi(f, l), c1, memo);
    else r = mk(l, constrain(hi(f, l), c1, memo), constrain(lo(f, l), c0, memo));
    memo[key] = r; return r;
  }
  void reach(E f, vector<char> &seen, vector<uint32_t> &out) const { vector<uint32_t> st{f >> 1}; while (!st.empty()) { uint32_t k = st.back(); st.pop_back(); if (seen.size() <= k) seen.resize(nd.size(), 0); if (seen[k]) continue; seen[k] = 1; out.push_back(k); if (k) { st.push_back(nd[k].hi >> 1); st.push_back(nd[k].lo >> 1); } } }
  vector<uint32_t> reach(E f) const { vector<char> s; vector<uint32_t> o; reach(f, s, o); return o; }
  size_t size(E f) const { return reach(f).size(); } // constant included
  double frac(E f, std::unordered_map<uint32_t, double> &memo) const {
    if (f < 2) return f == 0;
    auto i = memo.find(f >> 1); double d;
    if (i != memo.end()) d = i->second; else { d = 0.5 * frac(nd[f >> 1].hi, memo) + 0.5 * frac(nd[f >> 1].lo, memo); memo[f >> 1] = d; }
    return f & 1 ? 1 - d : d;
  }
  double paths(E f, std::unordered_map<uint32_t, double> &memo) const { if (f < 2) return 1; auto i = memo.find(f >> 1); if (i != memo.end()) return i->second; double d = paths(nd[f >> 1].hi, memo) + paths(nd[f >> 1].lo, memo); memo[f >> 1] = d; return d; }
  E transfer(const Ref &o, E f, const vector<int> &lvmap, std::unordered_map<uint32_t, E> &memo) {
    if (f < 2) return f;
    auto i = memo.find(f >> 1); E r;
    if (i != memo.end()) r = i->second; else { const N n = o.nd[f >> 1]; E a = transfer(o, n.hi, lvmap, memo), b = transfer(o, n.lo, lvmap, memo); r = ite(var(lvmap[n.lv]), a, b); memo[f >> 1] = r; }
    return r ^ (f & 1);
  }
};

// ---- a manager and its model -----------------------------------------------
struct Slot { Cal_Bdd b; E e; };
struct Assoc { int id; vector<int> vars; };
struct Over {};
static Cal_Bdd reg(Cal_Bdd b) { return (Cal_Bdd)((uintptr_t)b & ~(uintptr_t)1); }

struct Wide {
  const Case &c; Stats &st; Cal_BddManager m; std::unique_ptr<Ref> R;
  vector<Cal_Bdd> var; vector<long> id; std::unordered_map<long, int> idVar; vector<int> order, level; // order: level -> variable
  vector<Slot> sl; vector<Assoc> as; long cap; int tech = 0; long limit = 0; long work = 0; bool quit = false;
  Wide(const Case &c, Stats &st) : c(c), st(st) {
    m = Cal_BddManagerInit(); R.reset(new Ref()); cap = c.get("cap", 3000);
    int n = (int)c.get("nv", 16); Rng r(c.get("vseed", 1));
    // thousands of variables: created in plain order, except for the last few
    for (int i = 0; i < n - 1000; i++) { Cal_Bdd b = Cal_BddManagerCreateNewVarLast(m); long x = Cal_BddGetIfId(m, b); if (!idVar.emplace(x, i).second) failf("new variable: identifier %ld is in use", x); var.push_back(b); id.push_back(x); order.push_back(i); level.push_back(i); }
    while (nv() < n) { bool quick = nv() < n - 20 && n > 700; newVar((int)(c.get("vorder", 0) ? r.range(0, 3) : 1), (int)r.range(0, 65535), quick); }
    if (n > 700) checkOrder("new variables");
    tech = (int)c.get("tech", 0); if (c.cfg.count("tech")) Cal_BddDynamicReordering(m, tech, (int)c.get("meth", 1));
    if (c.cfg.count("thr") || c.cfg.count("repa")) Cal_BddManagerSetParameters(m, c.get("thr", 5000), c.get("fwd", 50000), c.get("repa", 75) / 100.0, c.get("tblr", 90) / 100.0);
    if (c.get("gcmode", 1) == 0) Cal_BddSetGCMode(m, 0);
  }
  int nv() const { return (int)var.size(); }
  void newVar(int kind, int ref, bool quick = false) {
    if (var.empty()) kind &= 1;
    int rv = var.empty() ? 0 : ref % nv(); Cal_Bdd b = kind == 0 ? Cal_BddManagerCreateNewVarFirst(m) : kind == 1 ? Cal_BddManagerCreateNewVarLast(m) : kind == 2 ? Cal_BddManagerCreateNewVarBefore(m, var[rv]) : Cal_BddManagerCreateNewVarAfter(m, var[rv]);
    int pos = kind == 0 ? 0 : kind == 1 ? nv() : kind == 2 ? level[rv] : level[rv] + 1;
    long i = Cal_BddGetIfId(m, b); if (idVar.count(i)) failf("new variable: identifier %ld is in use", i);
    var.push_back(b); id.push_back(i); idVar[i] = nv() - 1;
    vector<int> o = order; o.insert(o.begin() + pos, nv() - 1); setOrder(o);
    if (tech == 0 && !quick) checkOrder("new variable");
  }
  void setOrder(const vector<int> &o) { // move the model to another order
    vector<int> lvmap(order.size()); vector<int> nl(o.size()); for (size_t i = 0; i < o.size(); i++) nl[o[i]] = (int)i;
    for (size_t i = 0; i < order.size(); i++) lvmap[i] = nl[order[i]];
    std::unique_ptr<Ref> S(new Ref()); std::unordered_map<uint32_t, E> memo;
    for (auto &s : sl) s.e = S->transfer(*R, s.e, lvmap, memo);
    R.swap(S); order = o; level = nl;
  }
  vector<int> libOrder(const char *why) {
    vector<int> o(nv(), -1);
    for (int v = 0; v < nv(); v++) { long x = Cal_BddGetIfIndex(m, var[v]); if (x < 0 || x >= nv() || o[x] >= 0) failf("%s: the order is not a permutation of the variables", why); if (Cal_BddGetIfId(m, var[v]) != id[v]) failf("%s: a variable changed its identifier", why); o[x] = v; }
    return o;
  }
  void checkOrder(const char *why) { if (libOrder(why) != order) failf("%s: unexpected variable order", why); }
  void sync(const char *why) { vector<int> o = libOrder(why); if (o != order) { if (tech == 0 && why[0] != 'R') failf("%s: the order changed without reordering", why); setOrder(o); st.inc("order_changed"); } }
  void drop(Cal_Bdd b) { Cal_BddFree(m, b); }
  // reads a set of diagrams back
  struct Reader { Wide &w; std::unordered_map<Cal_Bdd, E> memo; vector<Cal_Bdd> held; const char *what;
    Reader(Wide &w, const char *what) : w(w), what(what) {}
    ~Reader() { for (auto b : held) w.drop(b); }
    E go(Cal_Bdd b) {
      if (!b) failf("%s: null inside a diagram", what);
      if (Cal_BddIsBddOne(w.m, b)) return 0;
      if (Cal_BddIsBddZero(w.m, b)) return 1;
      Cal_Bdd r = reg(b); auto i = memo.find(r); E e;
      if (i != memo.end()) e = i->second;
      else {
        long vid = Cal_BddGetIfId(w.m, r); auto iv = w.idVar.find(vid); if (iv == w.idVar.end()) failf("%s: node with unknown variable", what);
        int l = w.level[iv->second]; if (Cal_BddGetIfIndex(w.m, r) != l) failf("%s: node index differs from the index of its variable", what);
        Cal_Bdd t = Cal_BddThen(w.m, r), o = Cal_BddElse(w.m, r); held.push_back(t); held.push_back(o);
        E a = go(t), d = go(o);
        if (a == d) failf("%s: node with equal cofactors", what);
        if (std::min(w.R->lv(a), w.R->lv(d)) <= l) failf("%s: a node's child does not come later in the order", what);
        e = w.R->mk(l, a, d); memo.emplace(r, e);
      }
      return r == b ? e : e ^ 1;
    } };
  void expect(Cal_Bdd b, E e, const char *what) {
    size_t keep = R->limit; R->limit = SIZE_MAX; size_t n;
    { Reader rd(*this, what); E g = rd.go(b); if (g != e) failf("%s: wrong function (%zu nodes read, %zu expected)", what, R->size(g), R->size(e)); n = rd.memo.size(); }
    R->limit = keep; work += (long)n; st.inc("checked"); if (n >= 1000) st.inc("big_results"); if (n >= 10000) st.inc("huge_results"); st.inc("nodes_compared", (long)n);
  }
  void canon(Cal_Bdd b, E e, const char *what) { for (auto &s : sl) { if ((s.b == b) != (s.e == e)) failf("%s: equality of handles and of functions differ", what); if ((reg(s.b) == reg(b)) != (s.e >> 1 == e >> 1)) failf("%s: a function and its complement do not share a node", what); if (!!Cal_BddIsEqual(m, s.b, b) != (s.e == e)) failf("%s: Cal_BddIsEqual is wrong", what); } }
  void manyPaths(E e) { if (!c.get("paths", 0)) return; std::unordered_map<uint32_t, double> memo; if (R->paths(e, memo) >= 1e12) st.inc("many_paths"); }
  void put(Cal_Bdd b, E e, const char *what) {
    manyPaths(e);
    if (tech) sync2(what, e);
    if (!b) { nullOk(what); return; }
    canon(b, e, what); sl.push_back({b, e});
    expect(b, e, what);
    while (sl.size() > (size_t)c.get("slots", 12)) { size_t k = (size_t)(sl.size() / 2); drop(sl[k].b); sl.erase(sl.begin() + k); }
  }
  // the order may have changed during an operation: the pending result moves along
  void sync2(const char *what, E &e) { sl.push_back({nullptr, e}); sync(what); e = sl.back().e; sl.pop_back(); }
  bool nullOk(const char *what) { if (limit > 0 && Cal_BddOverflow(m)) { if (Cal_BddOverflow(m)) failf("%s: overflow report not cleared by the query", what); st.inc("overflows"); return true; } failf("%s: null result for valid operands%s", what, limit ? " and no overflow reported" : ""); }
  void checkAll(const char *why) {
    if (tech) sync(why);
    checkOrder(why);
    Reader rd(*this, why); size_t keep = R->limit; R->limit = SIZE_MAX;
    for (auto &s : sl) if (rd.go(s.b) != s.e) failf("%s: a live handle denotes another function", why);
    R->limit = keep; work += (long)rd.memo.size(); st.inc("full_checks"); if (rd.memo.size() > 1000) st.inc("full_checks_big");
    for (size_t i = 0; i < sl.size(); i++) for (size_t j = 0; j < i; j++) if ((sl[i].b == sl[j].b) != (sl[i].e == sl[j].e)) failf("%s: equality of handles and of functions differ", why);
  }
  // ---- operands and dual operations
  struct H { Wide *w = nullptr; Cal_Bdd b = nullptr; E e = 0; H() {} H(Wide *w, Cal_Bdd b, E e) : w(w), b(b), e(e) {} H(const H &o) : w(o.w), b(o.b), e(o.e) { if (w && b) Cal_BddUnFree(w->m, b); } H &operator=(H o) { std::swap(w, o.w); std::swap(b, o.b); std::swap(e, o.e); return *this; } ~H() { if (w && b) w->drop(b); } };
  Slot arg(long a) { // borrowed
    if (sl.empty() || a % 8 == 5) { int v = (int)(a / 8 % nv()); return {var[v], R->var(level[v])}; }
    return sl[(size_t)(a / 8) % sl.size()];
  }
  struct Negated { Wide &w; Slot s; bool own = false; Negated(Wide &w, long a) : w(w), s(w.arg(a)) { if (a % 8 == 7) { s.b = Cal_BddNot(w.m, s.b); s.e ^= 1; own = true; } } ~Negated() { if (own) w.drop(s.b); } };
  H lit(int v, bool neg) { Cal_Bdd b = neg ? Cal_BddNot(m, var[v]) : Cal_BddIdentity(m, var[v]); return H(this, b, R->var(level[v]) ^ (neg ? 1 : 0)); }
  H konst(bool v) { return H(this, v ? Cal_BddOne(m) : Cal_BddZero(m), v ? 0 : 1); }
  H wrap(Cal_Bdd b, E e) { if (!b) { nullOk("building"); throw Over(); } if (tech && libOrder("building") != order) throw Over2(b, this); return H(this, b, e); }
  struct Over2 { Over2(Cal_Bdd b, Wide *w) { w->drop(b); } };
  H AND(const H &a, const H &b) { E e = R->And(a.e, b.e); return wrap(Cal_BddAnd(m, a.b, b.b), e); }
  H OR(const H &a, const H &b) { E e = R->Or(a.e, b.e); return wrap(Cal_BddOr(m, a.b, b.b), e); }
  H XOR(const H &a, const H &b) { E e = R->Xor(a.e, b.e); return wrap(Cal_BddXor(m, a.b, b.b), e); }
  H ITE(const H &a, const H &b, const H &d) { E e = R->ite(a.e, b.e, d.e); return wrap(Cal_BddITE(m, a.b, b.b, d.b), e); }
  H NOT(const H &a) { return wrap(Cal_BddNot(m, a.b), a.e ^ 1); }
  H family(int kind, long seed, int k) {
    Rng r((uint64_t)seed * 31 + kind); int n = nv(); vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i;
    int lay = (int)r.range(0, 2); // as created, order of the manager, shuffled
    if (lay == 1) p = order; else if (lay == 2) for (int i = n; i > 1; i--) std::swap(p[i - 1], p[r.range(0, i - 1)]);
    bool inter = r.chance(50); int deep = (int)c.get("deep", 0); if (deep) { inter = false; p = order; std::rotate(p.begin(), p.begin() + 1, p.end()); if (kind != 0) kind = 1; }
    auto A = [&](int i, int k) { return p[(inter ? 2 * i : i) % n]; }; auto B = [&](int i, int k) { return p[(inter ? 2 * i + 1 : k + i) % n]; };
    switch (kind % 9) {
    case 0: { // carry or sum bit of an adder
      k = std::max(1, std::min(k, inter ? n / 2 : std::min(n / 2, deep ? deep : 11))); H cy = konst(false), s = konst(false);
      for (int i = 0; i < k; i++) { H a = lit(A(i, k), false), b = lit(B(i, k), false), x = XOR(a, b); s = XOR(x, cy); cy = ITE(x, cy, a); }
      if (deep) return ITE(lit(order[0], false), cy, s); return r.chance(50) ? s : cy; }
    case 1: { k = std::max(1, std::min(k, inter ? n / 2 : std::min(n / 2, deep ? deep : 12))); H e = konst(true); bool lt = r.chance(40);
      for (int i = 0; i < k; i++) { H a = lit(A(i, k), false), b = lit(B(i, k), r.chance(20)), x = XOR(a, b); e = lt ? ITE(x, b, e) : AND(e, NOT(x)); }
      if (deep) { H g = konst(true); for (int i = 0, z = (int)r.range(8, 13); i < z; i++) g = AND(g, XOR(lit(A(i, k), false), lit(B(i, k), true))); e = ITE(lit(order[0], false), e, g); }
      return e; }
    case 2: { // hidden weighted bit
      k = std::max(2, std::min(k, std::min(n, 16))); vector<H> cnt(k + 1); cnt[0] = konst(true); for (int j = 1; j <= k; j++) cnt[j] = konst(false);
      for (int i = 0; i < k; i++) { H x = lit(p[i], false); for (int j = i + 1; j >= 1; j--) cnt[j] = ITE(x, cnt[j - 1], cnt[j]); cnt[0] = AND(cnt[0], NOT(x)); }
      H f = konst(false); for (int j = 1; j <= k; j++) f = OR(f, AND(cnt[j], lit(p[j - 1], false))); return f; }
    case 3: { // bit of a product
      k = std::max(2, std::min(k, std::min(n / 2, 8))); vector<H> s(2 * k); for (auto &x : s) x = konst(false); int want = (int)r.range(k / 2, 2 * k - 1);
      for (int i = 0; i < k; i++) { H cy = konst(false), a = lit(A(i, k), false); for (int j = 0; i + j < 2 * k && i + j <= want; j++) { H b = j < k ? AND(a, lit(B(j, k), false)) : konst(false), x = XOR(s[i + j], b), t = XOR(x, cy); cy = ITE(x, cy, b); s[i + j] = t; } }
      return s[want]; }
    case 4: { // clauses or cubes
      k = std::max(2, std::min(k, n)); bool cnf = r.chance(50); int t = (int)r.range(2, 3 * k); H f = konst(cnf);
      for (int i = 0; i < t; i++) { int w = (int)r.range(2, 5); H q = konst(!cnf); for (int j = 0; j < w; j++) { H x = lit(p[r.range(0, k - 1)], r.chance(50)); q = cnf ? OR(q, x) : AND(q, x); } f = cnf ? AND(f, q) : OR(f, q); }
      return f; }
    case 5: { // counting
      k = std::max(2, std::min(k, n)); int mod = (int)r.range(2, 9); vector<H> cnt(mod); cnt[0] = konst(true); for (int j = 1; j < mod; j++) cnt[j] = konst(false); bool thr = r.chance(50);
      for (int i = 0; i < k; i++) { H x = lit(p[i], false); vector<H> nx(mod); for (int j = 0; j < mod; j++) { H from = j ? cnt[j - 1] : thr ? konst(false) : cnt[mod - 1]; nx[j] = ITE(x, from, cnt[j]); if (thr && j == mod - 1) nx[j] = OR(nx[j], AND(x, cnt[j])); } cnt.swap(nx); }
      return cnt[r.range(0, mod - 1)]; }
    case 6: { // multiplexer
      int s = 1; while (s < 4 && (s + 1) + (2 << s) <= n && k > (2 << s)) s++; if (s + (1 << s) > n) return lit(p[0], false); vector<H> d; for (int i = 0; i < (1 << s); i++) d.push_back(lit(p[(inter ? s + i : i)], r.chance(30)));
      for (int i = 0; i < s; i++) { H a = lit(p[inter ? i : (1 << s) + i], false); vector<H> q; for (size_t j = 0; j + 1 < d.size(); j += 2) q.push_back(ITE(a, d[j], d[j + 1])); d.swap(q); }
      return d[0]; }
    case 8: { // counting above, one of several functions of the last variables below
      if (n < 12) return lit(p[0], false); lay = r.chance(70); if (lay) p = order; k = std::max(2, std::min(k, n - 10)); int mod = (int)r.range(2, 6); vector<H> cnt; for (int j = 0; j < mod; j++) { H x = lit(p[n - 1 - j], r.chance(30)); if (r.chance(40)) x = r.chance(50) ? XOR(x, lit(p[n - 1 - (j + 1) % mod], false)) : AND(x, lit(p[n - 1 - (j + 1) % mod], false)); cnt.push_back(x); }
      for (int i = k - 1; i >= 0; i--) { H x = lit(p[i], false); vector<H> nx(mod); int step = r.chance(70) ? 1 : (int)r.range(1, mod - 1); for (int j = 0; j < mod; j++) nx[j] = ITE(x, cnt[(j + step) % mod], cnt[j]); cnt.swap(nx); }
      return cnt[0]; }
    default: { k = std::max(1, std::min(k, n)); H f = konst(false); for (int i = 0; i < k; i++) f = XOR(f, lit(p[i], false)); return f; }
    }
  }
  vector<int> pickVars(long seed, int k) { Rng r(seed * 13 + 7); vector<int> p(nv()); for (int i = 0; i < nv(); i++) p[i] = i; for (int i = nv(); i > 1; i--) std::swap(p[i - 1], p[r.range(0, i - 1)]);
    if (nv() > 120 && seed % 4) { vector<char> u = used(); std::stable_partition(p.begin(), p.end(), [&](int v) { return u[v]; }); int f = (int)std::count(u.begin(), u.end(), 1); f = std::min(nv(), f + 3); for (int i = f; i > 1; i--) std::swap(p[i - 1], p[r.range(0, i - 1)]); }
    p.resize(std::min(k, nv())); return p; }
  vector<char> used() { vector<char> u(nv(), 0); vector<char> seen; vector<uint32_t> nodes; for (auto &s : sl) R->reach(s.e, seen, nodes); for (auto k : nodes) if (k) u[order[R->nd[k].lv]] = 1; return u; }
  // a variable; with many variables mostly one that the live diagrams use
  int pick(long a) { if (nv() > 120 && a % 5) { vector<char> u = used(); vector<int> l; for (int v = 0; v < nv(); v++) if (u[v]) l.push_back(v); if (!l.empty()) return l[a / 5 % l.size()]; } return (int)(a % nv()); }
  vector<char> byLevel(const vector<int> &v) { vector<char> q(nv(), 0); for (int x : v) q[level[x]] = 1; return q; }
  bool fits(E e) { if (R->size(e) > (size_t)cap) { st.inc("skipped_large"); return false; } return true; }
  void selectAssoc(long seed, long how, vector<int> &vs) {
    if (how % 3 == 0 && !as.empty()) { Assoc &a = as[seed % as.size()]; Cal_AssociationSetCurrent(m, a.id); vs = a.vars; return; }
    if (how > 60) { int k = 1 + (int)(how / 6 % nv()); if (how / 3 % 2) vs = pickVars(seed, k); else { vs.clear(); int skip = (int)(seed % 3) ? 0 : (int)(seed % 7); for (int l = skip; l < nv() && (int)vs.size() < k; l++) vs.push_back(order[l]); } if (vs.empty()) vs = pickVars(seed, 1); }
    else vs = pickVars(seed, 1 + (int)(how / 3 % std::max(1, nv() / 2)));
    vector<Cal_Bdd> l; for (int v : vs) l.push_back(var[v]); l.push_back(nullptr);
    if (how % 3 == 1 && as.size() < 4) { int i = Cal_AssociationInit(m, l.data(), 0); for (auto &a : as) if (a.id == i) { std::set<int> x(a.vars.begin(), a.vars.end()), y(vs.begin(), vs.end()); if (x != y) failf("association: identifier %d given to two different variable sets", i); } as.push_back({i, vs}); Cal_AssociationSetCurrent(m, i); }
    else { Cal_TempAssociationInit(m, l.data(), 0); Cal_AssociationSetCurrent(m, -1); }
  }
  void nodeCheck() {
    if (tech) sync("node count");
    vector<char> seen; vector<uint32_t> nodes; R->limit = SIZE_MAX; for (auto &s : sl) R->reach(s.e, seen, nodes); for (int l = 0; l < nv(); l++) R->reach(R->var(l), seen, nodes); R->reach(0, seen, nodes);
    long got = (long)Cal_BddManagerGetNumNodes(m); if (got < (long)nodes.size()) failf("node count: %ld nodes but %zu are referenced", got, nodes.size());
    st.inc("node_checks");
  }
  long referenced() { vector<char> seen; vector<uint32_t> nodes; for (auto &s : sl) R->reach(s.e, seen, nodes); size_t keep = R->limit; R->limit = SIZE_MAX; for (int l = 0; l < nv(); l++) R->reach(R->var(l), seen, nodes); R->limit = keep; return (long)nodes.size(); }
  void step(const Op &o);
  void phased(vector<Cal_Bdd> l, const vector<E> &es, bool multi);
  void run();
};

static long A(const Op &o, size_t i) { return i < o.a.size() ? o.a[i] : 0; }

void Wide::step(const Op &o) {
  const string &n = o.name; const char *w = n.c_str();
  if (tech) sync("before an operation");
  if (R->nd.size() > 1500000) setOrder(order);
  R->limit = R->nd.size() + 30 * (size_t)cap + 20000;
  try {
    if (n == "BUILD") { try { H f = family((int)A(o, 0), A(o, 1), (int)A(o, 2)); if (!fits(f.e)) return; Cal_Bdd b = Cal_BddIdentity(m, f.b); put(b, f.e, w); } catch (Over2 &) { sync("building"); st.inc("build_reordered"); } return; }
    if (n == "BOOL") { Negated a(*this, A(o, 1)), b(*this, A(o, 2)); E e; Cal_Bdd r; int k = A(o, 0) % 7;
      e = k == 0 ? R->And(a.s.e, b.s.e) : k == 1 ? R->And(a.s.e, b.s.e) ^ 1 : k == 2 ? R->Or(a.s.e, b.s.e) : k == 3 ? R->Or(a.s.e, b.s.e) ^ 1 : k == 4 ? R->Xor(a.s.e, b.s.e) : k == 5 ? R->Xor(a.s.e, b.s.e) ^ 1 : 0;
      if (k == 6) { Negated d(*this, A(o, 3)); e = R->ite(a.s.e, b.s.e, d.s.e); if (!fits(e)) return; r = Cal_BddITE(m, a.s.b, b.s.b, d.s.b); put(r, e, "ITE"); return; }
      if (!fits(e)) return;
      r = k == 0 ? Cal_BddAnd(m, a.s.b, b.s.b) : k == 1 ? Cal_BddNand(m, a.s.b, b.s.b) : k == 2 ? Cal_BddOr(m, a.s.b, b.s.b) : k == 3 ? Cal_BddNor(m, a.s.b, b.s.b) : k == 4 ? Cal_BddXor(m, a.s.b, b.s.b) : Cal_BddXnor(m, a.s.b, b.s.b);
      put(r, e, w); return; }
    if (n == "WITNESS") { Negated a(*this, A(o, 0)), b(*this, A(o, 1)); bool in = A(o, 2) & 1; E want = R->And(a.s.e, in ? b.s.e : b.s.e ^ 1); Cal_Bdd r = in ? Cal_BddIntersects(m, a.s.b, b.s.b) : Cal_BddImplies(m, a.s.b, b.s.b); if (tech) sync2(w, want); if (!r) { nullOk(w); return; }
      R->limit = SIZE_MAX; E e; { Reader rd(*this, w); e = rd.go(r); } if (R->And(e, want ^ 1) != 1) failf("%s: the witness does not imply the required function", w); if ((e == 1) != (want == 1)) failf("%s: witness constant false although satisfiable, or vice versa", w); put(r, e, w); return; }
    if (n == "MULTI") { int k = A(o, 0) % 3; vector<std::unique_ptr<Negated>> fs; E e = k == 0 ? 0 : 1; vector<Cal_Bdd> l; for (size_t i = 1; i < o.a.size(); i++) { fs.emplace_back(new Negated(*this, o.a[i])); E x = fs.back()->s.e; e = k == 0 ? R->And(e, x) : k == 1 ? R->Or(e, x) : R->Xor(e, x); l.push_back(fs.back()->s.b); } if (l.empty() || !fits(e)) return; l.push_back(nullptr);
      Cal_Bdd r = k == 0 ? Cal_BddMultiwayAnd(m, l.data()) : k == 1 ? Cal_BddMultiwayOr(m, l.data()) : Cal_BddMultiwayXor(m, l.data()); put(r, e, w); return; }
    if (n == "PAIR") { int k = A(o, 0) % 3; vector<std::unique_ptr<Negated>> fs; vector<E> es; vector<Cal_Bdd> l; for (size_t i = 1; i + 1 < o.a.size(); i += 2) { fs.emplace_back(new Negated(*this, o.a[i])); E x = fs.back()->s.e; l.push_back(fs.back()->s.b); fs.emplace_back(new Negated(*this, o.a[i + 1])); E y = fs.back()->s.e; l.push_back(fs.back()->s.b); es.push_back(k == 0 ? R->And(x, y) : k == 1 ? R->Or(x, y) : R->Xor(x, y)); if (!fits(es.back())) return; } if (l.empty()) return; l.push_back(nullptr);
      Cal_Bdd *r = k == 0 ? Cal_BddPairwiseAnd(m, l.data()) : k == 1 ? Cal_BddPairwiseOr(m, l.data()) : Cal_BddPairwiseXor(m, l.data()); if (!r) { nullOk(w); return; }
      size_t i = 0; for (; i < es.size() && r[i]; i++) {} if (i == es.size() && r[i]) failf("PAIR: the array is not terminated"); if (i != es.size()) { free(r); if (i) failf("PAIR: array ends early"); nullOk(w); return; }
      for (i = 0; i < es.size(); i++) sl.push_back({r[i], es[i]}); size_t k0 = sl.size() - es.size(); free(r); if (tech) sync(w); checkAll(w); if (R->size(sl[k0].e) >= 1000) st.inc("big_results"); while (sl.size() > (size_t)c.get("slots", 12)) { drop(sl[0].b); sl.erase(sl.begin()); } return; }
    if (n == "QUANT") { Negated f(*this, A(o, 0)), g(*this, A(o, 1)); int k = A(o, 2) % 3; vector<int> vs; selectAssoc(A(o, 3), A(o, 4), vs); auto q = byLevel(vs); std::unordered_map<E, E> memo;
      if (k == 2 && c.cfg.count("large")) { // the breadth-first routine goes through all levels again for each batch of new pairs
        size_t most = 30000, pr = R->pairs(f.s.e, g.s.e, most); if (pr >= most) { st.inc("skipped_pairs"); return; } if (pr > 3000) st.inc("relprod_3000_pairs"); }
      E e = k == 0 ? R->exists(f.s.e, q, memo) : k == 1 ? R->exists(f.s.e ^ 1, q, memo) ^ 1 : R->exists(R->And(f.s.e, g.s.e), q, memo); if (!fits(e)) return;
      Cal_Bdd r = k == 0 ? Cal_BddExists(m, f.s.b) : k == 1 ? Cal_BddForAll(m, f.s.b) : Cal_BddRelProd(m, f.s.b, g.s.b); put(r, e, k == 0 ? "EXISTS" : k == 1 ? "FORALL" : "RELPROD"); return; }
    if (n == "SUBST") { Negated f(*this, A(o, 0)); bool vars = A(o, 1) & 1; Rng r(A(o, 2) * 17 + 3); vector<int> vs = pickVars(A(o, 2), 1 + (int)(A(o, 3) % std::max(1, std::min(nv() / 2, vars ? 20 : 4)))); vector<int> to = vs; for (size_t i = to.size(); i > 1; i--) std::swap(to[i - 1], to[r.range(0, i - 1)]); if (r.chance(50)) for (auto &t : to) if (r.chance(40)) t = (int)r.range(0, nv() - 1);
      vector<E> s(nv()); for (int l = 0; l < nv(); l++) s[l] = R->var(l); vector<Cal_Bdd> l; for (size_t i = 0; i < vs.size(); i++) { l.push_back(var[vs[i]]); Slot x = vars ? Slot{var[to[i]], R->var(level[to[i]])} : arg(r.range(0, 9999)); l.push_back(x.b); s[level[vs[i]]] = x.e; } l.push_back(nullptr);
      std::unordered_map<E, E> memo; E e = R->subst(f.s.e, s, memo); if (!fits(e)) return; if (!vars) { size_t k = 0; for (auto x : vs) k += R->size(s[level[x]]); if (k * R->size(f.s.e) > 4000000) return; } Cal_TempAssociationInit(m, l.data(), 1); Cal_AssociationSetCurrent(m, -1);
      bool vsub = vars && (A(o, 1) & 2); put(vsub ? Cal_BddVarSubstitute(m, f.s.b) : Cal_BddSubstitute(m, f.s.b), e, vsub ? "VSUBST" : "SUBST"); Cal_TempAssociationQuit(m); return; }
    if (n == "COMPOSE") { Negated f(*this, A(o, 0)), h(*this, A(o, 1)); int v = pick(A(o, 2)); vector<E> s(nv()); for (int l = 0; l < nv(); l++) s[l] = R->var(l); s[level[v]] = h.s.e; std::unordered_map<E, E> memo; E e = R->subst(f.s.e, s, memo); if (!fits(e) || R->size(f.s.e) * R->size(h.s.e) > 20000000) return; put(Cal_BddCompose(m, f.s.b, var[v], h.s.b), e, w); return; }
    if (n == "SWAP") { Negated f(*this, A(o, 0)); int v = pick(A(o, 1)), u = pick(A(o, 2)); vector<E> s(nv()); for (int l = 0; l < nv(); l++) s[l] = R->var(l); std::swap(s[level[v]], s[level[u]]); std::unordered_map<E, E> memo; E e = R->subst(f.s.e, s, memo); if (!fits(e)) return; put(Cal_BddSwapVars(m, f.s.b, var[v], var[u]), e, w); return; }
    if (n == "COFACTOR") { Negated f(*this, A(o, 0)), g(*this, A(o, 1)); if (g.s.e == 1) return; std::unordered_map<uint64_t, E> memo; E e = R->constrain(f.s.e, g.s.e, memo); if (!fits(e)) return; Cal_Bdd r = Cal_BddCofactor(m, f.s.b, g.s.b); if (tech) { E x = e; sync2(w, x); e = x; } put(r, e, w); return; }
    if (n == "REDUCE") { Negated f(*this, A(o, 0)), g(*this, A(o, 1)); bool bt = A(o, 2) & 1; E lo, hi; Cal_Bdd r; if (bt) { lo = R->And(f.s.e, g.s.e); hi = f.s.e; if (!fits(lo)) return; H x(this, Cal_BddAnd(m, f.s.b, g.s.b), lo); if (!x.b) { nullOk(w); return; } r = Cal_BddBetween(m, x.b, f.s.b); } else { lo = R->And(f.s.e, g.s.e); hi = R->Or(f.s.e, g.s.e ^ 1); r = Cal_BddReduce(m, f.s.b, g.s.b); }
      if (tech) { sync2(w, lo); } if (!r) { nullOk(w); return; }
      if (tech) { drop(r); return; }
      R->limit = SIZE_MAX; E e; { Reader rd(*this, w); e = rd.go(r); } if (R->And(lo, e ^ 1) != 1 || R->And(e, hi ^ 1) != 1) failf("%s: the result leaves the given bounds", bt ? "BETWEEN" : "REDUCE");
      size_t bound = R->size(f.s.e); if (bt) bound = std::min(bound, R->size(lo)); if (R->size(e) > bound) failf("%s: the result has %zu nodes, more than the operand's %zu", w, R->size(e), bound); put(r, e, w); return; }
    if (n == "SATISFY") { Negated f(*this, A(o, 0)); if (f.s.e == 1) return; vector<int> vs; bool sup = A(o, 1) & 1; if (sup) selectAssoc(A(o, 2), A(o, 3), vs); Cal_Bdd r = sup ? Cal_BddSatisfySupport(m, f.s.b) : Cal_BddSatisfy(m, f.s.b); E fe = f.s.e; if (tech) sync2(w, fe); if (!r) { nullOk(w); return; }
      R->limit = SIZE_MAX; E e; { Reader rd(*this, w); e = rd.go(r); } if (e == 1 || R->And(e, fe ^ 1) != 1) failf("%s: the result is not a satisfying assignment", w); std::set<int> in; for (E x = e; x > 1;) { int l = R->lv(x); in.insert(l); E a = R->hi(x, l), b = R->lo(x, l); if (a != 1 && b != 1) failf("%s: the result is not a cube", w); x = a == 1 ? b : a; }
      if (sup) for (int v : vs) if (!in.count(level[v])) failf("%s: an associated variable is missing from the cube", w); put(r, e, w); return; }
    if (n == "PRINT") { Negated f(*this, A(o, 0)); manyPaths(f.s.e); size_t inner = R->size(f.s.e) - 1; char *buf = nullptr; size_t len = 0; FILE *fp = open_memstream(&buf, &len); bool prof = A(o, 1) & 1; if (prof) Cal_BddPrintProfile(m, f.s.b, 0, 0, 79, fp); else Cal_BddPrintBdd(m, f.s.b, 0, 0, 0, fp); fclose(fp);
      size_t lines = 0; for (size_t i = 0; i < len; i++) lines += buf[i] == '\n'; rawFree(buf); if (lines > (prof ? (size_t)nv() + 2 : 5 * inner + 2)) failf("%s: %zu lines for a diagram of %zu nodes", prof ? "profile" : "print", lines, inner + 1); return; }
    if (n == "QUERY") { if (c.get("paths", 0)) { Negated g(*this, A(o, 0)); manyPaths(g.s.e); } Negated f(*this, A(o, 0)); auto nodes = R->reach(f.s.e); long inner = 0; std::set<int> sup; vector<long> prof(nv() + 1, 0); for (auto k : nodes) { if (k) { inner++; sup.insert(R->nd[k].lv); prof[R->nd[k].lv]++; } else prof[nv()]++; }
      long sz = Cal_BddSize(m, f.s.b, 1); long base = (f.s.e < 2) ? 1 : 1; if (sz != inner + base) failf("size: %ld, expected %ld", sz, inner + base);
      vector<Cal_Bdd> s(nv() + 1, nullptr); Cal_BddSupport(m, f.s.b, s.data()); std::set<int> got; for (int i = 0; i < nv() && s[i]; i++) { auto it = idVar.find(Cal_BddGetIfId(m, s[i])); if (it == idVar.end()) failf("support: unknown variable"); got.insert(level[it->second]); } if (got != sup) failf("support: %zu variables, expected %zu", got.size(), sup.size());
      vector<long> lp(nv() + 2, 0); Cal_BddProfile(m, f.s.b, lp.data(), 1); for (int i = 0; i <= nv(); i++) if (lp[i] != prof[i]) failf("profile: level %d has %ld nodes, expected %ld", i, lp[i], prof[i]);
      phased({f.s.b}, {f.s.e}, false);
      bool cube = f.s.e != 1; for (E x = f.s.e; cube && x > 1;) { int l = R->lv(x); E a = R->hi(x, l), b = R->lo(x, l); if (a != 1 && b != 1) cube = false; x = a == 1 ? b : a; } if (!!Cal_BddIsCube(m, f.s.b) != cube) failf("iscube: expected %d", (int)cube);
      std::unordered_map<uint32_t, double> memo; double want = R->frac(f.s.e, memo), fr = Cal_BddSatisfyingFraction(m, f.s.b); if (fabs(fr - want) > 1e-9 * (1 + want) && fabs(fr - want) > 1e-6 * want) failf("satisfying fraction: %.17g, expected %.17g", fr, want);
      int v = pick(A(o, 1)); if (!!Cal_BddDependsOn(m, f.s.b, var[v]) != !!sup.count(level[v])) failf("depends-on is wrong"); st.inc("queries"); if (inner >= 1000) st.inc("big_results"); return; }
    if (n == "MSIZE") { vector<std::unique_ptr<Negated>> fs; vector<Cal_Bdd> l; vector<char> seen; vector<uint32_t> nodes; for (long a : o.a) { fs.emplace_back(new Negated(*this, a)); l.push_back(fs.back()->s.b); R->reach(fs.back()->s.e, seen, nodes); } if (l.empty()) return; l.push_back(nullptr); long sz = Cal_BddSizeMultiple(m, l.data(), 1); if (sz != (long)nodes.size()) failf("size of several: %ld, expected %zu", sz, nodes.size());
      vector<long> lp(nv() + 2, 0), prof(nv() + 1, 0); for (auto k : nodes) prof[k ? R->nd[k].lv : nv()]++; Cal_BddProfileMultiple(m, l.data(), lp.data(), 1); for (int i = 0; i <= nv(); i++) if (lp[i] != prof[i]) failf("profile of several: level %d has %ld nodes, expected %ld", i, lp[i], prof[i]);
      l.pop_back(); vector<E> es; for (auto &x : fs) es.push_back(x->s.e); phased(l, es, true); return; }
    if (n == "DUMP") { Negated f(*this, A(o, 0)); Rng r(A(o, 1)); auto nodes = R->reach(f.s.e); std::set<int> sup; for (auto k : nodes) if (k) sup.insert(order[R->nd[k].lv]); vector<int> l1(sup.begin(), sup.end()); for (int i = 0, x = (int)r.range(0, 3); i < x; i++) { int v = (int)r.range(0, nv() - 1); if (!sup.count(v)) { l1.push_back(v); sup.insert(v); } } for (size_t i = l1.size(); i > 1; i--) std::swap(l1[i - 1], l1[r.range(0, i - 1)]);
      bool same = A(o, 2) & 1; vector<int> l2 = l1; E want = f.s.e; if (!same) { l2 = pickVars(A(o, 1), (int)l1.size()); if (l2.size() < l1.size()) return; if (c.get("deep", 0)) { auto by = [&](int a, int b) { return level[a] < level[b]; }; std::sort(l1.begin(), l1.end(), by); std::sort(l2.begin(), l2.end(), by); } else if (r.chance(60)) { l2 = l1; if (l2.size() > 1) std::swap(l2[0], l2[r.range(0, l2.size() - 1)]); } vector<E> s(nv()); for (int l = 0; l < nv(); l++) s[l] = R->var(l); for (size_t i = 0; i < l1.size(); i++) s[level[l1[i]]] = R->var(level[l2[i]]); std::unordered_map<E, E> memo; want = R->subst(f.s.e, s, memo); if (!fits(want)) return; }
      vector<Cal_Bdd> h1, h2; for (int v : l1) h1.push_back(var[v]); for (int v : l2) h2.push_back(var[v]); h1.push_back(nullptr); h2.push_back(nullptr); char *buf = nullptr; size_t len = 0; FILE *fp = open_memstream(&buf, &len); bool ok = Cal_BddDumpBdd(m, f.s.b, h1.data(), fp); fclose(fp); if (!ok) { rawFree(buf); failf("dump: rejected a valid variable list"); }
      fp = fmemopen(buf, len, "r"); int err = -1; Cal_Bdd b = Cal_BddUndumpBdd(m, h2.data(), fp, &err); fclose(fp); rawFree(buf); st.inc("dumps"); if (!b) { if (limit && err == CAL_BDD_UNDUMP_OVERFLOW) { Cal_BddOverflow(m); st.inc("overflows"); return; } failf("undump: error %d for an intact file", err); }
      if (same && !tech && b != f.s.b) { drop(b); failf("undump: another handle for the dumped diagram"); } put(b, want, w); return; }
    if (n == "PIPE") { Rng r(A(o, 1) + 5); int k = A(o, 0) % 3; int cnt = 1 + (int)(A(o, 2) % 12); struct P { Cal_Bdd b; E e; }; vector<P> ps; vector<E> es; // model first
      struct Pl { int i, j; long x, y; }; vector<Pl> plan; for (int i = 0; i < cnt; i++) { Pl p; p.i = i && r.chance(50) ? (int)r.range(0, i - 1) : -1; p.j = i && r.chance(40) ? (int)r.range(0, i - 1) : -1; p.x = r.range(0, 9999) / 8 * 8; p.y = r.range(0, 9999) / 8 * 8 + (r.chance(20) ? 5 : 0); E a = p.i >= 0 ? es[p.i] : arg(p.x).e, b = p.j >= 0 ? es[p.j] : arg(p.y).e; E e = k == 0 ? R->And(a, b) : k == 1 ? R->Or(a, b) : R->Xor(a, b); if (!fits(e)) return; plan.push_back(p); es.push_back(e); }
      Cal_PipelineSetDepth(m, (int)(A(o, 3) % 7)); if (!Cal_PipelineInit(m, k == 0 ? CAL_AND : k == 1 ? CAL_OR : CAL_XOR)) failf("pipeline: not opened");
      for (size_t i = 0; i < plan.size(); i++) { auto &p = plan[i]; Cal_Bdd b = Cal_PipelineCreateProvisionalBdd(m, p.i >= 0 ? ps[p.i].b : arg(p.x).b, p.j >= 0 ? ps[p.j].b : arg(p.y).b); if (!b) failf("pipeline: no provisional diagram"); ps.push_back({b, es[i]}); }
      if (!Cal_PipelineExecute(m)) { Cal_PipelineQuit(m); if (limit) { Cal_BddOverflow(m); st.inc("overflows"); return; } failf("pipeline: execution failed"); }
      vector<Cal_Bdd> out; for (auto &p : ps) { Cal_Bdd b = Cal_PipelineUpdateProvisionalBdd(m, p.b); if (!b) failf("pipeline: no updated diagram"); out.push_back(b); }
      Cal_PipelineQuit(m); size_t k0 = sl.size(); for (size_t i = 0; i < ps.size(); i++) sl.push_back({out[i], ps[i].e}); if (tech) sync(w); checkAll(w); st.inc("pipes"); if (R->size(sl[k0].e) >= 1000) st.inc("big_results"); while (sl.size() > (size_t)c.get("slots", 12)) { drop(sl[0].b); sl.erase(sl.begin()); } return; }
    if (n == "FREE") { if (sl.size() > 1) { size_t k = A(o, 0) % sl.size(); drop(sl[k].b); sl.erase(sl.begin() + k); } return; }
    if (n == "GC") { Cal_BddManagerGC(m); checkAll("garbage collection"); nodeCheck(); return; }
    if (n == "REORDER" && c.get("huge", 0)) { // see g12; in a child that may take 40 seconds, as time goes with the square of the number of variables
      if (c.get("huge", 0) != 2 || st.get("huge_reorders")) return; st.inc("huge_reorders"); fflush(nullptr); pid_t pid = fork(); if (pid < 0) return;
      if (!pid) { try { Cal_BddDynamicReordering(m, (int)(A(o, 0) & 1) + 1, (int)(A(o, 1) & 1)); Cal_BddReorder(m); sync("Reorder"); checkAll("reordering"); } catch (Fail &) { _exit(7); } _exit(0); }
      int status = 0; bool over = false; for (int i = 0; !over; i++) { over = waitpid(pid, &status, WNOHANG) == pid; if (!over && i > 4000) break; if (!over) usleep(10000); }
      if (!over) { kill(pid, SIGKILL); waitpid(pid, &status, 0); st.inc("huge_reorder_unfinished"); return; }
      if (!WIFEXITED(status) || WEXITSTATUS(status)) failf("reordering %d variables %s (status %d)", nv(), WIFEXITED(status) ? "gives wrong results" : "crashed", status); return; }
    if (n == "REORDER") { bool watch = c.get("nogrow", 0) && !limit; long lib0 = 0, mod0 = 0; if (watch) { if (tech) sync("Reorder"); Cal_BddManagerGC(m); lib0 = (long)Cal_BddManagerGetNumNodes(m); mod0 = referenced(); }
      Cal_BddDynamicReordering(m, (int)(A(o, 0) & 1) + 1, (int)(A(o, 1) & 1)); Cal_BddReorder(m); sync("Reorder");
      if (watch) { Cal_BddManagerGC(m); long lib1 = (long)Cal_BddManagerGetNumNodes(m), mod1 = referenced(); if (lib1 > lib0 && mod1 > mod0) failf("reorder grew: %ld nodes in use before (%ld referenced), %ld after (%ld referenced)", lib0, mod0, lib1, mod1); st.inc("grow_checks"); if (mod1 < mod0) st.inc("grow_checks_shrank"); }
      Cal_BddDynamicReordering(m, tech, (int)c.get("meth", 1)); checkAll("reordering"); st.inc("reorders"); return; }
    if (n == "NEWVAR") { if (nv() < 120 || (nv() < c.get("nv", 0) + 100 && nv() > 130 && nv() < 65534)) { newVar((int)(A(o, 0) % 4), (int)A(o, 1)); checkAll("new variable"); } return; }
    if (n == "LIMIT") { limit = A(o, 0) == 0 ? 0 : A(o, 0) < 0 ? std::max<long>(1, (long)Cal_BddManagerGetNumNodes(m) - A(o, 0)) : A(o, 0); Cal_BddNodeLimit(m, limit); return; }
    if (n == "PARAMS") { Cal_BddManagerSetParameters(m, A(o, 0), A(o, 1), A(o, 2) / 100.0, A(o, 3) / 100.0); return; }
    if (n == "SETGCLIMIT") { Cal_BddManagerSetGCLimit(m); return; }
  } catch (Full &) { st.inc("skipped_full"); }
  catch (Over &) { st.inc("build_overflowed"); }
}

void Wide::phased(vector<Cal_Bdd> l, const vector<E> &es, bool multi) {
  vector<long> pos, func, lp(nv() + 2, -77); R->shape(es, nv(), pos, func); long all = 0; for (long x : pos) all += x; l.push_back(nullptr);
  long sz = multi ? Cal_BddSizeMultiple(m, l.data(), 0) : Cal_BddSize(m, l[0], 0); if (sz != all) failf("size%s without complement edges: %ld, expected %ld", multi ? " of several" : "", sz, all);
  if (multi) Cal_BddProfileMultiple(m, l.data(), lp.data(), 0); else Cal_BddProfile(m, l[0], lp.data(), 0);
  for (int i = 0; i <= nv(); i++) if (lp[i] != pos[i]) failf("profile%s without complement edges: level %d has %ld, expected %ld", multi ? " of several" : "", i, lp[i], pos[i]);
  if (multi) Cal_BddFunctionProfileMultiple(m, l.data(), lp.data()); else Cal_BddFunctionProfile(m, l[0], lp.data());
  for (int i = 0; i <= nv(); i++) if (lp[i] != func[i]) failf("function profile%s: level %d has %ld, expected %ld", multi ? " of several" : "", i, lp[i], func[i]);
  if (lp[nv() + 1] != -77) failf("profile: writes beyond the array");
}

void Wide::run() {
  long budget = c.get("work", 400000);
  for (auto &o : c.ops) { if (getenv("PBT_TRACE")) { fprintf(stderr, "%s", o.name.c_str()); for (long x : o.a) fprintf(stderr, " %ld", x); fprintf(stderr, "\n"); } step(o); st.inc("ops"); if (getenv("PBT_CHECK")) checkAll("trace"); if (work > budget) { st.inc("budget_reached"); break; } }
  checkAll("end");
  Cal_BddManagerGC(m); checkAll("end after collection"); nodeCheck();
  if (c.get("endfree", 0)) { for (auto &s : sl) drop(s.b); sl.clear(); Cal_BddManagerGC(m); if (limit) Cal_BddNodeLimit(m, limit = 0); if (tech) { sync("end"); Cal_BddDynamicReordering(m, tech = 0, 1); } R->limit = SIZE_MAX; checkOrder("everything released"); H f = family((int)c.get("endfree", 1), 7, 8); expect(f.b, f.e, "after releasing everything"); }
  Cal_BddManagerQuit(m);
}

void execCase(const Case &c, Stats &st) {
  calVerifMinGCLimit = c.get("gclim", 10000); calVerifGCCheck = (int)c.get("gcchk", 100); calVerifLargeBdd = (unsigned long)c.get("large", 1 << 19); calVerifCacheIndex = (int)c.get("cidx", 16); memSegLimit(4096 * c.get("segs", 0));
  MemCount m0 = memOutstanding(); { Wide w(c, st); w.run(); }
  MemCount m1 = memOutstanding(); if (m1.blocks != m0.blocks || m1.bytes != m0.bytes) failf("leak: %ld blocks (%ld bytes) still allocated after the manager was destroyed", m1.blocks - m0.blocks, m1.bytes - m0.bytes);
}
void harnessInit() {}

// ---- generators -----------------------------------------------------------
struct W { const char *n; int w; };
typedef vector<W> Mix;
static Op mk(Rng &r, const string &n) {
  Op o; o.name = n; auto big = [&]() { return r.range(0, 65535); };
  if (n == "BUILD") o.a = {r.range(0, 8), r.range(0, 99999), r.chance(30) ? r.range(2, 8) : r.range(6, 24)};
  else if (n == "BOOL") o.a = {r.range(0, 6), big(), big(), big()};
  else if (n == "WITNESS") o.a = {big(), big(), r.range(0, 1)};
  else if (n == "MULTI") { o.a = {r.range(0, 2)}; for (int i = 0, k = (int)r.range(2, 6); i < k; i++) o.a.push_back(big()); }
  else if (n == "PAIR") { o.a = {r.range(0, 2)}; for (int i = 0, k = 2 * (int)r.range(1, 4); i < k; i++) o.a.push_back(big()); }
  else if (n == "QUANT") o.a = {big(), big(), r.range(0, 2), r.range(0, 999), r.range(0, 60)};
  else if (n == "SUBST") o.a = {big(), r.range(0, 3), r.range(0, 9999), r.range(0, 20)};
  else if (n == "COMPOSE" || n == "SWAP") o.a = {big(), big(), big()};
  else if (n == "COFACTOR") o.a = {big(), big()};
  else if (n == "REDUCE") o.a = {big(), big(), r.range(0, 1)};
  else if (n == "SATISFY") o.a = {big(), r.range(0, 1), r.range(0, 999), r.range(0, 60)};
  else if (n == "QUERY") o.a = {big(), big()};
  else if (n == "PRINT") o.a = {big(), r.range(0, 1)};
  else if (n == "MSIZE") { for (int i = 0, k = (int)r.range(1, 4); i < k; i++) o.a.push_back(big()); }
  else if (n == "DUMP") o.a = {big(), r.range(0, 99999), r.range(0, 1)};
  else if (n == "PIPE") o.a = {r.range(0, 2), r.range(0, 99999), r.range(0, 11), r.range(0, 6)};
  else if (n == "FREE") o.a = {big()};
  else if (n == "REORDER") o.a = {r.range(0, 1), r.range(0, 1)};
  else if (n == "NEWVAR") o.a = {r.range(0, 3), r.range(0, 999)};
  else if (n == "LIMIT") o.a = {r.chance(30) ? 0 : r.chance(70) ? -r.range(1, r.chance(50) ? 300 : 5000) : r.range(100, 20000)};
  else if (n == "PARAMS") o.a = {r.chance(50) ? r.range(0, 400) : 5000, r.chance(50) ? r.range(0, 400) : 50000, r.range(0, 100), r.range(0, 100)};
  return o;
}
static Mix operator+(Mix a, const Mix &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static const Mix base = {{"BUILD", 8}, {"BOOL", 10}, {"FREE", 2}, {"GC", 1}};
static Case gen(Rng &r, bool thorough, const Mix &mix, bool manyFew, int reorderPct = 12) {
  Case c; int p = (int)r.range(0, 99); c.cfg["cap"] = p < 55 ? 2500 : p < 90 ? 12000 : p < 98 || !thorough ? 40000 : 150000; (void)manyFew;
  c.cfg["nv"] = r.chance(60) ? r.range(12, 24) : r.range(20, 48); c.cfg["vseed"] = r.range(1, 9999); c.cfg["vorder"] = r.range(0, 1);
  if (r.chance(40)) { c.cfg["gclim"] = r.range(50, 6000); c.cfg["gcchk"] = r.range(1, 60); }
  if (r.chance(50)) { static const long l[] = {0, 100, 2000, 8000}; c.cfg["large"] = l[r.range(0, 3)]; }
  if (r.chance(35)) c.cfg["cidx"] = c.cfg["cap"] <= 2500 ? r.range(9, 12) : r.range(12, 14); // a smaller computed table; much smaller ones cost exponential time
  if (r.chance(15)) c.cfg["segs"] = r.range(4, 63);
  if (r.chance(30)) { c.cfg["repa"] = r.range(0, 100); c.cfg["tblr"] = r.range(0, 100); }
  if (r.chance(reorderPct)) { c.cfg["tech"] = r.range(1, 2); c.cfg["meth"] = r.range(0, 1); c.cfg["thr"] = r.chance(50) ? r.range(0, 2000) : 5000; if (c.cfg["cap"] > 12000) c.cfg["cap"] = 12000; }
  c.cfg["endfree"] = r.range(0, 3); c.cfg["slots"] = r.range(4, 14); c.cfg["work"] = thorough ? 600000 : 250000;
  if (r.chance(8)) { // many variables: identifiers and positions beyond 8 bits, rarely beyond 15 bits
    bool huge = r.chance(4);
#ifdef __SANITIZE_ADDRESS__
    huge = false;
#endif
    c.cfg["nv"] = huge ? (r.chance(10) ? 65534 : r.range(32700, 40000)) : r.chance(50) ? r.range(245, 270) : r.range(130, 700); if (huge) { c.cfg.erase("tech"); c.cfg["huge"] = 1; } c.cfg["cap"] = std::min(c.cfg["cap"], 2500l); c.cfg["vorder"] = r.chance(75); }
  int n = (int)r.range(8, c.cfg.count("huge") ? 12 : 30); for (int i = 0; i < 3; i++) c.ops.push_back(mk(r, "BUILD"));
  int tot = 0; for (auto &w : mix) tot += w.w;
  for (int i = 0; i < n; i++) { int x = (int)r.range(0, tot - 1); for (auto &w : mix) { if (x < w.w) { c.ops.push_back(mk(r, w.n)); break; } x -= w.w; } }
  return c;
}
static const Mix all_ = base + Mix{{"WITNESS", 1}, {"MULTI", 2}, {"PAIR", 2}, {"QUANT", 4}, {"SUBST", 2}, {"COMPOSE", 2}, {"SWAP", 1}, {"COFACTOR", 2}, {"REDUCE", 2}, {"SATISFY", 1}, {"QUERY", 2}, {"MSIZE", 1}, {"DUMP", 1}, {"PIPE", 2}, {"NEWVAR", 1}, {"REORDER", 1}, {"PARAMS", 1}, {"SETGCLIMIT", 1}};
#define G(name, mix, pct) static Case name(Rng &r, bool th) { return gen(r, th, mix, false, pct); }
G(g01, (base + Mix{{"WITNESS", 3}, {"BOOL", 10}}), 5)
G(g02, (base + Mix{{"BOOL", 10}, {"MULTI", 2}, {"PIPE", 1}, {"REORDER", 1}, {"COMPOSE", 2}, {"COFACTOR", 1}, {"QUANT", 2}, {"NEWVAR", 1}}), 15)
G(g03, (base + Mix{{"MULTI", 10}, {"PAIR", 10}}), 5)
G(g04, (base + Mix{{"QUANT", 22}}), 8)
G(g05, (base + Mix{{"SUBST", 10}, {"COMPOSE", 8}, {"SWAP", 5}}), 8)
G(g06, (base + Mix{{"COFACTOR", 10}, {"REDUCE", 12}}), 5)
G(g07, (base + Mix{{"SATISFY", 14}, {"QUERY", 5}}), 5)
G(g08, (base + Mix{{"QUERY", 12}, {"MSIZE", 8}}), 5)
G(g09, (base + Mix{{"NEWVAR", 12}, {"QUANT", 1}, {"SUBST", 1}}), 10)
G(g11, (base + Mix{{"FREE", 8}, {"GC", 6}, {"QUANT", 2}, {"COMPOSE", 1}, {"SETGCLIMIT", 1}}), 8)
static Case g12(Rng &r, bool th) {
  Case c = gen(r, th, base + Mix{{"REORDER", 8}, {"PARAMS", 2}, {"QUANT", 2}, {"SUBST", 1}, {"FREE", 3}, {"NEWVAR", 1}}, false, 40);
#ifndef __SANITIZE_ADDRESS__
  if (r.range(1, 150) == 1) { // so many variables that the pairs of them exceed 31 bits; reordered once
    c.cfg = {{"nv", r.range(46342, 46400)}, {"huge", 2}, {"cap", 2500}, {"vseed", r.range(1, 9999)}, {"vorder", r.range(0, 1)}, {"slots", 4}, {"work", 250000}};
    c.ops.clear(); for (const char *n : {"BUILD", "BUILD", "BOOL", "FREE", "REORDER"}) c.ops.push_back(mk(r, n)); c.ops.back().a = {r.range(0, 1), 1 - r.range(0, 3) / 3}; }
#endif
  return c; }
static Case g15(Rng &r, bool th) {
  Case c = gen(r, th, base + Mix{{"DUMP", 12}}, false, 5);
#ifndef __SANITIZE_ADDRESS__
  if (r.chance(3)) { // more than 2^16 shared nodes in one file
    c = gen(r, th, base, false, 0); c.cfg["deep"] = 16; c.cfg["nv"] = r.range(34, 40); c.cfg["cap"] = 600000; c.cfg["work"] = 3000000; c.cfg.erase("huge"); c.cfg.erase("gclim"); c.cfg.erase("gcchk"); c.ops.clear();
    { Op b = mk(r, "BUILD"); b.a[0] = r.chance(20) ? 0 : 1; b.a[2] = 16; c.ops.push_back(b); }
    Op d = mk(r, "DUMP"); c.ops.push_back(d); }
#endif
  return c; }
G(g17, (base + Mix{{"PIPE", 16}}), 10)
static Case g24(Rng &r, bool th) { Case c = gen(r, th, base + Mix{{"REORDER", 9}, {"QUANT", 1}, {"FREE", 4}, {"NEWVAR", 1}}, false, 15); c.cfg["nogrow"] = 1; return c; }
static Case g14(Rng &r, bool th) { Case c = gen(r, th, all_ + Mix{{"LIMIT", 10}}, false, 0); c.cfg["gclim"] = r.range(1, 400); c.cfg["gcchk"] = r.range(1, 10); return c; }
static Case g22(Rng &r, bool th) { Case c = gen(r, th, all_ + Mix{{"PARAMS", 6}, {"REORDER", 2}}, false, 50); if (r.chance(20)) c.cfg["gcmode"] = 0; return c; }
static Case g23(Rng &r, bool th) { return gen(r, th, all_, false, 20); }

// small diagrams with astronomically many paths
static Case g25(Rng &r, bool th) {
  Case c = gen(r, th, all_ + Mix{{"PRINT", 3}, {"QUERY", 4}, {"SATISFY", 3}, {"MSIZE", 2}, {"DUMP", 2}}, false, 8); c.cfg["paths"] = 1; c.cfg.erase("cidx"); c.cfg["cap"] = 1500; c.cfg["nv"] = r.range(60, 110);
  static const int kind[] = {0, 1, 5, 5, 7, 7, 8, 8, 8}; for (auto &o : c.ops) if (o.name == "BUILD") { o.a[0] = kind[r.range(0, 8)]; o.a[2] = r.range(30, 110); } else if ((o.name == "QUANT" || o.name == "SATISFY") && r.chance(80)) o.a.back() = r.range(61, 660);
  return c; }

vector<PropDef> &properties() {
  static auto nt = [](const Stats &s, const Case &) -> bool { return s.get("big_results") + s.get("full_checks_big") >= 1; };
  static const char *rule = "wide cases: a result or live set of 1000 or more nodes compared exactly";
  static vector<PropDef> p;
  if (p.empty()) { struct { const char *id; Case (*g)(Rng &, bool); } t[] = {{"C01", g01}, {"C02", g02}, {"C03", g03}, {"C04", g04}, {"C05", g05}, {"C06", g06}, {"C07", g07}, {"C08", g08}, {"C09", g09}, {"C11", g11}, {"C12", g12}, {"C14", g14}, {"C15", g15}, {"C17", g17}, {"C22", g22}, {"C23", g23}, {"C24", g24}, {"C25", g25}};
    for (auto &x : t) p.push_back({x.id, x.g, nt, rule, {2000, 15}, {60000, 200}, 4, 60});
    p.back().nontrivial = [](const Stats &s, const Case &) -> bool { return s.get("many_paths") >= 2; }; p.back().rule = "at least two operands or results of small diagrams with 10^12 or more paths"; }
  return p;
}
