// C20: the block and record allocator against a model of the live blocks.
#include <vector>
#include <map>
#include <string>
#include <algorithm>
#include <cstdarg>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include "frame.h"
extern "C" {
#include <calMem.h>
}
using std::string; using std::vector;
[[noreturn]] static void failf(const char *f, ...) { char b[900]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); throw Fail{b}; }
typedef unsigned long ul;
static long absl(long x) { return x < 0 ? -x : x; }

struct Blk { char *p; ul size; ul tag; int mgr; bool rec; };
struct Mgr { Cal_RecMgr m; int size; vector<char *> live, released; };
struct Env {
  const Case &c; Stats &st; vector<Blk> live; std::map<ul, ul> iv; // live intervals: start -> end
  vector<Mgr> mgrs; ul tags = 1, bytes = 0; const ul CAP = 96ul << 20;
  Env(const Case &c, Stats &st) : c(c), st(st) { live.reserve(20000); }
  static unsigned char pat(ul tag, ul i) { ul z = (tag * 0x9E3779B97F4A7C15ull) ^ (i * 0xBF58476D1CE4E5B9ull); return (unsigned char)(z >> 37); }
  // bytes looked at: all of a small block, the ends and a sample of a big one
  template <class F> static void each(ul from, ul to, F f) { if (to <= from) return; if (to - from <= 8192) { for (ul i = from; i < to; i++) f(i); return; } for (ul i = from; i < from + 2048; i++) f(i); for (ul i = from + 2048; i + 2048 < to; i += 509) f(i); for (ul i = to - 2048; i < to; i++) f(i); }
  void fill(const Blk &b, ul from) { each(from, b.size, [&](ul i) { b.p[i] = (char)pat(b.tag, i); }); }
  // each() samples relative to its range, so a refilled tail is checked with the same ranges
  void verify(const Blk &b, const char *w) { each(0, b.size, [&](ul i) { if ((unsigned char)b.p[i] != pat(b.tag, i)) failf("%s: byte %lu of a live %s of %lu bytes changed", w, i, b.rec ? "record" : "block", b.size); }); }
  void verifyAll(const char *w) { for (auto &b : live) verify(b, w); st.inc("verifies"); }
  void add(char *p, ul size, bool rec, int mgr, const char *w) {
    if (!p) failf("%s: null for %lu bytes", w, size);
    if ((ul)p % CAL_ALLOC_ALIGNMENT) failf("%s: address not aligned to %d", w, (int)CAL_ALLOC_ALIGNMENT);
    if ((ul)p + size > (ul)sbrk(0)) failf("%s: the block reaches beyond the program break", w);
    auto it = iv.lower_bound((ul)p + 1);
    if (it != iv.begin()) { auto q = std::prev(it); if (q->second > (ul)p) failf("%s: %lu bytes overlap a live block", w, size); }
    if (it != iv.end() && it->first < (ul)p + size) failf("%s: %lu bytes overlap a live block", w, size);
    iv[(ul)p] = (ul)p + size; Blk b{p, size, tags++, mgr, rec}; fillAll(b); live.push_back(b); if (!rec) bytes += size;
    st.inc("allocs");
  }
  void fillAll(const Blk &b) { if (b.size <= 8192) { fill(b, 0); return; } memset(b.p, 0x5A, b.size); fill(b, 0); }
  void drop(size_t i) { iv.erase((ul)live[i].p); if (!live[i].rec) bytes -= live[i].size; live[i] = live.back(); live.pop_back(); }
  void freeAt(size_t i, const char *w) {
    Blk b = live[i]; verify(b, w);
    if (b.rec) { auto &m = mgrs[b.mgr]; Cal_MemFreeRec(m.m, b.p); m.live.erase(std::find(m.live.begin(), m.live.end(), b.p)); m.released.push_back(b.p); }
    else Cal_MemFreeBlock(b.p);
    drop(i); st.inc("frees");
  }
  static ul sizeOf(long kind, long v) { // sizes around the powers of two, small ones, megabytes
    switch (kind % 6) {
      case 0: return 1 + v % 64;
      case 1: return 1 + v % 5000;
      case 2: { ul k = 6 + v % 11; return (1ul << k) - 60 + (v / 16) % 76; }
      case 3: { ul k = 12 + v % 9; long d = (long)((v / 16) % 97) - 60; return (1ul << k) + d; }
      case 4: return 1 + v * 37 % 200000;
      default: return (v % 7 == 0) ? (1ul << 20) + v * 31 : 4000 + v % 200;
    }
  }
  int rnew(int mi, const char *w) {
    Mgr &m = mgrs[mi]; ul before = Cal_MemAllocation(); char *p = (char *)Cal_MemNewRec(m.m);
    bool was = std::find(m.released.begin(), m.released.end(), p) != m.released.end();
    if (!m.released.empty() && Cal_MemAllocation() != before) failf("%s: a new record took fresh memory although %zu records are released", w, m.released.size());
    if (was) { m.released.erase(std::find(m.released.begin(), m.released.end(), p)); st.inc("recs_reused"); }
    add(p, m.size, true, mi, w); m.live.push_back(p); return 0;
  }
  void step(const Op &o) {
    const string &n = o.name; const char *w = n.c_str();
    auto A = [&](size_t i) { return i < o.a.size() ? absl(o.a[i]) : 0L; };
    if (n == "GET") { long k = 1 + A(2) % 12; for (long q = 0; q < k; q++) { ul s = sizeOf(A(0), A(1) + q * A(3)); if (bytes + s > CAP || live.size() > 15000) return; add((char *)Cal_MemGetBlock(s), s, false, -1, w); } return; }
    if (n == "MANY") { ul s = 1 + A(0) % 600; for (long q = 0; q < A(1) % 300; q++) { if (bytes + s > CAP || live.size() > 15000) return; add((char *)Cal_MemGetBlock(s), s, false, -1, w); } return; }
    if (n == "ZERO") { if (Cal_MemGetBlock(0)) failf("zero: a block for no bytes"); Cal_MemFreeBlock(nullptr); return; }
    if (n == "FREE") { long k = 1 + A(1) % 20; for (long q = 0; q < k && !live.empty(); q++) freeAt((A(0) + q * A(2)) % live.size(), w); return; }
    if (n == "FREEALL") { Rng r(A(0)); while (!live.empty()) { size_t i = A(0) & 1 ? live.size() - 1 : r.next() % live.size(); freeAt(i, w); } return; }
    if (n == "RESIZE") {
      ul s = sizeOf(A(1), A(2)); vector<size_t> bl; for (size_t i = 0; i < live.size(); i++) if (!live[i].rec) bl.push_back(i);
      if (bl.empty() || A(3) % 10 == 0) { if (bytes + s > CAP) return; add((char *)Cal_MemResizeBlock(nullptr, s), s, false, -1, w); st.inc("resize_null"); return; }
      size_t i = bl[A(0) % bl.size()]; Blk b = live[i]; if (A(3) % 10 == 1) { verify(b, w); if (Cal_MemResizeBlock(b.p, 0)) failf("resize: a block for no bytes"); drop(i); return; }
      switch (A(3) % 10) { case 2: s = b.size * 2; break; case 3: s = b.size / 2 + 1; break; case 4: s = b.size + 1 + A(2) % 64; break; case 5: s = b.size * 4; break; default: break; }
      if (bytes + s > CAP) return; verify(b, w);
      char *p = (char *)Cal_MemResizeBlock(b.p, s); drop(i); ul common = std::min(b.size, s); if (!p) failf("resize: null for %lu bytes", s);
      each(0, b.size, [&](ul x) { if (x < common && (unsigned char)p[x] != pat(b.tag, x)) failf("resize: byte %lu of %lu changed (%lu bytes became %lu, %s)", x, common, b.size, s, p == b.p ? "in place" : "moved"); });
      add(p, s, false, -1, w); st.inc("resizes"); st.inc(p == b.p ? (s > b.size ? "resize_grow_inplace" : "resize_shrink") : "resize_moved"); return; }
    if (n == "BRK") { long d = A(0) % 3 == 0 ? A(1) % 64 : A(1) % 20000; if (sbrk(d) == (void *)-1) return; st.inc("breaks_moved"); return; } // someone else moves the break
    if (n == "RMGR") { if (mgrs.size() >= 8) return; int s = A(0) % 4 == 0 ? 1 + (int)(A(1) % 8) : A(0) % 4 == 1 ? (int)(1000 + A(1) % 3000) : (int)(1 + A(1) % 400); Mgr m; m.m = Cal_MemNewRecMgr(s); if (!m.m) failf("rmgr: null"); m.size = s; m.live.reserve(4000); m.released.reserve(4000); mgrs.push_back(std::move(m)); return; }
    if (n == "RNEW") { if (mgrs.empty()) return; int mi = (int)(A(0) % mgrs.size()); if (!mgrs[mi].m) return; for (long q = 0; q < 1 + A(1) % 60; q++) { if (mgrs[mi].live.size() >= 3000) return; rnew(mi, w); } return; }
    if (n == "RFREE") { if (mgrs.empty()) return; int mi = (int)(A(0) % mgrs.size()); for (long q = 0; q < 1 + A(1) % 60; q++) { vector<size_t> r; for (size_t i = 0; i < live.size(); i++) if (live[i].rec && live[i].mgr == mi) r.push_back(i); if (r.empty()) return; freeAt(r[(A(2) * (q + 1)) % r.size()], w); } return; }
    if (n == "RQUIT") { if (mgrs.empty()) return; int mi = (int)(A(0) % mgrs.size()); quit(mi, w); return; }
    if (n == "CHECK") { verifyAll(w); return; }
    if (n == "CYCLE") { // the same blocks allocated and released again and again: only the first round may grow memory
      vector<ul> ss; ul tot = 0; for (size_t i = 2; i < o.a.size(); i++) { ul s = sizeOf(A(0) + i, A(i)); for (long q = 0; q < 1 + A(1) % 40; q++) { if (tot + s > CAP / 3) break; ss.push_back(s); tot += s; } }
      if (ss.empty()) return; Rng r(A(0)); vector<char *> ps(ss.size()); ul after = 0;
      for (int round = 0; round < 4; round++) { for (size_t i = 0; i < ss.size(); i++) { ps[i] = (char *)Cal_MemGetBlock(ss[i]); if (!ps[i]) failf("cycle: null"); ps[i][0] = 1; ps[i][ss[i] - 1] = 2; }
        for (size_t i = ps.size(); i > 1; i--) std::swap(ps[i - 1], ps[r.next() % i]); for (auto p : ps) Cal_MemFreeBlock(p);
        if (round == 0) after = Cal_MemAllocation(); else if (Cal_MemAllocation() != after) failf("cycle: round %d over %zu blocks grew memory from %lu to %lu bytes", round, ss.size(), after, (ul)Cal_MemAllocation()); }
      st.inc("cycles"); return; }
    if (n == "MERGE") { // released neighbours serve bigger requests
      ul k = 7 + A(0) % 10, s = (1ul << k) - 48 - A(1) % 16; if (s + 48 <= (1ul << (k - 1))) return; size_t cnt = std::min<size_t>(4000, (4ul << 20) >> k); vector<char *> ps(cnt);
      ul before = Cal_MemAllocation(); for (auto &p : ps) p = (char *)Cal_MemGetBlock(s); ul grown = Cal_MemAllocation() - before; Rng r(A(2)); for (size_t i = ps.size(); i > 1; i--) std::swap(ps[i - 1], ps[r.next() % i]);
      for (auto p : ps) Cal_MemFreeBlock(p);
      ul up = 1 + A(3) % 3, slack = (3ul << 15) + (2ul << (k + up)); if (grown <= slack) return; /* both ends of the range may be unaligned */ ul c2 = (grown - slack) >> (k + up); if (!c2) return;
      ul t = Cal_MemAllocation(), s2 = (1ul << (k + up)) - 48; vector<char *>().swap(ps); char *qs[4000]; if (c2 > 4000) c2 = 4000; for (ul i = 0; i < c2; i++) qs[i] = (char *)Cal_MemGetBlock(s2);
      if (Cal_MemAllocation() != t) failf("merge: %lu blocks of %lu bytes grew memory by %lu although %lu bytes of adjacent released blocks are available", c2, s2, (ul)(Cal_MemAllocation() - t), grown);
      for (ul i = 0; i < c2; i++) Cal_MemFreeBlock(qs[i]); st.inc("merges"); return; }
    if (n == "NOP") return;
    failf("harness: unknown operation %s", w);
  }
  void quit(int mi, const char *w) { Mgr &m = mgrs[mi]; for (size_t i = 0; i < live.size();) { if (live[i].rec && live[i].mgr == mi) { verify(live[i], w); drop(i); } else i++; } Cal_MemFreeRecMgr(m.m); mgrs.erase(mgrs.begin() + mi); for (auto &b : live) if (b.rec && b.mgr > mi) b.mgr--; st.inc("mgr_quits"); }
  void run() {
    for (auto &o : c.ops) { if (getenv("PBT_TRACE")) { fprintf(stderr, "%s", o.name.c_str()); for (long x : o.a) fprintf(stderr, " %ld", x); fprintf(stderr, "\n"); } step(o); st.inc("ops"); }
    verifyAll("end"); while (!mgrs.empty()) quit(0, "end"); while (!live.empty()) freeAt(live.size() - 1, "end");
  }
};
void execCase(const Case &c, Stats &st) { Env e(c, st); e.run(); }
void harnessInit() {}
static Case gen(Rng &r, bool th) {
  Case c; struct W { const char *n; int w, lo, hi; };
  static const W mix[] = {{"GET", 14, 4, 4}, {"MANY", 2, 2, 2}, {"ZERO", 1, 0, 0}, {"FREE", 12, 3, 3}, {"FREEALL", 1, 1, 1}, {"RESIZE", 16, 4, 4}, {"BRK", 3, 2, 2}, {"RMGR", 3, 2, 2}, {"RNEW", 8, 2, 2}, {"RFREE", 5, 3, 3}, {"RQUIT", 1, 1, 1}, {"CHECK", 4, 0, 0}, {"CYCLE", 3, 3, 8}, {"MERGE", 1, 4, 4}};
  int tot = 0; for (auto &w : mix) tot += w.w;
  int n = r.range(20, th ? 200 : 90); bool brk = r.chance(60);
  for (int i = 0; i < n; i++) { int x = r.range(0, tot - 1); const W *s = mix; while (x >= s->w) { x -= s->w; s++; } Op o; o.name = s->n; if (!brk && o.name == "BRK") o.name = "CHECK"; int k = r.range(s->lo, s->hi); for (int q = 0; q < k; q++) o.a.push_back(r.range(0, 65535)); c.ops.push_back(o); }
  return c;
}
vector<PropDef> &properties() {
  static vector<PropDef> p = {{"C20", gen, [](const Stats &s, const Case &) { return s.get("allocs") >= 20 && s.get("frees") >= 5 && s.get("resizes") >= 1 && s.get("verifies") >= 1; }, "at least 20 allocations, 5 releases and a resize, with every live block compared byte by byte with its model at least once", {8000, 40}, {200000, 600}, 1, 30}};
  return p;
}
