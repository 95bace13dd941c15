// Truth tables: the reference model of a Boolean function.
// A table ranges over n >= 6 variables (n is fixed per case); bit x of the table
// is the value of the function under the assignment whose i-th bit is variable i.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <functional>

struct TT {
  int n = 6;
  std::vector<uint64_t> w;
  TT() : n(6), w(1, 0) {}
  explicit TT(int n_, bool v = false) : n(n_ < 6 ? 6 : n_), w((size_t)1 << ((n_ < 6 ? 6 : n_) - 6), v ? ~0ull : 0ull) {}
  size_t bits() const { return (size_t)1 << n; }
  bool get(size_t x) const { return (w[x >> 6] >> (x & 63)) & 1; }
  void set(size_t x, bool v) { if (v) w[x >> 6] |= 1ull << (x & 63); else w[x >> 6] &= ~(1ull << (x & 63)); }
  bool operator==(const TT &o) const { return w == o.w; }
  bool operator!=(const TT &o) const { return w != o.w; }
  bool operator<(const TT &o) const { return w < o.w; }
  bool isZero() const { for (auto x : w) if (x) return false; return true; }
  bool isOne() const { for (auto x : w) if (~x) return false; return true; }
  bool isConst() const { return isZero() || isOne(); }
  uint64_t count() const { uint64_t c = 0; for (auto x : w) c += __builtin_popcountll(x); return c; }
  static uint64_t mask(int v) {
    static const uint64_t m[6] = {0xAAAAAAAAAAAAAAAAull, 0xCCCCCCCCCCCCCCCCull, 0xF0F0F0F0F0F0F0F0ull,
                                  0xFF00FF00FF00FF00ull, 0xFFFF0000FFFF0000ull, 0xFFFFFFFF00000000ull};
    return m[v];
  }
  static TT var(int n, int v) {
    TT r(n);
    if (v < 6) for (auto &x : r.w) x = mask(v);
    else for (size_t i = 0; i < r.w.size(); i++) r.w[i] = ((i >> (v - 6)) & 1) ? ~0ull : 0ull;
    return r;
  }
  TT operator~() const { TT r(*this); for (auto &x : r.w) x = ~x; return r; }
#define TTOP(op) TT operator op(const TT &o) const { TT r(*this); for (size_t i = 0; i < w.size(); i++) r.w[i] = w[i] op o.w[i]; return r; }
  TTOP(&) TTOP(|) TTOP(^)
#undef TTOP
  TT ite(const TT &g, const TT &h) const { return (*this & g) | (~*this & h); }
  // cofactor with variable v fixed
  TT cof(int v, bool val) const {
    TT r(*this);
    if (v < 6) {
      uint64_t m = mask(v); int s = 1 << v;
      for (auto &x : r.w) { if (val) { uint64_t h = x & m; x = h | (h >> s); } else { uint64_t l = x & ~m; x = l | (l << s); } }
    } else {
      size_t s = (size_t)1 << (v - 6);
      for (size_t i = 0; i < w.size(); i++) r.w[i] = val ? w[i | s] : w[i & ~s];
    }
    return r;
  }
  bool dependsOn(int v) const { return cof(v, false) != cof(v, true); }
  std::vector<int> support() const { std::vector<int> s; for (int v = 0; v < n; v++) if (dependsOn(v)) s.push_back(v); return s; }
  TT exists(int v) const { return cof(v, false) | cof(v, true); }
  TT forall(int v) const { return cof(v, false) & cof(v, true); }
  bool implies(const TT &o) const { for (size_t i = 0; i < w.size(); i++) if (w[i] & ~o.w[i]) return false; return true; }
  // simultaneous substitution; sub[v] == nullptr keeps v
  TT subst(const std::vector<const TT *> &sub) const {
    TT r(n);
    for (size_t x = 0; x < bits(); x++) {
      size_t y = x;
      for (int v = 0; v < n; v++) if (v < (int)sub.size() && sub[v]) { if (sub[v]->get(x)) y |= (size_t)1 << v; else y &= ~((size_t)1 << v); }
      if (get(y)) r.set(x, true);
    }
    return r;
  }
  // table as a byte string with variables permuted: ord[0] is the most significant (top) variable
  std::string permuted(const std::vector<int> &ord) const {
    int k = ord.size();
    std::string s((size_t)1 << k, 0);
    for (size_t p = 0; p < s.size(); p++) {
      size_t x = 0;
      for (int i = 0; i < k; i++) if ((p >> (k - 1 - i)) & 1) x |= (size_t)1 << ord[i];
      s[p] = get(x);
    }
    return s;
  }
  static TT fromPermuted(int n, const std::string &s, const std::vector<int> &ord) {
    TT r(n);
    int k = ord.size();
    for (size_t x = 0; x < r.bits(); x++) {
      size_t p = 0;
      for (int i = 0; i < k; i++) if ((x >> ord[i]) & 1) p |= (size_t)1 << (k - 1 - i);
      r.set(x, s[p]);
    }
    return r;
  }
  std::string str() const {
    std::string s; char b[20];
    for (size_t i = std::min(w.size(), (size_t)8); i-- > 0;) { snprintf(b, sizeof b, "%016llx", (unsigned long long)w[i]); s += b; }
    if (w.size() > 8) s = ".." + s;
    return s;
  }
  uint64_t hash() const { uint64_t h = 1469598103934665603ull; for (auto x : w) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; }
};
struct TTHash { size_t operator()(const TT &t) const { return t.hash(); } };

// Coudert-Madre constrain of f by c under the order (c satisfiable)
inline TT ttConstrain(const TT &f, const TT &c, const std::vector<int> &ord) {
  std::string F = f.permuted(ord), C = c.permuted(ord), R(F.size(), 0);
  int k = ord.size();
  // any[l][p]: is C satisfiable with the first l order variables fixed to prefix p
  std::vector<std::vector<char>> any(k + 1);
  any[k].assign(C.begin(), C.end());
  for (int l = k - 1; l >= 0; l--) { any[l].resize((size_t)1 << l); for (size_t p = 0; p < any[l].size(); p++) any[l][p] = any[l + 1][2 * p] || any[l + 1][2 * p + 1]; }
  for (size_t x = 0; x < F.size(); x++) {
    size_t p = 0;
    for (int l = 0; l < k; l++) { size_t b = (x >> (k - 1 - l)) & 1; p = 2 * p + b; if (!any[l + 1][p]) p ^= 1; }
    R[x] = F[p];
  }
  return TT::fromPermuted(f.n, R, ord);
}

// The reduced ordered diagram of a set of functions under an order, as counts.
struct Shape {
  std::vector<long> lvlNeg, lvlPos, func; // nodes per order position: with complement edges / without; function profile
  long constNeg = 0, constPos = 0;
  long sizeNeg() const { long s = constNeg; for (auto x : lvlNeg) s += x; return s; }
  long sizePos() const { long s = constPos; for (auto x : lvlPos) s += x; return s; }
};
