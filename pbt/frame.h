// Engine: case format, deterministic generation, isolated execution, shrinking, evidence.
#pragma once
#include <cstdint>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  long range(long lo, long hi) { return lo + (long)(next() % (uint64_t)(hi - lo + 1)); } // inclusive
  bool chance(int pct) { return (int)(next() % 100) < pct; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

struct Op { std::string name; std::vector<long> a; };
struct Case {
  std::map<std::string, long> cfg;
  std::vector<Op> ops;
  std::string text() const;
  static bool parse(const std::string &s, Case &c);
  long get(const std::string &k, long d) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
};

struct Fail { std::string msg; };

// Counters measured during one case; names are registered on first use.
struct Stats {
  std::map<std::string, long> c;
  void inc(const char *k, long n = 1) { c[k] += n; }
  long get(const char *k) const { auto i = c.find(k); return i == c.end() ? 0 : i->second; }
};

struct Tier { int cases; int seconds; };
struct PropDef {
  std::string id;
  Case (*gen)(Rng &, bool thorough);
  bool (*nontrivial)(const Stats &, const Case &);
  std::string rule;
  Tier quick, thorough;
  int batch;      // cases per child process
  int timeout_s;  // per case
};

// Provided by each harness binary.
extern std::vector<PropDef> &properties();
extern void execCase(const Case &c, Stats &st); // throws Fail
extern void harnessInit();                      // once, before forking

int frameMain(int argc, char **argv);
