#ifdef PBT_GCOV
extern "C" void __gcov_dump(void);
#endif
#include "frame.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <sstream>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using std::string; using std::vector;

string Case::text() const {
  string s = "cfg";
  for (auto &k : cfg) s += " " + k.first + "=" + std::to_string(k.second);
  s += "\n";
  for (auto &o : ops) { s += o.name; for (long x : o.a) s += " " + std::to_string(x); s += "\n"; }
  return s;
}
bool Case::parse(const string &t, Case &c) {
  std::istringstream in(t); string line; bool any = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line); string w; l >> w;
    if (w == "cfg") { any = true; while (l >> w) { auto e = w.find('='); if (e == string::npos) return false; c.cfg[w.substr(0, e)] = atol(w.c_str() + e + 1); } }
    else { Op o; o.name = w; long x; while (l >> x) o.a.push_back(x); c.ops.push_back(o); }
  }
  return any;
}

static double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
static uint64_t fnv(const string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; } return h ^ (h >> 31); }

static const int MAXB = 64;
struct Shm {
  volatile long progress;    // cases started in this batch
  volatile long done;        // cases finished in this batch
  volatile int failed;       // an oracle failed
  char msg[4096];
  uint64_t hash[MAXB]; char nontriv[MAXB];
  char counters[16384];      // name=value lines, whole batch
};

static Shm *newShm() { void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return (Shm *)p; }

static uint64_t caseSeed(uint64_t seed, const string &id, long i) { Rng r(seed * 0x9E3779B97F4A7C15ull + fnv(id)); uint64_t a = r.next(); Rng q(a + (uint64_t)i * 0xD1342543DE82EF95ull); return q.next(); }

static void childSetup(int errfd) {
  int n = open("/dev/null", O_RDWR);
  dup2(n, 0); dup2(n, 1);
  if (errfd >= 0) dup2(errfd, 2); else dup2(n, 2);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = rl.rlim_max = 64u << 20; setrlimit(RLIMIT_FSIZE, &rl);
}

// run a list of cases in this (child) process
static void childRun(const vector<Case> &cs, const PropDef *p, Shm *sh) {
  Stats total;
  for (size_t i = 0; i < cs.size(); i++) {
    sh->progress = i + 1;
    Stats st;
    try { execCase(cs[i], st); }
    catch (Fail &f) { strncpy(sh->msg, f.msg.c_str(), sizeof sh->msg - 1); sh->failed = 1; _exit(42); }
    if (p) { sh->hash[i] = fnv(cs[i].text()); sh->nontriv[i] = p->nontrivial(st, cs[i]); }
    for (auto &k : st.c) total.c[k.first] += k.second;
    sh->done = i + 1;
  }
  string s; for (auto &k : total.c) s += k.first + "=" + std::to_string(k.second) + "\n";
  strncpy(sh->counters, s.c_str(), sizeof sh->counters - 1);
  
#ifdef PBT_GCOV
  __gcov_dump();
#endif
  _exit(0);
}

struct Outcome { bool ok = true; string msg; };

static string tailOf(int fd) {
  string s; char b[4096]; off_t n = lseek(fd, 0, SEEK_END);
  off_t from = n > 12000 ? 0 : 0; lseek(fd, from, SEEK_SET);
  ssize_t r; while ((r = read(fd, b, sizeof b)) > 0 && s.size() < 20000) s.append(b, r);
  string out;
  // keep the informative lines
  std::istringstream in(s); string l; int k = 0;
  while (std::getline(in, l)) if ((l.find("ERROR") != string::npos || l.find("runtime error") != string::npos || l.find("Fatal") != string::npos || l.find("ssert") != string::npos || l.find("    #") != string::npos || l.find("fatal") != string::npos) && k++ < 8) out += l.substr(0, 200) + " | ";
  return out.substr(0, 1500);
}

static Outcome judge(int status, bool hung, Shm *sh, size_t ncases, int errfd) {
  Outcome o;
  if (hung) { o.ok = false; o.msg = "hang: no progress within the time limit"; return o; }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && sh->done == (long)ncases) return o;
  o.ok = false;
  if (sh->failed) o.msg = sh->msg;
  else if (WIFSIGNALED(status)) o.msg = "crash: signal " + std::to_string(WTERMSIG(status)) + " " + tailOf(errfd);
  else o.msg = "process terminated by the library: exit status " + std::to_string(WEXITSTATUS(status)) + " " + tailOf(errfd);
  return o;
}

static Outcome runIsolated(const vector<Case> &cs, int timeout_s) {
  Shm *sh = newShm();
  int efd = memfd_create("err", 0);
  pid_t pid = fork();
  if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0); childSetup(efd); childRun(cs, nullptr, sh); }
  double t0 = now(); int status = 0; bool hung = false;
  for (;;) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > timeout_s * (double)cs.size()) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &status, 0); hung = true; break; }
    usleep(500);
  }
  Outcome o = judge(status, hung, sh, cs.size(), efd);
  close(efd); munmap(sh, sizeof(Shm));
  return o;
}

static string kindOf(const string &m) {
  // coarse class, so that shrinking keeps the same kind of failure
  if (m.rfind("hang", 0) == 0) return "hang";
  if (m.rfind("crash", 0) == 0) return "crash";
  if (m.rfind("process terminated", 0) == 0) return "exit";
  auto p = m.find(':'); return p == string::npos ? m : m.substr(0, p);
}

// class of a failure for triage: no addresses or process numbers, with the first frames inside the library
static string triageKey(const string &m0) {
  string m; for (size_t i = 0; i < m0.size(); i++) { if (m0.compare(i, 2, "==") == 0 && isdigit((unsigned char)m0[i + 2])) { i += 2; while (isdigit((unsigned char)m0[i])) i++; i++; continue; } if (m0.compare(i, 2, "0x") == 0) { i += 2; while (isxdigit((unsigned char)m0[i])) i++; i--; m += '@'; continue; } m += m0[i]; }
  string k; size_t a = m.find("Assertion"), b = m.find("AddressSanitizer:"), c = m.find("runtime error:");
  { string q; for (size_t i = 0; i < m.size();) { if (isdigit((unsigned char)m[i]) && m.find("src/cal") == string::npos) { while (i < m.size() && isxdigit((unsigned char)m[i])) i++; q += 'N'; } else q += m[i++]; } m = q; }
  if (a != string::npos) { size_t q = m.rfind("/repo/src/", a); k = q == string::npos ? m.substr(a, 100) : m.substr(q + 10, 150); return k; }
  if (b != string::npos) k = m.substr(b, 60); else if (c != string::npos) k = m.substr(c, 70); else k = m.substr(0, 150);
  size_t p = 0; int n = 0; while (n < 4 && (p = m.find("/repo/src/", p)) != string::npos) { size_t e = m.find_first_of(" |", p); k += " <" + m.substr(p + 10, e - p - 10) + ">"; p = e; n++; }
  return k;
}

static vector<Case> shrink(vector<Case> cs, const string &msg, int timeout_s, double budget) {
  double end = now() + budget;
  string kind = kindOf(msg);
  if (kind == "hang") timeout_s = std::min(timeout_s, 10);
  auto bad = [&](const vector<Case> &c) { if (now() > end) return false; Outcome o = runIsolated(c, timeout_s); return !o.ok && kindOf(o.msg) == kind; };
  // drop whole cases
  for (size_t i = 0; i + 1 < cs.size() && now() < end;) { auto t = cs; t.erase(t.begin() + i); if (bad(t)) cs = t; else i++; }
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t ci = 0; ci < cs.size(); ci++) {
      // ddmin on operations
      for (size_t chunk = std::max<size_t>(1, cs[ci].ops.size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < cs[ci].ops.size() && now() < end;) {
          auto t = cs; auto &o = t[ci].ops; size_t e = std::min(o.size(), i + chunk);
          o.erase(o.begin() + i, o.begin() + e);
          if (bad(t)) { cs = t; progress = true; } else i += chunk;
        }
        if (chunk == 1) break;
      }
      // drop trailing arguments, shrink arguments
      for (size_t i = 0; i < cs[ci].ops.size() && now() < end; i++) {
        for (size_t k = cs[ci].ops[i].a.size(); k-- > 0 && now() < end;) {
          { auto t = cs; auto &a = t[ci].ops[i].a; a.erase(a.begin() + k); if (a.size() >= 1 && bad(t)) { cs = t; progress = true; continue; } }
          for (long v : {0L, 1L, cs[ci].ops[i].a[k] / 2, cs[ci].ops[i].a[k] - 1}) {
            long cur = cs[ci].ops[i].a[k];
            if (std::abs(v) >= std::abs(cur)) continue;
            auto t = cs; t[ci].ops[i].a[k] = v; if (bad(t)) { cs = t; progress = true; break; }
          }
        }
      }
      vector<string> keys; for (auto &k : cs[ci].cfg) keys.push_back(k.first);
      for (auto &k : keys) { if (k == "mode") continue; auto t = cs; t[ci].cfg.erase(k); if (bad(t)) { cs = t; progress = true; } }
    }
  }
  return cs;
}

static string joinCases(const vector<Case> &cs) { string s; for (size_t i = 0; i < cs.size(); i++) { if (i) s += "---\n"; s += cs[i].text(); } return s; }
static bool loadCases(const string &path, vector<Case> &cs) {
  std::ifstream f(path); if (!f) return false; std::stringstream ss; ss << f.rdbuf(); string t = ss.str();
  size_t pos = 0;
  for (;;) { size_t e = t.find("---\n", pos); Case c; if (Case::parse(t.substr(pos, e == string::npos ? string::npos : e - pos), c)) cs.push_back(c); if (e == string::npos) break; pos = e + 4; }
  return !cs.empty();
}

static string jsonStr(const string &s) { string o = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o + "\""; }

// replay in a fresh process (exec), three times
static int replayFresh(const char *self, const string &path, int timeout_s) {
  pid_t pid = fork();
  if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2); string t = std::to_string(timeout_s); execl(self, self, "replay", path.c_str(), t.c_str(), (char *)0); _exit(3); }
  int st; waitpid(pid, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 9;
}

struct Running { pid_t pid; Shm *sh; int efd; long first; int n; long lastProg; double lastT; };

int frameMain(int argc, char **argv) {
  signal(SIGPIPE, SIG_IGN);
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("PBT_NOASLR")) {
    setenv("PBT_NOASLR", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  char selfb[4096]; ssize_t sn = readlink("/proc/self/exe", selfb, sizeof selfb - 1); string self = sn > 0 ? string(selfb, sn) : argv[0];
  harnessInit();
  string cmd = argc > 1 ? argv[1] : "";
  auto find = [&](const string &id) -> PropDef * { for (auto &p : properties()) if (p.id == id) return &p; return nullptr; };
  if (cmd == "list") { for (auto &p : properties()) printf("%s\n", p.id.c_str()); return 0; }
  if (cmd == "replay") {
    vector<Case> cs; if (argc < 3 || !loadCases(argv[2], cs)) { fprintf(stderr, "cannot read replay\n"); return 3; }
    Outcome o = runIsolated(cs, argc > 3 ? atoi(argv[3]) : 60);
    if (o.ok) { printf("replay: ok\n"); return 0; }
    printf("replay: FAILS: %s\n", o.msg.c_str()); return 1;
  }
  if (cmd == "exec") { // in process, for debugging
    vector<Case> cs; if (argc < 3 || !loadCases(argv[2], cs)) return 3;
    for (auto &c : cs) { Stats st; try { execCase(c, st); } catch (Fail &f) { fprintf(stderr, "FAIL: %s\n", f.msg.c_str()); return 1; } for (auto &k : st.c) printf("%s=%ld\n", k.first.c_str(), k.second); }
    return 0;
  }
  if (cmd == "gen") { PropDef *p = find(argv[2]); Rng r(caseSeed(atol(argv[3]), p->id, atol(argv[4]))); fputs(p->gen(r, argc > 5).text().c_str(), stdout); return 0; }
  if (cmd == "shrink") { vector<Case> cs; loadCases(argv[2], cs); Outcome o = runIsolated(cs, 60); if (o.ok) { printf("does not fail\n"); return 0; } printf("%s\n", o.msg.c_str()); fputs(joinCases(shrink(cs, o.msg, 30, argc > 3 ? atof(argv[3]) : 120)).c_str(), stdout); return 1; }
  if (cmd != "run") { fprintf(stderr, "usage: run ID --tier T --seed N --out FILE --replays DIR | replay FILE | exec FILE | gen ID SEED I | list\n"); return 3; }

  string id = argv[2], tier = "quick", out, rdir = "."; uint64_t seed = 1; int jobs = 8; double scale = 1; long fixedCases = -1; double fixedSecs = -1; bool keepGoing = false; string hashes, variant;
  for (int i = 3; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(++i < argc ? argv[i] : ""); };
    if (a == "--tier") tier = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--out") out = nx(); else if (a == "--replays") rdir = nx();
    else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--scale") scale = atof(nx().c_str()); else if (a == "--cases") fixedCases = atol(nx().c_str()); else if (a == "--seconds") fixedSecs = atof(nx().c_str()); else if (a == "--keep-going") keepGoing = true; else if (a == "--hashes") hashes = nx(); else if (a == "--variant") variant = nx(); }
  PropDef *p = find(id); if (!p) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 3; }
  bool thorough = tier == "thorough";
  Tier T = thorough ? p->thorough : p->quick;
  long maxCases = fixedCases >= 0 ? fixedCases : (long)(T.cases * scale); double secs = fixedSecs >= 0 ? fixedSecs : T.seconds;
  int B = std::min(p->batch, MAXB);
  double t0 = now(); long next = 0, evals = 0, nontriv = 0; std::unordered_set<uint64_t> distinct; std::map<string, long> counters; vector<string> samples;
  vector<Running> run; bool stop = false; vector<Case> bad; string badMsg; std::map<string, int> kinds;
  auto genCase = [&](long i) { Rng r(caseSeed(seed, id, i)); return p->gen(r, thorough); };
  mkdir(rdir.c_str(), 0777);
  string replay = rdir + "/" + id + "-" + tier + "-" + std::to_string(seed) + ".case";
  int unconfirmed = 0; vector<Case> base; bool have = false, hang = false; // a hang is confirmed once, so that the answer comes in time
  auto save = [&](const vector<Case> &cs, const string &m) { string first = m.substr(0, m.find('\n')); std::ofstream f(replay); f << "# property " << id << (variant.empty() ? "" : " [variant " + variant + "]") << ": " << first << "\n" << joinCases(cs); };
  auto confirmed = [&](int n) { for (int k = 0; k < (hang ? 1 : n); k++) if (replayFresh(self.c_str(), replay, p->timeout_s * (hang ? 1 : 2)) != 1) return false; return true; };
  auto confirm = [&](const vector<Case> &all, const string &msg) {
    vector<Case> single(1, all.back()); hang = kindOf(msg) == "hang";
    save(single, msg); if (confirmed(3)) { base = single; return have = true; }
    if (all.size() > 1) { save(all, msg); if (confirmed(3)) { base = all; return have = true; } }
    unlink(replay.c_str()); return false; };
  while (true) {
    while (!stop && (int)run.size() < jobs && next < maxCases && now() - t0 < secs) {
      Running r; r.first = next; r.n = (int)std::min<long>(B, maxCases - next); next += r.n; r.sh = newShm(); r.efd = memfd_create("err", 0); r.lastProg = 0; r.lastT = now();
      r.pid = fork();
      if (r.pid < 0) { perror("fork"); return 3; }
      if (r.pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0); childSetup(r.efd); vector<Case> cs; for (int k = 0; k < r.n; k++) cs.push_back(genCase(r.first + k)); childRun(cs, p, r.sh); }
      run.push_back(r);
    }
    if (run.empty()) break;
    bool any = false;
    for (size_t i = 0; i < run.size();) {
      Running &r = run[i]; int status; bool hung = false; pid_t w = waitpid(r.pid, &status, WNOHANG);
      if (w == 0) { if (r.sh->progress != r.lastProg) { r.lastProg = r.sh->progress; r.lastT = now(); } else if (now() - r.lastT > p->timeout_s) { kill(-r.pid, SIGKILL); kill(r.pid, SIGKILL); waitpid(r.pid, &status, 0); hung = true; w = r.pid; } }
      if (w == 0) { i++; continue; }
      any = true;
      Outcome o = judge(status, hung, r.sh, r.n, r.efd);
      evals += r.sh->done;
      for (long k = 0; k < r.sh->done; k++) if (r.sh->nontriv[k]) { nontriv++; if (distinct.insert(r.sh->hash[k]).second && samples.size() < 3 && k % 2 == 0) samples.push_back(genCase(r.first + k).text()); }
      std::istringstream cs(r.sh->counters); string l; while (std::getline(cs, l)) { auto e = l.find('='); if (e != string::npos) counters[l.substr(0, e)] += atol(l.c_str() + e + 1); }
      if (!o.ok) {
        evals++;
        if (keepGoing) { string key = triageKey(o.msg); if (kinds[key]++ < 1) { printf("FAIL case %ld (batch %ld+%ld): %s\n", r.first + r.sh->progress - 1, r.first, (long)r.sh->progress - 1, getenv("PBT_FULL") ? o.msg.c_str() : key.c_str()); fflush(stdout); } }
        else if (!stop) {
          vector<Case> all; for (long k = 0; k < r.sh->progress; k++) all.push_back(genCase(r.first + k));
          if (confirm(all, o.msg)) { stop = true; badMsg = o.msg; }
          else { printf("note: a failure did not reproduce in a fresh process: %s\n", o.msg.c_str()); if (o.msg.rfind("hang", 0) != 0 && o.msg.rfind("crash: signal 9", 0) != 0) { if (!unconfirmed++) { bad = all; badMsg = o.msg; } if (unconfirmed >= 4) stop = true; } }
        }
      }
      close(r.efd); munmap(r.sh, sizeof(Shm)); run.erase(run.begin() + i);
      if (stop) { for (auto &q : run) { kill(-q.pid, SIGKILL); kill(q.pid, SIGKILL); int s; waitpid(q.pid, &s, 0); } run.clear(); break; }
    }
    if (stop) break;
    if (!any) usleep(300);
  }
  int rc = 0;
  if (have) {
    Outcome o; if (hang) { o.ok = false; o.msg = badMsg; } else o = runIsolated(base, p->timeout_s * 2);
    if (!o.ok) { auto s = getenv("PBT_NOSHRINK") ? base : shrink(base, o.msg, p->timeout_s, thorough ? 180 : 90); /* PBT_NOSHRINK: for experiments */ Outcome o2 = runIsolated(s, p->timeout_s * (hang ? 1 : 2)); save(s, o2.ok ? o.msg : o2.msg); if (!o2.ok) badMsg = o2.msg; if (!confirmed(3)) save(base, badMsg); }
    else save(base, badMsg);
    rc = 1;
  } else if (unconfirmed >= 2) { save(bad, badMsg); printf("note: the failures depend on process state; the replay is the whole batch\n"); rc = 1; }
  double wall = now() - t0;
  if (!hashes.empty()) { std::ofstream f(hashes, std::ios::binary); for (uint64_t h : distinct) f.write((const char *)&h, 8); }
  if (!out.empty()) {
    std::ofstream f(out);
    f << "{\n \"property\": " << jsonStr(id) << ", \"tier\": " << jsonStr(tier) << ", \"seed\": " << seed << ", \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"nontrivial\": " << nontriv << ",\n  \"rule\": " << jsonStr(p->rule) << ",\n  \"counters\": {";
    bool first = true; for (auto &k : counters) { f << (first ? "" : ", ") << jsonStr(k.first) << ": " << k.second; first = false; }
    f << "},\n  \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) f << (i ? ", " : "") << jsonStr(samples[i].substr(0, 3000));
    f << "]\n },\n \"wall_s\": " << wall << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
  }
  printf("%s %s seed=%llu: %ld cases, %zu distinct non-trivial, %.1fs\n", id.c_str(), tier.c_str(), (unsigned long long)seed, evals, distinct.size(), wall);
  if (keepGoing) for (auto &k : kinds) printf("  %5d x %s\n", k.second, k.first.c_str());
  if (rc == 1) { printf("failure: %s\n", badMsg.substr(0, 600).c_str()); printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay.c_str()); }
  return rc;
}
int main(int argc, char **argv) { return frameMain(argc, argv); }
