// Core of the bounded exhaustive explorer used by the sequential checks.
//
// A "world" owns the real library objects plus a reference model.  The explorer
// enumerates EVERY sequence of operations up to a depth; after each operation the
// world compares the implementation with the model.  States are snapshotted and
// restored (the database is one relocatable memory image), and a state already
// explored with at least the same remaining depth is not explored again: the hash
// covers the complete database image and the complete model, so merged states have
// the same futures.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>

namespace mc {
inline bool over_budget(); inline void watchdog(); inline double &t0();

// ---------------------------------------------------------------- options
struct Opts {
  std::map<std::string, std::string> kv;
  int depth = 3, shard = 0, nshards = 1;
  std::string profile, trace, replay, known;
  long maxviol = 1;
  bool has(const std::string &k) const { return kv.count(k); }
  std::string str(const std::string &k, const std::string &d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
  long num(const std::string &k, long d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtol(i->second.c_str(), 0, 0); }
};
inline Opts &opts() { static Opts o; return o; }

inline FILE *&out() { static FILE *f = stdout; return f; }

// shared (mmapped) trace: survives a crash of this process
struct TraceMem { volatile int n; volatile int op[4000]; char note[4000]; };
inline TraceMem *&tracemem() { static TraceMem *t = nullptr; return t; }

struct Stats {
  long long states = 0, transitions = 0, traces = 0, evaluations = 0, nontrivial = 0, pruned = 0, dedup = 0;
  std::map<std::string, long long> extra;   // per-kind counters
  std::vector<std::string> samples;
  std::map<std::string, long long> outcomes;
};
inline Stats &stats() { static Stats s; return s; }
inline void count(const std::string &k, long long n = 1) { stats().extra[k] += n; }
inline void sample(const std::string &s) { if (stats().samples.size() < 6) stats().samples.push_back(s.substr(0, 600)); }

struct Violation { std::string sig, msg; };
inline std::set<std::string> &known() { static std::set<std::string> s; return s; }
inline std::map<std::string, long long> &knownhits() { static std::map<std::string, long long> s; return s; }

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
// sig: stable identification of what failed (used for known findings)
[[noreturn]] inline void fail(const std::string &sig, const std::string &msg) { throw Violation{sig, msg}; }
#define MC_CHECK(cond, sig, ...) do { if (!(cond)) mc::fail(sig, mc::fmt(__VA_ARGS__)); } while (0)

inline std::string jesc(const std::string &s) {
  std::string r; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r;
}
inline void note(const std::string &s) { if (tracemem()) { size_t n = std::min(s.size(), sizeof(tracemem()->note) - 1); memcpy(tracemem()->note, s.data(), n); tracemem()->note[n] = 0; } }

inline void init(int argc, char **argv) {
  Opts &o = opts();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; if (a.substr(0, 2) != "--") { fprintf(stderr, "bad arg %s\n", argv[i]); exit(2); }
    size_t e = a.find('='); std::string k = a.substr(2, e == std::string::npos ? e : e - 2), v = e == std::string::npos ? "1" : a.substr(e + 1);
    o.kv[k] = v;
  }
  o.depth = o.num("depth", 3); o.shard = o.num("shard", 0); o.nshards = o.num("nshards", 1);
  o.profile = o.str("profile"); o.trace = o.str("trace"); o.replay = o.str("replay"); o.known = o.str("known");
  if (!o.known.empty()) { FILE *f = fopen(o.known.c_str(), "r"); char b[1000]; while (f && fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (b[0]) known().insert(b); } if (f) fclose(f); }
  void *m = MAP_FAILED;
  if (!o.trace.empty()) { int fd = open(o.trace.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd >= 0 && ftruncate(fd, sizeof(TraceMem)) == 0) m = mmap(0, sizeof(TraceMem), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }
  if (m == MAP_FAILED) m = mmap(0, sizeof(TraceMem), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  tracemem() = (TraceMem *)m;
  // the library prints to stdout/stderr: keep our own channel
  int fd = dup(1); out() = fdopen(fd, "w");
  t0(); watchdog();
  if (!o.has("verbose")) { fflush(stdout); freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr); }
}
inline void heartbeat() {}

// ---- result of a failing execution; returns true when it was a listed finding
inline bool report(const Violation &v, const std::vector<int> &path, const std::string &desc) {
  if (known().count(v.sig)) { knownhits()[v.sig]++; return true; }
  fprintf(out(), "FAIL {\"sig\":\"%s\",\"msg\":\"%s\",\"desc\":\"%s\",\"path\":[", jesc(v.sig).c_str(), jesc(v.msg).c_str(), jesc(desc).c_str());
  for (size_t i = 0; i < path.size(); i++) fprintf(out(), "%s%d", i ? "," : "", path[i]);
  fprintf(out(), "]}\n"); fflush(out());
  return false;
}
inline int finish(bool failed = false) {
  Stats &s = stats();
  fprintf(out(), "STATS {\"states\":%lld,\"transitions\":%lld,\"traces\":%lld,\"evaluations\":%lld,\"nontrivial\":%lld,\"dedup\":%lld,\"extra\":{", s.states, s.transitions, s.traces, s.evaluations, s.nontrivial, s.dedup);
  bool first = true; for (auto &k : s.extra) { fprintf(out(), "%s\"%s\":%lld", first ? "" : ",", jesc(k.first).c_str(), k.second); first = false; }
  fprintf(out(), "},\"outcomes\":{"); first = true; for (auto &k : s.outcomes) { fprintf(out(), "%s\"%s\":%lld", first ? "" : ",", jesc(k.first).c_str(), k.second); first = false; }
  fprintf(out(), "},\"known\":{"); first = true; for (auto &k : knownhits()) { fprintf(out(), "%s\"%s\":%lld", first ? "" : ",", jesc(k.first).c_str(), k.second); first = false; }
  fprintf(out(), "},\"samples\":["); first = true; for (auto &k : s.samples) { fprintf(out(), "%s\"%s\"", first ? "" : ",", jesc(k).c_str()); first = false; }
  fprintf(out(), "]}\n"); fflush(out());
  _exit(failed ? 1 : 0);
}
inline std::vector<int> read_replay() {
  std::vector<int> p; FILE *f = fopen(opts().replay.c_str(), "r"); if (!f) { fprintf(out(), "cannot read replay\n"); _exit(2); }
  int x; while (fscanf(f, "%d", &x) == 1) p.push_back(x); fclose(f); return p;
}

// ---------------------------------------------------------------- hashing
struct H128 { uint64_t a, b; bool operator==(const H128 &o) const { return a == o.a && b == o.b; } };
struct H128H { size_t operator()(const H128 &h) const { return h.a; } };
inline uint64_t rotl(uint64_t x, int r) { return (x << r) | (x >> (64 - r)); }
inline void hash_mem(H128 &h, const void *p, size_t n) {
  const uint64_t *q = (const uint64_t *)p; size_t w = n / 8; uint64_t a = h.a, b = h.b, c = 0x9E3779B97F4A7C15ULL ^ n, d = 0xC2B2AE3D27D4EB4FULL;
  size_t i = 0;
  for (; i + 4 <= w; i += 4) {
    a = (a ^ q[i]) * 0x9FB21C651E98DF25ULL; a ^= a >> 32;
    b = (b ^ q[i + 1]) * 0xD6E8FEB86659FD93ULL; b ^= b >> 32;
    c = (c ^ q[i + 2]) * 0xFF51AFD7ED558CCDULL; c ^= c >> 32;
    d = (d ^ q[i + 3]) * 0xC4CEB9FE1A85EC53ULL; d ^= d >> 32;
  }
  for (; i < w; i++) { a = (a ^ q[i]) * 0x9FB21C651E98DF25ULL; a ^= a >> 29; b = rotl(b, 23) + q[i] * 0xD6E8FEB86659FD93ULL; }
  uint64_t t = 0; memcpy(&t, (const char *)p + w * 8, n & 7); a = (a ^ t) * 0x9FB21C651E98DF25ULL;
  h.a = (a ^ rotl(b, 17) ^ rotl(c, 31)) * 0xFF51AFD7ED558CCDULL; h.a ^= h.a >> 33; h.b = (b + rotl(a, 41) + rotl(d, 11) + c) * 0xC4CEB9FE1A85EC53ULL; h.b ^= h.b >> 33;
}
inline H128 hash0() { return H128{0x1234567, 0x89abcdef}; }
inline void hash_u64(H128 &h, uint64_t v) { hash_mem(h, &v, 8); }
inline void hash_str(H128 &h, const std::string &s) { hash_u64(h, s.size()); hash_mem(h, s.data(), s.size()); }

// ---------------------------------------------------------------- explorer
struct World {
  virtual ~World() {}
  virtual int nops() = 0;
  virtual bool enabled(int op) = 0;
  virtual std::string opname(int op) = 0;
  virtual void step(int op) = 0;                 // apply + compare; throws Violation
  virtual void *save() = 0;                      // snapshot of implementation + model
  virtual void restore(void *) = 0;
  virtual void drop(void *) = 0;
  virtual void hash(H128 &h) = 0;
  virtual void leaf() {}                         // extra checks at maximal depth
};

struct Explorer {
  World &w; int depth; std::vector<int> path;
  std::unordered_map<H128, int, H128H> seen;     // state -> remaining depth already explored
  long long prefixno = 0; int sharddepth = 2; bool stop = false, capped = false;
  size_t maxstates = 40000000;
  Explorer(World &w_, int d) : w(w_), depth(d) {}
  std::string desc() { std::string s; for (int o : path) { if (s.size()) s += "; "; s += w.opname(o); } return s; }
  void dfs(int rem) {
    if (stop) return;
    H128 h = hash0(); w.hash(h);
    auto it = seen.find(h);
    if (it != seen.end()) { if (it->second >= rem) { stats().dedup++; return; } it->second = rem; }
    else { seen.emplace(h, rem); stats().states++; if (stats().states % 997 == 1) sample(desc()); }
    if (rem == 0) { stats().traces++; run([&] { w.leaf(); }); return; }
    void *s = w.save(); bool any = false;
    int n = w.nops();
    for (int op = 0; op < n && !stop; op++) {
      if (!w.enabled(op)) continue;
      any = true;
      bool in_shard_prefix = (int)path.size() < sharddepth;
      if ((int)path.size() == sharddepth - 1 && opts().nshards > 1) { if ((prefixno++ % opts().nshards) != opts().shard) continue; }
      (void)in_shard_prefix;
      path.push_back(op); tracemem()->op[path.size() - 1] = op; tracemem()->n = path.size();
      stats().transitions++;
      if ((stats().transitions & 255) == 0 && over_budget()) { stats().extra["capped"] = 1; stop = true; capped = true; path.pop_back(); break; }
      bool ok = run([&] { w.step(op); });
      if (ok) dfs(rem - 1); else stats().pruned++;
      path.pop_back(); tracemem()->n = path.size();
      w.restore(s);
    }
    if (!any) stats().traces++;
    w.drop(s);
  }
  bool run(const std::function<void()> &f) {
    try { f(); return true; }
    catch (Violation &v) { if (!report(v, path, desc())) stop = true; return false; }
  }
  // returns true on failure
  bool explore() {
    if (!opts().replay.empty()) return replay();
    if (opts().nshards > 1) {   // the root levels are shared by all shards: no dedup across them needed
      if (depth < sharddepth) { if (opts().shard) return false; opts().nshards = 1; }
    }
    dfs(depth); return stop && !capped;
  }
  bool replay() {
    for (int op : read_replay()) {
      fprintf(out(), "REPLAY step %zu: %s\n", path.size(), w.opname(op).c_str()); fflush(out());
      path.push_back(op); tracemem()->op[path.size() - 1] = op; tracemem()->n = path.size();
      if (op >= w.nops() || !w.enabled(op)) { fprintf(out(), "REPLAY-DIVERGED op not enabled\n"); return false; }
      if (!run([&] { w.step(op); })) return stop;
    }
    run([&] { w.leaf(); });
    return stop;
  }
};

// Enumeration of independent cases: run each case under protection; case index = replay path.
struct Cases {
  long long idx = 0; bool stop = false, capped = false; bool failed() { return stop && !capped; }
  std::vector<int> rp; bool replaying = false;
  Cases() { if (!opts().replay.empty()) { rp = read_replay(); replaying = true; } }
  // f returns true if the case was non-trivial
  template <class D, class F> void run(D desc, F f) {
    if (stop) return;
    long long i = idx++;
    if (replaying) { if (rp.empty() || (int)i != rp[0]) return; fprintf(out(), "REPLAY case %lld: %s\n", i, desc().c_str()); fflush(out()); }
    else if (i % opts().nshards != opts().shard) return;
    tracemem()->op[0] = (int)i; tracemem()->n = 1;
    if ((i & 63) == 0 && over_budget()) { stats().extra["capped"] = 1; stop = true; capped = true; return; }
    bool nt = false;
    stats().evaluations++;
    try { nt = f(); }
    catch (Violation &v) { if (!report(v, std::vector<int>{(int)i}, desc())) stop = true; return; }
    if (nt) stats().nontrivial++;
    if (stats().evaluations == 1 || (stats().evaluations % 4999) == 7) sample(desc());
  }
};
inline double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }
} // namespace mc
// ---- watchdog: one step burning more than CPU seconds is a hang
namespace mc {
inline volatile long long &wd_last() { static volatile long long v = -1; return v; }
inline volatile int &wd_ticks() { static volatile int v = 0; return v; }
inline void wd_handler(int) {
  long long cur = stats().transitions + stats().evaluations * 1000003LL;
  if (cur != wd_last()) { wd_last() = cur; wd_ticks() = 0; return; }
  if (++wd_ticks() < 15) return;
  std::vector<int> p; for (int i = 0; i < tracemem()->n && i < 4000; i++) p.push_back((int)tracemem()->op[i]);
  report(Violation{"hang", "an operation does not return"}, p, "");
  _exit(1);
}
inline void watchdog() {
  signal(SIGPROF, wd_handler);
  struct itimerval t; t.it_interval.tv_sec = 1; t.it_interval.tv_usec = 0; t.it_value = t.it_interval; setitimer(ITIMER_PROF, &t, 0);
}
inline double &t0() { static double t = now(); return t; }
inline bool over_budget() { static double b = opts().num("budget", 0); return b > 0 && now() - t0() > b; }
}
// ---- breadth-first exploration of a finite state space until no new state appears.
// The world's hash() must identify states up to behaviour (an abstraction the world
// justifies); the path to each state is the concrete history that first reached it.
namespace mc {
struct Closure {
  World &w; size_t maxstates; bool stop = false, complete = false;
  struct Node { int parent, op; void *snap; int depth; };
  std::vector<Node> nodes; std::unordered_set<H128, H128H> seen;
  Closure(World &w_, size_t m) : w(w_), maxstates(m) {}
  std::vector<int> path(int i) { std::vector<int> p; for (; i > 0; i = nodes[i].parent) p.push_back(nodes[i].op); std::reverse(p.begin(), p.end()); return p; }
  std::string desc(const std::vector<int> &p) { std::string s; for (int o : p) { if (s.size()) s += "; "; s += w.opname(o); } return s; }
  bool explore() {
    if (!opts().replay.empty()) { Explorer e(w, 0); return e.replay(); }
    H128 h = hash0(); w.hash(h); seen.insert(h); nodes.push_back({-1, -1, w.save(), 0}); stats().states = 1; int maxd = 0;
    for (size_t i = 0; i < nodes.size() && !stop; i++) {
      w.restore(nodes[i].snap); int n = w.nops(); std::vector<int> base = path(i); bool dirty = false; maxd = nodes[i].depth;
      for (size_t k = 0; k < base.size() && k < 3990; k++) tracemem()->op[k] = base[k];
      for (int op = 0; op < n && !stop; op++) {
        if (dirty) { w.restore(nodes[i].snap); dirty = false; }
        if (!w.enabled(op)) continue;
        if (base.size() < 3990) { tracemem()->op[base.size()] = op; tracemem()->n = base.size() + 1; }
        stats().transitions++; dirty = true;
        if ((stats().transitions & 255) == 0 && over_budget()) { stats().extra["capped"] = 1; return false; }
        try { w.step(op); }
        catch (Violation &v) { std::vector<int> p = base; p.push_back(op); if (!report(v, p, desc(p))) stop = true; continue; }
        H128 g = hash0(); w.hash(g);
        if (!seen.insert(g).second) { stats().dedup++; continue; }
        if (nodes.size() >= maxstates) { stats().extra["capped"] = 1; return false; }
        try { w.leaf(); } catch (Violation &v) { std::vector<int> p = base; p.push_back(op); if (!report(v, p, desc(p))) stop = true; continue; }
        nodes.push_back({(int)i, op, w.save(), nodes[i].depth + 1}); stats().states++;
        if (stats().states % 4999 == 17) { std::vector<int> p = base; p.push_back(op); sample(desc(p)); }
      }
      if (!stop) { w.drop(nodes[i].snap); nodes[i].snap = nullptr; }
    }
    complete = !stop; stats().traces += nodes.size(); stats().extra["state spaces closed"] += complete; stats().outcomes[fmt("longest shortest history %d", maxd)]++;
    return stop;
  }
};
}
