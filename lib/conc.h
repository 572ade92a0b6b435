// Exhaustive exploration of thread interleavings of the real code.
//
// The code under test is compiled with -fsanitize=thread, but the runtime that the
// compiler's callbacks reach is the one below: every read, write and atomic operation on the
// database segment is a scheduling point.  Clients are fibers.  The complete state of
// an execution (every segment word ever written, the live part of every fiber's
// stack, the state of every blocked wait, the monitor) is saved, restored and hashed, so
// the search covers ALL interleavings - no preemption bound - up to memory limits, and loops
// (spinning, retrying) close into cycles of the state graph.
// futex waits are interposed: a wait may be woken, return spuriously, be interrupted or time out.
#pragma once
#include "wgdb.h"
#include <errno.h>
#include <stdarg.h>
#include <linux/futex.h>
#include <sys/syscall.h>

namespace conc {
enum Status { RUN = 0, BLOCKED = 1, DONE = 2 };
constexpr int MAXF = 5, STK = 64 * 1024;
struct Fiber { char *stack; void *sp; int status; gint *waddr; int woken; int hastimeout; int result; long pend; };
inline Fiber F[MAXF]; inline int nf = 0, cur = -1; inline void *sched_sp;
inline char *seg0 = 0, *seg1 = 0;              // watched segment
inline std::vector<gint *> W; inline std::unordered_set<gint *> Wset; inline bool grew = false;
inline bool active = false;                    // inside a fiber
inline int faults = 0, maxfaults = 0;          // spurious wakeups / EINTR allowed per execution
inline std::string viol_sig, viol_msg;
inline char *mon = 0; inline size_t monsz = 0; // monitor state (POD), part of the state
inline void (*body)(int) = 0;

extern "C" void conc_switch(void **save, void *load);
asm(R"(
.text
.globl conc_switch
.type conc_switch,@function
conc_switch:
  push %rbp
  push %rbx
  push %r12
  push %r13
  push %r14
  push %r15
  mov %rsp,(%rdi)
  mov %rsi,%rsp
  pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbx
  pop %rbp
  ret
)");
inline void to_sched() { active = false; conc_switch(&F[cur].sp, sched_sp); active = true; }
inline void violate(const std::string &s, const std::string &m) { if (viol_sig.empty()) { viol_sig = s; viol_msg = m; } }
inline void fiber_main() { active = true; body(cur); active = false; F[cur].status = DONE; for (;;) conc_switch(&F[cur].sp, sched_sp); }
// scheduling point: the access happens after we are resumed
inline void point(void *addr, bool write, long tag) {
  if (!active) return;
  char *a = (char *)addr; if (a < seg0 || a >= seg1) return;
  gint *g = (gint *)((uintptr_t)a & ~7ul);
  if (!Wset.count(g)) { if (!write) return; Wset.insert(g); W.push_back(g); grew = true; }
  F[cur].pend = (a - seg0) * 4 + tag;
  to_sched();
}
inline void yieldpoint() { if (active) { F[cur].pend = -1; to_sched(); } }

// ---- graph search
struct Snap { std::vector<gint> w; struct FS { Fiber f; std::vector<char> st; } f[MAXF]; std::vector<char> mon; int faults; };
inline Snap *save() {
  Snap *s = new Snap; s->w.resize(W.size()); for (size_t i = 0; i < W.size(); i++) s->w[i] = *W[i];
  for (int i = 0; i < nf; i++) { s->f[i].f = F[i]; if (F[i].status != DONE) { char *sp = (char *)F[i].sp; s->f[i].st.assign(sp, F[i].stack + STK); } }
  s->mon.assign(mon, mon + monsz); s->faults = faults; return s;
}
inline void restore(Snap *s) {
  for (size_t i = 0; i < s->w.size(); i++) *W[i] = s->w[i];
  for (int i = 0; i < nf; i++) { F[i] = s->f[i].f; if (F[i].status != DONE) memcpy(F[i].sp, s->f[i].st.data(), s->f[i].st.size()); }
  memcpy(mon, s->mon.data(), monsz); faults = s->faults;
}
inline void hash_state(mc::H128 &h) {
  static std::vector<gint> tmp; tmp.resize(W.size()); for (size_t i = 0; i < W.size(); i++) tmp[i] = *W[i];
  mc::hash_mem(h, tmp.data(), tmp.size() * 8);
  for (int i = 0; i < nf; i++) {
    mc::hash_u64(h, F[i].status * 16 + F[i].woken * 4 + F[i].hastimeout * 2); mc::hash_u64(h, F[i].status == BLOCKED ? (uint64_t)F[i].waddr : 0);
    if (F[i].status != DONE) { char *sp = (char *)F[i].sp; mc::hash_u64(h, (uint64_t)(F[i].stack + STK - sp)); mc::hash_mem(h, sp, F[i].stack + STK - sp); }
  }
  mc::hash_mem(h, mon, monsz); mc::hash_u64(h, faults);
}
// choices: fiber*4 + kind  (kind 0 run / 1 wake-resume / 2 timeout / 3 spurious or interrupted)
inline void resume(int f) { cur = f; conc_switch(&sched_sp, F[f].sp); }
inline int patient; // clients (bits) whose time limit never runs out
inline std::vector<int> choices() {
  std::vector<int> c;
  for (int i = 0; i < nf; i++) {
    if (F[i].status == RUN) c.push_back(i * 4);
    else if (F[i].status == BLOCKED) {
      if (F[i].woken) c.push_back(i * 4 + 1);
      if (!F[i].woken && F[i].hastimeout && !(patient >> i & 1)) c.push_back(i * 4 + 2);
      if (!F[i].woken && faults < maxfaults) c.push_back(i * 4 + 3);
    }
  }
  return c;
}
inline void apply(int c) {
  int f = c / 4, k = c % 4; Fiber &x = F[f];
  if (k) { x.status = RUN; x.result = k == 1 ? 0 : k == 2 ? -ETIMEDOUT : -EINTR; if (k == 3) faults++; x.woken = 0; x.waddr = 0; x.hastimeout = 0; }
  resume(f);
}
inline std::string cname(int c) {
  int f = c / 4, k = c % 4; static const char *kn[] = {"", "woken", "timed out", "interrupted"}; long p = F[f].pend;
  if (k) return mc::fmt("T%d %s", f, kn[k]);
  if (p == -1) return mc::fmt("T%d step", f);
  return mc::fmt("T%d %s+%ld", f, p % 4 == 0 ? "read" : p % 4 == 1 ? "write" : "atomic", p / 4);
}

struct Search {
  std::function<void()> setup;               // initialise db, monitor and scripts; called before each (re)start
  std::function<void()> atend;               // all fibers done: final checks (may restore afterwards); throws Violation
  std::function<bool()> lock_held;           // somebody is inside (used to tell lost wakeups from ordinary waits)
  bool check_progress = false; long maxstates = 30000000;
  std::unordered_map<mc::H128, uint32_t, mc::H128H> id; std::vector<std::vector<uint32_t>> succ; std::vector<char> terminal;
  std::vector<std::pair<uint32_t, uint32_t>> edges; std::vector<uint32_t> parent; std::vector<int> pchoice;
  bool capped = false; long nterm = 0; std::map<std::string, long> outc;
  static char *newstack() { return (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
  void start() {
    for (int i = 0; i < nf; i++) {
      Fiber &f = F[i]; if (!f.stack) f.stack = newstack(); memset(f.stack, 0, STK);
      void **top = (void **)(f.stack + STK - 64); *--top = 0; *--top = (void *)fiber_main; for (int k = 0; k < 6; k++) *--top = 0;
      f.sp = top; f.status = RUN; f.waddr = 0; f.woken = 0; f.hastimeout = 0; f.result = 0; f.pend = -1;
    }
    faults = 0; viol_sig.clear(); setup();
  }
  std::vector<int> path_of(uint32_t s) { std::vector<int> p; while (s) { p.push_back(pchoice[s]); s = parent[s]; } std::reverse(p.begin(), p.end()); return p; }
  std::string describe(const std::vector<int> &p) {   // replays from the start
    start(); std::string d; int n = 0;
    for (int c : p) { if (d.size()) d += "; "; d += cname(c); apply(c); if (++n > 400) { d += " ..."; break; } }
    return d;
  }
  std::vector<int> prefix; std::string prefixdesc;   // identifies the workload when a harness runs many
  bool fail(const mc::Violation &v, const std::vector<int> &p) { std::string d = prefixdesc + describe(p); std::vector<int> q = prefix; q.insert(q.end(), p.begin(), p.end()); return !mc::report(v, q, d); }
  // returns true on failure
  bool run() {
    if (!mc::opts().replay.empty()) return replay();
    for (;;) {
      grew = false; id.clear(); edges.clear(); parent.clear(); pchoice.clear(); terminal.clear(); nterm = 0; outc.clear();
      long tr0 = mc::stats().transitions; int r = explore();
      if (r >= 0) { mc::stats().states += id.size(); mc::stats().traces += nterm; if (capped) mc::stats().extra["capped"] = 1; return r; }
      mc::stats().transitions = tr0;   // a newly written word was discovered: start over with it watched
    }
  }
  uint32_t intern(bool &fresh, uint32_t par, int ch) {
    mc::H128 h = mc::hash0(); hash_state(h); auto it = id.find(h);
    if (it != id.end()) { fresh = false; return it->second; }
    uint32_t n = id.size(); id.emplace(h, n); parent.push_back(par); pchoice.push_back(ch); terminal.push_back(0); fresh = true; return n;
  }
  int explore() {
    start(); bool fresh; uint32_t root = intern(fresh, 0, 0);
    struct Fr { uint32_t s; Snap *snap; std::vector<int> ch; size_t i; };
    std::vector<Fr> st; st.push_back({root, save(), choices(), 0});
    int res = 0; std::vector<int> path;
    auto clean = [&] { for (auto &f : st) delete f.snap; st.clear(); };
    while (!st.empty()) {
      Fr &f = st.back();
      if (f.i >= f.ch.size()) { delete f.snap; st.pop_back(); if (path.size()) path.pop_back(); continue; }
      int c = f.ch[f.i++]; restore(f.snap); path.push_back(c);
      { size_t k = prefix.size() + path.size(); if (k < 3900) { mc::tracemem()->op[k - 1] = c; mc::tracemem()->n = k; for (size_t j = 0; j < prefix.size(); j++) mc::tracemem()->op[j] = prefix[j]; } }
      mc::stats().transitions++;
      apply(c);
      if (grew) { clean(); return -1; }
      if (!viol_sig.empty()) { mc::Violation v{viol_sig, viol_msg}; viol_sig.clear(); if (!learning && fail(v, path)) { clean(); return 1; } path.pop_back(); continue; }
      uint32_t n = intern(fresh, f.s, c); if (check_progress) edges.push_back({f.s, n});
      if (!fresh) { path.pop_back(); continue; }
      bool all = true; for (int i = 0; i < nf; i++) if (F[i].status != DONE) all = false;
      if (all) {
        nterm++; terminal[n] = 1; if (nterm % 211 == 1) mc::sample(desc_now(path));
        try { if (atend) { Snap *s = save(); atend(); restore(s); delete s; } }
        catch (mc::Violation &v) { if (fail(v, path)) { clean(); return 1; } }
        if (grew) { clean(); return -1; }
        path.pop_back(); continue;
      }
      std::vector<int> ch = choices(); bool real = false; for (int x : ch) if (x % 4 < 2) real = true;
      if (!real && check_progress && !lock_held()) {   // only timeouts or interruptions could still move anyone, and nobody holds the lock
        std::string who; for (int i = 0; i < nf; i++) if (F[i].status == BLOCKED) who += mc::fmt(" T%d", i);
        if (fail(mc::Violation{"lost-wakeup", "nobody holds the lock, yet these clients sleep without anyone to wake them:" + who}, path)) { clean(); return 1; }
        path.pop_back(); continue;
      }
      if (ch.empty()) { path.pop_back(); continue; }
      if ((long)id.size() > maxstates || ((id.size() & 1023) == 0 && mc::over_budget())) { capped = true; clean(); break; }
      st.push_back({n, save(), ch, 0});
    }
    for (auto &o : outc) mc::stats().outcomes[o.first] += o.second;
    if (check_progress && !capped) {   // from every reachable state the end must be reachable
      size_t N = id.size(); std::vector<uint32_t> head(N + 1, 0), adj(edges.size());
      for (auto &e : edges) head[e.second + 1]++; for (size_t i = 0; i < N; i++) head[i + 1] += head[i];
      { std::vector<uint32_t> pos(head.begin(), head.end() - 1); for (auto &e : edges) adj[pos[e.second]++] = e.first; }
      std::vector<char> ok(N, 0); std::vector<uint32_t> q; for (size_t i = 0; i < N; i++) if (terminal[i]) { ok[i] = 1; q.push_back(i); }
      while (!q.empty()) { uint32_t x = q.back(); q.pop_back(); for (uint32_t k = head[x]; k < head[x + 1]; k++) if (!ok[adj[k]]) { ok[adj[k]] = 1; q.push_back(adj[k]); } }
      for (size_t i = 0; i < N; i++) if (!ok[i]) { std::vector<int> p = path_of(i); if (fail(mc::Violation{"no-progress", "from this state no schedule lets every client finish"}, p)) return 1; break; }
      mc::count("states proven able to finish", N);
    }
    return res;
  }
  std::string desc_now(const std::vector<int> &p) { std::string s; for (int c : p) { s += mc::fmt("T%d%s ", c / 4, c % 4 == 0 ? "" : c % 4 == 1 ? "w" : c % 4 == 2 ? "t" : "i"); if (s.size() > 500) break; } return s; }
  bool learning = false;
  void discover() {   // words written on other schedules only are scheduling points too: find them all first
    bool cp = check_progress; auto ae = atend; learning = true; check_progress = false; atend = nullptr;
    for (;;) { grew = false; id.clear(); edges.clear(); parent.clear(); pchoice.clear(); terminal.clear(); if (explore() >= 0) break; }
    learning = false; check_progress = cp; atend = ae; capped = false; id.clear();
  }
  bool replay() {
    std::vector<int> p = mc::read_replay(); p.erase(p.begin(), p.begin() + prefix.size());
    discover();
    for (int pass = 0; pass < 20; pass++) {
      grew = false; start(); bool again = false;
      for (size_t i = 0; i < p.size() && !again; i++) {
        std::vector<int> ch = choices(); if (std::find(ch.begin(), ch.end(), p[i]) == ch.end()) { if (pass < 19) { again = true; break; } fprintf(mc::out(), "REPLAY-DIVERGED\n"); return false; }
        if (mc::opts().has("verbose")) fprintf(mc::out(), "REPLAY step %zu: %s\n", i, cname(p[i]).c_str());
        apply(p[i]); if (grew) again = true;
        if (!again && !viol_sig.empty()) return fail({viol_sig, viol_msg}, p);
      }
      if (again) continue;
      bool all = true; for (int i = 0; i < nf; i++) if (F[i].status != DONE) all = false;
      if (all) { try { if (atend) atend(); } catch (mc::Violation &v) { return fail(v, p); } if (grew) continue; return false; }
      if (check_progress) {   // explore everything reachable from here: the end must be unreachable for the failure to stand
        std::vector<int> ch = choices(); bool real = false; for (int x : ch) if (x % 4 < 2) real = true;
        if (!real && !lock_held()) return fail({"lost-wakeup", "nobody holds the lock, yet clients sleep without anyone to wake them"}, p);
        std::unordered_set<mc::H128, mc::H128H> seen; std::vector<Snap *> q; q.push_back(save()); bool reach = false;
        while (!q.empty() && !reach) {
          Snap *s = q.back(); q.pop_back(); restore(s);
          for (int c : choices()) { restore(s); apply(c); viol_sig.clear(); bool d = true; for (int i = 0; i < nf; i++) if (F[i].status != DONE) d = false; if (d) { reach = true; break; } mc::H128 h = mc::hash0(); hash_state(h); if (seen.insert(h).second) q.push_back(save()); }
          delete s;
        }
        if (!reach) return fail({"no-progress", "from this state no schedule lets every client finish"}, p);
      }
      return false;
    }
    return false;
  }
};
} // namespace conc

// ---------------------------------------------------------------- compiler callbacks
#include "tsan.h"

// ---------------------------------------------------------------- operating system
extern "C" long __real_syscall(long, ...);
CX long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
  using namespace conc;
  if (n != SYS_futex || !active) return __real_syscall(n, a, b, c, d, e, f);
  int op = b & 127; int *addr = (int *)a;
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    F[cur].pend = ((char *)addr - seg0) * 4; to_sched();             // the kernel's check of the word is atomic with going to sleep
    if (*addr != (int)c) { errno = EAGAIN; return -1; }
    Fiber &x = F[cur]; x.status = BLOCKED; x.waddr = (gint *)addr; x.woken = 0; x.hastimeout = d != 0; x.result = 0;
    to_sched();
    int r = F[cur].result; if (r < 0) { errno = -r; return -1; } return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    F[cur].pend = ((char *)addr - seg0) * 4 + 1; to_sched();
    int woke = 0; for (int i = 0; i < nf && woke < (int)c; i++) if (F[i].status == BLOCKED && F[i].waddr == (gint *)addr && !F[i].woken) { F[i].woken = 1; woke++; }
    return woke;
  }
  errno = ENOSYS; return -1;
}
extern "C" int __real_nanosleep(const struct timespec *, struct timespec *);
CX int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (!conc::active) return __real_nanosleep(a, b); conc::yieldpoint(); return 0; }
CX int __wrap_usleep(unsigned) { conc::yieldpoint(); return 0; }
CX int __wrap_sched_yield() { conc::yieldpoint(); return 0; }
