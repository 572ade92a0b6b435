// C31: every sequence of requests to a memory pool, with malloc under control: blocks lie inside what malloc
// returned, do not overlap, stay unchanged; requests fail only when malloc does. Cells and atoms read back.
#include "wgdb.h"
#include <climits>
#include <sys/mman.h>
extern "C" {
#include "Db/dbmpool.h"
void *__real_malloc(size_t); void __real_free(void *);
}
using namespace mc;
struct Area { char *p; size_t n; bool mapped; };
static bool on = false; static std::vector<Area> areas_; static long calls = 0, failat = -1; static size_t total = 0, limit_ = 0; static bool refused = false, badfree = false;
extern "C" __attribute__((used)) void *__wrap_malloc(size_t n) {
  if (!on) return __real_malloc(n);
  on = false; void *p = NULL;
  if (calls++ == failat || n > limit_ || total + n > limit_) refused = true;
  else if (n > (1 << 20)) { p = mmap(NULL, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) p = NULL, refused = true; else { areas_.push_back({(char *)p, n, true}); total += n; } }
  else { p = __real_malloc(n + 64); memset(p, 0xEE, n + 64); areas_.push_back({(char *)p, n, false}); total += n; }
  on = true; return p;
}
extern "C" __attribute__((used)) void __wrap_free(void *p) {
  if (!on) return __real_free(p);
  on = false; bool ok = !p;
  for (size_t i = 0; i < areas_.size(); i++) if (areas_[i].p == p) { Area a = areas_[i]; if (a.mapped) munmap(a.p, a.n + 4096); else { for (int k = 0; k < 64; k++) if ((unsigned char)a.p[a.n + k] != 0xEE) badfree = true; __real_free(a.p); } areas_.erase(areas_.begin() + i); ok = true; break; }
  if (!ok) badfree = true;
  on = true;
}
static void reset() { on = false; for (auto &a : areas_) { if (a.mapped) munmap(a.p, a.n + 4096); else __real_free(a.p); } areas_.clear(); calls = 0; failat = -1; total = 0; refused = badfree = false; }
struct Blk { char *p; size_t n; int tag; };
static void edges(const Blk &b, std::function<void(char *, size_t)> f) { if (b.n <= 8192) f(b.p, b.n); else { f(b.p, 4096); f(b.p + b.n - 4096, 4096); } }
static void put(const Blk &b) { edges(b, [&](char *p, size_t n) { memset(p, b.tag & 255, n); }); }
static void chk(const std::vector<Blk> &v) {
  for (size_t i = 0; i < v.size(); i++) {
    bool in = false; for (auto &a : areas_) if (v[i].p >= a.p && v[i].p + v[i].n <= a.p + a.n) in = true;
    MC_CHECK(in, "outside", "block %zu of %zu bytes lies outside the allocated memory", i, v[i].n);
    for (size_t j = 0; j < i; j++) MC_CHECK(v[i].p + v[i].n <= v[j].p || v[j].p + v[j].n <= v[i].p, "overlap", "blocks %zu (%zu bytes) and %zu (%zu bytes) overlap", j, v[j].n, i, v[i].n);
  }
  for (size_t i = 0; i < v.size(); i++) { edges(v[i], [&](char *p, size_t n) { for (size_t k = 0; k < n; k++) MC_CHECK(p[k] == (char)(v[i].tag & 255), "content", "byte %zu of block %zu was changed", k, i); });
    for (auto &a : areas_) if (!a.mapped) for (int k = 0; k < 64; k++) MC_CHECK((unsigned char)a.p[a.n + k] == 0xEE, "overrun", "memory behind an allocation was overwritten"); }
}
struct PoolOn { PoolOn() { on = true; } ~PoolOn() { on = false; } };
static bool requests(int orig, const std::vector<int> &w, long fail) {
  reset(); failat = fail; void *pool; { PoolOn o; pool = wg_create_mpool(NULL, orig); }
  if (!pool) { MC_CHECK(refused || orig > INT_MAX - 4096, "create", "a pool of %d bytes cannot be created", orig); MC_CHECK(areas_.empty(), "create-leak", "failed creation leaks"); return false; }
  std::vector<Blk> v; int tag = 1; bool nt = false;
  if (orig > 0) { size_t have = 0; for (auto &a : areas_) have += a.n; MC_CHECK(have >= (size_t)orig, "create-size", "a pool of %d bytes only has %zu", orig, have); }
  for (int n : w) {
    refused = false; char *p; size_t na = areas_.size(); { PoolOn o; p = (char *)wg_alloc_mpool(NULL, pool, n); }
    if (n <= 0) { MC_CHECK(!p, "nonpositive", "a request for %d bytes succeeds", n); continue; }
    if (!p) { MC_CHECK(refused || n > INT_MAX - 64, "request", "a request for %d bytes fails although memory is available", n); MC_CHECK(areas_.size() == na, "leak", "failed request leaks"); count("refused"); continue; }
    MC_CHECK((size_t)p % 4 == 0, "align", "a block of %d bytes is not aligned", n); if (areas_.size() > na) { nt = true; count("extended"); }
    v.push_back({p, (size_t)n, tag++}); chk(std::vector<Blk>(v.begin(), v.end() - 1)); { std::vector<Blk> one(v.end() - 1, v.end()); bool in = false; for (auto &a : areas_) if (p >= a.p && p + n <= a.p + a.n) in = true; MC_CHECK(in, "outside", "a block of %d bytes lies outside the allocated memory", n); } put(v.back()); chk(v);
  }
  { PoolOn o; wg_free_mpool(NULL, pool); } MC_CHECK(!badfree, "free", "freeing the pool frees something else or finds overwritten memory"); MC_CHECK(areas_.empty(), "free-leak", "freeing the pool leaves %zu allocations", areas_.size());
  return nt;
}
// ---- cells and atoms
struct Node { int kind; int type; int s1, s2; int a, b; void *p; };
static std::vector<std::string> ST;
static void checkatom(const Node &n) {
  const char *s1 = n.s1 < 0 || ST[n.s1].empty() ? NULL : ST[n.s1].c_str(), *s2 = n.s2 < 0 || ST[n.s2].empty() ? NULL : ST[n.s2].c_str();
  MC_CHECK(wg_isatom(NULL, n.p) && !wg_ispair(NULL, n.p), "atom-kind", "an atom is not recognised as such");
  MC_CHECK(wg_atomtype(NULL, n.p) == n.type, "atom-type", "an atom of type %d has type %d", n.type, wg_atomtype(NULL, n.p));
  char *r = wg_atomstr1(NULL, n.p); MC_CHECK((!r) == (!s1) && (!r || !strcmp(r, s1)), "atom-str1", "first text of an atom of type %d reads '%s' instead of '%s'", n.type, r ? r : "(null)", s1 ? s1 : "(null)");
  r = wg_atomstr2(NULL, n.p); MC_CHECK((!r) == (!s2) && (!r || !strcmp(r, s2)), "atom-str2", "second text of an atom of type %d with first text '%s' reads '%s' instead of '%s'", n.type, s1 ? s1 : "(null)", r ? r : "(null)", s2 ? s2 : "(null)");
}
static bool cells(const std::vector<int> &w) { // every op: pair of two earlier nodes (or null) / atom
  reset(); void *pool; { PoolOn o; pool = wg_create_mpool(NULL, 0); } std::vector<Node> v; 
  std::function<int(int)> leaves = [&](int i) -> int { return i < 0 || v[i].kind ? 1 : leaves(v[i].a) + leaves(v[i].b); };
  auto checkall = [&] { for (size_t i = 0; i < v.size(); i++) MC_CHECK(wg_listtreecount(NULL, v[i].p) == leaves(i), "count", "a tree of %d leaves is counted as %d", leaves(i), wg_listtreecount(NULL, v[i].p)); for (auto &n : v) if (n.kind == 0) { MC_CHECK(wg_ispair(NULL, n.p) && !wg_isatom(NULL, n.p), "pair-kind", "a pair is not recognised as such"); MC_CHECK(wg_first(NULL, n.p) == (n.a < 0 ? NULL : v[n.a].p) && wg_rest(NULL, n.p) == (n.b < 0 ? NULL : v[n.b].p), "pair", "a pair does not hold what it was built from"); } else checkatom(n); };
  for (int o : w) {
    Node n{0, 0, -1, -1, -1, -1, NULL}; int A = 3 * (int)(ST.size() + 1) * (int)(ST.size() + 1);
    PoolOn on_;
    if (o < A) { n.kind = 1; static const int types[] = {0, WG_STRTYPE, WG_INTTYPE}; n.type = types[o % 3]; n.s1 = o / 3 % (ST.size() + 1) - 1; n.s2 = o / 3 / (ST.size() + 1) - 1;
      n.p = wg_mkatom(NULL, pool, n.type, n.s1 < 0 ? NULL : (char *)ST[n.s1].c_str(), n.s2 < 0 ? NULL : (char *)ST[n.s2].c_str()); }
    else { o -= A; n.a = o == 0 ? -1 : (int)v.size() - 1; n.b = o <= 1 ? (int)v.size() - 2 : o == 2 ? -1 : (int)v.size() - 1; if (n.b < -1) n.b = -1; n.p = wg_mkpair(NULL, pool, n.a < 0 ? NULL : v[n.a].p, n.b < 0 ? NULL : v[n.b].p); }
    on = false; MC_CHECK(n.p, "cell", "a cell cannot be built"); v.push_back(n); checkall();
  }
  { PoolOn o; wg_free_mpool(NULL, pool); } MC_CHECK(!badfree && areas_.empty(), "free", "freeing the pool"); return v.size() > 1;
}
int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts(); Cases C; limit_ = (size_t)o.num("limit", 8) << 30; int D = o.depth ? o.depth : 4;
  if (o.profile == "cells") {
    ST = {"", "a", "bc", "a longer text", std::string(1100, 'x')}; int n = 3 * 36 + 4; std::vector<int> w;
    std::function<void()> rec = [&] { if (w.size()) C.run([&] { std::string s; for (int x : w) s += fmt("%d ", x); return "cells " + s; }, [&] { return cells(w); }); if ((int)w.size() == D || C.stop) return; for (int i = 0; i < n; i++) { w.push_back(i); rec(); w.pop_back(); } };
    rec(); return finish(C.failed());
  }
  if (o.profile == "long") { // many requests of one size
    for (int n : {1, 3, 8, 1000, 1 << 20, 1 << 28, 1 << 30}) for (int cnt = 1; cnt <= 300; cnt += cnt < 8 ? 1 : 73) C.run([&] { return fmt("%d requests of %d bytes", cnt, n); }, [&] { return requests(0, std::vector<int>(cnt, n), -1); });
    return finish(C.failed());
  }
  std::vector<int> sizes = o.profile == "big" ? std::vector<int>{1, 1024, 1 << 20, (1 << 29) + 1, 1 << 30, (1 << 30) + 4, INT_MAX - 8, INT_MAX} : std::vector<int>{-1, 0, 1, 3, 4, 100, 1020, 1023, 1024, 1025, 2044, 2048, 2049, 5000};
  std::vector<int> origs = o.profile == "big" ? std::vector<int>{0, 1 << 29, (1 << 30) + 1, INT_MAX - 4, INT_MAX} : std::vector<int>{-5, 0, 1, 1024, 1028, 1029, 4001};
  std::vector<int> w;
  std::function<void()> rec = [&] {
    for (int g : origs) for (long f = -1; f <= (o.profile == "big" ? 1 : 2); f++) C.run([&] { std::string s; for (int x : w) s += fmt(" %d", x); return fmt("pool of %d, allocation failing: %ld, requests", g, f) + s; }, [&] { return requests(g, w, f); });
    if ((int)w.size() == D || C.stop) return; for (int n : sizes) { w.push_back(n); rec(); w.pop_back(); }
  };
  rec(); return finish(C.failed());
}
