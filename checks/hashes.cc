// C18 / C16: the two in-memory hash tables behind them, as maps and sets.
//   profile trans: every sequence of additions to the translation table of the journal replay
//   profile set:   every sequence of additions to the set used for joining query results
//   profile large: regular key sequences of every length, with the original parameters
#include "wgdb.h"
#include <map>
#include <set>
#include <climits>
using namespace mc;
static std::vector<gint> K;
static std::string names(const std::vector<int> &h) { std::string s; for (int i : h) s += fmt("%ld ", (long)K[i]); return s; }
// ---- translation table
static bool trans(const std::vector<int> &h) {
  void *t = wg_ginthash_init(NULL); MC_CHECK(t, "trans-init", "cannot create the table"); std::map<gint, gint> m; gint v;
  for (size_t i = 0; i < h.size(); i++) {
    gint k = K[h[i]]; gint rc = wg_ginthash_addkey(NULL, t, k, i * 8 + 1000); MC_CHECK(rc == 0, "trans-add", "adding %ld after %zu keys returns %ld", (long)k, i, (long)rc); m[k] = i * 8 + 1000;
  }
  for (gint k : K) {
    v = -77; gint rc = wg_ginthash_getkey(NULL, t, k, &v);
    if (m.count(k)) MC_CHECK(rc == 0 && v == m[k], "trans-get", "key %ld: returned %ld with value %ld instead of %ld", (long)k, (long)rc, (long)v, (long)m[k]);
    else MC_CHECK(rc == -1 && v == -77, "trans-get", "key %ld was never added but is found (%ld)", (long)k, (long)v);
  }
  wg_ginthash_free(NULL, t); return m.size() > 1;
}
// ---- set
static bool set(const std::vector<int> &h, size_t entries) {
  void *t = wg_dhash_init(NULL, entries); MC_CHECK(t, "set-init", "cannot create a set for %zu entries", entries); std::set<gint> m;
  for (size_t i = 0; i < h.size(); i++) {
    gint k = K[h[i]]; if (!m.count(k) && m.size() >= entries) break; gint rc = wg_dhash_addkey(NULL, t, k); MC_CHECK(rc == 0, "set-add", "adding %ld to a set of %zu of %zu returns %ld", (long)k, m.size(), entries, (long)rc); m.insert(k);
  }
  for (gint k : K) MC_CHECK(wg_dhash_haskey(NULL, t, k) == (gint)m.count(k), "set-has", "key %ld is %sreported as present", (long)k, m.count(k) ? "not " : "");
  wg_dhash_free(NULL, t); return m.size() > 1;
}
int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts(); Cases C; bool T = o.profile == "trans";
  if (o.profile == "large") {
    int N = o.num("n", 100000);
    for (int stride : {8, 16, 24, 1, 4096, 65536, 1 << 20}) C.run([&] { return fmt("keys 0, %d, ... (%d of them)", stride, N); }, [&]() -> bool {
      void *t = wg_ginthash_init(NULL); gint v; long next = 1;
      for (long i = 0; i < N; i++) {
        MC_CHECK(wg_ginthash_addkey(NULL, t, i * stride, ~i) == 0, "trans-add", "adding key number %ld fails", i);
        if (i + 1 == next || i + 1 == N) { next += next / 8 + 1; for (long j = 0; j <= i; j++) MC_CHECK(wg_ginthash_getkey(NULL, t, j * stride, &v) == 0 && v == ~j, "trans-get", "key number %ld of %ld is lost", j, i + 1); for (long j = i + 1; j < i + 50; j++) MC_CHECK(wg_ginthash_getkey(NULL, t, j * stride, &v) == -1, "trans-get", "key %ld was never added", j * stride); count("table sizes"); }
      }
      wg_ginthash_free(NULL, t); return true; });
    for (int stride : {8, 24, 64, 4096, 389 * 8, 769 * 8, 65536}) for (int n = 0; n < 3500; n += n < 800 ? 1 : 37) C.run([&] { return fmt("set of %d keys %d, ...", n, stride); }, [&]() -> bool {
      void *t = wg_dhash_init(NULL, n); for (long i = 1; i <= n; i++) MC_CHECK(wg_dhash_addkey(NULL, t, i * stride) == 0, "set-add", "adding key number %ld of %d fails", i, n);
      for (long i = 1; i <= 2 * n + 5; i++) MC_CHECK(wg_dhash_haskey(NULL, t, i * stride) == (i <= n), "set-has", "key number %ld of %d: wrong answer", i, n);
      wg_dhash_free(NULL, t); return n > 1; });
    return finish(C.failed());
  }
  if (T) K = {0, 16, 32, 48, 64, 1, 3, 5, 33, 35, 2, 34}; else for (int i = 1; i <= 7; i++) K.push_back(i * 8);
  int D = o.depth ? o.depth : 5; std::vector<int> h;
  std::function<void()> rec = [&] {
    if (T) C.run([&] { return "additions of " + names(h); }, [&] { return trans(h); });
    else for (int e = 0; e <= D; e++) C.run([&] { return fmt("set for %d: additions of ", e) + names(h); }, [&] { return set(h, e); });
    if ((int)h.size() == D) return;
    for (size_t i = 0; i < K.size(); i++) { h.push_back(i); rec(); h.pop_back(); if (over_budget()) return; }
  };
  rec(); return finish(C.failed());
}
