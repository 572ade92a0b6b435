// C11/C14: every reachable shape of an ordered index with up to N records.
// The tree code only compares keys, so two states with the same tree shape, node fill
// and order pattern of keys behave alike: the explored state is exactly that, and the
// exploration runs until no new state appears (no bound on the history length).
#include "dbworld.h"
#include <climits>
using namespace mc;
static const ll GAP = 1LL << 45;

struct TW : World {
  void *db = nullptr; int N, col = 0; bool ranges = false; std::vector<std::pair<gint, ll>> rows; // live records (offset, key)
  struct Op2 { int k, a, b; }; std::vector<Op2> ops; gint id = 0; std::string pages; 
  char *base() { return (char *)dbmemseg(db); }
  wg_index_header *H() { return (wg_index_header *)(base() + id); }
  void init_ops() {
    for (int g = 0; g <= N; g++) ops.push_back({0, 0, g}); for (int c = 0; c < N; c++) ops.push_back({1, 0, c});
    for (int i = 0; i < N; i++) ops.push_back({2, i, 0});
    for (int i = 0; i < N; i++) { for (int g = 0; g <= N; g++) ops.push_back({3, i, g}); for (int c = 0; c < N; c++) ops.push_back({4, i, c}); }
  }
  int nops() override { return ops.size(); }
  std::vector<ll> classes() { std::set<ll> s; for (auto &r : rows) s.insert(r.second); return {s.begin(), s.end()}; }
  bool enabled(int o) override {
    Op2 &p = ops[o]; int n = rows.size(), c = classes().size();
    switch (p.k) { case 0: return n < N && p.b <= c; case 1: return n < N && p.b < c; case 2: return p.a < n; case 3: return p.a < n && p.b <= c; default: return p.a < n && p.b < c; }
  }
  std::string opname(int o) override { Op2 &p = ops[o]; const char *f[] = {"insert new key at gap %d", "insert duplicate of key %d", "delete entry %d", "update entry %d to new key at gap %d", "update entry %d to key %d"}; return p.k < 2 ? fmt(f[p.k], p.b) : fmt(f[p.k], p.a, p.b); }
  ll gapkey(int g) { auto c = classes(); if (c.empty()) return 0; if (g == 0) return c[0] - GAP; if (g == (int)c.size()) return c.back() + GAP; if (c[g] - c[g - 1] < 2) fail("gap", "harness: key space exhausted"); return c[g - 1] + (c[g] - c[g - 1]) / 2; }
  void step(int o) override {
    Op2 p = ops[o]; std::vector<std::pair<gint, ll>> t = inorder();
    if (p.k < 2) {
      ll key = p.k == 0 ? gapkey(p.b) : classes()[p.b]; void *r = wg_create_raw_record(db, col + 1); MC_CHECK(r, "create-failed", "create failed");
      gint rc = wg_set_new_field(db, r, col, wg_encode_int(db, key)); MC_CHECK(rc == 0, "set-failed", "writing an indexed field returned %ld", (long)rc);
      rows.push_back({(char *)r - base(), key});
    } else {
      gint off = t[p.a].first; size_t i = 0; while (rows[i].first != off) i++;
      if (p.k == 2) { gint rc = wg_delete_record(db, base() + off); MC_CHECK(rc == 0, "delete-failed", "deleting returned %ld", (long)rc); rows.erase(rows.begin() + i); }
      else { ll key = p.k == 3 ? gapkey(p.b) : classes()[p.b]; gint rc = wg_set_field(db, base() + off, col, wg_encode_int(db, key)); MC_CHECK(rc == 0, "set-failed", "writing an indexed field returned %ld", (long)rc); rows[i].second = key; }
    }
    std::sort(rows.begin(), rows.end()); check();
  }
  // records in tree order, from the stored tree
  std::vector<std::pair<gint, ll>> inorder() {
    std::map<gint, ll> m(rows.begin(), rows.end()); std::vector<std::pair<gint, ll>> v; std::set<gint> nodes;
    std::function<void(gint)> walk = [&](gint o) {
      if (!o) return; MC_CHECK(nodes.insert(o).second && nodes.size() < 1000, "ttree-cycle", "a tree node is reachable twice");
      struct wg_tnode *n = (struct wg_tnode *)(base() + o); MC_CHECK(n->number_of_elements >= 0 && n->number_of_elements <= WG_TNODE_ARRAY_SIZE, "ttree-count", "a node claims %d elements", (int)n->number_of_elements);
      walk(n->left_child_offset);
      for (int i = 0; i < n->number_of_elements; i++) { auto it = m.find(n->array_of_values[i]); MC_CHECK(it != m.end(), "index-dead", "the index contains something that is not a live record"); v.push_back(*it); }
      walk(n->right_child_offset);
    };
    walk(TTREE_ROOT_NODE(H())); return v;
  }
  void check() {
    auto v = inorder(); std::set<gint> s; for (auto &x : v) MC_CHECK(s.insert(x.first).second, "index-twice", "the index contains a record twice");
    MC_CHECK(v.size() == rows.size(), "index-missing", "%zu of %zu records are in the index", v.size(), rows.size());
    for (size_t i = 1; i < v.size(); i++) MC_CHECK(v[i - 1].second <= v[i].second, "index-order", "the index is not in key order");
  }
  void leaf() override {   // once per state: the public query interface
    auto c = classes(); std::vector<ll> pts; if (c.empty()) pts = {0}; else { pts.push_back(c[0] - 5); for (size_t i = 0; i < c.size(); i++) { pts.push_back(c[i]); pts.push_back(c[i] + (i + 1 < c.size() ? (c[i + 1] - c[i]) / 2 : 5)); } }
    static const gint cond[] = {WG_COND_EQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_LTEQUAL, WG_COND_GTEQUAL};
    auto sat = [](ll x, gint c, ll k) { return c == WG_COND_EQUAL ? x == k : c == WG_COND_LESSTHAN ? x < k : c == WG_COND_GREATER ? x > k : c == WG_COND_LTEQUAL ? x <= k : x >= k; };
    auto run = [&](wg_query_arg *a, int n, ll k1, ll k2) {
      wg_query *q = wg_make_query(db, NULL, 0, a, n); MC_CHECK(q, "query-failed", "the query failed");
      std::set<gint> got; void *r; int cnt = 0; ll prev = LLONG_MIN;
      std::map<gint, ll> m(rows.begin(), rows.end());
      while ((r = wg_fetch(db, q))) { gint off = (char *)r - base(); MC_CHECK(m.count(off), "query-dead", "a query yields a dead record"); MC_CHECK(got.insert(off).second, "query-twice", "a query yields a record twice"); MC_CHECK(++cnt < 1000, "query-endless", "endless query"); prev = m[off]; }
      std::set<gint> exp; for (auto &x : rows) if (sat(x.second, a[0].cond, k1) && (n == 1 || sat(x.second, a[1].cond, k2))) exp.insert(x.first);
      MC_CHECK(got == exp, "query-rows", "query cond %ld%s yields %zu rows, %zu records satisfy it", (long)a[0].cond, n == 2 ? fmt("/%ld", (long)a[1].cond).c_str() : "", got.size(), exp.size());
      wg_free_query(db, q); stats().evaluations++;
    };
    for (ll k : pts) for (gint cd : cond) { wg_query_arg a; a.column = col; a.cond = cd; a.value = wg_encode_query_param_int(db, k); run(&a, 1, k, 0); wg_free_query_param(db, a.value); }
    if (ranges) for (ll k : pts) for (ll k2 : pts) for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) {
      if (!c.empty() && (k < c[0] && k2 < c[0])) continue;
      wg_query_arg a[2]; a[0].column = a[1].column = col; a[0].cond = cond[x]; a[1].cond = cond[y]; a[0].value = wg_encode_query_param_int(db, k); a[1].value = wg_encode_query_param_int(db, k2);
      run(a, 2, k, k2); wg_free_query_param(db, a[0].value); wg_free_query_param(db, a[1].value);
    }
  }
  void hash(H128 &h) override {
    auto c = classes(); std::map<gint, ll> m(rows.begin(), rows.end()); auto rank = [&](ll k) -> uint64_t { size_t i = std::lower_bound(c.begin(), c.end(), k) - c.begin(); return 2 * i + (i < c.size() && c[i] == k); };
    std::map<gint, int> order; std::vector<gint> nodes;
    std::function<void(gint)> pre = [&](gint o) { if (!o) return; order[o] = order.size() + 1; nodes.push_back(o); struct wg_tnode *n = (struct wg_tnode *)(base() + o); pre(n->left_child_offset); pre(n->right_child_offset); };
    pre(TTREE_ROOT_NODE(H()));
    auto ref = [&](gint o) -> uint64_t { return o == 0 ? 0 : order.count(o) ? order[o] : 9999; };
    hash_u64(h, rows.size());
#ifdef TTREE_CHAINED_NODES
    hash_u64(h, ref(TTREE_MIN_NODE(H()))); hash_u64(h, ref(TTREE_MAX_NODE(H())));
#endif
    for (gint o : nodes) { struct wg_tnode *n = (struct wg_tnode *)(base() + o);
      hash_u64(h, ref(n->parent_offset)); hash_u64(h, ref(n->left_child_offset)); hash_u64(h, ref(n->right_child_offset)); hash_u64(h, n->left_subtree_height); hash_u64(h, n->right_subtree_height); hash_u64(h, n->number_of_elements);
#ifdef TTREE_CHAINED_NODES
      hash_u64(h, ref(n->succ_offset)); hash_u64(h, ref(n->pred_offset));
#endif
      hash_u64(h, rank(wg_decode_int(db, n->current_min))); hash_u64(h, rank(wg_decode_int(db, n->current_max)));
      for (int i = 0; i < n->number_of_elements; i++) hash_u64(h, rank(m[n->array_of_values[i]])); }
  }
  // snapshots share unchanged pages
  
  struct Store { std::unordered_map<std::string, int> cnt; const std::string *get(std::string &&s) { auto it = cnt.try_emplace(std::move(s), 0).first; it->second++; return &it->first; } void put(const std::string *p) { auto it = cnt.find(*p); if (--it->second == 0) cnt.erase(it); } } store;
  static const int PG = 512;
  struct Snap { std::vector<const std::string *> p; gint free; std::vector<std::pair<gint, ll>> rows; };
  void *save() override { Snap *s = new Snap; s->free = HDR(db)->free; s->rows = rows; for (gint o = 0; o < s->free; o += PG) s->p.push_back(store.get(std::string((char *)HDR(db) + o, std::min<gint>(PG, s->free - o)))); return s; }
  void restore(void *v) override { Snap *s = (Snap *)v; gint o = 0; for (auto *p : s->p) { memcpy((char *)HDR(db) + o, p->data(), p->size()); o += p->size(); } rows = s->rows; }
  void drop(void *v) override { Snap *s = (Snap *)v; for (auto *p : s->p) store.put(p); delete s; }
};
int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts(); TW w; w.N = o.num("n", 5); w.ranges = o.num("ranges", 0);
  w.db = wg_attach_local_database(200000); if (!w.db) { fprintf(out(), "no db\n"); return 2; }
  if (wg_create_index(w.db, w.col, WG_INDEX_TYPE_TTREE, NULL, 0)) { fprintf(out(), "no index\n"); return 2; }
  w.id = wg_column_to_index_id(w.db, w.col, WG_INDEX_TYPE_TTREE, NULL, 0); w.init_ops();
  Closure c(w, o.num("maxstates", 3000000)); bool f = c.explore(); stats().nontrivial = stats().evaluations; finish(f);
}
