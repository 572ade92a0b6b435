// A table with indexes: the model of DbWorld extended by indexes and their oracle.
#pragma once
#include "dbworld.h"
using namespace mc;
static std::string L(char c, int n) { return std::string(n, c); }

struct Cat { gint type; std::vector<gint> cols; bool templ = false; std::vector<Val> t; gint reclen = 0; int valid = 1; std::string name; };
struct IS { bool live = false; gint id = 0; };
enum { U_ICREATE, U_IDROP, U_RAWFILL, U_IDROPBAD, U_ATOMIC };

static bool veq(const Val &a, const Val &b) { return a == b || (a.t == V_DBL && b.t == V_DBL && a.d == b.d); }
struct IW : DbWorld {
  std::vector<Cat> cat; std::vector<IS> is; std::vector<std::pair<int, std::vector<int>>> fills; // (order 0 asc 1 desc, values)
  std::vector<Val> probes_v; bool do_query = true; int nrec_len = 1; bool check_listing = true;
  void addcat(gint type, std::vector<gint> cols, std::vector<Val> t = {}, bool templ = false, int valid = 1) {
    Cat c; c.type = type; c.cols = cols; c.templ = templ; c.t = t; c.reclen = t.size(); c.valid = valid;
    c.name = fmt("%s(", type == WG_INDEX_TYPE_TTREE ? "ttree" : type == WG_INDEX_TYPE_HASH ? "hash" : type == WG_INDEX_TYPE_HASH_JSON ? "jsonhash" : type == WG_INDEX_TYPE_TTREE_JSON ? "jsonttree" : "badtype"); for (gint x : cols) c.name += fmt("%ld ", (long)x); c.name += ")";
    if (templ) { c.name += "if["; for (auto &v : t) c.name += v.t == V_VAR ? std::string("* ") : v.str() + " "; c.name += "]"; }
    cat.push_back(c); is.push_back(IS());
  }
  void op_icreate(int i) { add(O_USER, i, 0, 0, U_ICREATE, "create index " + cat[i].name); }
  void op_atomic(int s, int f, int v) { add(O_USER, s, f, v, U_ATOMIC, fmt("set_atomic_field #%d[%d]=%s", s, f, vals[v].str().c_str())); }
  void op_idrop(int i) { add(O_USER, i, 0, 0, U_IDROP, "drop index " + cat[i].name); }
  void op_rawfill(int order, std::vector<int> v) { fills.push_back({order, v}); std::string s = order ? "raw+fill desc(" : "raw+fill("; for (int x : v) s += vals[x].str() + " "; add(O_USER, fills.size() - 1, 0, 0, U_RAWFILL, s + ")"); }
  bool user_enabled(Op &p) override {
    if (p.d == U_RAWFILL) return free_slot() >= 0;
    if (p.d == U_IDROP) return is[p.a].live;
    if (p.d == U_ATOMIC) return m.r[p.a].live && (int)m.r[p.a].f.size() > p.b;
    return true;
  }
  // the columns and template in normal form
  std::vector<gint> sorted(const Cat &c) { auto v = c.cols; std::sort(v.begin(), v.end()); return v; }
  std::vector<Val> trimmed(const Cat &c) { auto t = c.t; while (t.size() && t.back().t == V_VAR) t.pop_back(); return t; }
  bool same(const Cat &a, const Cat &b) { if (a.type != b.type || sorted(a) != sorted(b) || a.templ != b.templ) return false; if (!a.templ) return true; auto x = trimmed(a), y = trimmed(b); if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) { if ((x[i].t == V_VAR) != (y[i].t == V_VAR)) return false; if (x[i].t != V_VAR && x[i] != y[i]) return false; } return true; }
  gint *enc_templ(const Cat &c, std::vector<gint> &buf, bool param) { if (!c.templ) return NULL; buf.clear(); for (auto &v : c.t) buf.push_back(param && v.t != V_REC ? enc_param(db, v) : enc_val(db, v, v.t == V_REC ? ptr(v.i) : nullptr)); buf.push_back(0); return buf.data(); }
  void free_templ(const Cat &c, std::vector<gint> &buf, bool param) { if (c.templ) for (size_t i = 0; i < c.t.size(); i++) { if (param) wg_free_query_param(db, buf[i]); else if (c.t[i].t != V_REC) wg_free_encoded(db, buf[i]); } }
  bool has(const Cat &c, const MRec &r) {
    if (!r.live || (gint)r.f.size() <= sorted(c).back()) return false;
    if (c.templ) { auto t = trimmed(c); if (r.f.size() < t.size()) return false; for (size_t i = 0; i < t.size(); i++) if (t[i].t != V_VAR && r.f[i] != t[i]) return false; }
    return true;
  }
  void user_step(Op &p) override {
    std::vector<gint> buf;
    if (p.d == U_ATOMIC) { // done or refused, the indexes have to agree with the content
      gint rc = wg_set_atomic_field(db, ptr(p.a), p.b, enc_val(db, vals[p.c])); if (rc == 0) m.r[p.a].f[p.b] = vals[p.c]; else MC_CHECK(rc == -13 || rc == -11, "atomic", "wg_set_atomic_field returned %ld", (long)rc); mc::count(rc ? "atomic refused" : "atomic");
    } else if (p.d == U_RAWFILL) {
      auto &f = fills[p.a]; int s = free_slot(); int n = f.second.size(); void *r = wg_create_raw_record(db, n); MC_CHECK(r, "create-failed", "creating a raw record failed");
      m.r[s].live = true; m.r[s].off = (char *)r - (char *)dbmemseg(db); m.r[s].f.assign(n, Val());
      for (int k = 0; k < n; k++) { int i = f.first ? n - 1 - k : k; gint e = enc_val(db, vals[f.second[i]]); gint rc = wg_set_new_field(db, r, i, e); MC_CHECK(rc == 0, "set-failed", "wg_set_new_field returned %ld", (long)rc); m.r[s].f[i] = vals[f.second[i]]; }
    } else if (p.d == U_ICREATE) {
      Cat &c = cat[p.a]; bool dup = false; for (size_t i = 0; i < cat.size(); i++) if (is[i].live && same(cat[i], c)) dup = true;
      bool exp = c.valid > 0 && !dup; H128 h0 = hash0(), h1 = hash0(); HeapCount c0, c1;
      gint *t = enc_templ(c, buf, false); if (!exp) { fsck(db, &c0); img_hash(db, h0); }
      gint rc = wg_create_multi_index(db, c.cols.data(), c.cols.size(), c.type, t, c.reclen);
      if (exp) {
        MC_CHECK(rc == 0, "icreate-failed", "creating %s returned %ld", c.name.c_str(), (long)rc);
        is[p.a].live = true; free_templ(c, buf, false);
        gint id = wg_multi_column_to_index_id(db, c.cols.data(), c.cols.size(), c.type, t ? enc_templ(c, buf, true) : NULL, c.reclen); if (t) free_templ(c, buf, true);
        MC_CHECK(id > 0, "lookup-new", "the index %s just created is not found", c.name.c_str());
        is[p.a].id = id;
      } else {
        MC_CHECK(rc != 0, "icreate-accepted", "creating %s succeeded although %s", c.name.c_str(), dup ? "it exists" : "it is not supported");
        fsck(db, &c1); for (int i = 0; i < 10; i++) MC_CHECK(c0.a[i].used == c1.a[i].used, "icreate-leak", "refused creation of %s changed the number of objects in storage area %d from %lld to %lld", c.name.c_str(), i, c0.a[i].used, c1.a[i].used);
        free_templ(c, buf, false);
        stats().outcomes["refused create"]++;
      }
    } else if (p.d == U_IDROP) {
      Cat &c = cat[p.a]; bool hash = c.type == WG_INDEX_TYPE_HASH || c.type == WG_INDEX_TYPE_HASH_JSON;
      gint rc = wg_drop_index(db, is[p.a].id);
      if (hash && rc != 0) { stats().outcomes["hash drop refused"]++; }   // refused: must have no effect
      else { MC_CHECK(rc == 0, "idrop-failed", "dropping %s returned %ld", c.name.c_str(), (long)rc); is[p.a].live = false; is[p.a].id = 0; }
    }
  }
  // ---------------- oracle
  std::set<gint> want(const Cat &c) { std::set<gint> s; for (auto &r : m.r) if (has(c, r)) s.insert(r.off); return s; }
  void ttree(const Cat &c, gint id) {
    wg_index_header *h = (wg_index_header *)((char *)dbmemseg(db) + id); gint col = c.cols[0]; std::vector<gint> rows, chain; std::set<gint> nodes;
    char *base = (char *)dbmemseg(db);
    std::function<void(gint, gint)> walk = [&](gint o, gint parent) {
      if (!o) return; MC_CHECK(nodes.insert(o).second && nodes.size() < 10000, "ttree-cycle", "%s: a node is reachable twice", c.name.c_str());
      struct wg_tnode *n = (struct wg_tnode *)(base + o);
      MC_CHECK(n->parent_offset == parent, "ttree-parent", "%s: wrong parent link", c.name.c_str());
      MC_CHECK(n->number_of_elements >= 0 && n->number_of_elements <= WG_TNODE_ARRAY_SIZE, "ttree-count", "%s: node with %d elements", c.name.c_str(), n->number_of_elements);
      walk(n->left_child_offset, o); chain.push_back(o);
      for (int i = 0; i < n->number_of_elements; i++) rows.push_back(n->array_of_values[i]);
      walk(n->right_child_offset, o);
    };
    walk(TTREE_ROOT_NODE(h), 0);
    std::set<gint> w = want(c), seen;
    for (gint r : rows) { MC_CHECK(slot_of(r) >= 0, "index-dead", "%s contains something that is not a live record", c.name.c_str()); MC_CHECK(seen.insert(r).second, "index-twice", "%s contains record #%d twice", c.name.c_str(), slot_of(r)); MC_CHECK(w.count(r), "index-alien", "%s contains record #%d which does not belong to it", c.name.c_str(), slot_of(r)); }
    for (gint r : w) MC_CHECK(seen.count(r), "index-missing", "%s does not contain record #%d", c.name.c_str(), slot_of(r));
    for (size_t i = 1; i < rows.size(); i++) MC_CHECK(WG_COMPARE(db, wg_get_field(db, base + rows[i - 1], col), wg_get_field(db, base + rows[i], col)) != WG_GREATER, "index-order", "%s is not in key order", c.name.c_str());
#ifdef TTREE_CHAINED_NODES
    gint o = TTREE_MIN_NODE(h); size_t k = 0; for (; o && k <= chain.size(); k++, o = ((struct wg_tnode *)(base + o))->succ_offset) MC_CHECK(k < chain.size() && chain[k] == o, "index-chain", "%s: the forward chain differs from the tree order", c.name.c_str());
    MC_CHECK(k == chain.size(), "index-chain", "%s: the forward chain is too short", c.name.c_str());
    o = TTREE_MAX_NODE(h); k = chain.size(); for (; o && k > 0; o = ((struct wg_tnode *)(base + o))->pred_offset) MC_CHECK(chain[--k] == o, "index-chain2", "%s: the backward chain differs from the tree order", c.name.c_str());
    MC_CHECK(k == 0 && !o, "index-chain2", "%s: the backward chain has the wrong length", c.name.c_str());
#endif
    // the public API: range queries on the column
    if (do_query && !c.templ) for (auto &pv : probes_v) {
      gint ops_[] = {WG_COND_EQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_LTEQUAL, WG_COND_GTEQUAL};
      for (gint cond : ops_) {
        wg_query_arg a; a.column = col; a.cond = cond; a.value = enc_param(db, pv); wg_query *q = wg_make_query(db, NULL, 0, &a, 1); MC_CHECK(q, "query-failed", "query failed");
        std::set<gint> got; int n = 0; gint prev = 0; void *r;
        while ((r = wg_fetch(db, q))) { gint off = (char *)r - base; MC_CHECK(slot_of(off) >= 0, "query-dead", "a query on column %ld yields a dead record", (long)col); MC_CHECK(got.insert(off).second, "query-twice", "a query on column %ld yields a record twice", (long)col); MC_CHECK(++n < 1000, "query-endless", "endless query"); prev = off; }
        std::set<gint> exp; for (auto &x : m.r) if (has(c, x)) { gint cr = WG_COMPARE(db, wg_get_field(db, base + x.off, col), a.value); bool y = cond == WG_COND_EQUAL ? cr == WG_EQUAL : cond == WG_COND_LESSTHAN ? cr == WG_LESSTHAN : cond == WG_COND_GREATER ? cr == WG_GREATER : cond == WG_COND_LTEQUAL ? cr != WG_GREATER : cr != WG_LESSTHAN; if (y) exp.insert(x.off); }
        MC_CHECK(got == exp, "query-rows", "query column %ld cond %ld value %s through the index yields %zu rows, a scan finds %zu", (long)col, (long)cond, pv.str().c_str(), got.size(), exp.size());
        wg_free_query(db, q); wg_free_query_param(db, a.value);
      }
    }
  }
  std::vector<gint> reclist(gint l) { std::vector<gint> v; while (l > 0) { gcell *g = (gcell *)((char *)dbmemseg(db) + l); v.push_back(g->car); l = g->cdr; if (v.size() > 10000) fail("hash-cycle", "endless row list in a hash index"); } return v; }
  void hash(const Cat &c, gint id) {
    wg_index_header *h = (wg_index_header *)((char *)dbmemseg(db) + id); auto cols = sorted(c); size_t nc = cols.size(); char *base = (char *)dbmemseg(db);
    // 1. structural: the rows stored in the index are exactly the matching ones, each once
    db_hash_area_header *ha = HASHIDX_ARRAYP(h); std::vector<gint> rows; int guard = 0;
    for (gint b = 0; b < ha->arraylength; b++) for (gint k = FETCH(ha->arraystart + b * 8); k; k = FETCH(k + HASHIDX_HASHCHAIN_POS * 8)) {
      MC_CHECK(++guard < 100000, "hash-cycle", "%s: endless bucket chain", c.name.c_str());
      auto v = reclist(FETCH(k + HASHIDX_RECLIST_POS * 8)); MC_CHECK(v.size(), "hash-empty", "%s: empty bucket kept", c.name.c_str()); rows.insert(rows.end(), v.begin(), v.end()); }
    std::set<gint> w = want(c), seen;
    for (gint r : rows) { MC_CHECK(slot_of(r) >= 0, "index-dead", "%s contains something that is not a live record", c.name.c_str()); MC_CHECK(seen.insert(r).second, "index-twice", "%s contains record #%d twice", c.name.c_str(), slot_of(r)); MC_CHECK(w.count(r), "index-alien", "%s contains record #%d which does not belong to it", c.name.c_str(), slot_of(r)); }
    for (gint r : w) MC_CHECK(seen.count(r), "index-missing", "%s does not contain record #%d", c.name.c_str(), slot_of(r));
    // 2. lookups of every combination of probe values
    std::vector<Val> pv = probes_v; size_t total = 1; for (size_t i = 0; i < nc; i++) total *= pv.size();
    for (size_t x = 0; x < total; x++) {
      std::vector<gint> e; std::vector<Val> v; size_t y = x; for (size_t i = 0; i < nc; i++) { Val q = pv[y % pv.size()]; y /= pv.size(); v.push_back(q); }
      bool bad = false; for (auto &q : v) if (q.t == V_REC && !m.r[q.i].live) bad = true; if (bad) continue;
      for (auto &q : v) e.push_back(enc_param(db, q, q.t == V_REC ? ptr(q.i) : nullptr));
      gint rl = wg_search_hash(db, id, e.data(), nc); MC_CHECK(rl >= 0, "hash-search", "%s: lookup fails", c.name.c_str());
      std::set<gint> got; for (gint r : reclist(rl)) got.insert(r);
      std::set<gint> exp; for (auto &r : m.r) if (has(c, r)) { bool ok = true; for (size_t i = 0; i < nc; i++) if (!veq(r.f[cols[i]], v[i])) ok = false; if (ok) exp.insert(r.off); }
      std::string d; for (auto &q : v) d += q.str() + " ";
      MC_CHECK(got == exp, "hash-lookup", "%s: looking up %s yields %zu rows, %zu records have these values", c.name.c_str(), d.c_str(), got.size(), exp.size());
      for (auto q : e) wg_free_query_param(db, q);
    }
  }
  void listing() {
    std::multiset<gint> ids, got; for (size_t i = 0; i < cat.size(); i++) if (is[i].live) ids.insert(is[i].id);
    gint n = -1; gint *l = (gint *)wg_get_all_indexes(db, &n);
    if (ids.empty()) MC_CHECK(n == 0 && !l, "list", "no index exists but %ld are listed", (long)n);
    else { MC_CHECK(l, "list", "%zu indexes exist but the list is not delivered", ids.size()); got.insert(l, l + n); free(l); MC_CHECK(got == ids, "list", "%zu indexes exist, %ld listed or different ones", ids.size(), (long)n); }
    for (size_t i = 0; i < cat.size(); i++) {
      Cat &c = cat[i]; if (c.valid < 0) continue; gint exp = -1; for (size_t k = 0; k < cat.size(); k++) if (is[k].live && same(cat[k], c)) exp = is[k].id;
      std::vector<gint> buf; gint *t = enc_templ(c, buf, true);
      gint id = wg_multi_column_to_index_id(db, c.cols.data(), c.cols.size(), c.type, t, c.reclen); if (t) free_templ(c, buf, true);
      MC_CHECK(id == exp, "lookup", "looking up %s gives %ld instead of %ld", c.name.c_str(), (long)id, (long)exp);
      if (is[i].live) {
        MC_CHECK(wg_get_index_type(db, id) == c.type, "lookup-type", "type of %s reported as %ld", c.name.c_str(), (long)wg_get_index_type(db, id));
        gint rl = -7; gint *ta = (gint *)wg_get_index_template(db, id, &rl);
        if (!c.templ) MC_CHECK(!ta, "lookup-templ", "%s reports a filter", c.name.c_str());
        else { auto tt = trimmed(c); MC_CHECK(ta && rl == (gint)tt.size(), "lookup-templ", "filter of %s has length %ld", c.name.c_str(), (long)rl); for (gint k = 0; k < rl; k++) if (tt[k].t == V_VAR) MC_CHECK(wg_get_encoded_type(db, ta[k]) == V_VAR, "lookup-templ", "filter of %s differs", c.name.c_str()); else MC_CHECK(dec_val(db, ta[k]) == tt[k], "lookup-templ", "filter of %s differs", c.name.c_str()); }
      }
    }
  }
  void post_check() override {
    for (size_t i = 0; i < cat.size(); i++) if (is[i].live) { if (cat[i].type == WG_INDEX_TYPE_TTREE) ttree(cat[i], is[i].id); else hash(cat[i], is[i].id); }
    if (check_listing) listing();
    if (drop_all) dropall();
  }
  bool drop_all = false;
  void dropall() {   // dropping every index releases all their storage, the table stays
    Image *im = img_save(db); auto mm = m; auto ii = is;
    auto back = [&] { img_restore(db, im); m = mm; is = ii; delete im; };
    try {
      for (size_t i = 0; i < cat.size(); i++) if (is[i].live && cat[i].type == WG_INDEX_TYPE_TTREE) { MC_CHECK(wg_drop_index(db, is[i].id) == 0, "idrop-failed", "dropping %s failed", cat[i].name.c_str()); is[i].live = false; listing(); }
      bool any = false; for (auto &x : is) any |= x.live;
      if (!any) { teardown(); }
    } catch (Violation &) { back(); throw; }
    back();
  }
  struct S2 { Image *i; Model m; std::vector<IS> is; };
  void *save() override { return new S2{img_save(db), m, is}; }
  void restore(void *p) override { S2 *s = (S2 *)p; img_restore(db, s->i); m = s->m; is = s->is; }
  void drop(void *p) override { S2 *s = (S2 *)p; delete s->i; delete s; }
  void hash(H128 &h) override { img_hash(db, h); m.hash(h); for (auto &x : is) { hash_u64(h, x.live); hash_u64(h, x.id); } }
  void pre(int n, int f) { for (int i = 0; i < n; i++) { void *r = wg_create_record(db, f); m.r[i].live = true; m.r[i].off = (char *)r - (char *)dbmemseg(db); m.r[i].f.assign(f, Val()); } }
  void icreate(int i) { Op p; p.k = O_USER; p.d = U_ICREATE; p.a = i; user_step(p); }
  void setnow(int s, int f, int v) { Op p; p.k = O_SET; p.a = s; p.b = f; p.c = v; apply(p); }
};

