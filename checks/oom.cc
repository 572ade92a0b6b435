// C10: every storage area exhausted at every point of every operation, in every state reached by the operation sequences.
#include "ixworld.h"

struct Req { int area; gint n; };
static std::vector<Req> reqs; static bool rec_on = false; static void *rec_db;
static int area_no(void *a) { auto as = areas(rec_db); for (int i = 0; i < (int)as.size(); i++) if ((void *)as[i].second == a) return i; return -1; }
extern "C" {
gint __real_wg_alloc_gints(void *, void *, gint); gint __real_wg_alloc_fixlen_object(void *, void *);
gint __wrap_wg_alloc_gints(void *db, void *a, gint n) { if (rec_on) reqs.push_back({area_no(a), n}); return __real_wg_alloc_gints(db, a, n); }
gint __wrap_wg_alloc_fixlen_object(void *db, void *a) { if (rec_on) reqs.push_back({area_no(a), 0}); return __real_wg_alloc_fixlen_object(db, a); }
}
enum { U_DOC = 100 };
#ifdef WRAP_MALLOC
struct Pause { bool was = memctl::on; Pause() { memctl::on = false; } ~Pause() { memctl::on = was; } };
#else
struct Pause { Pause() {} };
namespace memctl { static long live, nalloc, fail_at, fail_from; static bool on; }
#endif
struct OW : IW {
  std::vector<std::string> docs; bool partial = false; // -2: parts of the document may be left behind, as documented
  int deep = 1; gint dbsize = 0;
  void op_doc(const std::string &d) { docs.push_back(d); add(O_USER, docs.size() - 1, 0, 0, U_DOC, "import and delete " + d); }
  bool user_enabled(Op &p) override { if (p.d == U_DOC) return true; if (p.d == U_ICREATE) { for (size_t i = 0; i < cat.size(); i++) if (is[i].live && same(cat[i], cat[p.a])) return false; return true; } return IW::user_enabled(p); }
  // run one operation: true if it was carried out, false if it reported a failure (the model then stays as it was)
  bool attempt(Op &p) {
    switch (p.k) {
      case O_CREATE: {
        int s = free_slot(); void *r = wg_create_record(db, p.a); if (!r) return false;
        m.r[s].live = true; m.r[s].special = false; m.r[s].off = (char *)r - (char *)dbmemseg(db); m.r[s].f.assign(p.a, Val()); return true; }
      case O_SET: {
        Val v = p.c >= 0 ? vals[p.c] : vRec(-1 - p.c); gint e = enc_val(db, v, v.t == V_REC ? ptr(v.i) : nullptr); if (e == WG_ILLEGAL) return false;
        gint rc = wg_set_field(db, ptr(p.a), p.b, e);
        if (rc) { MC_CHECK(rc == -3 || rc == -4, "set-code", "a write for which there is no memory returns %ld", (long)rc); if (v.t != V_REC) wg_free_encoded(db, e); return false; }
        m.r[p.a].f[p.b] = v; return true; }
      case O_DELETE: { int refs = m.refs(p.a); gint rc = wg_delete_record(db, ptr(p.a)); MC_CHECK(rc == (refs ? -1 : 0), "delete", "with the memory exhausted deleting #%d returns %ld", p.a, (long)rc); if (!rc) { m.r[p.a].live = false; m.r[p.a].f.clear(); } return true; }
      case O_ENCFREE: { gint e = enc_val(db, vals[p.a]); if (e == WG_ILLEGAL) return false; MC_CHECK(dec_val(db, e) == vals[p.a], "roundtrip", "encoded %s reads back as %s", vals[p.a].str().c_str(), dec_val(db, e).str().c_str()); MC_CHECK(wg_free_encoded(db, e) == 0, "free-encoded", "freeing an encoded value failed"); return true; }
      default: break;
    }
    if (p.d == U_RAWFILL) {
      auto &f = fills[p.a]; int n = f.second.size(); void *r = wg_create_raw_record(db, n); if (!r) return false;
      for (int k = 0; k < n; k++) { int i = f.first ? n - 1 - k : k; Val v = vals[f.second[i]]; gint e = enc_val(db, v); gint rc = e == WG_ILLEGAL ? -3 : wg_set_new_field(db, r, i, e);
        if (rc) { MC_CHECK(rc == -3 || rc == -4, "set-code", "a write for which there is no memory returns %ld", (long)rc); if (e != WG_ILLEGAL) wg_free_encoded(db, e);
          MC_CHECK(wg_delete_record(db, r) == 0, "delete-new", "the record that could not be filled cannot be deleted"); return false; } }
      int s = free_slot(); m.r[s].live = true; m.r[s].special = false; m.r[s].off = (char *)r - (char *)dbmemseg(db); m.r[s].f.clear(); for (int x : f.second) m.r[s].f.push_back(vals[x]); return true;
    }
    if (p.d == U_ICREATE) {
      Cat &c = cat[p.a]; std::vector<gint> buf; if (c.templ) for (auto &v : c.t) { gint e = enc_val(db, v); if (e == WG_ILLEGAL) { for (auto x : buf) wg_free_encoded(db, x); return false; } buf.push_back(e); } buf.push_back(0);
      gint rc = wg_create_multi_index(db, c.cols.data(), c.cols.size(), c.type, c.templ ? buf.data() : NULL, c.reclen); if (c.templ) free_templ(c, buf, false);
      if (rc) return false;
      is[p.a].live = true; Pause ps; gint id = wg_multi_column_to_index_id(db, c.cols.data(), c.cols.size(), c.type, c.templ ? enc_templ(c, buf, true) : NULL, c.reclen); if (c.templ) free_templ(c, buf, true);
      MC_CHECK(id > 0, "lookup-new", "the index %s just created is not found", c.name.c_str()); is[p.a].id = id; return true;
    }
    if (p.d == U_IDROP) { if (cat[p.a].type != WG_INDEX_TYPE_TTREE) return true; MC_CHECK(wg_drop_index(db, is[p.a].id) == 0, "idrop", "with the memory exhausted dropping %s fails", cat[p.a].name.c_str()); is[p.a].live = false; is[p.a].id = 0; return true; }
    if (p.d == U_DOC) { void *d = NULL; gint rc = wg_parse_json_document(db, (char *)docs[p.a].c_str(), &d); if (rc) { MC_CHECK(rc == -1 || rc == -2, "doc-code", "an import for which there is no memory returns %ld", (long)rc); partial |= rc == -2; return false; } MC_CHECK(d, "doc", "document import succeeds without a document"); MC_CHECK(wg_delete_document(db, d) == 0, "doc-delete", "with the memory exhausted deleting a document fails"); return true; }
    abort();
  }
  // ---- exhaustion: all of the area except the first j requests of the operation
  std::vector<std::pair<int, gint>> held; gint oldsize;
  gint take(int a, gint n) { auto as = areas(db); return as[a].second->fixedlength ? __real_wg_alloc_fixlen_object(db, as[a].second) : __real_wg_alloc_gints(db, as[a].second, n); }
  void give(int a, gint o) { auto as = areas(db); if (as[a].second->fixedlength) wg_free_fixlen_object(db, as[a].second, o); else MC_CHECK(wg_free_object(db, as[a].second, o) == 0, "free", "freeing storage failed"); }
  void exhaust(int a, const std::vector<gint> &keep) {   // a = -1: only the segment; a = -2: everything
    auto as = areas(db); held.clear(); oldsize = HDR(db)->size; std::vector<gint> k, sp;
    if (a >= 0) { bool fx = as[a].second->fixedlength; if (!fx && keep.size()) sp.push_back(take(a, 4)); for (gint n : keep) { k.push_back(take(a, n)); if (!fx) sp.push_back(take(a, 4)); } for (gint x : k) MC_CHECK(x, "harness-room", "no room to prepare"); for (gint x : sp) { MC_CHECK(x, "harness-room", "no room to prepare"); held.push_back({a, x}); } }
    HDR(db)->size = HDR(db)->free;
    for (int i = 0; i < (int)as.size(); i++) if (a == i || a == -2) {
      if (as[i].second->fixedlength) { gint o; while ((o = take(i, 0))) held.push_back({i, o}); }
      else for (gint n = 1 << 17; n >= 4; n = n > 4 && n / 2 < 4 ? 4 : n == 4 ? 0 : n / 2) { gint o; while ((o = take(i, n))) held.push_back({i, o}); }
    }
    for (gint x : k) give(a, x);
  }
  void release() { for (auto &h : held) give(h.first, h.second); held.clear(); HDR(db)->size = oldsize; }
  void counts(HeapCount &c) { fsck(db, &c); }
  // the shape of an ordered index depends on its history: every tree node in use must be part of an index
  int heldnodes() { int n = 0; for (auto &h : held) n += h.first == 6; return n; }
  void nodes() {
    HeapCount c; counts(c); ll n = 0; char *b = (char *)dbmemseg(db);
    std::function<void(gint)> walk = [&](gint o) { if (!o) return; n++; struct wg_tnode *t = (struct wg_tnode *)(b + o); walk(t->left_child_offset); walk(t->right_child_offset); };
    for (size_t i = 0; i < cat.size(); i++) if (is[i].live && cat[i].type == WG_INDEX_TYPE_TTREE) walk(TTREE_ROOT_NODE(((wg_index_header *)(b + is[i].id))));
    MC_CHECK(n + heldnodes() == c.a[6].used, "node-leak", "%lld tree nodes are in use but the indexes have %lld", c.a[6].used - heldnodes(), n);
  }
  void same_counts(const HeapCount &a, const HeapCount &b, const char *what) { if (partial) return; auto as = areas(db); for (int i = 0; i < 10; i++) if (i != 6) MC_CHECK(a.a[i].used == b.a[i].used, "leak", "%s: %lld %s objects are in use instead of %lld", what, b.a[i].used, as[i].first, a.a[i].used); }
  // the process heap refuses the k-th request of the operation (and, in mode 1, all later ones)
  void step_heap(Op &p) {
    void *S = save(); HeapCount c0; counts(c0); auto run = [&](long k, int mode) { memctl::live = 0; memctl::nalloc = 0; memctl::fail_at = mode ? -1 : k; memctl::fail_from = mode ? k : -1; memctl::on = true; bool r; try { r = attempt(p); } catch (...) { memctl::on = false; memctl::fail_at = memctl::fail_from = -1; throw; } memctl::on = false; memctl::fail_at = memctl::fail_from = -1; return r; };
    bool ok = run(-1, 0); MC_CHECK(ok, "failed", "the operation fails although there is memory"); long n = memctl::nalloc, l0 = memctl::live; checkall(); MC_CHECK(l0 == 0, "heap-leak", "%ld blocks are not returned", l0); HeapCount c9; counts(c9); void *R = save();
    for (int mode = 0; mode <= (p.k == O_DELETE ? 1 : heap_modes); mode++) for (long k = 0; k < n; k++) {
      restore(S); std::string what = fmt("heap request %ld of %ld%s refused", k + 1, n, mode ? " and all later ones" : "");
      try {
        partial = false; bool done = run(k, mode); MC_CHECK(memctl::live == 0, "heap-leak", "%ld blocks are not returned", memctl::live); checkall(); HeapCount c2; counts(c2); count(done ? "carried out although refused heap memory" : "refused"); stats().transitions++;
        if (!done) { if (partial) { count("import left parts behind"); continue; } same_counts(c0, c2, "after the refusal"); MC_CHECK(attempt(p), "still-failing", "the operation fails with memory available again"); checkall(); HeapCount c4; counts(c4); same_counts(c9, c4, "after the repetition"); }
        else same_counts(c9, c2, "after the operation");
      } catch (Violation &x) { drop(S); drop(R); throw Violation{x.sig, x.msg + " {" + what + "}"}; }
    }
    partial = false; restore(R); drop(R); drop(S);
  }
  int heap = 0, heap_modes = 1;
  void step(int o) override {
    Op p = ops[o]; if (heap) return step_heap(p);
    void *S = save(); HeapCount c0; counts(c0);
    reqs.clear(); rec_db = db; rec_on = true; bool ok = attempt(p); rec_on = false;
    MC_CHECK(ok, "failed", "the operation fails although there is memory"); checkall(); HeapCount c9; counts(c9); auto rq = reqs; void *R = save();
    struct Var { int area; std::vector<gint> keep; }; std::vector<Var> vs; vs.push_back({-1, {}}); vs.push_back({-2, {}});
    for (int a = 0; a < 10; a++) { std::vector<gint> keep; for (auto &q : rq) if (q.area == a) { vs.push_back({a, keep}); keep.push_back(q.n); } }
    auto nm = areas(db);
    for (auto &v : vs) {
      restore(S);
      std::string what = v.area == -1 ? "no more segment" : v.area == -2 ? "nothing free anywhere" : fmt("%s area with %zu requests left", nm[v.area].first, v.keep.size());
      try {
        partial = false; exhaust(v.area, v.keep); HeapCount c1; counts(c1);
        bool done = attempt(p); checkall(); HeapCount c2; counts(c2);
        count(done ? "carried out although exhausted" : "refused"); stats().transitions++;
        if (!done) {
          same_counts(c1, c2, "after the refusal");
          if (deep) { // further operations with the memory still exhausted
            void *E = save(); auto h2 = held;
            for (int q = 0; q < nops(); q++) if (enabled(q)) { bool pt = partial; try { attempt(ops[q]); checkall(); stats().transitions++; } catch (Violation &x) { throw Violation{x.sig, x.msg + " [next: " + opname(q) + "]"}; } partial = pt; held = h2; restore(E); }
            drop(E);
          }
          release(); checkall(); if (partial) { count("import left parts behind"); continue; } HeapCount c3; counts(c3); same_counts(c0, c3, "after the refusal and the return of the memory");
          MC_CHECK(attempt(p), "still-failing", "the operation fails after the return of the memory"); checkall(); HeapCount c4; counts(c4); same_counts(c9, c4, "after the repetition");
        } else { release(); checkall(); HeapCount c4; counts(c4); same_counts(c9, c4, "after the return of the memory"); }
      } catch (Violation &x) { held.clear(); drop(S); drop(R); throw Violation{x.sig, x.msg + " {" + what + "}"}; }
    }
    partial = false; restore(R); drop(R); drop(S);
  }
  void checkall() override { if (!partial) return IW::checkall(); content(); fsck(db); }
  void post_check() override { IW::post_check(); nodes(); }
};

int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts(); std::string p = o.profile; OW w;
  auto T = WG_INDEX_TYPE_TTREE; auto H = WG_INDEX_TYPE_HASH; Val ANY = vVar(0);
  w.check_parents = true; w.check_probe = false; w.check_share = true; w.check_fsck = true; w.check_listing = true; w.deep = o.num("deep", 1); w.heap = o.num("heap", 0); w.heap_modes = o.num("modes", 1);
  auto open = [&](int slots) { w.maxslots = slots; w.open(o.num("size", 400000)); fsck(w.db, &w.base); };
  std::string l40 = L('l', 40), l70 = L('m', 70);
  if (p == "plain") {            // no indexes: every kind of value, links, records of several sizes
    open(3); w.vals = {vNull(), vInt(1), vInt(1LL << 61), vDbl(2.5), vStr("short"), vStr(l40), vTxt(V_STR, "q", "en"), vTxt(V_URI, "u", "http://p/"), vTxt(V_XML, l70, l40), vTxt(V_BLOB, std::string(300, 'b'), "t"), vTime(5)};
    w.op_create(2); w.op_create(9); w.op_rawfill(0, {5, 3, 8}); w.op_rawfill(1, {2, 7});
    for (int s = 0; s < 2; s++) { for (size_t v = 0; v < w.vals.size(); v++) w.op_set(s, 0, v); w.op_setref(s, 1, 0); w.op_setref(s, 1, 1); w.op_set(s, 1, 5); w.op_set(s, 1, 0); w.op_delete(s); }
    for (size_t v = 2; v < w.vals.size(); v++) w.op_encfree(v);
    w.pre(2, 2);
  } else if (p == "ttree") {     // ordered indexes with small nodes on both columns
    open(7); w.vals = {vNull(), vInt(1), vInt(2), vInt(3), vInt(4), vInt(5), vInt(6), vStr(l40)}; w.probes_v = {vInt(1), vInt(3), vInt(5), vStr(l40)};
    w.addcat(T, {0}); w.addcat(T, {1}); w.icreate(0); w.icreate(1); int n = o.num("pre", 6); w.pre(n, 2); int seq = o.num("seq", 0);
    for (int s = 0; s < n; s++) { w.setnow(s, 0, seq == 0 ? 1 + s : seq == 1 ? n - s : 1 + (s * 5) % 7 % 6); w.setnow(s, 1, 1 + (s % 3)); }
    for (int s = 0; s < n; s++) { for (int v : {0, 1, 3, 4, 6, 7}) w.op_set(s, 0, v); w.op_set(s, 1, 2); w.op_delete(s); }
    w.op_create(2); w.op_create(1); w.op_rawfill(0, {4, 1}); w.op_rawfill(1, {1, 5});
  } else if (p == "tlinks") {    // keys that are other records: a write moves the entries of the referring records
    open(4); w.vals = {vNull(), vInt(1), vInt(2), vInt(3), vStr(l40)}; w.probes_v = {vInt(1), vNull()};
    w.addcat(T, {0}); w.addcat(T, {1}); w.icreate(0); w.icreate(1); w.pre(4, 2); auto link = [&](int s, int f, int t) { Op q; q.k = O_SET; q.a = s; q.b = f; q.c = -1 - t; w.apply(q); };
    w.setnow(0, 0, 1); w.setnow(1, 0, 2); link(2, 1, 0); link(3, 1, 1); link(3, 0, 2);
    for (int s = 0; s < 4; s++) { for (int f = 0; f < 2; f++) { for (int t = 0; t < 3; t++) w.op_setref(s, f, t); w.op_set(s, f, 3); w.op_set(s, f, 0); } w.op_set(s, 0, 4); w.op_delete(s); }
    w.op_create(2);
  } else if (p == "hash") {      // hash indexes on one and two columns
    open(4); w.vals = {vNull(), vInt(1), vInt(2), vStr("a"), vStr(l40)}; w.probes_v = {vNull(), vInt(1), vInt(2), vStr("a"), vStr(l40)};
    w.addcat(H, {0}); w.addcat(H, {0, 1}); w.addcat(H, {1}); for (int i = 0; i < 3; i++) w.icreate(i);
    if (w.heap) for (auto v : {vTxt(V_URI, "u", "http://p/"), vTxt(V_BLOB, std::string(30, 'b'), "t"), vTxt(V_STR, "a", "en")}) { w.vals.push_back(v); if (v.t != V_BLOB) w.probes_v.push_back(v); }
    w.pre(3, 2); w.setnow(0, 0, 1); w.setnow(1, 0, 4); w.setnow(1, 1, 1); w.setnow(2, 1, 3); if (w.heap) { w.setnow(2, 0, 5); w.setnow(0, 1, 6); }
    for (int s = 0; s < 3; s++) { for (int f = 0; f < 2; f++) for (int v = 0; v < (int)w.vals.size(); v++) w.op_set(s, f, v); w.op_setref(s, 0, 0); w.op_delete(s); }
    w.op_create(2); w.op_create(1); w.op_rawfill(0, {4, 1}); w.op_rawfill(1, {1, 4}); w.probes_v.push_back(vRec(0));
  } else if (p == "mixed") {     // ordered and hash indexes with and without filters over the same columns
    open(4); w.vals = {vNull(), vInt(1), vInt(2), vStr(l40)}; w.probes_v = {vNull(), vInt(1), vStr(l40)};
    w.addcat(T, {0}); w.addcat(H, {0, 1}); w.addcat(T, {1}, {vInt(1)}, true); w.addcat(H, {0}, {ANY, vStr(l40)}, true); w.addcat(T, {0}, {ANY, vInt(1)}, true); for (int i = 0; i < 5; i++) w.icreate(i);
    w.pre(3, 2); w.setnow(0, 0, 1); w.setnow(1, 1, 1); w.setnow(2, 0, 3); w.setnow(2, 1, 3);
    for (int s = 0; s < 3; s++) { for (int f = 0; f < 2; f++) for (int v = 0; v < 4; v++) w.op_set(s, f, v); w.op_delete(s); }
    w.op_create(2);
  } else if (p == "icreate") {   // creation and removal of every kind of index over a filled table
    open(5); w.vals = {vNull(), vInt(1), vInt(2), vStr(l40)}; w.probes_v = {vNull(), vInt(1), vStr(l40)};
    w.addcat(T, {0}); w.addcat(T, {1}); w.addcat(H, {0}); w.addcat(H, {0, 1}); w.addcat(T, {0}, {ANY, vInt(1)}, true); w.addcat(T, {1}, {vStr(l40), ANY}, true); w.addcat(H, {0}, {ANY, vStr(l40)}, true); w.addcat(T, {0}, {ANY, vStr(l70)}, true); w.addcat(H, {1}, {vInt(1), ANY, vInt(1)}, true); w.addcat(WG_INDEX_TYPE_HASH_JSON, {0, 1});
    w.pre(4, 2); w.setnow(0, 0, 1); w.setnow(0, 1, 1); w.setnow(1, 1, 1); w.setnow(2, 0, 3); w.setnow(2, 1, 3); w.setnow(3, 0, 2); w.setnow(3, 1, 3);
    for (size_t i = 0; i < w.cat.size(); i++) { w.op_icreate(i); if (w.cat[i].type == T) w.op_idrop(i); }
    w.op_set(0, 0, 3); w.op_set(2, 1, 1); w.op_delete(1); w.op_create(2);
  } else if (p == "docs") {      // JSON import: all of the document or nothing
    open(2); w.vals = {vNull(), vInt(1), vStr(l40)}; w.pre(1, 1); w.setnow(0, 0, 2); w.probes_v = {vInt(1)};
    for (auto d : {"{\"a\":1}", "{\"a\":\"short\",\"b\":[1,2.5]}", "{\"long name of a key that is stored shared\":{\"x\":null},\"b\":\"another text longer than the short limit\"}", "{\"a\":[{\"b\":[9223372036854775807]},{\"b\":[{}]}]}", "{\"a\":[],\"a\":true}"}) w.op_doc(d);
    w.addcat(WG_INDEX_TYPE_HASH_JSON, {1, 2}); if (o.num("ix", 0)) w.icreate(0);
    w.op_set(0, 0, 1); w.op_create(1); w.op_delete(0); w.check_parents = false;
  } else { fprintf(out(), "unknown profile %s\n", p.c_str()); return 2; }
  Explorer e(w, o.depth); bool f = e.explore(); finish(f);
}
