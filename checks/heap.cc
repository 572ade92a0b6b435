// C06: the storage allocator.
//   profile alloc:  every sequence of allocations and frees; blocks keep their content and do not overlap, the
//                   structure of the area is intact, a merged free block can be allocated as a whole, and after
//                   freeing everything each subarea is one block again
//   profile fixed:  the same for fixed-length objects
//   profile repeat: every workload of a given length that keeps the number of live objects, repeated until the
//                   whole database image repeats: its space is bounded for ever
#include "wgdb.h"
#include <climits>
using namespace mc;
static void *DB; static Image *BASE;
struct Live { gint off; int k; ll tag; };
static db_area_header *area() { return (db_area_header *)&HDR(DB)->datarec_area_header; }
struct Blk { gint off, size; bool used; };
static std::vector<Blk> walk(db_area_header *a) {
  std::vector<Blk> r; void *db = DB; gint G = sizeof(gint);
  for (int i = 0; i <= a->last_subarea_index; i++) { gint o = a->subarea_array[i].alignedoffset; o += getspecialusedobjectsize(FETCH(o));
    while (1) { gint hd = FETCH(o), sz; if (isfreeobject(hd)) { sz = getfreeobjectsize(hd); r.push_back({o, sz, false}); } else if (isspecialusedobject(hd)) { sz = getspecialusedobjectsize(hd); if (FETCH(o + G) != SPECIALGINT1DV) break; r.push_back({o, sz, false}); } else { sz = getusedobjectsize(hd); r.push_back({o, sz, true}); } o += sz; } }
  return r;
}
struct AW : World {
  std::vector<gint> sizes; std::vector<Live> live; int maxlive; ll tag = 0; bool fixed; int which = 0;
  db_area_header *fa() { auto *h = HDR(DB); db_area_header *t[] = {(db_area_header *)&h->listcell_area_header, (db_area_header *)&h->doubleword_area_header, (db_area_header *)&h->shortstr_area_header, (db_area_header *)&h->word_area_header, (db_area_header *)&h->tnode_area_header}; return t[which]; }
  struct Snap { Image *i; std::vector<Live> l; ll tag; };
  int nops() override { return sizes.size() + maxlive; }
  bool enabled(int o) override { if (o < (int)sizes.size()) return (int)live.size() < maxlive; return o - (int)sizes.size() < (int)live.size(); }
  std::string opname(int o) override { return o < (int)sizes.size() ? fmt("alloc %ld", (long)sizes[o]) : fmt("free #%d", o - (int)sizes.size()); }
  void fill(Live &l, gint n) { void *db = DB; for (gint i = fixed ? 0 : 1; i < n; i++) FETCH(l.off + i * (gint)sizeof(gint)) = l.tag * 1000003 + i * 7 + 2; }
  gint words(int k) { return fixed ? fa()->objlength / (gint)sizeof(gint) : sizes[k]; }
  void verify() {
    void *db = DB; for (size_t j = 0; j < live.size(); j++) { Live &l = live[j]; gint n = words(l.k);
      for (gint i = fixed ? 0 : 1; i < n; i++) MC_CHECK(FETCH(l.off + i * (gint)sizeof(gint)) == l.tag * 1000003 + i * 7 + 2, "content", "word %ld of block %zu (%ld words) was changed", (long)i, j, (long)n);
      if (!fixed) MC_CHECK(getusedobjectwantedgintsnr(FETCH(l.off)) == n, "size", "block %zu of %ld words is recorded as %ld", j, (long)n, (long)getusedobjectwantedgintsnr(FETCH(l.off))); }
    for (size_t i = 0; i < live.size(); i++) for (size_t j = 0; j < i; j++) { gint a = live[i].off, b = live[j].off, al = words(live[i].k) * sizeof(gint), bl = words(live[j].k) * sizeof(gint); MC_CHECK(a + al <= b || b + bl <= a, "overlap", "blocks %zu and %zu share storage", j, i); }
    fsck(DB);
  }
  void step(int o) override {
    void *db = DB;
    if (o < (int)sizes.size()) {
      gint n = words(o), free0 = HDR(db)->free; Live l{0, o, ++tag}; std::vector<Blk> w0; if (!fixed) w0 = walk(area());
      l.off = fixed ? wg_alloc_fixlen_object(db, fa()) : wg_alloc_gints(db, area(), sizes[o]);
      MC_CHECK(l.off > 0, "refused", "allocating %ld words is refused with %ld bytes of the segment unused", (long)n, (long)(HDR(db)->size - free0));
      MC_CHECK(l.off % 8 == 0 && l.off + n * (gint)sizeof(gint) <= HDR(db)->free, "place", "block outside the database");
      if (!fixed) { bool fit = false; for (auto &b : w0) if (!b.used && b.size == std::max<gint>(n * sizeof(gint), MIN_VARLENOBJ_SIZE)) fit = true; if (fit) count("exact fit available"); }
      if (HDR(db)->free != free0) count("area extended");
      fill(l, n); live.push_back(l);
    } else {
      size_t j = o - sizes.size(); gint off = live[j].off; gint rc = 0;
      if (fixed) wg_free_fixlen_object(db, fa(), off); else rc = wg_free_object(db, area(), off);
      MC_CHECK(rc == 0, "free-code", "freeing returns %ld", (long)rc); live.erase(live.begin() + j);
      if (!fixed) { // the merged block is available as a whole
        gint sz = 0; for (auto &b : walk(area())) if (!b.used && b.off <= off && off < b.off + b.size) sz = b.size;
        MC_CHECK(sz > 0, "not-free", "the freed storage is not part of a free block");
        void *s = save(); gint free0 = HDR(db)->free; gint r = wg_alloc_gints(db, area(), sz / sizeof(gint));
        MC_CHECK(r > 0 && HDR(db)->free == free0, "merged", "a free block of %ld bytes is available but allocating that much %s", (long)sz, r > 0 ? "extends the database" : "fails"); Live l{r, 0, 77}; for (gint i = 1; i < sz / (gint)sizeof(gint); i++) FETCH(r + i * (gint)sizeof(gint)) = 3; verify(); restore(s); drop(s);
      } else { void *s = save(); gint free0 = HDR(db)->free; gint r = wg_alloc_fixlen_object(db, fa()); MC_CHECK(r > 0 && HDR(db)->free == free0, "reuse", "freed object is not available again"); restore(s); drop(s); }
    }
    verify();
  }
  void leaf() override {
    if (fixed || live.empty()) return; void *db = DB; void *s = save();
    for (int pass = 0; pass < 2; pass++) { // in both directions
      while (live.size()) { size_t j = pass ? 0 : live.size() - 1; gint rc = wg_free_object(db, area(), live[j].off); MC_CHECK(rc == 0, "free-code", "freeing returns %ld", (long)rc); live.erase(live.begin() + j); verify(); }
      auto w = walk(area()); MC_CHECK((gint)w.size() == area()->last_subarea_index + 1, "all-free", "everything is freed but there are %zu blocks in %ld subareas", w.size(), (long)area()->last_subarea_index + 1);
      for (auto &b : w) { gint free0 = HDR(db)->free; void *s2 = save(); gint r = wg_alloc_gints(db, area(), b.size / sizeof(gint)); MC_CHECK(r > 0 && HDR(db)->free == free0, "all-free2", "everything is freed but %ld bytes cannot be allocated without extending the database", (long)b.size); restore(s2); drop(s2); }
      restore(s);
    }
    drop(s);
  }
  void *save() override { return new Snap{img_save(DB), live, tag}; }
  void restore(void *p) override { Snap *s = (Snap *)p; img_restore(DB, s->i); live = s->l; tag = s->tag; }
  void drop(void *p) override { Snap *s = (Snap *)p; delete s->i; delete s; }
  void hash(H128 &h) override { img_hash(DB, h); for (auto &l : live) { hash_u64(h, l.off); hash_u64(h, l.k); } }
};
// ---------------------------------------------------------------- repeated workloads
static int MIX; static const char *PN[] = {"delete the oldest", "delete the newest", "delete the second"};
static int NK() { return 4; }
static std::string kindname(int k) {
  static const char *n[4][4] = {{"record of 1 field", "record of 30 fields", "record of 62 fields", "record of 300 fields"}, {"record with a long text", "record with other long text", "record with large numbers", "record referring to the previous one"}, {"record with a small key", "record with a large key", "record with a text key", "record of 40 fields"}, {"document {\"a\":1}", "document [\"long text\",[1,2.5]]", "document {\"a\":{\"b\":[]}}", "record of 5 fields"}};
  return std::string("create ") + n[MIX][k];
}
static std::vector<gint> Q; static int seq;
static std::string LT(char c, int n) { return std::string(n, c); }
static gint mk(int k) {
  void *db = DB; void *r = NULL; gint rc = 0;
  switch (MIX) {
    case 0: { static const int n[] = {1, 30, 62, 300}; r = wg_create_record(db, n[k]); break; }
    case 1: r = wg_create_record(db, 3); if (!r) break;
      if (k == 0) rc = wg_set_field(db, r, 0, wg_encode_str(db, (char *)LT('a', 60).c_str(), (char *)"en")); else if (k == 1) rc = wg_set_field(db, r, 1, wg_encode_str(db, (char *)LT('b', 700).c_str(), NULL));
      else if (k == 2) rc = wg_set_field(db, r, 0, wg_encode_int(db, LLONG_MAX - 3)) | wg_set_field(db, r, 1, wg_encode_double(db, 1.5)) | wg_set_field(db, r, 2, wg_encode_str(db, (char *)"short", NULL)); else if (Q.size()) rc = wg_set_field(db, r, 2, wg_encode_record(db, offsettoptr(db, Q.back()))); break;
    case 2: r = wg_create_record(db, k == 3 ? 40 : 2); if (!r) break; if (k < 3) rc = wg_set_field(db, r, 0, k == 0 ? wg_encode_int(db, 5 + seq % 3) : k == 1 ? wg_encode_int(db, LLONG_MAX - seq % 2) : wg_encode_str(db, (char *)LT('k', 40 + seq % 2).c_str(), NULL)); seq = (seq + 1) % 6; break;
    case 3: if (k == 3) r = wg_create_record(db, 5); else { static const char *d[] = {"{\"a\":1}", "[\"a text that is longer than the limit for short ones\",[1,2.5]]", "{\"a\":{\"b\":[]}}"}; rc = wg_parse_json_document(db, (char *)d[k], &r); } break;
  }
  if (!r || rc) return 0;
  return ptrtooffset(db, r);
}
static bool rm(size_t j) { void *db = DB; void *r = offsettoptr(db, Q[j]); gint rc = MIX == 3 && is_schema_document(r) ? wg_delete_document(db, r) : wg_delete_record(db, r); if (rc == -1 && MIX == 1) return false; MC_CHECK(rc == 0, "delete-code", "deleting returns %ld", (long)rc); Q.erase(Q.begin() + j); return true; }
static bool workload(const std::vector<int> &w, int rounds) {
  img_restore(DB, BASE); Q.clear(); seq = 0; void *db = DB; for (int i = 0; i < 3; i++) { gint o = mk(i); MC_CHECK(o, "create", "cannot create the initial records"); Q.push_back(o); }
  std::unordered_map<H128, int, H128H> seen; gint atq = 0; gint maxfree = 0; size_t n0 = Q.size();
  for (int r = 0; r < rounds; r++) {
    for (int o : w) {
      if (o < NK()) { gint x = mk(o); MC_CHECK(x, "exhausted", "round %d: creating fails with %ld bytes in use at the beginning and %ld now", r, (long)BASE->free, (long)HDR(DB)->free); Q.push_back(x); }
      else { size_t j = o == NK() ? 0 : o == NK() + 1 ? Q.size() - 1 : 1; if (Q.size() > j) rm(j); }
    }
    while (Q.size() > n0) { size_t j = Q.size(); bool done = false; while (j-- > 0 && !done) done = rm(j); if (!done) break; } // refused deletions
    if (HDR(DB)->free > maxfree) { maxfree = HDR(DB)->free; if (r > 5) count("late growth"); }
    H128 h = hash0(); img_hash(DB, h); for (gint q : Q) hash_u64(h, q); hash_u64(h, seq);
    if (!seen.emplace(h, r).second) { fsck(DB); count("cycle found"); stats().extra["max rounds"] = std::max<ll>(stats().extra["max rounds"], r); stats().states += r; return true; }
    if (r == rounds / 4) atq = HDR(DB)->free;
  }
  MC_CHECK(HDR(DB)->free == atq, "growth", "the workload uses more and more space: %ld bytes after %d rounds, %ld after %d", (long)atq, rounds / 4, (long)HDR(DB)->free, rounds);
  count("no cycle, but no growth"); return true;
}
int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts(); DB = wg_attach_local_database(o.num("size", 4000000)); if (!DB) return 3; void *db = DB;
  if (o.profile == "repeat") {
    MIX = o.num("mix", 0); int L = o.depth ? o.depth : 4, R = o.num("rounds", 400);
    if (MIX == 2) { wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0); }
    BASE = img_save(DB); Cases C; std::vector<int> w; 
    std::function<void()> rec = [&] {
      int bal = 0; for (int x : w) bal += x < NK() ? 1 : -1;
      if ((int)w.size() == L) { if (bal == 0) C.run([&] { std::string s; for (int x : w) s += (s.size() ? "; " : "") + (x < NK() ? kindname(x) : std::string(PN[x - NK()])); return s; }, [&] { return workload(w, R); }); return; }
      if (abs(bal) > L - (int)w.size()) return;
      for (int x = 0; x < NK() + 3; x++) { if (x >= NK() && 3 + bal <= 1) continue; w.push_back(x); rec(); w.pop_back(); if (C.stop) return; }
    };
    rec(); return finish(C.failed());
  }
  AW w; w.fixed = o.profile == "fixed"; w.maxlive = o.num("live", 4); w.which = o.num("which", 0);
  if (w.fixed) w.sizes = {1}; else { std::string s = o.str("sizes", "4,5,6,31,32"); for (size_t p = 0; p < s.size();) { w.sizes.push_back(atol(s.c_str() + p)); p = s.find(',', p); if (p == std::string::npos) break; p++; } }
  if (w.fixed) { // leave only a few free objects in the first subarea
    auto nfree = [&] { int n = 0; for (gint p = w.fa()->freelist; p; p = FETCH(p)) n++; return n; };
    wg_alloc_fixlen_object(db, w.fa()); while (nfree() > o.num("left", 2)) wg_alloc_fixlen_object(db, w.fa()); }
  Explorer E(w, o.depth ? o.depth : 6); return finish(E.explore());
}
