// C26: building, finding and deleting documents and their parts. All histories over a catalog of
// documents, fragments, parameters and helper-built structures, with references from outside.
#include "jsondoc.h"
using namespace mc;
static J P(const char *s) { J j; if (!jparse(s, j)) abort(); return j; }
enum Kind { DOC, FRAG, PARAM, BUILT, BUILTPARAM, NK };
static const char *KN[] = {"document", "fragment", "parameter", "built document", "built parameter"};
static J nest(int n, J in) { for (int i = 0; i < n; i++) in = jA({in}); return in; }
struct HW : World {
  void *db; struct T { int kind = -1; J doc; void *rec = 0; }; std::vector<T> t; std::vector<J> cat; std::vector<int> kinds; int slots, nparts;
  struct R { void *rec = 0; int slot, part; }; R ref[1]; HeapCount base; bool index; gint kA, v1;
  HW() {
    std::string p = opts().profile; slots = opts().num("slots", 2); nparts = opts().num("parts", 4); index = opts().num("index", 0);
    db = wg_attach_local_database(2000000); if (!db) exit(2);
    kA = wg_encode_query_param_str(db, "a", NULL); v1 = wg_encode_query_param_int(db, 1);
    if (index) { gint c[2] = {1, 2}; if (wg_create_multi_index(db, c, 2, WG_INDEX_TYPE_HASH_JSON, NULL, 0) || wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, NULL, 0)) exit(2); }
    if (p == "deep") { J d = jO({{"a", jI(1)}}); cat = {jO({{"a", jO({{"a", jO({{"b", jO({{"a", jO({{"a", jI(1)}})}})}})}})}}), nest(5, d), nest(13, jI(1)), nest(14, jI(1)), nest(20, d)}; kinds = {DOC, BUILT}; }
    else { cat = {P("[5,{\"a\":1}]"), P("{\"a\":1,\"b\":{\"a\":\"a long string value that is shared 12\"}}"), P("{\"a\":[1,[2]]}"), P("[]"), P("{}")}; kinds = {DOC, FRAG, PARAM, BUILT, BUILTPARAM}; }
    t.resize(slots); fsck(db, &base);
  }
  int nb() { return cat.size() * kinds.size(); }
  // build | delete(slot) | bad delete part(slot,part) | ref(slot,part) | unref | attach(d,f) | detach(d)
  int nops() { return nb() + slots + slots * nparts + slots * nparts + 1 + slots * slots + slots + slots * nparts; }
  bool isdoc(int k) { return k == DOC || k == BUILT; } bool isparam(int k) { return k == PARAM || k == BUILTPARAM; }
  JRecs recs(int s) { JRecs r; jreadrec(db, t[s].rec, &r); return r; }
  bool enabled(int op) {
    if (op < nb()) { int k = kinds[op % kinds.size()]; if (k <= PARAM && deepj(cat[op / kinds.size()]) > 6) return false; for (auto &x : t) if (x.kind < 0) return true; return false; } op -= nb();
    if (op < slots) return t[op].kind >= 0; op -= slots;
    if (op < slots * nparts) { int s = op / nparts, p = op % nparts; return t[s].kind >= 0 && p > 0 && p < (int)recs(s).all.size(); } op -= slots * nparts;
    if (op < slots * nparts) { int s = op / nparts, p = op % nparts; return !ref[0].rec && t[s].kind >= 0 && !isparam(t[s].kind) && p < (int)recs(s).all.size(); } op -= slots * nparts;
    if (op == 0) return ref[0].rec; op -= 1;
    if (op < slots * slots) { int d = op / slots, f = op % slots; return d != f && t[d].kind >= 0 && isdoc(t[d].kind) && t[f].kind == FRAG && t[d].doc.k == J_ARR && t[d].doc.a.size() && t[d].doc.a[0].scalar() && !ref[0].rec; } op -= slots * slots;
    if (op >= slots) { op -= slots; int s = op / nparts, p = op % nparts; return t[s].kind >= 0 && p > 0 && p < (int)recs(s).all.size() && ref[0].rec; }
    bool fr = false; for (auto &x : t) if (x.kind < 0) fr = true;
    return fr && t[op].kind >= 0 && !isparam(t[op].kind) && t[op].doc.k == J_ARR && t[op].doc.a.size() && !t[op].doc.a[0].scalar() && !ref[0].rec;
  }
  static int deepj(const J &j) { int m = 0; for (auto &x : j.a) m = std::max(m, deepj(x)); return m + !j.scalar(); }
  std::string opname(int op) {
    if (op < nb()) return fmt("%s %s", KN[kinds[op % kinds.size()]], cat[op / kinds.size()].text().c_str()); op -= nb();
    if (op < slots) return fmt("delete document %d", op); op -= slots;
    if (op < slots * nparts) return fmt("delete part %d of %d as a document", op % nparts, op / nparts); op -= slots * nparts;
    if (op < slots * nparts) return fmt("refer to part %d of %d from a plain record", op % nparts, op / nparts); op -= slots * nparts;
    if (op == 0) return "delete the referring record"; op -= 1;
    if (op < slots * slots) return fmt("attach fragment %d to document %d", op % slots, op / slots); op -= slots * slots;
    if (op >= slots) return fmt("take part %d of %d out and put it back", (op - slots) % nparts, (op - slots) / nparts);
    return fmt("detach first member of %d", op);
  }
  gint build(const J &j, int dd, int par, void **out) {
    if (j.k == J_INT) return wg_encode_int(db, j.i); if (j.k == J_STR) return wg_encode_str(db, (char *)j.s.c_str(), NULL);
    std::vector<gint> m;
    for (size_t i = 0; i < j.a.size(); i++) {
      gint v = build(j.a[i], 0, par, 0);
      if (j.k == J_OBJ) { void *kv = wg_create_kvpair(db, wg_encode_str(db, (char *)j.key[i].c_str(), NULL), v, par); MC_CHECK(kv, "kvpair", "no key-value row"); MC_CHECK(is_special_record((gint *)kv) == !!par, "kvpair-special", "key-value row has a wrong mark"); v = wg_encode_record(db, kv); }
      m.push_back(v);
    }
    void *r = j.k == J_ARR ? wg_create_array(db, m.size(), dd, par) : wg_create_object(db, m.size(), dd, par);
    MC_CHECK(r, "build", "helper gives no record"); MC_CHECK(wg_get_record_len(db, r) == (gint)m.size(), "build-len", "helper made a record of %ld fields instead of %zu", (long)wg_get_record_len(db, r), m.size());
    for (size_t i = 0; i < m.size(); i++) { MC_CHECK(wg_get_field(db, r, i) == 0, "build-empty", "new member not empty"); MC_CHECK(wg_set_field(db, r, i, m[i]) == 0, "build-set", "member %zu refused", i); }
    if (out) *out = r; return wg_encode_record(db, r);
  }
  void step(int op) {
    if (op < nb()) {
      int k = kinds[op % kinds.size()]; J &j = cat[op / kinds.size()]; int s = 0; while (t[s].kind >= 0) s++;
      void *d = (void *)-1; gint r = 0; std::string x = j.text();
      if (k == DOC) r = wg_parse_json_document(db, x.c_str(), &d); else if (k == FRAG) r = wg_parse_json_fragment(db, x.c_str(), &d); else if (k == PARAM) r = wg_parse_json_param(db, x.c_str(), &d); else build(j, 1, k == BUILTPARAM, &d);
      MC_CHECK(r == 0 && d && d != (void *)-1, "make", "%s from %s gives %ld", KN[k], x.c_str(), (long)r);
      t[s].kind = k; t[s].doc = j; t[s].rec = d;
    } else if ((op -= nb()) < slots) {
      del(t[op].rec, op, isdoc(t[op].kind) || isparam(t[op].kind), true);
    } else if ((op -= slots) < slots * nparts) {
      int s = op / nparts; del(recs(s).all[op % nparts], s, false, false);
    } else if ((op -= slots * nparts) < slots * nparts) {
      int s = op / nparts; void *r = wg_create_record(db, 1); MC_CHECK(r && !wg_set_field(db, r, 0, wg_encode_record(db, recs(s).all[op % nparts])), "ref", "cannot refer to a part");
      ref[0] = {r, s, op % nparts};
    } else if ((op -= slots * nparts) == 0) { MC_CHECK(wg_delete_record(db, ref[0].rec) == 0, "unref", "referring record not deletable"); ref[0].rec = 0; }
    else if ((op -= 1) < slots * slots) {
      int d = op / slots, f = op % slots; MC_CHECK(wg_set_field(db, t[d].rec, 0, wg_encode_record(db, t[f].rec)) == 0, "attach", "attaching refused");
      t[d].doc.a[0] = t[f].doc; t[f] = T();
    } else if ((op -= slots * slots) >= slots) {
      op -= slots; void *x = recs(op / nparts).all[op % nparts]; gint e = wg_encode_record(db, x); int n = 0; JRecs r = recs(op / nparts);
      for (void *y : r.all) for (int i = 0; i < wg_get_record_len(db, y); i++) if (wg_get_field(db, y, i) == e) { MC_CHECK(!wg_set_field(db, y, i, 0) && !wg_set_field(db, y, i, e), "renew", "a link cannot be renewed"); n++; } MC_CHECK(n == 1, "renew", "part linked %d times", n);
    } else {
      int s = 0; while (t[s].kind >= 0) s++; void *m = wg_decode_record(db, wg_get_field(db, t[op].rec, 0));
      MC_CHECK(wg_set_field(db, t[op].rec, 0, wg_encode_int(db, 5)) == 0, "detach", "detaching refused");
      t[s].kind = FRAG; t[s].doc = t[op].doc.a[0]; t[s].rec = m; t[op].doc.a[0] = jI(5);
    }
    check();
  }
  void del(void *rec, int s, bool may, bool root) {
    bool inner = ref[0].rec && ref[0].slot == s;
    gint r = wg_delete_document(db, rec);
    MC_CHECK(r == 0 || r < 0, "del-code", "deleting gives %ld", (long)r);
    if (r == 0) { MC_CHECK(may, "del-notdoc", "something that is not a document was deleted as one"); MC_CHECK(!inner, "del-referred", "a document was deleted although a record refers to part %d of it", ref[0].part); t[s] = T(); count("deleted"); }
    else { MC_CHECK(!may || inner || deepj(t[s].doc) > 6, "del-refused", "deleting %s %s refused", KN[t[s].kind], t[s].doc.text().c_str()); count("delete refused"); }
  }
  void check() {
    HeapCount hc; fsck(db, &hc); std::set<void *> want, seen; std::vector<J> withA; ll all = 0; std::set<void *> expectq;
    for (int s = 0; s < slots; s++) if (t[s].kind >= 0) {
      JRecs r; J j = jreadrec(db, t[s].rec, &r);
      MC_CHECK(j == t[s].doc, "content", "%s reads %s instead of %s", KN[t[s].kind], j.text().c_str(), t[s].doc.text().c_str());
      bool doc = t[s].kind != FRAG, par = isparam(t[s].kind); all += r.all.size();
      for (void *x : r.all) {
        MC_CHECK(!!is_special_record((gint *)x) == par, "special", "part of a %s is%s hidden", KN[t[s].kind], par ? " not" : "");
        void *f = wg_find_document(db, x); if (deepj(t[s].doc) <= 6 || f) MC_CHECK(f == (doc ? t[s].rec : NULL), "find", "the document of a part of %s %s is not found correctly (%s)", KN[t[s].kind], t[s].doc.text().c_str(), f ? "another record" : "none");
        MC_CHECK(!!is_schema_document((gint *)x) == (doc && x == t[s].rec), "docmark", "document mark of a part of %s is wrong", KN[t[s].kind]);
        if (!par) want.insert(x);
      }
      if (isdoc(t[s].kind) && has(t[s].doc)) expectq.insert(t[s].rec);
    }
    if (ref[0].rec) { want.insert(ref[0].rec); all++; MC_CHECK(wg_get_field(db, ref[0].rec, 0) == wg_encode_record(db, recs(ref[0].slot).all.at(ref[0].part)), "ref-intact", "the referring record changed"); }
    for (void *r = wg_get_first_record(db); r; r = wg_get_next_record(db, r)) { MC_CHECK(seen.insert(r).second, "scan-dup", "scan yields a record twice"); MC_CHECK(want.count(r), "scan-extra", "scan yields a record that is no data (left over or a parameter part)"); }
    MC_CHECK(seen.size() == want.size(), "scan-missing", "scan yields %zu of %zu records", seen.size(), want.size());
    MC_CHECK(hc.a[0].used == base.a[0].used + all, "records", "%lld record blocks in use, should be %lld", hc.a[0].used, base.a[0].used + all);
    bool deep = false; for (auto &x : t) if (x.kind >= 0 && deepj(x.doc) > 6) deep = true; if (deep) return;
    wg_json_query_arg a = {kA, v1}; wg_query *q = wg_make_json_query(db, &a, 1); MC_CHECK(q, "query", "document query failed"); std::set<void *> got; void *r;
    while ((r = wg_fetch(db, q))) MC_CHECK(got.insert(r).second, "query-dup", "document query yields a document twice");
    wg_free_query(db, q); MC_CHECK(got == expectq, "query-set", "document query {a:1} yields %zu documents, should be %zu", got.size(), expectq.size());
    bool empty = !ref[0].rec; for (auto &x : t) if (x.kind >= 0) empty = false;
    if (empty) for (int i = 0; i < 10; i++) MC_CHECK(hc.a[i].used == base.a[i].used || i == 9, "leak", "storage area %d: %lld objects in use after everything was deleted, %lld before", i, hc.a[i].used, base.a[i].used);
  }
  static bool has(const J &d) { for (size_t n = 0; n < d.a.size(); n++) { if (d.k == J_OBJ && d.key[n] == "a") { if (d.a[n] == jI(1)) return true; if (d.a[n].k == J_ARR) for (auto &e : d.a[n].a) if (e == jI(1)) return true; } if (has(d.a[n])) return true; } return false; }
  struct S { Image *im; std::vector<T> t; R r; };
  void *save() { return new S{img_save(db), t, ref[0]}; }
  void restore(void *p) { S *s = (S *)p; img_restore(db, s->im); t = s->t; ref[0] = s->r; }
  void drop(void *p) { S *s = (S *)p; delete s->im; delete s; }
  void hash(H128 &h) { img_hash(db, h); for (auto &x : t) { hash_u64(h, x.kind); hash_u64(h, (uint64_t)x.rec); } hash_u64(h, (uint64_t)ref[0].rec); hash_u64(h, ref[0].part); }
};
int main(int argc, char **argv) { init(argc, argv); HW w; Explorer e(w, opts().depth); finish(e.explore()); }
