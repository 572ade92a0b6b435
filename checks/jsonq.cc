// C16: document queries. All histories of adding, changing and deleting documents and document
// indexes; after each step every single and paired key-value query is compared with a model.
#include "jsondoc.h"
using namespace mc;
static J P(const char *s) { J j; if (!jparse(s, j)) abort(); return j; }
static bool jequal(const J &a, const J &b) { return a == b; }
// a pair matches: equal value, or (array value) an equal element
static bool pairmatch(const J &v, const J &q) { if (jequal(v, q)) return true; if (v.k == J_ARR) for (auto &e : v.a) if (jequal(e, q)) return true; return false; }
static bool contains(const J &d, const std::string &k, const J &q) {
  for (size_t n = 0; n < d.a.size(); n++) { if (d.k == J_OBJ && d.key[n] == k && pairmatch(d.a[n], q)) return true; if (contains(d.a[n], k, q)) return true; }
  return false;
}
struct Q { std::string k; J v; };
static std::string qtext(const std::vector<Q> &q) { std::string s; for (auto &x : q) s += (s.size() ? ", " : "") + x.k + ":" + x.v.text(); return s; }
struct Coll { J doc; void *rec; };
// run one query, return the multiset of documents
static void query(void *db, const std::vector<Q> &q, const std::vector<gint> &ke, const std::vector<gint> &ve, const std::vector<Coll> &docs) {
  wg_json_query_arg arg[4]; for (size_t i = 0; i < q.size(); i++) { arg[i].key = ke[i]; arg[i].value = ve[i]; }
  static int heap = opts().num("heap", 0);
  if (heap) { // every single request of heap memory refused in turn: an error or the right answer
    std::set<void *> want; for (auto &d : docs) { bool m = true; for (auto &x : q) if (!contains(d.doc, x.k, x.v)) m = false; if (m) want.insert(d.rec); }
    for (int mode = 0; mode < 2; mode++) for (long k = 0;; k++) {
      long l0 = memctl::live; memctl::nalloc = 0; memctl::fail_at = mode ? -1 : k; memctl::fail_from = mode ? k : -1; memctl::on = true; wg_query *r = wg_make_json_query(db, arg, q.size()); memctl::fail_at = memctl::fail_from = -1; bool hit = memctl::nalloc > k;
      if (r) { std::set<void *> got; void *rec; size_t n = 0; while ((rec = wg_fetch(db, r)) && n++ < 4 * docs.size() + 20) got.insert(rec); wg_free_query(db, r); memctl::on = false; MC_CHECK(got == want && n == want.size(), "heap-answer", "query {%s} with heap request %ld%s refused returns %zu documents, %zu contain it", qtext(q).c_str(), k + 1, mode ? " and all later" : "", n, want.size()); }
      memctl::on = false; MC_CHECK(memctl::live == l0, "heap-leak", "query {%s} with heap request %ld%s refused leaves %ld blocks", qtext(q).c_str(), k + 1, mode ? " and all later" : "", memctl::live - l0);
      MC_CHECK(hit || r, "query-null", "query {%s} failed", qtext(q).c_str()); if (!hit) break; count(r ? "answered although refused heap memory" : "refused"); stats().transitions++;
    }
  }
  long live0 = memctl::live; memctl::on = true;
  wg_query *r = wg_make_json_query(db, arg, q.size());
  if (!r) { memctl::on = false; fail("query-null", "query {" + qtext(q) + "} failed"); }
  std::vector<void *> got; void *rec; std::map<void *, int> cnt; std::string err;
  while ((rec = wg_fetch(db, r))) { if (got.size() > 4 * docs.size() + 20) { err = "never ends"; break; } got.push_back(rec); }
  ll rc = r->res_count; wg_free_query(db, r); memctl::on = false;
  count("queries"); if (got.size()) count("queries with answers");
  if (err.size()) fail("query-endless", "query {" + qtext(q) + "} " + err);
  for (void *g : got) cnt[g]++;
  size_t want = 0;
  for (auto &d : docs) {
    bool m = true; for (auto &x : q) if (!contains(d.doc, x.k, x.v)) m = false;
    int c = cnt.count(d.rec) ? cnt[d.rec] : 0; cnt.erase(d.rec); want += m;
    MC_CHECK(c <= 1, "query-dup", "query {%s} returns document %s %d times", qtext(q).c_str(), d.doc.text().c_str(), c);
    MC_CHECK(m || !c, "query-wrong", "query {%s} returns document %s which does not contain it", qtext(q).c_str(), d.doc.text().c_str());
    MC_CHECK(!m || c, "query-missed", "query {%s} misses document %s", qtext(q).c_str(), d.doc.text().c_str());
  }
  MC_CHECK(cnt.empty(), "query-alien", "query {%s} returns something that is not one of the documents", qtext(q).c_str());
  MC_CHECK((size_t)rc == want, "query-count", "query {%s}: row count %lld, should be %zu", qtext(q).c_str(), rc, want);
  MC_CHECK(memctl::live == live0, "query-leak", "query {%s}: %ld heap blocks not released", qtext(q).c_str(), memctl::live - live0);
}
struct JW : World {
  void *db; std::vector<J> cat; int slots; std::vector<Coll> docs; // fixed slots; rec==0: empty
  std::vector<std::string> keys; std::vector<J> vals; std::vector<gint> ke, ve; std::vector<J> newvals; std::vector<gint> nve;
  bool ix[3] = {0, 0, 0}; std::vector<J> orphan; bool triples; int ntriple = 0; bool pairs;
  std::vector<std::vector<Q>> qs; std::vector<std::vector<gint>> qk, qv; bool shared = false;
  enum { MODS = 3 };
  int nadd, nmod, narr, nkey, ndel, nix, nextra;
  JW() {
    std::string p = opts().profile; slots = opts().num("slots", 2); triples = opts().num("triples", 0);
    db = wg_attach_local_database(opts().num("size", 1500000)); if (!db) exit(2);
    if (p == "deep") {
      cat = {P("{\"a\":1}"), P("{\"a\":{\"a\":{\"a\":2}}}"), P("{\"a\":{\"b\":{\"a\":{\"b\":1}}}}"), P("{\"b\":{\"b\":{\"b\":{\"b\":{\"b\":{\"a\":2,\"b\":1}}}}}}"), P("[[[[[{\"a\":2}]]]]]"), P("{\"a\":[{\"a\":[{\"b\":1}]}]}")};
      keys = {"a", "b"}; vals = {jI(1), jI(2)}; newvals = {jI(1), jI(2)};
    } else if (p == "arrays") {
      cat = {P("{\"a\":[1,2]}"), P("{\"a\":[1,1],\"b\":2}"), P("{\"a\":[[1],2]}"), P("{\"b\":[{\"a\":1},1]}"), P("{\"a\":[]}"), P("[1,\"a\",1,2]"), P("{\"x\":0,\"y\":0,\"a\":1}")};
      keys = {"a", "b"}; vals = {jI(1), jI(2), P("[1]"), P("[1,2]"), P("{\"a\":1}")}; newvals = {jI(1), jI(2)};
    } else {
      cat = {P("{\"a\":1}"), P("{\"a\":1,\"b\":2}"), P("{\"a\":\"long string value long string value 1\",\"b\":1}"), P("{\"a\":{\"b\":2}}"), P("{\"a\":1.5,\"a\":2}"), P("[{\"a\":2},{\"b\":\"s\"}]"), P("{\"b\":[1,\"s\"]}")};
      keys = {"a", "b"}; vals = {jI(1), jI(2), jS("s"), jD(1.5), jS("long string value long string value 1"), P("{\"b\":2}")}; newvals = {jI(1), jI(2), jS("s")};
    }
    docs.resize(slots);
    for (auto &k : keys) ke.push_back(wg_encode_query_param_str(db, k.c_str(), NULL));
    for (auto &v : vals) { if (v.scalar()) ve.push_back(param(v)); else { void *d = 0; if (wg_parse_json_param(db, v.text().c_str(), &d) || !d) { fprintf(out(), "cannot make parameter\n"); exit(2); } ve.push_back(wg_encode_query_param_record(db, d)); } }
    for (size_t a = 0; a < keys.size(); a++) for (size_t v = 0; v < vals.size(); v++) { add({{keys[a], vals[v]}}, {ke[a]}, {ve[v]}); }
    int n1 = qs.size(); for (int a = 0; a < n1; a++) for (int b = 0; b < n1; b++) add({qs[a][0], qs[b][0]}, {qk[a][0], qk[b][0]}, {qv[a][0], qv[b][0]});
    for (int a = 0; a + 2 < n1; a++) add({qs[a][0], qs[a + 1][0], qs[a + 2][0]}, {qk[a][0], qk[a + 1][0], qk[a + 2][0]}, {qv[a][0], qv[a + 1][0], qv[a + 2][0]});
    nadd = cat.size(); nmod = slots * MODS * newvals.size(); narr = slots * MODS * newvals.size(); nkey = slots * 2; ndel = slots; nix = 4; nextra = 2;
  }
  void add(std::vector<Q> q, std::vector<gint> k, std::vector<gint> v) { qs.push_back(q); qk.push_back(k); qv.push_back(v); }
  gint param(const J &v) { return v.k == J_INT ? wg_encode_query_param_int(db, v.i) : v.k == J_DBL ? wg_encode_query_param_double(db, v.d) : wg_encode_query_param_str(db, v.s.c_str(), NULL); }
  gint enc(const J &v) { return v.k == J_INT ? wg_encode_int(db, v.i) : v.k == J_DBL ? wg_encode_double(db, v.d) : wg_encode_str(db, v.s.c_str(), NULL); }
  int nops() { return nadd + nmod + narr + nkey + ndel + nix + nextra; }
  JRecs recs(int s) { JRecs r; jreadrec(db, docs[s].rec, &r); return r; }
  static J *nthkv(J &d, int &n, std::string **key) { for (size_t m = 0; m < d.a.size(); m++) { if (d.k == J_OBJ && n-- == 0) { if (key) *key = &d.key[m]; return &d.a[m]; } if (J *r = nthkv(d.a[m], n, key)) return r; } return 0; }
  static J *ntharr(J &d, int &n) { for (size_t m = 0; m < d.a.size(); m++) { if (d.k == J_ARR && n-- == 0) return &d.a[m]; } for (size_t m = 0; m < d.a.size(); m++) if (J *r = ntharr(d.a[m], n)) return r; return 0; }
  bool enabled(int op) {
    if (op < nadd) { for (auto &d : docs) if (!d.rec) return true; return false; } op -= nadd;
    if (op < nmod) { int nv = newvals.size(), s = op / (MODS * nv), m = op / nv % MODS; if (!docs[s].rec) return false; J *t = nthkv(docs[s].doc, m, 0); return t && t->scalar() && *t != newvals[op % nv]; } op -= nmod;
    if (op < narr) { int nv = newvals.size(), s = op / (MODS * nv), m = op / nv % MODS; if (!docs[s].rec) return false; J *t = ntharr(docs[s].doc, m); return t && t->scalar() && *t != newvals[op % nv]; } op -= narr;
    if (op < nkey) { int s = op / 2, m = op % 2; return docs[s].rec && nthkv(docs[s].doc, m, 0); } op -= nkey;
    if (op < ndel) return docs[op].rec != 0; op -= ndel;
    if (op < nix) return op < 2 ? !ix[op] : op == 2 ? 0 : ix[1]; op -= nix;
    return triples && (op == 0 ? ntriple < 2 : false);
  }
  static const char *ixn(int i) { return i == 0 ? "document hash index" : i == 1 ? "tree index on keys" : "document tree index on values"; }
  std::string opname(int op) {
    if (op < nadd) return "add " + cat[op].text(); op -= nadd;
    if (op < nmod) { int nv = newvals.size(); return fmt("doc%d: value of pair %d := %s", op / (MODS * nv), op / nv % MODS, newvals[op % nv].text().c_str()); } op -= nmod;
    if (op < narr) { int nv = newvals.size(); return fmt("doc%d: array element %d := %s", op / (MODS * nv), op / nv % MODS, newvals[op % nv].text().c_str()); } op -= narr;
    if (op < nkey) return fmt("doc%d: rename key of pair %d", op / 2, op % 2); op -= nkey;
    if (op < ndel) return fmt("delete doc%d", op); op -= ndel;
    if (op < nix) return fmt("%s %s", op < 2 ? "create" : "drop", ixn(op % 2)); op -= nix;
    return "add a plain row (null,a,1) outside any document";
  }
  void *kvrec(int s, int n) { JRecs r = recs(s); return r.kv.at(n); }
  // the array record holding the n-th array element in ntharr order
  std::pair<void *, int> arrpos(void *rec, int &n) {
    int len = wg_get_record_len(db, rec); bool isarr = is_schema_array((gint *)rec);
    if (isarr) for (int m = 0; m < len; m++) if (n-- == 0) return {rec, m};
    for (int m = 0; m < len; m++) { gint e = wg_get_field(db, rec, m); if (!isarr) e = wg_get_field(db, wg_decode_record(db, e), 2); if (wg_get_encoded_type(db, e) == WG_RECORDTYPE) { auto r = arrpos(wg_decode_record(db, e), n); if (r.first) return r; } }
    return {nullptr, 0};
  }
  void step(int op) {
    int o = op;
    if (o < nadd) {
      int s = 0; while (docs[s].rec) s++;
      void *d = 0; gint r = wg_parse_json_document(db, cat[o].text().c_str(), &d);
      MC_CHECK(r == 0 && d, "add", "importing %s gives %ld", cat[o].text().c_str(), (long)r);
      docs[s] = {cat[o], d};
    } else if ((o -= nadd) < nmod) {
      int nv = newvals.size(), s = o / (MODS * nv), m = o / nv % MODS; void *kv = kvrec(s, m); *nthkv(docs[s].doc, m, 0) = newvals[o % nv];
      MC_CHECK(wg_set_field(db, kv, 2, enc(newvals[o % nv])) == 0, "set", "changing a pair's value is refused");
    } else if ((o -= nmod) < narr) {
      int nv = newvals.size(), s = o / (MODS * nv), m = o / nv % MODS, n = m; auto ap = arrpos(docs[s].rec, n); *ntharr(docs[s].doc, m) = newvals[o % nv];
      MC_CHECK(wg_set_field(db, ap.first, ap.second, enc(newvals[o % nv])) == 0, "setarr", "changing an array element is refused");
    } else if ((o -= narr) < nkey) {
      int s = o / 2, m = o % 2; void *kv = kvrec(s, m); std::string *k; nthkv(docs[s].doc, m, &k); *k = *k == "a" ? "b" : "a";
      MC_CHECK(wg_set_field(db, kv, 1, wg_encode_str(db, (char *)k->c_str(), NULL)) == 0, "setkey", "changing a pair's key is refused");
    } else if ((o -= nkey) < ndel) {
      MC_CHECK(wg_delete_document(db, docs[o].rec) == 0, "del", "deleting document %s fails", docs[o].doc.text().c_str());
      docs[o].rec = 0; docs[o].doc = J();
    } else if ((o -= ndel) < nix) {
      int i = o % 2; gint cols[2] = {1, 2}; gint r;
      if (o < 2) { r = i == 0 ? wg_create_multi_index(db, cols, 2, WG_INDEX_TYPE_HASH_JSON, NULL, 0) : i == 1 ? wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, NULL, 0) : wg_create_index(db, 2, WG_INDEX_TYPE_TTREE_JSON, NULL, 0); MC_CHECK(r == 0, "mkindex", "creating %s gives %ld", ixn(i), (long)r); ix[i] = true; }
      else { gint id = i == 0 ? wg_multi_column_to_index_id(db, cols, 2, WG_INDEX_TYPE_HASH_JSON, NULL, 0) : wg_column_to_index_id(db, i, i == 1 ? WG_INDEX_TYPE_TTREE : WG_INDEX_TYPE_TTREE_JSON, NULL, 0); MC_CHECK(id > 0, "findindex", "%s not found", ixn(i)); r = wg_drop_index(db, id); if (i) { MC_CHECK(r == 0, "dropindex", "dropping %s gives %ld", ixn(i), (long)r); ix[i] = false; } }
    } else {
      void *r = wg_create_kvpair(db, wg_encode_str(db, (char *)"a", NULL), wg_encode_int(db, 1), 0); MC_CHECK(r, "triple", "row not created"); ntriple++;
    }
    check();
  }
  void check() {
    std::vector<Coll> live; for (auto &d : docs) if (d.rec) live.push_back(d);
    for (auto &d : live) { JRecs r; J j = jreadrec(db, d.rec, &r); MC_CHECK(j == d.doc, "content", "document reads %s instead of %s", j.text().c_str(), d.doc.text().c_str()); MC_CHECK(is_schema_document((gint *)d.rec), "docflag", "document mark lost"); for (void *x : r.all) MC_CHECK(wg_find_document(db, x) == d.rec, "finddoc", "part of document %s does not lead to the document", d.doc.text().c_str()); }
    for (size_t i = 0; i < qs.size(); i++) query(db, qs[i], qk[i], qv[i], live);
  }
  void leaf() {}
  struct S { Image *im; std::vector<Coll> docs; bool ix[3]; int nt; };
  void *save() { S *s = new S; s->im = img_save(db); s->docs = docs; memcpy(s->ix, ix, sizeof ix); s->nt = ntriple; return s; }
  void restore(void *p) { S *s = (S *)p; img_restore(db, s->im); docs = s->docs; memcpy(ix, s->ix, sizeof ix); ntriple = s->nt; }
  void drop(void *p) { S *s = (S *)p; delete s->im; delete s; }
  void hash(H128 &h) { img_hash(db, h); for (auto &d : docs) { hash_u64(h, (uint64_t)d.rec); hash_str(h, d.doc.text()); } }
};
// many documents: result pages, hash joins, duplicates
static void big() {
  Cases C; int maxn = opts().num("n", 60), step = opts().num("step", 1);
  static const char *ixs[] = {"none", "hash", "keys", "hash+keys"};
  for (int n = 0; n <= maxn; n += step) for (int x = 0; x < 4; x++) for (int late = 0; late < 2; late++)
    C.run([&] { return fmt("%d documents, index %s, created %s", n, ixs[x], late ? "after" : "before"); }, [&] {
      void *db = wg_attach_local_database(4000000); std::vector<Coll> docs; gint cols[2] = {1, 2};
      auto mk = [&] { if (x & 1) MC_CHECK(!wg_create_multi_index(db, cols, 2, WG_INDEX_TYPE_HASH_JSON, NULL, 0), "mkindex", "index not created"); if (x & 2) MC_CHECK(!wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, NULL, 0), "mkindex", "index not created"); };
      if (!late) mk();
      for (int i = 0; i < n; i++) { J j = jO({{"a", jI(i % 2)}, {"b", jA({jI(i % 3), jI(1), jI(1)})}, {"c", jO({{"a", jI(i % 5)}, {"d", jI(i)}})}}); void *d = 0; MC_CHECK(!wg_parse_json_document(db, j.text().c_str(), &d) && d, "add", "import failed"); docs.push_back({j, d}); }
      if (late) mk();
      std::vector<std::vector<Q>> qs = {{{"a", jI(0)}}, {{"a", jI(1)}}, {{"b", jI(1)}}, {{"b", jI(0)}}, {{"d", jI(n - 1)}}, {{"a", jI(0)}, {"b", jI(0)}}, {{"b", jI(1)}, {"a", jI(0)}}, {{"a", jI(1)}, {"a", jI(0)}}, {{"a", jI(7)}, {"b", jI(1)}}, {{"b", jI(1)}, {"a", jI(4)}, {"a", jI(0)}}, {{"b", jI(2)}, {"d", jI(2)}}};
      for (auto &q : qs) { std::vector<gint> k, v; for (auto &p : q) { k.push_back(wg_encode_query_param_str(db, p.k.c_str(), NULL)); v.push_back(wg_encode_query_param_int(db, p.v.i)); } query(db, q, k, v, docs); }
      wg_delete_local_database(db); return n > 0;
    });
  finish(C.failed());
}
// single documents of every nesting, and long arrays
static void nest() {
  Cases C; static const char *ixs[] = {"none", "hash", "keys", "hash+keys"}; int maxd = opts().num("n", 7), maxa = opts().num("arr", 10);
  auto one = [&](const std::vector<J> &js, int x, int late, const std::vector<std::vector<Q>> &qs) {
    void *db = wg_attach_local_database(1500000); std::vector<Coll> docs; gint cols[2] = {1, 2};
    auto mk = [&] { if (x & 1) MC_CHECK(!wg_create_multi_index(db, cols, 2, WG_INDEX_TYPE_HASH_JSON, NULL, 0), "mkindex", "index not created"); if (x & 2) MC_CHECK(!wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, NULL, 0), "mkindex", "index not created"); };
    if (!late) mk();
    for (auto &j : js) { void *d = 0; MC_CHECK(!wg_parse_json_document(db, j.text().c_str(), &d) && d, "add", "importing %s failed", j.text().c_str()); docs.push_back({j, d}); }
    if (late) mk();
    for (auto &q : qs) { std::vector<gint> k, v; for (auto &p : q) { k.push_back(wg_encode_query_param_str(db, p.k.c_str(), NULL)); v.push_back(p.v.k == J_STR ? wg_encode_query_param_str(db, p.v.s.c_str(), NULL) : wg_encode_query_param_int(db, p.v.i)); } query(db, q, k, v, docs); for (gint e : k) wg_free_query_param(db, e); for (gint e : v) wg_free_query_param(db, e); }
    wg_delete_local_database(db);
  };
  for (int x = 0; x < 4; x++) for (int late = 0; late < 2; late++) {
    for (int d = 0; d < maxd; d++) for (int m = 0; m < 1 << d; m++)   // level i is an array if bit i of m is set, an object otherwise
      C.run([&] { return fmt("document nested %d levels, shape %d, index %s, created %s", d + 1, m, ixs[x], late ? "after" : "before"); }, [&] {
        auto mkdoc = [&](int leaf) { J j = jO({{"z", jI(leaf)}, {"y", jA({jI(3), jI(leaf)})}}); if (d == maxd - 1) j = jO({{"z", jI(leaf)}, {"y", jI(leaf)}}); for (int i = 0; i < d; i++) j = m >> i & 1 ? jA({jI(8), j}) : jO({{"b", jI(i)}, {"c", j}}); return j; };
        std::vector<J> js = {mkdoc(1), mkdoc(2), jO({{"a", jI(1)}, {"z", jI(2)}})};
        one(js, x, late, {{{"z", jI(1)}}, {{"z", jI(2)}}, {{"y", jI(2)}}, {{"z", jI(2)}, {"y", jI(2)}}, {{"y", jI(1)}, {"z", jI(1)}}, {{"y", jI(1)}, {"z", jI(2)}}, {{"b", jI(0)}, {"z", jI(1)}}, {{"z", jI(1)}, {"b", jI(d - 1)}}, {{"b", jI(0)}, {"b", jI(d - 1)}, {"y", jI(2)}}, {{"a", jI(1)}, {"z", jI(2)}}});
        return true; });
    for (int n = 1; n <= maxa; n++) for (int at = 0; at < n; at++)
      C.run([&] { return fmt("array of %d with the value at %d, index %s, created %s", n, at, ixs[x], late ? "after" : "before"); }, [&] {
        std::vector<J> a, b; for (int i = 0; i < n; i++) { a.push_back(i == at ? jI(7) : jI(i + 100)); b.push_back(i == at ? jS("a long text of a document, a long text") : jI(100)); }
        J big = jO({{"k", jI(5)}}); for (int i = 0; i < n; i++) { big.key.push_back(i == at ? "m" : fmt("k%d", i)); big.a.push_back(jI(7)); }
        one({jO({{"k", jI(5)}, {"m", jA(a)}}), jO({{"m", jA(b)}, {"k", jI(5)}}), jO({{"m", jI(7)}}), big}, x, late, {{{"m", jI(7)}}, {{"k", jI(5)}, {"m", jI(7)}}, {{"m", jI(7)}, {"k", jI(5)}}, {{"m", jI(100)}}, {{"k", jI(5)}, {"m", jS("a long text of a document, a long text")}}, {{"m", jI(7)}, {"m", jI(100)}}, {{"m", jI(7)}, {"m", jI(101)}}});
        return true; });
  }
  finish(C.failed());
}
int main(int argc, char **argv) { init(argc, argv); if (opts().profile == "nest") nest(); if (opts().profile == "big") big(); JW w; Explorer e(w, opts().depth); finish(e.explore()); }
