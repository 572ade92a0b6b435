// C17 (order of values) and C32 (query parameters): every pair/triple of a mixed alphabet.
#include "order.h"
using namespace mc;
static std::string L(char c, int n) { return std::string(n, c); }
static void *db, *ext; static std::vector<std::vector<Val>> R; static std::vector<gint> roff;
static char *B() { return (char *)dbmemseg(db); }
static const std::vector<Val> &recof(ll i) { return R[i]; }
static int addrec(const std::vector<Val> &f) { void *r = wg_create_record(db, f.size()); for (size_t i = 0; i < f.size(); i++) { gint rc = wg_set_field(db, r, i, enc_val(db, f[i], f[i].t == V_REC ? B() + roff[f[i].i] : nullptr)); if (rc) { fprintf(out(), "ERROR set %ld\n", (long)rc); _exit(2); } } R.push_back(f); roff.push_back((char *)r - B()); return R.size() - 1; }
static void texts(std::vector<Val> &A, bool blob) {
  for (auto s : {std::string(""), std::string("a"), std::string("ab"), std::string("b"), std::string("\x7f"), std::string("\x80"), std::string("\xff"), L('a', 31), L('a', 32), L('a', 33), L('a', 32) + "b", std::string(300, 'z')}) {
    A.push_back(vStr(s)); A.push_back(vTxt(V_STR, s, "en")); A.push_back(vTxt(V_URI, s)); A.push_back(vTxt(V_URI, s, "p")); A.push_back(vTxt(V_XML, s, "t")); if (blob) A.push_back(vTxt(V_BLOB, s)); }
  for (auto x : {std::string(""), std::string("pq"), std::string("o"), std::string("\x90"), L('p', 40), L('p', 41)}) { A.push_back(vTxt(V_URI, "a", x)); A.push_back(vTxt(V_XML, "a", x)); A.push_back(vTxt(V_STR, "a", x)); if (blob) A.push_back(vTxt(V_BLOB, "a", x)); }
  if (blob) for (auto s : {std::string("\0", 1), std::string("a\0b", 3), std::string("a\0c", 3), std::string("a\0b\0", 4), std::string("\xff\0", 2)}) { A.push_back(vTxt(V_BLOB, s)); A.push_back(vTxt(V_BLOB, s, "t")); }
}
static std::vector<Val> alphabet(bool blob, bool nested) {
  std::vector<Val> A = {vNull()};
  for (ll i : {0LL, 1LL, -1LL, 255LL, 256LL, (1LL << 31) - 1, 1LL << 31, -(1LL << 31), -(1LL << 31) - 1, (1LL << 60) - 1, 1LL << 60, -(1LL << 60), -(1LL << 60) - 1, (ll)(~0ULL >> 1), (ll)(1ULL << 63), 1LL << 32, (1LL << 60) + (1LL << 32)}) A.push_back(vInt(i));
  double inf = 1.0 / 0.0; for (double d : {0.0, -0.0, 1.0, -1.0, 1.5, 1e300, -1e300, 5e-324, -5e-324, inf, -inf, 0.1, 4503599627370497.5, inf - inf}) A.push_back(vDbl(d));
  for (double d : {0.0, 0.0001, -0.0001, 1.25, -1.25, 800.0, -800.0}) A.push_back(vFix(d));
  for (int c : {0, 1, 97, 98, 127, 128, 255}) A.push_back(vChar((char)c));
  for (int c : {0, 1, 733000, 733001, 3652059}) A.push_back(vDate(c)); for (int c : {0, 1, 4242, 8639999}) A.push_back(vTime(c)); for (ll c : {0LL, 1LL, 77LL}) A.push_back(vVar(c));
  texts(A, blob);
  if (nested) {
    int e0 = addrec({vInt(1)}), e1 = addrec({vInt(2)}), e2 = addrec({vInt(1)}), e3 = addrec({vInt(1), vNull()}), e4 = addrec({vStr(L('q', 50)), vDbl(2.5)}), e5 = addrec({vStr(L('q', 50)), vDbl(2.5)}), e6 = addrec({vNull(), vNull()}), e7 = addrec({vInt(1LL << 61)}), e8 = addrec({vInt(1LL << 61)});
    for (int e : {e0, e1, e2, e3, e4, e5, e6, e7, e8}) A.push_back(vRec(e));
    int a = e0, b = e2, c = e1; for (int d = 1; d < 7; d++) { int x = a, y = b, z = c; a = addrec({vInt(5), vRec(x)}); b = addrec({vInt(5), vRec(y)}); c = addrec({vInt(5), vRec(z)}); A.push_back(vRec(a)); A.push_back(vRec(b)); A.push_back(vRec(c)); }   // equal and different content at every supported depth
    int w1 = addrec({vRec(e0), vInt(3)}), w2 = addrec({vRec(e2), vInt(2)}), w3 = addrec({vRec(e1), vInt(1)}); for (int e : {w1, w2, w3}) A.push_back(vRec(e));
  }
  return A;
}
static bool nan(const Val &v) { return v.t == V_DBL && v.d != v.d; }
static gint cmp(gint a, gint b) { return WG_COMPARE(db, a, b); }

struct PW : World {   // C32: every sequence of preparing, using and releasing parameters
  std::vector<Val> vals; struct Slot { int v = -1; gint e = 0; }; std::vector<Slot> sl; int nslots = 2; wg_query *q = nullptr; int qv = -1; std::vector<ll> want; std::vector<Val> rows; std::vector<gint> offs; H128 h0; std::vector<std::pair<int, int>> ops;
  // memory outside the segment cannot be snapshotted: replay from the start instead
  std::vector<int> hist;
  void init() { ops.clear(); for (int s = 0; s < nslots; s++) for (size_t v = 0; v < vals.size(); v++) ops.push_back({s, (int)v}); for (int s = 0; s < nslots; s++) { ops.push_back({s, -1}); ops.push_back({s, -2}); } ops.push_back({0, -3}); ops.push_back({0, -4}); }
  int nops() override { return ops.size(); }
  bool enabled(int o) override { auto p = ops[o]; if (p.second >= 0) return sl[p.first].v < 0; if (p.second == -1) return sl[p.first].v >= 0; if (p.second == -2) return sl[p.first].v >= 0 && !q; return q != nullptr; }
  std::string opname(int o) override { auto p = ops[o]; return p.second >= 0 ? fmt("prepare %d: %s", p.first, vals[p.second].str().c_str()) : p.second == -1 ? fmt("release %d", p.first) : p.second == -2 ? fmt("query >= %d", p.first) : p.second == -3 ? "fetch all" : "free query"; }
  void step(int o) override { act(o); hist.push_back(o); check(); }
  void act(int o) {
    auto p = ops[o]; Slot &s = sl[p.first]; memctl::on = true;
    if (p.second >= 0) { s.e = enc_param(db, vals[p.second]); s.v = p.second; if (s.e == WG_ILLEGAL) { memctl::on = false; fail("param-failed", "preparing " + vals[s.v].str() + " failed"); } }
    else if (p.second == -1) { gint rc = wg_free_query_param(db, s.e); s.v = -1; memctl::on = false; MC_CHECK(rc == 0, "free-rc", "releasing a parameter returned %ld", (long)rc); }
    else if (p.second == -2) { wg_query_arg a; a.column = 0; a.cond = WG_COND_GTEQUAL; a.value = s.e; q = wg_make_query(db, NULL, 0, &a, 1); qv = s.v; memctl::on = false; MC_CHECK(q, "query-failed", "no query"); }
    else if (p.second == -3) { std::vector<gint> got; void *r; while ((r = wg_fetch(db, q))) got.push_back((char *)r - B()); memctl::on = false; std::sort(got.begin(), got.end()); std::vector<gint> exp; if (!fetched) for (size_t i = 0; i < rows.size(); i++) if (vcmp(rows[i], vals[qv], recof) >= 0) exp.push_back(offs[i]); std::sort(exp.begin(), exp.end()); MC_CHECK(got == exp, "query-rows", "query with parameter %s gives %zu rows instead of %zu", vals[qv].str().c_str(), got.size(), exp.size()); fetched = true; }
    else { wg_free_query(db, q); q = nullptr; fetched = false; }
    memctl::on = false;
  }
  bool fetched = false;
  void check() {
    for (auto &s : sl) if (s.v >= 0) { Val g = dec_val(db, s.e); MC_CHECK(g == vals[s.v], "param-content", "parameter %s reads back as %s", vals[s.v].str().c_str(), g.str().c_str()); }
    bool any = q; for (auto &s : sl) if (s.v >= 0) any = true; if (!any) MC_CHECK(memctl::live == 0, "param-leak", "%ld blocks of memory not returned", memctl::live);
    H128 h = hash0(); img_hash(db, h); MC_CHECK(h == h0, "param-modifies", "parameters changed the database");
  }
  void reset() { for (auto &s : sl) if (s.v >= 0) { memctl::on = true; wg_free_query_param(db, s.e); memctl::on = false; s.v = -1; } if (q) { memctl::on = true; wg_free_query(db, q); memctl::on = false; q = nullptr; } fetched = false; hist.clear(); memctl::live = 0; }
  void *save() override { return new std::vector<int>(hist); }
  void restore(void *p) override { auto h = *(std::vector<int> *)p; reset(); for (int o : h) { act(o); hist.push_back(o); } }
  void drop(void *p) override { delete (std::vector<int> *)p; }
  void hash(H128 &h) override { for (int o : hist) hash_u64(h, o); }   // no merging: addresses matter
};
int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts(); std::string p = o.profile; Cases C;
  db = wg_attach_local_database(1000000);
  if (p == "order") {
    auto A = alphabet(true, true); int n = A.size(); std::vector<gint> e1, e2;
    for (auto &v : A) { e1.push_back(enc_val(db, v, v.t == V_REC ? B() + roff[v.i] : nullptr)); }
    for (auto &v : A) { e2.push_back(v.t == V_REC ? e1[e2.size()] : enc_val(db, v)); }
    std::vector<gint> pr; for (size_t i = 0; i < A.size(); i++) pr.push_back(A[i].t == V_REC || A[i].t == V_BLOB ? e1[i] : enc_param(db, A[i]));
    // unshared copies: the same text forced into a second stored object is impossible through the interface (sharing), so copies are parameters
    H128 h0 = hash0(); img_hash(db, h0);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) C.run([&] { return A[i].str() + " vs " + A[j].str(); }, [&] {
      int m = vcmp(A[i], A[j], recof);
      for (gint a : {e1[i], e2[i], pr[i]}) for (gint b : {e1[j], e2[j], pr[j]}) { if (i == j && a == b) { MC_CHECK(cmp(a, b) == WG_EQUAL, "order", "%s does not equal itself", A[i].str().c_str()); continue; }
        gint c = cmp(a, b), d = cmp(b, a); MC_CHECK(c == d * -1, "antisymmetry", "%s vs %s gives %ld, reversed %ld", A[i].str().c_str(), A[j].str().c_str(), (long)c, (long)d);
        if (m != 2) MC_CHECK(c == m, "order", "%s vs %s gives %ld instead of %d", A[i].str().c_str(), A[j].str().c_str(), (long)c, m); }
      return i != j; });
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) C.run([&] { return "triples of " + A[i].str() + " and " + A[j].str(); }, [&] {
      gint x = cmp(pr[i], e1[j]); for (int k = 0; k < n; k++) { gint y = cmp(e1[j], e2[k]), z = cmp(pr[i], e2[k]); if (x <= 0 && y <= 0) MC_CHECK(z <= 0 && (z != 0 || (x == 0 && y == 0)), "transitivity", "%s <= %s <= %s but first vs last gives %ld", A[i].str().c_str(), A[j].str().c_str(), A[k].str().c_str(), (long)z); }
      return true; });
    C.run([&] { return std::string("comparing does not change the database"); }, [&] { H128 h1 = hash0(); img_hash(db, h1); MC_CHECK(h0 == h1, "order-modifies", "comparing changed the database"); return true; });
  } else if (p == "deep") {   // records nested beyond the supported depth, cycles: consistent, terminating
    int k0 = addrec({vInt(1)}), k1 = addrec({vInt(1)}), k2 = addrec({vInt(2)}); std::vector<int> all = {k0, k1, k2}; int a = k0, b = k1, c = k2;
    for (int d = 0; d < 12; d++) { a = addrec({vRec(a)}); b = addrec({vRec(b)}); c = addrec({vRec(c)}); for (int x : {a, b, c}) all.push_back(x); }
    int c1 = addrec({vNull()}), c2 = addrec({vNull()}); wg_set_field(db, B() + roff[c1], 0, wg_encode_record(db, B() + roff[c2])); wg_set_field(db, B() + roff[c2], 0, wg_encode_record(db, B() + roff[c1])); all.push_back(c1); all.push_back(c2);
    std::vector<gint> e; for (int x : all) e.push_back(wg_encode_record(db, B() + roff[x])); int n = e.size();
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) C.run([&] { return fmt("nested records %d and %d", all[i], all[j]); }, [&] { gint x = cmp(e[i], e[j]); MC_CHECK(x == -cmp(e[j], e[i]), "antisymmetry", "comparing nested records is not antisymmetric"); MC_CHECK(i != j || x == 0, "order", "a record does not equal itself");
      for (int k = 0; k < n; k++) { gint y = cmp(e[j], e[k]), z = cmp(e[i], e[k]); if (x <= 0 && y <= 0) MC_CHECK(z <= 0 && (z != 0 || (x == 0 && y == 0)), "transitivity", "nested records %d <= %d <= %d but %ld", all[i], all[j], all[k], (long)z); } return i != j; });
  } else if (p == "external") {   // values of another registered database compare by content too
    void *e = wg_attach_local_database(1000000); auto A = alphabet(true, false); std::vector<gint> l, x; for (auto &v : A) { l.push_back(enc_val(db, v)); }
    void *main = db; std::vector<gint> raw; if (wg_register_external_db(db, e)) { fprintf(out(), "ERROR register\n"); _exit(2); }
    for (auto &v : A) { gint q = enc_val(e, v); x.push_back(wg_encode_external_data(db, e, q)); }
    std::vector<gint> lr, xr; int k = 0; for (auto &v : A) { void *a = wg_create_record(db, 2), *b = wg_create_record(e, 2); wg_set_field(db, a, 1, l[k]); wg_set_field(e, b, 1, enc_val(e, v)); lr.push_back(wg_encode_record(db, a)); xr.push_back(wg_encode_external_data(db, e, wg_encode_record(e, b))); k++; }
    int n = A.size(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) C.run([&] { return A[i].str() + " vs external " + A[j].str(); }, [&] { int m = vcmp(A[i], A[j]); gint c = cmp(l[i], x[j]); MC_CHECK(c == m, "order-ext", "%s vs external %s gives %ld instead of %d", A[i].str().c_str(), A[j].str().c_str(), (long)c, m); c = cmp(x[i], x[j]); MC_CHECK(c == m, "order-ext", "external %s vs external %s gives %ld instead of %d", A[i].str().c_str(), A[j].str().c_str(), (long)c, m);
      c = cmp(x[i], l[j]); MC_CHECK(c == m, "order-ext", "external %s vs %s gives %ld instead of %d", A[i].str().c_str(), A[j].str().c_str(), (long)c, m);
      c = cmp(lr[i], xr[j]); MC_CHECK(c == m, "order-extrec", "record of %s vs external record of %s gives %ld instead of %d", A[i].str().c_str(), A[j].str().c_str(), (long)c, m);
      c = cmp(xr[i], xr[j]); MC_CHECK(c == m, "order-extrec", "external record of %s vs external record of %s gives %ld instead of %d", A[i].str().c_str(), A[j].str().c_str(), (long)c, m); return i != j; });
  } else if (p == "params") {   // every parameter against every stored value; the segment is read-only meanwhile
    auto A = alphabet(false, true); int n = A.size(); std::vector<gint> st; for (auto &v : A) st.push_back(enc_val(db, v, v.t == V_REC ? B() + roff[v.i] : nullptr));
    std::vector<std::vector<gint>> offs(n); for (int i = 0; i < n; i++) { void *r = wg_create_raw_record(db, 1); wg_set_new_field(db, r, 0, st[i]); offs[i].push_back((char *)r - B()); }
    bool ix = o.num("index", 0); if (ix && wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0)) { fprintf(out(), "ERROR index\n"); _exit(2); }
    H128 h0 = hash0(); img_hash(db, h0); std::map<gint, int> at; for (int i = 0; i < n; i++) at[offs[i][0]] = i;
    size_t a0 = (size_t)HDR(db) & ~4095UL, len = ((size_t)HDR(db) + 1000000 - a0) & ~4095UL;   // whole pages of the (mmapped) allocation
    for (int i = 0; i < n; i++) for (int c = 0; c < 6; c++) C.run([&] { return fmt("parameter %s with %s", A[i].str().c_str(), CONDN[c]); }, [&] {
      if (mprotect((void *)a0, len, PROT_READ)) { fprintf(out(), "ERROR mprotect\n"); _exit(2); }
      memctl::on = true; memctl::live = 0; gint e = enc_param(db, A[i], A[i].t == V_REC ? B() + roff[A[i].i] : nullptr); memctl::on = false; MC_CHECK(e != WG_ILLEGAL, "param-failed", "preparing %s failed", A[i].str().c_str());
      Val g = dec_val(db, e); Val x = A[i]; if (x.t == V_REC) x.i = roff[x.i]; MC_CHECK(g == x || (nan(g) && nan(x)), "param-content", "parameter %s reads back as %s", A[i].str().c_str(), g.str().c_str());
      memctl::on = true; wg_query_arg a; a.column = 0; a.cond = CONDS[c]; a.value = e; wg_query *q = wg_make_query(db, NULL, 0, &a, 1); memctl::on = false; MC_CHECK(q, "query-failed", "no query");
      std::set<int> got; void *r; bool other = false; while ((r = wg_fetch(db, q))) { auto it = at.find((char *)r - B()); if (it != at.end()) MC_CHECK(got.insert(it->second).second, "query-twice", "a row twice"); }
      for (int j = 0; j < n; j++) { int m = vcmp(A[j], A[i], recof); MC_CHECK((got.count(j) > 0) == vsat(m, CONDS[c]), "param-compare", "stored %s %s parameter %s: %s", A[j].str().c_str(), CONDN[c], A[i].str().c_str(), got.count(j) ? "selected" : "not selected"); }
      memctl::on = true; wg_free_query(db, q); wg_free_query_param(db, e); memctl::on = false; MC_CHECK(memctl::live == 0, "param-leak", "%ld blocks of memory not returned", memctl::live);
      mprotect((void *)a0, len, PROT_READ | PROT_WRITE); H128 h1 = hash0(); img_hash(db, h1); MC_CHECK(h0 == h1, "param-modifies", "parameters changed the database"); return true; });
  } else if (p == "seq") {
    PW w; w.vals = {vNull(), vInt(1), vInt(1LL << 61), vDbl(2.5), vStr("s"), vStr(L('l', 40)), vTxt(V_STR, "s", "en"), vTxt(V_URI, "s", "http://p/"), vTxt(V_XML, "s", "t"), vTxt(V_URI, ""), vChar('c')}; w.nslots = o.num("slots", 2); w.sl.resize(w.nslots);
    for (auto &v : w.vals) { void *r = wg_create_record(db, 1); wg_set_field(db, r, 0, enc_val(db, v)); w.rows.push_back(v); w.offs.push_back((char *)r - B()); } if (o.num("index", 0)) wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0);
    w.h0 = hash0(); img_hash(db, w.h0); w.init(); Explorer e(w, o.depth); bool f = e.explore(); finish(f);
  } else return 2;
  finish(C.failed());
}
