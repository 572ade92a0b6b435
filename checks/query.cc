// C14, C15: queries and find-record iteration against a reference scan, over all tables,
// index configurations and conditions within the bounds.
#include "order.h"
using namespace mc;
static std::string L(char c, int n) { return std::string(n, c); }
struct Ix { gint type; std::vector<gint> cols; bool templ = false; std::vector<Val> t; };
struct Cond { int col, c, v; };          // column, index into CONDS, value index
static void *db; static Image *empty; static std::vector<Val> vals; static std::vector<std::vector<Val>> rows; static std::vector<gint> offs; static gint base_live;
static char *B() { return (char *)dbmemseg(db); }
static const std::vector<Val> &recof(ll i) { return rows[i]; }
static int cmpv(const Val &a, const Val &b) { return vcmp(a, b, recof); }
static std::vector<gint> pv, sv; // encoded as parameter, encoded in the database
static bool stored_vals = false; static long nq = 0, npos = 0;
static int lastcol_max;
static std::string cs(const std::vector<Cond> &q) { std::string s; for (auto &c : q) s += fmt("%scol%d %s %s", s.size() ? " and " : "", c.col, CONDN[c.c], vals[c.v].str().c_str()); return s; }
static std::string ixs(const std::vector<Ix> &ix) { std::string s; for (auto &i : ix) { s += i.type == WG_INDEX_TYPE_TTREE ? " ttree(" : " hash("; for (gint c : i.cols) s += fmt("%ld ", (long)c); s += ")"; if (i.templ) { s += "["; for (auto &v : i.t) s += v.t == V_VAR ? "* " : v.str() + " "; s += "]"; } } return s; }
static bool matches(const std::vector<Val> &r, const std::vector<Cond> &q) { for (auto &c : q) { if (c.col >= (int)r.size()) return false; if (!vsat(cmpv(r[c.col], vals[c.v]), CONDS[c.c])) return false; } return true; }
static std::vector<ll> expected; // offsets of rows satisfying
static void expect(const std::vector<Cond> &q) { expected.clear(); for (size_t i = 0; i < rows.size(); i++) if (matches(rows[i], q)) expected.push_back(offs[i]); std::sort(expected.begin(), expected.end()); }
static gint enc(int v) { if (vals[v].t == V_REC) return wg_encode_record(db, B() + offs[vals[v].i]); return stored_vals || vals[v].t == V_BLOB ? sv[v] : pv[v]; }
// build the table: indexes made before or after the rows
static void build(const std::vector<std::vector<Val>> &t, const std::vector<Ix> &ix, int order) {
  img_restore(db, empty); rows = t; offs.clear();
  auto mkix = [&] { for (auto &x : ix) { std::vector<gint> tb; for (auto &v : x.t) tb.push_back(enc_val(db, v)); tb.push_back(0); gint rc = wg_create_multi_index(db, (gint *)x.cols.data(), x.cols.size(), x.type, x.templ ? tb.data() : NULL, x.t.size()); MC_CHECK(rc == 0, "icreate-failed", "index creation returned %ld", (long)rc); } };
  if (order == 0) mkix();
  bool raw = true; for (auto &x : ix) if (x.templ) raw = false;   // filling raw records is documented as unsuitable for filtered indexes
  for (auto &r : t) { void *p = raw ? wg_create_raw_record(db, r.size()) : wg_create_record(db, r.size()); MC_CHECK(p, "create-failed", "create failed"); offs.push_back((char *)p - B()); for (size_t i = 0; i < r.size(); i++) { gint e = r[i].t == V_REC ? wg_encode_record(db, B() + offs[r[i].i]) : enc_val(db, r[i]); MC_CHECK((raw ? wg_set_new_field(db, p, i, e) : wg_set_field(db, p, i, e)) == 0, "set-failed", "set failed"); } }
  if (order == 1) mkix();
  for (auto &v : sv) v = 0; sv.resize(vals.size()); if (stored_vals || true) for (size_t i = 0; i < vals.size(); i++) if (vals[i].t != V_REC && (stored_vals || vals[i].t == V_BLOB)) sv[i] = enc_val(db, vals[i]);
}
static void compare_rows(wg_query *q, ll limit, const std::function<std::string()> &d) {
  std::vector<ll> got; void *r; while ((r = wg_fetch(db, q))) { got.push_back((char *)r - B()); MC_CHECK(got.size() <= rows.size() + 5, "query-endless", "%s: more rows than records", d().c_str()); }
  MC_CHECK(wg_fetch(db, q) == NULL, "query-afterend", "%s: a row after the end", d().c_str());
  std::sort(got.begin(), got.end());
  for (size_t i = 1; i < got.size(); i++) MC_CHECK(got[i] != got[i - 1], "query-twice", "%s: a row twice", d().c_str());
  if (limit <= 0 || limit >= (ll)expected.size()) MC_CHECK(got == expected, "query-rows", "%s: %zu rows, %zu records satisfy it", d().c_str(), got.size(), expected.size());
  else { MC_CHECK((ll)got.size() == limit, "query-limit", "%s: %zu rows for limit %lld of %zu", d().c_str(), got.size(), limit, expected.size()); for (ll o : got) MC_CHECK(std::binary_search(expected.begin(), expected.end(), o), "query-wrongrow", "%s: a row that does not satisfy it", d().c_str()); }
  MC_CHECK((ll)q->res_count == (ll)got.size(), "query-count", "%s: res_count %ld for %zu rows", d().c_str(), (long)q->res_count, got.size());
}
static long live0; 
static void one(const std::vector<Cond> &q, const std::vector<int> *match = nullptr, bool matchrec = false, ll limit = -1) {
  wg_query_arg a[8]; int n = 0; for (auto &c : q) { a[n].column = c.col; a[n].cond = CONDS[c.c]; a[n++].value = enc(c.v); }
  std::vector<gint> mb; void *mr = NULL; std::vector<Cond> full = q;
  if (match) { for (size_t i = 0; i < match->size(); i++) { int v = (*match)[i]; mb.push_back(v < 0 ? wg_encode_var(db, 0) : enc(v)); if (v >= 0) full.push_back({(int)i, 0, v}); } mr = mb.data(); }
  auto d = [&] { std::string s = cs(q); if (match) { s += matchrec ? " matching record[" : " matching["; for (int v : *match) s += v < 0 ? "* " : vals[v].str() + " "; s += "]"; } if (limit >= 0) s += fmt(" limit %lld", limit); return s; };
  expect(full);
  memctl::on = true; memctl::live = 0;
  wg_query *w = limit >= 0 ? wg_make_query_rc(db, mr, mb.size(), n ? a : NULL, n, limit) : wg_make_query(db, mr, mb.size(), n ? a : NULL, n);
  memctl::on = false; MC_CHECK(w, "query-failed", "%s: no query", d().c_str());
  compare_rows(w, limit, d);
  memctl::on = true; wg_free_query(db, w); memctl::on = false; MC_CHECK(memctl::live == 0, "query-leak", "%s: %ld blocks of memory not returned", d().c_str(), memctl::live);
  nq++; if (expected.size() && expected.size() < rows.size()) npos++;
}
static void find(const Cond &c) {
  std::vector<Cond> q{c}; expect(q); auto d = [&] { return "find " + cs(q); };
  std::vector<ll> got; void *r = NULL; Val &v = vals[c.v]; gint e = enc(c.v), cd = CONDS[c.c]; int which = nq % 2; const char *x = v.hasx ? v.x.c_str() : NULL;
  memctl::on = true; memctl::live = 0;
  for (;;) {
    if (!which) r = wg_find_record(db, c.col, cd, e, r);
    else switch (v.t) {
      case V_NULL: r = wg_find_record_null(db, c.col, cd, NULL, r); break; case V_REC: r = wg_find_record_record(db, c.col, cd, B() + offs[v.i], r); break;
      case V_INT: if (v.i == (int)v.i) r = wg_find_record_int(db, c.col, cd, v.i, r); else r = wg_find_record(db, c.col, cd, e, r); break;
      case V_DBL: r = wg_find_record_double(db, c.col, cd, v.d, r); break; case V_FIX: r = wg_find_record_fixpoint(db, c.col, cd, v.d, r); break;
      case V_CHAR: r = wg_find_record_char(db, c.col, cd, v.i, r); break; case V_DATE: r = wg_find_record_date(db, c.col, cd, v.i, r); break; case V_TIME: r = wg_find_record_time(db, c.col, cd, v.i, r); break; case V_VAR: r = wg_find_record_var(db, c.col, cd, v.i, r); break;
      case V_STR: if (v.hasx) r = wg_find_record(db, c.col, cd, e, r); else r = wg_find_record_str(db, c.col, cd, (char *)v.s.c_str(), r); break;
      case V_XML: r = wg_find_record_xmlliteral(db, c.col, cd, (char *)v.s.c_str(), (char *)x, r); break; case V_URI: r = wg_find_record_uri(db, c.col, cd, (char *)v.s.c_str(), (char *)x, r); break;
      default: r = wg_find_record(db, c.col, cd, e, r);
    }
    if (!r) break; got.push_back((char *)r - B()); if (got.size() > rows.size() + 5) { memctl::on = false; fail("find-endless", d() + " does not end"); }
  }
  memctl::on = false; MC_CHECK(memctl::live == 0, "find-leak", "%s: %ld blocks of memory not returned", d().c_str(), memctl::live);
  std::sort(got.begin(), got.end()); for (size_t i = 1; i < got.size(); i++) MC_CHECK(got[i] != got[i - 1], "find-twice", "%s: a record twice", d().c_str());
  MC_CHECK(got == expected, "find-rows", "%s: %zu records, %zu satisfy it", d().c_str(), got.size(), expected.size());
  nq++; if (expected.size() && expected.size() < rows.size()) npos++;
}
int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts(); std::string p = o.profile; Val ANY = vVar(0); auto T = WG_INDEX_TYPE_TTREE; auto H = WG_INDEX_TYPE_HASH;
  Cases C; bool F = o.num("find", 0);
  auto mkparams = [&] { pv.clear(); for (auto &v : vals) pv.push_back(v.t == V_REC || v.t == V_BLOB ? 0 : enc_param(db, v)); sv.assign(vals.size(), 0); };
  auto ends = [&](H128 h0) { H128 h1 = hash0(); img_hash(db, h1); MC_CHECK(h0 == h1, "query-modifies", "querying changed the database"); };
  db = wg_attach_local_database(o.num("size", 300000)); if (!db) { fprintf(out(), "no db\n"); return 2; }
  empty = img_save(db);
  if (p == "tables") {   // every table of up to n rows x index sets x every condition and every conjunction of two
    vals = {vNull(), vInt(1), vInt(2), vStr("a")}; mkparams(); int n = o.num("rows", 3);
    std::vector<std::vector<Val>> R = {{vInt(1), vInt(1)}, {vInt(1), vInt(2)}, {vInt(2), vNull()}, {vNull(), vInt(1)}, {vInt(1)}, {vStr("a"), vInt(2), vInt(1)}}; if (o.num("alpha", 6) < (int)R.size()) R.resize(o.num("alpha", 6));
    std::vector<std::vector<Ix>> IX = {{}, {{T, {0}}}, {{T, {1}}}, {{T, {0}}, {T, {1}}}, {{T, {0}, true, {ANY, vInt(1)}}}, {{T, {0}}, {T, {1}, true, {vInt(1)}}}, {{T, {1}, true, {vInt(1)}}, {T, {0}, true, {ANY, vNull()}}}, {{T, {1}, true, {ANY, ANY, vInt(1)}}, {T, {2}}}, {{H, {0}}, {H, {0, 1}}}, {{H, {0}}, {T, {0}}}, {{T, {2}, true, {vInt(1), vInt(1)}}, {T, {2}, true, {vInt(1)}}, {T, {0}, true, {ANY, vInt(1)}}, {T, {1}, true, {vInt(1)}}, {T, {2}, true, {vNull(), vInt(1)}}}};
    std::vector<Cond> S; for (int col = 0; col < 3; col++) for (int c = 0; c < 6; c++) for (int v = 0; v < 4; v++) S.push_back({col, c, v});
    std::vector<int> idx;
    std::function<void(int)> rec = [&](int k) {
      for (size_t i = 0; i < IX.size(); i++) for (int ord = 0; ord < (IX[i].empty() ? 1 : 2); ord++) {
        std::vector<std::vector<Val>> t; for (int x : idx) t.push_back(R[x]);
        C.run([&] { std::string s = "table"; for (auto &r : t) { s += " ("; for (auto &v : r) s += v.str() + " "; s += ")"; } return s + " indexes" + ixs(IX[i]) + (ord ? " made after" : " made before"); }, [&] {
          build(t, IX[i], ord); H128 h0 = hash0(); img_hash(db, h0); long q0 = npos;
          if (F) { for (auto &c : S) { find(c); find(c); } }
          else { for (auto &c : S) one({c}); for (auto &c : S) for (auto &c2 : S) one({c, c2}); }
          ends(h0); return npos > q0; });
      }
      if (k < n) for (size_t x = 0; x < R.size(); x++) { idx.push_back(x); rec(k + 1); idx.pop_back(); }
    };
    rec(0);
  } else if (p == "triples") {   // conjunctions of three conditions in every order
    vals = {vNull(), vInt(1), vInt(2)}; mkparams(); std::vector<std::vector<Val>> t; for (auto &a : vals) for (auto &b : vals) { t.push_back({a, b}); } t.push_back({vInt(1), vInt(1), vInt(1)}); t.push_back({vInt(1)}); t.push_back({vInt(1), vInt(2), vInt(2)}); t.push_back({vInt(1), vInt(2)});
    std::vector<std::vector<Ix>> IX = {{}, {{T, {0}}}, {{T, {0}}, {T, {1}}}, {{T, {1}, true, {vInt(1)}}, {T, {0}}}, {{T, {2}, true, {vInt(1), vInt(2)}}, {T, {2}, true, {vInt(1)}}, {T, {1}, true, {ANY, ANY, vInt(1)}}}};
    std::vector<Cond> S; for (int col = 0; col < 3; col++) for (int c = 0; c < 6; c++) for (int v = 0; v < 3; v++) S.push_back({col, c, v});
    for (auto &ix : IX) for (int rot = 0; rot < 2; rot++) for (auto &a : S) C.run([&] { return "three conditions, first " + cs({a}) + ", indexes" + ixs(ix); }, [&] {
      auto tt = t; if (rot) std::reverse(tt.begin(), tt.end()); build(tt, ix, rot); H128 h0 = hash0(); img_hash(db, h0); for (auto &b : S) for (auto &c : S) one({a, b, c}); ends(h0); return true; });
  } else if (p == "types") {     // every type in one column, every pair of conditions on it
    std::vector<Val> all = {vNull(), vInt(7), vInt(-7), vInt(1LL << 61), vInt(-(1LL << 61)), vDbl(3.25), vDbl(-1e300), vStr("short"), vStr(""), vStr(L('b', 40)), vTxt(V_STR, "short", "en"), vTxt(V_URI, "u", "http://x/"), vTxt(V_URI, "u"), vTxt(V_XML, "<a/>", "t"), vTxt(V_BLOB, std::string("a\0b", 3), "bt"), vTxt(V_BLOB, std::string("a\0c", 3)), vChar('x'), vChar(200), vDate(733000), vTime(4242), vFix(1.25), vFix(-3), vVar(3), vRec(0), vRec(1)};
    vals = all; mkparams(); std::vector<std::vector<Val>> t = {{vInt(1), vInt(2)}, {vInt(2), vInt(1)}}; for (auto &v : all) t.push_back({v}); for (auto &v : all) if (v.t != V_VAR) t.push_back({v, v});
    for (int st = 0; st < 2; st++) for (int k = 0; k < 4; k++) for (int ord = 0; ord < 2; ord++) { std::vector<Ix> ix; if (k) ix.push_back({T, {0}}); if (k == 2) ix.push_back({T, {1}}); if (k == 3) ix.push_back({T, {1}, true, {vStr(L('b', 40))}});
      for (size_t v1 = 0; v1 < all.size(); v1++) C.run([&] { return fmt("all types, first value %s%s, indexes", all[v1].str().c_str(), st ? " (stored)" : "") + ixs(ix); }, [&] {
        auto tt = t; if (ord) std::reverse(tt.begin() + 2, tt.end()); stored_vals = st; build(tt, ix, ord); H128 h0 = hash0(); img_hash(db, h0);
        if (F) { for (int c = 0; c < 6; c++) { find({0, c, (int)v1}); find({1, c, (int)v1}); } }
        else for (int c = 0; c < 6; c++) { one({{0, c, (int)v1}}); one({{1, c, (int)v1}}); for (int col = 0; col < 2; col++) for (int c2 = 0; c2 < 6; c2++) for (size_t v2 = 0; v2 < all.size(); v2++) one({{0, c, (int)v1}, {col, c2, (int)v2}}); }
        ends(h0); return true; }); }
  } else if (p == "match") {     // match records of every length and content, arrays and records, with conditions and limits
    vals = {vNull(), vInt(1), vStr(L('m', 40))}; mkparams(); std::vector<std::vector<Val>> t; for (auto &a : vals) for (auto &b : vals) t.push_back({a, b}); t.push_back({vInt(1)}); t.push_back({vInt(1), vNull(), vInt(1)}); t.push_back({vInt(1), vNull(), vInt(1)}); t.push_back({vInt(1), vInt(1)});
    std::vector<std::vector<Ix>> IX = {{}, {{T, {0}}}, {{T, {0}}, {T, {1}}}, {{T, {1}, true, {vInt(1)}}}, {{T, {0}, true, {ANY, ANY, vInt(1)}}}, {{H, {0, 1}}}};
    for (int st = 0; st < 2; st++) for (auto &ix : IX) for (int asrec = 0; asrec < 2; asrec++) for (int len = 1; len <= 3; len++) { int N = 1; for (int i = 0; i < len; i++) N *= 4;
      for (int k = 0; k < N; k++) { std::vector<int> mt; for (int i = 0, x = k; i < len; i++, x /= 4) mt.push_back(x % 4 - 1);
        C.run([&] { std::string s = "match"; for (int v : mt) s += v < 0 ? " *" : " " + vals[v].str(); return s + (asrec ? " (record)" : "") + ixs(ix); }, [&] {
          stored_vals = st; build(t, ix, 0); std::vector<Cond> none;
          if (asrec) {   // the match record is itself a record of the database (and thereby one of the rows)
            void *r = wg_create_record(db, len); std::vector<Val> f; for (int i = 0; i < len; i++) { Val v = mt[i] < 0 ? vVar(0) : vals[mt[i]]; wg_set_field(db, r, i, enc_val(db, v)); f.push_back(v); } rows.push_back(f); offs.push_back((char *)r - B());
            std::vector<Cond> full; for (int i = 0; i < len; i++) if (mt[i] >= 0) full.push_back({i, 0, mt[i]});
            H128 h0 = hash0(); img_hash(db, h0); expect(full);
            for (int lim = -1; lim < 3; lim++) { wg_query *w = lim >= 0 ? wg_make_query_rc(db, r, 0, NULL, 0, lim) : wg_make_query(db, r, 0, NULL, 0); MC_CHECK(w, "query-failed", "no query"); compare_rows(w, lim, [&] { return std::string("match record"); }); wg_free_query(db, w); nq++; }
            ends(h0); return true;
          }
          H128 h0 = hash0(); img_hash(db, h0); one(none, &mt); for (int lim = 0; lim < 6; lim++) one(none, &mt, false, lim);
          for (int col = 0; col < 3; col++) for (int c = 0; c < 6; c++) for (int v = 0; v < 3; v++) one({{col, c, v}}, &mt); ends(h0); return true; }); } }
  } else if (p == "pages") {     // result sets around page boundaries, every limit
    vals = {vNull(), vInt(1), vInt(2), vInt(3)}; mkparams(); int n = o.num("rows", 9), step = o.num("step", 1);
    for (int k = 0; k <= n; k += (k % 63 >= 60 || k % 63 <= 2 || step == 1) ? 1 : step) for (int ix = 0; ix < 2; ix++) C.run([&] { return fmt("%d rows, %s", k, ix ? "indexed" : "scan"); }, [&] {
      std::vector<std::vector<Val>> t; for (int i = 0; i < k; i++) { t.push_back({vInt(2)}); if (i % 3 == 1) t.push_back({vInt(1 + 2 * (i & 1))}); } build(t, ix ? std::vector<Ix>{{T, {0}}} : std::vector<Ix>{}, 0); H128 h0 = hash0(); img_hash(db, h0);
      if (F) { for (int c = 0; c < 6; c++) for (int v = 0; v < 4; v++) find({0, c, v}); ends(h0); return true; }
      for (int lim = 0; lim <= k + 2; lim += (lim % 63 >= 60 || lim % 63 <= 2 || lim >= k - 1 || step == 1) ? 1 : step) { one({{0, 0, 2}}, nullptr, false, lim); one({{0, 1, 2}}, nullptr, false, lim); one({{0, 5, 1}, {0, 2, 3}}, nullptr, false, lim); one({}, nullptr, false, lim); } one({}); one({{0, 0, 2}}); ends(h0); return true; });
  } else if (p == "wide") {      // columns around the last indexable one
    vals = {vNull(), vInt(1), vInt(2)}; mkparams();
    for (int k = 0; k < 4; k++) C.run([&] { return fmt("wide records, index set %d", k); }, [&] {
      std::vector<std::vector<Val>> t; for (int len : {126, 127, 128, 129, 130, 130}) { std::vector<Val> r(len, vInt(1)); r[len - 1] = vInt(2); t.push_back(r); r[125] = vNull(); t.push_back(r); }
      std::vector<Ix> ix; if (k & 1) ix.push_back({T, {127}}); if (k & 2) { ix.push_back({T, {126}}); ix.push_back({H, {126, 127}}); } build(t, ix, 0); H128 h0 = hash0(); img_hash(db, h0);
      for (int c1 : {124, 125, 126, 127, 128, 129, 130, 200}) for (int a = 0; a < 6; a++) for (int v = 0; v < 3; v++) { if (F) { if (c1 < 128) find({c1, a, v}); continue; } one({{c1, a, v}}); for (int c2 : {0, 126, 127, 128, 129}) for (int b = 0; b < 6; b++) one({{c1, a, v}, {c2, b, 1}}); } if (!F) for (int len : {1, 125, 126, 127, 128, 129, 130, 131}) for (int at : {0, 124, 125, 126, 127, 128, 129, 130}) if (at < len) for (int v = 0; v < 3; v++) { std::vector<int> mt(len, -1); mt[at] = v; one({}, &mt); one({{0, 5, 1}}, &mt); for (int w = 0; w < 3; w++) if (at) { mt[0] = w; one({}, &mt); } } ends(h0); return true; });
    if (!F) for (int k = 0; k < 4; k++) for (int len : {126, 127, 128, 129, 130, 131}) for (int at : {0, 125, 126, 127, 128, 129, 130}) if (at < len) C.run([&] { return fmt("match record with %d fields, column %d given, index set %d", len, at, k); }, [&] {
      for (int v = 0; v < 3; v++) { std::vector<std::vector<Val>> t; for (int l : {126, 127, 128, 129, 130, 131}) { std::vector<Val> r(l, vInt(1)); r[l - 1] = vInt(2); t.push_back(r); r[125] = vNull(); t.push_back(r); }
        std::vector<Ix> ix; if (k & 1) ix.push_back({T, {127}}); if (k & 2) { ix.push_back({T, {126}}); ix.push_back({H, {126, 127}}); } build(t, ix, 0);
        void *r = wg_create_record(db, len); std::vector<Val> f; for (int i = 0; i < len; i++) { Val x = i == at ? vals[v] : vVar(0); wg_set_field(db, r, i, enc_val(db, x)); f.push_back(x); } rows.push_back(f); offs.push_back((char *)r - B());
        H128 h0 = hash0(); img_hash(db, h0); expect({{at, 0, v}}); wg_query *w = wg_make_query(db, r, 0, NULL, 0); MC_CHECK(w, "query-failed", "no query"); compare_rows(w, -1, [&] { return std::string("match record"); }); wg_free_query(db, w); nq++; ends(h0); }
      return true; });
  } else if (p == "big") {       // the index lies beyond 2 GB
    vals = {vNull(), vInt(1), vInt(2)}; mkparams();
    C.run([&] { return std::string("index stored beyond 2 GB"); }, [&] {
      void *small = db; db = wg_attach_local_database((gint)3 << 30); if (!db) { db = small; return false; } for (int i = 0; i < 22; i++) MC_CHECK(wg_create_raw_record(db, 13107200), "create-failed", "create failed"); 
      rows.clear(); offs.clear(); for (int c = 2; c < 70; c++) MC_CHECK(wg_create_index(db, c, WG_INDEX_TYPE_TTREE, NULL, 0) == 0, "icreate-failed", "icreate"); gint id = wg_column_to_index_id(db, 69, WG_INDEX_TYPE_TTREE, NULL, 0); MC_CHECK(id > 0x7fffffffL, "harness", "index not beyond 2 GB: %lx", (long)id);
      void *q0 = NULL; for (int k = 0; k < 3; k++) { void *r = wg_create_raw_record(db, 70); wg_set_new_field(db, r, 69, wg_encode_int(db, k)); if (k == 1) q0 = r; }
      wg_query_arg a; a.column = 69; a.cond = WG_COND_EQUAL; a.value = wg_encode_int(db, 1); wg_query *q = wg_make_query(db, NULL, 0, &a, 1); MC_CHECK(q, "query-failed", "no query"); void *r = wg_fetch(db, q); MC_CHECK(r == q0 && !wg_fetch(db, q), "query-rows", "wrong rows"); wg_free_query(db, q); return true; });
  } else { fprintf(out(), "unknown profile\n"); return 2; }
  stats().extra["queries"] = nq; stats().extra["queries selecting some but not all rows"] = npos; finish(C.failed());
}
