// C39: every request an operation makes to the process heap refused, alone or with all later ones.
#include "jsondoc.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
extern "C" { gint wg_start_logging(void *); gint wg_stop_logging(void *); gint wg_replay_log(void *, char *); void *wg_get_all_indexes(void *, gint *); }
using namespace mc;
static std::string L(char c, int n) { return std::string(n, c); }
static void *db; static std::vector<void *> rec; static Image *base;
struct Res { bool err; std::string out; };               // err: the operation reported a failure
struct Op { std::string name; std::function<Res()> run; enum { RO, WR, LOOSE } kind = RO; std::function<void()> prep; };   // LOOSE: a reported failure may leave parts of the work
static std::vector<Op> ops;
static std::string slurp(const char *f) { std::string s; if (FILE *p = fopen(f, "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); } return s; }
static void spit(const char *f, const std::string &s) { FILE *p = fopen(f, "w"); fwrite(s.data(), 1, s.size(), p); fclose(p); }
static int rno(void *r) { for (size_t i = 0; i < rec.size(); i++) if (rec[i] == r) return i; return -1; }
static std::string digest() {   // everything stored, by position
  std::string s; std::map<gint, int> no; int n = 0; std::vector<void *> rs; for (void *r = wg_get_first_raw_record(db); r; r = wg_get_next_raw_record(db, r)) { no[(char *)r - (char *)dbmemseg(db)] = n++; rs.push_back(r); }
  for (void *r : rs) { s += "("; for (int i = 0; i < wg_get_record_len(db, r); i++) { Val v = dec_val(db, wg_get_field(db, r, i)); if (v.t == V_REC) s += fmt("rec %d", no.count(v.i) ? no[v.i] : -1); else s += v.str(); s += ","; } s += ")\n"; }
  return s;
}
struct Off { bool was = memctl::on; Off() { memctl::on = false; } ~Off() { memctl::on = was; } };
static std::string rows(wg_query *q) { std::multiset<int> g; void *r; int n = 0; while ((r = wg_fetch(db, q)) && n++ < 1000) { Off o; g.insert(rno(r)); } wg_free_query(db, q); Off o; std::string s = "rows"; for (int x : g) s += fmt(" %d", x); return s; }
static Res Q(wg_query *q) { if (!q) return {true, "no query"}; auto s = rows(q); return {false, s}; }
static int nfd() { int n = 0; for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static void build() {
  db = wg_attach_local_database(opts().num("size", 900000)); if (!db) exit(2);
  int ix = opts().num("ix", 0); gint c01[2] = {0, 1}, c12[2] = {1, 2};
  if (ix & 1) { if (wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0)) exit(2); }
  if (ix & 2) { if (wg_create_multi_index(db, c01, 2, WG_INDEX_TYPE_HASH, NULL, 0)) exit(2); if (wg_create_multi_index(db, c12, 2, WG_INDEX_TYPE_HASH_JSON, NULL, 0)) exit(2); }
  for (int i = 0; i < 150; i++) { void *r = wg_create_record(db, 3); wg_set_field(db, r, 0, wg_encode_int(db, i % 5)); Val v = i % 3 == 0 ? vStr(L((char)(97 + i % 12), 40)) : i % 3 == 1 ? vTxt(V_URI, "u", "http://p/") : vDbl(i * 1.5); wg_set_field(db, r, 1, enc_val(db, v)); if (rec.size()) wg_set_field(db, r, 2, wg_encode_record(db, rec[i / 2 - (i == 1)])); rec.push_back(r); }
}
static Res enc(const std::function<gint()> &f, bool param) { gint e = f(); if (e == WG_ILLEGAL) return {true, "illegal"}; std::string s; { Off o; s = dec_val(db, e).str(); } if (param) wg_free_query_param(db, e); return {false, s}; }
static void mkops() {
  static const gint CO[] = {WG_COND_EQUAL, WG_COND_NOT_EQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_LTEQUAL, WG_COND_GTEQUAL};
  for (int lim = -1; lim < 3; lim++) for (int c = -1; c < 6; c++) for (int col = 0; col < 2; col++) {
    ops.push_back({fmt("query column %d condition %d limit %d", col, c, lim), [=]() -> Res {
      static gint pv[2] = {0, 0}; { Off o; if (!pv[0]) { pv[0] = wg_encode_query_param_int(db, 3); pv[1] = wg_encode_query_param_str(db, (char *)L('d', 40).c_str(), NULL); } }
      wg_query_arg a; a.column = col; a.cond = c < 0 ? 0 : CO[c]; a.value = pv[col]; wg_query *q = lim < 0 ? wg_make_query(db, NULL, 0, c < 0 ? NULL : &a, c >= 0) : wg_make_query_rc(db, NULL, 0, c < 0 ? NULL : &a, c >= 0, lim);
      if (lim > 0 && q) { std::string s = fmt("%ld rows", (long)q->res_count); wg_free_query(db, q); return {false, s}; } return Q(q); }}); }
  ops.push_back({"query by match record and condition", [] { gint m[3]; m[0] = wg_encode_int(db, 1); m[1] = wg_encode_var(db, 0); m[2] = wg_encode_var(db, 1); wg_query_arg a; a.column = 2; a.cond = WG_COND_GREATER; a.value = wg_encode_null(db, 0); return Q(wg_make_query(db, m, 3, &a, 1)); }});
  for (auto v : {vInt(5), vInt(1LL << 60), vDbl(2.5), vStr("s"), vStr(L('p', 60)), vTxt(V_STR, "x", "en"), vTxt(V_URI, "u", "http://p/"), vTxt(V_XML, "x", "t")})
    ops.push_back({"query parameter " + v.str(), [=] { return enc([=] { return enc_param(db, v); }, true); }});
  for (auto t : {"12", "1.5", "2012-01-02", "10:11:12", "text", ""}) { ops.push_back({fmt("wg_parse_and_encode_param(\"%s\")", t), [=] { return enc([=] { return wg_parse_and_encode_param(db, (char *)t); }, true); }});
    ops.push_back({fmt("wg_parse_and_encode(\"%s\")", t), [=]() -> Res { gint e = wg_parse_and_encode(db, (char *)t); if (e == WG_ILLEGAL) return {true, ""}; Off o; std::string s = dec_val(db, e).str(); wg_free_encoded(db, e); return {false, s}; }, Op::WR}); }
  ops.push_back({"find a record by text", []() -> Res { static std::string k = L('g', 40); void *r = wg_find_record_str(db, 1, WG_COND_EQUAL, (char *)k.c_str(), NULL); if (!r) return {true, "none"}; return {false, fmt("row %d", rno(r))}; }});   // "not found" and failure are not told apart
  ops.push_back({"list the indexes", []() -> Res { gint n = -5; gint *l = (gint *)wg_get_all_indexes(db, &n); bool some = opts().num("ix", 0); if (!l) return {some, "null"}; std::string s = fmt("%ld indexes", (long)n); free(l); return {false, s}; }});
  ops.push_back({"dump", []() -> Res { gint rc = wg_dump(db, (char *)"d.out"); Off o; gint a, b; bool ok = !rc && wg_check_dump(db, (char *)"d.out", &a, &b) == 0; return {rc != 0, fmt("%ld %d", (long)rc, ok)}; }, Op::WR});
  ops.push_back({"check a dump", []() -> Res { gint a = 0, b = 0, rc = wg_check_dump(db, (char *)"d.in", &a, &b); return {rc == -1, fmt("%ld", (long)rc)}; }, Op::RO, [] { wg_dump(db, (char *)"d.in"); }});
  ops.push_back({"import a dump", []() -> Res { gint rc = wg_import_dump(db, (char *)"d.in"); return {rc != 0, fmt("%ld", (long)rc)}; }, Op::WR, [] { wg_dump(db, (char *)"d.in"); wg_create_record(db, 3); }});
  ops.push_back({"import CSV", []() -> Res { gint rc = wg_import_db_csv(db, (char *)"c.in"); return {rc != 0, fmt("%ld", (long)rc)}; }, Op::LOOSE, [] { std::string w; for (int i = 0; i < 70; i++) w += fmt("%d,", i); spit("c.in", "1,2.5,abc\n\"quoted, text\",2012-05-06,\n" + w + "x\n"); }});
  ops.push_back({"attach and delete a local database", []() -> Res { void *d = wg_attach_local_database(200000); if (!d) return {true, "null"}; void *r = wg_create_record(d, 1); bool ok = r && wg_get_record_len(d, r) == 1; wg_delete_local_database(d); return {false, fmt("%d", ok)}; }});
  auto startlog = [] { if (wg_start_logging(db)) exit(2); };
  if (opts().num("log", 0)) {
    ops.push_back({"start and stop logging", []() -> Res { gint rc = wg_start_logging(db); if (rc) return {true, fmt("%ld", (long)rc)}; rc = wg_stop_logging(db); return {false, fmt("%ld", (long)rc)}; }, Op::LOOSE});
    for (auto v : {vInt(1LL << 60), vDbl(2.5), vStr(L('j', 50)), vTxt(V_URI, "u", "http://q/"), vTxt(V_BLOB, "bb", "t")})
      ops.push_back({"logged write of " + v.str(), [=]() -> Res { gint e = enc_val(db, v); if (e == WG_ILLEGAL) return {true, "illegal"}; gint rc = wg_set_field(db, rec[7], 1, e); if (rc) wg_free_encoded(db, e); return {rc != 0, fmt("%ld", (long)rc)}; }, Op::WR, startlog});
    for (bool on : {false, true}) ops.push_back({on ? "replay a journal while logging" : "replay a journal", []() -> Res { gint rc = wg_replay_log(db, (char *)"j.in"); return {rc != 0, fmt("%ld", (long)rc)}; }, Op::LOOSE, [=] {
      static std::string journal; if (journal.size()) { spit("j.in", journal); if (on) startlog(); return; }
      Image *im = img_save(db); if (wg_start_logging(db)) exit(2); for (int i = 0; i < 40; i++) { void *r = wg_create_record(db, 3); wg_set_field(db, r, 0, wg_encode_int(db, i)); Val v = i % 3 == 0 ? vStr(L('r', 40 + i)) : i % 3 == 1 ? vTxt(V_URI, "u", "http://replayed/") : vInt((1LL << 60) + i); wg_set_field(db, r, 1, enc_val(db, v)); if (i % 4 == 3) wg_delete_record(db, r); }
      wg_stop_logging(db); journal = slurp("wgdb.journal.0"); if (journal.size() < 1000) exit(2); spit("j.in", journal); { gint n = HDR(db)->logging.serial; img_restore(db, im); HDR(db)->logging.serial = n + 1; } delete im; if (on) startlog(); }});
  }
}
int main(int argc, char **argv) {
  init(argc, argv); build(); mkops(); base = img_save(db); Cases C; long nrefused = 0, ndone = 0;
  auto attempt = [&](Op &o, long k, int mode) { memctl::live = 0; memctl::nalloc = 0; memctl::fail_at = mode ? -1 : k; memctl::fail_from = mode ? k : -1; memctl::on = true; Res r = o.run(); memctl::on = false; memctl::fail_at = memctl::fail_from = -1; return r; };
  auto lockfree = [&] { gint l = wg_start_write(db); MC_CHECK(l, "heap-lock", "the database is left locked"); wg_end_write(db, l); };
  for (auto &o : ops) {
    auto start = [&] { unlink("d.out"); if (HDR(db)->logging.active) wg_stop_logging(db); static gint serial = 1000; if (system("rm -f wgdb.journal.*")) exit(2); img_restore(db, base); HDR(db)->logging.serial = serial += 10; if (o.prep) o.prep(); };
    start(); attempt(o, -1, 0); long total = memctl::nalloc;
    int modes = o.name.find("logged") == 0 && (opts().num("ix", 0) & 2) ? 1 : 2;   // going back to the old value needs memory for a hash index
    for (int mode = 0; mode < modes; mode++) for (long k = 0; k < total; k++) C.run([&] { return fmt("%s, heap request %ld%s refused", o.name.c_str(), k + 1, mode ? " and all later" : ""); }, [&] {
    start(); int fd0 = nfd(); std::string d0 = digest(); Res r0 = attempt(o, -1, 0); MC_CHECK(!r0.err, "harness-op", "%s fails with all memory: %s", o.name.c_str(), r0.out.c_str()); MC_CHECK(memctl::live == 0, "heap-leak", "%ld blocks are not returned", memctl::live);  std::string d1 = digest();
    start(); HeapCount c0, c1; fsck(db, &c0); H128 h0 = hash0(), h1 = hash0(); img_hash(db, h0); fd0 = nfd(); gint act0 = HDR(db)->logging.active;
    Res r = attempt(o, k, mode); img_hash(db, h1); std::string d = digest(); count(r.err ? "refused" : "done"); (r.err ? nrefused : ndone)++;
    MC_CHECK(memctl::live == 0, "heap-leak", "%ld blocks are not returned", memctl::live); fsck(db, &c1); lockfree(); MC_CHECK(nfd() == fd0, "heap-file", "%d files are left open", nfd() - fd0);
    if (!r.err) { MC_CHECK(r.out == r0.out, "heap-answer", "reports success with \"%s\" instead of \"%s\"", r.out.c_str(), r0.out.c_str()); MC_CHECK(d == d1, "heap-result", "reports success but the database content is different"); }
    else if (o.kind == Op::RO) MC_CHECK(h0 == h1, "heap-changed", "the refused operation changed the database");
    else if (o.kind == Op::WR) { MC_CHECK(d == d0, "heap-changed", "the refused operation changed the content of the database"); for (int i = 0; i < 10; i++) MC_CHECK(c0.a[i].used == c1.a[i].used, "heap-storage", "the refused operation changed the number of objects in storage area %d from %lld to %lld", i, c0.a[i].used, c1.a[i].used); }
    else if (o.name.find("replay") == 0 && r.out == "-1") { MC_CHECK(d == d0, "heap-changed", "the refused operation changed the content of the database"); MC_CHECK(HDR(db)->logging.active == act0, "heap-logging", "the refused replay turned logging off"); }
    else if (o.name == "import CSV") MC_CHECK(d.compare(0, d0.size(), d0) == 0, "heap-changed", "the refused import changed the earlier content");
    if (o.kind != Op::LOOSE) { if (r.err) { { Res r2 = attempt(o, -1, 0); MC_CHECK(!r2.err && r2.out == r0.out, "heap-again", "with the memory back it gives \"%s\" instead of \"%s\"", r2.out.c_str(), r0.out.c_str()); MC_CHECK(digest() == d1, "heap-again", "with the memory back the content is different"); } } }
    return true; });
    if (HDR(db)->logging.active) wg_stop_logging(db); }
  stats().extra["refused"] = nrefused; stats().extra["carried out"] = ndone; finish(C.failed());
}
