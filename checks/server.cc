// C35: the web server. Requests are given to the real query processor (and, over loopback connections, to the real http
// handler); every answer is read by an independent reader and compared with a reference evaluation of the request.
#include <climits>
#include <cfloat>
#include <csetjmp>
#include <set>
#include <unistd.h>
#include <pthread.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/wait.h>
#include <fcntl.h>
#include "mc.h"
#ifdef NOWRAP
namespace memctl { static long live, nalloc, fail_at = -1, fail_from = -1; static bool on; }
#else
#define WRAP_MALLOC
#endif
#include "wgdb.h"
#include "order.h"
extern "C" {
#include "dserve.h"
void *handle_http(void *);
extern dserve_global_p globalptr;
}
using namespace mc;
static void *db; static Cases *CC;
template <class D, class F> static void crun(D d, F f) { CC->run(d, [&] { f(); return true; }); }
// ---- stand-ins for attaching, locking and deleting
static int attached, lockkind; static std::string trace_; static std::string lastname; static ll lastsize; static std::set<std::string> existing;
extern "C" {
void *__wrap_wg_attach_existing_database(char *n) { lastname = n ? n : "?"; trace_ += "A"; if (!existing.count(lastname)) return 0; attached++; return db; }
void *__wrap_wg_attach_database(char *n, gint size) { lastname = n ? n : "?"; lastsize = size; trace_ += "C"; attached++; return db; }
int __wrap_wg_detach_database(void *) { trace_ += "D"; attached--; lockkind = lockkind == 'w' && trace_.find('W') != std::string::npos && trace_.find('w') == std::string::npos ? 'x' : lockkind; return 0; }
int __wrap_wg_delete_database(char *n) { trace_ += "X"; lastname = n; existing.erase(n); return 0; }
gint __real_wg_start_read(void *); gint __real_wg_end_read(void *, gint); gint __real_wg_start_write(void *); gint __real_wg_end_write(void *, gint);
gint __wrap_wg_start_read(void *d) { trace_ += "R"; gint r = __real_wg_start_read(d); if (r) lockkind = 'r'; return r; }
gint __wrap_wg_end_read(void *d, gint l) { trace_ += "r"; lockkind = 0; return __real_wg_end_read(d, l); }
gint __wrap_wg_start_write(void *d) { trace_ += "W"; gint r = __real_wg_start_write(d); if (r) lockkind = 'w'; return r; }
gint __wrap_wg_end_write(void *d, gint l) { trace_ += "w"; lockkind = 0; return __real_wg_end_write(d, l); }
gint __real_wg_delete_record(void *, void *); void *__real_wg_get_first_record(void *); void *__real_wg_fetch(void *, wg_query *); gint __real_wg_set_int_field(void *, void *, gint, gint);
gint __wrap_wg_delete_record(void *d, void *r) { if (lockkind != 'w') trace_ += "!"; return __real_wg_delete_record(d, r); }
void *__wrap_wg_get_first_record(void *d) { if (!lockkind) trace_ += "!"; return __real_wg_get_first_record(d); }
void *__wrap_wg_fetch(void *d, wg_query *q) { if (!lockkind) trace_ += "!"; return __real_wg_fetch(d, q); }
gint __wrap_wg_set_int_field(void *d, void *r, gint f, gint v) { if (lockkind != 'w') trace_ += "!"; return __real_wg_set_int_field(d, r, f, v); }
static jmp_buf exitjmp; static bool exitarmed; static int exitcode;
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) { if (exitarmed) { exitcode = c; longjmp(exitjmp, 1); } __real_exit(c); }
}
// ---- reference data
struct Rec { std::vector<Val> f; gint id; bool live = true; };
static std::vector<Rec> recs; static Image *img; static bool silent = false;
static void build(const std::vector<std::vector<Val>> &rows) { // V_REC values name the row they refer to
  if (db) wg_delete_local_database(db);
  db = wg_attach_local_database(2000000); if (!db) { fprintf(stderr, "no database\n"); _exit(3); }
  recs.clear(); std::vector<void *> p;
  for (auto &r : rows) { void *q = wg_create_record(db, r.size()); p.push_back(q); recs.push_back({r, wg_encode_record(db, q)}); }
  for (size_t i = 0; i < rows.size(); i++) for (size_t j = 0; j < rows[i].size(); j++) {
    gint e = rows[i][j].t == V_REC ? wg_encode_record(db, p[rows[i][j].i]) : enc_val(db, rows[i][j]); if (wg_set_field(db, p[i], j, e)) { fprintf(stderr, "set\n"); _exit(3); } }
  delete img; img = img_save(db);
}
static int refs(size_t k) { int n = 0; for (auto &r : recs) if (r.live) for (auto &v : r.f) if (v.t == V_REC && v.i == (ll)k) n++; return n; }
// ---- independent reader of answers
struct Out { int k = 0; /* 0 list 1 string 2 number 3 empty */ std::vector<Out> a; std::string s; };
struct Reader {
  const char *p, *e; int mode; bool bad = false;
  Out fail() { bad = true; return Out(); }
  static int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
  std::string str() { // after the opening quote
    std::string r;
    while (p < e) {
      char c = *p++;
      if (mode == 3) { if (c == '"') { if (p < e && *p == '"') { r += '"'; p++; continue; } return r; } r += c; }
      else if (c == '"') return r;
      else if (mode == 1 && c == '%') { if (e - p < 2 || hex(p[0]) < 0 || hex(p[1]) < 0) { bad = true; return r; } r += (char)(hex(p[0]) * 16 + hex(p[1])); p += 2; }
      else if (mode == 2 && c == '\\') { if (p >= e) break; c = *p++; switch (c) { case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break; case '"': case '\\': case '/': r += c; break;
          case 'u': { if (e - p < 4) { bad = true; return r; } int v = 0; for (int i = 0; i < 4; i++) { int h = hex(*p++); if (h < 0) { bad = true; return r; } v = v * 16 + h; } if (v > 127) { bad = true; return r; } r += (char)v; break; }
          default: bad = true; return r; } }
      else { if (mode == 2 && (unsigned char)c < 32) { bad = true; return r; } r += c; }
    }
    bad = true; return r;
  }
  void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\r' || *p == '\t')) p++; }
  Out num() { Out o; o.k = 2; while (p < e && strchr("0123456789+-.eE", *p)) o.s += *p++; if (o.s.empty()) bad = true; return o; }
  Out val() {
    ws(); if (p >= e) return fail();
    if (*p == '"') { p++; Out o; o.k = 1; o.s = str(); return o; }
    if (*p == '[') { p++; Out o; ws(); if (p < e && *p == ']') { p++; return o; } for (;;) { o.a.push_back(val()); if (bad) return o; ws(); if (p >= e) return fail(); if (*p == ',') { p++; continue; } if (*p == ']') { p++; return o; } return fail(); } }
    return num();
  }
  Out csv() { // rows of cells
    Out all; while (p < e && !bad) { Out row; for (;;) { Out c; if (p < e && *p == '"') { p++; c.k = 1; c.s = str(); } else if (p < e && *p != ',' && *p != '\r') c = num(); else c.k = 3; row.a.push_back(c); if (bad) return all;
        if (p < e && *p == ',') { p++; continue; } break; } if (e - p < 2 || p[0] != '\r' || p[1] != '\n') return fail(); p += 2; all.a.push_back(row); } return all; }
};
static std::string show(const Out &o) { if (o.k == 1) return "\"" + o.s + "\""; if (o.k == 2) return o.s; if (o.k == 3) return ""; std::string r = "["; for (auto &x : o.a) r += (r.size() > 1 ? "," : "") + show(x); return r + "]"; }
static bool numeq(const std::string &a, const std::string &b) { if (a == b) return true; if (b.find_first_of(".eE") == std::string::npos && a.find_first_of(".eE") == std::string::npos) return false; double x = atof(a.c_str()), y = atof(b.c_str()); return fabs(x - y) <= 2e-5 * fabs(y); }
static bool same(const Out &a, const Out &b) { if (a.k != b.k) return false; if (a.k == 2) return numeq(a.s, b.s); if (a.k == 1) return a.s == b.s; if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!same(a.a[i], b.a[i])) return false; return true; }
// ---- reference of the printed form
struct Print { int csv = 0, esc = 2, showid = 0, depth = 100; };
static Out num(ll n) { Out o; o.k = 2; o.s = fmt("%lld", n); return o; }
static Out str(const std::string &s) { Out o; o.k = 1; o.s = s; return o; }
static std::string blobtext(const std::string &s) { std::string r; for (unsigned char c : s) { if (!c) break; if (c < 32 || c == '%' || c == '"' || c == '\\' || c > 126) r += fmt("%%%02x", c); else r += c; } return r; }
static Out rowof(const Rec &r, const Print &P, int level);
static Out valof(const Val &v, const Print &P, int level) {
  switch (v.t) {
    case V_NULL: { Out o; o.k = P.csv ? 3 : 0; return o; }
    case V_REC: return P.csv || level >= P.depth ? num(recs[v.i].id) : rowof(recs[v.i], P, level + 1);
    case V_INT: return num(v.i);
    case V_DBL: case V_FIX: { Out o; o.k = 2; o.s = fmt("%.17e", v.d); return o; }
    case V_STR: return str(v.hasx ? v.s + "@" + v.x : v.s);
    case V_URI: case V_XML: return str(v.hasx ? v.x + ":" + v.s : v.s);
    case V_CHAR: return str(std::string(1, (char)v.i));
    case V_DATE: { int y = 1, m = 1, n = v.i; auto lp = [](int y) { return y % 4 == 0 && (y % 100 || y % 400 == 0); }; while (n > (lp(y) ? 366 : 365)) n -= lp(y) ? 366 : 365, y++; static int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; for (m = 1; n > ml[m - 1] + (m == 2 && lp(y)); m++) n -= ml[m - 1] + (m == 2 && lp(y)); return str(fmt("%04d-%02d-%02d", y, m, n)); }
    case V_TIME: return str(fmt("%02d:%02d:%02d.%02d", (int)(v.i / 360000), (int)(v.i / 6000 % 60), (int)(v.i / 100 % 60), (int)(v.i % 100)));
    case V_VAR: return str(fmt("?%lld", v.i));
    case V_BLOB: return str(P.esc == 1 && !P.csv ? std::string(v.s.c_str()) : blobtext(v.s));
  }
  return str("");
}
static Out rowof(const Rec &r, const Print &P, int level) { Out o; if (P.showid) o.a.push_back(num(r.id)); for (auto &v : r.f) o.a.push_back(valof(v, P, level)); if (P.csv && o.a.empty()) { Out c; c.k = 3; o.a.push_back(c); } return o; }
// ---- running a request
static struct common_data common_; static struct dserve_conf conf0; static struct dserve_global glob; static thread_data_p td;
static void reset() { img_restore(db, img); for (auto &r : recs) r.live = true; }
static std::string vis(const std::string &s) { std::string r; for (unsigned char c : s.substr(0, 300)) r += c >= 32 && c < 127 ? std::string(1, c) : fmt("\\x%02x", c); return s.size() > 300 ? r + fmt("..(%zu)", s.size()) : r; }
static bool answered; static bool post = false;
static std::string ask(const std::string &q, bool allownull = false) {
  attached = 0; lockkind = 0; trace_.clear(); memctl::live = 0; memctl::nalloc = 0; memctl::on = true;
  char *b = (char *)malloc(q.size() + 1); memcpy(b, q.c_str(), q.size() + 1); td->inbuf = post ? b : NULL;
  char *r = process_query(b, td);
  answered = r != NULL; std::string s = r ? r : "";
  free(r); if (!post) free(b);
  memctl::on = false; memctl::fail_at = memctl::fail_from = -1;
  MC_CHECK(answered || allownull, "no-answer", "no answer");
  MC_CHECK(!lockkind || lockkind == 'x', "lock-kept", "the request returns with a lock held (%s)", trace_.c_str());
  MC_CHECK(trace_.find('!') == std::string::npos, "unlocked", "data read without a lock or changed without the write lock (%s)", trace_.c_str());
  MC_CHECK(attached == 0, "detach", "%d attached databases not detached (%s)", attached, trace_.c_str());
#ifndef NOWRAP
  MC_CHECK(memctl::live == 0, "leak", "%ld pieces of memory not freed, answer %s", memctl::live, vis(s).c_str());
#endif
  if (lockkind != 'x') { gint l = __real_wg_start_write(db); MC_CHECK(l, "lock", "no write lock afterwards"); __real_wg_end_write(db, l); }
  return s;
}
static bool unchanged() { Image *n = img_save(db); bool ok = n->free == img->free; // the lock area changes harmlessly
  std::vector<Rec> x; void *r = __real_wg_get_first_record(db); for (auto &c : recs) { if (!r || wg_encode_record(db, r) != c.id || wg_get_record_len(db, r) != (gint)c.f.size()) { ok = false; break; } r = wg_get_next_record(db, r); } if (r) ok = false;
  gint la = HDR(db)->locks.storage - 64; size_t from = la > 0 ? la : 0, to = from + HDR(db)->locks.max_nodes * 64 + 4096; 
  for (gint i = 0; ok && i < n->free; i++) if (n->b[i] != img->b[i]) { if (i >= (gint)offsetof(db_memsegment_header, locks) && i < (gint)(offsetof(db_memsegment_header, locks) + sizeof(HDR(db)->locks))) continue; if (i >= (gint)from && i < (gint)to) continue; ok = false; }
  delete n; return ok; }
static void checkdb() { // exactly the live records, with their content
  try { fsck(db); } catch (Violation &v) { mc::fail("fsck", "the database is damaged: " + v.msg); }
  void *r = __real_wg_get_first_record(db);
  for (auto &c : recs) if (c.live) { MC_CHECK(r && wg_encode_record(db, r) == c.id, "content", "record %ld is missing", (long)c.id); MC_CHECK(wg_get_record_len(db, r) == (gint)c.f.size(), "content", "record %ld has another length", (long)c.id);
    for (size_t i = 0; i < c.f.size(); i++) { gint e = wg_get_field(db, r, i); if (c.f[i].t == V_REC) { MC_CHECK(e == recs[c.f[i].i].id, "content", "a reference changed"); } else { Val v = dec_val(db, e); MC_CHECK(v == c.f[i], "content", "field %zu of record %ld became %s", i, (long)c.id, v.str().c_str()); } }
    r = wg_get_next_record(db, r); }
  MC_CHECK(!r, "content", "a record that should be gone is still there");
}
// the text of an answer (without the padding) as rows
static Out readrows(std::string s, const Print &P, const std::string &jsonp, bool list) {
  std::string o = s;
  if (!P.csv && !jsonp.empty()) { std::string a = jsonp + "(", z = ");"; MC_CHECK(s.size() >= a.size() + z.size() && s.compare(0, a.size(), a) == 0 && s.compare(s.size() - z.size(), z.size(), z) == 0, "padding", "the answer is not padded: %s", vis(o).c_str()); s = s.substr(a.size(), s.size() - a.size() - z.size()); }
  Reader R{s.data(), s.data() + s.size(), P.csv ? 3 : P.esc}; Out r;
  if (P.csv && list) r = R.csv(); else { r = R.val(); R.ws(); }
  MC_CHECK(!R.bad && R.p == R.e, "unreadable", "the answer is not well formed: %s", vis(o).c_str());
  return r;
}
struct Cond2 { int col; int c; /* index of CN or -1 */ std::string v; int t; /* index of TN or -1 */ };
static const char *CN[] = {"equal", "not_equal", "lessthan", "greater", "ltequal", "gtequal"}; static const gint CV[] = {WG_COND_EQUAL, WG_COND_NOT_EQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_LTEQUAL, WG_COND_GTEQUAL};
static const char *TN[] = {"null", "int", "record", "double", "str", "char"};
static bool alldig(const std::string &s) { if (s.empty()) return false; for (char c : s) if (!isdigit((unsigned char)c)) return false; return true; }
static bool isdec(const std::string &s) { int d = 0, n = 0; for (char c : s) if (c == '.') d++; else if (isdigit((unsigned char)c)) n++; else return false; return n && d <= 1; }
static bool valueof(const Cond2 &c, Val &v) { // false: must be refused
  int t = c.t; if (t < 0) t = alldig(c.v) ? 1 : isdec(c.v) ? 3 : 4;
  switch (t) { case 0: v = vNull(); return true; case 1: if (!alldig(c.v)) return false; v = vInt(strtoll(c.v.c_str(), 0, 10)); return true;
    case 2: { if (!alldig(c.v)) return false; ll id = strtoll(c.v.c_str(), 0, 10); for (size_t i = 0; i < recs.size(); i++) if (recs[i].id == id) { v = vRec(i); return true; } return false; }
    case 3: if (!isdec(c.v)) return false; v = vDbl(atof(c.v.c_str())); return true; case 4: v = vStr(c.v); return true; default: v = vChar((unsigned char)c.v[0]); return true; }
}
static int cmpv(const Val &a, const Val &b) { return vcmp(a, b, [](ll k) -> const std::vector<Val> & { return recs[k].f; }); }
static std::string enc1(const std::string &s) { std::string r; for (unsigned char c : s) if (isalnum(c) || c == '_' || c == '.' || c == '-') r += c; else r += fmt(c & 1 ? "%%%02x" : "%%%02X", c); return r; }
static ll nrows;
// one well formed request: op 0 count 1 search 2 delete
static void request(int op, const std::vector<Cond2> *conds, const std::vector<std::string> *ids, ll from, ll cnt, const Print &P, const std::string &jsonp, int style = 0, const std::string &extra = "") {
  static const char *ON[] = {"count", "search", "delete"}, *EN[] = {"no", "url", "json"};
  std::vector<std::string> ps; std::string opn = op == 1 && style % 2 ? "select" : ON[op];
  ps.push_back("op=" + opn);
  if (conds) for (auto &c : *conds) { ps.push_back(fmt("field=%d", c.col)); ps.push_back("value=" + enc1(c.v)); if (c.c >= 0 || conds->size() > 1) ps.push_back(std::string("compare=") + CN[c.c < 0 ? 0 : c.c]); if (c.t >= 0) ps.push_back(std::string("type=") + TN[c.t]); }
  if (ids) { std::string s; for (auto &i : *ids) s += (s.empty() ? "" : ",") + i; if (ids->size()) ps.push_back("recids=" + s); }
  if (from >= 0) ps.push_back(fmt("from=%lld", from)); if (cnt >= 0) ps.push_back(fmt("count=%lld", cnt));
  if (P.csv) ps.push_back("format=csv"); else if (style & 4) ps.push_back("format=json");
  if (P.esc < 2) ps.push_back(std::string("escape=") + EN[P.esc]); if (P.showid) ps.push_back("showid=yes"); if (P.depth != 100) ps.push_back(fmt("depth=%d", P.depth));
  if (!jsonp.empty()) ps.push_back("jsonp=" + jsonp); if (style & 8) ps.push_back("_=123"); if (style & 16) ps.push_back("db=1000"); if (!extra.empty()) ps.push_back(extra);
  if (style & 2) std::rotate(ps.begin(), ps.begin() + 1, ps.end());
  if (style & 2 && ps.back().back() == '=') ps.push_back("_=1");
  std::string q; for (auto &p : ps) q += (q.empty() ? "" : "&") + p; if (q.back() == '=') q += "&_=1";
  crun([&] { return vis(q); }, [&] {
    note(q); reset(); existing = {"1000"};
    std::vector<Val> vs; bool refuse = false; if (conds) for (auto &c : *conds) { Val v; if (!valueof(c, v)) refuse = true; vs.push_back(v); }
    std::vector<size_t> hit; // selected rows in order
    if (ids) { for (auto &i : *ids) { ll id = strtoll(i.c_str(), 0, 10); for (size_t k = 0; k < recs.size(); k++) if (recs[k].id == id && recs[k].f.size()) hit.push_back(k); } }
    else for (size_t k = 0; k < recs.size(); k++) { bool m = true; if (conds) for (size_t j = 0; j < vs.size() && m; j++) { int c = (*conds)[j].col; m = c < (int)recs[k].f.size() && vsat(cmpv(recs[k].f[c], vs[j]), CV[(*conds)[j].c < 0 ? 0 : (*conds)[j].c]); } if (m) hit.push_back(k); }
    if (!refuse) { if (from > 0) hit.erase(hit.begin(), hit.begin() + std::min((size_t)from, hit.size())); if (cnt >= 0 && (ll)hit.size() > cnt) hit.resize(cnt); }
    std::string s = ask(q);
    if (refuse) { MC_CHECK(s.find("ERROR") != std::string::npos, "accepted", "a value that does not fit its type is accepted: %s", vis(s).c_str()); checkdb(); return; }
    MC_CHECK(s.find("ERROR:") == std::string::npos || op == 1, "refused", "refused: %s", vis(s).c_str());
    if (op == 1) { Out r = readrows(s, P, jsonp, true), w; for (size_t k : hit) w.a.push_back(rowof(recs[k], P, 0)); nrows += hit.size(); MC_CHECK(same(r, w), "rows", "the answer %s should be %s", vis(s).c_str(), vis(show(w)).c_str()); }
    else { ll n = hit.size(); if (op == 2) { n = 0; std::vector<size_t> done; for (size_t k : hit) if (recs[k].live && recs[k].f.size()) { if (!refs(k)) { recs[k].live = false; n++; } } }
      Out r = readrows(s, P, jsonp, false); MC_CHECK(r.k == 2 && r.s == fmt("%lld", n), "number", "the answer %s should be %lld", vis(s).c_str(), n); }
    static bool light = opts().has("light"); if (light) return; checkdb(); if (op != 2) MC_CHECK(unchanged(), "changed", "the database is changed by a request that only reads");
    
  });
}
static std::vector<std::vector<Val>> rowsdb() { return {{vInt(1), vStr("abc"), vDbl(2.5)}, {vInt(2), vStr("b c"), vNull()}, {vNull(), vInt(7), vStr("")}, {vDbl(2.0), vChar('x'), vRec(0)}, {}, {vInt(1)}, {vStr("2"), vRec(6), vInt(-3)}, {vInt(3000000000LL), vStr("abc"), vRec(3), vRec(0)}}; }
static std::vector<std::vector<Val>> valuesdb() {
  std::string nasty = "q\"b\\s/n\nr\rt\tb\bf\f1\x01z\x1f%41,;'<>&\x7f", u8 = "\xc3\xa4\xe2\x82\xac\xf0\x9f\x98\x80", lng(400, 'L'), quotes(300, '"'), ctl(300, '\x02');
  std::vector<std::vector<Val>> r = {
    {vInt(0), vInt(-1), vInt(2147483647), vInt(-2147483648LL), vInt(2147483648LL), vInt(LLONG_MAX), vInt(LLONG_MIN)},
    {vDbl(0), vDbl(0.5), vDbl(-123456.75), vDbl(1e300), vDbl(-1e-300), vFix(3.25), vFix(-1.5)},
    {vStr(""), vStr(nasty), vStr(u8), vStr(lng), vStr(quotes), vStr(ctl)},
    {vTxt(V_STR, "word", "en"), vTxt(V_STR, nasty, "en"), vTxt(V_STR, "", "et"), vTxt(V_STR, lng, "x\"y"), vTxt(V_STR, quotes, "en")},
    {vTxt(V_URI, "http://a/b", "p"), vTxt(V_URI, "x\"y"), vTxt(V_URI, nasty, "p\"q"), vTxt(V_URI, lng)},
    {vTxt(V_XML, "<a/>", "xsd:t"), vTxt(V_XML, nasty, "t\"u"), vTxt(V_XML, quotes, "t")},
    {vChar('a'), vChar('"'), vChar('\\'), vChar('\n'), vChar('%'), vChar(1)},
    {vDate(1), vDate(735000), vDate(730179), vTime(0), vTime(8639999), vTime(4500050), vVar(0), vVar(7)},
    {vTxt(V_BLOB, "plain"), vTxt(V_BLOB, nasty + "\xff\x80"), vTxt(V_BLOB, std::string("a\0b", 3)), vTxt(V_BLOB, std::string(500, '\xfe'))},
    {vNull(), vNull()}, {}, {vRec(12), vInt(1)}, {vRec(13), vInt(2)}, {vInt(3), vRec(9)}, {vRec(14)}, {vRec(16), vRec(14)}, {vRec(15)}};
  return r;
}
static void profile_search() {
  build(rowsdb());
  std::vector<std::string> vs = {"0", "1", "2", "7", "abc", "b c", "", "2.5", "2.0", ".", "x", "3000000000", "-3", fmt("%ld", (long)recs[0].id), fmt("%ld", (long)recs[3].id), fmt("%ld", (long)recs[6].id + 8), "1e5", "99999999999999999999"};
  Print P, C; C.csv = 1; Print I; I.showid = 1;
  std::vector<ll> lims = {-1, 0, 1, 2, 9};
  for (int op = 0; op < 3; op++) {
    for (ll f : lims) for (ll n : lims) for (int s = 0; s < 32; s++) request(op, 0, 0, f, n, s & 1 ? C : s & 2 ? I : P, s % 3 ? "" : "cb", s);
    for (int col : {0, 1, 2, 3, 60}) for (int c = -1; c < 6; c++) for (auto &v : vs) for (int t = -1; t < 6; t++) { std::vector<Cond2> q = {{col, c, v, t}}; request(op, &q, 0, -1, -1, I, ""); if (t < 0) for (ll f : lims) for (ll n : lims) request(op, &q, 0, f, n, c & 1 ? C : I, "", 2); }
    for (int c1 = 0; c1 < 3; c1++) for (int c2 = 0; c2 < 3; c2++) for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) for (size_t u = 0; u < vs.size(); u += 3) for (size_t w = 0; w < vs.size(); w += 2) { std::vector<Cond2> q = {{c1, a, vs[u], -1}, {c2, b, vs[w], -1}}; request(op, &q, 0, (ll)(u + w) % 4 - 1, (ll)(a + b) % 4 - 1, P, "", (int)(u & 2)); }
    std::vector<std::string> al; for (auto &r : recs) al.push_back(fmt("%ld", (long)r.id)); size_t nv = al.size();
    for (auto x : {"0", "8", "1", "abc", "-8", "99999999", "9223372036854775807", "99999999999999999999", "140000"}) al.push_back(x); al.push_back(fmt("%ld", (long)recs[1].id + 8)); al.push_back(fmt("%ld", (long)recs[1].id - 8)); al.push_back(fmt("%ld", (long)recs[1].id + 1)); al.push_back(fmt("%ldz", (long)recs[1].id)); al.push_back("");
    for (auto &a : al) { std::vector<std::string> l = {a}; for (ll n : lims) request(op, 0, &l, -1, n, I, ""); for (auto &b : al) { l = {a, b}; for (ll n : lims) request(op, 0, &l, -1, n, n > 0 ? P : I, n == 1 ? "cb" : ""); if (opts().has("deep")) for (auto &c : al) { l = {a, b, c}; request(op, 0, &l, -1, -1, I, ""); } } }
    (void)nv;
  }
}
static void profile_print() {
  build(valuesdb());
  for (int csv = 0; csv < 2; csv++) for (int e = 0; e < 3; e++) for (int id = 0; id < 2; id++) for (int d : {100, 0, 1, 2, 3, 5, -1, 20000}) for (const char *j : {"", "f", "a.b%28x", "cb_long_name_of_a_function"}) for (size_t k = 0; k <= recs.size(); k++) {
    Print P; P.csv = csv; P.esc = csv ? 3 : e; P.showid = id; P.depth = d;
    if (csv && e != 2) continue;
    if (*j == 'a') continue;
    if (!csv && e == 0 && (k == recs.size() || (k >= 2 && k <= 6) || k == 8)) continue; // nothing is escaped: the text is ambiguous
    if (d > 5 && !csv && (k >= 14 || k == recs.size())) { if (k != 14 || d != 100) continue; } // endless structures
    if (k < recs.size()) { std::vector<std::string> l = {fmt("%ld", (long)recs[k].id)}; request(1, 0, &l, -1, -1, P, j); }
    else request(1, 0, 0, -1, 14, P, j);
  }
  // no escaping: the bytes stand between the quotes as they are
  for (int k : {2, 4}) crun([&] { return fmt("unescaped row %d", k); }, [&] { reset(); std::string s = ask(fmt("op=search&escape=no&recids=%ld", (long)recs[k].id)); for (auto &v : recs[k].f) { std::string t = "\"" + (v.hasx ? v.x + ":" : std::string()) + v.s + "\""; MC_CHECK(s.find(t) != std::string::npos, "unescaped", "%s is not in %s", vis(t).c_str(), vis(s).c_str()); } });
  // every length of a text around the growth steps of the answer buffer, every position in the answer
  std::vector<std::vector<Val>> rows; for (int i = 0; i < 3; i++) rows.push_back({vStr("a")});
  int hi = opts().has("deep") ? 4200 : 2100;
  for (int n = 0; n < hi; n += n > 1100 && !opts().has("deep") ? 7 : 3) for (char ch : {'x', '"', '\x02'}) { rows[1] = {vStr(std::string(n, ch)), vStr("tail")}; crun([&] { return fmt("text of %d x%02x", n, ch); }, [&] { build(rows); Print P; for (int e = 1; e < 3; e++) { P.esc = e; std::string s = ask(fmt("op=search&escape=%s&jsonp=%s", e == 1 ? "url" : "json", std::string(n % 97, 'j').append("k").c_str())); Out r = readrows(s, P, std::string(n % 97, 'j') + "k", true), w; for (auto &x : recs) w.a.push_back(rowof(x, P, 0)); MC_CHECK(same(r, w), "rows", "%s", vis(s).c_str()); }
      P.csv = 1; std::string s = ask("op=search&format=csv"); Out r = readrows(s, P, "", true), w; for (auto &x : recs) w.a.push_back(rowof(x, P, 0)); MC_CHECK(same(r, w), "rows", "%s", vis(s).c_str()); }); }
  // many small rows, wide rows
  for (int n : {0, 1, 10, 100, 2000}) crun([&] { return fmt("%d rows", n); }, [&] { std::vector<std::vector<Val>> m; for (int i = 0; i < n; i++) m.push_back({vInt(i), vStr("r")}); build(m); for (int c = 0; c < 2; c++) { Print P; P.csv = c; std::string s = ask(c ? "op=search&format=csv" : "op=search"); Out r = readrows(s, P, "", true), w; for (auto &x : recs) w.a.push_back(rowof(x, P, 0)); MC_CHECK(same(r, w), "rows", "%s", vis(s).c_str()); } });
}
// a request of any form: an answer, all locks released, all detached, the database intact (unchanged unless it may be written)
static void anyreq(const std::string &q) {
  CC->run([&] { return vis(q); }, [&] { note(q); reset(); existing = {"1000", "2000"}; std::string s = ask(q);
    bool wr = trace_.find('W') != std::string::npos || trace_.find('C') != std::string::npos;
    if (wr) { try { fsck(db); } catch (Violation &v) { mc::fail("fsck", "the database is damaged: " + v.msg); } }
    else { MC_CHECK(unchanged(), "changed", "the database is changed (%s)", vis(s).c_str()); }
    return s.find("ERROR: ") == std::string::npos; });
}
static void profile_malformed(int depth) {
  build(rowsdb());
  static const char *T[] = {"op", "=", "&", "search", "count", "delete", "recids", "field", "value", "compare", "type", "from", "db", "fld", "format", "csv", "depth", "jsonp", "1", "1000", "%", "%4", "%41", ",", "-", "update", "insert", "rec", "drop", "create", "showid", "yes", "equal", "int", "token", "escape", "url", "size", "\xff", "+"};
  const int N = sizeof T / sizeof *T; std::string pre[] = {"", "op=search&", "op=count&field=0&", "op=delete&"};
  std::function<void(int, std::string)> rec = [&](int d, std::string s) { anyreq(s); if (d == 0) return; for (int i = 0; i < N; i++) rec(d - 1, s + T[i]); };
  for (auto &p : pre) rec(p.empty() ? depth : depth - 1, p);
  std::string rich[] = {"op=search&field=1&value=abc&compare=equal&type=str&from=0&count=3&format=json&escape=url&showid=yes&depth=2&jsonp=f&_=1&db=1000", "db=1000&op=delete&recids=" + fmt("%ld,%ld,5", (long)recs[1].id, (long)recs[5].id) + "&token=x", "op=create&db=5&size=100000", "op=drop&db=2000", "op=count&field=2&value=%32.%35&compare=lessthan&type=double&field=0&value=1&compare=gtequal", "op=update&fld=1&field=0&value=1", "op=insert&rec=%5b1%5d"};
  for (auto &r : rich) { for (size_t i = 0; i <= r.size(); i++) { anyreq(r.substr(0, i)); anyreq(r.substr(i)); if (i < r.size()) { anyreq(r.substr(0, i) + r.substr(i + 1)); for (char c : {'=', '&', '%', ',', '0', '9', 'z', '-', '\x80', '"'}) { std::string m = r; m[i] = c; anyreq(m); anyreq(r.substr(0, i) + c + r.substr(i)); } } } }
}
static void profile_limits() {
  build(rowsdb());
  for (int n = 1985; n <= 2015; n++) for (auto base : {"op=search&_=", "op=count&jsonp=", "op=", "jsonp=", "op=search&recids=", "op=search&field=1&value=", "x", "op=search&format=", "db="}) { std::string s = base; for (char c : {'a', '1', '%', ','}) { std::string t = s; while ((int)t.size() < n) t += c; anyreq(t); } }
  for (int n = 0; n < 1995; n += n < 300 ? 1 : 37) { std::string f(n, 'j'); for (auto o : {"op=search&jsonp=", "op=count&jsonp=", "op=create&db=7&jsonp=", "op=bad&jsonp=", "op=search&count=0&jsonp="}) anyreq(o + f); anyreq("op=search&" + f + "=1"); anyreq("op=search&format=" + f); anyreq("op=search&escape=" + f + "&jsonp=" + std::string(n % 50, 'p'));
    if (n > 0) crun([&] { return fmt("padding of %d", n); }, [&] { reset(); existing = {"1000"}; std::string s = ask("op=count&jsonp=" + f); Print P; Out r = readrows(s, P, f, false); MC_CHECK(r.s == fmt("%zu", recs.size()), "number", "%s", vis(s).c_str()); s = ask("op=search&count=1&jsonp=" + f); r = readrows(s, P, f, true); MC_CHECK(r.a.size() == 1, "rows", "%s", vis(s).c_str()); }); }
  for (int n = 0; n <= 130; n++) { for (auto p : {"&_=1", "&field=0&value=1", "&field=0", "&value=1", "&compare=equal", "&type=int", "&fld=1", "&recids=8", "&op=search", "&jsonp=a"}) { std::string s = "op=search"; for (int i = 0; i < n; i++) s += p; anyreq(s); } }
  for (int n : {999, 1000, 1001, 1002}) { std::string s = "op=search&recids="; for (int i = 0; i < n; i++) s += i ? ",1" : "1"; s.resize(std::min<size_t>(s.size(), 1999)); anyreq(s); s = "op=search&recids="; for (int i = 0; i < n && s.size() < 1998; i++) s += "1,"; anyreq(s); }
  // POST: the data is not followed by a zero in the request, the query processor owns the buffer
  post = true; for (auto q : {"op=search&count=1", "op=count&jsonp=ff", "op=bad&jsonp=ff", "op=search&format=x&jsonp=gg", "", "a", "op=search&field=x&jsonp=h&value=1", "op=count&field=0&value=1&compare=bad&jsonp=i", "op=delete", "op=create&db=9&jsonp=q", "op=drop&db=3&jsonp=r"}) crun([&] { return std::string("POST ") + q; }, [&] { reset(); existing = {"1000"}; std::string s = ask(q); const char *j = strstr(q, "jsonp="); if (j) { std::string f(j + 6, strcspn(j + 6, "&")); MC_CHECK(s.compare(0, f.size() + 1, f + "(") == 0, "padding", "the answer %s is not padded with %s", vis(s).c_str(), f.c_str()); } }); post = false;
}
// every failing allocation
static void profile_lowmem() {
#ifndef NOWRAP
  std::vector<std::vector<Val>> rows = rowsdb(); rows[1][1] = vStr(std::string(900, 'y')); for (int i = 0; i < 40; i++) rows.push_back({vInt(i), vStr(std::string(200, 'z'))}); build(rows);
  for (auto q : {"op=search", "op=search&format=csv", "op=count", "op=count&field=0&value=1&field=1&value=abc", "op=search&field=0&value=1", "op=search&field=0&value=100&compare=lessthan&field=1&value=b&compare=greater", "op=delete&field=0&value=1", "op=delete", "op=search&jsonp=cb&showid=yes", "op=bad", "op=search&field=0&value=2.5&type=double", "op=create&db=5", "op=drop&db=1000", "op=insert&rec=1", "op=search&bad=1"}) for (int m = 0; m < 2; m++) for (int n = 0; n < 60; n++) {
    bool reached = true; crun([&] { return fmt("%s, allocation %d%s fails", q, n, m ? " and all later ones" : ""); }, [&] { reset(); existing = {"1000"}; (m ? memctl::fail_from : memctl::fail_at) = n + 1; std::string s = ask(q, true); if (memctl::nalloc <= n + 1) reached = false; try { fsck(db); } catch (Violation &v) { mc::fail("fsck", v.msg); } if (trace_.find('W') == std::string::npos) MC_CHECK(unchanged(), "changed", "changed"); });
    if (!reached) break; }
#endif
}
// configuration texts in different layouts, and what they allow
static void freelst(struct sized_strlst &l) { if (l.size) free(l.vals); l.size = l.used = 0; }
static bool loadconf(const std::string &text, struct dserve_conf &c, int *code = 0) {
  FILE *f = fopen("conf.txt", "w"); fwrite(text.data(), 1, text.size(), f); fclose(f);
  memset(&c, 0, sizeof c); exitarmed = true; exitcode = -1; int r = 0;
  if (setjmp(exitjmp) == 0) r = load_configuration((char *)"conf.txt", &c);
  exitarmed = false; if (code) *code = exitcode; return exitcode == -1 && r == 0;
}
static const char *LN[] = {"default_dbase", "default_dbase_size", "max_dbase_size", "dbases", "admin_ips", "write_ips", "read_ips", "admin_tokens", "write_tokens", "read_tokens", "key_file", "cert_file"};
typedef std::vector<std::pair<std::string, std::vector<std::string>>> CF;
static std::string conftext(const CF &c, int lay) {
  std::string t; const char *nl = lay & 1 ? "\r\n" : "\n"; if (lay & 2) t += std::string("# comment = x") + nl + nl + "[section]" + nl;
  for (size_t i = 0; i < c.size(); i++) { bool first = true; std::string eq = lay & 4 ? " = " : "="; t += c[i].first + eq; if (lay & 8) { t += nl; first = false; }
    for (auto &v : c[i].second) { if (!first) t += lay & 16 ? "\t" : "   "; t += v; if (lay & 32) t += " # remark"; t += nl; first = false; if (lay & 64) t += nl; if (lay & 64) t += std::string("  # more") + nl; } if (c[i].second.empty() && first) t += nl; }
  if (lay & 128) while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back(); return t;
}
static void cmpconf(struct dserve_conf &c, const CF &want, const std::string &t) {
  for (int i = 0; i < 12; i++) { struct sized_strlst &l = (&c.default_dbase)[i]; std::vector<std::string> w; for (auto &p : want) if (p.first == LN[i]) w.insert(w.end(), p.second.begin(), p.second.end());
    std::vector<std::string> g; for (int k = 0; k < l.used; k++) g.push_back(l.vals[k]); std::string gs; for (auto &x : g) gs += x + "|"; MC_CHECK(g == w, "conf", "%s becomes %s from %s", LN[i], vis(gs).c_str(), vis(t).c_str()); }
}
static void profile_conf(int depth) {
  struct dserve_conf c;
  std::vector<std::vector<std::string>> lists = {{}, {"a"}, {"a", "bb"}, {"1", "2", "3", "4", "5"}};
  for (int lay = 0; lay < 256; lay++) for (size_t a = 0; a < lists.size(); a++) for (size_t b = 0; b < lists.size(); b++) for (int k = 0; k < 12; k += 3) { CF f = {{LN[k], lists[a]}, {LN[(k + 4) % 12], lists[b]}, {LN[(k + 1) % 12], {"z"}}}; std::string t = conftext(f, lay); crun([&] { return vis(t); }, [&] { MC_CHECK(loadconf(t, c), "conf-refused", "%s is refused (exit %d)", vis(t).c_str(), exitcode); cmpconf(c, f, t); }); }
  std::vector<int> sizes; for (int n : {1000, 2000, 4000, 8000, 512000, 1024000}) for (int d = -2; d <= 2; d++) sizes.push_back(n + d);
  for (int n : sizes) crun([&] { return fmt("configuration of %d bytes", n); }, [&] { CF f = {{"admin_ips", {"127.0.0.1", "10."}}, {"dbases", {"1000"}}}; std::string t = conftext(f, 0); std::string pad; while ((int)(pad.size() + t.size()) < n) pad += (pad.size() % 70 == 69) ? "\n" : "#"; if (!pad.empty()) pad.back() = '\n'; t = pad + t; MC_CHECK(loadconf(t, c), "conf-refused", "refused"); cmpconf(c, f, t.substr(t.size() - 60)); });
  static const char *T[] = {"dbases", "=", " ", "\n", "#", "a", "[", "\r", "\t", "read_ips", "x\0y"}; const int N = 11;
  std::function<void(int, std::string)> rec = [&](int d, std::string s) { crun([&] { return vis(s); }, [&] { note(s); loadconf(s, c); MC_CHECK(exitcode == -1 || exitcode == ERR_EX_CONFIG, "exit", "exit code %d", exitcode); for (int i = 0; exitcode == -1 && i < 12; i++) { struct sized_strlst &l = (&c.default_dbase)[i]; for (int k = 0; k < l.used; k++) MC_CHECK(strlen(l.vals[k]) <= s.size(), "conf", "too long"); } }); if (d) for (int i = 0; i < N; i++) rec(d - 1, s + (i == 10 ? std::string("x\0y", 3) : std::string(T[i]))); };
  rec(depth, "");
}
static bool listed(const std::vector<std::string> &l, const std::string &s, bool prefix) { for (auto &x : l) if (prefix ? s.compare(0, x.size(), x) == 0 : s == x) return true; return false; }
static void profile_auth(bool deep) {
  build(rowsdb()); typedef std::vector<std::string> L;
  std::vector<L> ips = {{}, {"10.0.0.1"}, {"10.0"}, {"10.0.0.1", "11.0.0.2"}}, toks = {{}, {"t1"}, {"t2"}, {"t1", "t2"}}, dbl = {{}, {"1000"}, {"2000", "1000"}};
  if (!deep) { ips.pop_back(); toks.pop_back(); }
  const char *IP[] = {"10.0.0.1", "10.0.0.15", "11.0.0.2"}, *TK[] = {"", "t1", "t2"}, *OPS[] = {"count", "delete&field=0&value=77", "create&size=200000", "drop"}, *DBS[] = {"", "1000", "2000", "3000"};
  for (auto &ai : ips) for (auto &wi : ips) for (auto &ri : ips) for (auto &at : toks) for (auto &wt : toks) for (auto &rt : toks) for (auto &dl : dbl) {
    CF f = {{"admin_ips", ai}, {"write_ips", wi}, {"read_ips", ri}, {"admin_tokens", at}, {"write_tokens", wt}, {"read_tokens", rt}, {"dbases", dl}};
    crun([&] { return vis(conftext(f, 0)); }, [&] {
      struct dserve_conf c; MC_CHECK(loadconf(conftext(f, 0), c), "conf-refused", "refused"); glob.conf = &c;
      struct G { ~G() { glob.conf = &conf0; td->ip = (char *)"127.0.0.1"; } } g;
      for (auto ip : IP) for (auto tk : TK) for (int op = 0; op < 4; op++) for (auto d : DBS) {
        int lev = op == 0 ? 2 : op == 1 ? 1 : 0; if (op >= 2 && !*d) continue;
        std::string dbn = *d ? d : "1000"; auto okl = [&](const L &a, const L &w, const L &r, const std::string &s, bool pre) { if (a.empty() || listed(a, s, pre)) return true; if (lev >= 1 && (w.empty() || listed(w, s, pre))) return true; return lev >= 2 && (r.empty() || listed(r, s, pre)); };
        bool indb = dl.empty() || listed(dl, dbn, false), ok = indb && okl(ai, wi, ri, ip, true) && okl(at, wt, rt, tk, false);
        if (ok && !*tk) { bool open = at.empty() || (lev >= 1 && wt.empty()) || (lev >= 2 && rt.empty()); ok = open; }
        std::string q = std::string("op=") + OPS[op] + (*d ? std::string("&db=") + d : "") + (*tk ? std::string("&token=") + tk : "");
        td->ip = (char *)ip; reset(); existing = {"1000", "2000", "3000"}; note(q); std::string s = ask(q); bool acted = trace_.find_first_of(op == 0 ? "R" : op == 1 ? "W" : op == 2 ? "C" : "X") != std::string::npos;
        MC_CHECK(acted == ok, "authorize", "%s from %s is %s", q.c_str(), ip, acted ? "carried out" : "refused");
        MC_CHECK((s.find("ERROR") == std::string::npos) == ok, "authorize-answer", "%s from %s answers %s", q.c_str(), ip, vis(s).c_str());
        if (!ok) { MC_CHECK(trace_.find_first_of("RWCX") == std::string::npos, "authorize", "%s from %s touches the database (%s)", q.c_str(), ip, trace_.c_str()); }
        else { MC_CHECK(lastname == dbn, "database", "%s works on database %s", q.c_str(), lastname.c_str()); if (op == 2) MC_CHECK(lastsize == 200000, "size", "created with size %lld", lastsize); }
        stats().transitions++;
      }
      for (int i = 0; i < 12; i++) freelst((&c.default_dbase)[i]);
    });
  }
  // sizes of new databases, default database
  for (auto dd : {"", "500"}) for (auto ds : {"", "0", "300000"}) for (auto mx : {"", "0", "250000", "2000000"}) for (auto sz : {"", "0", "-5", "x", "200000", "1000000", "1500000000"}) {
    CF f; if (*dd) f.push_back({"default_dbase", {dd}}); if (*ds) f.push_back({"default_dbase_size", {ds}}); if (*mx) f.push_back({"max_dbase_size", {mx}});
    f.push_back({"read_ips", {"1"}});
    crun([&] { return vis(conftext(f, 0)) + " create size " + sz; }, [&] { struct dserve_conf c; MC_CHECK(loadconf(conftext(f, 0), c), "conf-refused", "refused"); glob.conf = &c; struct G { ~G() { glob.conf = &conf0; } } g;
      reset(); existing = {"500", "1000"}; std::string s = ask(std::string("op=create&db=7") + (*sz ? std::string("&size=") + sz : "")); ll max = *mx ? atoll(mx) : MAX_DATABASE_SIZE, size = *sz ? atoll(sz) : *ds ? atoll(ds) : DEFAULT_DATABASE_SIZE; bool ok = size > 0 && size <= max; bool made = trace_.find('C') != std::string::npos;
      MC_CHECK(made == ok && (s.find("ERROR") == std::string::npos) == ok, "create-size", "size %s: %s", sz, vis(s).c_str()); if (ok) MC_CHECK(lastsize == size && lastname == "7", "create-size", "created %s of %lld bytes", lastname.c_str(), lastsize);
      s = ask("op=count"); MC_CHECK(lastname == (*dd ? dd : "1000"), "default-database", "works on %s", lastname.c_str()); });
  }
}
// requests over a real connection, several in turn on one thread of the pool
static int lsock = -1; static sockaddr_in laddr;
static int connect1(int *srv) { if (lsock < 0) { lsock = socket(AF_INET, SOCK_STREAM, 0); memset(&laddr, 0, sizeof laddr); laddr.sin_family = AF_INET; laddr.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (bind(lsock, (sockaddr *)&laddr, sizeof laddr) || listen(lsock, 16)) { perror("listen"); _exit(3); } socklen_t n = sizeof laddr; getsockname(lsock, (sockaddr *)&laddr, &n); }
  int c = socket(AF_INET, SOCK_STREAM, 0); if (connect(c, (sockaddr *)&laddr, sizeof laddr)) { perror("connect"); _exit(3); } *srv = accept(lsock, 0, 0); if (*srv < 0) { perror("accept"); _exit(3); } linger l{1, 0}; setsockopt(c, SOL_SOCKET, SO_LINGER, &l, sizeof l); return c; }
static std::vector<std::string> talk(const std::vector<std::string> &reqs, bool pool) {
  attached = 0; lockkind = 0; trace_.clear();
  std::vector<int> cs, ss; for (auto &r : reqs) { int s, c = connect1(&s); ssize_t k = send(c, r.data(), r.size(), MSG_NOSIGNAL); if (k != (ssize_t)r.size()) { perror("send"); _exit(3); } shutdown(c, SHUT_WR); cs.push_back(c); ss.push_back(s); }
  std::vector<common_task_t> qu(reqs.size() + 1); std::vector<std::string> ans(reqs.size());
  memset(&common_, 0, sizeof common_); pthread_mutex_init(&common_.mutex, 0); pthread_cond_init(&common_.cond, 0);
  auto rd = [&](int i) { char b[4096]; ssize_t k; while ((k = recv(cs[i], b, sizeof b, 0)) > 0) ans[i].append(b, k); };
  if (pool) { td->realthread = 2; common_.queue = qu.data(); common_.queue_size = qu.size(); for (size_t i = 0; i < ss.size(); i++) qu[i].conn = ss[i]; common_.tail = ss.size(); common_.count = ss.size();
    pthread_t t; pthread_create(&t, 0, handle_http, td); for (size_t i = 0; i < cs.size(); i++) rd(i);
    for (;;) { pthread_mutex_lock(&common_.mutex); bool idle = common_.count == 0; if (idle) common_.shutdown = 1; pthread_cond_broadcast(&common_.cond); pthread_mutex_unlock(&common_.mutex); if (idle) break; usleep(100); }
    pthread_join(t, 0); }
  else { td->realthread = 0; for (size_t i = 0; i < ss.size(); i++) { td->conn = ss[i]; handle_http(td); rd(i); } }
  td->realthread = 0; for (int c : cs) close(c); return ans;
}
static std::string body(const std::string &a) { // checks the header, returns the body
  size_t h = a.find("\r\n\r\n"); MC_CHECK(h != std::string::npos && a.compare(0, 9, "HTTP/1.0 ") == 0, "http", "no http header in %s", vis(a).c_str());
  size_t l = a.find("Content-Length:"); MC_CHECK(l != std::string::npos && l < h, "http", "no content length"); ll n = atoll(a.c_str() + l + 15); std::string b = a.substr(h + 4); MC_CHECK(n == (ll)b.size(), "http", "content length %lld of %zu bytes", n, b.size()); return b; }
static std::string post_(const std::string &d, const std::string &hdr = "") { return "POST /dserve HTTP/1.0\r\nHost: x\r\n" + hdr + fmt("Content-Length: %zu\r\n\r\n", d.size()) + d; }
static void profile_http() {
  build(rowsdb()); signal(SIGPIPE, SIG_IGN); existing = {"1000"};
  std::string big = "GET /dserve?op=search HTTP/1.0\r\n\r\n";
  // requests and whether they must give data (the expected body) or an error
  struct R { std::string text, want; }; std::vector<R> rs;
  std::string cnt = fmt("%zu", recs.size());
  rs.push_back({"GET /dserve?op=count HTTP/1.0\r\nHost: a\r\n\r\n", cnt}); rs.push_back({"GET /dserve?op=count&field=0&value=1 HTTP/1.1\r\n\r\n", "2"}); rs.push_back({"GET /dserve?op=count&jsonp=f HTTP/1.1\n\n", "f(" + cnt + ");"});
  rs.push_back({post_("op=count&field=0&value=1", "Content-Type: application/x-www-form-urlencoded\r\n"), "2"}); rs.push_back({post_("op=count&jsonp=gg"), "gg(" + cnt + ");"}); rs.push_back({post_("op=bad&jsonp=hh"), "!hh("});
  for (auto t : {"GET /dserve HTTP/1.0\r\n\r\n", "GET /dserve? HTTP/1.0\r\n\r\n", "GET / HTTP/1.0\r\n\r\n", "GET /dserve?op=count\r\n\r\n", "GET\r\n", "GET  \r\n", "\r\n", "", "x", "PUT /dserve?op=count HTTP/1.0\r\n\r\n", "POST /dserve HTTP/1.0\r\n\r\n", "POST /dserve HTTP/1.0\r\nContent-Length: 8\r\n\r\n", "POST /dserve HTTP/1.0\r\nContent-Length: -5\r\n\r\nop=count", "POST /dserve HTTP/1.0\r\nContent-Length: 999999999\r\n\r\nop=count", "POST /dserve HTTP/1.0\r\nContent-Length: 8", "GET /?op=nothing HTTP/1.0\r\n\r\n", " GET /?op=count HTTP/1.0\r\n\r\n", "POST\r\n"}) rs.push_back({t, "!"});
  auto chk = [&](const R &r, const std::string &a) { std::string b = body(a); if (r.want[0] == '!') { MC_CHECK(b.find("ERROR") != std::string::npos, "http-accepted", "%s is answered with %s", vis(r.text).c_str(), vis(b).c_str()); MC_CHECK(b.compare(0, r.want.size() - 1, r.want.substr(1)) == 0, "http-answer", "%s is answered with %s", vis(r.text).c_str(), vis(b).c_str()); } else MC_CHECK(b == r.want, "http-answer", "%s is answered with %s instead of %s", vis(r.text).c_str(), vis(b).c_str(), r.want.c_str());
    MC_CHECK(attached == 0 && !lockkind && trace_.find('!') == std::string::npos, "http-state", "locks or attachments left (%s)", trace_.c_str()); };
  for (int pool = 0; pool < 2; pool++) for (auto &r : rs) for (auto &s : rs) crun([&] { return (pool ? "pool: " : "single: ") + vis(r.text) + " then " + vis(s.text); }, [&] { note(r.text + s.text); reset(); std::vector<std::string> a = talk({r.text, s.text}, pool); chk(r, a[0]); chk(s, a[1]); });
  // every prefix of a request; every length of the first line around the limits; large answers
  for (auto &full : {rs[1].text, rs[3].text}) for (size_t i = 0; i < full.size(); i++) crun([&] { return "cut: " + vis(full.substr(0, i)); }, [&] { reset(); std::vector<std::string> a = talk({full.substr(0, i), rs[0].text}, true); std::string b = body(a[0]); MC_CHECK(b.find("ERROR") != std::string::npos || b == "2" || b == cnt || b.size() < 3, "http-answer", "%s", vis(b).c_str()); chk(rs[0], a[1]); });
  for (int n : {1990, 1999, 2000, 2001, 2010, 9980, 9998, 9999, 10000, 10001, 20000}) for (int k = 0; k < 3; k++) crun([&] { return fmt("line of %d, kind %d", n, k); }, [&] { reset(); std::string p = k == 0 ? "GET /?op=count&_=" : k == 1 ? "GET /" : "G"; while ((int)p.size() < n) p += 'a'; std::vector<std::string> a = talk({p + " HTTP/1.0\r\n\r\n", rs[0].text}, true); body(a[0]); chk(rs[0], a[1]); });
  for (int n : {1999, 2000, 2001, 5000}) crun([&] { return fmt("post of %d", n); }, [&] { reset(); std::string p = "op=count&_="; while ((int)p.size() < n) p += 'a'; std::vector<std::string> a = talk({post_(p), rs[0].text}, true); std::string b = body(a[0]); MC_CHECK(n > 2000 ? b.find("ERROR") != std::string::npos : b == cnt, "http-answer", "%s", vis(b).c_str()); chk(rs[0], a[1]); });
  for (int n : {5, 100, 1000, 3000}) crun([&] { return fmt("answer of %d rows", n); }, [&] { std::vector<std::vector<Val>> m; for (int i = 0; i < n; i++) m.push_back({vInt(i), vStr("row of text")}); build(m); std::vector<std::string> a = talk({big, big}, true); for (auto &x : a) { std::string b = body(x); Print P; Out r = readrows(b, P, "", true); MC_CHECK((int)r.a.size() == n, "rows", "%zu rows", r.a.size()); } build(rowsdb()); });
}
int main(int argc, char **argv) {
  init(argc, argv); std::string p = opts().str("profile", "search"); int depth = (int)opts().num("depth", 3);
  glob.conf = &conf0; glob.maxthreads = 1; td = &glob.threads_data[0]; td->isserver = 1; td->ip = (char *)"127.0.0.1"; td->common = &common_; td->global = &glob; td->method = 1; globalptr = &glob; existing = {"1000"};
  { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); }
  watchdog(); Cases C; CC = &C;
  if (p == "search") profile_search(); else if (p == "print") profile_print(); else if (p == "malformed") profile_malformed(depth); else if (p == "limits") profile_limits(); else if (p == "lowmem") profile_lowmem(); else if (p == "conf") profile_conf(depth); else if (p == "auth") profile_auth(opts().has("deep")); else if (p == "http") profile_http();
  return finish(C.failed());
}
