// C37: the command line tool. Sequences of command lines are given to the real main() of wgdb; after each one the contents
// of every database, the printed output, the lock and the attachments are compared with a model.
#include <climits>
#include <csetjmp>
#include <map>
#include <set>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include "mc.h"
#include "wgdb.h"
#include "order.h"
using namespace mc;
extern "C" int wgdb_main(int, char **);
// ---- stand-ins for shared memory: named local databases
struct Seg { void *db = 0; ll size = 0; int mode = 0; };
static std::map<std::string, Seg> segs; static int attached; static std::set<void *> given; static std::string trace_; static int lockkind; static bool lockfail, refused, nomem; static H128 lockimg; static void *lockdb;
static std::string unlocked; // a change seen while no write lock was held
static std::map<void *, H128> quiet;
static void look() { for (auto &s : segs) if (s.second.db && !(lockkind == 'w' && lockdb == s.second.db)) { H128 h{1, 2}; img_hash(s.second.db, h); auto q = quiet.find(s.second.db); if (q != quiet.end() && !(q->second == h)) unlocked = "database " + s.first; } }
static void settle(void *d) { H128 h{1, 2}; img_hash(d, h); quiet[d] = h; }
static std::string nm(const char *n) { return n ? n : "1000"; }
static ll lastmin, lastmax; static int lastlog, lastmode, lastcreate;
static void *mk(const std::string &n, ll size, int mode, int logging) {
  if (!size) size = 600000;
  void *d = wg_attach_local_database(size); if (!d) return 0;
  HDR(d)->key = atoi(n.c_str());
#ifdef USE_DBLOG
  wg_log_umask(d, 0177); if (logging && wg_start_logging(d)) { wg_delete_local_database(d); return 0; }
#endif
  Seg s; s.db = d; s.size = size; s.mode = mode; segs[n] = s; settle(d); return d;
}
extern "C" {
void *__wrap_wg_attach_memsegment(const char *n, gint mn, gint mx, int create, int logging, int mode) {
  trace_ += "A"; lastmin = mn; lastmax = mx; lastlog = logging; lastmode = mode; lastcreate = create; if (mx < mn) mx = mn;
  auto i = segs.find(nm(n)); void *d;
  if (i != segs.end()) { if (mn && HDR(i->second.db)->size < mn) return 0;
#ifdef USE_DBLOG
    if (logging && !HDR(i->second.db)->logging.active) return 0;
#endif
    d = i->second.db; }
  else { if (!create || mx > 6000000) return 0; d = mk(nm(n), mx, mode, logging); if (!d) return 0; }
  attached++; given.insert(d); return d; }
void *__wrap_wg_attach_existing_database(char *n) { return __wrap_wg_attach_memsegment(n, 0, 0, 0, 0, 0); }
void *__wrap_wg_attach_database(char *n, gint size) { return __wrap_wg_attach_memsegment(n, size, size, 1, 0, 0); }
int __wrap_wg_detach_database(void *d) { look(); trace_ += "D"; attached--; if (lockkind) trace_ += "!"; given.erase(d); return 0; }
int __wrap_wg_delete_database(char *n) { trace_ += "X"; auto i = segs.find(nm(n)); if (i == segs.end()) return -1; quiet.erase(i->second.db);
#ifdef USE_DBLOG
  if (HDR(i->second.db)->logging.active) wg_stop_logging(i->second.db);
#endif
  wg_delete_local_database(i->second.db); segs.erase(i); return 0; }
gint __real_wg_start_read(void *); gint __real_wg_end_read(void *, gint); gint __real_wg_start_write(void *); gint __real_wg_end_write(void *, gint);
gint __wrap_wg_start_read(void *d) { look(); if (lockkind) trace_ += "!"; if (lockfail) { refused = true; return 0; } gint r = __real_wg_start_read(d); if (r) { lockkind = 'r'; lockdb = d; trace_ += "R"; settle(d); } return r; }
gint __wrap_wg_end_read(void *d, gint l) { look(); if (lockkind != 'r') trace_ += "!"; lockkind = 0; trace_ += "r"; gint r = __real_wg_end_read(d, l); settle(d); return r; }
gint __wrap_wg_start_write(void *d) { look(); if (lockkind) trace_ += "!"; if (lockfail) { refused = true; return 0; } gint r = __real_wg_start_write(d); if (r) { lockkind = 'w'; lockdb = d; trace_ += "W"; settle(d); } return r; }
gint __wrap_wg_end_write(void *d, gint l) { if (lockkind != 'w') trace_ += "!"; lockkind = 0; trace_ += "w"; gint r = __real_wg_end_write(d, l); settle(d); return r; }
void *__real_wg_get_first_record(void *); void *__real_wg_fetch(void *, wg_query *); void *__real_wg_get_next_record(void *, void *);
static bool harness;
void *__wrap_wg_get_first_record(void *d) { if (!harness && !lockkind) trace_ += "!"; return __real_wg_get_first_record(d); }
void *__wrap_wg_get_next_record(void *d, void *r) { if (!harness && !lockkind) trace_ += "!"; return __real_wg_get_next_record(d, r); }
void *__wrap_wg_fetch(void *d, wg_query *q) { if (!harness && !lockkind) trace_ += "!"; return __real_wg_fetch(d, q); }
gint __real_wg_import_dump(void *, char *);
gint __wrap_wg_import_dump(void *d, char *f) { look(); gint r = __real_wg_import_dump(d, f); settle(d); trace_ += "I"; return r; }
gint __real_wg_dump(void *, char *); gint __real_wg_dump_internal(void *, char *, int); static int unlockeddump;
gint __wrap_wg_dump(void *d, char *f) { look(); gint r = __real_wg_dump(d, f); settle(d); trace_ += "E"; return r; }
gint __wrap_wg_dump_internal(void *d, char *f, int l) { look(); gint r = __real_wg_dump_internal(d, f, l); settle(d); trace_ += l ? "E" : "F"; return r; }
int __wrap_wg_memmode(void *d) { for (auto &s : segs) if (s.second.db == d) return s.second.mode ? s.second.mode : 0600; return -1; }
int __wrap_wg_memowner(void *) { return 0; }
int __wrap_wg_memgroup(void *) { return 0; }
static jmp_buf exitjmp; static bool exitarmed; static int exitcode;
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) { if (exitarmed) { exitcode = c; longjmp(exitjmp, 1); } __real_exit(c); }
}
// ---- running a command
typedef std::vector<std::string> Cmd; typedef std::vector<Val> Row;
static std::string outs, errs; static int fdo, fde, keepo, keepe; static bool reached;
static std::string slurp(int fd) { std::string r; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); return r; }
static std::string show(const Cmd &c) { std::string r = "wgdb"; for (auto &a : c) { bool q = a.empty() || a.find_first_of(" <>=!\"{}") != std::string::npos; r += " " + (q ? "'" + a + "'" : a); } return r; }
static void run(const Cmd &c) {
  std::vector<char *> v; std::vector<std::string> k(c); static char prog[] = "wgdb"; v.push_back(prog); for (auto &s : k) { char *b = (char *)malloc(s.size() + 1); memcpy(b, s.c_str(), s.size() + 1); v.push_back(b); } v.push_back(0);
  trace_.clear(); attached = 0; lockkind = 0; unlocked.clear(); given.clear(); lastmin = lastmax = lastlog = lastmode = -1;
  for (auto &s : segs) settle(s.second.db);
  fflush(stdout); fflush(stderr); if (ftruncate(fdo, 0) || ftruncate(fde, 0)) _exit(3); lseek(fdo, 0, SEEK_SET); lseek(fde, 0, SEEK_SET); dup2(fdo, 1); dup2(fde, 2);
  exitcode = -1; exitarmed = true; if (!setjmp(exitjmp)) { errno = 0; rewind(stdin); int r = wgdb_main(v.size() - 1, v.data()); exitcode = 1000 + r; } exitarmed = false;
  fflush(stdout); fflush(stderr); dup2(keepo, 1); dup2(keepe, 2); outs = slurp(fdo); errs = slurp(fde);
  for (size_t i = 1; i + 1 < v.size(); i++) free(v[i]);
}
// ---- model
struct Db { std::vector<Row> rows; std::vector<int> tt; std::vector<std::vector<int>> hashes; std::vector<std::string> docs; ll size = 0; int mode = 0; bool log = false; };
static std::map<std::string, std::string> jsons; static std::map<std::string, std::vector<std::string>> finds; // json files; queries and the texts a document must contain to match
struct Dump { Db m; bool have = false; };
typedef std::map<std::string, Db> Model;
static Model M; static std::map<std::string, Dump> dumps; static std::map<std::string, std::vector<Row>> csvs; static std::map<std::string, std::vector<int>> ids; // index ids per database as listed
static Val typed(const std::string &s) { // the values used in the commands
  static std::map<std::string, Val> T;
  if (T.empty()) { T[""] = vNull(); for (const char *n : {"0", "1", "2", "5", "-7", "10", "100", "1000000000000"}) T[n] = vInt(atoll(n)); T["2.5"] = vDbl(2.5); T["-0.25"] = vDbl(-0.25); T["1e3"] = vStr("1e3"); T["2010-05-08"] = vDate(733900); T["12:30:01"] = vTime(4500100); }
  auto i = T.find(s); return i == T.end() ? vStr(s) : i->second;
}
static std::string pv(const Val &v) {
  switch (v.t) { case V_NULL: return "NULL"; case V_INT: return fmt("%lld", v.i); case V_DBL: return fmt("%f", v.d); case V_STR: return "\"" + v.s + "\""; case V_DATE: return fmt("<raw date %lld>2010-05-08", v.i); case V_TIME: return fmt("<raw time %lld>12:30:01.00", v.i); }
  return "?";
}
static std::string pr(const Row &r) { std::string s = "["; for (size_t i = 0; i < r.size(); i++) s += (i ? "," : "") + pv(r[i]); return s + "]"; }
static std::vector<std::string> prs(const std::vector<Row> &r) { std::vector<std::string> o; for (auto &x : r) o.push_back(pr(x)); return o; }
static std::vector<std::string> lines(const std::string &s) { std::vector<std::string> r; std::string c; for (char x : s) { if (x == '\n') { r.push_back(c); c.clear(); } else c += x; } if (!c.empty()) r.push_back(c); return r; }
static std::vector<Row> scan(void *d) { harness = true; std::vector<Row> o; for (void *r = wg_get_first_record(d); r; r = wg_get_next_record(d, r)) { Row w; gint n = wg_get_record_len(d, r); for (gint i = 0; i < n; i++) w.push_back(dec_val(d, wg_get_field(d, r, i))); o.push_back(w); } harness = false; return o; }
static std::vector<std::string> sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; }
static std::string joined(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + "\n"; return s; }
static std::string vis(const std::string &s) { std::string r; for (unsigned char c : s.substr(0, 300)) r += c == '\n' ? std::string("\\n") : c >= 32 && c < 127 ? std::string(1, c) : fmt("\\x%02x", c); return r; }
static bool num(const std::string &s, ll &n) { if (s.empty()) return false; size_t i = s[0] == '-'; if (i == s.size() || s.size() > 9) return false; for (size_t j = i; j < s.size(); j++) if (!isdigit((unsigned char)s[j])) return false; n = atoll(s.c_str()); return true; }
struct Cond { int col, op; Val v; };
static bool conds(const Cmd &a, std::vector<Cond> &o) {
  static std::map<std::string, int> ops = {{"=", WG_COND_EQUAL}, {"!=", WG_COND_NOT_EQUAL}, {"<", WG_COND_LESSTHAN}, {">", WG_COND_GREATER}, {"<=", WG_COND_LTEQUAL}, {">=", WG_COND_GTEQUAL}};
  if (a.empty() || a.size() % 3) return false;
  for (size_t i = 0; i < a.size(); i += 3) { ll c; if (!num(a[i], c) || c < 0 || !ops.count(a[i + 1])) return false; o.push_back({(int)c, ops[a[i + 1]], typed(a[i + 2])}); }
  return true;
}
static bool holds(const Row &r, const std::vector<Cond> &cs) {
  for (auto &c : cs) { if (c.col < 0 || c.col >= (int)r.size()) return false; int o = vcmp(r[c.col], c.v); bool k = c.op == WG_COND_EQUAL ? o == 0 : c.op == WG_COND_NOT_EQUAL ? o != 0 : c.op == WG_COND_LESSTHAN ? o < 0 : c.op == WG_COND_GREATER ? o > 0 : c.op == WG_COND_LTEQUAL ? o <= 0 : o >= 0; if (!k) return false; }
  return true;
}
#ifdef USE_DBLOG
static const bool canlog = true;
#else
static const bool canlog = false;
#endif
static std::string HIST;
#define BAD(sig, ...) fail(sig, HIST + ": " + fmt(__VA_ARGS__))
struct Exp { std::string out; bool sortout = false; int err = 0; /* 0 none, 1 some message, 2 either */ bool usage = false; int code = 0; bool anyout = false, nospace = false; std::string has; };
static bool exists(const std::string &n) { return M.count(n); }
static Db &open(const std::string &n) { if (!exists(n)) M[n].size = 600000; return M[n]; }
static bool iscmd(const std::string &s) { if (s == "replay" && !canlog) return false; static std::set<std::string> k = {"help", "-h", "version", "-v", "free", "import", "export", "replay", "exportcsv", "importcsv", "info", "create", "select", "add", "del", "query", "addjson", "findjson", "createindex", "createhash", "dropindex", "listindex"}; return k.count(s); }
static bool indexhas(const Db &d, int c) { for (int x : d.tt) if (x == c) return true; return false; }
static std::map<std::string, std::vector<Row>> before; // scan order before the command
static Exp noattach() { Exp e; e.err = 1; e.code = 1; return e; }
static Exp expect(const Cmd &full) {
  Exp e; Cmd c = full; std::string n = "1000";
  if (!c.empty() && !iscmd(c[0])) { n = c[0]; c.erase(c.begin()); }
  if (c.empty() || !iscmd(c[0])) { e.usage = true; return e; }
  std::string k = c[0]; Cmd a(c.begin() + 1, c.end()); ll x;
  if (k == "help" || k == "-h") { e.usage = true; return e; }
  if (k == "version" || k == "-v") { e.anyout = true; e.has = "libwgdb version: "; return e; }
  if (k == "free") { M.erase(n); return e; }
  if (k == "create") {
    bool log = false; size_t i = 0; if (i < a.size() && a[i][0] == '-') { log = canlog && a[i] == "-l"; if (a[i] != "-l" && a[i] != "-f") e.err = 1; i++; }
    ll size = 0; if (i < a.size()) { char *t; size = strtoll(a[i].c_str(), &t, 10); ll m = *t == 'k' || *t == 'K' ? 1000 : *t == 'm' || *t == 'M' ? 1000000 : *t == 'g' || *t == 'G' ? 1000000000 : 1; if ((double)size * m > 9e18) return noattach(); size *= m; if (size < 0) size = 0; if (!size) e.err = 1; i++; }
    int mode = 0; if (i < a.size()) { char *t; ll v = strtoll(a[i].c_str(), &t, 8); if (*t || v <= 0 || v > 0777) e.err = 1; else mode = v; }
    if (exists(n)) { if ((size && M[n].size < size) || (log && !M[n].log)) return noattach(); return e; }
    if (size > 6000000 || (size && size < 150000)) return noattach();
    Db d; d.size = size ? size : 600000; d.mode = mode; d.log = log; M[n] = d; return e;
  }
  if (k == "info") { if (!exists(n)) return noattach(); Db &d = M[n]; size_t ni = d.tt.size() + d.hashes.size(); e.anyout = true; e.has = "database has " + (ni == 0 ? std::string("no indexes\n") : ni == 1 ? "1 index\n" : fmt("%d indexes\n", (int)ni)); return e; }
  if (k == "listindex") { Db &d = open(n); e.anyout = true; if (d.tt.empty() && d.hashes.empty()) e.has = "No indexes in the database.\n"; return e; }
  if (a.empty() && k != "addjson") { e.usage = true; return e; }
  if (k == "select") {
    if (!num(a[0], x) || !x) { e.err = 1; e.code = 1; return e; } ll from = 0; if (a.size() > 1 && !num(a[1], from)) from = 0;
    if (!exists(n)) return noattach(); auto r = before[n]; std::vector<std::string> o; for (ll i = std::max(from, 0LL); i < (ll)r.size() && (x < 0 || (ll)o.size() < x); i++) o.push_back(pr(r[i])); e.out = joined(o); return e;
  }
  if (k == "add") { Row r; for (auto &s : a) r.push_back(typed(s)); open(n).rows.push_back(r); e.out = "Row added.\n"; return e; }
  if (k == "query" || k == "del") {
    if (a.size() < (k == "query" ? 3 : 2)) { e.usage = true; return e; }
    if (!exists(n)) return noattach(); std::vector<Cond> cs; if (!conds(a, cs)) { e.err = 1; return e; }
    std::vector<std::string> o; std::vector<Row> left; for (auto &r : before[n]) { if (holds(r, cs)) o.push_back(pr(r)); else left.push_back(r); }
    if (k == "query") { e.out = joined(o); bool ix = false; for (auto &c : cs) ix |= indexhas(M[n], c.col); e.sortout = ix; return e; }
    M[n].rows = left; if (o.size()) e.out = fmt("Deleting %d rows... done\n", (int)o.size()); return e;
  }
  if (k == "createindex") { Db &d = open(n); if (!num(a[0], x) || x < 0 || x > MAX_INDEXED_FIELDNR) { e.err = 1; return e; } if (indexhas(d, x)) { e.err = 1; return e; } d.tt.push_back(x); e.err = 2; return e; }
  if (k == "createhash") { Db &d = open(n); std::vector<int> cols; bool ok = a.size() <= MAX_INDEX_FIELDS; for (auto &s : a) { if (!num(s, x) || x < 0 || x > MAX_INDEXED_FIELDNR) ok = false; cols.push_back(x); }
    std::sort(cols.begin(), cols.end()); for (size_t i = 1; i < cols.size(); i++) if (cols[i] == cols[i - 1]) ok = false; if (ok) for (auto &h : d.hashes) if (h == cols) ok = false;
    if (!ok) { e.err = 1; return e; } d.hashes.push_back(cols); e.err = 2; return e; }
  if (k == "dropindex") { Db &d = open(n); auto &id = ids[n]; if (num(a[0], x) && x > 0) for (size_t i = 0; i < id.size() && i < d.tt.size(); i++) if (id[i] == x) { d.tt.erase(d.tt.begin() + i); id.erase(id.begin() + i); e.out = "Index dropped.\n"; return e; } e.err = 1; return e; }
  if (k == "replay") { Db &d = open(n); if (a[0] != "wgdb.journal.1000" || access(a[0].c_str(), R_OK)) { e.err = 1; return e; } d.rows = M["1000"].rows; e.out = "Log suggessfully imported from file.\n"; return e; }
  if (k == "addjson") { Db &d = open(n); std::string f = a.size() ? a[0] : "stdin"; if (!a.empty() && !jsons.count(f)) { e.err = 1; return e; } std::string j = jsons[f]; if (f == "stdin") e.out = "reading JSON from stdin, press CTRL-D when done\n"; if (j[0] == '!') { e.err = 1; return e; } d.docs.push_back(j); e.out += "JSON document imported.\n"; return e; }
  if (k == "findjson") { if (!exists(n)) return noattach(); auto i = finds.find(a[0]); if (i == finds.end()) { e.err = 1; return e; } for (auto &j : M[n].docs) { bool all = true; for (auto &t : i->second) all &= j.find(t) != std::string::npos; if (all) e.out += j + "\n"; } e.nospace = true; return e; }
  if (k == "exportcsv") { if (!exists(n)) return noattach(); csvs[a[0]] = before[n]; return e; }
  if (k == "importcsv") { Db &d = open(n); if (!csvs.count(a[0])) { e.err = 1; return e; } for (auto &r : csvs[a[0]]) d.rows.push_back(r); e.out = "Data imported from file.\n"; return e; }
  if (k == "export" || k == "import") {
    size_t i = 0; bool log = false; if (a[0][0] == '-') { log = canlog && a[0] == "-l"; if (a[0] != "-l" && a[0] != "-f") e.err = 1; i++; if (a.size() < 2) { e.usage = true; e.code = 1; return e; } }
    if (k == "export") { if (!exists(n)) return noattach(); dumps[a[i]].m = M[n]; dumps[a[i]].have = true; return e; }
    if (!dumps.count(a[i])) { e.err = 1; return e; } Db m = dumps[a[i]].m;
    if (exists(n)) { if (log && !M[n].log) return noattach(); m.size = M[n].size; m.mode = M[n].mode; m.log = M[n].log; } else { m.mode = 0; m.log = log; }
    M[n] = m; e.out = "Database imported.\n"; return e;
  }
  e.usage = true; return e;
}
static std::vector<std::vector<int>> listed; // parsed output of listindex: col, multi, id, kind
static void parselist() { listed.clear(); auto l = lines(outs); for (size_t i = 1; i < l.size(); i++) { int c, m, id; char t[8], msk[8]; if (sscanf(l[i].c_str(), "%d\t%7s\t%d\t%d\t%7s", &c, t, &m, &id, msk) != 5) BAD("list", "listindex printed the line '%s'", vis(l[i]).c_str()); listed.push_back({c, m, id, t[0] == 'T' ? 1 : 0}); } }
static long raws(void *d) { long n = 0; for (void *r = wg_get_first_raw_record(d); r; r = wg_get_next_raw_record(d, r)) n++; return n; }
static long jrecs(const std::string &j) { long n = 0; for (size_t i = 0; i < j.size(); i++) if (j[i] == '{' || j[i] == '[' || j[i] == ':') n++; return n; } // one record for each array, object and key
static std::vector<Row> datarows(void *d, const Db &m) { if (m.docs.empty()) return scan(d); harness = true; std::vector<Row> o; for (void *r = wg_get_first_record(d); r; r = wg_get_next_record(d, r)) { if (is_schema_array(r) || is_schema_object(r)) continue; Row w; gint n = wg_get_record_len(d, r); bool rec = false; for (gint i = 0; i < n; i++) { w.push_back(dec_val(d, wg_get_field(d, r, i))); rec |= w.back().t == V_REC; } rec |= n == 3 && w[0].t == V_NULL && w[1].t == V_STR; if (!rec) o.push_back(w); } harness = false; return o; }
static void step(const Cmd &cmd0) {
  Cmd cmd = cmd0; std::string n = cmd.size() && !iscmd(cmd[0]) ? cmd[0] : "1000";
  for (auto &s : cmd) if (s == "@last") s = ids[n].empty() ? "77" : fmt("%d", ids[n].back());
  before.clear(); for (auto &s : segs) before[s.first] = scan(s.second.db);
  std::map<std::string, std::string> imgs; Model old = M;
  HIST += (HIST.empty() ? "" : "; ") + show(cmd); count("commands");
  Exp e = expect(cmd); refused = false; run(cmd);
  if (refused) { Model nw = M; M = old; for (auto &m : nw) if (!M.count(m.first)) M[m.first].size = m.second.size; e = Exp(); e.err = 1; count("refused_locks"); }
  if (nomem && (errs.find("ailed") != std::string::npos || errs.find("rror") != std::string::npos)) { M = old; e = Exp(); e.err = 1; count("memory_shortages"); }
  if (exitcode != e.code) BAD("exit", "exit code %d instead of %d (%s)", exitcode, e.code, vis(errs).c_str());
  if (trace_.find('!') != std::string::npos) BAD("lock", "the database is used without a lock, or the lock is not released (%s)", trace_.c_str());
  if (!unlocked.empty()) BAD("nolock", "%s is changed without holding the write lock", unlocked.c_str());
  if (attached > 0 && e.code == 0) BAD("attach", "the database is not detached");
  if (e.usage) { if (outs.find("usage: ") == std::string::npos) BAD("usage", "the usage text is not printed (stdout '%s', stderr '%s')", vis(outs).c_str(), vis(errs).c_str()); }
  else if (e.anyout) { if (outs.find(e.has) == std::string::npos) BAD("output", "prints '%s' without '%s'", vis(outs).c_str(), vis(e.has).c_str()); }
  else { std::string o = outs; if (e.nospace) { std::string x; for (char c : o) if (!strchr(" \n", c)) x += c; o = x; x.clear(); for (char c : e.out) if (c != '\n') x += c; e.out = x; if (o.size() == e.out.size()) { std::sort(o.begin(), o.end()); std::sort(e.out.begin(), e.out.end()); } } if (e.sortout) { o = joined(sorted(lines(o))); e.out = joined(sorted(lines(e.out))); } if (o != e.out) BAD("output", "prints '%s' instead of '%s' (stderr '%s')", vis(outs).c_str(), vis(e.out).c_str(), vis(errs).c_str()); }
  if (e.err == 0 && !errs.empty()) BAD("stderr", "complains: '%s'", vis(errs).c_str());
  if (e.err == 1 && errs.empty()) BAD("silent", "fails without a message");
  // the databases
  for (auto &m : M) if (!segs.count(m.first)) BAD("db", "database %s does not exist", m.first.c_str());
  for (auto &s : segs) if (!M.count(s.first)) BAD("db", "database %s exists", s.first.c_str());
  for (auto &s : segs) {
    Db &d = M[s.first]; auto got = sorted(prs(datarows(s.second.db, d))), want = sorted(prs(d.rows)); if (got != want) BAD("rows", "database %s has the rows %s instead of %s", s.first.c_str(), vis(joined(got)).c_str(), vis(joined(want)).c_str());
    if (d.docs.size()) { long n = raws(s.second.db), w = d.rows.size(); for (auto &j : d.docs) w += jrecs(j); if (n != w) BAD("records", "database %s holds %ld records instead of %ld", s.first.c_str(), n, w); }
    if (HDR(s.second.db)->index_control_area_header.number_of_indexes != (gint)(d.tt.size() + d.hashes.size())) BAD("indexes", "database %s has %d indexes instead of %d", s.first.c_str(), (int)HDR(s.second.db)->index_control_area_header.number_of_indexes, (int)(d.tt.size() + d.hashes.size()));
    for (int c : d.tt) if (wg_column_to_index_id(s.second.db, c, WG_INDEX_TYPE_TTREE, NULL, 0) <= 0) BAD("indexes", "no index on column %d", c);
    if (HDR(s.second.db)->size != d.size) BAD("size", "database %s has %lld bytes instead of %lld", s.first.c_str(), (ll)HDR(s.second.db)->size, d.size);
    if (s.second.mode != d.mode) BAD("mode", "database %s is created with mode %o instead of %o", s.first.c_str(), s.second.mode, d.mode);
#ifdef USE_DBLOG
    if (!!HDR(s.second.db)->logging.active != d.log) BAD("logging", "logging of database %s is %s", s.first.c_str(), d.log ? "not active" : "active");
#endif
    ids[s.first].clear(); for (int c : d.tt) ids[s.first].push_back(wg_column_to_index_id(s.second.db, c, WG_INDEX_TYPE_TTREE, NULL, 0));
  }
  Cmd cc = cmd; if (cc.size() && !iscmd(cc[0])) cc.erase(cc.begin());
  if (cc.size() && cc[0] == "listindex" && !refused && !e.usage) {
    parselist(); Db &d = M[n]; std::vector<std::vector<int>> want; for (size_t i = 0; i < d.tt.size(); i++) want.push_back({d.tt[i], 1, ids[n][i], 1}); size_t nh = 0; for (auto &h : d.hashes) nh += h.size();
    size_t seen = 0, hs = 0; for (auto &l : listed) { if (l[3]) { bool f = false; for (auto &w : want) f |= w == l; if (!f) BAD("list", "listindex shows a T-tree of column %d with id %d", l[0], l[2]); seen++; } else { bool f = false; for (auto &h : d.hashes) f |= (int)h.size() == l[1] && std::find(h.begin(), h.end(), l[0]) != h.end(); if (!f) BAD("list", "listindex shows a hash index of column %d", l[0]); hs++; } }
    if (seen != want.size() || hs != nh) BAD("list", "listindex shows %d T-tree and %d hash lines instead of %d and %d", (int)seen, (int)hs, (int)want.size(), (int)nh);
  }
  if (cc.size() && cc[0] == "info" && !refused && !e.usage && e.code == 0) {
    Seg &s = segs[n]; std::string key = "database key: " + fmt("%d\n", (int)HDR(s.db)->key), pm = fmt("permissions: %o\n", s.mode ? s.mode : 0600), lg = "";
#ifdef USE_DBLOG
    lg = M[n].log ? "logging is active, journal file: ./wgdb.journal." + n + "\n" : "logging is not active\n";
#endif
    for (auto &t : {key, pm, lg, std::string("owner: root\n")}) if (outs.find(t) == std::string::npos) BAD("info", "info prints '%s' without '%s'", vis(outs).c_str(), vis(t).c_str());
  }
}
static void fresh() { while (segs.size()) { auto i = segs.begin(); std::string n = i->first; __wrap_wg_delete_database((char *)n.c_str()); } M.clear(); dumps.clear(); csvs.clear(); ids.clear(); HIST.clear(); quiet.clear(); lockfail = false; unlink("F"); unlink("D"); unlink("missing"); for (auto j : {"wgdb.journal.1000", "wgdb.journal.1000.0", "wgdb.journal.1000.1", "wgdb.journal.1000.2", "wgdb.journal.1000.3", "wgdb.journal.1000.4", "wgdb.journal.7", "wgdb.journal.7.0", "wgdb.journal.7.1"}) unlink(j); }
static std::vector<Cmd> S(std::initializer_list<const char *> l) { std::vector<Cmd> r; for (auto s : l) { Cmd c; std::string t; bool q = false, any = false; for (const char *p = s; ; p++) { if (*p == '\'') { q = !q; any = true; continue; } if (!*p || (*p == ' ' && !q)) { if (!t.empty() || any) c.push_back(t); t.clear(); any = false; if (!*p) break; continue; } t += *p; } r.push_back(c); } return r; }
static std::vector<Cmd> alphabet(const std::string &p) {
  if (p == "rows") return S({"add 1", "add 1 abc", "add '' 2.5", "add 2010-05-08", "add -7 12:30:01 'x y'", "add 5 abc 1e3", "select 10", "select 1", "select 1 1", "select 2 5", "select 10 -1", "select -1", "select 0", "select abc", "select",
    "query 0 = 1", "query 0 != 1", "query 1 = abc", "query 0 < 2", "query 0 <= 1", "query 0 > -7", "query 0 >= 5", "query 0 >= -7 1 = abc", "query 0 = ''", "query 0 = 2010-05-08", "query 5 = 1", "query 0 ~ 1", "query x = 1", "query 1x = abc", "query 0 =< 1", "query 0 <> 1", "query 0 == 1", "query 0 = 1 1 =", "query 0 = 1 1", "query 0 = 1 ~ = 2", "query -1 = 1", "query 0 !5 1", "query 0 '= ' 1",
    "del 0 = 1", "del 0 != 1", "del 1 = abc", "del 0 < 2", "del 0 =", "del 0", "del", "del 0 ~ 1", "del 0 <> 1", "del 0 =< 1", "del 0 = 1 1 =", "del 0 = 1 1", "del x = 1", "del 7 != 1", "del 0 >= -7 1 = abc",
    "createindex 0", "createindex 1", "createindex x", "createindex 99999", "createindex -1", "createindex", "listindex", "dropindex @last", "dropindex 12345", "dropindex x", "dropindex 0", "dropindex -5", "dropindex", "info", "help", "-h", "version", "-v", "nonsense", "nonsense more", "add", "query", "query 0 = "});
  if (p == "files") return S({"add 1 abc", "add '' 2.5", "7 add 5", "7 select 10", "select 10", "7 del 0 = 5", "exportcsv F", "importcsv F", "7 importcsv F", "importcsv missing", "7 importcsv missing", "exportcsv", "export D", "export -f D", "7 export D", "import D", "7 import D", "import -l D", "7 import -l D", "import missing", "import -l missing", "import -x D", "export -x D", "import -l", "export -f", "import", "export",
    "create", "create 450k", "create 1M", "create 500K 666", "create 1G", "create -l", "create xyz", "create 0", "create -f 1M", "create 450k 9", "create 450k 1000", "create 450k 0600", "create 450k 777x", "create 450k 0", "7 create 420k", "7 create 5k", "create 99999999999999999999 640", "create 10000000000G", "free", "7 free", "info", "7 info", "createindex 0", "7 listindex", "createhash 0", "createhash 0 1", "createhash 1 0", "createhash 0 0", "createhash x", "createhash 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19", "createhash", "listindex", "1000 add 2", "foo", "7", "7 free 7"});
  if (p == "short") return S({"add 1", "add 1 abc", "add '' 2.5", "select 10", "select 1 1", "query 0 = 1", "query 0 > -7", "query 0 >= -7 1 = abc", "del 0 = 1", "del 1 = abc", "del 0 != 1", "createindex 0", "createindex 1", "dropindex @last", "exportcsv F", "importcsv F", "export D", "import D", "free", "create 450k", "7 import D", "7 add 5", "listindex", "createhash 0 1", "add 5 abc 1e3"});
  return {};
}
static void walk(Cases &C, const std::vector<Cmd> &start, const std::vector<Cmd> &al, int depth) {
  ll total = 1; for (int i = 0; i < depth; i++) total *= al.size();
  for (ll k = 0; k < total && !C.stop; k++) {
    std::vector<Cmd> seq; ll x = k; for (int i = 0; i < depth; i++) { seq.insert(seq.begin(), al[x % al.size()]); x /= al.size(); }
    C.run([&] { std::string s; for (auto &c : start) s += show(c) + "; "; for (auto &c : seq) s += show(c) + "; "; return s; }, [&] { fresh(); for (auto &c : start) step(c); for (auto &c : seq) step(c); return true; });
  }
}
#ifdef REASON
static void rstep(const Cmd &cmd) {
  std::string n = isdigit(cmd[0][0]) ? cmd[0] : "1000"; const std::string &k = cmd[n == cmd[0] ? 1 : 0]; bool had = segs.count(n); H128 h0{1, 2}; if (had) img_hash(segs[n].db, h0); count("commands"); long rn0 = had ? raws(segs[n].db) : 0;
  HIST += (HIST.empty() ? "" : "; ") + show(cmd); run(cmd); bool bare = cmd.back() == "importotter"; int want = !had && (k == "runreasoner" || k == "info") ? 1 : 0;
  if (exitcode != want) BAD("exit", "exit code %d instead of %d (%s)", exitcode, want, vis(errs).c_str());
  if (want && errs.empty()) BAD("silent", "fails without a message");
  if (trace_.find('!') != std::string::npos) BAD("lock", "the database is used without a lock, or the lock is not released (%s)", trace_.c_str());
  if (!unlocked.empty()) BAD("nolock", "%s is changed without holding the write lock", unlocked.c_str());
  if (attached > 0) BAD("attach", "the database is not detached");
  if (lockfail && !bare && !want && k != "free" && k != "info") { H128 h{1, 2}; img_hash(segs[n].db, h); if (had && !(h == h0)) BAD("refused", "changes the database without a lock"); if (errs.empty()) BAD("silent", "fails without a message"); }
  if (k == "importotter" && !bare && !lockfail) { bool ok = cmd.back() == "O1" || cmd.back() == "O2" || cmd.back() == "O4"; if (ok != (outs.find("Data imported from otter file.") != std::string::npos)) BAD("output", "prints '%s' and '%s'", vis(outs).c_str(), vis(errs).c_str()); if (!ok && errs.empty()) BAD("silent", "fails without a message"); }
  if (k == "importprolog" && !lockfail) { long rn = raws(segs[n].db); bool said = outs.find("Data imported from prolog file.") != std::string::npos; if (cmd.back() != "O1" && said) BAD("output", "prints '%s' and '%s'", vis(outs).c_str(), vis(errs).c_str()); if (cmd.back() == "O1" && !said) BAD("output", "prints '%s' and '%s'", vis(outs).c_str(), vis(errs).c_str()); if (had ? rn != rn0 : rn) count("imported"); else if (said) { if (opts().has("stub")) BAD("prolog-stub", "importprolog reports the data imported and stores nothing"); } }
  if (bare && outs.find("usage: ") == std::string::npos) BAD("usage", "the usage text is not printed");
}
static void walk2(Cases &C, const std::vector<Cmd> &al, int depth) {
  ll total = 1; for (int i = 0; i < depth; i++) total *= al.size();
  for (int lf = 0; lf < 2; lf++) for (ll k = 0; k < total && !C.stop; k++) {
    std::vector<Cmd> seq; ll x = k; for (int i = 0; i < depth; i++) { seq.push_back(al[x % al.size()]); x /= al.size(); }
    C.run([&] { std::string s; for (auto &c : seq) s += show(c) + "; "; return s + (lf ? "the last without a lock" : ""); }, [&] { fresh(); for (int i = 0; i < depth; i++) { lockfail = lf && i == depth - 1; rstep(seq[i]); } lockfail = false; return true; });
  }
}
#endif
static void put(const char *f, const std::string &t) { int fd = ::open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0 || write(fd, t.data(), t.size()) != (ssize_t)t.size()) _exit(3); close(fd); }
int main(int argc, char **argv) {
  init(argc, argv);
  jsons = {{"J1", "{\"a\":1}"}, {"J2", "{\"a\":1,\"b\":\"x\"}"}, {"J3", "[1,{\"a\":2,\"c\":[1,2]}]"}, {"J4", "!{\"a\":"}, {"J5", "![1,2"}, {"J6", "!5"}, {"J7", "!"}, {"stdin", "{\"b\":\"x\"}"}};
  finds = {{"{\"a\":1}", {"\"a\":1"}}, {"{\"b\":\"x\"}", {"\"b\":\"x\""}}, {"{\"a\":1,\"b\":\"x\"}", {"\"a\":1", "\"b\":\"x\""}}, {"{\"a\":2}", {"\"a\":2"}}, {"{\"a\":7}", {"\"a\":7"}}, {"{\"zz\":1}", {"\"zz\":1"}}};
  for (auto &j : jsons) put(j.first.c_str(), j.second[0] == '!' ? j.second.substr(1) : j.second);
  int si = ::open("stdin", O_RDONLY); dup2(si, 0);
  fdo = memfd_create("o", 0); fde = memfd_create("e", 0); keepo = dup(1); keepe = dup(2); if (fdo < 0 || fde < 0) return 3;
  Cases C; std::string p = opts().str("profile", "rows"); int depth = opts().num("depth", 2);
  std::vector<std::vector<Cmd>> starts = {{}, S({"add 1", "add 1 abc", "add 5 abc 1e3"})};
  if (p == "rows") starts.push_back(S({"add 1", "add 1 abc", "createindex 0", "add -7 12:30:01 'x y'"})), starts.push_back(S({"add '' 2.5", "add 1 abc", "createindex 1", "createindex 0"}));
  if (p == "files") starts.push_back(S({"add 1 abc", "export D", "exportcsv F"})), starts.push_back(S({"add 1 abc", "createindex 0", "export D", "exportcsv F", "free"})), starts.push_back(S({"7 create 420k", "7 add 5", "add 1"}));
#ifdef USE_DBLOG
  if (p == "files") starts.push_back(S({"create -l", "add 1 abc", "export D"}));
#endif
  if (p == "locks") starts.push_back(S({"add 1", "createindex 0", "export D", "exportcsv F", "7 add 5"}));
  if (p == "rows" || p == "files" || p == "short") for (auto &s : starts) walk(C, s, alphabet(p), depth);
  if (p == "json") { std::vector<Cmd> al = S({"addjson J1", "addjson J2", "addjson J3", "addjson J4", "addjson J5", "addjson J6", "addjson J7", "addjson nofile", "addjson", "7 addjson J2", "free", "createhash 0 1", "createhash 1 2", "createhash 1", "findjson {\"a\":1}", "findjson {\"b\":\"x\"}", "findjson {\"a\":1,\"b\":\"x\"}", "findjson {\"a\":2}", "findjson {\"a\":7}", "findjson {\"zz\":1}", "findjson [1]", "findjson {", "findjson 5", "findjson", "findjson ''", "findjson {}", "7 findjson {\"a\":1}", "add 1 abc", "export D", "import D"});
    walk(C, {}, al, depth); walk(C, S({"addjson J2", "addjson J3"}), al, depth); walk(C, S({"createhash 1 2", "addjson J1", "addjson J2"}), al, depth); }
  if (p == "locks") { // every command when the lock cannot be had, in every situation
    std::vector<Cmd> al = alphabet("rows"), x = alphabet("files"); al.insert(al.end(), x.begin(), x.end()); for (auto &c : S({"addjson J1", "findjson {\"a\":1}", "replay wgdb.journal.1000"})) al.push_back(c);
    for (auto &s : starts) for (auto &c : al) C.run([&] { return show(c) + " without a lock"; }, [&] { fresh(); for (auto &k : s) step(k); lockfail = true; step(c); lockfail = false; step(S({"listindex"})[0]); return true; }); }
  if (p == "memory") { // rows added, imported and indexed until nothing fits
    std::string l1(200, 'x'), l2(600, 'y');
    for (int size = 140000; size < 260000; size += 1000) for (int kind = 0; kind < 4; kind++) C.run([&] { return fmt("%d bytes, rows of kind %d until the database is full", size, kind); }, [&] {
      fresh(); nomem = true; Cmd c = {"create", fmt("%d", size)}; M["1000"].size = size; M.erase("1000"); HIST = ""; run(c); if (!segs.count("1000")) { nomem = false; return false; } M["1000"].size = size;
      int bad = 0; for (int i = 0; i < 3000 && bad < 8; i++) { Cmd a = {"add", l1 + fmt("%d", i), kind & 1 ? "2.5" : "1", l2.substr(0, 100 + i % 7 * 70) + fmt("%d", i)}; if (kind & 2) a.push_back("1000000000000"), a.push_back("-0.25"); HIST = fmt("after %d rows", i); step(a); if (!errs.empty()) { bad++; if (bad == 3) step(S({"add 1"})[0]); if (bad == 4) step(S({"createindex 0"})[0]); if (bad == 5) step(S({"createhash 0 1"})[0]); if (bad == 6) step(S({"del 1 = 1"})[0]); if (bad == 7) step(S({"exportcsv F"})[0]), step(S({"addjson J3"})[0]); } HIST.clear(); }
      nomem = false; return bad > 0; }); }
  if (p == "log") { // the journal written by commands rebuilds the database
    std::vector<Cmd> al = S({"add 1 abc", "add '' 2.5", "add 5 abc 1e3", "add 2010-05-08 aVeryLongStringThatIsStoredOutsideTheRecordItself", "del 0 = 1", "del 0 != 5", "del 1 = abc", "createindex 0", "export D", "importcsv F", "exportcsv F", "select 1"}); ll total = 1; for (int i = 0; i < depth; i++) total *= al.size();
    for (ll k = 0; k < total && !C.stop; k++) { std::vector<Cmd> seq; ll x = k; for (int i = 0; i < depth; i++) { seq.push_back(al[x % al.size()]); x /= al.size(); }
      C.run([&] { std::string s; for (auto &c : seq) s += show(c) + "; "; return s + "replay"; }, [&] { fresh(); step(S({"create -l"})[0]); for (auto &c : seq) step(c); if (dumps.count("D")) step(S({"7 import D"})[0]); step(S({"7 replay wgdb.journal.1000"})[0]); step(S({"7 select 10"})[0]); step(S({"7 replay nofile"})[0]); return true; }); } }
#ifdef REASON
  if (p == "reason") { // clauses imported and reasoned about: locks, attachments, exit codes and messages
    put("O1", "p(a).\nq(b).\n"); put("O2", "-p(X) | q(X).\np(a).\n-q(a).\n"); put("O3", "p(a.\n"); put("O4", "-q(b).\n-n(X) | $less(X,5).\nn(2.5).\n");
    std::vector<Cmd> al = S({"importotter O1", "importotter O2", "importotter O3", "importotter O4", "importotter missing", "importotter", "importprolog O1", "importprolog missing", "runreasoner", "7 runreasoner", "7 importotter O1", "add 1", "free", "info"});
    walk2(C, al, depth); }
#endif
  fresh(); finish(C.failed());
}
