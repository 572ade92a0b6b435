// C27/C29: every short text and every structured date/time/number text through the parser; every value printed into
// every buffer size; every small table through CSV export and import; every short byte sequence as an import file.
#include <climits>
#include <cfloat>
#include <cerrno>
#include <set>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "mc.h"
#include "wgdb.h"
using namespace mc;
typedef std::vector<Val> Alts; typedef std::vector<Alts> Row;
static void *db; static Cases *CC;
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int mlen(int y, int m) { static int l[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : l[m - 1]; }
static ll dayno(int y, int m, int d) { ll p = y - 1, n = p * 365 + p / 4 - p / 100 + p / 400; for (int i = 1; i < m; i++) n += mlen(y, i); return n + d; }
static bool okdate(int y, int m, int d) { return y >= 1 && m >= 1 && m <= 12 && d >= 1 && d <= mlen(y, m); }
static bool oktime(int h, int m, int s, int p) { return m <= 59 && s <= 59 && (h <= 23 || (h == 24 && m + s + p == 0)); }
// groups of digits in the text and the characters between them ("" if it does not start with a digit or holds others)
static std::string shape(const std::string &t, std::vector<std::string> &g) {
  std::string sh; g.clear();
  for (size_t i = 0; i < t.size();) { if (dig(t[i])) { std::string d; while (i < t.size() && dig(t[i])) d += t[i++]; g.push_back(d); sh += 'd'; } else sh += t[i++]; }
  return sh;
}
// what the text may be parsed as (independent of the implementation). Exact ISO forms have one answer; forms with fewer
// digits, and fractions of other than two digits, may be taken as a date/time or as a string.
static Alts reft(const std::string &t) {
  Alts a; if (t.empty()) return {vNull()};
  std::vector<std::string> g; std::string sh = shape(t, g); auto N = [&](int i) { return atoi(g[i].c_str()); };
  if (sh == "d-d-d" && g[0].size() <= 4 && g[1].size() <= 2 && g[2].size() <= 2) {
    bool strict = g[0].size() == 4 && g[1].size() == 2 && g[2].size() == 2, ok = okdate(N(0), N(1), N(2));
    if (ok) a.push_back(vDate(dayno(N(0), N(1), N(2)))); if (!ok || !strict) a.push_back(vStr(t)); return a; }
  if ((sh == "d:d:d" || sh == "d:d:d.d") && g[0].size() <= 2 && g[1].size() <= 2 && g[2].size() <= 2) {
    bool strict = g[0].size() == 2 && g[1].size() == 2 && g[2].size() == 2 && (g.size() == 3 || g[3].size() == 2); std::set<int> ps;
    if (g.size() == 3) ps = {0}; else if (g[3].size() == 1) ps = {N(3), N(3) * 10}; else ps = {atoi(g[3].substr(0, 2).c_str()), (int)lround(atof(("0." + g[3].substr(0, 6)).c_str()) * 100)};
    bool some = false; for (int p : ps) if (p <= 99 && oktime(N(0), N(1), N(2), p)) { a.push_back(vTime(((N(0) * 60 + N(1)) * 60 + N(2)) * 100 + p)); some = true; }
    if (!some || !strict) a.push_back(vStr(t)); return a; }
  bool neg = t[0] == '-'; std::vector<std::string> h; std::string ns = shape(neg ? t.substr(1) : t, h);
  if (ns == "d") { // decimal integer that fits 64 bits
    const std::string &d = h[0]; __int128 v = 0; bool big = false; for (char c : d) { v = v * 10 + (c - '0'); if (v > ((__int128)1 << 64)) { big = true; v = (__int128)1 << 64; } }
    if (neg) v = -v; if (!big && v >= LLONG_MIN && v <= LLONG_MAX) return {vInt((ll)v)}; return {vStr(t)}; }
  if (ns == "d.d" || ns == "d.") { errno = 0; double d = strtod(t.c_str(), NULL); if (errno == ERANGE) { errno = 0; a.push_back(vStr(t)); if (fabs(d) < 1) a.push_back(vDbl(d)); return a; } return {vDbl(d)}; }
  return {vStr(t)};
}
static std::string show(const Alts &a) { std::string s; for (auto &v : a) s += (s.empty() ? "" : " or ") + v.str(); return s; }
static bool in(const Alts &a, const Val &v) { for (auto &x : a) if (x == v) return true; return false; }
static std::string vis(const std::string &s) { std::string r; for (unsigned char c : s.substr(0, 60)) r += c >= 32 && c < 127 ? std::string(1, c) : fmt("\\x%02x", c); return s.size() > 60 ? r + fmt("..(%zu)", s.size()) : r; }
// ---- C29: parsing
static void parse1(const std::string &t, int pre) {
  char *b = (char *)malloc(t.size() + 1); memcpy(b, t.c_str(), t.size() + 1); // exact size: the address sanitizer sees over-reads
  switch (pre) { case 0: errno = 0; break; case 1: errno = ERANGE; break; case 2: errno = EINVAL; break;
    case 3: wg_free_encoded(db, wg_parse_and_encode(db, "999999999999999999999")); break; case 4: wg_free_query_param(db, wg_parse_and_encode_param(db, (char *)"12:30:00.5")); break; }
  Alts want = pre < 3 ? Alts() : Alts(); { int e = errno; want = reft(t); errno = e; }
  gint v = wg_parse_and_encode(db, b); MC_CHECK(v != WG_ILLEGAL, "parse", "'%s' is refused", vis(t).c_str());
  if (pre == 1) errno = ERANGE; else if (pre == 2) errno = EINVAL;
  gint q = wg_parse_and_encode_param(db, b); MC_CHECK(q != WG_ILLEGAL, "parse-param", "'%s' is refused as a parameter", vis(t).c_str());
  MC_CHECK(t == b, "input", "parsing changes the text '%s'", vis(t).c_str());
  Val g = dec_val(db, v), h = dec_val(db, q);
  MC_CHECK(in(want, g), "value", "'%s' is parsed as %s, not %s", vis(t).c_str(), g.str().c_str(), show(want).c_str());
  MC_CHECK(g == h, "param", "'%s' is parsed as %s but as a parameter it is %s", vis(t).c_str(), g.str().c_str(), h.str().c_str());
  MC_CHECK(WG_COMPARE(db, v, q) == WG_EQUAL, "param-compare", "the value and the parameter parsed from '%s' differ", vis(t).c_str());
  MC_CHECK(wg_free_encoded(db, v) == 0 && wg_free_query_param(db, q) == 0, "free", "the value of '%s' cannot be freed", vis(t).c_str()); free(b);
}
static void parse(const std::string &t) { for (int pre = 0; pre < 5; pre++) parse1(t, pre); }
// ---- C29: printing
static void prints(const Val &v, gint e, const std::string &must, bool prefix, int upto) {
  std::vector<char> full(prefix ? 20000 : 700); memset(full.data(), 0x5a, full.size()); wg_snprint_value(db, e, full.data(), full.size()); int L = strnlen(full.data(), full.size()); MC_CHECK(L < (int)full.size(), "unterminated", "%s is printed without an end", v.str().c_str());
  if (!must.empty()) MC_CHECK(std::string(full.data()).find(must) != std::string::npos, "print", "%s is printed as '%s'", v.str().c_str(), vis(full.data()).c_str());
  std::set<int> sz = {INT_MIN, -1, 0}; for (int i = 0; i <= std::min(L + 4, upto); i++) sz.insert(i); for (int i = L - 3; i < L + 6; i++) if (i > 0 && (prefix || i <= upto)) sz.insert(i);
  for (int bl : sz) {
    int n = std::max(bl, 0); std::vector<char> b(n + 48, 0x5a); wg_snprint_value(db, e, b.data() + 16, bl);
    for (int i = 0; i < (int)b.size(); i++) if (i < 16 || i >= 16 + n) MC_CHECK(b[i] == 0x5a, "overrun", "%s printed into %d bytes writes at position %d", v.str().c_str(), bl, i - 16);
    if (!n) continue;
    int l = strnlen(b.data() + 16, n); MC_CHECK(l < n, "unterminated", "%s printed into %d bytes is not terminated", v.str().c_str(), bl);
    if (prefix) { MC_CHECK(!memcmp(b.data() + 16, full.data(), l), "truncated", "%s printed into %d bytes gives '%s'", v.str().c_str(), bl, vis(b.data() + 16).c_str());
      MC_CHECK(l >= std::min(L, n - 2), "short", "%s printed into %d bytes gives only %d of %d characters", v.str().c_str(), bl, l, L); }
  }
}
static std::string grab(std::function<void()> f) { // what f writes to standard output
  fflush(stdout); int keep = dup(1), fd = open("out.txt", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); f(); fflush(stdout); dup2(keep, 1); close(keep);
  std::string s(lseek(fd, 0, SEEK_END), 0); if (pread(fd, &s[0], s.size(), 0) < 0) {} close(fd); return s;
}
// ---- C27
static void rmfile(const char *n) { unlink(n); }
static void put(const char *n, const std::string &s) { FILE *f = fopen(n, "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string get(const char *n) { FILE *f = fopen(n, "rb"); if (!f) return "?"; std::string s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
typedef std::vector<Val> VRow;
static std::vector<VRow> rows(void *d) { std::vector<VRow> r; for (void *p = wg_get_first_record(d); p; p = wg_get_next_record(d, p)) { VRow v; for (int i = 0, n = wg_get_record_len(d, p); i < n; i++) v.push_back(dec_val(d, wg_get_field(d, p, i))); r.push_back(v); } return r; }
static std::string rstr(const VRow &r) { std::string s; for (auto &v : r) s += (s.empty() ? "[" : ", ") + v.str(); return s.empty() ? "[]" : s + "]"; }
static std::string rstr(const Row &r) { std::string s; for (auto &v : r) s += (s.empty() ? "[" : ", ") + show(v); return s + "]"; }
static bool match(const Row &w, const VRow &g) { if (w.size() != g.size()) return false; for (size_t i = 0; i < w.size(); i++) if (!in(w[i], g[i])) return false; return true; }
static void same(const std::vector<Row> &want, std::vector<VRow> got, const std::string &file) {
  std::vector<bool> used(got.size()); size_t k = 0;
  for (auto &w : want) { size_t j = got.size(); for (size_t i = 0; i < got.size() && j == got.size(); i++) { size_t q = (k + i) % got.size(); if (!used[q] && match(w, got[q])) j = q; }
    if (j == got.size()) { std::string near = "nothing"; for (size_t i = 0; i < got.size(); i++) if (!used[i]) { near = rstr(got[i]); break; }
      fail("lost", fmt("the row %s is not imported (first unexpected row: %s) from the file '%s'", rstr(w).c_str(), near.c_str(), vis(file).c_str())); }
    used[j] = true; k = j + 1; }
  MC_CHECK(got.size() == want.size(), "rows", "%zu rows are imported instead of %zu from the file '%s'", got.size(), want.size(), vis(file).c_str());
}
static Alts imported(const Val &v) { // what an exported value may come back as
  Alts a; auto txt = [&](const std::string &s) { a = reft(s); if (!in(a, vStr(s))) a.push_back(vStr(s)); };
  switch (v.t) { case V_STR: case V_XML: txt(v.s); break; case V_URI: txt(v.x + v.s); break; case V_CHAR: txt(v.i ? std::string(1, (char)v.i) : ""); a.push_back(v); break;
    case V_FIX: { char b[40]; snprintf(b, 40, "%.6f", v.d); a = {vDbl(atof(b)), v}; break; } default: a = {v}; }
  return a;
}
static void addrow(void *d, const VRow &r, std::vector<Row> &want) { void *p = wg_create_record(d, r.size()); MC_CHECK(p, "create", "no record"); Row w; for (size_t i = 0; i < r.size(); i++) { gint e = enc_val(d, r[i]); MC_CHECK(e != WG_ILLEGAL && wg_set_field(d, p, i, e) == 0, "set", "%s cannot be stored", r[i].str().c_str()); w.push_back(imported(r[i])); } want.push_back(w); }
static void *db2; static Image *E1, *E2;
static void roundtrip(const std::vector<VRow> &t) {
  img_restore(db, E1); img_restore(db2, E2); std::vector<Row> want; for (auto &r : t) addrow(db, r, want);
  auto before = rows(db); rmfile("t.csv"); wg_export_db_csv(db, "t.csv"); MC_CHECK(rows(db) == before, "export", "exporting changes the database"); std::string f = get("t.csv");
  gint rc = wg_import_db_csv(db2, "t.csv"); MC_CHECK(rc == 0, "import", "importing the exported file returns %ld ('%s')", (long)rc, vis(f).c_str());
  same(want, rows(db2), f); count("tables");
}
// independent reader; wf: the file is well formed (quotes around whole fields, CR only before LF or at the end)
static std::vector<Row> refcsv(const std::string &s, bool &wf, bool &quotes) {
  std::vector<Row> out; wf = true; quotes = s.find('"') != std::string::npos; size_t i = 0, n = s.size(); std::vector<std::string> row; 
  while (i < n) {
    row.clear(); bool any = false, eol = false;
    while (!eol) { std::string f; bool q = false;
      if (i < n && s[i] == '"') { q = true; i++; for (;;) { if (i >= n) { wf = false; break; } if (s[i] == '"') { if (i + 1 < n && s[i + 1] == '"') { f += '"'; i += 2; continue; } i++; break; } f += s[i++]; } }
      while (i < n && s[i] != ',' && s[i] != '\n') { if (s[i] == '\r') { if (!(i + 1 == n || s[i + 1] == '\n')) wf = false; i++; continue; } if (q || s[i] == '"') wf = false; f += s[i++]; }
      row.push_back(f); if (!f.empty() || q) any = true; if (i < n && s[i] == ',') { any = true; i++; } else { if (i < n) i++; eol = true; } }
    if (any) { Row r; for (auto &f : row) r.push_back(reft(f)); out.push_back(r); }
  }
  return out;
}
static void rawfile(const std::string &s, bool keepwf = false) {
  img_restore(db2, E2); void *old = wg_create_record(db2, 2); wg_set_field(db2, old, 0, wg_encode_int(db2, 77)); wg_set_field(db2, old, 1, wg_encode_str(db2, "keep", NULL));
  put("r.csv", s); bool wf, q; std::vector<Row> want = refcsv(s, wf, q); if (keepwf) wf = true; gint rc = wg_import_db_csv(db2, "r.csv");
  MC_CHECK(rc == 0, "import", "importing '%s' returns %ld", vis(s).c_str(), (long)rc);
  std::vector<VRow> got = rows(db2); VRow k = {vInt(77), vStr("keep")}; MC_CHECK(!got.empty() && got[0] == k, "existing", "importing '%s' changes existing data", vis(s).c_str()); got.erase(got.begin());
  if (wf) { same(want, got, s); count("wellformed"); } else if (!q) { MC_CHECK(got.size() == want.size(), "rows", "%zu rows are imported instead of %zu from '%s'", got.size(), want.size(), vis(s).c_str()); }
  MC_CHECK(get("r.csv") == s, "file", "importing changes the file");
}
static std::string word(ll k, const std::string &al, int len) { std::string s; for (int i = 0; i < len; i++) { s += al[k % al.size()]; k /= al.size(); } return s; }

int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts(); std::string p = o.profile; int k = o.num("k", 5);
  watchdog(); Cases C; CC = &C; if (!freopen("/dev/null", "w", stderr)) return 2;
  db = wg_attach_local_database(p == "print" ? 20000000 : 3000000); if (!db) return 2;
  auto batch = [&](const std::string &al, int len, std::function<void(const std::string &)> f) { ll n = 1; for (int i = 0; i < len; i++) n *= al.size(); for (ll a = 0; a < n; a += 256) C.run([&] { return fmt("texts of length %d over '%s' from number %lld", len, vis(al).c_str(), a); }, [&] { for (ll i = a; i < n && i < a + 256; i++) f(word(i, al, len)); count("texts", std::min(256LL, n - a)); return true; }); };
  if (p == "parse") {
    for (int l = 0; l <= k; l++) batch("0129-.: a+", l, parse);
    std::vector<std::string> D, T; // structured: every field at its limits, every junk suffix and prefix
    for (const char *y : {"0000", "0001", "0004", "0100", "0400", "1900", "1970", "1999", "2000", "2011", "2012", "9999", "1", "12", "201", "20111"}) for (const char *m : {"00", "01", "02", "04", "12", "13", "1", "010"}) for (const char *d : {"00", "01", "28", "29", "30", "31", "32", "9", "011"}) D.push_back(std::string(y) + "-" + m + "-" + d);
    for (const char *h : {"00", "9", "09", "23", "24", "25", "012"}) for (const char *m : {"00", "1", "59", "60", "001"}) for (const char *s : {"00", "5", "59", "60", "000"}) for (const char *f : {"", ".", ".0", ".00", ".01", ".10", ".99", ".100", ".999999", ".3", ".-1", ".+1", ":00", ".0.0"}) T.push_back(std::string(h) + ":" + m + ":" + s + f);
    for (int w = 0; w < 2; w++) for (auto &t : w ? T : D) C.run([&] { return t; }, [&] { parse(t); for (const char *j : {" ", "a", "Z", "-", ":", ".", "0", "T00:00:00", " 12:00:00", "-1", "\n", "\xff", "1.5"}) { parse(t + j); parse(j + t); } return true; });
    std::set<std::string> N; for (int n = 1; n <= 100; n++) for (const char *h : {"", "-"}) for (char c : {'1', '9', '0'}) { std::string s = std::string(n, c); N.insert(h + s); N.insert(h + s + "."); N.insert(h + s + ".5"); N.insert(h + std::string("0.") + s); N.insert(h + s + "x"); N.insert(h + s + ".x"); N.insert(h + s + "." + s); N.insert(h + s + "-"); }
    for (int n : {300, 307, 308, 309, 310, 320, 400, 1000, 4000}) for (const char *h : {"", "-"}) for (char c : {'1', '9', '0'}) { std::string s = std::string(n, c); N.insert(h + s); N.insert(h + s + ".5"); N.insert(h + std::string("0.") + s); N.insert(h + std::string("0.") + std::string(n, '0') + "1"); N.insert(h + s + ".x"); }
    for (int b = 0; b < 64; b++) for (int d = -2; d <= 2; d++) { __int128 v = ((__int128)1 << b) + d; bool ng = v < 0; if (ng) v = -v; std::string s; do { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); for (const char *h : {"", "-", "0", "-0", "00000000000000000000000", "+", " "}) { N.insert(h + s); N.insert(h + s + ".0"); N.insert(h + s + ".25"); } }
    for (const char *s : {"1e5", "1.5e5", "0x10", "1,5", "inf", "nan", "-inf", "1.7976931348623157", "NULL", "-", "--1", "-.5", ".5", "-1.", "1..2", "1.2.3", "-0", "-0.0", "1 ", " 1", "1\n", "1-1", "12:30", "2011-01", "-2011-01-01", "-12:00:00", "+1", "1_0", "\xd9\xa1", "urn:x", "http://x", "12:00", "12:00:00,5", "2011/01/01", "2011-1-1-1"}) N.insert(s);
    for (auto &t : N) C.run([&] { return vis(t); }, [&] { parse(t); return true; });
    return finish(C.failed());
  }
  if (p == "print") {
    std::vector<std::pair<Val, std::string>> V = {{vNull(), "NULL"}, {vVar(0), "0"}, {vVar(99999), "99999"}, {vChar('x'), "x"}, {vChar('"'), "\""}, {vChar(1), ""}, {vChar(255), ""}, {vChar(0), ""}, {vDate(1), "0001-01-01"}, {vDate(734000), "2010-08-16"}, {vDate(8323200), ""}, {vDate(-8323200), ""}, {vDate(0), ""}, {vTime(0), "00:00:00.00"}, {vTime(8639999), "23:59:59.99"}, {vTime(8640000), "24:00:00.00"}, {vFix(1.5), "1.5"}, {vFix(-799.9999), "-799.9999"}};
    for (int b = 0; b < 64; b++) for (int d = -1; d <= 1; d++) { unsigned long long u = (1ULL << b) + d; V.push_back({vInt((ll)u), fmt("%lld", (ll)u)}); V.push_back({vInt((ll)(0 - u)), fmt("%lld", (ll)(0 - u))}); }
    for (double d : {0.0, -0.0, 1.5, -1234.25, 1e15, 123456789012.5, 1e300, -1e308, DBL_MAX, DBL_MIN, 1e-7}) V.push_back({vDbl(d), fmt("%f", d)}); V.push_back({vDbl(INFINITY), ""}); V.push_back({vDbl(NAN), ""});
    for (int n : {0, 1, 2, 30, 31, 32, 33, 100, 253, 254, 255, 256, 1000}) { std::string s; for (int i = 0; i < n; i++) s += (char)('a' + i % 26); V.push_back({vStr(s), s}); V.push_back({vTxt(V_STR, s, "en"), s}); V.push_back({vTxt(V_XML, s, "xsd:t"), s}); V.push_back({vTxt(V_URI, s), s}); V.push_back({vTxt(V_URI, s, "http://a#"), s}); V.push_back({vTxt(V_BLOB, s, "b"), ""}); }
    for (auto &x : V) C.run([&] { return x.first.str(); }, [&] { gint e = enc_val(db, x.first); if (e == WG_ILLEGAL) return false; prints(x.first, e, x.second, true, 400);
      void *r = wg_create_record(db, 2); MC_CHECK(wg_set_field(db, r, 0, e) == 0, "set", "cannot store"); gint e2 = wg_get_field(db, r, 0); std::vector<char> b(255); wg_snprint_value(db, e2, b.data(), 255);
      std::string t = grab([&] { wg_print_record(db, (gint *)r); }); MC_CHECK(t == "[" + std::string(b.data()) + ",NULL]", "print-record", "a record of %s is printed as '%s'", x.first.str().c_str(), vis(t).c_str());
      prints(x.first, wg_encode_record(db, r), "", false, 500); return true; });
    // records: every shape of up to 4 records with up to 3 references (trees, shared parts, cycles), every buffer size
    int shapes = 1 << 12; for (int a = 0; a < shapes; a += 16) C.run([&] { return fmt("record graphs %d..", a); }, [&] { for (int g = a; g < a + 16; g++) { void *r[4]; for (int i = 0; i < 4; i++) r[i] = wg_create_record(db, 1 + i % 3); int q = g;
        for (int i = 0; i < 4; i++) for (int f = 0; f < 1 + i % 3; f++) { int to = q & 3; q = (q >> 2) | ((q & 3) << 10); if (f == 1) wg_set_field(db, r[i], f, wg_encode_str(db, "text, \"x\"", NULL)); else wg_set_field(db, r[i], f, wg_encode_record(db, r[to])); }
        for (int i = 0; i < 4; i++) prints(vRec(i), wg_encode_record(db, r[i]), "<rec", false, (g & 7) ? 90 : 300); std::string t = grab([&] { wg_print_record(db, (gint *)r[2]); }); MC_CHECK(!t.empty() && t[0] == '[' && t.back() == ']', "print-record", "a record is printed as '%s'", vis(t).c_str());
        for (int i = 0; i < 4; i++) for (int f = 0; f < 1 + i % 3; f++) wg_set_field(db, r[i], f, 0); for (int i = 0; i < 4; i++) MC_CHECK(wg_delete_record(db, r[i]) == 0, "delete", "cannot delete"); } count("graphs", 16); return true; });
    C.run([&] { return std::string("whole database"); }, [&] { void *d = wg_attach_local_database(1000000); std::string want; for (int i = 0; i < 5; i++) { void *r = wg_create_record(d, i + 1); for (int f = 0; f <= i; f++) wg_set_field(d, r, f, wg_encode_int(d, i * 10 + f)); want += grab([&] { wg_print_record(d, (gint *)r); }) + "\n"; } std::string t = grab([&] { wg_print_db(d); }); MC_CHECK(t == want, "print-db", "the database is printed as '%s'", vis(t).c_str()); wg_delete_local_database(d); return true; });
    return finish(C.failed());
  }
  db2 = wg_attach_local_database(3000000); if (!db2) return 2; E1 = img_save(db); E2 = img_save(db2);
  if (p == "table") {
    std::vector<Val> A = {vNull(), vInt(0), vInt(-1), vInt(LLONG_MAX), vInt(LLONG_MIN), vInt(4294967296LL), vDbl(0.5), vDbl(-1234567.25), vDbl(1e300), vDbl(3), vFix(1.25), vFix(-799.9999), vDate(1), vDate(734000), vDate(dayno(9999, 12, 31)), vTime(0), vTime(8639999), vTime(3661), vChar('x'), vChar(','), vChar('"'), vChar('\n'), vChar('5'), vChar(200),
      vStr(""), vStr("a"), vStr(","), vStr("\""), vStr("\"\""), vStr("a\"b"), vStr("\n"), vStr("\r\n"), vStr("\r"), vStr("a,b"), vStr(" a "), vStr(" 12"), vStr("12"), vStr("-"), vStr("'"), vStr(";"), vStr("a\nb,\"c\"\r"), vStr("\xff\xfe"), vStr("2010-13-01"), vStr("NULL"), vStr(std::string(31, 'q')), vStr(std::string(40, '"')), vStr(std::string(2000, 'z')), vTxt(V_STR, "lang,x", "en"), vTxt(V_XML, "<a b=\"c\">", "t"), vTxt(V_URI, "x,y"), vTxt(V_URI, "item\"1", "http://a/#"), vTxt(V_URI, std::string(60, 'u'), "p")};
    int n = A.size();
    for (int i = 0; i < n; i++) C.run([&] { return "single " + A[i].str(); }, [&] { roundtrip({{A[i]}}); roundtrip({{A[i]}, {A[i]}, {vInt(1)}}); roundtrip({{A[i], vNull()}}); roundtrip({{vNull(), A[i]}}); return true; });
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) C.run([&] { return "pair " + A[i].str() + ", " + A[j].str(); }, [&] { roundtrip({{A[i], A[j]}}); roundtrip({{A[i]}, {A[j]}}); return true; });
    for (int i = 0; i < n; i++) C.run([&] { return "triples with " + A[i].str(); }, [&] { for (int j = 0; j < n; j++) for (int l = 0; l < n; l++) { int tot = (A[i].s.size() + A[j].s.size() + A[l].s.size()); if (tot > 3000) continue; roundtrip({{A[i], A[j], A[l]}}); if (k > 5) { roundtrip({{A[i]}, {A[j], A[l]}}); roundtrip({{A[i], A[j]}, {A[l]}}); } } return true; });
    C.run([&] { return std::string("all rows in one table"); }, [&] { std::vector<VRow> t; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (A[i].s.size() + A[j].s.size() < 100) t.push_back({A[i], A[j], vInt(i), vInt(j)}); roundtrip(t); return true; });
    for (int f = 1; f <= 60; f++) C.run([&] { return fmt("%d fields", f); }, [&] { for (int w = 0; w < 4; w++) { VRow r; for (int i = 0; i < f; i++) r.push_back(w == 0 ? vNull() : w == 1 ? vInt(i) : w == 2 ? vStr(fmt("f\"%d", i)) : i % 2 ? vNull() : vStr("x")); roundtrip({r, r, {vInt(1)}}); } return true; });
    std::set<int> L; for (int i = 1; i < 70; i++) L.insert(i); for (int i = 1000; i <= 4000; i += 500) L.insert(i); for (int i = 4040; i <= 4090; i++) L.insert(i);
    for (int l : L) C.run([&] { return fmt("text of %d characters", l); }, [&] { roundtrip({{vStr(std::string(l, 'L')), vInt(5)}, {vStr("next")}}); if (l < 2040) roundtrip({{vStr(std::string(l, '"')), vInt(5)}, {vStr("next")}}); roundtrip({{vInt(5), vTxt(V_URI, std::string(l - l / 2, 'u'), std::string(l / 2 ? l / 2 : 1, 'p'))}}); return true; });
    // longer texts may be cut, but nothing else may be lost
    for (int l : {4080, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 5000, 8191, 8192, 20000}) for (int w = 0; w < 3; w++) C.run([&] { return fmt("text of %d characters, kind %d", l, w); }, [&] {
      img_restore(db, E1); img_restore(db2, E2); std::vector<Row> want; std::string s(l, w == 1 ? '"' : 'x'); if (w == 2) for (int i = 0; i < l; i += 7) s[i] = '"'; addrow(db, {vInt(7), vStr(s), vStr("end")}, want); addrow(db, {vStr("next"), vNull()}, want); rmfile("t.csv"); wg_export_db_csv(db, "t.csv");
      MC_CHECK(wg_import_db_csv(db2, "t.csv") == 0, "import", "the import fails"); auto g = rows(db2); MC_CHECK(g.size() == 2 && g[0].size() == 3 && g[0][0] == vInt(7) && g[0][2] == vStr("end") && g[1].size() == 2 && g[1][0] == vStr("next"), "long", "a text of %d characters spoils the table: %zu rows, first %s", l, g.size(), g.empty() ? "" : rstr(g[0]).c_str());
      MC_CHECK(g[0][1].t == V_STR && g[0][1].s.size() >= (size_t)std::min(l, 2000) && s.compare(0, g[0][1].s.size(), g[0][1].s) == 0, "cut", "a text of %d characters is imported as %s", l, g[0][1].str().c_str()); return true; });
    return finish(C.failed());
  }
  if (p == "raw") {
    for (int l = 0; l <= k; l++) batch("a1,\"\n\r\xff", l, [](const std::string &s) { rawfile(s); });
    for (int l = 0; l <= k + 2; l++) batch("a,\"\n", l, [](const std::string &s) { rawfile(s); });
    for (const char *el : {"\n", "\r\n"}) for (int last = 0; last < 2; last++) for (int n = 1; n <= 40; n++) for (int f = 1; f <= 45; f += n < 3 ? 1 : 11) C.run([&] { return fmt("%d rows of %d fields", n, f); }, [&] { std::string s; for (int i = 0; i < n; i++) { for (int j = 0; j < f; j++) s += (j ? "," : "") + (j % 3 == 1 ? fmt("\"q%d\"", j) : j % 3 == 2 && j + 1 < f ? std::string() : fmt("%d", i * 100 + j)); if (i + 1 < n || last) s += el; } rawfile(s); return true; });
    for (int f : {100, 500, 1000, 1999}) C.run([&] { return fmt("%d fields", f); }, [&] { std::string s; for (int i = 0; i < f; i++) s += fmt("%s%d", i ? "," : "", i); rawfile(s + "\n1\n"); return true; });
    for (int l = 1; l < 4094; l += l < 70 ? 1 : l < 4000 ? 413 : 1) for (int w = 0; w < 3; w++) C.run([&] { return fmt("field of %d bytes, kind %d", l, w); }, [&] { std::string t(l, 'k'), s = w == 0 ? t : w == 1 ? "\"" + t + "\"" : "\"" + t.substr(1) + "\"\"\""; rawfile(s + ",2\r\n3," + s + "\n" + s); return true; });
    for (int l : {4094, 4095, 4096, 4097, 4098, 8190, 8192, 12288, 100000}) for (int w = 0; w < 4; w++) C.run([&] { return fmt("field of %d bytes, kind %d", l, w); }, [&] { std::string t(l, w == 3 ? '7' : 'k'), s = w == 0 || w == 3 ? t : w == 1 ? "\"" + t + "\"" : "\"" + t + "\"\"\""; img_restore(db2, E2); put("r.csv", s + ",2\n3," + s + "\n4"); MC_CHECK(wg_import_db_csv(db2, "r.csv") == 0, "import", "the import fails"); auto g = rows(db2);
      MC_CHECK(g.size() == 3 && g[0].size() == 2 && g[1].size() == 2 && g[2].size() == 1 && g[0][1] == vInt(2) && g[1][0] == vInt(3) && g[2][0] == vInt(4), "long", "a field of %d bytes spoils the import", l); for (int i = 0; i < 2; i++) MC_CHECK(g[i][i].t == V_STR && g[i][i].s.size() >= 4000 && (t + "\"").compare(0, g[i][i].s.size(), g[i][i].s) == 0, "cut", "a field of %d bytes is imported as %s", l, g[i][i].str().c_str()); return true; });
    return finish(C.failed());
  }
  if (p == "errors") {
    C.run([&] { return std::string("missing file"); }, [&] { unlink("none.csv"); img_restore(db2, E2); MC_CHECK(wg_import_db_csv(db2, "none.csv") == -1 && rows(db2).empty(), "missing", "importing a missing file does not return -1"); return true; });
    C.run([&] { return std::string("directory"); }, [&] { mkdir("dir.csv", 0700); img_restore(db2, E2); gint rc = wg_import_db_csv(db2, "dir.csv"); MC_CHECK(rc < 0 && rows(db2).empty(), "directory", "importing a directory returns %ld", (long)rc); return true; });
    C.run([&] { return std::string("unwritable target"); }, [&] { img_restore(db, E1); std::vector<Row> w; addrow(db, {vInt(1)}, w); auto b = rows(db); wg_export_db_csv(db, "nodir/x.csv"); MC_CHECK(rows(db) == b, "export", "a failing export changes the database"); return true; });
    C.run([&] { return std::string("empty database"); }, [&] { img_restore(db, E1); rmfile("t.csv"); wg_export_db_csv(db, "t.csv"); MC_CHECK(get("t.csv") == "", "empty", "an empty database gives a non-empty file"); return true; });
    // every amount of free space: an import that reports success has stored everything
    std::string s; std::vector<Row> want; for (int i = 0; i < 6; i++) { std::string f = fmt("%d", i) + std::string(600, 'a' + i), line; Row r; for (int j = 0; j < 3; j++) { std::string t = j == 1 ? fmt("%d", i) : j == 0 ? f : fmt("%lld", 1LL << 61); line += (j ? "," : "") + t; r.push_back(reft(t)); } s += line + "\n"; want.push_back(r); } put("m.csv", s);
    void *sm = wg_attach_local_database(400000); if (!sm) return 2; Image *SE = img_save(sm); static bool okseen = false, badseen = false;
    for (int mode = 0; mode < 3; mode++) for (int left = 0; left < 120; left++) C.run([&] { return fmt("import into a full database after %d removals, mode %d", left, mode); }, [&] { img_restore(sm, SE);
      std::vector<void *> held; void *r; while ((r = wg_create_record(sm, 80))) held.push_back(r); std::vector<void *> small; while ((r = wg_create_record(sm, 2))) small.push_back(r); std::string pad(600, 'p'); std::vector<gint> es; gint e; while ((e = wg_encode_str(sm, (pad + fmt("%zu", es.size())).c_str(), NULL)) != WG_ILLEGAL) es.push_back(e); while ((e = wg_encode_int(sm, (1LL << 62) + es.size())) != WG_ILLEGAL) es.push_back(e);
      // give back a part: records, texts and integers in turn
      size_t base; for (int i = 0; i < left; i++) { int w = mode == 0 ? i % 4 : mode == 1 ? 2 + i % 2 : i % 3 ? i % 2 * 3 : 2; if (w == 0 && !small.empty()) { wg_delete_record(sm, small.back()); small.pop_back(); } else if (w == 1 && !held.empty()) { wg_delete_record(sm, held.back()); held.pop_back(); } else if (!es.empty()) { wg_free_encoded(sm, w == 2 ? es.back() : es.front()); if (w == 2) es.pop_back(); else es.erase(es.begin()); } }
      auto old = rows(sm); base = old.size(); gint rc = wg_import_db_csv(sm, "m.csv"); auto all = rows(sm); std::vector<VRow> nw; size_t kept = 0; for (auto &x : all) { bool o = true; for (auto &v : x) if (v.t != V_NULL) o = false; if (o && (x.size() == 80 || x.size() == 2)) kept++; else nw.push_back(x); }
      MC_CHECK(kept == base, "existing", "a failing import removes existing records"); if (rc == 0) { okseen = true; same(want, nw, s); } else { badseen = true; MC_CHECK(rc < 0, "rc", "an import returns %ld", (long)rc); } count(rc == 0 ? "import_ok" : "import_refused"); fsck(sm); return true; });
    return finish(C.failed());
  }
  return 2;
}
