// C09/C28: every value of the small types, every boundary of the others, every text length x qualifier x buffer size; calendar and clock.
#include <climits>
#include <cfloat>
#include <set>
#include <map>
#include <sys/timeb.h>
#include "mc.h"
#include "wgdb.h"
using namespace mc;
static void *db; static void *rec; static Cases *CC;
static time_t fake = 0; static int fakems = 0; static bool faking = false;
extern "C" { time_t __real_time(time_t *); time_t __wrap_time(time_t *t) { time_t v = faking ? fake : __real_time(0); if (t) *t = v; return v; }
int __wrap_ftime(struct timeb *b) { struct timeval tv; gettimeofday(&tv, 0); b->time = faking ? fake : tv.tv_sec; b->millitm = faking ? fakems : tv.tv_usec / 1000; b->timezone = 0; b->dstflag = 0; return 0; }
int __real_gettimeofday(struct timeval *, void *); int __wrap_gettimeofday(struct timeval *t, void *z) { if (!faking) return __real_gettimeofday(t, z); t->tv_sec = fake; t->tv_usec = fakems * 1000; return 0; }
int __real_clock_gettime(clockid_t, struct timespec *); int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!faking || c != CLOCK_REALTIME) return __real_clock_gettime(c, t); t->tv_sec = fake; t->tv_nsec = fakems * 1000000L; return 0; } }

// a value is encoded, decoded, stored, read from the field, copied to a second field, and removed
static void trip(const Val &v, bool deep = true) {
  gint e = enc_val(db, v); MC_CHECK(e != WG_ILLEGAL, "encode", "%s is refused", v.str().c_str());
  MC_CHECK(wg_get_encoded_type(db, e) == v.t, "type", "%s gets type %ld", v.str().c_str(), (long)wg_get_encoded_type(db, e));
  Val g = dec_val(db, e); MC_CHECK(g == v, "roundtrip", "%s reads back as %s", v.str().c_str(), g.str().c_str());
  if (!deep) { MC_CHECK(wg_free_encoded(db, e) == 0, "free", "%s cannot be freed", v.str().c_str()); return; }
  MC_CHECK(wg_set_field(db, rec, 0, e) == 0, "set", "%s cannot be stored", v.str().c_str());
  MC_CHECK(wg_get_field_type(db, rec, 0) == v.t, "field-type", "a field of %s has type %ld", v.str().c_str(), (long)wg_get_field_type(db, rec, 0));
  g = dec_val(db, wg_get_field(db, rec, 0)); MC_CHECK(g == v, "field", "%s reads back from the field as %s", v.str().c_str(), g.str().c_str());
  MC_CHECK(wg_set_field(db, rec, 0, 0) == 0, "clear", "the field with %s cannot be cleared", v.str().c_str());
}
static void refused(const Val &v) { gint e = enc_val(db, v); MC_CHECK(e == WG_ILLEGAL, "range", "%s is out of range but is encoded as %s", v.str().c_str(), dec_val(db, e).str().c_str()); }
static void batch(const char *what, ll from, ll to, Val (*mk)(ll), bool deep) {
  for (ll a = from; a <= to; a += 4096) CC->run([&] { return fmt("%s %lld..", what, a); }, [&] { for (ll i = a; i <= to && i < a + 4096; i++) trip(mk(i), deep); count("values", std::min(to - a + 1, 4096LL)); return true; });
}
typedef gint (*Cp)(void *, gint, char *, gint);
static void copies(const Val &v, gint e, const char *what, Cp cp, const std::string &want, bool blob, bool wide) {
  int L = want.size(), need = blob ? L : L + 1; std::vector<char> buf(L + 64);
  std::set<int> sizes = {-1, 0, 1, 2, 3, L / 2, L - 1, L, L + 1, L + 2, L + 9, INT_MIN}; if (wide) for (int i = 0; i <= L + 3; i++) sizes.insert(i);
  for (int bl : sizes) {
    memset(buf.data(), 0x5a, buf.size()); gint n = cp(db, e, buf.data() + 16, bl);
    if (bl < 1 || bl < need) MC_CHECK(n == -1, "copy-small", "%s of %s into a buffer of %d bytes returns %ld", what, v.str().c_str(), bl, (long)n);
    else { MC_CHECK(n == L, "copy-len", "%s of %s returns %ld", what, v.str().c_str(), (long)n); MC_CHECK(!memcmp(buf.data() + 16, want.data(), L) && (blob || buf[16 + L] == 0), "copy", "%s of %s delivers something else", what, v.str().c_str()); }
    for (int i = 0; i < (int)buf.size(); i++) if (i < 16 || i >= 16 + std::max(bl, 0)) MC_CHECK(buf[i] == 0x5a, "overrun", "%s of %s into a buffer of %d bytes writes at position %d", what, v.str().c_str(), bl, i - 16);
  }
}
static void text(const Val &v, bool wide) {
  trip(v); gint e = enc_val(db, v); MC_CHECK(e != WG_ILLEGAL, "encode", "%s is refused", v.str().c_str()); MC_CHECK(wg_set_field(db, rec, 0, e) == 0, "set", "%s cannot be stored", v.str().c_str());
  std::string x = v.hasx ? v.x : ""; gint xl;
  switch (v.t) {
    case V_STR: copies(v, e, "str_copy", wg_decode_str_copy, v.s, false, wide); copies(v, e, "lang_copy", wg_decode_str_lang_copy, x, false, wide); xl = wg_decode_str_lang_len(db, e); break;
    case V_XML: copies(v, e, "xml_copy", wg_decode_xmlliteral_copy, v.s, false, wide); copies(v, e, "xsdtype_copy", wg_decode_xmlliteral_xsdtype_copy, x, false, wide); xl = wg_decode_xmlliteral_xsdtype_len(db, e); break;
    case V_URI: copies(v, e, "uri_copy", wg_decode_uri_copy, v.s, false, wide); copies(v, e, "prefix_copy", wg_decode_uri_prefix_copy, x, false, wide); xl = wg_decode_uri_prefix_len(db, e); break;
    default: copies(v, e, "blob_copy", wg_decode_blob_copy, v.s, true, wide); copies(v, e, "type_copy", wg_decode_blob_type_copy, x, false, wide); xl = wg_decode_blob_type_len(db, e); break;
  }
  MC_CHECK(xl == (gint)x.size(), "qualifier-len", "length of the qualifier of %s is %ld", v.str().c_str(), (long)xl);
  MC_CHECK(wg_set_field(db, rec, 0, 0) == 0, "clear", "the field cannot be cleared");
}
// ---- calendar (independent: a day counter)
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int mlen(int y, int m) { static int l[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : l[m - 1]; }
static ll dayno(int y, int m, int d) { ll n = 0; int p = y - 1; n = p * 365LL + p / 4 - p / 100 + p / 400; for (int i = 1; i < m; i++) n += mlen(y, i); return n + d; }
static bool okdate(int y, int m, int d) { return y >= 1 && m >= 1 && m <= 12 && d >= 1 && d <= mlen(y, m); }
static bool oktime(int h, int m, int s, int p) { return h >= 0 && m >= 0 && m <= 59 && s >= 0 && s <= 59 && p >= 0 && p <= 99 && (h <= 23 || (h == 24 && m + s + p == 0)); }

int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts(); std::string p = o.profile;
  db = wg_attach_local_database(20000000); if (!db) return 2; rec = wg_create_record(db, 2);
  Cases C; CC = &C;
  std::vector<ll> B; for (int k = 0; k < 64; k++) for (ll d = -2; d <= 2; d++) { ll b = (ll)(1ULL << k); B.push_back((ll)((unsigned long long)b + d)); B.push_back((ll)(0ULL - (unsigned long long)b + d)); }
  if (p == "imm") {
    batch("int", -70000, 70000, [](ll i) { return vInt(i); }, true); batch("char", -128, 127, [](ll i) { return vChar((int)i); }, true); batch("var", 0, 70000, [](ll i) { return vVar(i); }, true);
    batch("time", 0, 8640000, [](ll i) { return vTime((int)i); }, false); batch("date", -8323200, 8323200, [](ll i) { return vDate((int)i); }, false); batch("fixpoint", -8000000, 8000000, [](ll i) { return vFix(i / 10000.0); }, false);
    for (ll b : B) C.run([&] { return fmt("around %lld", b); }, [&] {
      trip(vInt(b)); if (b >= -(1LL << 59) && b < (1LL << 59)) trip(vVar(b)); else refused(vVar(b));
      if (b == (int)b) { if (b >= 0 && b <= 8640000) trip(vTime(b)); else refused(vTime(b)); if (b >= -8323200 && b <= 8323200) trip(vDate(b)); else refused(vDate(b)); }
      if (b >= -800 && b <= 800) trip(vFix(b)); else refused(vFix(b)); return true; });
    for (int i : {8640001, 8640002, 8640255, 8640256, -1, -8640000}) C.run([&] { return fmt("time %d", i); }, [&] { refused(vTime(i)); return true; });
    for (int i : {8323201, 8323202, -8323201, 8388607, 8388608}) C.run([&] { return fmt("date %d", i); }, [&] { refused(vDate(i)); return true; });
    for (double d : {800.00001, 800.0001, -800.0001, 838.8607, 838.8608, 838.8609, -838.8608, 1e9, -1e9, 1e300, 214748.3647, 214748.3648, (double)INFINITY, -(double)INFINITY, (double)NAN}) C.run([&] { return fmt("fixpoint %g", d); }, [&] { refused(vFix(d)); return true; });
    for (double d : {0.00004, 0.00005, 0.00006, -0.00004, -0.00006, 799.99994, 799.99996, -799.99996, 1.23456, -1.23456, 0.99995, 1e-300}) C.run([&] { return fmt("fixpoint %g is rounded", d); }, [&] { gint e = wg_encode_fixpoint(db, d); MC_CHECK(e != WG_ILLEGAL, "encode", "fixpoint %g is refused", d); double g = wg_decode_fixpoint(db, e); MC_CHECK(fabs(g - d) <= 0.00005 + 1e-12 && fabs(g * 10000 - round(g * 10000)) < 1e-6, "roundtrip", "fixpoint %g reads back as %g", d, g); return true; });
    for (int ex = 0; ex < 2048; ex++) C.run([&] { return fmt("doubles with exponent %d", ex); }, [&] { for (int s = 0; s < 2; s++) for (ll mt : {0LL, 1LL, 2LL, 1LL << 51, (1LL << 52) - 1, 0x5555555555555LL, 0xaaaaaaaaaaaaaLL, 1LL << 31, 1LL << 32, 0xffffffffLL}) { unsigned long long u = ((unsigned long long)s << 63) | ((unsigned long long)ex << 52) | mt; double d; memcpy(&d, &u, 8); trip(vDbl(d)); } return true; });
    C.run([&] { return std::string("null"); }, [&] { trip(vNull()); return true; });
    C.run([&] { return std::string("records"); }, [&] { std::vector<void *> rs; for (int i = 0; i < 300; i++) rs.push_back(wg_create_record(db, i % 40)); for (void *r : rs) { gint e = wg_encode_record(db, r); MC_CHECK(wg_get_encoded_type(db, e) == WG_RECORDTYPE && wg_decode_record(db, e) == r, "roundtrip", "a record reads back as another"); MC_CHECK(wg_set_field(db, rec, 1, e) == 0 && wg_decode_record(db, wg_get_field(db, rec, 1)) == r, "field", "a record in a field reads back as another"); } return true; });
    // many values held at the same time
    C.run([&] { return std::string("full integers and doubles held together"); }, [&] { std::vector<std::pair<gint, Val>> h; for (int i = 0; i < 4000; i++) { Val v = i & 1 ? vInt((1LL << 61) + i) : vDbl(i * 0.1); h.push_back({enc_val(db, v), v}); } for (auto &x : h) { Val g = dec_val(db, x.first); MC_CHECK(g == x.second, "roundtrip", "%s reads back as %s", x.second.str().c_str(), g.str().c_str()); } for (auto &x : h) MC_CHECK(wg_free_encoded(db, x.first) == 0, "free", "cannot be freed"); return true; });
    for (int i = 0; i <= WG_ANONCONSTTYPE + 3; i++) C.run([&] { return fmt("name of type %d", i); }, [&] { return wg_get_type_name(db, i) != NULL; });
  } else if (p == "text") {
    int N = o.num("n", 160); std::vector<std::string> Q = {"", "e", "en", std::string(30, 'q'), std::string(31, 'q'), std::string(32, 'q'), std::string(33, 'q'), std::string(100, 'q')};
    std::vector<int> lens; for (int i = 0; i <= N; i++) lens.push_back(i); for (int i : {255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 65535, 65536, 65537, 1000000, 3000001}) lens.push_back(i); for (int k = 8; k < 20; k++) for (int d = -9; d <= 9; d++) lens.push_back((1 << k) + d);
    for (int L : lens) for (int t : {V_STR, V_URI, V_XML, V_BLOB}) for (int q = t == V_XML ? 0 : -1; q < (int)Q.size(); q++) {
      if (L > 300 && q > 2) continue;
      C.run([&] { return fmt("%s of length %d, qualifier %s", wg_get_type_name(db, t), L, q < 0 ? "none" : fmt("of length %zu", Q[q].size()).c_str()); }, [&] {
        std::string s; for (int i = 0; i < L; i++) s += t == V_BLOB ? (char)(i * 7 + L) : (char)(1 + (i * 7 + L) % 255);
        Val v = q < 0 ? vTxt(t, s) : vTxt(t, s, Q[q]); text(v, L <= 40 && q <= 3); return true; }); }
    for (int c = 1; c < 256; c++) for (int t : {V_STR, V_URI, V_XML, V_BLOB}) for (int L : {1, 31, 33}) C.run([&] { return fmt("byte %d", c); }, [&] { std::string s(L, (char)c), x(1, (char)c); text(vTxt(t, s, x), false); if (t != V_XML) text(vTxt(t, s), false); return true; });
    C.run([&] { return std::string("blobs of zeros"); }, [&] { for (int L = 1; L < 100; L++) { text(vTxt(V_BLOB, std::string(L, '\0')), true); text(vTxt(V_BLOB, std::string(L, '\0'), "t"), true); } return true; });
    // equal prefixes, held together: each keeps its own content
    C.run([&] { return std::string("similar texts held together"); }, [&] { std::vector<std::pair<gint, Val>> h; void *r = wg_create_record(db, 2000); int k = 0; for (int L = 0; L < 80; L++) for (int t : {V_STR, V_URI, V_BLOB}) for (int q = -1; q < 5; q++) { Val v = q < 0 ? vTxt(t, std::string(L, 'a')) : vTxt(t, std::string(L, 'a'), Q[q]); gint e = enc_val(db, v); MC_CHECK(e != WG_ILLEGAL && wg_set_field(db, r, k++, e) == 0, "encode", "refused"); h.push_back({e, v}); }
      for (auto &x : h) { Val g = dec_val(db, x.first); MC_CHECK(g == x.second, "roundtrip", "%s reads back as %s", x.second.str().c_str(), g.str().c_str()); } MC_CHECK(wg_delete_record(db, r) == 0, "delete", "no delete"); return true; });
    C.run([&] { return std::string("storage is back"); }, [&] { HeapCount hc; fsck(db, &hc); return true; });
  } else if (p == "date") {
    for (int y = 1; y <= 22788; y++) C.run([&] { return fmt("all days of the year %d", y); }, [&] {
      for (int m = 1; m <= 12; m++) for (int d = 1; d <= mlen(y, m); d++) {
        ll want = dayno(y, m, d); if (want > 8323200) break; int got = wg_ymd_to_date(db, y, m, d); MC_CHECK(got == want, "ymd", "%d-%d-%d is day %d instead of %lld", y, m, d, got, want);
        int a, b, c; wg_date_to_ymd(db, got, &a, &b, &c); MC_CHECK(a == y && b == m && c == d, "to-ymd", "day %d of %d-%d-%d is converted to %d-%d-%d", got, y, m, d, a, b, c);
        char buf[32]; memset(buf, 0x5a, 32); int tm = (d * 31 + m) * 20011 % 8640000; wg_strf_iso_datetime(db, got, tm, buf); std::string w = fmt("%04d-%02d-%02dT%02d:%02d:%02d.%02d", y, m, d, tm / 360000, tm / 6000 % 60, tm / 100 % 60, tm % 100);
        MC_CHECK(buf[24] == 0x5a, "overrun", "the ISO text of day %d is longer than 24 bytes", got); MC_CHECK(w == buf, "iso", "day %d, time %d has the text %s instead of %s", got, tm, buf, w.c_str());
        if (y <= 9999) { int r = wg_strp_iso_date(db, buf), s = wg_strp_iso_time(db, buf + 11); MC_CHECK(r == got && s == tm, "iso-back", "%s is read as day %d time %d", buf, r, s); } }
      count("days", 365 + leap(y)); return true; });
    for (int y = -2; y <= 2500; y++) C.run([&] { return fmt("valid and invalid dates of the year %d", y); }, [&] { for (int m = -1; m <= 14; m++) for (int d = -1; d <= 33; d++) { int got = wg_ymd_to_date(db, y, m, d), want = okdate(y, m, d) ? dayno(y, m, d) : -1; MC_CHECK(got == want, want < 0 ? "ymd-invalid" : "ymd", "date %d-%d-%d gives %d instead of %d", y, m, d, got, want);
        if (y >= 0 && m >= 0 && d >= 0) { std::string t = fmt("%04d-%02d-%02d", y, m, d); int r = wg_strp_iso_date(db, t.c_str()); MC_CHECK(r == want, want < 0 ? "iso-invalid" : "iso-back", "text %s is read as %d instead of %d", t.c_str(), r, want); } } return true; });
    for (int y : {INT_MIN, INT_MIN + 1, -10000}) C.run([&] { return fmt("year %d", y); }, [&] { MC_CHECK(wg_ymd_to_date(db, y, 1, 1) == -1, "ymd-invalid", "year %d is accepted", y); return true; });
  } else if (p == "time") {
    for (int h = -1; h <= 26; h++) for (int m = -1; m <= 62; m++) C.run([&] { return fmt("all times of %d:%d", h, m); }, [&] { for (int s = -1; s <= 62; s++) for (int q = -1; q <= 101; q++) {
      int got = wg_hms_to_time(db, h, m, s, q), want = oktime(h, m, s, q) ? h * 360000 + m * 6000 + s * 100 + q : -1; MC_CHECK(got == want, want < 0 ? "hms-invalid" : "hms", "time %d:%d:%d.%d gives %d instead of %d", h, m, s, q, got, want);
      if (want >= 0) { int a, b, c, d; wg_time_to_hms(db, got, &a, &b, &c, &d); MC_CHECK(a == h && b == m && c == s && d == q, "to-hms", "time %d of %d:%d:%d.%d is converted to %d:%d:%d.%d", got, h, m, s, q, a, b, c, d); }
      if (h >= 0 && m >= 0 && s >= 0 && q >= 0 && q < 100) { std::string t = fmt("%02d:%02d:%02d.%02d", h, m, s, q); int r = wg_strp_iso_time(db, t.c_str()); MC_CHECK(r == want, want < 0 ? "iso-invalid" : "iso-back", "text %s is read as %d instead of %d", t.c_str(), r, want); if (!q) { t.resize(8); r = wg_strp_iso_time(db, t.c_str()); MC_CHECK(r == want, want < 0 ? "iso-invalid" : "iso-back", "text %s is read as %d instead of %d", t.c_str(), r, want); } } } return true; });
  } else if (p == "isotext") {   // every text one edit away from valid ones, and all short ones over the alphabet
    std::string A = "0125 9-:.T/x+"; std::set<std::string> S;
    for (std::string b : {"2010-03-31", "2012-02-29", "0001-01-01", "9999-12-31", "12:59:00.33", "23:59:59.99", "00:00:00", "2010-03-31T12:59:00.33", "1:2:3", "2010-3-1"}) { S.insert(b); for (size_t i = 0; i <= b.size(); i++) { if (i < b.size()) { std::string t = b; t.erase(i, 1); S.insert(t); for (size_t j = i; j < t.size(); j++) { std::string u = t; u.erase(j, 1); S.insert(u); } } for (char c : A) { std::string t = b; t.insert(i, 1, c); S.insert(t); if (i < b.size()) { t = b; t[i] = c; S.insert(t); for (size_t j = i + 1; j < b.size(); j++) for (char e : A) { std::string u = t; u[j] = e; S.insert(u); } } } S.insert(b.substr(0, i)); } }
    std::vector<std::string> lv = {""}; for (int k = 0; k < o.num("k", 4); k++) { std::vector<std::string> n; for (auto &s : lv) for (char c : A) n.push_back(s + c); for (auto &s : n) S.insert(s); lv = n; }
    auto num = [](const std::string &s, size_t &i, int w, int &v, int &nd) { while (i < s.size() && isspace((unsigned char)s[i])) i++; v = 0; nd = 0; bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i++] == '-'; w--; } while (i < s.size() && isdigit((unsigned char)s[i]) && nd < w) { v = v * 10 + s[i++] - '0'; nd++; } if (neg) v = -v; return nd > 0; };
    auto digits = [](const std::string &s, size_t i, size_t n) { if (i + n > s.size()) return false; for (size_t k = i; k < i + n; k++) if (!isdigit((unsigned char)s[k])) return false; return true; };
    for (auto &s : S) C.run([&] { return "text '" + s + "'"; }, [&] {
      int r = wg_strp_iso_date(db, s.c_str()); bool nt = false;
      // strict: YYYY-MM-DD at the start must be read exactly; anything accepted must be the calendar date its three numbers give
      if (digits(s, 0, 4) && s.size() >= 10 && s[4] == '-' && digits(s, 5, 2) && s[7] == '-' && digits(s, 8, 2)) { int y = atoi(s.substr(0, 4).c_str()), m = atoi(s.substr(5, 2).c_str()), d = atoi(s.substr(8, 2).c_str()); int want = okdate(y, m, d) ? dayno(y, m, d) : -1; MC_CHECK(r == want, want < 0 ? "iso-invalid" : "iso-back", "text '%s' is read as day %d instead of %d", s.c_str(), r, want); nt = true; }
      else if (r != -1) { size_t i = 0; int y, m, d, n; bool ok = num(s, i, 4, y, n) && i < s.size() && s[i++] == '-' && num(s, i, 2, m, n) && i < s.size() && s[i++] == '-' && num(s, i, 2, d, n); MC_CHECK(ok && okdate(y, m, d) && dayno(y, m, d) == r, "iso-invalid", "text '%s' is read as day %d", s.c_str(), r); nt = true; }
      r = wg_strp_iso_time(db, s.c_str());
      if (digits(s, 0, 2) && s.size() >= 8 && s[2] == ':' && digits(s, 3, 2) && s[5] == ':' && digits(s, 6, 2) && (s.size() == 8 || (s[8] == '.' && digits(s, 9, 2)) || (s[8] != '.' && !isdigit((unsigned char)s[8])))) { int h = atoi(s.substr(0, 2).c_str()), m = atoi(s.substr(3, 2).c_str()), c = atoi(s.substr(6, 2).c_str()), q = s.size() > 8 && s[8] == '.' ? atoi(s.substr(9, 2).c_str()) : 0; int want = oktime(h, m, c, q) ? h * 360000 + m * 6000 + c * 100 + q : -1; MC_CHECK(r == want, want < 0 ? "iso-invalid" : "iso-back", "text '%s' is read as time %d instead of %d", s.c_str(), r, want); nt = true; }
      else if (r != -1) { size_t i = 0; int h, m, c, q = 0, n = 2; bool ok = num(s, i, 2, h, n) && i < s.size() && s[i++] == ':' && num(s, i, 2, m, n) && i < s.size() && s[i++] == ':' && num(s, i, 2, c, n); int q2 = 0, n2 = 0; if (ok && i < s.size() && s[i] == '.') { i++; if (!num(s, i, 2, q, n)) q = 0; else if (n == 1) q2 = q * 10, n2 = 1; }
        ll want = h * 360000LL + m * 6000 + c * 100 + q; MC_CHECK(ok && ((r == want && oktime(h, m, c, q)) || (n2 && r == want - q + q2 && oktime(h, m, c, q2))), "iso-invalid", "text '%s' is read as time %d", s.c_str(), r); nt = true; }
      return nt; });
  } else if (p == "now") {
    for (const char *tz : {"UTC", "EST5", "XXX-13"}) { setenv("TZ", tz, 1); tzset(); ll off = !strcmp(tz, "UTC") ? 0 : !strcmp(tz, "EST5") ? -5 * 3600 : 13 * 3600;
      std::set<ll> ts; for (ll b : {0LL, 86400LL, 951782400LL, 951868800LL, 1078012800LL, 1600000000LL, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 4107542400LL, 253402300799LL, 10000000000LL}) for (ll d = -3; d <= 3; d++) for (ll h = -14; h <= 14; h++) if (b + h * 3600 + d >= 0) ts.insert(b + h * 3600 + d);
      for (int d = 0; d < 800; d++) ts.insert(1577836800LL + d * 86400LL + (d * 7919) % 86400);
      for (ll t : ts) for (int ms : {0, 9, 10, 500, 999}) C.run([&] { return fmt("now = %lld.%03d in %s", t, ms, tz); }, [&] {
        fake = t; fakems = ms; faking = true; int ud = wg_current_utcdate(db), ut = wg_current_utctime(db), ld = wg_current_localdate(db), lt = wg_current_localtime(db); faking = false;
        ll l = t + off, lday = l >= 0 ? l / 86400 : -((86399 - l) / 86400); int epoch = dayno(1970, 1, 1);
        MC_CHECK(ud == epoch + t / 86400, "utcdate", "the UTC date is %d", ud); MC_CHECK(ut == (t % 86400) * 100 + ms / 10, "utctime", "the UTC time is %d instead of %lld", ut, (t % 86400) * 100 + ms / 10);
        MC_CHECK(ld == epoch + lday, "localdate", "the local date is %d instead of %lld", ld, epoch + lday); MC_CHECK(lt == (l - lday * 86400) * 100 + ms / 10, "localtime", "the local time is %d", lt); return true; }); }
  } else return 2;
  finish(C.failed());
}
