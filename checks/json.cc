// C24/C25: JSON text <-> stored documents. Exhaustive enumeration of documents, characters, chunk
// positions, and of texts over a token alphabet.
#include "jsondoc.h"
#include <limits.h>
using namespace mc;
static void *db; static Image *base;
static std::string tmpf;
static void reset() { img_restore(db, base); }
static void cap(void *ctx, const char *s, size_t n) { ((std::string *)ctx)->append(s, n); }
static std::string shortj(const std::string &s) { return s.size() > 160 ? s.substr(0, 140) + fmt("..(%zu bytes)", s.size()) : s; }
static void writef(const std::string &s) { FILE *f = fopen(tmpf.c_str(), "w"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) { fprintf(out(), "scratch file\n"); exit(2); } fclose(f); }
static std::string sgn(const J &j) { if (j.k == J_TRUE || j.k == J_FALSE) return "literal"; for (auto &x : j.a) { std::string s = sgn(x); if (s.size()) return s; } return ""; }
static bool nul(const J &j) { if (j.s.find('\0') != std::string::npos) return true; for (auto &k : j.key) if (k.find('\0') != std::string::npos) return true; for (auto &x : j.a) if (nul(x)) return true; return false; }
static std::string sg(const J &j, const char *b) { if (sgn(j).size()) return "boolean-lost"; if (nul(j)) return "nul-char-lost"; return b; }
// how: 0 document 1 fragment 2 param 3 file
static const char *HOW[] = {"document", "fragment", "param", "file"};
static gint import(int how, const std::string &t, void **rec) {
  *rec = (void *)-1; gint r;
  if (how == 0) r = wg_parse_json_document(db, t.c_str(), rec);
  else if (how == 1) r = wg_parse_json_fragment(db, t.c_str(), rec);
  else if (how == 2) r = wg_parse_json_param(db, t.c_str(), rec);
  else { writef(t); r = wg_parse_json_file(db, tmpf.c_str()); if (!r) { *rec = 0; for (void *x = wg_get_first_record(db); x; x = wg_get_next_record(db, x)) if (is_schema_document((gint *)x)) { MC_CHECK(!*rec, "file-two", "one file gave two documents"); *rec = x; } } }
  return r;
}
// full round trip of one text denoting j
static void trip(const J &j, const std::string &text, int hows = 15) {
  for (int how = 0; how < 4; how++) if (hows >> how & 1) {
    reset(); void *rec; gint r = import(how, text, &rec);
    MC_CHECK(r == 0 && rec && rec != (void *)-1, sg(j, "import"), "import (%s) of valid text %s gives %ld", HOW[how], shortj(text).c_str(), (long)r);
    JRecs rs; J g = jreadrec(db, rec, &rs);
    MC_CHECK(g == j, sg(j, "stored"), "import (%s) of %s stores %s", HOW[how], shortj(text).c_str(), shortj(g.text()).c_str());
    MC_CHECK(!!is_schema_document((gint *)rec) == (how != 1), "docmark", "document mark after %s import", HOW[how]);
    for (void *x : rs.all) MC_CHECK(!!is_special_record((gint *)x) == (how == 2), "parammark", "records of a %s have a wrong mark", HOW[how]);
    if (how == 1) continue;
    std::string o; wg_print_json_document(db, (void *)cap, &o, rec);
    J e; MC_CHECK(jparse(o, e), sg(j, "export-bad"), "export of %s gives bad JSON: %s", shortj(text).c_str(), shortj(o).c_str());
    MC_CHECK(e == j, sg(j, "export"), "export of %s gives %s", shortj(text).c_str(), shortj(o).c_str());
    void *rec2; r = import(0, o, &rec2); MC_CHECK(r == 0, sg(j, "reimport"), "exported text refused: %s", shortj(o).c_str()); MC_CHECK(jreadrec(db, rec2) == j, sg(j, "reimport2"), "exported text means something else: %s", shortj(o).c_str());
  }
  reset(); MC_CHECK(wg_check_json(db, text.c_str()) == 0, sg(j, "check"), "the check function refuses %s", shortj(text).c_str());
}
static std::string uesc(unsigned c) { if (c < 0x10000) return fmt("\\u%04X", c); c -= 0x10000; return fmt("\\u%04x\\u%04X", 0xD800 + (c >> 10), 0xDC00 + (c & 0x3FF)); }
static std::string raw(unsigned c) { std::string o; JReader::utf8(o, c); return o; }
static std::vector<J> scalars(bool few) {
  std::vector<J> v = {jI(0), jI(-1), jD(1.5), jS(""), jS("x\"\\/\b\f\n\r\t\x01")}; J n; n.k = J_NULL; v.push_back(n);
  if (few) return v;
  for (ll i : {1LL, 2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 1LL << 60, (1LL << 60) - 1, -(1LL << 60), -(1LL << 60) - 1, 1LL << 62, LLONG_MAX, LLONG_MIN + 1, 999999999999999999LL}) v.push_back(jI(i));
  for (double d : {0.1, 1e300, -1e300, 5.0, 1e-300, 1.7976931348623157e308, 2.2250738585072014e-308, 123456789.123456789, 1.0000000000000002, 1e15, 1e16, 1e20, 1e21, 1e22, 0.0, 3e-5}) v.push_back(jD(d));
  for (int l : {1, 6, 7, 8, 31, 32, 33, 79, 80, 81, 127, 128, 1000, 2047, 2048, 2049, 5000, 16383, 16384, 16385, 40000}) { std::string s; for (int i = 0; i < l; i++) s += 'a' + i % 26; v.push_back(jS(s)); }
  for (unsigned c : {0xE9u, 0x20ACu, 0x1F600u, 0x7Fu, 0x10FFFFu}) { std::string s; for (int i = 0; i < 40; i++) s += raw(c); v.push_back(jS(raw(c))); v.push_back(jS(s)); }
  v.push_back(jS("NULL")); v.push_back(jS("null")); v.push_back(jS("12")); v.push_back(jS("</script>"));
  return v;
}
static std::vector<std::string> keyset(bool few) {
  std::vector<std::string> k = {"", "a", "k\"\\\n\x1f"}; if (few) return k;
  for (int l : {31, 32, 78, 79, 80, 81, 200, 3000}) { std::string s; for (int i = 0; i < l; i++) s += 'A' + i % 26; k.push_back(s); k.push_back(s + "x"); }
  k.push_back(raw(0x1F600)); k.push_back(raw(0xE9) + raw(0x20AC)); std::string s; for (int i = 0; i < 30; i++) s += raw(0x20AC); k.push_back(s); return k;
}
// all trees with exactly n nodes from the small alphabet
static const std::vector<J> &trees(int n) {
  static std::map<int, std::vector<J>> memo; auto it = memo.find(n); if (it != memo.end()) return it->second;
  std::vector<J> r; if (n == 1) for (auto &s : scalars(true)) r.push_back(s);
  std::vector<std::vector<J>> lists; std::function<void(int, std::vector<J> &)> rec = [&](int left, std::vector<J> &cur) { if (!left) { lists.push_back(cur); return; } for (int k = 1; k <= left; k++) for (auto &t : trees(k)) { cur.push_back(t); rec(left - k, cur); cur.pop_back(); } };
  std::vector<J> cur; rec(n - 1, cur); auto ks = keyset(true);
  for (auto &l : lists) { r.push_back(jA(l)); size_t m = 1; for (size_t i = 0; i < l.size(); i++) m *= i < 2 ? ks.size() : 1; for (size_t x = 0; x < m; x++) { J o; o.k = J_OBJ; o.a = l; size_t y = x; for (size_t i = 0; i < l.size(); i++) { o.key.push_back(ks[i < 2 ? y % ks.size() : 1]); if (i < 2) y /= ks.size(); } r.push_back(o); } }
  return memo[n] = r;
}
static std::string spaced(const J &j, int v) { // alternative spelling: white space and comments
  std::string t = j.text(), r; bool in = false; static const char *W[] = {" ", "\n\t ", "/* , \"} */", "// ]x\n"};
  for (size_t i = 0; i < t.size(); i++) { char c = t[i]; if (in) { r += c; if (c == '\\') r += t[++i]; else if (c == '"') in = false; continue; } if (c == '"') in = true; if (strchr("[]{},:", c)) { r += W[v]; r += c; r += W[v]; } else r += c; }
  return r;
}
static void texts() {
  // all token sequences up to a length
  static const char *TK[] = {"{", "}", "[", "]", ",", ":", "\"a\"", "1", "null", "-", ".5", " ", "\"\\", "x", "/**/", "\"", "true", "e9"};
  int n = sizeof TK / sizeof *TK, L = opts().depth; Cases C; std::string last;
  std::function<void(int, std::string)> rec = [&](int left, std::string pre) {
    C.run([&] { return "text " + pre; }, [&] {
      J j; bool ok; { std::string t = pre; size_t p; while ((p = t.find("/**/")) != std::string::npos) t.replace(p, 4, " "); ok = jparse(t, j); if (t != pre) { /* a comment inside a string or token is no comment */ bool in = false, odd = false; for (size_t i = 0; i < pre.size(); i++) { if (pre[i] == '"') in = !in; else if (in && pre[i] == '\\') i++; else if (in && pre[i] == '/') odd = true; } if (odd) return false; } }
      if (ok && j.scalar()) ok = false; bool num = ok && sgn(j).empty();
      reset(); H128 h0 = hash0(), h1; img_hash(db, h0);
      gint c = wg_check_json(db, pre.c_str()); h1 = hash0(); img_hash(db, h1); MC_CHECK(h0 == h1, "check-changes", "the check function changes the database");
      MC_CHECK((c == 0) == ok, "check-wrong", "the check function gives %ld for %s", (long)c, pre.c_str());
      for (int how = 0; how < 4; how++) {
        if (how == 3 && !ok && pre.size() > 4 && left) continue; // files: accepted texts, and rejected ones at the leaves
        void *r; reset(); gint v = import(how, pre, &r);
        MC_CHECK((v == 0) == ok, "import-wrong", "import (%s) gives %ld for %s", HOW[how], (long)v, pre.c_str());
        if (v) { h1 = hash0(); img_hash(db, h1); MC_CHECK(h0 == h1, "reject-changes", "the refused text %s left something in the database (%s)", pre.c_str(), HOW[how]); MC_CHECK(how == 3 || r == NULL || r == (void *)-1, "reject-ptr", "refused import delivers a document"); }
        else if (num) { J g = jreadrec(db, r); MC_CHECK(g == j, sg(j, "stored"), "import (%s) of %s stores %s", HOW[how], pre.c_str(), g.text().c_str()); }
      }
      return ok;
    });
    if (left) for (int k = 0; k < n; k++) rec(left - 1, pre + TK[k]);
  };
  rec(L, ""); finish(C.failed());
}
static bool clean(const std::string &t) { for (unsigned char c : t) if (c > 126 || c == 0 || c == 11 || c == 12 || c == '/') return false; return true; }
static void mutate() {
  std::vector<std::string> bases = {"{\"a\":[1,-2.5e3,\"x\\u00e9\\n\"],\"b\":{\"c\":null}}", "[\"\\ud83d\\ude00\",\"\xf0\x9f\x98\x80\xc3\xa9\",[[{}]],0]", "{\"k\" : [ ] , /* c */ \"d\":\"\\\"\\\\\" } // e"};
  Cases C; for (auto &b : bases) for (size_t p = 0; p <= b.size(); p++) for (int kind = 0; kind < 3; kind++) for (int c = 0; c < (kind == 2 ? 2 : 256); c++) {
    std::string t = b; if (kind == 0) { if (p == b.size()) continue; t[p] = c; } else if (kind == 1) t.insert(p, 1, (char)c); else { if (p == b.size()) continue; if (c) t.resize(p); else t.erase(p, 1); }
    C.run([&] { return fmt("%s at %zu (byte %d) of ", kind == 0 ? "replace" : kind == 1 ? "insert" : c ? "cut" : "delete", p, c) + b; }, [&] {
      std::string z = t.c_str(); reset(); H128 h0 = hash0(), h1; img_hash(db, h0); gint ck = wg_check_json(db, t.c_str()); h1 = hash0(); img_hash(db, h1); MC_CHECK(h0 == h1, "check-changes", "the check function changes the database");
      bool ok = ck == 0; J j; if (clean(z)) { bool want = jparse(z, j) && !j.scalar(); MC_CHECK(ok == want, "check-wrong", "the check function gives %ld for %s", (long)ck, z.c_str()); }
      for (int how = 0; how < 4; how++) {
        void *r; reset(); gint v = import(how, how == 3 ? t : z, &r); bool w = ok; bool zf = how == 3 && z.size() < t.size(); // a zero byte inside a file
        if (!zf) MC_CHECK((v == 0) == w, "import-wrong", "import (%s) gives %ld where the check gives %ld", HOW[how], (long)v, (long)ck);
        if (v) { h1 = hash0(); img_hash(db, h1); MC_CHECK(h0 == h1, "reject-changes", "a refused text left something in the database (%s)", HOW[how]); }
        else if (clean(z) && !zf) { J g = jreadrec(db, r); MC_CHECK(g == j, sg(j, "stored"), "import (%s) of %s stores %s", HOW[how], z.c_str(), g.text().c_str()); }
        if (!v && how == 0) { std::string o; wg_print_json_document(db, (void *)cap, &o, r); if (clean(z)) { J e; MC_CHECK(jparse(o, e) && e == j, sg(j, "export"), "export gives %s", o.c_str()); } }
      }
      return ok;
    });
  }
  // nesting, numbers out of range
  auto both = [&](const std::string &t, int want) { C.run([&] { return "text " + shortj(t); }, [&] {
    reset(); H128 h0 = hash0(), h1; img_hash(db, h0); bool ok = wg_check_json(db, t.c_str()) == 0; MC_CHECK(want < 0 || ok == want, "check-wrong", "check gives %d for %s", ok, shortj(t).c_str());
    for (int how = 0; how < 4; how++) { void *r; reset(); gint v = import(how, t, &r); MC_CHECK((v == 0) == ok, "import-wrong", "import (%s) gives %ld, the check %s, for %s", HOW[how], (long)v, ok ? "accepts" : "refuses", shortj(t).c_str()); if (v) { h1 = hash0(); img_hash(db, h1); MC_CHECK(h0 == h1, "reject-changes", "a refused text left something in the database"); } }
    if (ok) { J j; if (jparse(t, j)) trip(j, t); } return true; }); };
  for (int d = 0; d <= 140; d++) for (int v = 0; v < 3; v++) { std::string a, z; for (int i = 0; i < d; i++) { bool o = v == 1 || (v == 2 && i % 2); a += o ? "{\"k\":" : "["; z = (o ? "}" : "]") + z; } both(a + (d ? "1" : "[]") + z, d <= 5 ? 1 : -1); if (d) both(a + "1" + z + "]", 0), both(a + "1" + z.substr(1), 0), both(a + "1" + z + " 1", 0); }
  for (const char *s : {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "1e308", "1e309", "-1e999", "1e-400", "0.1e1", "1E+2", "01", "-0", "1.", ".1", "+1", "0x1", "1e", "NaN", "Infinity", "-", "--1", "1e5.5"}) both(fmt("[%s]", s), -1), both(fmt("{\"a\":%s}", s), -1);
  finish(C.failed());
}
int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts(); std::string p = o.profile; tmpf = o.str("tmp", "/tmp") + fmt("/wgjson.%d", getpid()); atexit([] { unlink(tmpf.c_str()); });
  db = wg_attach_local_database(o.num("size", 4000000)); if (!db) return 2; base = img_save(db);
  if (p == "texts") { texts(); } if (p == "mutate") mutate();
  Cases C; auto go = [&](const J &j, const std::string &t, int hows = 15) { C.run([&] { return "document " + shortj(t); }, [&] { trip(j, t, hows); return true; }); };
  if (p == "trees") { for (int n = 1; n <= o.depth; n++) for (auto &j : trees(n)) { if (j.scalar()) continue; go(j, j.text(), n > 4 ? 5 : 15); if (n <= 4) for (int v = 0; v < 4; v++) go(j, spaced(j, v), 5); } }
  if (p == "values") {
    auto sc = scalars(false); auto ks = keyset(false); J t; t.k = J_TRUE; sc.push_back(t); t.k = J_FALSE; sc.push_back(t); sc.push_back(jS(std::string("a\0b", 3)));
    for (auto &s : sc) { go(jA({s}), jA({s}).text()); for (auto &k : ks) { J j = jO({{k, s}}); go(j, j.text()); J m = jA({jI(1), jO({{"x", jI(2)}, {k, jA({s, s})}, {"y", s}}), s}); go(m, m.text()); } for (auto &u : sc) { J j = jA({s, jI(7), u}); go(j, j.text(), 5); } }
    for (int e = -310; e <= 308; e++) for (int m : {1, 3, 7}) for (int sgn : {1, -1}) { double d = strtod(fmt("%de%d", m * sgn, e).c_str(), 0); if (!isfinite(d) || d == 0) continue; for (double x : {d, nextafter(d, 0), nextafter(d, 1e308)}) { J j = jA({jD(x)}); go(j, j.text(), 1); } }
    for (int b = 0; b < 63; b++) for (ll x : {1LL << b, (1LL << b) - 1, -(1LL << b), -(1LL << b) - 1}) { J j = jO({{"i", jI(x)}}); go(j, j.text(), 1); }
  }
  if (p == "chars") {
    auto chunk = [&](std::vector<unsigned> cs) { std::string s, e; for (unsigned c : cs) { s += raw(c); e += uesc(c); } J j = jO({{s, jA({jS(s), jS("z" + s)})}}); std::string t = "{\"" + e + "\":[\"" + e + "\",\"z" + e + "\"]}"; go(j, t, 1); bool quotable = true; for (unsigned c : cs) if (c < 32 || c == '"' || c == '\\') quotable = false; if (quotable) { std::string t2 = "{\"" + s + "\":[\"" + s + "\",\"z" + s + "\"]}"; go(j, t2, 1); } };
    for (unsigned c = 1; c < 0x110000;) { if (c == 0xD800) c = 0xE000; std::vector<unsigned> v; unsigned n = c < 0x800 ? 1 : 64; for (unsigned k = 0; k < n && c < 0x110000 && c != 0xD800; k++) v.push_back(c++); chunk(v); }
    for (unsigned c : {'"', '\\', '/', 'b', 'f', 'n', 'r', 't'}) { std::string m = c == 'b' ? "\b" : c == 'f' ? "\f" : c == 'n' ? "\n" : c == 'r' ? "\r" : c == 't' ? "\t" : std::string(1, c); J j = jA({jS("a" + m + "b")}); go(j, fmt("[\"a\\%cb\"]", c)); }
    // an unpaired surrogate has no defined meaning, but it must not swallow its neighbours
    for (const char *q : {"\\ud800x", "\\udbffyz", "\\ud800\\n!"}) C.run([&] { return std::string("unpaired surrogate ") + q; }, [&] { reset(); void *r; gint v = import(0, fmt("[\"%s\"]", q), &r); if (v) return false; J g = jreadrec(db, r); std::string w = strstr(q, "\\n") ? "\n!" : strchr(q, 'x') ? "x" : "yz"; MC_CHECK(g.a.size() == 1 && g.a[0].s.size() >= w.size() && g.a[0].s.substr(g.a[0].s.size() - w.size()) == w, "surrogate-neighbour", "text after an unpaired surrogate is lost: %s", g.text().c_str()); return true; });
  }
  if (p == "chunks") {
    J j = jO({{"k\xc3\xa9y", jA({jI(-1234567), jD(-12.5e-7), jS("q\xf0\x9f\x98\x80" "a\n\"\\" "\xe2\x82\xac"), jO({}), jA({})})}, {"n", jI(123)}}); J nn; nn.k = J_NULL; j.a.push_back(nn); j.key.push_back("z");
    std::string t = "{\"k\\u00e9y\" : [-1234567,-12.5E-7,\"q\\ud83d\\ude00a\\n\\\"\\\\\xe2\x82\xac\",{},[]]/* c */,\"n\":123 ,\"z\":null // x\n}";
    for (int k = 1; k <= o.num("k", 3); k++) for (size_t s = 0; s <= t.size() + 1; s++) { std::string pad(16384 * k - s, ' '); go(j, pad + t); J jj = jA({jS(std::string(16384 * k - 3 - s > 0 ? 16384 * k - 3 - s : 0, 'p')), j}); go(jj, "[\"" + jj.a[0].s + "\"," + t + "]", 12); }
    for (int k = 1; k <= o.num("k", 3) + 2; k++) for (int d = -3; d <= 3; d++) { std::string x = t + std::string(16384 * k + d - t.size(), '\n'); go(j, x); J big = jA({jS(std::string(16384 * k + d - 4, 'b'))}); go(big, big.text()); }
    // the same malformed at the end
    for (int k = 1; k <= 3; k++) for (int d = -2; d <= 2; d++) C.run([&] { return fmt("unfinished text of %d bytes", 16384 * k + d); }, [&] { std::string x = "[" + std::string(16384 * k + d - 1, ' '); for (int how = 0; how < 4; how++) { reset(); H128 h0 = hash0(), h1; img_hash(db, h0); void *r; gint v = import(how, x, &r); MC_CHECK(v != 0, "import-wrong", "unfinished text of %zu bytes imported (%s)", x.size(), HOW[how]); h1 = hash0(); img_hash(db, h1); MC_CHECK(h0 == h1, "reject-changes", "refused text changed the database"); } return true; });
    C.run([&] { return std::string("empty and missing files"); }, [&] { reset(); void *r; MC_CHECK(import(3, "", &r) != 0, "empty-file", "an empty file is imported"); MC_CHECK(import(3, " \n", &r) != 0, "empty-file", "a blank file is imported"); MC_CHECK(wg_parse_json_file(db, (tmpf + ".missing").c_str()) != 0, "missing-file", "a missing file is imported"); return true; });
  }
  unlink(tmpf.c_str()); finish(C.failed());
}
