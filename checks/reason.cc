#ifndef NOWRAP
#define WRAP_MALLOC
#else
namespace memctl { static long live = 0; static bool on = false; }   // ASAN watches the heap itself
#endif
// C33: the reasoner. Every set of clauses of a bounded vocabulary is written as text, imported, read back record by record and run; the answer is compared
// with brute force: all interpretations of the ground instances (no functions) or all finite models up to a size (functions)
#include "mc.h"
#include "wgdb.h"
#include <climits>
#include <errno.h>
extern "C" { int wg_run_reasoner(void *db, int argc, char **argv); int wg_import_otter_file(void *db, char *filename); int wg_import_prolog_file(void *db, char *filename); }
using namespace mc;
static const gint RULE = 1 << 3, FACT = 1 << 4, ATOM = 1 << 5, TERM = 1 << 6;
struct T { char kind; std::string name; std::vector<T> a; };   // v variable, c constant, i integer, d double, s string, q quoted constant, D date, M time, f function
static T V(const char *n) { return {'v', n}; } static T K(const char *n) { return {'c', n}; } static T I(int n) { return {'i', std::to_string(n)}; } static T F(const char *n, std::vector<T> a) { return {'f', n, a}; }
static std::string esc(const std::string &s, char q) { std::string r; for (char c : s) if (c == q) { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else r += c; return r; }
static std::string text(const T &t) {
  if (t.kind == 'v') return "?" + t.name; if (t.kind == 's') return "\"" + esc(t.name, '"') + "\""; if (t.kind == 'q') return "'" + esc(t.name, '\'') + "'";
  std::string r = t.name; if (t.kind == 'f') { r += "("; for (size_t i = 0; i < t.a.size(); i++) r += (i ? "," : "") + text(t.a[i]); r += ")"; } return r;
}
struct L { bool neg; T atom; }; typedef std::vector<L> Clause;
static std::string text(const Clause &c, int sp = 0) { std::string r; for (size_t i = 0; i < c.size(); i++) r += (i ? (sp & 1 ? "|" : " | ") : "") + std::string(c[i].neg ? (sp & 2 ? "- " : "-") : "") + text(c[i].atom); return r + (sp & 4 ? " .\n" : ".\n"); }
static void *db; static Image *base; static std::string fn = "clauses.txt";
// ---- what the import must have stored
typedef std::map<std::string, int> Vars;
static std::string show(const T &t, Vars &vs) {
  switch (t.kind) {
  case 'v': { auto it = vs.emplace(t.name, (int)vs.size()).first; return fmt("var%d", it->second); }
  case 'i': return "int " + t.name; case 'd': return fmt("double %.17g", atof(t.name.c_str())); case 's': return "str '" + t.name + "'"; case 'c': case 'q': return "uri '" + t.name + "'";
  case 'D': return "date " + t.name; case 'M': return "time " + t.name;
  default: { std::string r = "uri '" + t.name + "'("; for (auto &x : t.a) r += show(x, vs) + ","; return r + ")"; } }
}
static bool builtin(const std::string &n) { return false; }
static std::string showrec(gint *r, gint want) {
  MC_CHECK((r[RECORD_META_POS] & want) == want, "kind", "an atom or term has the meta information %lx", (long)r[RECORD_META_POS]);
  gint n = wg_get_record_len(db, r); std::string s; 
  for (gint i = 1; i < n; i++) { gint e = wg_get_field(db, r, i); std::string x;
    switch (wg_get_encoded_type(db, e)) {
    case WG_VARTYPE: x = fmt("var%ld", (long)wg_decode_var(db, e)); break; case WG_INTTYPE: x = fmt("int %ld", (long)wg_decode_int(db, e)); break; case WG_DOUBLETYPE: x = fmt("double %.17g", wg_decode_double(db, e)); break;
    case WG_STRTYPE: x = "str '" + std::string(wg_decode_str(db, e)) + "'"; MC_CHECK(!wg_decode_str_lang(db, e), "lang", "the string has a language"); break; case WG_URITYPE: x = "uri '" + std::string(wg_decode_uri(db, e)) + "'"; MC_CHECK(!wg_decode_uri_prefix(db, e), "prefix", "the constant has a prefix"); break;
    case WG_ANONCONSTTYPE: x = "const '" + std::string(wg_decode_anonconst(db, e)) + "'"; break;
    case WG_DATETYPE: { char b[80]; wg_strf_iso_datetime(db, wg_decode_date(db, e), 0, b); x = "date " + std::string(b, 10); break; }
    case WG_TIMETYPE: { char b[80]; wg_strf_iso_datetime(db, 1, wg_decode_time(db, e), b); x = "time " + std::string(b + 11, 8); break; }
    case WG_NULLTYPE: x = "null"; break;
    case WG_RECORDTYPE: x = showrec((gint *)wg_decode_record(db, e), TERM); break;
    default: x = fmt("type%ld", (long)wg_get_encoded_type(db, e)); }
    if (i == 1) s = x + "("; else s += x + ","; }
  return s + ")";
}
static std::string showclause(gint *r) {
  if (r[RECORD_META_POS] & FACT) return "fact " + showrec(r, ATOM | FACT);
  gint n = wg_get_record_len(db, r); std::string s = "rule"; MC_CHECK(n % 2 == 1, "length", "a rule has %ld fields", (long)n);
  for (gint i = 1; i < n; i += 2) { gint m = wg_get_field(db, r, i), e = wg_get_field(db, r, i + 1); MC_CHECK(wg_get_encoded_type(db, e) == WG_RECORDTYPE, "literal", "literal %ld of a rule is no record", (long)(i / 2)); s += wg_decode_int(db, m) & 1 ? " -" : " +"; s += showrec((gint *)wg_decode_record(db, e), ATOM); }
  return s;
}
static std::string showclause(const Clause &c) {
  Vars vs; bool simple = c.size() == 1 && !c[0].neg; if (simple) for (auto &x : c[0].atom.a) if (x.kind == 'f' || x.kind == 'v') simple = false;
  if (simple) return "fact " + show(c[0].atom, vs); std::string s = "rule"; for (auto &l : c) { s += l.neg ? " -" : " +"; s += show(l.atom, vs); } return s;
}
static void put(const std::string &s) { FILE *f = fopen(fn.c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static int import(const std::string &s) { put(s); errno = ERANGE; return wg_import_otter_file(db, (char *)fn.c_str()); }
static std::vector<std::string> stored() {
  std::vector<std::string> r; for (gint *p = (gint *)wg_get_first_raw_record(db); p; p = (gint *)wg_get_next_raw_record(db, p)) if (p[RECORD_META_POS] & (RULE | FACT)) r.push_back(showclause(p)); std::sort(r.begin(), r.end()); return r;
}
static int reason() { char *av[] = {(char *)"wgdb", (char *)"runreasoner", 0}; int r = wg_run_reasoner(db, 2, av); fflush(stdout); return r; }
static std::string join(const std::vector<std::string> &v) { std::string r; for (auto &x : v) r += x + "; "; return r; }
// ---- ground truth
struct Sig { std::map<std::string, int> preds, funs, consts; };   // name/arity
static void collect(const T &t, Sig &s) { if (t.kind == 'v') return; if (t.kind == 'f') { s.funs[t.name + "/" + std::to_string(t.a.size())]; for (auto &x : t.a) collect(x, s); } else s.consts[t.kind + t.name]; }
static void vars(const T &t, std::map<std::string, int> &v) { if (t.kind == 'v') v.emplace(t.name, (int)v.size()); for (auto &x : t.a) vars(x, v); }
static int ipow(int b, int e) { int r = 1; while (e--) r *= b; return r; }
// is there a model with a domain of n elements? constants and functions range over all interpretations (Herbrand: constants are fixed and there are no functions)
struct Model {
  int n; bool herbrand; std::vector<Clause> cs; Sig sg; std::map<std::string, std::pair<int, int>> pidx, fidx; std::map<std::string, int> cidx; int npred = 0, nfun = 0; std::vector<int> fv;
  int eval(const T &t, std::map<std::string, int> &vs, const std::vector<int> &as) { if (t.kind == 'v') return as[vs[t.name]]; if (t.kind != 'f') return fv[cidx[t.kind + t.name]]; int k = 0; for (auto &x : t.a) k = k * n + eval(x, vs, as); return fv[fidx[t.name + "/" + std::to_string(t.a.size())].first + k]; }
  bool sat() {
    int np = 0, nf = 0; for (auto &c : cs) for (auto &l : c) { sg.preds[l.atom.name + "/" + std::to_string(l.atom.a.size())] = l.atom.a.size(); for (auto &x : l.atom.a) collect(x, sg); }
    for (auto &p : sg.preds) { pidx[p.first] = {np, 0}; np += ipow(n, p.second); }
    for (auto &c : sg.consts) cidx[c.first] = nf++;
    for (auto &f : sg.funs) { fidx[f.first] = {nf, 0}; nf += ipow(n, atoi(f.first.substr(f.first.find('/') + 1).c_str())); }
    if (np > 24) fail("internal", "too many atoms"); fv.assign(nf, 0); if (herbrand) { int k = 0; for (auto &c : sg.consts) fv[cidx[c.first]] = k++; }
    while (1) {
      // ground instances as (positive mask, negative mask)
      std::vector<std::pair<unsigned, unsigned>> g;
      for (auto &c : cs) { std::map<std::string, int> vs; for (auto &l : c) vars(l.atom, vs); std::vector<int> as(vs.size(), 0);
        while (1) { unsigned p = 0, q = 0; for (auto &l : c) { int k = 0; for (auto &x : l.atom.a) k = k * n + eval(x, vs, as); unsigned b = 1u << (pidx[l.atom.name + "/" + std::to_string(l.atom.a.size())].first + k); (l.neg ? q : p) |= b; }
          if (!(p & q)) g.push_back({p, q});
          size_t i = 0; while (i < as.size() && ++as[i] == n) as[i++] = 0; if (i == as.size()) break; } }
      if (search(g, 0, 0)) return true;
      if (herbrand) return false; size_t i = 0; while (i < fv.size() && ++fv[i] == n) fv[i++] = 0; if (i == fv.size()) return false; }
  }
  // DPLL without heuristics on (true, false) assignments
  static bool search(const std::vector<std::pair<unsigned, unsigned>> &g, unsigned t, unsigned f) {
    while (1) { bool ch = false, allok = true; unsigned pick = 0;
      for (auto &c : g) { if ((c.first & t) || (c.second & f)) continue; allok = false; unsigned up = c.first & ~f, un = c.second & ~t; int k = __builtin_popcount(up) + __builtin_popcount(un); if (!k) return false; if (k == 1) { t |= up; f |= un; ch = true; } else if (!pick) pick = up ? (up & -up) : (un & -un); }
      if (allok) return true; if (ch) continue;
      return search(g, t | pick, f) || search(g, t, f | pick); }
  }
};
static bool hasfun(const std::vector<Clause> &cs) { for (auto &c : cs) for (auto &l : c) for (auto &x : l.atom.a) { if (x.kind == 'f') return true; } return false; }
static bool ground(const std::vector<Clause> &cs) { for (auto &c : cs) for (auto &l : c) { std::map<std::string, int> v; vars(l.atom, v); if (v.size()) return false; } return true; }
static bool horn(const std::vector<Clause> &cs) { for (auto &c : cs) { int p = 0; for (auto &l : c) p += !l.neg; if (p > 1) return false; } return true; }
static bool satisfiable(const std::vector<Clause> &cs, bool &exact) {
  if (!hasfun(cs)) { Model m; m.herbrand = true; m.cs = cs; Sig s; for (auto &c : cs) for (auto &l : c) for (auto &x : l.atom.a) collect(x, s); m.n = std::max<int>(1, s.consts.size()); exact = true; return m.sat(); }
  exact = false; for (int n = 1; n <= 3; n++) { Model m; m.herbrand = false; m.n = n; m.cs = cs; if (m.sat()) { exact = true; return true; } } return false;
}
static std::string alltext(const std::vector<Clause> &cs) { std::string t; for (auto &c : cs) t += text(c); return t; }
static long fds() { return 0; }
static bool one(const std::vector<Clause> &cs, int sp = 0) {
  bool complete = !hasfun(cs) && (ground(cs) || horn(cs)), bounded = !complete;   // otherwise the search need not end
  img_restore(db, base); long live0 = memctl::live;
  std::string t; for (auto &c : cs) t += text(c, sp);
  int rc = import(t); MC_CHECK(rc == 0, "import-failed", "importing the clauses returned %d", rc);
  std::vector<std::string> want; for (auto &c : cs) want.push_back(showclause(c)); std::sort(want.begin(), want.end());
  std::vector<std::string> got = stored(); MC_CHECK(got == want, "stored", "stored: %s expected: %s", join(got).c_str(), join(want).c_str());
  MC_CHECK(memctl::live == live0, "import-leak", "the import left %ld allocated blocks", memctl::live - live0);
  fsck(db); Image *im = img_save(db); int res = reason(); 
  MC_CHECK((HDR(db)->free == im->free && !memcmp(im->b.data(), HDR(db), im->free)) || bounded, "db-changed", "running the reasoner changed the database"); delete im;
  MC_CHECK(memctl::live == live0, "reason-leak", "the reasoner left %ld allocated blocks", memctl::live - live0);
  MC_CHECK(res == 0 || res == 1 || (bounded && res == -1), "result", "the reasoner returned %d", res);
  bool exact, sat = satisfiable(cs, exact); count(res == 0 ? "proofs" : res == 1 ? "finished without proof" : "limit reached");
  if (res == 0) MC_CHECK(!sat, "unsound", "a proof was reported for a satisfiable set");
  if (complete && res == 1) MC_CHECK(sat, "incomplete", "no proof was found for a contradictory set");
  return true;
}
// ---- what the text says is what is stored: every value in every position, every layout
static std::vector<std::string> tokens(const T &t) { if (t.kind != 'f') return {text(t)}; std::vector<std::string> r = {t.name, "("}; for (size_t i = 0; i < t.a.size(); i++) { if (i) r.push_back(","); for (auto &x : tokens(t.a[i])) r.push_back(x); } r.push_back(")"); return r; }
static std::vector<std::string> tokens(const Clause &c) { std::vector<std::string> r; for (size_t i = 0; i < c.size(); i++) { if (i) r.push_back("|"); if (c[i].neg) r.push_back("-"); for (auto &x : tokens(c[i].atom)) r.push_back(x); } r.push_back("."); return r; }
static void layout(const std::vector<Clause> &cs, const std::string &t) {
  img_restore(db, base); long live0 = memctl::live; int rc = import(t); MC_CHECK(rc == 0, "import-failed", "importing %s returned %d", t.c_str(), rc);
  std::vector<std::string> want; for (auto &c : cs) want.push_back(showclause(c)); std::sort(want.begin(), want.end());
  std::vector<std::string> got = stored(); MC_CHECK(got == want, "stored", "from %s stored: %s expected: %s", t.c_str(), join(got).c_str(), join(want).c_str());
  MC_CHECK(memctl::live == live0, "import-leak", "the import left %ld allocated blocks", memctl::live - live0); fsck(db);
}
static std::vector<T> vals() { return {K("a"), K("abc_D9"), K("x:y"), V("X"), V("long_name1"), I(0), I(7), I(INT_MAX), {'i', "2147483648"}, {'i', "1152921504606846976"}, {'i', "9223372036854775807"}, {'d', "0.5"}, {'d', "123456.75"}, {'d', "0.0"}, {'D', "2010-12-31"}, {'D', "1999-01-01"}, {'D', "2012-02-29"}, {'M', "00:00:00"}, {'M', "23:59:59"}, {'M', "12:30:00"},
    {'s', ""}, {'s', "a b"}, {'s', "it's"}, {'s', "say \"x\" now"}, {'s', "\""}, {'s', "line1\nline2\tend"}, {'s', "% no comment /* */ ."}, {'s', "back\\slash"}, {'s', std::string(31, 'k')}, {'s', std::string(32, 'l')}, {'s', std::string(1022, 'm')}, {'s', std::string(1024, 'n')}, {'s', std::string(5000, 'o')}, {'s', "\xc3\xb5\xff"}, {'q', "quoted constant"}, {'q', "Don't \"do\" it"}, {'q', std::string(3000, 'q')}, {'q', "1"},
    F("f", {K("a")}), F("f", {V("X"), F("g", {V("Y"), V("X")})}), F("f", {F("f", {F("f", {F("f", {I(1)})})})}), F("n", {}), F("f", {F("n", {})})}; }
static void texts(Cases &C) {
  std::vector<T> vs_ = vals();
  auto shapes = [&](const T &v, const T &w) { T P = F("p", {v}); std::vector<Clause> r = {{{false, P}}, {{true, P}}, {{false, F("p", {v, w})}}, {{false, F("p", {w, v, w})}}, {{false, P}, {true, F("q", {w, v})}}, {{true, F("p", {F("f", {v, w})})}, {false, F("q", {})}, {false, F("q", {w})}}}; return r; };
  for (auto &v : vs_) for (auto &w : vs_) { auto sh = shapes(v, w); for (size_t i = 0; i < sh.size() && !C.stop; i++) { std::vector<Clause> cs = {sh[i], {{false, F("last", {w})}}}; C.run([&] { return alltext(cs).substr(0, 300); }, [&] { layout(cs, alltext(cs)); count("texts"); return true; }); } }
  // every separator at every place, and all places at once
  std::vector<std::string> seps = {"", " ", "\n", "\t", "\r\n", " /* note. p(b) */ ", " % note. p(b)\n", "\n\n  % \"a\n", " /* * ** \n 'x */ ", " /***/ "};
  std::vector<std::vector<Clause>> sets = {{{{false, F("p", {K("a"), I(12)})}}, {{true, F("p", {V("X"), V("Y")})}, {false, F("q", {F("f", {V("Y")}), {'s', "s t"}})}}}, {{{true, F("r", {{'D', "2010-12-31"}, {'M', "10:11:12"}, {'d', "1.5"}, {'q', "q q"}})}}, {{false, F("n", {})}}}};
  for (auto &cs : sets) { std::vector<std::string> tk; for (auto &c : cs) for (auto &x : tokens(c)) tk.push_back(x);
    for (auto &base_ : {std::string(""), std::string(" "), std::string("\n")}) for (auto &sp : seps) for (size_t at = 0; at <= tk.size() + 1 && !C.stop; at++) { std::string t; for (size_t i = 0; i <= tk.size(); i++) { t += at == i || at == tk.size() + 1 ? sp : base_; if (i < tk.size()) t += tk[i]; } C.run([&] { return t; }, [&] { layout(cs, t); count("layouts"); return true; }); } }
  // many variables
  for (int n : {2, 10, 90, 99}) { Clause c; std::vector<T> a; for (int i = 0; i < n; i++) { a.push_back(V(("v" + std::to_string(i)).c_str())); a.push_back(V(("v" + std::to_string(i / 2)).c_str())); } c = {{true, F("p", a)}, {false, F("q", {a.back(), a[0]})}}; C.run([&] { return fmt("%d variables", n); }, [&] { layout({c}, alltext({c})); return true; }); }
  // refused: nothing is stored, nothing leaks
  const char *bad[] = {"p(a", "p(a)", "p(a) p(b).", "p(a,).", "p(,a).", "|p(a).", "p(a)|.", "p(a).\nq(b).\np(((.", "p(a)(b).", "p(\"a).", "p('a).", "(a).", ".", "p(a)..", "p(a). -", "p{a}.", "p(a}.", "/* p(a).", "p(2010-13-01).", "p(2010-02-30).", "p(25:00:00).", "p(10:61:00).", "p(99999999999999999999999).", "p(9223372036854775808).", "-p(f(99999999999999999999999)).", "p(?X) | -q(f(?X)) | r(f(99999999999999999999999)).", "-p(a) | -q(2010-13-01)."};
  // a literal which cannot be stored: the whole clause is ignored, the others stay
  const char *part[] = {"a.", "-a.", "a | p(b).", "p(b) | a.", "-p(b) | -a.", "?X.", "12 | -p(?X).", "-a | p(b) | q(c)."};
  for (auto b : part) for (int pre = 0; pre < 2; pre++) C.run([&] { return std::string(b); }, [&] { img_restore(db, base); long live0 = memctl::live; std::vector<Clause> cs = {{{true, F("x", {V("X")})}}, {{false, F("y", {K("a")})}}}; std::string t = std::string(pre ? alltext(cs) : "") + b + "\n" + (pre ? "" : alltext(cs)); int rc = import(t); MC_CHECK(rc == 0, "import-failed", "importing %s returned %d", b, rc);
    std::vector<std::string> want; for (auto &c : cs) want.push_back(showclause(c)); std::sort(want.begin(), want.end()); auto got = stored(); MC_CHECK(got == want, "stored", "from %s stored: %s expected: %s", t.c_str(), join(got).c_str(), join(want).c_str());
    MC_CHECK(memctl::live == live0, "import-leak", "%ld blocks", memctl::live - live0); fsck(db); count("ignored clauses"); return true; });
  for (auto b : bad) for (int pre = 0; pre < 2; pre++) C.run([&] { return std::string(b); }, [&] {
    img_restore(db, base); if (pre) import("p(x). q(?X) | -r(?X).\n"); Image *im = img_save(db); auto before = stored(); long live0 = memctl::live; std::string t = b; int rc = import(t); bool sem = strpbrk(b, "0123456789"); count("refused texts");
    MC_CHECK(rc != 0, "accepted", "importing %s returned 0", b); MC_CHECK(memctl::live == live0, "import-leak", "the failed import left %ld allocated blocks", memctl::live - live0);
    auto after = stored(); MC_CHECK(after == before, "partial", "the failed import left %s", join(after).c_str()); if (!sem) MC_CHECK(HDR(db)->free == im->free && !memcmp(im->b.data(), HDR(db), im->free), "changed", "the failed import changed the database"); fsck(db); delete im; return true; });
}
// ---- two values are the same term exactly if they are equal
static void values(Cases &C) {
  std::vector<T> v; for (auto &t : vals()) { std::map<std::string, int> m; vars(t, m); if (m.empty() && t.name.size() < 2000) v.push_back(t); }
  for (auto &x : v) for (auto &y : v) for (int sh = 0; sh < 4; sh++) { bool eq = text(x) == text(y); T X = V("X"); std::vector<Clause> cs;
    if (sh == 0) cs = {{{false, F("p", {x})}}, {{true, F("p", {y})}}}; else if (sh == 1) cs = {{{false, F("p", {F("f", {x, X}), X})}}, {{true, F("p", {F("f", {y, y}), x})}}};
    else if (sh == 2) cs = {{{false, F("p", {x, y})}}, {{true, F("p", {X, X})}}}; else cs = {{{false, F("p", {x})}}, {{true, F("p", {X})}, {false, F("q", {X})}}, {{true, F("q", {y})}}};
    C.run([&] { return alltext(cs).substr(0, 300); }, [&] { img_restore(db, base); long live0 = memctl::live; std::string t = alltext(cs); MC_CHECK(import(t) == 0, "import-failed", "%s", t.c_str()); int r = reason(); count(r == 0 ? "proofs" : "finished without proof");
      MC_CHECK(r == !eq, "value", "with %s and %s the reasoner returned %d", text(x).substr(0, 100).c_str(), text(y).substr(0, 100).c_str(), r); MC_CHECK(memctl::live == live0, "reason-leak", "%ld blocks", memctl::live - live0); return true; }); }
}
// ---- the database fills up: the import says so and every clause it stored is complete
static void lowmem(Cases &C, int step) {
  std::vector<std::vector<Clause>> sets(4); T X = V("X");
  for (int i = 0; i < 420; i++) { std::string n = std::to_string(i), ls(40, 'a' + i % 26); ls += n; T k = K(("c" + n).c_str());
    sets[0].push_back({{false, F("p", {k, I(i), {'d', n + ".5"}})}}); sets[1].push_back({{false, F("p", {{'s', ls}, {'q', ls}})}});
    sets[2].push_back({{true, F("p", {F("f", {F("g", {k, X}), X}), {'s', ls}})}, {false, F("q", {X, k})}}); sets[3].push_back({{false, F("p", {F("f", {F("f", {F("f", {k})}), F("h", {I(i)})})})}}); }
  for (size_t w = 0; w < sets.size(); w++) { auto &cs = sets[w]; std::string t = alltext(cs); std::vector<std::string> want; for (auto &c : cs) want.push_back(showclause(c)); std::sort(want.begin(), want.end()); bool ok = false;
    for (long room = 0; !ok && !C.stop && room < 2500000; room += step) C.run([&] { return fmt("set %zu, room for %ld bytes", w, room); }, [&] {
      img_restore(db, base); gint size = HDR(db)->size; long live0 = memctl::live; HDR(db)->size = HDR(db)->free + room; int rc = import(t); auto got = stored(); count(rc ? "out of memory" : "enough memory");
      MC_CHECK(memctl::live == live0, "import-leak", "%ld blocks", memctl::live - live0); if (rc == 0) { MC_CHECK(got == want, "stored", "the import returned 0 but stored %zu of %zu clauses correctly", got.size(), want.size()); ok = true; }
      else MC_CHECK(std::includes(want.begin(), want.end(), got.begin(), got.end()), "unfinished", "after an import that ran out of memory a clause is incomplete: %s", join([&] { std::vector<std::string> d; std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(d)); return d; }()).c_str());
      fsck(db); HDR(db)->size = size; return true; }); }
}
int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts(); Cases C; db = wg_attach_local_database(o.num("size", 3000000)); if (!db) return 2; base = img_save(db); memctl::on = true;
  freopen("/dev/null", "w", stdout);
  std::string p = o.str("profile"); int k = o.num("k", 3);
  if (p == "text") { texts(C); finish(C.failed()); }
  if (p == "values") { values(C); finish(C.failed()); }
  if (p == "lowmem") { lowmem(C, o.num("step", 512)); finish(C.failed()); }
  std::vector<Clause> pool; std::vector<std::vector<L>> lits;
  auto P = [&](const char *n, std::vector<T> a) { return F(n, a); };
  std::vector<T> atoms; int maxlen = 3;
  if (p == "prop") { atoms = {P("p", {I(1)}), P("p", {I(2)}), P("q", {I(1)})}; }
  else if (p == "prop4") { atoms = {P("p", {K("a")}), P("p", {K("b")}), P("q", {K("a"), K("a")}), P("q", {K("a"), K("b")})}; maxlen = 2; }
  else if (p == "datalog") { atoms = {P("p", {K("a")}), P("p", {K("b")}), P("p", {V("X")}), P("q", {K("a")}), P("q", {V("X")}), P("q", {V("Y")})}; }
  else if (p == "pairs") { atoms = {P("r", {K("a"), K("b")}), P("r", {V("X"), V("Y")}), P("r", {V("Y"), V("X")}), P("r", {V("X"), V("X")}), P("r", {K("a"), V("X")}), P("r", {V("Y"), V("Z")}), P("r", {V("X"), V("Z")})}; }
  else if (p == "functions") { T X = V("X"), a = K("a"), b = K("b"); atoms = {P("p", {X}), P("p", {F("f", {X})}), P("p", {a}), P("p", {F("f", {a})}), P("p", {F("f", {F("f", {X})})})}; maxlen = 2; }
  else if (p == "functions2") { T X = V("X"), Y = V("Y"), a = K("a"); atoms = {P("r", {X, X}), P("r", {X, F("f", {X})}), P("r", {F("f", {X}), X}), P("r", {a, X}), P("r", {F("f", {a}), Y}), P("r", {X, Y}), P("r", {F("f", {X}), F("f", {Y})})}; maxlen = 2; }
  maxlen = o.num("len", maxlen);
  { std::vector<L> ls; for (auto &a : atoms) { ls.push_back({false, a}); ls.push_back({true, a}); }
    std::function<void(size_t, Clause &)> go = [&](size_t i, Clause &c) { if (c.size()) pool.push_back(c); if ((int)c.size() == maxlen) return; for (size_t j = i; j < ls.size(); j++) { if (c.size() && (j ^ 1) < j && j - 1 == (size_t)-2) continue; c.push_back(ls[j]); go(j + 1, c); c.pop_back(); } };
    Clause c; go(0, c); if (p == "prop" || p == "prop4") { std::vector<Clause> np; for (auto &x : pool) { bool taut = false; for (auto &l : x) for (auto &m : x) if (l.neg && !m.neg && text(l.atom) == text(m.atom)) taut = true; if (!taut || x.size() == 2) np.push_back(x); } pool = np; } }
  int order = o.num("order", 0); count("clauses in the pool", o.shard == 0 ? (long)pool.size() : 0);
  std::function<void(size_t, std::vector<Clause> &)> go = [&](size_t i, std::vector<Clause> &cs) {
    if (C.stop) return;
    if (cs.size()) { auto x = cs; for (int r = 0; r < (cs.size() > 1 ? (order == 2 ? 2 : 1) : 1); r++) { if (order == 1 || r) std::reverse(x.begin(), x.end()); C.run([&] { std::string t = alltext(x); std::replace(t.begin(), t.end(), '\n', ' '); return t; }, [&] { return one(x); }); } }
    if ((int)cs.size() == k) return; for (size_t j = i; j < pool.size() && !C.stop; j++) { cs.push_back(pool[j]); go(j + 1, cs); cs.pop_back(); } };
  std::vector<Clause> cs; go(0, cs);
  finish(C.failed());
}
