// C30: a local database (C) that refers to values and records of others (P, and Q which itself refers to P), for several
// placements in the address space. P and Q are compared byte by byte after every step.
#include "wgdb.h"
#include <climits>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "Db/dbquery.h"
#include "Db/dbjson.h"
#include "Db/dbutil.h"
#include "Db/dbdump.h"
#include "Db/dbcompare.h"
#include "Db/dbschema.h"
void *__real_malloc(size_t); void __real_free(void *);
}
using namespace mc;
static const gint SIZE = 200000; // segments
[[noreturn]] static void die(int line) { throw Violation{"setup", fmt("preparation fails in line %d", line)}; }
// ---- placement of the segments
static std::vector<char *> place; static size_t placed = 0; static int freed = 0;
extern "C" __attribute__((used)) void *__wrap_malloc(size_t n) {
  if (n < (size_t)SIZE || n > (size_t)SIZE + 4096 || placed >= place.size()) return __real_malloc(n);
  memset(place[placed], 0xA5, n); return place[placed++];
}
extern "C" __attribute__((used)) void __wrap_free(void *p) { for (char *q : place) if (p == q) { freed++; memset(p, 0x5A, SIZE); return; } __real_free(p); }
static char *reserve(char *at, size_t n) { void *p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0); if (p != (void *)at) { fprintf(stdout, "cannot place\n"); exit(2); } return (char *)p; }
static void layout(int l) { // order of creation: P, Q, C, U (not registered)
  char *b = (char *)0x200000000000ULL; size_t far_ = 0x400000000000ULL;
  switch (l) {
    case 0: reserve(b, 8 << 20); place = {b, b + (4 << 20), b + (2 << 20), b + (6 << 20)}; break;                       // one below, one above
    case 1: reserve(b, 8 << 20); place = {b + SIZE * 1, b + SIZE * 3, b + SIZE * 2, b + SIZE * 4}; break;                // adjacent
    case 2: reserve(b, 1 << 20); reserve(b + far_, 1 << 20); reserve(b - 0x100000000000ULL, 2 << 20); place = {b + far_, b - 0x100000000000ULL, b, b - 0x100000000000ULL + (1 << 20)}; break; // far apart
    case 3: reserve(b, 8 << 20); place = {b + SIZE * 3, b + SIZE * 1, b + SIZE * 2, b}; break;                          // adjacent, reversed
  }
}
// ---- content
struct T { Val v; std::vector<std::pair<int, int>> kids; int home; }; // kids: (database, index); home: which databases hold it (bit 0 P, bit 1 Q)
static std::vector<T> tab; static void *D[4]; // P Q C U
static char *base(void *db) { return (char *)dbmemseg(db); }
struct Ext { gint enc; void *rec; };
static std::map<std::pair<int, int>, Ext> made; // (db, index) -> value in that database
static std::string L(char c, int n) { return std::string(n, c); }
static std::string key(const Val &v) { return fmt("%d|%lld|%.17g|", v.t, v.t == V_DBL || v.t == V_FIX ? 0 : v.i, v.t == V_DBL ? v.d : v.t == V_FIX ? round(v.d * 10000) / 10000 : 0) + v.s + (v.hasx ? "/" + v.x : ""); }
static std::string want(int i) { const T &t = tab[i]; if (t.v.t != V_REC) return key(t.v); std::string s = "["; for (auto &k : t.kids) s += want(k.second) + ","; return s + "]"; }
static int owner(void *p) { for (int i = 0; i < 4; i++) if (D[i] && (char *)p > base(D[i]) && (char *)p < base(D[i]) + SIZE) return i; return -1; }
static gint shift(gint enc, void *from, void *to) { return isptr(enc) ? enc + (base(from) - base(to)) : enc; }
// read through db
static std::string got(void *db, gint enc, int depth = 0) {
  gint t = wg_get_encoded_type(db, enc); if (t != V_REC) return key(dec_val(db, enc));
  if (depth > 8) fail("depth", "records nested too deeply");
  void *r = wg_decode_record(db, enc); int o = owner(r); MC_CHECK(o >= 0, "pointer", "a record decodes to an address outside all databases"); void *w = wg_get_rec_owner(db, r);
  bool known = D[o] == db; for (gint k = 0; k < HDR(db)->extdbs.count; k++) if (base(db) + HDR(db)->extdbs.offset[k] == base(D[o])) known = true;
  MC_CHECK((char *)w == (known ? base(D[o]) : NULL), "owner", "wrong owner of a record in database %d", o);
  gint n = wg_get_record_len(db, r); MC_CHECK(n >= 0 && n < 40, "length", "record has %ld fields", (long)n); std::string s = "[";
  for (gint i = 0; i < n; i++) s += got(db, shift(wg_get_field(db, r, i), D[o], db), depth + 1) + ","; return s + "]";
}
static gint ext(int from, int i, void *to) { Ext &e = made.at({from, i}); gint r = wg_encode_external_data(to, D[from], e.enc); MC_CHECK(r == shift(e.enc, D[from], to), "translate", "value %s of database %d is translated wrongly", tab[i].v.str().c_str(), from); return r; }
// builds value i in database d; children may be in another database
static Ext build(int d, int i, bool local = false) {
  const T &t = tab[i]; void *db = D[d]; Ext e; e.rec = NULL;
  if (t.v.t != V_REC) { e.enc = enc_val(db, t.v); if (e.enc == WG_ILLEGAL) die(__LINE__); void *h = isptr(e.enc) && !local ? wg_create_record(db, 1) : NULL; if (h && wg_set_field(db, h, 0, e.enc)) die(__LINE__); return e; }
  std::vector<gint> k; for (auto &c : t.kids) { if (local) k.push_back(build(d, c.second, true).enc); else if (c.first == d || d == 3) { if (tab[c.second].v.t == V_REC) k.push_back(made.at({d, c.second}).enc); else k.push_back(enc_val(db, tab[c.second].v)); } else k.push_back(ext(c.first, c.second, db)); }
  e.rec = wg_create_record(db, k.size()); for (size_t j = 0; j < k.size(); j++) if (wg_set_field(db, e.rec, j, k[j])) die(__LINE__); e.enc = wg_encode_record(db, e.rec); return e;
}
static void table() {
  auto v = [&](const Val &x) { tab.push_back({x, {}, 3}); return (int)tab.size() - 1; };
  v(vStr("hello")); v(vStr(L('l', 40))); v(vTxt(V_STR, "with lang", "en")); v(vTxt(V_STR, L('m', 50), L('x', 40))); v(vTxt(V_URI, "page", "http://a/")); v(vTxt(V_URI, L('u', 60), L('p', 45))); v(vTxt(V_XML, "<a/>", "xsd:t")); v(vTxt(V_BLOB, std::string("a\0b", 3), "bt")); // 0..7
  v(vDbl(3.25)); v(vInt(1LL << 62)); v(vInt(-5)); v(vInt(LLONG_MIN)); v(vChar('c')); v(vFix(1.5)); v(vDate(730000)); v(vTime(360000)); v(vNull()); v(vVar(3)); v(vTxt(V_URI, "bare")); v(vStr("")); // 8..19
  auto r = [&](std::vector<std::pair<int, int>> k, int home) { T t; t.v = vRec(0); t.kids = k; t.home = home; tab.push_back(t); return (int)tab.size() - 1; };
  std::vector<std::pair<int, int>> all; for (int i = 0; i < 20; i++) all.push_back({0, i});
  r(all, 1);                                   // 20: every kind
  r({{0, 20}, {0, 1}, {0, 16}}, 1);            // 21: nested
  r({{0, 0}}, 1); r({{0, 2}}, 1);              // 22 23
  r({{0, 20}, {0, 3}, {1, 5}, {0, 21}}, 2);    // 24: a record of Q that refers to P
  r({{1, 24}, {1, 2}}, 2);                     // 25
  r({}, 1); r({{0, 26}, {0, 8}}, 1);           // 26: an empty record, 27: with it
}
static Image *ip, *iq; static std::vector<char> fullp, fullq;
static void keep() { fullp.assign(base(D[0]), base(D[0]) + SIZE); fullq.assign(base(D[1]), base(D[1]) + SIZE); }
static void same(const char *when) { MC_CHECK(memcmp(fullp.data(), base(D[0]), SIZE) == 0, "parent", "%s changed the parent database", when); MC_CHECK(memcmp(fullq.data(), base(D[1]), SIZE) == 0, "parent", "%s changed the second parent database", when); }
static void *newdb() { void *d = wg_attach_local_database(SIZE); if (!d) die(__LINE__); return d; }
static void setup() {
  table(); D[0] = newdb(); D[1] = newdb(); if (wg_register_external_db(D[1], D[0])) die(__LINE__);
  for (size_t i = 0; i < tab.size(); i++) for (int d = 0; d < 2; d++) if (tab[i].home >> d & 1) made[{d, (int)i}] = build(d, i);
  D[2] = newdb(); D[3] = newdb(); for (int i : {0, 1, 2, 8, 9, 10, 22, 26}) made[{3, i}] = build(3, i, false);
  keep();
}
static std::string sn(void *db, gint e) { char b[4000]; wg_snprint_value(db, e, b, sizeof b - 1); std::string s = b, r; for (size_t i = 0; i < s.size(); i++) { r += s[i]; if (r.size() >= 5 && r.compare(r.size() - 5, 5, "<rec ") == 0) while (i + 1 < s.size() && s[i + 1] != '>') i++; } return r; }
// ---- histories
struct Cell { int kind = 0, a = 0, b = 0; }; // 0 null, 1 external (database a, value b), 2 local value b, 3 local record a, 4 contents of a record moved
struct Rec { gint off; std::vector<Cell> f; };
struct Snap { Image *i; std::vector<Rec> r; int reg; };
struct W : World {
  std::vector<std::pair<int, int>> evals; std::vector<int> lvals; std::vector<Rec> rs; int reg = 0; int maxr = 2, nf = 2; void *db = D[2];
  enum { CREATE, SETE, SETL, SETR, NEWE, DEL, FREE, DELEXT, UNREG, INDEX, DUMP, REG, FIELDNULL, ATOMIC, IMPORT, NK };
  struct Op { int k, a, b, c, d; }; std::vector<Op> ops;
  W(int prof) {
    if (prof == 0) { evals = {{0, 0}, {0, 1}, {0, 3}, {0, 4}, {1, 5}}; lvals = {0, 1, 3}; }
    if (prof == 1) { evals = {{0, 8}, {0, 9}, {1, 11}, {0, 7}, {0, 10}}; lvals = {8, 9, 10}; }
    if (prof == 2) { evals = {{0, 20}, {0, 22}, {1, 24}, {0, 26}, {0, 16}}; lvals = {2}; }
    ops.push_back({CREATE, 1}); ops.push_back({CREATE, nf}); // lengths
    for (int r = 0; r < maxr; r++) for (int f = 0; f < nf; f++) {
      for (auto &e : evals) ops.push_back({SETE, r, f, e.first, e.second}); for (int l : lvals) ops.push_back({SETL, r, f, l}); ops.push_back({SETR, r, f, r - 1}); ops.push_back({FIELDNULL, r, f}); ops.push_back({UNREG, r, f}); }
    for (auto &e : evals) ops.push_back({NEWE, e.first, e.second}), ops.push_back({FREE, e.first, e.second});
    for (int r = 0; r < maxr; r++) ops.push_back({DEL, r});
    ops.push_back({DELEXT, 0, 22}); ops.push_back({DELEXT, 0, 20}); ops.push_back({DELEXT, 1, 24}); ops.push_back({DELEXT, 0, 26});
    ops.push_back({INDEX, 0}); ops.push_back({INDEX, 1}); ops.push_back({INDEX, 2}); ops.push_back({DUMP}); ops.push_back({ATOMIC, 0, 0}); ops.push_back({IMPORT}); ops.push_back({REG, 0}); ops.push_back({REG, 1});
    for (int d : {0, 1}) if (wg_register_external_db(db, D[d])) die(__LINE__); reg = 2;
  }
  int nops() override { return ops.size(); }
  bool enabled(int o) override {
    Op &p = ops[o];
    switch (p.k) { case CREATE: case NEWE: return (int)rs.size() < maxr; case SETE: case SETL: case FIELDNULL: case UNREG: case ATOMIC: return p.a < (int)rs.size() && p.b < (int)rs[p.a].f.size(); case SETR: return p.c >= 0 && p.a < (int)rs.size() && p.b < (int)rs[p.a].f.size(); case DEL: return p.a < (int)rs.size(); case REG: return reg < 3; default: return true; }
  }
  std::string opname(int o) override {
    static const char *n[] = {"create record of", "set external", "set local", "set local record", "new record, external", "delete record", "free external", "delete external record", "set unregistered", "create index", "dump", "register", "clear", "atomic update", "import", "?"};
    Op &p = ops[o]; std::string s = n[p.k]; s += fmt(" %d", p.a); if (p.k == SETE) s += fmt(".%d := %d:%s", p.b, p.c, tab[p.d].v.str().c_str()); else if (p.k == SETL) s += fmt(".%d := %s", p.b, tab[p.c].v.str().c_str()); else s += fmt(".%d", p.b); return s;
  }
  void *ptr(int r) { return offsettoptr(db, rs[r].off); }
  std::string wantc(const Cell &c) { if (c.kind == 0) return key(vNull()); if (c.kind == 3) return wantr(c.a); return want(c.b); }
  std::string wantr(int r) { std::string s = "["; for (auto &c : rs[r].f) s += wantc(c) + ","; return s + "]"; }
  gint put(int r, int f, gint e) { return wg_set_field(db, ptr(r), f, e); }
  void step(int o) override {
    Op &p = ops[o]; gint rc; Image *before = NULL; bool noeffect = false;
    auto refusal = [&] { before = img_save(db); noeffect = true; };
    struct Guard { Image *&i; ~Guard() { delete i; } } g{before};
    switch (p.k) {
      case CREATE: { void *r = wg_create_record(db, p.a); MC_CHECK(r, "create", "cannot create a record"); Rec x; x.off = ptrtooffset(db, r); x.f.resize(p.a); rs.push_back(x); break; }
      case NEWE: { void *r = wg_create_raw_record(db, 2); MC_CHECK(r, "create", "cannot create a record"); rc = wg_set_new_field(db, r, 1, ext(p.a, p.b, db)); MC_CHECK(rc == 0, "new", "wg_set_new_field of an external value returns %ld", (long)rc); rc = wg_set_new_field(db, r, 0, ext(p.a, p.b, db)); MC_CHECK(rc == 0, "new", "wg_set_new_field of an external value returns %ld", (long)rc); Rec x; x.off = ptrtooffset(db, r); Cell c; c.kind = 1; c.a = p.a; c.b = p.b; x.f = {c, c}; rs.push_back(x); count("external"); break; }
      case SETE: { rc = put(p.a, p.b, ext(p.c, p.d, db)); MC_CHECK(rc == 0, "set", "storing an external value returns %ld", (long)rc); Cell c; c.kind = 1; c.a = p.c; c.b = p.d; rs[p.a].f[p.b] = c; count("external"); break; }
      case SETL: { gint e = enc_val(db, tab[p.c].v); MC_CHECK(e != WG_ILLEGAL, "encode", "cannot encode a local value"); rc = put(p.a, p.b, e); MC_CHECK(rc == 0, "set", "storing a local value returns %ld", (long)rc); Cell c; c.kind = 2; c.b = p.c; rs[p.a].f[p.b] = c; break; }
      case SETR: { rc = put(p.a, p.b, wg_encode_record(db, ptr(p.c))); MC_CHECK(rc == 0, "set", "storing a local record returns %ld", (long)rc); Cell c; c.kind = 3; c.a = p.c; rs[p.a].f[p.b] = c; break; }
      case FIELDNULL: { rc = put(p.a, p.b, 0); MC_CHECK(rc == 0, "set", "clearing returns %ld", (long)rc); rs[p.a].f[p.b] = Cell(); break; }
      case UNREG: { refusal(); for (int i : {0, 1, 2, 8, 9, 22, 26}) { rc = put(p.a, p.b, wg_encode_external_data(db, D[3], made.at({3, i}).enc)); MC_CHECK(rc == -5, "unregistered", "a value of a database that is not registered is stored with result %ld", (long)rc); void *rec = wg_create_raw_record(db, 1); rc = wg_set_new_field(db, rec, 0, wg_encode_external_data(db, D[3], made.at({3, i}).enc)); MC_CHECK(rc == -5, "unregistered", "wg_set_new_field stores a value of a database that is not registered with result %ld", (long)rc); MC_CHECK(wg_delete_record(db, rec) == 0, "unregistered", "cannot delete"); } noeffect = false; break; }
      case DEL: { bool refd = false; for (size_t i = 0; i < rs.size(); i++) for (auto &c : rs[i].f) if (c.kind == 3 && c.a == p.a) refd = true; if (refd) refusal(); rc = wg_delete_record(db, ptr(p.a)); MC_CHECK(rc == (refd ? -1 : 0), "delete", "deleting a record returns %ld", (long)rc); if (!refd) { rs.erase(rs.begin() + p.a); for (auto &r : rs) for (auto &c : r.f) if (c.kind == 3 && c.a > p.a) c.a--; } break; }
      case FREE: { refusal(); rc = wg_free_encoded(db, ext(p.a, p.b, db)); MC_CHECK(rc == 0, "free", "freeing an external value returns %ld", (long)rc); break; }
      case DELEXT: { refusal(); void *r = made.at({p.a, p.b}).rec; rc = wg_delete_record(db, r); MC_CHECK(rc < 0, "delete-external", "deleting an external record returns %ld", (long)rc); rc = wg_delete_document(db, r); MC_CHECK(rc != 0, "delete-external", "deleting an external document returns %ld", (long)rc); count("refused"); break; }
      case INDEX: { refusal(); gint col[2] = {0, 1}; if (p.a == 0) rc = wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0); else if (p.a == 1) rc = wg_create_multi_index(db, col, 2, WG_INDEX_TYPE_HASH, NULL, 0); else rc = wg_create_multi_index(db, col, 2, WG_INDEX_TYPE_HASH_JSON, NULL, 0); MC_CHECK(rc < 0, "index", "creating an index returns %ld", (long)rc); count("refused"); break; }
      case DUMP: { refusal(); unlink("d"); rc = wg_dump(db, (char *)"d"); struct stat st; MC_CHECK(rc == -1, "dump", "dumping returns %ld", (long)rc); MC_CHECK(stat("d", &st) != 0, "dump-file", "a refused dump leaves a file"); count("refused"); break; }
      case IMPORT: { refusal(); rc = wg_import_dump(db, (char *)"nodump"); MC_CHECK(rc == -1, "import", "importing a missing file returns %ld", (long)rc); break; }
      case ATOMIC: { Cell &c = rs[p.a].f[p.b]; if (c.kind == 0 || (c.kind != 3 && !isptr(wg_get_field(db, ptr(p.a), p.b)))) { rc = wg_update_atomic_field(db, ptr(p.a), p.b, wg_encode_int(db, -5), wg_get_field(db, ptr(p.a), p.b)); MC_CHECK(rc == 0, "atomic", "atomic update of an immediate value returns %ld", (long)rc); Cell n; n.kind = 2; n.b = 10; c = n; } else { refusal(); rc = wg_update_atomic_field(db, ptr(p.a), p.b, wg_encode_int(db, -5), wg_get_field(db, ptr(p.a), p.b)); MC_CHECK(rc < 0, "atomic", "atomic update of a pointer field returns %ld", (long)rc); count("refused"); } break; }
      case REG: { rc = wg_register_external_db(db, D[p.a]); MC_CHECK(rc == 0, "register", "registering again returns %ld", (long)rc); reg++; break; }
    }
    if (noeffect) { Image *after = img_save(db); bool eq = after->free == before->free && after->b == before->b; delete after; MC_CHECK(eq, "effect", "'%s' is refused but changes the database", opname(o).c_str()); }
    same(opname(o).c_str()); check();
  }
  void check() {
    MC_CHECK(HDR(db)->extdbs.count == reg, "registered", "%ld databases are registered instead of %d", (long)HDR(db)->extdbs.count, reg);
    std::set<gint> all; for (auto &r : rs) all.insert(r.off); std::set<gint> seen;
    for (void *r = wg_get_first_record(db); r; r = wg_get_next_record(db, r)) MC_CHECK(seen.insert(ptrtooffset(db, r)).second, "scan", "a record is seen twice"); MC_CHECK(seen == all, "scan", "the scan sees %zu records instead of %zu", seen.size(), all.size());
    for (size_t i = 0; i < rs.size(); i++) {
      std::string w = wantr(i), h = got(db, wg_encode_record(db, ptr(i))); MC_CHECK(w == h, "content", "record %zu reads %s instead of %s", i, h.c_str(), w.c_str());
      for (size_t f = 0; f < rs[i].f.size(); f++) { Cell &c = rs[i].f[f]; if (c.kind != 1) continue; gint e = wg_get_field(db, ptr(i), f); MC_CHECK(e == ext(c.a, c.b, db), "stored", "the stored value differs"); MC_CHECK(wg_get_field_type(db, ptr(i), f) == wg_get_encoded_type(D[c.a], made.at({c.a, c.b}).enc), "type", "the type differs"); }
      // the list of referring records only knows local ones
      int n = 0; gint prev = -1; for (void *q = wg_get_first_parent(db, ptr(i)); q; q = wg_get_next_parent(db, ptr(i), q)) { gint of = ptrtooffset(db, q); if (of != prev) n++; prev = of; MC_CHECK(all.count(of), "parents", "an unknown record refers to record %zu", i); }
    }
    // queries and searches by the content of external fields
    std::set<int> used; for (auto &r : rs) for (auto &c : r.f) if (c.kind == 1 || c.kind == 2) used.insert(c.b);
    for (int v : used) {
      for (int f = 0; f < nf; f++) {
        int n = 0; gint first = 0; for (auto &r : rs) if (f < (int)r.f.size() && wantc(r.f[f]) == want(v)) { n++; if (!first || r.off < first) first = r.off; }
        if (tab[v].v.t == V_BLOB || tab[v].v.t == V_NULL || tab[v].v.t == V_REC) continue;
        wg_query_arg a; a.column = f; a.cond = WG_COND_EQUAL; a.value = enc_param(db, tab[v].v); wg_query *q = wg_make_query(db, NULL, 0, &a, 1); MC_CHECK(q, "query", "no query"); int k = 0; while (void *r = wg_fetch(db, q)) { MC_CHECK(all.count(ptrtooffset(db, r)), "query", "unknown record"); k++; } wg_free_query(db, q); MC_CHECK(k == n, "query", "column %d == %s finds %d records instead of %d", f, tab[v].v.str().c_str(), k, n); wg_free_query_param(db, a.value);
        if (n) { gint fr = 0; for (void *r = wg_get_first_record(db); r; r = wg_get_next_record(db, r)) { for (auto &x : rs) if (x.off == ptrtooffset(db, r) && f < (int)x.f.size() && wantc(x.f[f]) == want(v)) fr = x.off; if (fr) break; } a.value = enc_param(db, tab[v].v); void *r = wg_find_record(db, f, WG_COND_EQUAL, a.value, NULL); MC_CHECK(r && ptrtooffset(db, r) == fr, "find", "wg_find_record column %d == %s fails", f, tab[v].v.str().c_str()); wg_free_query_param(db, a.value); }
      }
    }
    fsck(db);
  }
  void leaf() override { same("reading"); }
  void *save() override { Snap *s = new Snap; s->i = img_save(db); s->r = rs; s->reg = reg; return s; }
  void restore(void *p) override { Snap *s = (Snap *)p; img_restore(db, s->i); rs = s->r; reg = s->reg; }
  void drop(void *p) override { Snap *s = (Snap *)p; delete s->i; delete s; }
  void hash(H128 &h) override { img_hash(db, h); hash_u64(h, reg); for (auto &r : rs) { hash_u64(h, r.off); for (auto &c : r.f) { hash_u64(h, c.kind); hash_u64(h, c.a); hash_u64(h, c.b); } } }
};
static std::string *out_;
static void outcb(void *ctx, const char *s, size_t n) { out_->append(s, n); }
static std::string json(void *db, void *doc) { std::string s; out_ = &s; wg_print_json_document(db, (void *)outcb, NULL, doc); while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); std::string r; bool q = false; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '"' && (!i || s[i - 1] != '\\')) q = !q; if (!q && isspace((unsigned char)s[i])) continue; r += s[i]; } return r; }
static int run() {
  Opts &o = opts(); watchdog(); setup();
  void *db = D[2];
  if (o.profile == "values") {
    // every value from every database: reads, prints and compares like the value itself
    for (int d : {0, 1}) if (wg_register_external_db(db, D[d])) die(__LINE__);
    struct X { int d, i; gint e; }; std::vector<X> xs; for (auto &m : made) if (m.first.first < 2) xs.push_back({m.first.first, m.first.second, 0}); std::set<int> loc; for (size_t i = 0; i < tab.size(); i++) { Ext e = build(2, i, true); xs.push_back({2, (int)i, e.enc}); }
    void *all = wg_attach_local_database(150000); std::map<int, gint> pure; void *keepc = D[2]; D[2] = all; for (size_t i = 0; i < tab.size(); i++) pure[i] = build(2, i, true).enc; D[2] = keepc;
    keep(); Cases C;
    for (auto &x : xs) C.run([&] { return fmt("value %d (%s) of database %d", x.i, tab[x.i].v.str().c_str(), x.d); }, [&] {
      gint e = x.d == 2 ? x.e : ext(x.d, x.i, db); std::string h = got(db, e), w = want(x.i); MC_CHECK(h == w, "content", "reads %s instead of %s", h.c_str(), w.c_str());
      std::string a = sn(db, e), b = sn(all, pure[x.i]); MC_CHECK(a == b, "print", "prints %s instead of %s", a.c_str(), b.c_str());
      if (tab[x.i].v.t >= V_STR && tab[x.i].v.t <= V_BLOB && tab[x.i].v.hasx) { // lengths and copies of the extra string
        char buf[100]; const Val &v = tab[x.i].v; gint n = -9, k = -9; memset(buf, 0, sizeof buf);
        switch (v.t) { case V_STR: n = wg_decode_str_lang_len(db, e); k = wg_decode_str_lang_copy(db, e, buf, 99); break; case V_URI: n = wg_decode_uri_prefix_len(db, e); k = wg_decode_uri_prefix_copy(db, e, buf, 99); break; case V_XML: n = wg_decode_xmlliteral_xsdtype_len(db, e); k = wg_decode_xmlliteral_xsdtype_copy(db, e, buf, 99); break; case V_BLOB: n = wg_decode_blob_type_len(db, e); k = wg_decode_blob_type_copy(db, e, buf, 99); break; }
        MC_CHECK(n == (gint)v.x.size() && k == n && v.x == buf, "extra", "length %ld, copy '%s' of '%s'", (long)n, buf, v.x.c_str()); }
      void *r = wg_create_record(db, 1); MC_CHECK(wg_set_field(db, r, 0, e) == 0, "set", "cannot store"); fsck(db); if (x.d < 2) { MC_CHECK(wg_delete_record(db, r) == 0, "delete", "cannot delete"); fsck(db); h = got(db, e); MC_CHECK(h == w, "content", "after deletion it reads %s instead of %s", h.c_str(), w.c_str()); }
      same("the case"); return true; });
    for (auto &x : xs) for (auto &y : xs) C.run([&] { return fmt("compare value %d (%s) of database %d with value %d (%s) of database %d", x.i, tab[x.i].v.str().c_str(), x.d, y.i, tab[y.i].v.str().c_str(), y.d); }, [&] {
      gint a = x.d == 2 ? x.e : ext(x.d, x.i, db), b = y.d == 2 ? y.e : ext(y.d, y.i, db), c1 = WG_COMPARE(db, a, b), c2 = WG_COMPARE(all, pure[x.i], pure[y.i]); MC_CHECK(c1 == c2, "compare", "compares %ld instead of %ld", (long)c1, (long)c2); same("the case"); return x.d != y.d; });
    // discarding the local database
    wg_delete_local_database(db); C.run([&] { return std::string("discard"); }, [&] { MC_CHECK(freed == 1, "discard", "%d segments are freed", freed); same("discarding the local database"); fsck(D[0]); fsck(D[1]); for (auto &m : made) if (m.first.first < 2) { std::string h = got(D[m.first.first], m.second.enc); MC_CHECK(h == want(m.first.second), "content", "after discarding the child: %s", h.c_str()); } return true; });
    return finish(C.failed());
  }
  if (o.profile == "register") {
    Cases C; Image *clean = img_save(db); char doc[] = "{}"; (void)doc;
    auto refused = [&](gint rc, const char *w) { MC_CHECK(rc < 0, "accepted", "registering is accepted %s", w); Image *i = img_save(db); bool eq = HDR(db)->extdbs.count == 0; delete i; MC_CHECK(eq, "effect", "refused, but registered"); };
    struct Ix { int type, n; gint cols[2]; }; Ix ix[] = {{WG_INDEX_TYPE_TTREE, 1, {0, 0}}, {WG_INDEX_TYPE_TTREE, 1, {1, 0}}, {WG_INDEX_TYPE_HASH, 1, {0, 0}}, {WG_INDEX_TYPE_HASH, 2, {0, 1}}, {WG_INDEX_TYPE_HASH_JSON, 2, {0, 1}}};
    for (int k = 0; k < 5; k++) for (int tmpl = 0; tmpl < 2; tmpl++) for (int d = 0; d < 2; d++) C.run([&] { return fmt("register %d with index %d%s", d, k, tmpl ? " with template" : ""); }, [&] {
      img_restore(db, clean); gint t[3] = {wg_encode_var(db, 0), wg_encode_var(db, 1), wg_encode_int(db, 5)}; if (tmpl && ix[k].type == WG_INDEX_TYPE_HASH_JSON) return false;
      gint rc = wg_create_multi_index(db, ix[k].cols, ix[k].n, ix[k].type, tmpl ? t : NULL, tmpl ? 3 : 0); MC_CHECK(rc == 0, "index", "cannot create the index: %ld", (long)rc); refused(wg_register_external_db(db, D[d]), "although there is an index"); void *r = wg_create_record(db, 3); MC_CHECK(r, "usable", "no record"); rc = wg_set_field(db, r, 2, wg_encode_int(db, 5)); MC_CHECK(rc == 0, "usable", "set field: %ld", (long)rc);
      for (int i : {1, 8, 22}) { if (tab[i].home >> d & 1) { rc = wg_set_field(db, r, 0, wg_encode_external_data(db, D[d], made.at({d, i}).enc)); MC_CHECK(rc == -5, "unregistered", "an external value is stored in an indexed database: %ld", (long)rc); } } fsck(db);
      if (ix[k].type == WG_INDEX_TYPE_TTREE) { gint id = wg_multi_column_to_index_id(db, ix[k].cols, ix[k].n, ix[k].type, tmpl ? t : NULL, tmpl ? 3 : 0); MC_CHECK(wg_drop_index(db, id) == 0, "drop", "cannot drop"); MC_CHECK(wg_register_external_db(db, D[d]) == 0, "register", "refused although the index is gone"); MC_CHECK(wg_set_field(db, r, 0, ext(d, 1, db)) == 0, "set", "cannot store"); std::string h = got(db, wg_get_field(db, r, 0)); MC_CHECK(h == want(1), "content", "%s", h.c_str()); }
      same("the case"); return true; });
    C.run([&] { return std::string("register in a shared database"); }, [&] { img_restore(db, clean); HDR(db)->key = 77; refused(wg_register_external_db(db, D[0]), "by a shared database"); HDR(db)->key = 0; return true; });
    for (int w = 0; w < 4; w++) C.run([&] { return fmt("register, bad handle %d", w); }, [&] { img_restore(db, clean); std::vector<char> junk(SIZE, 0); void *a = w == 0 ? NULL : w == 1 ? (void *)junk.data() : db, *b = w == 2 ? NULL : w == 3 ? (void *)junk.data() : D[0]; gint rc = wg_register_external_db(a, b); MC_CHECK(rc < 0, "handle", "accepted"); MC_CHECK(HDR(db)->extdbs.count == 0, "effect", "registered"); return true; });
    C.run([&] { return std::string("as many databases as possible"); }, [&] {
      img_restore(db, clean); int n = 0; gint rc = 0; gint hdr = HDR(db)->free; while (n < 1000 && (rc = wg_register_external_db(db, D[n % 2])) == 0) n++; MC_CHECK(n == MAX_EXTDB && rc < 0, "limit", "%d databases can be registered", n); MC_CHECK(HDR(db)->extdbs.count == n && HDR(db)->free == hdr, "limit", "header damaged"); fsck(db); void *r = wg_create_record(db, 1); MC_CHECK(wg_set_field(db, r, 0, ext(1, 24, db)) == 0, "set", "cannot store"); std::string h = got(db, wg_get_field(db, r, 0)); MC_CHECK(h == want(24), "content", "%s", h.c_str()); Image *a = img_save(db); MC_CHECK(wg_register_external_db(db, D[3]) < 0, "limit", "accepted"); Image *b = img_save(db); bool eq = a->b == b->b; delete a; delete b; MC_CHECK(eq, "effect", "refused but changed"); return true; });
    // values of each database after registering every subset, in every order
    for (int s = 0; s < 27; s++) C.run([&] { return fmt("registration order %d%d%d", s / 9, s / 3 % 3, s % 3); }, [&] {
      img_restore(db, clean); std::set<int> reg; for (int k : {s / 9, s / 3 % 3, s % 3}) { int d = k == 2 ? 3 : k; if (reg.count(d)) continue; MC_CHECK(wg_register_external_db(db, D[d]) == 0, "register", "refused"); reg.insert(d); }
      for (auto &m : made) { int d = m.first.first, i = m.first.second; void *r = wg_create_record(db, 1); bool ok = reg.count(d) || !isptr(m.second.enc); gint rc = wg_set_field(db, r, 0, ext(d, i, db)); MC_CHECK(rc == (ok ? 0 : -5), "set", "value %s of database %d returns %ld", tab[i].v.str().c_str(), d, (long)rc); if (ok && (i != 24 && i != 25)) { std::string h = got(db, wg_get_field(db, r, 0)); MC_CHECK(h == want(i), "content", "%s", h.c_str()); } MC_CHECK(wg_delete_record(db, r) == 0, "delete", "cannot delete"); }
      fsck(db); same("the case"); return true; });
    delete clean; return finish(C.failed());
  }
  if (o.profile == "json") {
    const char *docs[] = {"{\"k\":[1,\"short\",2.5,null]}", "{\"s\":\"a string of more than thirty-two characters\",\"o\":{\"x\":[],\"y\":{\"z\":4611686018427387904}}}", "[[1],[\"two\",[3.5]],{}]"};
    std::vector<void *> dp; for (int d = 0; d < 2; d++) for (auto t : docs) { void *x = NULL; std::string b = t; if (b[0] == '[') b = "{\"w\":" + b + "}"; if (wg_parse_json_document(D[d], (char *)b.c_str(), &x) || !x) die(__LINE__); dp.push_back(x); }
    for (int d : {0, 1}) if (wg_register_external_db(db, D[d])) die(__LINE__); keep(); Image *clean = img_save(db); Cases C;
    struct V { gint e; std::string text; std::vector<std::string> elems; }; std::vector<V> vs;
    auto fld = [&](void *from, void *r, int f) { return wg_get_field(from, r, f); };
    for (int d = 0; d < 2; d++) { void *from = D[d]; for (int k = 0; k < 3; k++) { void *doc = dp[d * 3 + k]; std::string t = docs[k]; vs.push_back({wg_encode_external_data(db, from, wg_encode_record(from, doc)), k == 2 ? "{\"w\":" + t + "}" : t, {}}); if (k != 1) { void *kv = wg_decode_record(from, fld(from, doc, 0)); gint a = fld(from, kv, WG_SCHEMA_VALUE_OFFSET); V v; v.e = wg_encode_external_data(db, from, a); v.text = k == 0 ? "[1,\"short\",2.5,null]" : t; if (k == 0) v.elems = {"1", "\"short\"", "2.5"}; vs.push_back(v); } } }
    vs.push_back({ext(0, 1, db), "\"" + L('l', 40) + "\"", {"\"" + L('l', 40) + "\""}}); vs.push_back({ext(0, 8, db), "3.25", {"3.25"}}); vs.push_back({ext(1, 9, db), "4611686018427387904", {"4611686018427387904"}});
    auto mkkv = [&](const char *k, gint v) { void *r = wg_create_record(db, 3); MC_CHECK(r && wg_set_field(db, r, WG_SCHEMA_KEY_OFFSET, wg_encode_str(db, (char *)k, NULL)) == 0 && wg_set_field(db, r, WG_SCHEMA_VALUE_OFFSET, v) == 0, "build", "cannot build a pair"); return r; };
    for (auto &a : vs) for (auto &b : vs) for (int shape = 0; shape < 2; shape++) C.run([&] { return fmt("document with %s and %s, %s", a.text.c_str(), b.text.c_str(), shape ? "array" : "object"); }, [&] {
      img_restore(db, clean); void *doc; std::string w;
      if (shape == 0) { doc = wg_create_object(db, 2, 1, 0); MC_CHECK(doc && !wg_set_field(db, doc, 0, wg_encode_record(db, mkkv("a", a.e))) && !wg_set_field(db, doc, 1, wg_encode_record(db, mkkv("b", b.e))), "build", "cannot build a document"); w = "{\"a\":" + a.text + ",\"b\":" + b.text + "}"; }
      else { void *arr = wg_create_array(db, 2, 0, 0); doc = wg_create_object(db, 1, 1, 0); MC_CHECK(arr && doc && !wg_set_field(db, arr, 0, a.e) && !wg_set_field(db, arr, 1, b.e) && !wg_set_field(db, doc, 0, wg_encode_record(db, mkkv("a", wg_encode_record(db, arr)))), "build", "cannot build a document"); w = "{\"a\":[" + a.text + "," + b.text + "]}"; }
      std::string h = json(db, doc); MC_CHECK(h == w, "json", "prints %s instead of %s", h.c_str(), w.c_str());
      std::set<std::string> want_a(a.elems.begin(), a.elems.end()); if (shape == 1) { want_a.clear(); for (auto x : {&a, &b}) if (x->elems.size() == 1) want_a.insert(x->elems[0]); }
      for (std::string e : {std::string("1"), std::string("\"short\""), std::string("2.5"), "\"" + L('l', 40) + "\"", std::string("3.25"), std::string("4611686018427387904"), std::string("77")}) for (int two = 0; two < (shape ? 1 : 2); two++) {
        wg_json_query_arg q[2]; gint n = 1; auto prm = [&](const std::string &t) { if (t[0] == '"') return wg_encode_query_param_str(db, (char *)t.substr(1, t.size() - 2).c_str(), NULL); if (t.find('.') != std::string::npos) return wg_encode_query_param_double(db, atof(t.c_str())); return wg_encode_query_param_int(db, atoll(t.c_str())); };
        std::string be = b.elems.empty() ? "77" : b.elems.back(); bool hit = want_a.count(e); q[0].key = wg_encode_query_param_str(db, (char *)"a", NULL); q[0].value = prm(e); if (two) { n = 2; q[1].key = wg_encode_query_param_str(db, (char *)"b", NULL); q[1].value = prm(be); hit = hit && !b.elems.empty(); }
        wg_query *qq = wg_make_json_query(db, q, n); MC_CHECK(qq, "json-query", "no query"); std::vector<void *> res; while (void *r = wg_fetch(db, qq)) res.push_back(r); wg_free_query(db, qq); for (int i = 0; i < n; i++) { wg_free_query_param(db, q[i].key); wg_free_query_param(db, q[i].value); }
        MC_CHECK(res.size() == (size_t)hit && (!hit || res[0] == doc), "json-query", "a = %s%s finds %zu documents instead of %d", e.c_str(), two ? (" and b = " + be).c_str() : "", res.size(), (int)hit); }
      gint rc = wg_delete_document(db, doc); bool hasrec = wg_get_encoded_type(db, a.e) == V_REC || wg_get_encoded_type(db, b.e) == V_REC; MC_CHECK(hasrec ? rc != 0 : rc == 0, "delete-doc", "deleting the document returns %ld", (long)rc); if (rc) { h = json(db, doc); MC_CHECK(h == w, "delete-doc", "a refused deletion changes the document"); }
      fsck(db); same("the case"); return true; });
    delete clean; return finish(C.failed());
  }
  W w(o.num("set", 0)); Explorer E(w, o.depth); return finish(E.explore());
}
int main(int argc, char **argv) {
  init(argc, argv); if (!freopen("/dev/null", "w", stderr)) return 2; if (!freopen("/dev/null", "w", stdout)) return 2; layout(opts().num("layout", 0));
  try { return run(); } catch (Violation &v) { Cases C; C.run([&] { return std::string("preparation"); }, [&] { throw v; return true; }); return finish(C.failed()); }
}
