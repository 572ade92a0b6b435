// C18 / C19: every history of data operations (incl. failing ones) with the journal on;
// after every step the journal is replayed into copies of the starting state and into a
// differently laid out copy, and the results are compared with the journalled database.
//   profile tear:   the journal of every history is cut at every byte
//   profile faults: every write / open of the journal fails once or twice, in several ways
#include "wgdb.h"
#include <climits>
using namespace mc;
extern "C" { ssize_t __real_write(int, const void *, size_t); int __real_open(const char *, int, ...); }

static char JP[300]; static void *SRC, *TGT, *PARA; static void *JDB;
// ---- control of the journal's I/O
static long iocount = 0, iofail = -1; static int iomode = 0; static bool iofired = false, ioon = false;
static bool capture_on = false; struct Cap { long pos; std::string st; }; static std::vector<Cap> caps;
static std::string canon(void *db);
static long flen(const char *p) { struct stat s; return stat(p, &s) ? -1 : (long)s.st_size; }
extern "C" __attribute__((used)) ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (!ioon) return __real_write(fd, b, n);
  if (capture_on) caps.push_back({flen(JP), canon(JDB)});
  long k = iocount++;
  if (k == iofail && iomode < 3) {
    iofired = true; ssize_t m = iomode == 0 ? -1 : iomode == 1 ? (ssize_t)n - 1 : (ssize_t)n / 2;
    if (m > 0) __real_write(fd, b, m); errno = ENOSPC; return m;
  }
  return __real_write(fd, b, n);
}
extern "C" __attribute__((used)) int __wrap_open(const char *p, int fl, ...) {
  va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a);
  if (ioon && iomode == 3 && iofail == 0) { iofired = true; iofail = -1; errno = EMFILE; return -1; }
  return __real_open(p, fl, mode);
}
struct IoOn { IoOn() { ioon = true; iocount = 0; iofired = false; } ~IoOn() { ioon = false; } };

// ---- content of a database, independent of addresses
static std::string canonval(void *db, gint e, int depth);
static std::string canonrec(void *db, void *r, int depth) {
  gint n = wg_get_record_len(db, r), meta = ((gint *)r)[RECORD_META_POS];
  std::string s = fmt("(%ld m%lx", (long)n, (long)meta);
  for (gint i = 0; i < n; i++) s += " " + canonval(db, wg_get_field(db, r, i), depth);
  return s + ")";
}
static std::string canonval(void *db, gint e, int depth) {
  if (e == WG_ILLEGAL) return "illegal";
  if (wg_get_encoded_type(db, e) == WG_RECORDTYPE) {
    void *r = wg_decode_record(db, e); gint id = wg_get_field(db, r, 0);
    if (wg_get_encoded_type(db, id) == WG_INTTYPE && wg_decode_int(db, id) >= 1000) return fmt("->%ld", (long)wg_decode_int(db, id));
    return depth ? canonrec(db, r, depth - 1) : "->?";
  }
  Val v = dec_val(db, e); std::string s = fmt("%d:", v.t);
  if (v.t == V_DBL || v.t == V_FIX) { ll q; memcpy(&q, &v.d, 8); s += fmt("%llx", q); } else if (v.t >= V_STR && v.t <= V_BLOB) { H128 h = hash0(); hash_str(h, v.s); s += fmt("%zu/%llx", v.s.size(), (ll)h.a) + (v.hasx ? "/" + v.x : ""); } else s += fmt("%lld", v.i);
  return s;
}
static std::string canon(void *db) {
  std::vector<std::string> v;
  for (void *r = wg_get_first_raw_record(db); r; r = wg_get_next_raw_record(db, r)) {
    gint m = ((gint *)r)[RECORD_META_POS]; if (m & RECORD_META_NOTDATA) continue;
    std::string s = canonrec(db, r, 3) + " parents"; std::vector<std::string> ps;
    for (gint b = ((gint *)r)[RECORD_BACKLINKS_POS]; b; b = ((gcell *)offsettoptr(db, b))->cdr) { void *p = offsettoptr(db, ((gcell *)offsettoptr(db, b))->car); if (!(((gint *)p)[RECORD_META_POS] & RECORD_META_NOTDATA)) ps.push_back(canonrec(db, p, 0)); }
    std::sort(ps.begin(), ps.end()); for (auto &p : ps) s += " " + p;
    v.push_back(s);
  }
  std::sort(v.begin(), v.end()); std::string r; for (auto &s : v) r += s + "\n"; return r;
}
static std::string diff(const std::string &a, const std::string &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t s = i > 60 ? i - 60 : 0; return "journalled ..." + a.substr(s, 160) + " | replayed ..." + b.substr(s, 160); }

struct Op { int k; int a, b, c; };
enum { CRE, DEL, SET, LNK, NEW, ENC, PUT, FRE, BADC, BADE, BADF, DOC, DDOC, TRI, IDX, ARR, REP, SETL };
static const char *KN[] = {"create", "delete", "set", "link", "set_new", "encode", "put encoded", "free encoded", "create too large", "encode too large", "set missing column", "import document", "delete document", "parameter triple", "template index", "array record", "encode same text 9 times", "set own link"};
static const char *DOCS[] = {"{\"a\":[1,{\"b\":\"a longer text that is stored with a hash entry\"}],\"c\":2.5}", "[\"x\",null,[[7]],{\"k\":{}}]", "{\"id\":1152921504606846977,\"x\":[]}"};

struct JW : World {
  int S; std::vector<Op> ops; std::vector<Val> vals; Image *base, *para; int faults, maxfaults; bool tear;
  std::vector<gint> slot; std::vector<gint> held; gint doc = 0; gint idxs = 0; int nid = 1000;
  struct Snap { Image *i; std::vector<gint> slot, held; gint doc, idxs; int nid, faults; long len; bool fdopen; gint serial; std::vector<Cap> caps; };
  db_handle_logdata *ld() { return (db_handle_logdata *)((db_handle *)SRC)->logdata; }
  static int nf() { return 10; } // fault variants: (write 0..2) x 3 modes + open
  int nops() override { return ops.size() * (maxfaults ? 1 + nf() : 1); }
  bool enabled(int o) override {
    int f = o / ops.size(); Op &p = ops[o % ops.size()]; if (f && faults >= maxfaults) return false;
    auto live = [&](int s) { return slot[s] != 0; };
    switch (p.k) {
      case CRE: case ARR: return !live(p.a) && (p.a == 0 || live(p.a - 1) || true);
      case DEL: return live(p.a);
      case SET: case NEW: return live(p.a) && p.b < wg_get_record_len(SRC, offsettoptr(SRC, slot[p.a]));
      case LNK: return live(p.a) && live(p.b) && p.c < wg_get_record_len(SRC, offsettoptr(SRC, slot[p.a]));
      case ENC: return held[p.b] == WG_ILLEGAL;
      case PUT: return live(p.a) && held[p.c] != WG_ILLEGAL && p.b < wg_get_record_len(SRC, offsettoptr(SRC, slot[p.a]));
      case FRE: return held[p.a] != WG_ILLEGAL;
      case BADF: return live(p.a);
      case DOC: return !doc; case DDOC: return doc != 0; case IDX: return true;
    }
    return true;
  }
  std::string opname(int o) override {
    int f = o / ops.size(); Op &p = ops[o % ops.size()]; std::string s = KN[p.k];
    if (p.k == SET || p.k == NEW) s += fmt(" r%d[%d]=", p.a, p.b) + vals[p.c].str(); else if (p.k == ENC) s += " " + vals[p.a].str(); else if (p.k == REP) s += " " + vals[p.a].str(); else s += fmt(" %d %d %d", p.a, p.b, p.c);
    if (f) { f--; s += f == 9 ? " {opening the journal fails}" : fmt(" {journal write %d %s}", f / 3, f % 3 == 0 ? "fails" : f % 3 == 1 ? "stores all but one byte" : "stores half"); }
    return s;
  }
  bool must_fail = false;
  void want(bool ok, const char *what, long rc) {
    if (iofired) { MC_CHECK(!ok, "journal-fault-hidden", "%s reports success (%ld) although writing the journal failed", what, rc); }
    else MC_CHECK(ok, "journal-op-failed", "%s fails (%ld) without a fault", what, rc);
  }
  void step(int o) override {
    int f = o / ops.size(); Op &p = ops[o % ops.size()]; void *db = SRC;
    if (f) { faults++; f--; iomode = f == 9 ? 3 : f % 3; iofail = f == 9 ? 0 : f / 3; } else iofail = -1, iomode = 0;
    { IoOn on; apply(p); }
    if (f > 0) count(iofired ? "journal faults injected" : "fault positions beyond the operation"); iofail = -1;
    // a shared text nobody refers to may disappear when another user of it goes away
    if (p.k != ENC) for (auto &e : held) if (e != WG_ILLEGAL && islongstr(e)) e = WG_ILLEGAL;
    check();
  }
  void apply(Op &p) {
    void *db = SRC; void *r = p.a < S && p.k != ENC && p.k != FRE && slot.size() > p.a ? (slot[p.a] ? offsettoptr(db, slot[p.a]) : 0) : 0; gint e, rc;
    switch (p.k) {
      case CRE: r = wg_create_record(db, p.b); want(r != 0, "wg_create_record", 0); if (!r) break; slot[p.a] = ptrtooffset(db, r);
        { bool had = iofired; rc = wg_set_field(db, r, 0, wg_encode_int(db, nid++)); if (!had) want(rc == 0, "wg_set_field", rc); } break;
      case ARR: r = p.b ? wg_create_object(db, 2, p.c & 1, p.c >> 1) : wg_create_array(db, 2, p.c & 1, p.c >> 1); want(r != 0, "wg_create_array", 0); if (r) slot[p.a] = ptrtooffset(db, r); break;
      case DEL: rc = wg_delete_record(db, r); if (rc == -1) { MC_CHECK(((gint *)r)[RECORD_BACKLINKS_POS] != 0, "delete-refused", "an unreferenced record is refused"); break; } want(rc == 0, "wg_delete_record", rc); if (!rc) slot[p.a] = 0; break;
      case SET: case NEW: e = enc_val(db, vals[p.c]); if (e == WG_ILLEGAL) { want(false, "encoding", 0); break; } if (iofired && vals[p.c].t != V_NULL) MC_CHECK(false, "journal-fault-hidden", "encoding succeeds although the journal failed");
        if (p.k == NEW) { bool empty = wg_get_field(db, r, p.b) == 0; rc = wg_set_new_field(db, r, p.b, e); if (!empty) { MC_CHECK(rc == -2, "set-new-accepted", "wg_set_new_field on a used field returns %ld", (long)rc); wg_free_encoded(db, e); break; } }
        else rc = wg_set_field(db, r, p.b, e);
        want(rc == 0, "setting a field", rc); break;
      case LNK: rc = wg_set_field(db, r, p.c, wg_encode_record(db, offsettoptr(db, slot[p.b]))); want(rc == 0, "setting a link", rc); break;
      case ENC: e = enc_val(db, vals[p.a]); want(e != WG_ILLEGAL, "encoding", 0); held[p.b] = e; break;
      case PUT: rc = wg_set_field(db, r, p.b, held[p.c]); want(rc == 0, "setting a field", rc); if (!rc) held[p.c] = WG_ILLEGAL; break;
      case FRE: wg_free_encoded(db, held[p.a]); held[p.a] = WG_ILLEGAL; break;
      case BADC: r = wg_create_record(db, 100000000); MC_CHECK(!r, "huge-accepted", "a record larger than the database is created"); break;
      case BADE: { static std::string big(3000000, 'q'); e = wg_encode_str(db, big.c_str(), p.a ? (char *)"en" : NULL); MC_CHECK(e == WG_ILLEGAL, "huge-accepted", "a text larger than the database is stored"); break; }
      case BADF: rc = wg_set_field(db, r, wg_get_record_len(db, r), wg_encode_int(db, 5)); MC_CHECK(rc < 0, "bad-column", "setting a missing column succeeds"); break;
      case DOC: { void *d = 0; rc = wg_parse_json_document(db, (char *)DOCS[p.a], &d); want(rc == 0, "wg_parse_json_document", rc); if (!rc) doc = ptrtooffset(db, d); break; }
      case DDOC: rc = wg_delete_document(db, offsettoptr(db, doc)); want(rc == 0, "wg_delete_document", rc); if (!rc) doc = 0; break;
      case TRI: r = wg_create_triple(db, 0, wg_encode_str(db, "k", NULL), wg_encode_int(db, 3), p.a); want(r != 0, "wg_create_triple", 0); break;
      case IDX: if (!idxs) { gint col = 1, m[2] = {wg_encode_int(db, 5), wg_encode_var(db, 0)}; rc = wg_create_index(db, col, WG_INDEX_TYPE_TTREE, m, 2); want(rc == 0, "wg_create_index", rc); if (!rc) idxs = wg_column_to_index_id(db, 1, WG_INDEX_TYPE_TTREE, m, 2); }
        else { rc = wg_drop_index(db, idxs); want(rc == 0, "wg_drop_index", rc); if (!rc) idxs = 0; } break;
      case REP: for (int i = 0; i < 9; i++) { e = enc_val(db, vals[p.a]); want(e != WG_ILLEGAL, "encoding", 0); } break;
    }
  }
  void replay_into(void *db, Image *img, const char *name, const std::string &want, const char *file = JP) {
    img_restore(db, img); gint a0 = HDR(db)->logging.active; gint rc = wg_replay_log(db, (char *)file);
    count("replays");
    MC_CHECK(rc == 0, "replay-refused", "replaying the intact journal into %s returns %ld", name, (long)rc);
    MC_CHECK(HDR(db)->logging.active == a0 && !HDR(db)->logging.dirty, "replay-state", "journal state after replay: active %ld dirty %ld", (long)HDR(db)->logging.active, (long)HDR(db)->logging.dirty);
    std::string got = canon(db);
    MC_CHECK(got == want, "replay-differs", "replaying into %s: %s", name, diff(want, got).c_str());
    fsck(db);
  }
  void check() {
    std::string c = canon(SRC); fsck(SRC);
    replay_into(TGT, base, "a copy of the starting state", c);
    if (para) replay_into(TGT, para, "a differently laid out copy", c);
  }
  bool didforeign = false;
  void foreign() {  // files that are no journals are refused and nothing changes
    struct { const char *n, *c; size_t len; } F[] = {{"./f0", "", 0}, {"./f1", "wgd", 3}, {"./f2", "wgdc\xc0\x10\x01\x05", 8}, {"./f3", "\0\0\0\0\0\0\0\0", 8}, {"./f4", "[1,2,3]\n", 8}, {"./f5", "WGDB", 4}, {"./missing", 0, 0}, {".", 0, 0}};
    for (auto &f : F) { if (f.c) { FILE *q = fopen(f.n, "wb"); fwrite(f.c, 1, f.len, q); fclose(q); }
      for (int act = 0; act < 2; act++) for (int dirty = 0; dirty < 2; dirty++) { img_restore(TGT, base); HDR(TGT)->logging.active = act; HDR(TGT)->logging.dirty = dirty; H128 a = hash0(), b = hash0(); img_hash(TGT, a); gint rc = wg_replay_log(TGT, (char *)f.n); img_hash(TGT, b);
        MC_CHECK(rc == -1 && a == b, "foreign-file", "file %s: replay returns %ld%s", f.n, (long)rc, a == b ? "" : " and changes the database"); count("foreign files refused"); }
      if (f.c) unlink(f.n); }
  }
  void leaf() override { if (tear) { if (!didforeign) { didforeign = true; foreign(); } tearall(); } }
  void tearall() {
    std::string fin = canon(SRC); FILE *f = fopen(JP, "rb"); std::string j; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) j.append(b, n); fclose(f);
    static char cp[320]; snprintf(cp, 320, "./cut"); H128 hb = hash0();
    for (size_t L = 0; L <= j.size(); L++) {
      f = fopen(cp, "wb"); fwrite(j.data(), 1, L, f); fclose(f);
      for (int t = 0; t < (para ? 2 : 1); t++) {
        img_restore(TGT, t ? para : base); H128 h0 = hash0(); if (L < 4) img_hash(TGT, h0);
        gint rc = wg_replay_log(TGT, cp); count("cut journals replayed");
        if (L < 4) { H128 h1 = hash0(); img_hash(TGT, h1); MC_CHECK(rc == -1 && h0 == h1, "cut-header", "a file of %zu bytes is not refused unchanged (%ld)", L, (long)rc); continue; }
        std::string got = canon(TGT);
        std::vector<const std::string *> ok; long pos = -1; if (L == j.size()) ok.push_back(&fin);
        for (auto &c : caps) if (c.pos <= (long)L && c.pos >= pos) { pos = c.pos; }
        long prev = -1; for (auto &c : caps) { if (c.pos <= (long)L) { if (c.pos == pos) ok.push_back(&c.st); else prev = c.pos; } }
        for (auto &c : caps) if (c.pos == prev) ok.push_back(&c.st);
        bool match = false; for (auto *s : ok) if (*s == got) match = true;
        if (rc == 0) { MC_CHECK(match, "cut-mixture", "journal cut at byte %zu of %zu is accepted but the content is no prefix state: %s", L, j.size(), diff(ok.size() ? *ok[0] : "", got).c_str()); fsck(TGT); }
        else { MC_CHECK(rc == -1 || rc == -2, "cut-code", "replay returns %ld", (long)rc); bool any = got == fin; for (auto &c : caps) if (c.st == got) any = true; MC_CHECK(any, "cut-invented", "journal cut at byte %zu of %zu: content that was never reached", L, j.size()); }
        if (L == j.size()) MC_CHECK(rc == 0 && got == fin, "cut-whole", "the complete journal is not replayed");
        stats().outcomes[rc ? "cut journal refused" : "cut journal accepted at an entry boundary"]++;
      }
    }
    unlink(cp);
  }
  void *save() override { Snap *s = new Snap{img_save(SRC), slot, held, doc, idxs, nid, faults, flen(JP), ld()->fd >= 0, ld()->serial, caps}; return s; }
  void restore(void *v) override {
    Snap *s = (Snap *)v; img_restore(SRC, s->i); slot = s->slot; held = s->held; doc = s->doc; idxs = s->idxs; nid = s->nid; faults = s->faults; caps = s->caps;
    if (truncate(JP, s->len)) abort();
    if (s->fdopen && ld()->fd < 0) { ld()->fd = __real_open(JP, O_APPEND | O_RDWR); } else if (!s->fdopen && ld()->fd >= 0) { close(ld()->fd); ld()->fd = -1; }
    ld()->serial = s->serial;
  }
  void drop(void *v) override { Snap *s = (Snap *)v; delete s->i; delete s; }
  void hash(H128 &h) override {
    img_hash(SRC, h); for (gint g : slot) hash_u64(h, g); for (gint g : held) hash_u64(h, g); hash_u64(h, doc); hash_u64(h, idxs); hash_u64(h, nid); hash_u64(h, faults); hash_u64(h, ld()->fd >= 0);
    FILE *f = fopen(JP, "rb"); std::string j; char b[4096]; size_t n; while (f && (n = fread(b, 1, sizeof b, f)) > 0) j.append(b, n); if (f) fclose(f); hash_str(h, j);
  }
};

static std::string rep(const char *s, int n) { std::string r; while ((int)r.size() < n) r += s; return r.substr(0, n); }
int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts(); std::string pf = o.profile; ll T60 = 1LL << 60;
  JW w; w.S = o.num("slots", 2); w.maxfaults = o.num("faults", 0); w.faults = 0; w.tear = pf == "tear"; gint size = 600000;
  SRC = wg_attach_local_database(size); TGT = wg_attach_local_database(size); JDB = SRC; if (!SRC || !TGT) { fprintf(out(), "no memory\n"); _exit(2); }
  wg_journal_filename(SRC, JP, sizeof JP);
  std::vector<Val> all = {vInt(5), vInt(T60 - 1), vInt(T60), vInt(-T60), vInt(-T60 - 1), vInt(LLONG_MAX), vInt(LLONG_MIN), vInt(4294967296LL + 7), vDbl(0.5), vDbl(-0.0), vDbl(1e308), vFix(1.5), vChar('x'), vDate(738000), vTime(4000), vVar(9), vNull(),
    vStr(""), vStr("abc"), vStr(rep("shrt", 31)), vStr(rep("edge", 32)), vStr(rep("long text ", 100)), vStr(rep("very long text ", 300)), vTxt(V_STR, "abc", "en"), vTxt(V_STR, "abc", ""), vTxt(V_STR, rep("long text ", 100), "et"), vTxt(V_STR, "abc", rep("a long language name ", 40)), vTxt(V_STR, rep("long text ", 100), rep("long text ", 100)),
    vTxt(V_URI, "http://x"), vTxt(V_URI, "x", "http://pre"), vTxt(V_URI, "x", rep("http://pre/", 60)), vTxt(V_URI, "x", ""), vTxt(V_XML, "<a/>", "xsd:t"), vTxt(V_XML, "<a/>", rep("xsd:t", 40)), vTxt(V_BLOB, std::string("a\0b", 3)), vTxt(V_BLOB, std::string("a\0b", 3), "gif"), vTxt(V_BLOB, rep("blob\0", 5) + std::string(40, '\0')), vTxt(V_BLOB, rep("B", 300), rep("image/x-", 40)), vTxt(V_BLOB, "q")};
  auto add = [&](int k, int a = 0, int b = 0, int c = 0) { w.ops.push_back({k, a, b, c}); };
  w.slot.assign(w.S, 0); w.held.assign(2, WG_ILLEGAL); bool preload = o.num("base", 0);
  if (pf == "values") { w.vals = all; for (int s = 0; s < 1; s++) { add(CRE, s, 3); add(DEL, s); for (size_t v = 0; v < all.size(); v++) add(SET, s, 1, v); for (size_t v = 0; v < all.size(); v++) add(SET, s, 2, v); } }
  else if (pf == "mixed") {
    w.vals = {vInt(T60 + 3), vDbl(0.25), vStr("abc"), vStr(rep("long text ", 60)), vTxt(V_STR, "abc", rep("long text ", 60)), vTxt(V_BLOB, std::string("a\0b", 3), "g")};
    for (int s = 0; s < w.S; s++) { add(CRE, s, 2 + s); add(DEL, s); for (int v = 0; v < 6; v++) add(SET, s, 1, v); for (int t = 0; t < w.S; t++) add(LNK, s, t, 1); add(BADF, s); }
    add(NEW, 0, 1, 3); add(ARR, 1, 0, 1); add(ARR, 1, 1, 0); add(TRI, 0); add(TRI, 1); add(IDX); add(BADC); add(BADE, 0); add(BADE, 1); add(REP, 3); add(REP, 4); for (int d = 0; d < 3; d++) add(DOC, d); add(DDOC);
  } else if (pf == "reuse") {  // few operations, more depth: addresses are freed and used again
    w.vals = {vDbl(0.25), vStr(rep("long text ", 60)), vStr("abc")}; int v = o.num("val", 0);
    for (int s = 0; s < w.S; s++) { add(CRE, s, 2); add(DEL, s); add(SET, s, 1, v); add(LNK, s, (s + 1) % w.S, 1); }
    add(ENC, v, 0); add(FRE, 0); add(PUT, 0, 1, 0); add(REP, 1);
  } else if (pf == "held") {
    w.vals = {vDbl(0.25), vInt(T60), vStr(rep("long text ", 60)), vTxt(V_STR, "abc", "en"), vStr("abc")};
    add(CRE, 0, 3); add(DEL, 0); for (int v = 0; v < 5; v++) { add(ENC, v, 0); add(ENC, v, 1); } for (int h = 0; h < 2; h++) { add(FRE, h); add(PUT, 0, 1, h); add(PUT, 0, 2, h); }
  } else if (pf == "tear") {
    w.vals = {vInt(T60 + 3), vDbl(0.25), vStr("abc"), vTxt(V_STR, rep("text ", 40), "en"), vInt(4)};
    for (int s = 0; s < w.S; s++) { add(CRE, s, 2 + s); add(DEL, s); for (int v = 0; v < 5; v++) add(SET, s, 1, v); add(LNK, s, 0, 1); }
    add(ARR, 1, 0, 1); add(ENC, 3, 0); add(PUT, 0, 1, 0); add(BADC); add(DOC, 1);
  } else if (pf == "faults") {
    w.vals = {vInt(T60 + 3), vDbl(0.25), vStr("abc"), vTxt(V_STR, rep("text ", 150), "en"), vInt(4), vTxt(V_BLOB, std::string("a\0b", 3), "g")};
    for (int s = 0; s < w.S; s++) { add(CRE, s, 2 + s); add(DEL, s); } for (int v = 0; v < 6; v++) add(SET, 0, 1, v); add(LNK, 0, w.S - 1, 1); add(ARR, w.S - 1, 0, 1); add(NEW, 0, 1, 4);
  } else { fprintf(out(), "unknown profile\n"); _exit(2); }
  // starting state
  if (preload) {
    for (int s = 0; s < w.S; s++) { void *r = wg_create_record(SRC, 3); wg_set_field(SRC, r, 0, wg_encode_int(SRC, w.nid++)); w.slot[s] = ptrtooffset(SRC, r); if (s) wg_set_field(SRC, r, 1, wg_encode_record(SRC, offsettoptr(SRC, w.slot[0]))); else wg_set_field(SRC, r, 1, wg_encode_str(SRC, rep("long text ", 60).c_str(), NULL)); wg_set_field(SRC, r, 2, wg_encode_double(SRC, 3.5)); }
  }
  w.base = img_save(SRC);
  // the same content followed by objects which only take up places (parameter records, stray values)
  { img_restore(TGT, w.base); for (int i = 0; i < 3; i++) for (int l : {2, 3, 1, 4}) wg_create_array(TGT, l, 0, 1);
    for (int i = 0; i < 3; i++) { wg_encode_double(TGT, i + .75); wg_encode_int(TGT, T60 + 90 + i); wg_encode_str(TGT, fmt("pad%d", i).c_str(), NULL); wg_encode_str(TGT, (rep("padding ", 50) + fmt("%d", i)).c_str(), NULL); }
    w.para = img_save(TGT); }
  unlink(JP); gint rc = wg_start_logging(SRC); if (rc) { fprintf(out(), "wg_start_logging %ld\n", (long)rc); _exit(2); }
  if (pf == "tear") capture_on = true;
  Explorer e(w, o.depth); finish(e.explore());
}
