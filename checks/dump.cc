// C20, C21: dump and import. A dumped database is compared with its import into databases of every
// relevant size and prior content, and every further operation is run on both; damaged files, foreign
// files and I/O faults are enumerated one by one.
#include "wgdb.h"
#include <climits>
#include <pthread.h>
#include <sys/syscall.h>
extern "C" { extern int wg_check_header_compat(db_memsegment_header *); gint wg_check_dump(void *db, char fileName[], gint *minsize, gint *maxsize); }
using namespace mc;
static const std::string DF = "dump.bin";
// ---- stdio on a hooked stream: every call of the dump and the import is seen and can fail
namespace io { int ncall = 0, fail_at = -1, kind = 0, shortn = 0; bool on = false; std::function<void(const char *, int)> hook; bool hit = false; std::string hitname; int nopen = 0; }
enum { F_ERR, F_SHORT };
static bool inject(const char *n) { if (!io::on) return false; int k = io::ncall++; if (io::hook) io::hook(n, k); if (k == io::fail_at) { io::hit = true; io::hitname = n; return true; } return false; }
extern "C" FILE *__real_fopen(const char *, const char *); extern "C" void *__real_malloc(size_t);
static ssize_t ck_read(void *c, char *b, size_t n) { int fd = (int)(intptr_t)c; bool f = inject("read"); if (f && io::kind == F_ERR) { errno = EIO; return -1; } if (f) n = n / 2; return read(fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { int fd = (int)(intptr_t)c; bool f = inject("write"); if (f && io::kind == F_ERR) { errno = ENOSPC; return 0; } if (f) { write(fd, b, n / 2); errno = ENOSPC; return 0; } return write(fd, b, n); }
static int ck_seek(void *c, off64_t *o, int w) { int fd = (int)(intptr_t)c; if (inject("seek")) { errno = EIO; return -1; } off_t r = lseek(fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { int fd = (int)(intptr_t)c; bool f = inject("close"); close(fd); if (f) { errno = EIO; return -1; } return 0; }
extern "C" FILE *__wrap_fopen(const char *n, const char *m) {
  if (!io::on || !strstr(n, "dump")) return __real_fopen(n, m);
  io::nopen++; if (inject("open")) { errno = EACCES; return 0; }
  int fd = open(n, m[0] == 'w' ? O_RDWR | O_CREAT | O_TRUNC : O_RDONLY, 0644); if (fd < 0) return 0;
  cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close}; bool s = io::on; return fopencookie((void *)(intptr_t)fd, m, f);
}
extern "C" void *__wrap_malloc(size_t n) { if (io::on && inject("malloc")) return 0; return __real_malloc(n); }

// ---- the database
static const gint MAXSZ = 700000; static void *A, *B; static Image *fresh0;
static char *mem(void *db) { return (char *)HDR(db); }
// everything of the image that must survive a dump: all but size, key, checksum, logging state, locks
static std::vector<char> canon(const char *p, gint n) {
  std::vector<char> v(p, p + n); db_memsegment_header *h = (db_memsegment_header *)v.data();
#if defined(LOCK_PROTO) && LOCK_PROTO == 3
  memset(v.data() + h->locks.storage, 0, h->locks.max_nodes * SYN_VAR_PADDING);
#endif
  h->size = h->key = h->initialadr = 0; h->checksum = 0; memset((void *)&h->logging, 0, sizeof h->logging); memset((void *)&h->locks, 0, sizeof h->locks); return v;
}
static std::vector<char> canon(void *db) { return canon(mem(db), HDR(db)->free); }
static void same(const std::vector<char> &a, const std::vector<char> &b, const char *sig, const char *what) {
  MC_CHECK(a.size() == b.size(), sig, "%s: %zu bytes in use instead of %zu", what, b.size(), a.size());
  if (a == b) return; size_t i = 0, n = 0; while (a[i] == b[i]) i++; for (size_t j = 0; j < a.size(); j++) n += a[j] != b[j]; fail(sig, fmt("%s: %zu bytes differ, the first at offset %zu of %zu", what, n, i, a.size()));
}
static std::string slurp(const std::string &n) { std::string c; FILE *f = __real_fopen(n.c_str(), "rb"); if (!f) return c; static char b[65536]; size_t q; while ((q = fread(b, 1, sizeof b, f)) > 0) c.append(b, q); fclose(f); return c; }
static void spit(const std::string &n, const std::string &c) { FILE *f = __real_fopen(n.c_str(), "wb"); fwrite(c.data(), 1, c.size(), f); fclose(f); }
static int lowfd() { int f = dup(1); close(f); return f; }
static gint dump(void *db, const std::string &n = DF) { int f = lowfd(); gint r = wg_dump(db, (char *)n.c_str()); MC_CHECK(lowfd() == f, "open-file", "a dump leaves a file open"); return r; }
static gint import(void *db, const std::string &n = DF) { int f = lowfd(); bool j = HDR(db)->logging.active; gint r = wg_import_dump(db, (char *)n.c_str()); MC_CHECK(j || lowfd() == f, "open-file", "an import leaves a file open"); return r; }
static bool lockfree(void *db) { gint l = wg_start_write(db); if (!l) return false; return wg_end_write(db, l); }
static std::vector<void *> recs(void *db) { std::vector<void *> v; for (void *r = wg_get_first_record(db); r; r = wg_get_next_record(db, r)) v.push_back(r); return v; }
static const char *LS = "a long text that is shared among fields 1", *LS2 = "another long text that is shared, number 2";
static const char *OPN[] = {"create(2)", "create(5)", "first.0=int", "last.0=int2", "first.1=short", "last.1=long", "first.1=long,lang", "last.1=double", "link first.1->last", "last.1=uri", "first.1=blob", "delete first", "delete last", "T-tree on 0", "hash on 0", "drop first index", "document", "create(9000)", "bigint", "T-tree on 1"};
enum { NOPS = sizeof OPN / sizeof *OPN };
// performs one operation; the result is everything a caller can see of it
static std::string act(void *db, int o) {
  std::vector<void *> r = recs(db); void *f = r.empty() ? 0 : r.front(), *l = r.empty() ? 0 : r.back(); gint rc = -99; auto off = [&](void *p) { return p ? (gint)((char *)p - mem(db)) : 0; };
  auto set = [&](void *p, int c, gint e) { if (!p || e == WG_ILLEGAL || wg_get_record_len(db, p) <= c) return (gint)-98; return (gint)wg_set_field(db, p, c, e); };
  switch (o) {
    case 0: rc = off(wg_create_record(db, 2)); break; case 1: rc = off(wg_create_record(db, 5)); break;
    case 2: rc = set(f, 0, wg_encode_int(db, 7)); break; case 3: rc = set(l, 0, wg_encode_int(db, 8)); break;
    case 4: rc = set(f, 1, wg_encode_str(db, (char *)"short", NULL)); break; case 5: rc = set(l, 1, wg_encode_str(db, (char *)LS, NULL)); break;
    case 6: rc = set(f, 1, wg_encode_str(db, (char *)LS, (char *)"et")); break; case 7: rc = set(l, 1, wg_encode_double(db, 2.5)); break;
    case 8: rc = set(f, 1, l ? wg_encode_record(db, l) : WG_ILLEGAL); break; case 9: rc = set(l, 1, wg_encode_uri(db, (char *)LS2, (char *)"http://x/")); break;
    case 10: rc = set(f, 1, wg_encode_blob(db, (char *)"blo\0b", (char *)"t", 5)); break;
    case 11: rc = f ? wg_delete_record(db, f) : -97; break; case 12: rc = l ? wg_delete_record(db, l) : -97; break;
    case 13: rc = wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0); break; case 14: rc = wg_create_index(db, 0, WG_INDEX_TYPE_HASH, NULL, 0); break;
    case 15: { gint n = 0; void *x = wg_get_all_indexes(db, &n); rc = n ? wg_drop_index(db, ((gint *)x)[0]) : -96; if (n) free(x); break; }
    case 16: rc = wg_parse_json_document(db, (char *)"{\"a\":[1,\"x\"]}", NULL); break; case 17: rc = off(wg_create_record(db, 9000)); break;
    case 18: rc = set(f, 0, wg_encode_int(db, LLONG_MAX)); break; case 19: rc = wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, NULL, 0); break;
  }
  return fmt("%s returns %ld", OPN[o], (long)rc);
}
// what reads and queries show
static std::string view(void *db) {
  std::string s; for (void *r : recs(db)) { gint n = wg_get_record_len(db, r); s += fmt("[%ld@%ld", (long)n, (long)((char *)r - mem(db))); for (gint i = 0; i < n && i < 6; i++) { Val v = dec_val(db, wg_get_field(db, r, i)); s += fmt(" %d:%lld:%g:", v.t, v.i, v.d) + v.s + "|" + v.x; } s += "]"; }
  for (int c = 0; c < 2; c++) for (int q : {7, 8}) { void *r = wg_find_record_int(db, c, WG_COND_EQUAL, q, NULL); s += fmt(" find%d=%d:%ld", c, q, (long)(r ? (char *)r - mem(db) : 0)); }
  wg_query_arg a; a.column = 0; a.cond = WG_COND_GTEQUAL; a.value = wg_encode_query_param_int(db, 8); wg_query *q = wg_make_query(db, NULL, 0, &a, 1); if (q) { void *r; while ((r = wg_fetch(db, q))) s += fmt(" q%ld", (long)((char *)r - mem(db))); wg_free_query(db, q); } wg_free_query_param(db, a.value);
  return s;
}
enum { GARB = 0x5C };
// target prepared with a prior content and size
static void target(gint size, int prior) {
  memset(mem(B) + 0, GARB, MAXSZ); memcpy(mem(B), fresh0->b.data(), fresh0->free); HDR(B)->size = size; HDR(B)->key = 4711;
  if (prior == 1) for (int o : {0, 1, 2, 5, 8, 13, 16}) act(B, o);
}
static void intact(gint size) { for (gint i = size; i < MAXSZ; i++) MC_CHECK((unsigned char)mem(B)[i] == GARB, "outside", "memory beyond the segment was written at %ld (size %ld)", (long)i, (long)size); }
struct DW : World {
  int post; std::vector<int> alpha; DW() { post = opts().num("post", 1); for (int i = 0; i < NOPS; i++) alpha.push_back(i); }
  int nops() override { return alpha.size(); } bool enabled(int) override { return true; } std::string opname(int o) override { return OPN[alpha[o]]; }
  // runs all op sequences of length n on both and compares after each
  void twins(int n, gint limit, const char *where) {
    if (!n) return; Image *ia = img_save(A), *ib = img_save(B); gint fa = HDR(A)->free, fb = HDR(B)->free;
    for (int o = 0; o < NOPS; o++) {
      std::string x = act(A, o), y = act(B, o); MC_CHECK(x == y, "twin-result", "%s: after the import %s, in the original %s", where, y.c_str(), x.c_str());
      same(canon(A), canon(B), "twin-image", (std::string(where) + ": after " + OPN[o]).c_str()); count("operations on both"); twins(n - 1, limit, where);
      img_restore(A, ia); img_restore(B, ib);
      memset(mem(B) + fb, GARB, std::max<gint>(0, HDR(B)->size - fb)); memset(mem(A) + fa, GARB, std::max<gint>(0, HDR(A)->size - fa));
    }
    delete ia; delete ib;
  }
  void check() {
    std::vector<char> c0 = canon(A); gint fr = HDR(A)->free, sz = HDR(A)->size; std::string v0 = view(A);
    gint rc = dump(A); MC_CHECK(rc == 0, "dump-code", "dump returns %ld", (long)rc); same(c0, canon(A), "source-changed", "dump changed the source");
    MC_CHECK(HDR(A)->size == sz && HDR(A)->free == fr && HDR(A)->checksum == 0, "source-changed", "dump changed the header of the source"); MC_CHECK(lockfree(A), "source-locked", "no write lock after the dump");
    gint mn = 0, mx = 0; rc = wg_check_dump(A, (char *)DF.c_str(), &mn, &mx); MC_CHECK(rc == 0 && mn == fr && mx == sz, "check-code", "checking the dump returns %ld, sizes %ld %ld instead of %ld %ld", (long)rc, (long)mn, (long)mx, (long)fr, (long)sz);
    std::vector<gint> sizes = {fr - 8, fr - 1, fr, fr + 8, fr + 4096, sz - 8, sz, sz + 65536}; Image *i0 = img_save(A);
    for (int prior = 0; prior < 2; prior++) for (gint s : sizes) {
      target(s, 0); if (s < fresh0->free) continue; target(s, prior); std::vector<char> before(mem(B), mem(B) + MAXSZ); rc = import(B);
      if (s < fr) { MC_CHECK(rc == -1, "small-code", "import into %ld bytes of a dump of %ld bytes returns %ld", (long)s, (long)fr, (long)rc); MC_CHECK(!memcmp(before.data(), mem(B), MAXSZ), "small-changed", "the refused import changed the target"); count("refused as too small"); continue; }
      MC_CHECK(rc == 0, "import-code", "import into %ld bytes of a dump of %ld bytes returns %ld", (long)s, (long)fr, (long)rc); count("imports");
      std::string w = fmt("import into a %s database of %ld bytes (%ld used)", prior ? "used" : "new", (long)s, (long)fr);
      same(c0, canon(B), "import-image", w.c_str()); MC_CHECK(HDR(B)->size == s && HDR(B)->key == 4711, "import-size", "%s: size %ld key %ld", w.c_str(), (long)HDR(B)->size, (long)HDR(B)->key);
      MC_CHECK(lockfree(B), "import-locked", "%s: no write lock afterwards", w.c_str()); fsck(B);
      MC_CHECK(view(B) == v0, "import-view", "%s: reads and queries differ:%s instead of%s", w.c_str(), view(B).c_str(), v0.c_str());
      // every continuation, in a twin limited to the same size
      memset(mem(A) + fr, GARB, MAXSZ - fr); HDR(A)->size = s; if (prior == 0 || s == sz) twins(post, s, w.c_str()); intact(s); HDR(A)->size = sz; img_restore(A, i0);
      if (HDR(A)->checksum) fail("checksum", "checksum left in the source");
    }
    // the same database, after it has changed
    for (int o = 0; o < NOPS; o++) { act(A, o); act(A, (o + 5) % NOPS); rc = import(A); MC_CHECK(rc == 0, "self-code", "import after %s returns %ld", OPN[o], (long)rc); same(c0, canon(A), "self-image", fmt("import into the source after %s", OPN[o]).c_str()); MC_CHECK(HDR(A)->size == sz, "self-size", "size changed"); MC_CHECK(view(A) == v0 && lockfree(A), "self-view", "reads differ after the import into the source"); count("imports"); img_restore(A, i0); }
    delete i0;
  }
  void step(int o) override { act(A, alpha[o]); check(); }
  void *save() override { return img_save(A); } void restore(void *s) override { img_restore(A, (Image *)s); } void drop(void *s) override { delete (Image *)s; } void hash(H128 &h) override { std::vector<char> c = canon(A); hash_mem(h, c.data(), c.size()); }
};
// ---- a filled database for the fault profiles
static void fill(void *db) { for (int o : {0, 13, 2, 1, 3, 5, 0, 4, 8, 14, 16, 1, 9, 18, 12}) act(db, o); }
// ---- every truncation, alteration and foreign header
static int refused(Cases &C, const std::string &what, const std::string &file, const std::vector<char> &img, void *db, int want = 0) {
  gint rc = import(db, file); MC_CHECK(rc != 0, "accepted", "%s: the import succeeds", what.c_str());
  MC_CHECK(rc == -1, "fatal-code", "%s: the import returns the fatal code %ld", what.c_str(), (long)rc);
  MC_CHECK(!memcmp(img.data(), mem(db), img.size()), "memory-changed", "%s: the refused import changed the database", what.c_str());
  if (want == INT_MIN) return rc; gint a, b; gint k = wg_check_dump(db, (char *)file.c_str(), &a, &b); MC_CHECK(k < 0 && (!want || k == want), "check-code", "%s: the check returns %ld", what.c_str(), (long)k); return rc;
}
extern "C" {
#define crc_table chk_crc_table
#include "Db/crc1.h"
}
static void damage() {
  Cases C; fill(A); int mode = opts().num("mode"); HDR(B)->size = MAXSZ; fill(B); act(B, 0); act(B, 17);
  if (mode != 9 && dump(A)) { fprintf(out(), "dump failed\n"); _exit(2); } std::string d = slurp(DF); long n = d.size(); std::vector<char> img(mem(B), mem(B) + HDR(B)->free + 4096);
  std::string W = "dumpx.bin"; spit(W, d); { Image *s = img_save(B); if (import(B, W)) { fprintf(out(), "import failed\n"); _exit(2); } img_restore(B, s); memcpy(mem(B), img.data(), img.size()); }
  int fd = open(W.c_str(), O_RDWR); auto wr = [&](long o, const void *p, long k) { if (pwrite(fd, p, k, o) != k) _exit(2); };
  if (mode == 0) { // truncation to every length, longer files
    long step = opts().num("step", 1);
    for (long k = 0; k < n; k++) { bool near = k < 9000 || n - k < 9000 || (k + 2) % 4096 <= 4; if (step > 1 && k % step && !near) continue;
      C.run([&] { return fmt("dump of %ld bytes cut to %ld", n, k); }, [&] { if (ftruncate(fd, k)) _exit(2); auto g = [&] { ftruncate(fd, n); wr(k, d.data() + k, n - k); }; try { refused(C, fmt("cut to %ld of %ld bytes", k, n), W, img, B); } catch (...) { g(); memcpy(mem(B), img.data(), img.size()); throw; } g(); return true; }); }
    for (long k : {1L, 2L, 8L, 4095L, 4096L, 8192L, 100000L}) for (int z = 0; z < 2; z++) C.run([&] { return fmt("%ld bytes appended", k); }, [&] { std::string x(k, z ? '\0' : 'x'); wr(n, x.data(), k); try { refused(C, fmt("%ld bytes appended", k), W, img, B, -3); } catch (...) { ftruncate(fd, n); memcpy(mem(B), img.data(), img.size()); throw; } ftruncate(fd, n); return true; });
  } else if (mode == 1) { // every byte altered
    int nm = opts().num("bits", 1); for (long k = 0; k < n; k++) for (int m = 0; m < 9; m++) { bool head = k < (long)sizeof(db_memsegment_header) || n - k < 64; if (!head && m < 8 && nm < 8 && m != k % 8) continue; if (!head && m == 8 && nm < 2) continue;
      unsigned char x = d[k] ^ (m == 8 ? 0xFF : 1 << m); C.run([&] { return fmt("byte %ld changed from %02x to %02x", k, (unsigned char)d[k], x); }, [&] { wr(k, &x, 1); try { refused(C, fmt("byte %ld changed from %02x to %02x", k, (unsigned char)d[k], x), W, img, B); } catch (...) { wr(k, &d[k], 1); memcpy(mem(B), img.data(), img.size()); throw; } wr(k, &d[k], 1); return true; }); }
    // two alterations, a block swapped or lost
    for (long k = 0; k + 8192 <= n; k += 4096) C.run([&] { return fmt("blocks at %ld exchanged", k); }, [&] { if (!memcmp(&d[k], &d[k + 4096], 4096)) return false; wr(k, &d[k + 4096], 4096); wr(k + 4096, &d[k], 4096); try { refused(C, fmt("blocks at %ld exchanged", k), W, img, B); } catch (...) { wr(k, &d[k], 8192); memcpy(mem(B), img.data(), img.size()); throw; } wr(k, &d[k], 8192); return true; });
    for (long k = 0; k + 4096 <= n; k += 512) C.run([&] { return fmt("block at %ld lost", k); }, [&] { std::string z(512, 0); if (!memcmp(&d[k], z.data(), 512)) return false; wr(k, z.data(), 512); try { refused(C, fmt("512 bytes at %ld replaced by zeros", k), W, img, B); } catch (...) { wr(k, &d[k], 512); memcpy(mem(B), img.data(), img.size()); throw; } wr(k, &d[k], 512); return true; });
  } else if (mode == 2) { // headers of other versions, builds and machines, with a correct checksum
    auto tryh = [&](const std::string &what, const std::function<void(db_memsegment_header *)> &f, int want) {
      C.run([&] { return what; }, [&] { std::string x = d; db_memsegment_header *h = (db_memsegment_header *)x.data(); f(h); h->checksum = 0; h->checksum = update_crc32((char *)x.data(), x.size(), 0); if (x == d) return false; wr(0, x.data(), n); try { refused(C, what, W, img, B, want); } catch (...) { wr(0, d.data(), n); memcpy(mem(B), img.data(), img.size()); throw; } wr(0, d.data(), n); return true; }); };
    for (int b = 0; b < 32; b++) { tryh(fmt("marker bit %d changed", b), [&](db_memsegment_header *h) { h->mark ^= 1u << b; }, -2); tryh(fmt("version bit %d changed", b), [&](db_memsegment_header *h) { h->version ^= 1u << b; }, -2); tryh(fmt("feature bit %d changed", b), [&](db_memsegment_header *h) { h->features ^= 1u << b; }, -2); }
    tryh("marker in the other byte order", [&](db_memsegment_header *h) { h->mark = __builtin_bswap32(h->mark); }, -2); tryh("version 0", [&](db_memsegment_header *h) { h->version = 0; }, -2);
    for (gint dlt : {-8192, -4096, -8, -1, 1, 8, 4096, 8192}) tryh(fmt("header states %+ld bytes in use", (long)dlt), [&](db_memsegment_header *h) { h->free += dlt; }, -3);
    for (gint v : {(gint)0, (gint)-1, (gint)LONG_MIN, (gint)LONG_MAX}) tryh(fmt("header states %ld bytes in use", (long)v), [&](db_memsegment_header *h) { h->free = v; }, -3);
    tryh("external references", [&](db_memsegment_header *h) { h->extdbs.count = 1; }, INT_MIN);
  } else if (mode == 3) { // files that are no dumps; dumps of other builds
    auto tryf = [&](const std::string &what, const std::string &f) { C.run([&] { return what; }, [&] { refused(C, what, f, img, B); return true; }); };
    spit("dumpe", ""); tryf("empty file", "dumpe"); tryf("no such file", "nodump"); tryf("a directory", "/"); spit("dumpz", std::string(n, '\0')); tryf("zeros", "dumpz"); spit("dumpt", std::string(n, 'x')); tryf("text", "dumpt"); spit("dumph", d.substr(0, 8192)); tryf("only the header", "dumph"); spit("dump2", d + d); tryf("dump written twice", "dump2"); spit("dumpj", "wgdb\0\0\0\1" + d); tryf("journal and dump", "dumpj");
    std::string l = opts().str("foreign"); size_t p = 0; while (p < l.size()) { size_t e = l.find(',', p); if (e == std::string::npos) e = l.size(); std::string f = l.substr(p, e - p); p = e + 1; if (f.size()) { if (slurp(f).empty()) _exit(2); count("dumps of other builds"); tryf("dump of an incompatible build " + f.substr(f.rfind('/') + 1), f); } }
  }
  finish(C.failed());
}
// ---- every I/O call of dump and import failing, alone or from some point on
static void faults() {
  Cases C; fill(A); HDR(B)->size = MAXSZ; fill(B); act(B, 0); bool log = opts().num("log"); std::vector<char> c0 = canon(A); std::vector<char> img(mem(B), mem(B) + MAXSZ); if (dump(A)) _exit(2); std::string good = slurp(DF);
#ifdef USE_DBLOG
  if (log) { wg_start_logging(A); }
#endif
  Image *ia = img_save(A);
  for (int kind = 0; kind < 2; kind++) for (int k = 0; k < 400; k++) C.run([&] { return fmt("dump with I/O call %d %s", k, kind ? "cut short" : "failing"); }, [&] {
    unlink(DF.c_str()); io::ncall = 0; io::fail_at = k; io::kind = kind; io::hit = false; io::on = true; gint rc = dump(A); io::on = false; io::fail_at = -1;
    bool ok; { Image *ib = img_save(B); gint r2 = import(B); ok = r2 == 0; if (ok) same(c0, canon(B), "fault-image", "import of the dump"); memcpy(mem(B), img.data(), MAXSZ); delete ib; }
    if (!io::hit) { MC_CHECK(rc == 0 && ok, "nofault", "dump returns %ld", (long)rc); if (!log) img_restore(A, ia); return false; }
    count("dump faults: " + io::hitname);
    MC_CHECK(rc != 0 || ok, "lost-dump", "a failing %s during the dump is not reported and the file is not a dump", io::hitname.c_str());
    MC_CHECK(rc != 0 || kind == F_SHORT || io::hitname == "malloc", "unreported", "a failing %s during the dump is not reported", io::hitname.c_str());
    MC_CHECK(rc == 0 || rc == -1, "fatal-code", "a failing %s during the dump gives the fatal code %ld", io::hitname.c_str(), (long)rc);
    same(c0, canon(A), "source-changed", "the failed dump changed the database"); MC_CHECK(lockfree(A), "source-locked", "a failing %s leaves the database locked", io::hitname.c_str());
#ifdef USE_DBLOG
    MC_CHECK((HDR(A)->logging.active != 0) == log, "log-active", "a failing %s changes the journal state", io::hitname.c_str());
#endif
    if (!log) img_restore(A, ia); rc = dump(A); MC_CHECK(rc == 0, "retry", "the next dump returns %ld", (long)rc); return true; });
  for (int kind = 0; kind < 2; kind++) for (int k = 0; k < 400; k++) C.run([&] { return fmt("import with I/O call %d %s", k, kind ? "cut short" : "failing"); }, [&] {
    spit(DF, good); io::ncall = 0; io::fail_at = k; io::kind = kind; io::hit = false; io::on = true; gint rc = import(B); io::on = false; io::fail_at = -1; std::vector<char> c = canon(B); bool changed = memcmp(mem(B), img.data(), MAXSZ) != 0;
    auto back = [&] { memcpy(mem(B), img.data(), MAXSZ); };
    try { if (io::hit) count("import faults: " + io::hitname);
      if (rc == 0) same(c0, c, "fault-import", fmt("import with a failing %s succeeds but", io::hit ? io::hitname.c_str() : "nothing").c_str());
      if (rc == -1) MC_CHECK(!changed, "fault-changed", "a failing %s: the import returns the non-fatal code but has changed the database", io::hitname.c_str());
      MC_CHECK(rc == 0 || io::hit, "nofault", "import returns %ld", (long)rc); MC_CHECK(rc == 0 || rc == -1 || rc == -2, "import-code", "import returns %ld", (long)rc);
    } catch (...) { back(); throw; } back(); return io::hit; });
  finish(C.failed());
}
// ---- lock clients at every I/O point of a dump
struct Act { int pt, what; };
static std::vector<Act> plan; static gint held; static bool wrote; static std::string seen; static pthread_t th; static volatile int thstate; static volatile gint thlock;
static void *blocker(void *) { thstate = 1; gint l = db_rlock(A, 20000); thlock = l; thstate = 2; return 0; }
static void at(int pt) {
  bool was = io::on; io::on = false;
  for (auto &a : plan) if (a.pt == pt) {
    switch (a.what) {
#ifndef USE_DBLOG
      case 0: { gint l = db_rlock(A, 1); MC_CHECK(l, "reader-blocked", "a reader gets no lock during a dump"); seen = view(A); MC_CHECK(db_rulock(A, l), "reader-unlock", "reader cannot unlock"); break; }
      case 1: held = db_rlock(A, 1); MC_CHECK(held, "reader-blocked", "a reader gets no lock during a dump"); break;
      case 2: if (held) MC_CHECK(db_rulock(A, held), "reader-unlock", "reader cannot unlock"); held = 0; break;
#else
      case 0: break;
      case 1: if (thstate == 0) { pthread_create(&th, 0, blocker, 0); while (!thstate) sched_yield(); usleep(3000); } break;
      case 2: { gint l = db_rlock(A, 1); if (l) { seen = view(A); db_rulock(A, l); } break; }
#endif
      case 3: { gint l = db_wlock(A, 1); if (l) { wrote = true; act(A, 18); act(A, 1); db_wulock(A, l); } break; }
    }
  }
  io::on = was;
}
#ifdef USE_DBLOG
enum { LOGBUILD = 1 };
#else
enum { LOGBUILD = 0 };
#endif
static void readers() {
  Cases C; fill(A); std::string v0 = view(A); Image *i0 = img_save(A); std::vector<char> c0 = canon(A); int np = 0;
  auto once = [&] { np = 0; io::ncall = 0; io::on = true; at(np++); io::hook = [&](const char *n, int) { if (strcmp(n, "malloc")) at(np++); }; gint rc = dump(A); io::hook = nullptr; io::on = false; at(np); return rc; };
  plan.clear(); if (once()) _exit(2); int P = np; count("interposition points", P);
  auto one = [&](std::vector<Act> p) { C.run([&] { std::string s; static const char *N[] = {"reader in and out", "reader enters", "reader leaves", "writer tries"}; for (auto &a : p) s += fmt("%s at point %d of %d; ", N[a.what], a.pt, P); return s; }, [&] {
    img_restore(A, i0); memset(mem(A) + i0->free, 0, HDR(A)->size - i0->free); plan = p; bool plan0 = p[0].pt == 0 && p[0].what == 1; held = 0; wrote = false; seen = v0; thstate = 0; thlock = 0; gint rc = once(); plan.clear();
    bool dirty = wrote; if (held) { MC_CHECK(db_rulock(A, held), "reader-unlock", "reader cannot unlock"); }
    if (thstate) { pthread_join(th, 0); MC_CHECK(thlock, "reader-starved", "a reader waiting during the dump never gets its lock"); std::string s = view(A); if (!dirty) MC_CHECK(s == v0, "reader-view", "a reader waiting during the dump sees something else"); MC_CHECK(db_rulock(A, thlock), "reader-unlock", "reader cannot unlock"); }
    if (rc == -1 && thlock && plan0) { count("dump gave up waiting for a reader"); return true; }
    MC_CHECK(rc == 0, "dump-code", "dump returns %ld", (long)rc); if (!dirty) MC_CHECK(seen == v0, "reader-view", "a reader sees something else during the dump: %s", seen.c_str()); if (!dirty) same(c0, canon(A), "source-changed", "dump changed the source"); std::vector<char> c1 = canon(A);
    MC_CHECK(lockfree(A), "locked", "no write lock after the dump and its readers"); target(MAXSZ, 1); rc = import(B); MC_CHECK(rc == 0, "import-code", "the dump is refused (%ld) because of lock activity during the dump", (long)rc); std::vector<char> c = canon(B);
    if (dirty && c == c1) count("writer before the dump"); else { same(c0, c, "import-image", "import of a dump with lock activity"); if (dirty) count("writer after the dump"); } MC_CHECK(lockfree(B), "import-locked", "the import leaves the database locked"); return true; }); };
  for (int a = 0; a <= P; a++) { for (int w : {0, 1, 2, 3}) one({{a, w}}); for (int b = a; b <= P; b++) if (!LOGBUILD || a) { one({{a, 1}, {b, 2}}); one({{a, 3}, {b, 1}}); one({{a, 1}, {b, 3}}); one({{a, 0}, {b, 0}}); } }
  finish(C.failed());
}
int main(int argc, char **argv) {
  init(argc, argv); gint size = opts().num("size", 400000);
  A = wg_attach_local_database(MAXSZ); B = wg_attach_local_database(MAXSZ); if (!A || !B) { fprintf(out(), "no memory\n"); _exit(2); } HDR(A)->size = size; fresh0 = img_save(B);
  if (opts().has("make")) { fill(A); if (dump(A, opts().str("make"))) _exit(1); _exit(0); }
  std::string p = opts().profile;
  if (p == "damage") damage(); if (p == "faults") faults(); if (p == "readers") readers();
  DW w; Explorer e(w, opts().depth); finish(e.explore());
}
