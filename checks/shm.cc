// C23: attach, detach and delete of shared databases in every order, over a stand-in for the System V calls (segments are
// memfds, every attachment is a new mapping at a new address, permissions and faults as the kernel gives them).
#include "wgdb.h"
#include <climits>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/shm.h>
#include <sys/ipc.h>
#include <unistd.h>
#include <fcntl.h>
using namespace mc;
#include "Db/dbfeatures.h"
extern "C" { int wg_memmode(void *); int wg_memowner(void *); void *wg_attach_memsegment(const char *, gint, gint, int, int, int); int wg_check_header_compat(db_memsegment_header *); }
#define MAXSEG 400000
#ifdef TSAN // every write of the creating client to the new segment is a point where the other one may attach
namespace conc { static long writes = -1, stopat = -1; static std::function<void()> act; static bool inseg(void *); static void point(void *a, bool w, int) { if (!w || writes < 0 || !inseg(a)) return; if (writes++ == stopat) { long k = writes; writes = -1; act(); writes = k; } } }
#include "tsan.h"
#endif
struct Seg { int id, key; size_t size; int mode, uid, fd; bool removed; int nat; };
struct Att { char *p; int seg; size_t len; };
static std::vector<Seg> segs; static std::vector<Att> atts; static int nextid = 1; static char *nextaddr = (char *)0x200000000000ULL; static int uid = 0; static std::string bad;
static int fget = -1, fat = -1, fctl = -1, ferr = 0; // fault: which call of each kind fails
#ifdef TSAN
static bool conc::inseg(void *a) { for (auto &t : atts) if ((char *)a >= t.p && (char *)a < t.p + t.len) return true; return false; }
#endif
static int fdt = -1; static std::function<void()> hook; static int hookat = -1, hookn = 0;
static void point() { if (hookn++ == hookat && hook) { auto h = hook; hook = nullptr; h(); } }
static Seg *byid(int id) { for (auto &s : segs) if (s.id == id) return &s; return NULL; }
static Seg *bykey(int k) { for (auto &s : segs) if (s.key == k && !s.removed) return &s; return NULL; }
static bool may(Seg &s, int want) { return uid == 0 || (uid == s.uid ? (s.mode & want << 6) == want << 6 : (s.mode & want) == want); }
static void gone(int id) { for (size_t i = 0; i < segs.size(); i++) if (segs[i].id == id && segs[i].removed && segs[i].nat == 0) { close(segs[i].fd); segs.erase(segs.begin() + i); return; } }
extern "C" __attribute__((used)) int __wrap_shmget(key_t k, size_t n, int fl) {
  point(); if (fget == 0) { fget--; errno = ferr; return -1; } if (fget > 0) fget--;
  Seg *s = bykey(k);
  if (s) { if ((fl & IPC_CREAT) && (fl & IPC_EXCL)) { errno = EEXIST; return -1; } int w = ((fl >> 6) | (fl >> 3) | fl) & 7; if (!may(*s, w)) { errno = EACCES; return -1; } if (n > s->size) { errno = EINVAL; return -1; } return s->id; }
  if (!(fl & IPC_CREAT)) { errno = ENOENT; return -1; }
  if (n < 1 || n > MAXSEG) { errno = EINVAL; return -1; }
  Seg t; t.id = nextid++; t.key = k; t.size = n; t.mode = fl & 0777; t.uid = uid; t.removed = false; t.nat = 0; t.fd = memfd_create("s", 0); if (t.fd < 0 || ftruncate(t.fd, (n + 4095) & ~4095UL)) abort(); segs.push_back(t); return t.id;
}
extern "C" __attribute__((used)) void *__wrap_shmat(int id, const void *, int fl) {
  point(); if (fat == 0) { fat--; errno = ferr; return (void *)-1; } if (fat > 0) fat--;
  Seg *s = byid(id); if (!s) { errno = EINVAL; return (void *)-1; } if (!may(*s, (fl & SHM_RDONLY) ? 4 : 6)) { errno = EACCES; return (void *)-1; }
  size_t len = (s->size + 4095) & ~4095UL; char *p = (char *)mmap(nextaddr, len, PROT_READ | ((fl & SHM_RDONLY) ? 0 : PROT_WRITE), MAP_SHARED | MAP_FIXED_NOREPLACE, s->fd, 0); if (p != nextaddr) abort();
  nextaddr += len + 65536; if (nextaddr > (char *)0x300000000000ULL) nextaddr = (char *)0x200000000000ULL; s->nat++; atts.push_back({p, id, len}); return p;
}
extern "C" __attribute__((used)) int __wrap_shmdt(const void *p) {
  point(); if (fdt == 0) { fdt--; errno = EINVAL; return -1; }
  for (size_t i = 0; i < atts.size(); i++) if (atts[i].p == p) { int id = atts[i].seg; munmap(atts[i].p, atts[i].len); atts.erase(atts.begin() + i); byid(id)->nat--; gone(id); return 0; }
  errno = EINVAL; bad = "an address that is not attached is detached"; return -1;
}
extern "C" __attribute__((used)) int __wrap_shmctl(int id, int cmd, struct shmid_ds *b) {
  point(); if (fctl == 0) { fctl--; errno = ferr; return -1; } if (fctl > 0) fctl--;
  Seg *s = byid(id); if (!s) { errno = EINVAL; return -1; }
  if (cmd == IPC_RMID) { if (uid && uid != s->uid) { errno = EPERM; return -1; } s->removed = true; gone(id); return 0; }
  if (cmd == IPC_STAT) { if (!may(*s, 4)) { errno = EACCES; return -1; } memset(b, 0, sizeof *b); b->shm_perm.mode = s->mode; b->shm_perm.uid = s->uid; b->shm_segsz = s->size; b->shm_nattch = s->nat; return 0; }
  bad = "an unexpected shmctl command"; errno = EINVAL; return -1;
}
static void wipe() { for (auto &a : atts) munmap(a.p, a.len); for (auto &s : segs) close(s.fd); atts.clear(); segs.clear(); nextid = 1; uid = 0; fget = fat = fctl = fdt = -1; ferr = 0; bad = ""; hook = nullptr; }
#ifdef USE_DBLOG
static const bool LOG = true;
#else
static const bool LOG = false;
#endif
static const gint S1 = 150000, S2 = 200000, DEF = 180000, HUGE_ = 900000;
// ---- model
enum Kind { DBK, GARBAGE, ZERO, INITMARK, ENDIAN, VERSION_, FEATURES, SHORT, NK };
struct MS { int key; gint size; int mode; int kind; bool logged; std::vector<gint> recs; bool removed; int uid; int raw; }; // raw: attachments outside the library
struct Han { void *db; int seg; };
struct Op { int what; const char *name; gint a, b; int mode; int extra; std::string text; };
enum { ATT, EXIST, MODE, LOGGED, LOGMODE, MEMSEG, DETACH, DELETE, WRITE, FOREIGN, FAULT, OTHER, OTHERDEL, NOJ };
static int keyof(const char *n) { ll k = n ? strtoll(n, NULL, 10) : 0; return k > 0 && k < INT_MAX ? (int)k : 1000; }
static int norm(int m) { int r = 0600; if ((m & 0060) == 0060) r |= 0060; if ((m & 0006) == 0006) r |= 0006; return r; }
static int maxh = 3;
struct W : World {
  std::vector<Op> ops; std::vector<MS> ms; std::vector<Han> hs; std::vector<int> path; std::map<int, int> gen; bool quiet = false;
  W() {
    auto add = [&](int w, const char *n, gint a, gint b, int mode, int x, const std::string &t) { ops.push_back({w, n, a, b, mode, x, t}); };
    for (const char *n : {"1000", "7"}) {
      for (gint s : {(gint)0, S1, S2, HUGE_}) add(ATT, n, s, 0, 0, 0, fmt("attach %s size %ld", n, (long)s));
      add(EXIST, n, 0, 0, 0, 0, fmt("attach existing %s", n)); add(MODE, n, S1, 0, 0660, 0, fmt("attach %s mode 0660", n)); add(LOGGED, n, S1, 0, 0, 0, fmt("attach %s logged", n)); add(DELETE, n, 0, 0, 0, 0, fmt("delete %s", n));
    }
    for (const char *n : {"7xyz", "007", "-7", "abc", "", "2147483647", "0"}) { add(EXIST, n, 0, 0, 0, 0, fmt("attach existing '%s'", n)); }
    add(ATT, NULL, 0, 0, 0, 0, "attach NULL"); add(DELETE, NULL, 0, 0, 0, 0, "delete NULL"); add(ATT, "7", 1, 0, 0, 0, "attach 7 size 1"); add(ATT, "7", 5000, 0, 0, 0, "attach 7 size 5000"); add(ATT, "7", -3, 0, 0, 0, "attach 7 size -3"); add(ATT, "7", S1 + 1, 0, 0, 0, "attach 7 size S1+1");
    for (int m : {0, 0644, 0666, 0606, 0777, 0440}) add(MODE, "7", S1, 0, m, 0, fmt("attach 7 mode %o", m));
    if (LOG) { add(LOGMODE, "7", S1, 0, 0660, 0, "attach 7 logged mode 0660"); add(NOJ, "7", S1, 0, 0, 0, "attach 7 logged while the journal cannot be created"); }
    add(MEMSEG, "7", S1, HUGE_, 0, 1, "memsegment 7 min S1 size huge create"); add(MEMSEG, "7", S1, S2, 0, 1, "memsegment 7 min S1 size S2 create"); add(MEMSEG, "7", 0, S2, 0, 0, "memsegment 7 size S2 no create"); add(MEMSEG, "7", S2, 0, 0, 0, "memsegment 7 min S2 no create"); add(MEMSEG, "7", S2, S1, 0, 1, "memsegment 7 min S2 size S1 create");
    for (int h = 0; h < maxh; h++) { add(DETACH, "", 0, 0, 0, h, fmt("detach handle %d", h)); add(WRITE, "", 0, 0, 0, h, fmt("write by handle %d", h)); }
    for (int k = GARBAGE; k < NK; k++) { static const char *kn[] = {"", "garbage", "zeroes", "a half-initialised database", "a database of other byte order", "a database of another version", "a database with other features", "a short segment"}; add(FOREIGN, "7", 0, 0, 0, k, std::string("another program creates 7 with ") + kn[k]); }
    // faults: (get, at, ctl) index
    for (const char *n : {"7"}) { add(FAULT, n, 0, 0, EACCES, 0, "attach 7, first shmget refused"); add(FAULT, n, 1, 0, ENOSPC, 0, "attach 7, second shmget refused"); add(FAULT, n, 1, 0, ENOMEM, 0, "attach 7, no memory for a segment"); add(FAULT, n, 2, 0, EMFILE, 0, "attach 7, shmat refused"); add(FAULT, n, 2, 0, EACCES, 0, "attach 7, shmat without permission"); add(FAULT, n, 3, 0, ENOMEM, 0, "attach 7, second allocation fails"); add(FAULT, n, 4, 0, ENOMEM, 0, "attach 7, first allocation fails"); add(FAULT, n, 5, 0, EIO, 0, "attach 7, shmctl fails"); add(FAULT, n, 6, 0, EPERM, 0, "delete 7, shmctl refused"); add(FAULT, n, 7, 0, EPERM, 0, "detach handle 0 fails"); }
    add(OTHER, "7", 0, 0, 0, 0, "another user attaches 7"); add(OTHERDEL, "7", 0, 0, 0, 0, "another user deletes 7");
  }
  int cur(int key) { for (size_t i = 0; i < ms.size(); i++) if (ms[i].key == key && !ms[i].removed) return i; return -1; }
  int nops() override { return ops.size(); }
  std::string opname(int o) override { return ops[o].text; }
  bool enabled(int o) override {
    Op &p = ops[o];
    switch (p.what) { case DETACH: return p.extra < (int)hs.size(); case WRITE: return p.extra < (int)hs.size() && ms[hs[p.extra].seg].recs.size() < 2; case FOREIGN: return cur(keyof(p.name)) < 0; case OTHER: case OTHERDEL: return cur(keyof(p.name)) >= 0;
      case FAULT: if (p.a == 7) return !hs.empty(); if (p.a == 6) return cur(7) >= 0; return (int)hs.size() < maxh; case DELETE: return true; case MEMSEG: { int q = cur(keyof(p.name)); if (q >= 0 && (ms[q].kind == VERSION_ || ms[q].kind == FEATURES)) return false; } default: return (int)hs.size() < maxh; }
  }
  void expect_handle(const Op &p, void *db, int s, const char *why) {
    MC_CHECK(db, "refused", "%s (%s) returns NULL", p.text.c_str(), why); hs.push_back({db, s});
  }
  void create(const Op &p, void *db, gint size, int mode, bool logged) { MS n; n.key = keyof(p.name); n.size = size; n.mode = mode; n.kind = DBK; n.logged = logged && LOG; n.removed = false; n.uid = 0; n.raw = 0; gen[n.key] ^= 1; ms.push_back(n); expect_handle(p, db, ms.size() - 1, "no such database yet"); count("created"); }
  void attach(const Op &p, void *db, gint min, gint size, bool create_, bool logged, int mode) {
    int s = cur(keyof(p.name)); if (min < 0) min = 0; if (size < min) size = min;
    if (s >= 0) { MS &m = ms[s]; bool ok = m.kind == DBK && m.size >= min && !(logged && LOG && !m.logged);
      if (ok) { expect_handle(p, db, s, "the database exists"); count("attached"); } else { MC_CHECK(!db, "accepted", "%s succeeds although the existing segment does not allow it (size %ld, kind %d)", p.text.c_str(), (long)m.size, m.kind); count("refused"); } return; }
    if (!create_) { MC_CHECK(!db, "accepted", "%s succeeds although there is no database", p.text.c_str()); return; }
    if (!size) size = DEF; if (size > MAXSEG && min && min < size) size = min;
    if (size > MAXSEG || size < 100000) { MC_CHECK(!db, "accepted", "%s creates a database that cannot be", p.text.c_str()); count("refused"); return; }
    create(p, db, size, norm(mode), logged);
  }
  void drop_unused() { for (int i = (int)ms.size() - 1; i >= 0; i--) if (ms[i].removed && !ms[i].raw) { bool used = false; for (auto &h : hs) if (h.seg == i) used = true; if (!used) { ms.erase(ms.begin() + i); for (auto &h : hs) if (h.seg > i) h.seg--; } } }
  void run(int o) {
    Op &p = ops[o]; path.push_back(o); int s = cur(keyof(p.name)); void *db;
    switch (p.what) {
      case ATT: db = wg_attach_database(p.name, p.a); attach(p, db, p.a, p.a, true, false, 0); break;
      case EXIST: db = wg_attach_existing_database(p.name); attach(p, db, 0, 0, false, false, 0); break;
      case MODE: db = wg_attach_database_mode(p.name, p.a, p.mode); attach(p, db, p.a, p.a, true, false, p.mode); break;
      case LOGGED: db = wg_attach_logged_database(p.name, p.a); attach(p, db, p.a, p.a, true, true, 0); break;
      case LOGMODE: db = wg_attach_logged_database_mode(p.name, p.a, p.mode); attach(p, db, p.a, p.a, true, true, p.mode); break;
      case MEMSEG: db = wg_attach_memsegment(p.name, p.a, p.b, p.extra, 0, 0); attach(p, db, p.a, p.b, p.extra, false, 0); break;
      case NOJ: { rename("j", "k"); db = wg_attach_logged_database(p.name, p.a); rename("k", "j"); if (s < 0) MC_CHECK(!db, "accepted", "a logged database is created without a journal"); else attach(p, db, p.a, p.a, true, true, 0); break; }
      case DETACH: { int rc = wg_detach_database(hs[p.extra].db); MC_CHECK(rc == 0, "detach", "detaching returns %d", rc); hs.erase(hs.begin() + p.extra); break; }
      case DELETE: { int rc = wg_delete_database(p.name); MC_CHECK((rc == 0) == (s >= 0), "delete", "deleting %s returns %d", s >= 0 ? "an existing database" : "a missing database", rc); if (s >= 0) ms[s].removed = true; break; }
      case WRITE: { Han &h = hs[p.extra]; MS &m = ms[h.seg]; db = h.db; void *r = wg_create_record(db, 1); MC_CHECK(r, "write", "no record"); gint v = m.key * 10 + gen[m.key] * 5 + m.recs.size(); MC_CHECK(wg_set_field(db, r, 0, wg_encode_int(db, v)) == 0, "write", "cannot write"); m.recs.push_back(v); break; }
      case FOREIGN: { int k = keyof(p.name); MS n; n.key = k; n.size = p.extra == SHORT ? 4096 : S2; n.mode = 0600; n.kind = p.extra; n.logged = false; n.removed = false; n.uid = 0; n.raw = 0; int id = __wrap_shmget(k, n.size, IPC_CREAT | IPC_EXCL | 0600); char *q = (char *)__wrap_shmat(id, 0, 0); db_memsegment_header *d = (db_memsegment_header *)q;
        if (p.extra == GARBAGE) memset(q, 0x3c, n.size); else if (p.extra != ZERO && p.extra != SHORT) { d->mark = MEMSEGMENT_MAGIC_MARK; d->version = MEMSEGMENT_VERSION; d->features = MEMSEGMENT_FEATURES; d->size = n.size; d->key = k; d->free = S1; }
        if (p.extra == INITMARK) d->mark = MEMSEGMENT_MAGIC_INIT; if (p.extra == ENDIAN) { unsigned char *c = (unsigned char *)&d->mark; std::swap(c[0], c[3]); std::swap(c[1], c[2]); } if (p.extra == VERSION_) d->version ^= 1; if (p.extra == FEATURES) d->features ^= 1; __wrap_shmdt(q); ms.push_back(n); break; }
      case FAULT: {
        ferr = p.mode; bool hit = true;
        if (p.a == 6) { fctl = 0; int rc = wg_delete_database(p.name); MC_CHECK(rc != 0, "delete", "a refused deletion returns 0"); fctl = -1; break; }
        if (p.a == 7) { fdt = 0; int rc = wg_detach_database(hs[0].db); MC_CHECK(rc != 0, "detach", "a failing detach returns 0"); fdt = -1; break; }
        if (p.a == 0) fget = 0; if (p.a == 1) fget = 1; if (p.a == 2) fat = 0; if (p.a == 5) fctl = 0;
        if (p.a >= 3 && p.a <= 4) { memctl::nalloc = 0; memctl::fail_at = p.a == 4 ? 0 : 1; memctl::on = true; }
        db = wg_attach_database(p.name, S1); memctl::on = false; memctl::fail_at = -1; if (p.a >= 3 && p.a <= 4) hit = memctl::nalloc > (p.a == 4 ? 0 : 1); else hit = (p.a < 2 ? fget : p.a == 2 ? fat : fctl) < 0; fget = fat = fctl = -1;
        if (p.a == 0 && s < 0) hit = false; // nothing to be denied: it is created
        if (hit) { MC_CHECK(!db, "fault", "%s succeeds", p.text.c_str()); count("faults"); } else attach(p, db, S1, S1, true, false, 0); break; }
      case OTHER: { uid = 5; MS &m = ms[s]; bool ok = (m.mode & 6) == 6; db = wg_attach_existing_database(p.name); if (!ok || m.kind != DBK) MC_CHECK(!db, "permission", "another user gets access with mode %o", m.mode); else { MC_CHECK(db, "permission", "another user gets no access with mode %o", m.mode); MC_CHECK(wg_detach_database(db) == 0, "detach", "cannot detach"); }
        void *db2 = wg_attach_database(p.name, 0); if (db2) MC_CHECK(ok && m.kind == DBK && wg_detach_database(db2) == 0, "permission", "another user gets access with mode %o", m.mode); uid = 0; break; }
      case OTHERDEL: { uid = 5; int rc = wg_delete_database(p.name); uid = 0; MC_CHECK(rc != 0, "permission", "another user may delete the database"); break; }
    }
    drop_unused();
  }
  void check(const Op &p) {
    MC_CHECK(bad.empty(), "calls", "%s: %s", p.text.c_str(), bad.c_str());
    size_t want = 0; for (size_t i = 0; i < ms.size(); i++) { MS &m = ms[i]; int nh = 0; for (auto &h : hs) if (h.seg == (int)i) nh++; want++;
      Seg *s = NULL; if (!m.removed) { s = bykey(m.key); MC_CHECK(s, "lost", "after %s the segment of %d is gone", p.text.c_str(), m.key); } else for (auto &h : hs) if (h.seg == (int)i) for (auto &a : atts) if (a.p == (char *)dbmemseg(h.db)) s = byid(a.seg);
      MC_CHECK(s, "lost", "after %s a deleted but attached segment is gone", p.text.c_str());
      MC_CHECK(s->nat == nh, "attachments", "after %s the segment of %d has %d attachments instead of %d", p.text.c_str(), m.key, s->nat, nh);
      MC_CHECK((gint)s->size == m.size, "size", "the segment of %d has %zu bytes instead of %ld", m.key, s->size, (long)m.size); MC_CHECK(s->mode == m.mode, "mode", "the segment of %d has mode %o instead of %o", m.key, s->mode, m.mode); }
    MC_CHECK(segs.size() == want, "left", "after %s there are %zu segments instead of %zu", p.text.c_str(), segs.size(), want);
    for (auto &h : hs) { MS &m = ms[h.seg]; void *db = h.db; MC_CHECK(wg_database_size(db) == m.size, "dbsize", "wg_database_size is %ld instead of %ld", (long)wg_database_size(db), (long)m.size); if (!m.removed) { MC_CHECK(wg_memmode(db) == m.mode, "memmode", "wg_memmode is %o instead of %o", wg_memmode(db), m.mode); MC_CHECK(wg_memowner(db) == 0, "memowner", "wg_memowner is %d", wg_memowner(db)); }
      std::vector<gint> g; for (void *r = wg_get_first_record(db); r; r = wg_get_next_record(db, r)) g.push_back(wg_decode_int(db, wg_get_field(db, r, 0))); MC_CHECK(g == m.recs, "content", "after %s a handle to %d sees %zu records, not the %zu written", p.text.c_str(), m.key, g.size(), m.recs.size());
#ifdef USE_DBLOG
      MC_CHECK(HDR(db)->logging.active == (m.logged ? 1 : 0), "logging", "after %s the journal of %d is %s", p.text.c_str(), m.key, m.logged ? "inactive" : "active");
#endif
    }
    if (!segs.empty() && p.what != FOREIGN) fsck_all();
  }
  void fsck_all() { std::set<int> done; for (auto &h : hs) if (done.insert(h.seg).second) fsck(h.db); }
  bool faultyfree = false;
  void step(int o) override { run(o); check(ops[o]); }
  void *save() override { return new std::vector<int>(path); }
  void drop(void *p) override { delete (std::vector<int> *)p; }
  void restore(void *p) override { reset(); std::vector<int> v = *(std::vector<int> *)p; for (int o : v) run(o); }
  void reset() { for (auto &h : hs) wg_detach_database(h.db); hs.clear(); wipe(); ms.clear(); gen.clear(); path.clear(); if (LOG) for (int k : {7, 1000}) { unlink(fmt("j/wgdb.journal.%d", k).c_str()); for (int i = 0; i < 10; i++) unlink(fmt("j/wgdb.journal.%d.%d", k, i).c_str()); } }
  void hash(H128 &h) override { for (int k : {7, 1000}) { int s = cur(k); hash_u64(h, s >= 0); hash_u64(h, gen[k]); if (s >= 0) hs1(h, ms[s]); } for (auto &x : hs) { MS &m = ms[x.seg]; hs1(h, m); hash_u64(h, m.removed); for (auto &y : hs) hash_u64(h, y.seg == x.seg); } if (LOG) hash_u64(h, path.size()); }
  void hs1(H128 &h, MS &m) { hash_u64(h, m.key); hash_u64(h, m.size); hash_u64(h, m.mode); hash_u64(h, m.kind); hash_u64(h, m.logged); hash_u64(h, m.recs.size()); for (auto v : m.recs) hash_u64(h, v); }
};
int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts(); if (!freopen("/dev/null", "w", stderr)) return 2; if (!freopen("/dev/null", "w", stdout)) return 2; mkdir("j", 0700); watchdog();
  if (o.profile == "race") {
    Cases L; L.run([] { return std::string("a local database"); }, [&] { void *d = wg_attach_local_database(300000); MC_CHECK(d && wg_database_size(d) == 300000, "local", "no local database of the size asked for"); MC_CHECK(wg_memmode(d) == 0600 && wg_memowner(d) == (int)getuid(), "memmode", "a local database has mode %o, owner %d", wg_memmode(d), wg_memowner(d));
      wg_delete_local_database(d); return true; });
    // a second client attaches (creating or not, or deletes) at each system call of the first
    Cases C; W w; auto kinds = std::vector<std::string>{"attach", "attach existing", "attach larger", "delete", "attach logged"};
    for (int exists = 0; exists < 2; exists++) for (size_t a = 0; a < kinds.size(); a++) for (size_t b = 0; b < kinds.size(); b++) for (int at = 0; at < 8; at++) C.run([&] { return fmt("%s; during call %d of '%s' the other client does '%s'", exists ? "database exists" : "no database", at, kinds[a].c_str(), kinds[b].c_str()); }, [&] {
      w.reset(); auto act = [&](int k) -> void * { switch (k) { case 0: return wg_attach_database("7", S1); case 1: return wg_attach_existing_database("7"); case 2: return wg_attach_database("7", S2); case 3: wg_delete_database("7"); return NULL; default: return wg_attach_logged_database("7", S1); } };
      void *keep = NULL; if (exists) { keep = wg_attach_database("7", S1); void *r = wg_create_record(keep, 1); wg_set_field(keep, r, 0, wg_encode_int(keep, 42)); }
      void *x = NULL, *y = NULL; bool ran = false; hookn = 0; hookat = at; hook = [&] { ran = true; y = act(b); }; x = act(a); hook = nullptr; hookat = -1; if (!ran) return false;
      int attached = 0; for (void *h : {keep, x, y}) if (h) { attached++; wg_create_record(h, 1); fsck(h); }
      MC_CHECK((int)atts.size() == attached, "attachments", "%zu attachments remain for %d handles", atts.size(), attached);
      if (x && y && a != 3 && b != 3) { auto segof = [&](void *h) { for (auto &t : atts) if (t.p == (char *)dbmemseg(h)) return t.seg; return -1; }; MC_CHECK(segof(x) == segof(y), "two", "the clients get different databases of the same name"); }
      if (exists) { int n = 0; for (void *r = wg_get_first_record(keep); r; r = wg_get_next_record(keep, r)) n++; MC_CHECK(n >= 2, "content", "the existing database lost its content"); }
      for (void *h : {keep, x, y}) if (h) MC_CHECK(wg_detach_database(h) == 0, "detach", "cannot detach"); MC_CHECK(atts.empty(), "attachments", "attachments remain"); bool any = attached > 0; if (a == 3 || b == 3 || !any) wg_delete_database("7"); if (any && a != 3 && b != 3) MC_CHECK(segs.size() == 1, "left", "%zu segments remain", segs.size());
      if (bykey(7)) { void *z = wg_attach_existing_database("7"); if (any) MC_CHECK(z, "usable", "the database cannot be attached any more"); if (z) wg_detach_database(z); } MC_CHECK(bad.empty(), "calls", "%s", bad.c_str()); return true; });
    return finish(C.failed());
  }
#ifdef TSAN
  if (o.profile == "creating") {
    Cases C; W w; w.reset(); conc::writes = 0; conc::stopat = -1; void *d = wg_attach_database("7", S1); long N = conc::writes; conc::writes = -1; if (!d || N < 500) return 2;
    for (int kind = 0; kind < 3; kind++) for (long n = 0; n <= N + 1; n++) C.run([&] { return fmt("%s at write %ld of %ld of the creation", kind == 0 ? "attach existing" : kind == 1 ? "attach" : "attach logged", n, N); }, [&] {
      w.reset(); void *y = NULL; conc::act = [&] { y = kind == 0 ? wg_attach_existing_database("7") : kind == 1 ? wg_attach_database("7", S1) : wg_attach_logged_database("7", S1);
        if (y) { count("attached"); fsck(y); void *r = wg_create_record(y, 2); MC_CHECK(r && wg_set_field(y, r, 0, wg_encode_int(y, 42)) == 0, "usable", "the database is accessible before it is complete"); } else count("refused"); };
      conc::stopat = n; conc::writes = 0; void *x = wg_attach_database("7", S1); conc::writes = -1; MC_CHECK(x, "creator", "the creating client fails");
      MC_CHECK((int)atts.size() == 1 + !!y && segs.size() == 1, "attachments", "%zu attachments and %zu segments", atts.size(), segs.size()); fsck(x);
      if (y) { void *r = wg_get_first_record(x); MC_CHECK(r && wg_decode_int(x, wg_get_field(x, r, 0)) == 42, "content", "data written by the second client is lost"); wg_detach_database(y); } wg_detach_database(x); return n < N; });
    wipe(); return finish(C.failed());
  }
#endif
  maxh = o.num("handles", 3); W w; Explorer E(w, o.depth); return finish(E.explore());
}
