// C22: start / stop / write / replay / dump / import by two handles of one database, in every order.
// The journal directory is compared byte by byte with a model after every step, and the
// state is recovered from the latest dump and the journals since, as the manual says.
#include "wgdb.h"
#include <dirent.h>
#include <climits>
#include <sys/time.h>
using namespace mc;
#ifndef MAXB
#define MAXB 2
#endif
enum { START, STOP, WRITE, DUMP, IMPORT, REPLAYCUR, REPLAYB0, REOPEN, LOSE, BADDUMP, BADIMPORT, BADREPLAY, NKIND };
static const char *KN[] = {"start", "stop", "write", "dump", "import", "replay current journal", "replay backup 0", "reopen handle", "remove current journal", "refused dump", "refused import", "refused replay"};
struct File { std::string c; long t; ino_t ino = 0; };
typedef std::map<std::string, File> Dir;
static const std::string CUR = "wgdb.journal.0", DUMPF = "dump.bin";
static Dir scan() {
  Dir d; DIR *p = opendir("."); while (struct dirent *e = readdir(p)) { std::string n = e->d_name; if (n[0] == '.' || n == DUMPF) continue; struct stat s; stat(n.c_str(), &s); File f; f.t = s.st_mtime; f.ino = s.st_ino; FILE *q = fopen(n.c_str(), "rb"); char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, q)) > 0) f.c.append(b, k); fclose(q); d[n] = f; } closedir(p); return d;
}
static void put(const std::string &n, const std::string &c, long t) { unlink(n.c_str()); FILE *f = fopen(n.c_str(), "wb"); fwrite(c.data(), 1, c.size(), f); fclose(f); struct timeval tv[2] = {{t, 0}, {t, 0}}; utimes(n.c_str(), tv); }
static void *H[2], *TGT; static void *rec() { return wg_get_first_record(H[0]); }
static db_handle_logdata *LD(int h) { return (db_handle_logdata *)((db_handle *)H[h])->logdata; }
struct M { // model
  bool active = false, dirty = false, havedump = false, chainok = true; long clock = 1000; int n = 0; int val = 0, dumpval = 0; Dir files; std::map<std::string, std::vector<int>> marks; std::vector<std::string> chain; bool curinchain = false; int dumpid = 0;
};
static std::string fresh; static std::map<int, std::string> dumps; static int ndumps = 0; static std::map<int, Image *> dumpimg; static Image *img0;
struct RW : World {
  M m; bool lose;
  struct Snap { Image *i; M m; std::string fdname[2]; bool fdopen[2]; gint serial[2]; };
  int nops() override { return NKIND * 2; }
  bool enabled(int o) override {
    int k = o / 2, h = o % 2;
    switch (k) { case IMPORT: return m.havedump; case REPLAYCUR: return m.files.count(CUR); case REPLAYB0: return m.files.count(CUR + ".0"); case REOPEN: return LD(h)->fd >= 0; case BADDUMP: case BADIMPORT: case BADREPLAY: return h == 0; case LOSE: return lose && h == 0 && !m.active && !m.dirty && m.files.count(CUR); }
    return true;
  }
  std::string opname(int o) override { return fmt("%s by handle %d", KN[o / 2], o % 2 + 1); }
  void rotate(Dir &w) { // expected directory after a fresh start
    if (w.count(CUR)) {
      std::string slot; for (int i = 0; i < MAXB && slot.empty(); i++) if (!w.count(CUR + fmt(".%d", i))) slot = CUR + fmt(".%d", i);
      if (slot.empty()) { long best = LONG_MAX; for (int i = 0; i < MAXB; i++) { std::string s = CUR + fmt(".%d", i); if (w[s].t < best) best = w[s].t, slot = s; } count("oldest backup replaced"); }
      w[slot] = w[CUR]; m.marks[slot] = m.marks[CUR];
    }
    if (m.curinchain && w.count(CUR)) m.chain.push_back(w[CUR].c);
    w[CUR].c = fresh; w[CUR].t = -1; m.marks[CUR].clear(); m.dirty = false; m.curinchain = true;
  }
  void step(int o) override {
    int k = o / 2, h = o % 2; void *db = H[h]; gint rc; Dir w = m.files; bool grow = false; m.clock++;
    switch (k) {
      case START: rc = wg_start_logging(db); if (m.active) MC_CHECK(rc == -1, "start-code", "starting an active journal returns %ld", (long)rc);
        else { MC_CHECK(rc == 0, "start-code", "start returns %ld", (long)rc); if (!(m.dirty && w.count(CUR))) rotate(w); m.active = true; } break;
      case STOP: rc = wg_stop_logging(db); MC_CHECK((rc == 0) == m.active, "stop-code", "stop returns %ld", (long)rc); m.active = false; break;
      case WRITE: { m.n++; gint e = wg_encode_double(db, m.n + .5); rc = wg_set_field(db, rec(), 1, e); MC_CHECK(rc == 0, "write-code", "writing returns %ld", (long)rc); rc = wg_set_field(db, rec(), 0, wg_encode_int(db, m.n)); MC_CHECK(rc == 0, "write-code", "writing returns %ld", (long)rc);
        m.val = m.n; if (m.active) { grow = true; m.dirty = true; m.marks[CUR].push_back(m.n); } else m.chainok = false; break; }
      case DUMP: { H128 h0 = hash0(); rc = wg_dump(db, (char *)DUMPF.c_str()); MC_CHECK(rc == 0, "dump-code", "dump returns %ld", (long)rc); m.havedump = true; m.dumpval = m.val; m.dirty = false;
        m.dumpid = ++ndumps; FILE *f = fopen(DUMPF.c_str(), "rb"); std::string c; static char b[65536]; size_t q; while ((q = fread(b, 1, sizeof b, f)) > 0) c.append(b, q); fclose(f); dumps[m.dumpid] = c; dumpimg[m.dumpid] = img_save(db);
        m.chain.clear(); m.curinchain = false; m.chainok = true; if (m.active) { rotate(w); } break; }
      case IMPORT: rc = wg_import_dump(db, (char *)DUMPF.c_str()); MC_CHECK(rc == 0, "import-code", "import returns %ld", (long)rc); m.val = m.dumpval; m.dirty = false; m.chain.clear(); m.chainok = true; m.curinchain = false; if (m.active) rotate(w); break;
      case REPLAYCUR: case REPLAYB0: { std::string f = k == REPLAYCUR ? CUR : CUR + ".0"; std::string content = w[f].c; rc = wg_replay_log(db, (char *)f.c_str()); MC_CHECK(rc == 0, "replay-code", "replay returns %ld", (long)rc);
        if (m.marks[f].size()) m.val = m.marks[f].back(); m.dirty = false; if (m.curinchain && w.count(CUR)) { m.chain.push_back(w[CUR].c); m.curinchain = false; } m.chain.push_back(content); if (m.active) { rotate(w); } break; }
      case REOPEN: wg_cleanup_handle_logdata(db); wg_init_handle_logdata(db); wg_log_umask(db, 022); break;
      case BADDUMP: rc = wg_dump(db, (char *)"./nodir/dump"); MC_CHECK(rc == -1, "dump-code", "a dump into a missing directory returns %ld", (long)rc); if (m.active && !(m.dirty && w.count(CUR))) rotate(w); break;
      case BADIMPORT: rc = wg_import_dump(db, (char *)"./nodir/dump"); MC_CHECK(rc == -1, "import-code", "import of a missing dump returns %ld", (long)rc); break;
      case BADREPLAY: rc = wg_replay_log(db, (char *)"./nodir/journal"); MC_CHECK(rc == -1, "replay-code", "replay of a missing journal returns %ld", (long)rc); put(".noj", "no journal, no journal", 5); rc = wg_replay_log(db, (char *)".noj"); MC_CHECK(rc == -1, "replay-code", "replay of a file that is no journal returns %ld", (long)rc); break;
      case LOSE: unlink(CUR.c_str()); w.erase(CUR); m.chainok = false; m.curinchain = false; m.marks[CUR].clear(); break;
    }
    // the directory
    Dir g = scan();
    for (auto &f : w) {
      MC_CHECK(g.count(f.first), "file-missing", "file %s is missing", f.first.c_str()); std::string &c = g[f.first].c;
      if (grow && f.first == CUR) { MC_CHECK(c.size() > f.second.c.size() && c.compare(0, f.second.c.size(), f.second.c) == 0, "not-appended", "the write is not appended to the current journal (%zu -> %zu bytes)", f.second.c.size(), c.size()); grow = false; g[f.first].t = m.clock; put_t(f.first); }
      else MC_CHECK(c == f.second.c, "file-changed", "file %s: %zu bytes expected, %zu found%s", f.first.c_str(), f.second.c.size(), c.size(), f.second.c.size() == c.size() ? " with other content" : "");
      if (f.second.t == -1) { g[f.first].t = m.clock; put_t(f.first); } else if (f.first != CUR || g[f.first].t != m.clock) { if (g[f.first].t != m.clock) g[f.first].t = f.second.t; }
    }
    for (auto &f : g) MC_CHECK(w.count(f.first), "file-extra", "unexpected file %s", f.first.c_str());
    MC_CHECK(!grow, "not-appended", "no journal received the write");
    m.files = g;
    MC_CHECK((HDR(db)->logging.active != 0) == m.active, "active-flag", "journal active flag is %ld", (long)HDR(db)->logging.active);
    MC_CHECK(wg_decode_int(H[0], wg_get_field(H[0], rec(), 0)) == m.val && (m.val == 0 || wg_decode_double(H[0], wg_get_field(H[0], rec(), 1)) == m.val + .5), "value", "the database holds %ld instead of %d", (long)wg_decode_int(H[0], wg_get_field(H[0], rec(), 0)), m.val);
    // recovery: latest dump (or the start) + journals since
    if (m.chainok) {
      img_restore(TGT, m.havedump ? dumpimg[m.dumpid] : img0); HDR(TGT)->logging.active = 0; std::vector<std::string> ch = m.chain; if (m.curinchain && m.files.count(CUR)) ch.push_back(m.files[CUR].c);
      for (auto &c : ch) { FILE *f = fopen("./.rj", "wb"); fwrite(c.data(), 1, c.size(), f); fclose(f); rc = wg_replay_log(TGT, (char *)"./.rj"); MC_CHECK(rc == 0, "recover-code", "recovery: replay returns %ld", (long)rc); }
      void *r = wg_get_first_record(TGT); gint v = wg_decode_int(TGT, wg_get_field(TGT, r, 0)); MC_CHECK(v == m.val, "recover-value", "recovered value %ld instead of %d", (long)v, m.val); count("recoveries");
    }
  }
  void put_t(const std::string &n) { struct timeval tv[2] = {{m.clock, 0}, {m.clock, 0}}; utimes(n.c_str(), tv); }
  void *save() override {
    Snap *s = new Snap; s->i = img_save(H[0]); s->m = m;
    for (int h = 0; h < 2; h++) { s->fdopen[h] = LD(h)->fd >= 0; s->serial[h] = LD(h)->serial; if (s->fdopen[h]) { struct stat t; fstat(LD(h)->fd, &t); for (auto &f : m.files) if (f.second.ino == t.st_ino) s->fdname[h] = f.first; } }
    return s;
  }
  void restore(void *v) override {
    Snap *s = (Snap *)v; img_restore(H[0], s->i); int od = m.dumpid; Dir cur = scan(); m = s->m;
    for (auto &f : cur) if (!m.files.count(f.first)) unlink(f.first.c_str());
    for (auto &f : m.files) { put(f.first, f.second.c, f.second.t); struct stat t; stat(f.first.c_str(), &t); f.second.ino = t.st_ino; }
    if (m.dumpid != od) { unlink(DUMPF.c_str()); if (m.havedump) put(DUMPF, dumps[m.dumpid], 1); }
    for (int h = 0; h < 2; h++) { if (LD(h)->fd >= 0) close(LD(h)->fd); LD(h)->fd = -1; LD(h)->serial = s->serial[h]; if (s->fdopen[h]) { if (s->fdname[h].size()) LD(h)->fd = open(s->fdname[h].c_str(), O_APPEND | O_RDWR); else { LD(h)->fd = open(".orphan", O_APPEND | O_RDWR | O_CREAT, 0600); unlink(".orphan"); } } }
  }
  void drop(void *v) override { Snap *s = (Snap *)v; delete s->i; delete s; }
  void hash(H128 &h) override {
    img_hash(H[0], h); hash_u64(h, m.active | m.dirty << 1 | m.havedump << 2 | m.chainok << 3 | m.curinchain << 4); hash_u64(h, m.n); hash_u64(h, m.havedump ? m.dumpval : -1); if (m.havedump) hash_str(h, dumps[m.dumpid]);
    std::vector<std::pair<long, std::string>> ord; for (auto &f : m.files) { hash_str(h, f.first); hash_str(h, f.second.c); ord.push_back({f.second.t, f.first}); } std::sort(ord.begin(), ord.end()); for (auto &f : ord) hash_str(h, f.second);
    for (auto &c : m.chain) hash_str(h, c);
    for (int q = 0; q < 2; q++) { hash_u64(h, LD(q)->fd >= 0); if (LD(q)->fd >= 0) { hash_u64(h, LD(q)->serial == HDR(H[0])->logging.serial); struct stat t; fstat(LD(q)->fd, &t); std::string nm; for (auto &f : m.files) if (f.second.ino == t.st_ino) nm = f.first; hash_str(h, nm); } }
  }
};
int main(int argc, char **argv) {
  init(argc, argv); gint size = 300000;
  H[0] = wg_attach_local_database(size); TGT = wg_attach_local_database(size); if (!H[0] || !TGT) { fprintf(out(), "no memory\n"); _exit(2); }
  db_handle *b = (db_handle *)malloc(sizeof(db_handle)); *b = *(db_handle *)H[0]; H[1] = b; wg_init_handle_logdata(b); wg_log_umask(b, 022); wg_log_umask(H[0], 022);
  void *r = wg_create_record(H[0], 2); wg_set_field(H[0], r, 0, wg_encode_int(H[0], 0)); img0 = img_save(H[0]);
  { // what an empty journal looks like
    if (wg_start_logging(H[0])) { fprintf(out(), "start failed\n"); _exit(2); } Dir d = scan(); fresh = d[CUR].c; unlink(CUR.c_str()); img_restore(H[0], img0); }
  RW w; w.lose = opts().has("lose"); Explorer e(w, opts().depth); finish(e.explore());
}
