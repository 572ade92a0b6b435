// C01, C02: every interleaving of the database lock protocols.
#include "conc.h"
using namespace mc;
static void *db; static std::string script[conc::MAXF]; static bool timeouts, exhaust; static int endfib;
struct Mon { int w, r, together, fail[conc::MAXF], got[conc::MAXF]; } M;
static int excl, prog, nshare; static gint held;

static void client(int f) {
  const char *s = script[f].c_str();
  for (; *s; s++) {
    if (*s == 'w') { M.w--; if (!wg_end_write(db, held)) conc::violate("release-failed", fmt("client %d: releasing the lock it holds failed", f)); continue; } // held from the start
    bool wr = *s == 'W', together = *s == 'T'; // T: holds the shared lock until all clients of this kind have got it
    gint l = wr ? wg_start_write(db) : wg_start_read(db);
    if (together) M.together++;
    if (!l) { M.fail[f]++; if (!timeouts && !exhaust) conc::violate("acquire-failed", fmt("client %d: acquiring the %s lock failed although there is no time limit and there are enough slots", f, wr ? "write" : "read")); continue; }
    M.got[f]++;
    if (excl) { if (M.w || (wr && M.r)) conc::violate("exclusion", fmt("client %d got the %s lock while %d writers and %d readers are inside", f, wr ? "write" : "read", M.w, M.r)); }
    if (wr) M.w++; else M.r++;
    conc::yieldpoint();
    if (together) while (M.together < nshare) conc::yieldpoint();
    if (wr) M.w--; else M.r--;
    gint rc = wr ? wg_end_write(db, l) : wg_end_read(db, l);
    if (!rc) conc::violate("release-failed", fmt("client %d: releasing the lock it holds failed", f));
  }
}
static volatile int endstage;
static void afterwards() {   // the lock must be as usable as at the start
  gint l[NLOCKS];
  for (int i = 0; i <= NLOCKS; i++) { endstage = i; gint k = wg_start_write(db); if (!k) { conc::violate("end-refused", fmt("after everybody left, write lock number %d was refused", i)); return; } wg_end_write(db, k); }
  for (int i = 0; i < NLOCKS; i++) { endstage = 100 + i; l[i] = wg_start_read(db); if (!l[i]) { conc::violate("end-refused", fmt("after everybody left, shared lock number %d was refused", i)); return; } }
  for (int i = 0; i < NLOCKS; i++) { endstage = 200 + i; wg_end_read(db, l[i]); }
  endstage = 300; gint k = wg_start_write(db); if (!k) { conc::violate("end-refused", "after everybody left, the write lock was refused"); return; } wg_end_write(db, k);
}
static void body(int f) { if (f == endfib) afterwards(); else client(f); }

int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts();
  std::string s = o.str("script", "W,W"); int n = 0; { std::string c; for (char x : s + ",") { if (x == ',') { script[n++] = c; c = ""; } else c += x; } }
  excl = o.num("excl", 1); prog = o.num("prog", 0); timeouts = o.num("timeouts", 1); exhaust = n > NLOCKS;
  conc::nf = n; endfib = n; conc::maxfaults = o.num("faults", 1); conc::body = body; conc::mon = (char *)&M; conc::monsz = sizeof M;
  db = wg_attach_local_database(400000); if (!db) { fprintf(out(), "ERROR no db\n"); return 2; }
  conc::seg0 = (char *)dbmemseg(db); conc::seg1 = conc::seg0 + HDR(db)->size;
  bool pre = false; for (int i = 0; i < n; i++) for (char x : script[i]) { if (x == 'w') pre = true; if (x == 'T') { nshare++; if (o.has("patient")) conc::patient |= 1 << i; } }
  if (pre) { held = wg_start_write(db); if (!held) { fprintf(out(), "ERROR no lock\n"); return 2; } }
  Image *im = img_save(db);
  conc::Search S; S.check_progress = prog; S.maxstates = o.num("maxstates", 20000000);
  S.setup = [&] { img_restore(db, im); memset(&M, 0, sizeof M); M.w = pre; };
  S.lock_held = [&] { return M.w || M.r; };
  S.atend = [&] {
    std::string oc; for (int i = 0; i < n; i++) oc += fmt("%s%d/%d", i ? " " : "", M.got[i], M.got[i] + M.fail[i]); S.outc[oc]++;
    if (!prog) return;
    conc::Fiber &f = conc::F[endfib]; if (!f.stack) f.stack = conc::Search::newstack();
    void **top = (void **)(f.stack + conc::STK - 64); *--top = 0; *--top = (void *)conc::fiber_main; for (int k = 0; k < 6; k++) *--top = 0;
    f.sp = top; f.status = conc::RUN; f.woken = f.hastimeout = 0;
    for (long k = 0; f.status == conc::RUN; k++) { conc::resume(endfib); if (conc::grew) return; if (k > 200000) fail("end-stuck", fmt("after everybody left, a new client spins forever (stage %d)", endstage)); }
    if (f.status == conc::BLOCKED) fail("end-blocked", fmt("after everybody left, a new client has to wait (stage %d)", endstage));
    if (conc::viol_sig.size()) { Violation v{conc::viol_sig, conc::viol_msg}; conc::viol_sig.clear(); throw v; }
  };
  bool f = S.run();
  finish(f);
}
