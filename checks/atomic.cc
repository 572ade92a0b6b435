// C03: atomic field operations.  mode=conc: all interleavings, linearizability of every outcome;
// mode=refuse: every field content x new value x situation, sequentially, against the documented preconditions.
#include "conc.h"
using namespace mc;
static void *db, *rec; static ll ival[8];
struct Op { char k; int a, b; };       // S v | U old new | A delta | N (set null) | C (set char)
static std::vector<Op> script[conc::MAXF];
struct Ev { signed char f, op, inv, res; };
struct Mon { Ev ev[24]; int n; int rc[conc::MAXF][6]; } M;
static const ll BIG = 1LL << 40;
static gint encv(int v) { return v == 9 ? 0 : v == 8 ? wg_encode_char(db, 'x') : v == 7 ? wg_encode_int(db, BIG) : wg_encode_int(db, v); }
static ll num_of(gint g, bool &isint) { isint = wg_get_encoded_type(db, g) == WG_INTTYPE; return isint ? (ll)wg_decode_int(db, g) : 0; }
static gint encs[10];
static void client(int f) {
  for (size_t i = 0; i < script[f].size(); i++) {
    Op o = script[f][i];
    M.ev[M.n++] = {(signed char)f, (signed char)i, 1, 0};
    gint r = o.k == 'S' ? wg_set_atomic_field(db, rec, 0, encs[o.a]) : o.k == 'U' ? wg_update_atomic_field(db, rec, 0, encs[o.b], encs[o.a]) : wg_add_int_atomic_field(db, rec, 0, o.a - 2);
    M.rc[f][i] = r; M.ev[M.n++] = {(signed char)f, (signed char)i, 0, 0};
  }
}
static gint initial;
static gint model_step(const Op &o, gint &v) {
  if (o.k == 'S') { v = encs[o.a]; return 0; }
  if (o.k == 'U') { if (v != encs[o.a]) return -15; v = encs[o.b]; return 0; }
  bool isint; ll x = num_of(v, isint); if (!isint) return -11; v = wg_encode_int(db, x + o.a - 2); return 0;
}
// search for a linearization consistent with real time
static bool lin(std::vector<int> &done, gint v, gint fin, int total) {
  if (total == 0) return v == fin;
  // an operation may be next if every operation that responded before its invocation is done
  for (int f = 0; f < conc::nf; f++) {
    if (done[f] >= (int)script[f].size()) continue; int i = done[f]; bool ok = true; int inv = -1;
    for (int k = 0; k < M.n; k++) if (M.ev[k].f == f && M.ev[k].op == i && M.ev[k].inv) inv = k;
    for (int k = 0; k < inv && ok; k++) if (!M.ev[k].inv && M.ev[k].op >= done[M.ev[k].f]) ok = false;
    if (!ok) continue;
    gint w = v; if (model_step(script[f][i], w) != M.rc[f][i]) continue;
    done[f]++; if (lin(done, w, fin, total - 1)) return true; done[f]--;
  }
  return false;
}
static std::string opname(const Op &o) { return o.k == 'S' ? fmt("set %d", o.a) : o.k == 'U' ? fmt("update %d->%d", o.a, o.b) : fmt("add %d", o.a - 2); }

static bool refuse_mode() {
  // every (situation, field, old content, operation, value)
  std::vector<Val> vals = {vNull(), vInt(0), vInt(5), vInt(-5), vInt((1LL << 31) - 1), vInt(1LL << 40), vInt(-(1LL << 33)), vInt(1LL << 61), vDbl(1.5), vStr("s"), vStr(std::string(50, 'l')), vTxt(V_URI, "u", "p"), vTxt(V_XML, "x", "t"),
    vTxt(V_BLOB, "b", "t"), vChar('c'), vDate(700000), vTime(1234), vFix(1.25), vVar(3), vRec(0)};
  // the limits of the immediate integer range
  ll lo = 0, hi = 1LL << 62; while (hi - lo > 1) { ll m = (lo + hi) / 2; if (fits_smallint(m)) lo = m; else hi = m; } ll maxsmall = lo; lo = -(1LL << 62), hi = 0; while (hi - lo > 1) { ll m = lo + (hi - lo) / 2; if (fits_smallint(m)) hi = m; else lo = m; } ll minsmall = hi;
  vals.push_back(vInt(maxsmall)); vals.push_back(vInt(minsmall));
  auto imm = [&](const Val &v) { return v.t == V_NULL || v.t == V_CHAR || v.t == V_DATE || v.t == V_TIME || v.t == V_FIX || v.t == V_VAR || (v.t == V_INT && v.i <= maxsmall && v.i >= minsmall); };
  std::vector<int> deltas = {0, 1, -1, 7, 2147483647, -2147483647 - 1};
  void *target = wg_create_record(db, 1); rec = wg_create_record(db, 3);
  Image *im0 = img_save(db); bool failed = false; std::vector<int> path; Cases C;
  enum { PLAIN, TTREE, TTREE_OTHER, HASH, TEMPLATE, LOGGING, NSIT };
  int nact = 2 + 1 + 1;   // set v | update right old->v | update wrong old->v | add delta
  for (int sit = 0; sit < NSIT; sit++) for (size_t ov = 0; ov < vals.size(); ov++) for (int act = 0; act < 5; act++) for (size_t nv = 0; nv < (act == 3 ? deltas.size() : vals.size()); nv++) {
    C.run([&] { return fmt("situation %d, field holds %s, action %d with %s", sit, vals[ov].str().c_str(), act, act == 3 ? fmt("%d", deltas[nv]).c_str() : vals[nv].str().c_str()); }, [&] {
      img_restore(db, im0); Val O = vals[ov];
      gint oe = enc_val(db, O, target); MC_CHECK(wg_set_field(db, rec, 1, oe) == 0, "setup", "set failed");
      oe = wg_get_field(db, rec, 1); Image *pre = 0; bool logging = false;
      if (sit == TTREE) wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, NULL, 0);
      if (sit == TTREE_OTHER) wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0);
      if (sit == HASH) { if (O.t == V_BLOB) return false; gint cols[1] = {1}; wg_create_multi_index(db, cols, 1, WG_INDEX_TYPE_HASH, NULL, 0); }
      if (sit == TEMPLATE) { gint tm[2] = {wg_encode_var(db, 0), wg_encode_int(db, 77)}; gint c[1] = {2}; MC_CHECK(wg_create_multi_index(db, c, 1, WG_INDEX_TYPE_TTREE, tm, 2) == 0, "setup", "template index refused"); }
      if (sit == LOGGING) { HDR(db)->logging.active = 1; logging = true; }
      Val N = act == 3 ? vNull() : vals[nv];
      gint ne = 0; if (act != 3) { bool l = HDR(db)->logging.active; HDR(db)->logging.active = 0; ne = enc_val(db, N, target); HDR(db)->logging.active = l; }
      H128 h0 = hash0(); img_hash(db, h0);
      gint exp; Val expv = O; gint rc; bool blocked = sit == TTREE || sit == HASH || sit == TEMPLATE || sit == LOGGING;
      std::set<int> allowed;    // if several preconditions are violated any of their codes may be reported
      if (blocked) allowed.insert(sit == LOGGING ? -14 : -13);
      if (act == 0) { if (!imm(N)) allowed.insert(-10); if (!imm(O)) allowed.insert(-11); rc = wg_set_atomic_field(db, rec, 1, ne); if (allowed.empty()) { allowed.insert(0); expv = N; } }
      else if (act == 1) { if (!imm(N)) allowed.insert(-10); if (!imm(O)) allowed.insert(-11); rc = wg_update_atomic_field(db, rec, 1, ne, oe); if (allowed.empty()) { allowed.insert(0); expv = N; } }
      else if (act == 2) { gint wrong = O.t == V_INT && O.i == 5 ? wg_encode_char(db, 'q') : wg_encode_int(db, 5); if (!imm(N)) allowed.insert(-10); rc = wg_update_atomic_field(db, rec, 1, ne, wrong); if (allowed.empty()) allowed.insert(-15); }
      else if (act == 3) {
        if (O.t != V_INT || !imm(O)) { allowed.insert(-11); } else { ll s = O.i + deltas[nv]; if (s > maxsmall || s < minsmall) allowed.insert(-16); else if (allowed.empty()) { allowed.insert(0); expv = vInt(s); } }
        rc = wg_add_int_atomic_field(db, rec, 1, deltas[nv]);
      } else { // out of range or invalid arguments
        rc = nv == 0 ? wg_set_atomic_field(db, rec, 3, wg_encode_int(db, 1)) : nv == 1 ? wg_set_atomic_field(db, rec, -1, wg_encode_int(db, 1)) : nv == 2 ? wg_update_atomic_field(db, rec, 3, wg_encode_int(db, 1), 0) : nv == 3 ? wg_update_atomic_field(db, rec, -1, wg_encode_int(db, 1), 0)
          : nv == 4 ? wg_add_int_atomic_field(db, rec, 3, 1) : nv == 5 ? wg_add_int_atomic_field(db, rec, -1, 1) : nv == 6 ? wg_add_int_atomic_field(db, rec, 1 << 30, 1) : -2;
        allowed = {-2};
      }
      MC_CHECK(allowed.count(rc), "atomic-result", "returned %ld, expected %s%d", (long)rc, allowed.size() > 1 ? "one of several, e.g. " : "", *allowed.begin());
      stats().outcomes[fmt("%ld", (long)rc)]++;
      if (rc != 0) { H128 h1 = hash0(); img_hash(db, h1); MC_CHECK(h0 == h1, "atomic-effect", "refused with %ld but the database changed", (long)rc); }
      else if (expv.t != V_REC) { Val g = dec_val(db, wg_get_field(db, rec, 1)); MC_CHECK(g == expv, "atomic-value", "field holds %s instead of %s", g.str().c_str(), expv.str().c_str()); }
      MC_CHECK(wg_get_field(db, rec, 0) == 0 && wg_get_field(db, rec, 2) == 0, "atomic-neighbour", "a neighbouring field changed");
      HDR(db)->logging.active = 0; return rc == 0;
    });
    HDR(db)->logging.active = 0; if (C.failed()) return true;
  }
  return false;
}

int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts();
  db = wg_attach_local_database(400000); conc::seg0 = (char *)dbmemseg(db); conc::seg1 = conc::seg0 + HDR(db)->size;
  if (o.str("mode", "conc") == "refuse") { bool f = refuse_mode(); finish(f); }
  // all assignments of operation lists of the given lengths (e.g. lens=21: one client doing two, one doing one)
  std::vector<Op> alpha = {{'A', 3, 0}, {'A', 1, 0}, {'S', 1, 0}, {'S', 0, 0}, {'U', 0, 1}, {'U', 1, 2}, {'U', 1, 0}, {'S', 8, 0}};
  if (o.num("alpha", 8) < 8) alpha.resize(o.num("alpha", 8));
  std::string lens = o.str("lens", "22"); int n = lens.size(); int total = 0; for (char c : lens) total += c - '0'; int init0 = 0;
  long ncombo = 1; for (int i = 0; i < total; i++) ncombo *= alpha.size();
  for (int i = 0; i < 10; i++) encs[i] = encv(i);
  rec = wg_create_record(db, 1); initial = encs[init0]; wg_set_field(db, rec, 0, initial);
  conc::nf = n; conc::maxfaults = 0; conc::body = client; conc::mon = (char *)&M; conc::monsz = sizeof M;
  Image *im = img_save(db); bool failed = false; std::vector<int> rp = o.replay.size() ? read_replay() : std::vector<int>();
  std::map<std::string, long> kinds;
  for (long combo = 0; combo < ncombo && !failed; combo++) {
    if (rp.size() ? combo != rp[0] : combo % o.nshards != o.shard) continue;
    long c = combo; std::string d; for (int f = 0; f < n; f++) { script[f].clear(); d += fmt("T%d:", f); for (int i = 0; i < lens[f] - '0'; i++) { script[f].push_back(alpha[c % alpha.size()]); c /= alpha.size(); d += " " + opname(script[f].back()) + ";"; } d += " "; }
    bool skip = false; for (int f = 0; f + 1 < n; f++) if (lens[f] == lens[f + 1]) { for (size_t i = 0; i < script[f].size(); i++) { const Op &x = script[f][i], &y = script[f + 1][i]; int cx = x.k * 100 + x.a * 10 + x.b, cy = y.k * 100 + y.a * 10 + y.b; if (cx < cy) break; if (cx > cy) { skip = true; break; } } }
    if (skip) continue;   // same as another assignment with the clients renamed
    conc::Search S; S.check_progress = true; S.maxstates = o.num("maxstates", 12000000); S.prefix = {(int)combo}; S.prefixdesc = d + ":: ";
  S.setup = [&] { img_restore(db, im); memset(&M, 0, sizeof M); };
    S.lock_held = [&] { return true; };
    S.atend = [&] {
    gint fin = wg_get_field(db, rec, 0); std::vector<int> done(n, 0); int total = 0; for (int f = 0; f < n; f++) total += script[f].size();
    std::string d; for (int f = 0; f < n; f++) { d += f ? " | " : ""; for (size_t i = 0; i < script[f].size(); i++) d += opname(script[f][i]) + fmt(" = %d; ", M.rc[f][i]); }
    bool isint; ll x = num_of(fin, isint); for (int f = 0; f < n; f++) for (size_t i = 0; i < script[f].size(); i++) kinds[fmt("%c = %d", script[f][i].k, M.rc[f][i])]++;
    if (!lin(done, initial, fin, total)) fail("not-linearizable", "no order of the operations explains the results " + d + fmt(" and the final value %lld", x));
  };
    failed = S.run(); count("workloads");
  }
  stats().outcomes.clear(); for (auto &k : kinds) stats().outcomes[k.first] = k.second;
  finish(failed);
}
