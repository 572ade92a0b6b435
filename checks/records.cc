// C04, C05, C06(part), C07, C08: exhaustive operation sequences over the record store.
#include "dbworld.h"
using namespace mc;

static std::string L(char c, int n) { return std::string(n, c); }

struct W : DbWorld {
  void types() {          // one value per storage class and switch points
    vals = {vNull(), vInt(7), vInt(1LL << 61), vDbl(3.25), vStr("short"), vStr(L('a', 31)), vStr(L('b', 32)), vTxt(V_STR, "tagged", "en"),
            vTxt(V_URI, "u1", "http://x/"), vTxt(V_XML, "<a/>", "xs:t"), vTxt(V_BLOB, std::string("a\0b", 3), "bt"), vChar('x'), vDate(733000), vTime(4242), vFix(1.25), vVar(3), vTxt(V_BLOB, "")};
  }
};

int main(int argc, char **argv) {
  init(argc, argv);
  Opts &o = opts(); std::string p = o.profile; W w;
  auto allset = [&](int slots, int fields) { for (int s = 0; s < slots; s++) for (int f = 0; f < fields; f++) for (size_t v = 0; v < w.vals.size(); v++) w.op_set(s, f, v); };
  if (p == "types") {              // C04: every type over every type, then deeper
    w.maxslots = 2; w.open(200000); w.types();
    w.op_create(1); w.op_create(2, true); w.op_delete(0); w.op_delete(1);
    allset(2, 2); w.op_copy(0, 0, 1, 0); w.op_copy(1, 0, 0, 0);
    w.check_teardown = true; w.check_fsck = false;
  } else if (p == "types1") {      // C04: one record, long overwrite histories
    w.maxslots = 1; w.open(200000); w.types();
    w.op_create(1); w.op_delete(0); allset(1, 1); w.check_teardown = false; w.check_fsck = false;
  } else if (p == "lengths") {     // C04/C05: record lengths around the size classes
    w.maxslots = 4; w.open(400000); w.vals = {vInt(1), vStr("s"), vNull()};
    for (int n : {0, 1, 2, 29, 30, 100}) w.op_create(n);
    for (int s = 0; s < 4; s++) w.op_delete(s);
    w.op_set(0, 0, 0); w.op_set(1, 1, 1); w.op_set(2, 28, 0); w.op_set(3, 29, 1);
    w.check_teardown = true;
  } else if (p == "scan") {        // C05/C06: creation and deletion patterns, all size classes, block boundaries
    w.maxslots = 6; w.open(400000);
    for (int n : {1, 2, 5, 33, 400}) w.op_create(n);
    for (int s = 0; s < 6; s++) w.op_delete(s);
    w.check_content = true; w.check_parents = false; w.check_teardown = true;
  } else if (p == "scanspecial") { // C05: data records among internal records, at the start, in the middle and in runs
    w.maxslots = 6; w.open(400000);
    for (int n : {1, 33}) { w.op_create(n); w.op_special(n, n == 1); }
    for (int s = 0; s < 6; s++) w.op_delete(s);
    w.check_parents = false; w.check_teardown = true;
  } else if (p == "scanfull") {    // C05: start from a database whose first block is nearly full
    w.maxslots = 40; w.open(400000);
    int k = o.num("fill", 28); for (int i = 0; i < k; i++) { void *r = wg_create_record(w.db, 30); int s = w.free_slot(); w.m.r[s].live = true; w.m.r[s].off = (char *)r - (char *)dbmemseg(w.db); w.m.r[s].f.assign(30, Val()); }
    for (int n : {0, 1, 3, 25, 30, 60, 200}) w.op_create(n);
    for (int s : {0, 1, 2, 5, k - 2, k - 1, k, k + 1, k + 2}) w.op_delete(s);
    w.check_parents = false; w.check_probe = false; w.check_content = true;
    w.check_fsck = true;
  } else if (p == "links") {       // C07
    int n = o.num("slots", 3), f = o.num("fields", 2);
    w.maxslots = n; w.open(200000); w.vals = {vNull(), vInt(5)};
    if (o.num("pre", 1)) for (int i = 0; i < n; i++) { void *r = wg_create_record(w.db, f); w.m.r[i].live = true; w.m.r[i].off = (char *)r - (char *)dbmemseg(w.db); w.m.r[i].f.assign(f, Val()); }
    for (int s = 0; s < n; s++) for (int q = 0; q < f; q++) { for (int t = 0; t < n; t++) w.op_setref(s, q, t); w.op_set(s, q, 0); if (q == 0 && s == 0) w.op_set(s, q, 1); }
    for (int s = 0; s < n; s++) w.op_delete(s);
    w.op_create(f);
    w.check_teardown = true; w.check_fsck = false;
  } else if (p == "strings") {     // C08: colliding and nearly equal texts (string hash table has 2 buckets)
    w.maxslots = 2; w.open(o.num("size", 200000));
    w.vals = {vNull(), vStr(L('a', 40)), vStr(L('a', 39) + "b"), vTxt(V_STR, L('a', 40), "en"), vTxt(V_URI, L('a', 40)), vTxt(V_XML, L('a', 40), "en"), vTxt(V_URI, "x", L('a', 40)), vTxt(V_BLOB, L('a', 40), "en"), vTxt(V_STR, "x", "en")};
    for (int i = 0; i < 2; i++) { void *r = wg_create_record(w.db, 2); w.m.r[i].live = true; w.m.r[i].off = (char *)r - (char *)dbmemseg(w.db); w.m.r[i].f.assign(2, Val()); }
    int ns = o.num("vals", w.vals.size()); w.vals.resize(ns);
    allset(2, 2); w.op_delete(0); w.op_delete(1); w.op_create(2); for (int v = 1; v < ns; v++) w.op_encfree(v);
    w.op_copy(0, 0, 1, 1); w.op_copy(1, 1, 0, 0);
    w.check_teardown = true; w.check_fsck = false; w.check_probe = false;
  } else if (p == "strings2") {    // qualifier chains: qualifiers that are long strings themselves, same bucket
    w.maxslots = 1; w.open(200000);
    std::string q = L('q', 40), q2 = L('r', 40);
    w.vals = {vNull(), vTxt(V_URI, "n", q), vTxt(V_URI, "m", q), vTxt(V_XML, "n", q2), vStr(q), vTxt(V_STR, q, q2), vTxt(V_BLOB, std::string("q\0\0", 3), q2), vTxt(V_BLOB, std::string("q\0", 2), q2), vTxt(V_URI, "", q), vTxt(V_URI, q)};
    void *r = wg_create_record(w.db, 3); w.m.r[0].live = true; w.m.r[0].off = (char *)r - (char *)dbmemseg(w.db); w.m.r[0].f.assign(3, Val());
    allset(1, 3); for (size_t v = 1; v < w.vals.size(); v++) w.op_encfree(v);
    w.check_teardown = true; w.check_fsck = false; w.check_probe = false;
  } else { fprintf(out(), "unknown profile %s\n", p.c_str()); return 2; }
  // baseline for the leak check: the same database after releasing the prefill
  { Image *im = img_save(w.db); Model mm = w.m; for (auto &r : w.m.r) if (r.live) { wg_delete_record(w.db, (char *)dbmemseg(w.db) + r.off); } fsck(w.db, &w.base); img_restore(w.db, im); w.m = mm; delete im; }
  Explorer e(w, o.depth);
  bool f = e.explore();
  stats().outcomes["refused deletes"] = w.nfail_expected;
  finish(f);
}
