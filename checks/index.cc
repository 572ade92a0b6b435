// C11, C12, C13: indexes against the table content, over all operation sequences.
#include "ixworld.h"

int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts(); std::string p = o.profile; IW w;
  w.check_parents = false; w.check_probe = false; w.check_share = false; w.check_fsck = false;
  auto T = WG_INDEX_TYPE_TTREE; auto H = WG_INDEX_TYPE_HASH; Val ANY = vVar(0);
  auto sets = [&](int slots, int fields, int nv) { for (int s = 0; s < slots; s++) for (int f = 0; f < fields; f++) for (int v = 0; v < nv; v++) w.op_set(s, f, v); };
  w.base = HeapCount();
  auto open = [&](int slots) { w.maxslots = slots; w.open(o.num("size", 300000)); fsck(w.db, &w.base); };
  if (p == "ttree") {            // one ordered index, records of one field, creates/updates/deletes, duplicates
    open(o.num("slots", 5)); w.vals = {vNull(), vInt(1), vInt(2), vInt(3)}; w.probes_v = {vNull(), vInt(1), vInt(2), vInt(3), vInt(9), vInt(0)};
    w.addcat(T, {0}); w.icreate(0);
    w.op_create(1); for (int v = 1; v < 4; v++) w.op_rawfill(0, {v});
    sets(w.maxslots, 1, 4); for (int s = 0; s < w.maxslots; s++) w.op_delete(s);
    w.check_listing = false;
  } else if (p == "ttypes") {    // values of every type in one ordered column
    open(4); w.vals = {vNull(), vInt(7), vInt(1LL << 61), vDbl(3.25), vDbl(-1), vStr("short"), vStr(L('b', 40)), vTxt(V_STR, "short", "en"), vTxt(V_URI, "u", "http://x/"), vTxt(V_XML, "<a/>", "t"), vTxt(V_BLOB, std::string("a\0b", 3), "bt"), vChar('x'), vDate(733000), vTime(4242), vFix(1.25), vVar(3)};
    for (auto &v : w.vals) if (v.t != V_BLOB) w.probes_v.push_back(v);
    w.addcat(T, {0}); w.icreate(0); w.pre(o.num("pre", 3), 1); for (int s = 0; s < 3; s++) for (size_t v = 0; v < w.vals.size(); v++) w.op_set(s, 0, v); for (int s = 0; s < 3; s++) w.op_delete(s); w.op_create(1); w.drop_all = true; w.check_listing = false;
  } else if (p == "tlinks") {    // the key is another record: order follows the linked record's content
    open(4); w.vals = {vNull(), vInt(1), vInt(2)}; w.probes_v = {vInt(1), vNull()};
    w.addcat(T, {0}); w.addcat(T, {1}); w.icreate(0); w.icreate(1); w.pre(3, o.num("atomic", 0) ? 3 : 2); if (o.num("atomic", 0)) for (int s = 0; s < 3; s++) { w.op_atomic(s, 2, 1); w.op_atomic(s, 2, 2); w.op_atomic(s, 1, 1); }
    for (int s = 0; s < 3; s++) { for (int f = 0; f < 2; f++) { for (int t = 0; t < 3; t++) w.op_setref(s, f, t); w.op_set(s, f, 1); w.op_set(s, f, f ? 2 : 0); } w.op_delete(s); } w.op_create(2); w.check_parents = true; w.check_listing = false;
  } else if (p == "hlinks") {
    open(4); w.vals = {vNull(), vInt(1), vInt(2)}; w.probes_v = {vInt(1), vNull(), vRec(0), vRec(1), vRec(2)};
    w.addcat(H, {0}); w.addcat(H, {0, 1}); w.icreate(0); w.icreate(1); w.pre(3, o.num("atomic", 0) ? 3 : 2); if (o.num("atomic", 0)) for (int s = 0; s < 3; s++) { w.op_atomic(s, 2, 1); w.op_atomic(s, 2, 2); w.op_atomic(s, 1, 1); }
    for (int s = 0; s < 3; s++) { for (int f = 0; f < 2; f++) { for (int t = 0; t < 3; t++) w.op_setref(s, f, t); w.op_set(s, f, 1); w.op_set(s, f, f ? 2 : 0); } w.op_delete(s); } w.op_create(2); w.check_parents = true; w.check_listing = false;
  } else if (p == "hash") {      // single- and two-column hash indexes, tiny table: collisions
    open(o.num("slots", 4)); w.vals = {vNull(), vInt(1), vInt(2), vStr("a")}; w.probes_v = w.vals; w.probes_v.push_back(vInt(3));
    w.addcat(H, {0}); w.addcat(H, {0, 1}); w.addcat(H, {1, 2}); for (int i = 0; i < 3; i++) w.icreate(i);
    w.op_create(2); w.op_create(3); w.op_create(1); w.op_rawfill(0, {1, 2}); w.op_rawfill(1, {1, 2}); w.op_rawfill(0, {1, 1, 3}); w.op_rawfill(1, {2, 0, 1});
    for (int s = 0; s < w.maxslots; s++) { for (int f = 0; f < 2; f++) for (int v = 0; v < 4; v++) w.op_set(s, f, v); w.op_set(s, 2, 1); w.op_delete(s); } w.check_listing = false;
  } else if (p == "htypes") {    // every type, values that differ in one attribute only
    open(3); w.vals = {vNull(), vInt(7), vInt(7 + (1LL << 32)), vInt(1LL << 61), vDbl(7.0), vStr("7"), vStr(L('b', 40)), vTxt(V_STR, "7", "en"), vTxt(V_STR, "7", "fr"), vTxt(V_URI, "7", "p"), vTxt(V_URI, "7", "q"), vTxt(V_URI, "7"), vTxt(V_XML, "7", "p"), vTxt(V_XML, "7", "long-type-name"), vChar('7'), vDate(7), vTime(7), vFix(7), vVar(7), vTxt(V_URI, "", "p"), vStr(""), vTxt(V_BLOB, "7", "t"), vTxt(V_BLOB, std::string("7\0t", 3)), vDbl(0.0), vDbl(-0.0)};
    for (auto &v : w.vals) if (v.t != V_BLOB) w.probes_v.push_back(v);
    w.addcat(H, {0}); w.addcat(H, {0, 1}); w.icreate(0); if (o.num("two", 0)) w.icreate(1); w.pre(2, 2);
    for (int s = 0; s < 2; s++) { for (int f = 0; f < (o.num("two", 0) ? 2 : 1); f++) for (size_t v = 0; v < w.vals.size(); v++) w.op_set(s, f, v); w.op_delete(s); } w.op_create(2); w.check_listing = false;
  } else if (p == "templ" || p == "templh") {     // filtered indexes
    bool h = p == "templh"; auto X = h ? H : T;
    open(3); w.vals = {vNull(), vInt(1), vStr(L('t', 40))}; w.probes_v = {vNull(), vInt(1), vStr(L('t', 40)), vInt(9)};
    w.addcat(X, {0}); w.addcat(X, {0}, {ANY, vInt(1)}, true); w.addcat(X, {0}, {ANY, vStr(L('t', 40)), ANY}, true); w.addcat(X, {1}, {vInt(1), ANY}, true); w.addcat(X, {0}, {ANY, ANY, vNull()}, true); w.addcat(X, {1}, {vInt(1)}, true); w.addcat(X, {2}, {vInt(1), vInt(1)}, true);
    w.op_create(3); w.op_create(2); sets(3, 3, 3); for (int s = 0; s < 3; s++) w.op_delete(s);
    int k = o.num("pre", 0); if (k) { w.pre(2, 3); for (int i = 0; i < 5; i++) w.icreate(i); w.icreate(6); }
    for (int i = 0; i < 7; i++) { w.op_icreate(i); if (!h) w.op_idrop(i); }
    w.drop_all = !h;
  } else if (p == "ctl") {       // C13: every kind of creation request, valid and not, in every order with drops
    open(2); w.vals = {vNull(), vInt(1)}; w.probes_v = {vNull(), vInt(1)}; w.pre(2, 3); w.setnow(0, 0, 1); w.setnow(1, 1, 1);
    w.addcat(T, {0}); w.addcat(T, {1}); w.addcat(H, {0}); w.addcat(H, {1, 0}); w.addcat(H, {0, 1});
    w.addcat(T, {0, 1}, {}, false, 0); w.addcat(T, {128}, {}, false, 0); w.addcat(T, {127}); w.addcat(T, {-1}, {}, false, -1); w.addcat(H, {0, 0}, {}, false, -1); w.addcat(99, {0}, {}, false, 0); w.addcat(WG_INDEX_TYPE_TTREE_JSON, {0}, {}, false, 0);
    w.addcat(T, {0}, {ANY, vInt(1)}, true); w.addcat(T, {0}, {ANY, ANY}, true, -1); w.addcat(T, {0}, {vInt(1)}, true, -1); w.addcat(T, {0}, {}, true, -1); w.addcat(99, {0}, {ANY, vInt(1)}, true, 0); w.addcat(T, {0, 1}, {ANY, ANY, vInt(1)}, true, 0); w.addcat(T, {0}, {ANY, vInt(1), ANY}, true); w.addcat(H, {0}, {ANY, vInt(1)}, true); w.addcat(T, {0}, {ANY, vRec(0)}, true, -1); w.addcat(T, {1}, {ANY, ANY, vStr(L('z', 40))}, true); w.addcat(H, {0,1,2,3,4,5,6,7,8,9,10}, {}, false, -1);
    w.addcat(99, {2, 1}, {}, false, 0);
    for (size_t i = 0; i < w.cat.size(); i++) { w.op_icreate(i); if (w.cat[i].valid > 0) w.op_idrop(i); }
    w.op_set(0, 1, 1); w.op_set(0, 1, 0); w.op_delete(1); w.drop_all = true;
  } else if (p == "fan") {       // a record many others refer to, directly and through them, whose indexed links follow its content
    int N = o.num("max", 40); w.vals = {vNull(), vInt(1), vInt(2), vStr(L('f', 40))}; w.probes_v = {vInt(1)}; Cases K; w.maxslots = 4 + 3 * N; w.open(2000000); w.addcat(T, {0}); w.addcat(T, {1}); w.icreate(0); w.icreate(1); Image *im = img_save(w.db); auto m0 = w.m; auto i0 = w.is;
    auto link = [&](int s, int f, int t) { Op p; p.k = O_SET; p.a = s; p.b = f; p.c = -1 - t; w.apply(p); };
    for (int n = 0; n <= N; n++) for (int shape = 0; shape < 6; shape++) K.run([&] { return fmt("%d records refer to one, shape %d", n, shape); }, [&] {
      img_restore(w.db, im); w.m = m0; w.is = i0; w.pre(4 + n * (shape < 2 ? 1 : shape < 4 ? 2 : 3), 2); w.setnow(0, 0, 1); w.setnow(1, 0, 2);
      for (int i = 0; i < n; i++) { // parents link in both columns or one; others link to them, or all to one; cycles
        link(4 + i, shape & 1, i & 1 && shape == 2 ? 1 : 0); if (shape == 1) link(4 + i, 0, 0); if (shape >= 2) link(4 + n + i, 0, shape == 3 ? 4 : 4 + i); if (shape >= 4) link(4 + 2 * n + i, 1, 4 + n + i); if (shape == 5) link(0, 1, 4 + i); }
      link(2, 0, 0); link(3, 1, 2); link(2, 1, 3);
      auto chk = [&] { for (size_t i = 0; i < w.cat.size(); i++) w.ttree(w.cat[i], w.is[i].id); };
      w.do_query = n < 4; chk(); for (int v : {3, 0, 2, 1}) { w.setnow(0, 0, v); chk(); if (n) { w.setnow(4, 1 - (shape & 1), v); chk(); w.setnow(4 + n / 2, 1 - (shape & 1), v); chk(); } }
      Op d; d.k = O_DELETE; for (int s = (int)w.m.r.size() - 1; s >= 4; s--) if (w.m.r[s].live && !w.m.refs(s)) { d.a = s; w.apply(d); } chk(); w.setnow(0, 0, 3); chk(); return n > 0; });
    finish(K.failed()); return 0;
  } else { fprintf(out(), "unknown profile %s\n", p.c_str()); return 2; }
  Explorer e(w, o.depth); bool f = e.explore(); finish(f);
}
