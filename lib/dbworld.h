// Reference model of the record store and the operation alphabet over the real library.
#pragma once
#include "wgdb.h"

struct MRec { bool live = false, special = false; gint off = 0; std::vector<Val> f; };
struct Model {
  std::vector<MRec> r;
  void hash(mc::H128 &h) const { for (auto &x : r) { mc::hash_u64(h, x.live + 2 * x.special); if (!x.live) continue; mc::hash_u64(h, x.off); mc::hash_u64(h, x.f.size()); for (auto &v : x.f) v.hash(h); } }
  int nlive() const { int n = 0; for (auto &x : r) n += x.live; return n; }
  int ndata() const { int n = 0; for (auto &x : r) n += x.live && !x.special; return n; }
  // how many fields of live records refer to slot s
  int refs(int s) const { int n = 0; for (auto &x : r) if (x.live) for (auto &v : x.f) if (v.t == V_REC && v.i == s) n++; return n; }
};

enum OpK { O_CREATE, O_RAWCREATE, O_SPECIAL, O_SET, O_DELETE, O_ENCFREE, O_COPY, O_USER, O_SETOWN, O_ENCKEEP };
struct Op { OpK k; int a = 0, b = 0, c = 0; int d = 0; std::string name; };

struct DbWorld : mc::World {
  void *db = nullptr; Model m; std::vector<Op> ops; std::vector<Val> vals; int maxslots = 3;
  bool check_content = true, check_scan = true, check_parents = true, check_share = true, check_fsck = true, check_teardown = false, check_probe = true;
  HeapCount base; gint base_free = 0; Image *base_img = nullptr;
  ll nfail_expected = 0;

  void open(gint size) {
    db = wg_attach_local_database(size);
    if (!db) { fprintf(mc::out(), "cannot create local database of %ld bytes\n", (long)size); _exit(2); }
    m.r.resize(maxslots);
  }
  void mark_base() { fsck(db, &base); base_free = HDR(db)->free; base_img = img_save(db); }
  void *ptr(int slot) { return (char *)dbmemseg(db) + m.r[slot].off; }
  int slot_of(gint off) { for (size_t i = 0; i < m.r.size(); i++) if (m.r[i].live && m.r[i].off == off) return i; return -1; }
  int free_slot() { for (size_t i = 0; i < m.r.size(); i++) if (!m.r[i].live) return i; return -1; }

  // ---- alphabet helpers
  void add(OpK k, int a, int b, int c, int d, const std::string &n) { Op o; o.k = k; o.a = a; o.b = b; o.c = c; o.d = d; o.name = n; ops.push_back(o); }
  void op_create(int len, bool raw = false) { add(raw ? O_RAWCREATE : O_CREATE, len, 0, 0, 0, mc::fmt("%s(%d)", raw ? "createraw" : "create", len)); }
  void op_special(int len, bool obj) { add(O_SPECIAL, len, obj, 0, 0, mc::fmt("create parameter %s(%d)", obj ? "object" : "array", len)); }
  void op_delete(int slot) { add(O_DELETE, slot, 0, 0, 0, mc::fmt("delete #%d", slot)); }
  void op_set(int slot, int f, int v) { add(O_SET, slot, f, v, 0, mc::fmt("set #%d.%d=%s", slot, f, vals[v].str().c_str())); }
  void op_setref(int slot, int f, int to) { add(O_SET, slot, f, -1 - to, 0, mc::fmt("link #%d.%d->#%d", slot, f, to)); }
  void op_encfree(int v) { add(O_ENCFREE, v, 0, 0, 0, mc::fmt("encode+free %s", vals[v].str().c_str())); }
  void op_copy(int s, int f, int s2, int f2) { add(O_COPY, s, f, s2, f2, mc::fmt("copy #%d.%d to #%d.%d", s, f, s2, f2)); }

  int nops() override { return ops.size(); }
  std::string opname(int o) override { return ops[o].name; }
  static bool sharable(const Val &v) {  // may be stored in two fields from one encoding
    switch (v.t) { case V_INT: return v.i >= -(1LL << 60) && v.i < (1LL << 60); case V_DBL: return false; case V_STR: return v.hasx || v.s.size() >= SHORTSTR_SIZE; }
    return true;
  }
  bool enabled(int o) override {
    Op &p = ops[o];
    switch (p.k) {
      case O_CREATE: case O_RAWCREATE: case O_SPECIAL: return free_slot() >= 0;
      case O_SET: return m.r[p.a].live && p.b < (int)m.r[p.a].f.size() && (p.c >= 0 || m.r[-1 - p.c].live);
      case O_DELETE: return m.r[p.a].live;
      case O_COPY: return m.r[p.a].live && m.r[p.c].live && p.b < (int)m.r[p.a].f.size() && p.d < (int)m.r[p.c].f.size() && sharable(m.r[p.a].f[p.b]);
      case O_ENCFREE: return true;
      default: return user_enabled(p);
    }
  }
  virtual bool user_enabled(Op &) { return false; }
  virtual void user_step(Op &) {}
  virtual void post_check() {}

  void step(int o) override { Op &p = ops[o]; apply(p); checkall(); }
  virtual void apply(Op &p) {
    switch (p.k) {
      case O_CREATE: case O_RAWCREATE: case O_SPECIAL: {
        int s = free_slot();
        void *r = p.k == O_CREATE ? wg_create_record(db, p.a) : p.k == O_RAWCREATE ? wg_create_raw_record(db, p.a) : p.b ? wg_create_object(db, p.a, 0, 1) : wg_create_array(db, p.a, 0, 1);
        MC_CHECK(r, "create-failed", "creating a record of %d fields failed", p.a);
        m.r[s].live = true; m.r[s].special = p.k == O_SPECIAL; m.r[s].off = (char *)r - (char *)dbmemseg(db); m.r[s].f.assign(p.a, Val());
        if (p.k == O_RAWCREATE && p.b) {}
        break; }
      case O_SET: {
        Val v = p.c >= 0 ? vals[p.c] : vRec(-1 - p.c);
        gint e = enc_val(db, v, v.t == V_REC ? ptr(v.i) : nullptr);
        MC_CHECK(e != WG_ILLEGAL, "encode-failed", "encoding %s failed", v.str().c_str());
        gint rc = (p.d == 1) ? wg_set_new_field(db, ptr(p.a), p.b, e) : wg_set_field(db, ptr(p.a), p.b, e);
        MC_CHECK(rc == 0, "set-failed", "setting #%d.%d to %s returned %ld", p.a, p.b, v.str().c_str(), (long)rc);
        m.r[p.a].f[p.b] = v; break; }
      case O_DELETE: {
        int refs = m.refs(p.a);
        gint rc = wg_delete_record(db, ptr(p.a));
        if (refs) { MC_CHECK(rc == -1, "delete-referenced", "deleting #%d returned %ld although %d fields refer to it", p.a, (long)rc, refs); nfail_expected++; }
        else { MC_CHECK(rc == 0, "delete-refused", "deleting the unreferenced #%d returned %ld", p.a, (long)rc); m.r[p.a].live = false; m.r[p.a].f.clear(); }
        break; }
      case O_COPY: {
        gint e = wg_get_field(db, ptr(p.a), p.b);
        gint rc = wg_set_field(db, ptr(p.c), p.d, e);
        MC_CHECK(rc == 0, "set-failed", "copying a field returned %ld", (long)rc);
        m.r[p.c].f[p.d] = m.r[p.a].f[p.b]; break; }
      case O_ENCFREE: {
        gint e = enc_val(db, vals[p.a]);
        MC_CHECK(e != WG_ILLEGAL, "encode-failed", "encoding %s failed", vals[p.a].str().c_str());
        Val got = dec_val(db, e);
        MC_CHECK(got == vals[p.a], "roundtrip", "encoded %s, decoded %s", vals[p.a].str().c_str(), got.str().c_str());
        gint rc = wg_free_encoded(db, e);
        MC_CHECK(rc == 0, "free-encoded", "wg_free_encoded returned %ld", (long)rc);
        break; }
      default: user_step(p);
    }
  }
  Val expect(const Val &v) { Val w = v; if (w.t == V_REC) w.i = m.r[v.i].off; return w; }
  void content() {
    std::map<std::string, gint> share;
    for (size_t s = 0; s < m.r.size(); s++) if (m.r[s].live) {
      void *p = ptr(s); gint len = wg_get_record_len(db, p);
      MC_CHECK(len == (gint)m.r[s].f.size(), "reclen", "record #%zu should have %zu fields but reports %ld", s, m.r[s].f.size(), (long)len);
      for (size_t f = 0; f < m.r[s].f.size(); f++) {
        gint e = wg_get_field(db, p, f); Val x = expect(m.r[s].f[f]), g = dec_val(db, e);
        MC_CHECK(wg_get_field_type(db, p, f) == x.t, "fieldtype", "#%zu.%zu should be %s, type is %ld", s, f, x.str().c_str(), (long)wg_get_field_type(db, p, f));
        MC_CHECK(g == x, "field", "#%zu.%zu should read %s but reads %s", s, f, x.str().c_str(), g.str().c_str());
        if (check_share && (x.t == V_STR || x.t == V_XML || x.t == V_URI || x.t == V_BLOB) && sharable(x) && !(x.t == V_STR && !x.hasx && x.s.size() < SHORTSTR_SIZE)) {
          std::string key = mc::fmt("%d/%d/%zu/", x.t, x.hasx, x.s.size()) + x.s + std::string(1, 0) + x.x;
          auto it = share.find(key);
          if (it == share.end()) share[key] = e; else MC_CHECK(it->second == e, "not-shared", "two fields holding %s do not share it", x.str().c_str());
        }
      }
      if (check_probe) {
        gint n = m.r[s].f.size();
        for (gint bad : {(gint)-1, n, n + 1, n + 7}) MC_CHECK(wg_get_field(db, p, bad) == WG_ILLEGAL, "range-get", "reading field %ld of a %ld-field record was not refused", (long)bad, (long)n);
      }
    }
    for (auto &a : share) for (auto &b : share) if (&a != &b) MC_CHECK(a.second != b.second, "confused", "different texts share one stored value");
  }
  void scan() {
    std::set<gint> seen; int n = 0;
    for (void *r = wg_get_first_record(db); r; r = wg_get_next_record(db, r)) {
      gint off = (char *)r - (char *)dbmemseg(db);
      MC_CHECK(is_expected(off), "scan-alien", "the scan yields %ld which is not a live record", (long)off);
      MC_CHECK(seen.insert(off).second, "scan-twice", "the scan yields a record twice");
      MC_CHECK(++n <= 100000, "scan-endless", "the scan does not end");
    }
    int want = m.ndata() + extra_live();
    MC_CHECK(n == want, "scan-missing", "the scan yields %d of %d live records", n, want);
  }
  virtual int extra_live() { return 0; }
  virtual bool is_expected(gint off) { int s = slot_of(off); return s >= 0 && !m.r[s].special; }
  void parents() {
    for (size_t s = 0; s < m.r.size(); s++) if (m.r[s].live) {
      std::multiset<int> want; for (size_t q = 0; q < m.r.size(); q++) if (m.r[q].live) for (auto &v : m.r[q].f) if (v.t == V_REC && v.i == (ll)s) want.insert(q);
      std::set<int> wset(want.begin(), want.end()); std::multiset<int> got; int n = 0;
      void *p = wg_get_first_parent(db, ptr(s));
      while (p) {
        int q = slot_of((char *)p - (char *)dbmemseg(db));
        MC_CHECK(q >= 0, "parent-dead", "parent iteration of #%zu yields something that is not a live record", s);
        MC_CHECK(wset.count(q), "parent-wrong", "parent iteration of #%zu yields #%d which does not refer to it", s, q);
        got.insert(q);
        MC_CHECK(++n <= (int)want.size(), "parent-endless", "parent iteration of #%zu yields more parents than there are references", s);
        p = wg_get_next_parent(db, ptr(s), p);
      }
      for (int q : wset) MC_CHECK(got.count(q), "parent-missing", "#%d refers to #%zu but parent iteration does not yield it", q, s);
    }
  }
  void probes() {   // refused calls change nothing
    mc::H128 h1 = mc::hash0(), h2 = mc::hash0(); img_hash(db, h1);
    for (size_t s = 0; s < m.r.size(); s++) if (m.r[s].live) {
      gint n = m.r[s].f.size();
      for (gint bad : {(gint)-1, n, n + 1}) {
        gint rc = wg_set_field(db, ptr(s), bad, wg_encode_int(db, 5)); MC_CHECK(rc < 0, "range-set", "writing field %ld of a %ld-field record returned %ld", (long)bad, (long)n, (long)rc);
      }
    }
    img_hash(db, h2); MC_CHECK(h1 == h2, "range-effect", "a refused write changed the database");
  }
  // deleting everything must release every piece of storage ever taken
  void teardown() {
    Image *im = img_save(db); Model mm = m;
    try {
      for (size_t s = 0; s < m.r.size(); s++) if (m.r[s].live) for (size_t f = 0; f < m.r[s].f.size(); f++) if (m.r[s].f[f].t == V_REC) { gint rc = wg_set_field(db, ptr(s), f, 0); MC_CHECK(rc == 0, "teardown-clear", "clearing a link returned %ld", (long)rc); m.r[s].f[f] = Val(); }
      for (size_t s = 0; s < m.r.size(); s++) if (m.r[s].live) { gint rc = wg_delete_record(db, ptr(s)); MC_CHECK(rc == 0, "teardown-delete", "deleting #%zu returned %ld", s, (long)rc); m.r[s].live = false; }
      HeapCount c; fsck(db, &c); auto as = areas(db);
      for (int i = 0; i < 10; i++) MC_CHECK(c.a[i].used == base.a[i].used, "leak", "after deleting everything %lld %s objects are in use instead of %lld", c.a[i].used, as[i].first, base.a[i].used);
      MC_CHECK(wg_get_first_record(db) == nullptr || extra_live(), "teardown-scan", "the scan is not empty after deleting everything");
    } catch (mc::Violation &) { img_restore(db, im); m = mm; delete im; throw; }
    img_restore(db, im); m = mm; delete im;
  }
  virtual void checkall() {
    if (check_content) content();
    if (check_scan) scan();
    if (check_parents) parents();
    if (check_probe) probes();
    if (check_fsck) { fsck(db); }
    post_check();
    if (check_teardown) teardown();
  }
  struct Snap { Image *i; Model m; };
  void *save() override { return new Snap{img_save(db), m}; }
  void restore(void *p) override { Snap *s = (Snap *)p; img_restore(db, s->i); m = s->m; }
  void drop(void *p) override { Snap *s = (Snap *)p; delete s->i; delete s; }
  void hash(mc::H128 &h) override { img_hash(db, h); m.hash(h); }
};
