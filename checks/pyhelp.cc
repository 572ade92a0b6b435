// Part of the Python module built for C34: probes the driver calls through ctypes, inside the same shared object.
#define WRAP_MALLOC
#include "mc.h"
#include "wgdb.h"
#include <climits>
extern "C" {
// "" when every storage area is intact, else what is wrong; cnt receives the number of used objects and bytes per area
const char *vp_fsck(void *db, long long *cnt) {
  static std::string msg;
  try { HeapCount h; fsck(db, &h); for (int i = 0; i < 10; i++) { cnt[2 * i] = h.a[i].used; cnt[2 * i + 1] = h.a[i].usedbytes; } msg = ""; }
  catch (mc::Violation &v) { msg = v.sig + ": " + v.msg; }
  return msg.c_str();
}
// 0 when nobody holds or waits for the database lock
long long vp_lock(void *db) {
  db_memsegment_header *h = HDR(db);
#if LOCK_PROTO == 3
  gint q = *(gint *)((char *)h + h->locks.queue_lock); return (h->locks.tail != 0 ? 1 : 0) | (q & 0xffff ? 2 : 0);
#else
  return *(gint *)((char *)h + h->locks.global_lock) & 0xffffffff;
#endif
}
int vp_proto(void) { return LOCK_PROTO; }
void vp_watch(int on) { memctl::on = on; }
void vp_failat(long k) { memctl::fail_at = k < 0 ? -1 : memctl::nalloc + k; }
long vp_live(void) { return memctl::live; }
long vp_cmp(void *db, gint a, gint b) { return a == b ? WG_EQUAL : WG_COMPARE(db, a, b); }
// description of a field: type and the extra string of a text
int vp_type(void *db, void *rec, gint f) { gint e = wg_get_field(db, rec, f); return wg_get_encoded_type(db, e); }
const char *vp_ext(void *db, void *rec, gint f) {
  gint e = wg_get_field(db, rec, f); gint t = wg_get_encoded_type(db, e);
  const char *x = t == WG_STRTYPE ? wg_decode_str_lang(db, e) : t == WG_URITYPE ? wg_decode_uri_prefix(db, e) : t == WG_XMLLITERALTYPE ? wg_decode_xmlliteral_xsdtype(db, e) : NULL;
  return x;
}
}
