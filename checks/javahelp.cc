// Part of the library loaded by the Java binding for C38: probes for the explorer (Jx.java) and stand-ins for named
// (shared memory) databases, which are kept as local ones here.
#include "pyhelp.cc"
#include <jni.h>
#include <map>
static std::map<std::string, void *> named; static std::string calls; static bool refuse;
extern "C" {
void *__wrap_wg_attach_database(char *n, gint size) {
  calls += mc::fmt("attach(%s,%ld)", n ? n : "NULL", (long)size); if (refuse) return 0;
  std::string k = n ? n : "1000"; if (!named.count(k)) { void *d = wg_attach_local_database(size ? size : 300000); if (!d) return 0; named[k] = d; } return named[k]; }
int __wrap_wg_detach_database(void *d) { bool known = false; for (auto &x : named) known |= x.second == d; calls += known ? "detach" : d ? "detach?" : "detach0"; return known ? 0 : -1; }
int __wrap_wg_delete_database(char *n) { calls += mc::fmt("delete(%s)", n ? n : "NULL"); std::string k = n ? n : "1000"; if (!named.count(k)) return -1; wg_delete_local_database(named[k]); named.erase(k); return 0; }
#define JF(t, n) JNIEXPORT t JNICALL Java_Probe_##n
JF(jlong, live)(JNIEnv *, jclass) { return vp_live(); }
JF(void, failat)(JNIEnv *, jclass, jlong k) { vp_failat(k); }
JF(void, watch)(JNIEnv *, jclass) { vp_watch(1); }
JF(jlong, lock)(JNIEnv *, jclass, jlong d) { return vp_lock((void *)d); }
JF(jstring, fsck)(JNIEnv *e, jclass, jlong d) { long long c[20]; const char *m = vp_fsck((void *)d, c); std::string r = *m ? m : ""; if (!*m) { r = "="; for (int i = 0; i < 20; i++) r += mc::fmt("%lld ", c[i]); } return e->NewStringUTF(r.c_str()); }
JF(jlong, hash)(JNIEnv *, jclass, jlong d) { mc::H128 h{1, 2}; img_hash((void *)d, h); return h.a ^ h.b; }
JF(jstring, calls)(JNIEnv *e, jclass) { jstring r = e->NewStringUTF(calls.c_str()); calls.clear(); return r; }
JF(void, refuse)(JNIEnv *, jclass, jboolean r) { refuse = r; }
JF(jint, type)(JNIEnv *, jclass, jlong d, jlong r, jint f) { return vp_type((void *)d, (void *)r, f); }
}
