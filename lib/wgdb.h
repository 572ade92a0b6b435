// The library under test plus helpers shared by all harnesses.
#pragma once
#include "mc.h"
#include <math.h>
#define class klass
extern "C" {
#include "Db/dballoc.h"
#include "Db/dbmem.h"
#include "Db/dbdata.h"
#include "Db/dbindex.h"
#include "Db/dbhash.h"
#include "Db/dbquery.h"
#include "Db/dbcompare.h"
#include "Db/dbschema.h"
#include "Db/dbjson.h"
#include "Db/dbutil.h"
#include "Db/dbdump.h"
#include "Db/dblog.h"
#include "Db/dblock.h"
#include "Db/dbmpool.h"
}
#undef class
#undef round
typedef long long ll;

// ---- malloc: fresh memory is poisoned so that use of uninitialised memory shows,
// and any allocation can be made to fail (link with --wrap=malloc,calloc,realloc,free)
#ifdef WRAP_MALLOC
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); }
namespace memctl { inline long live = 0, nalloc = 0, fail_at = -1, fail_from = -1; inline bool on = false; inline long biggest = 0;
  inline long &limit() { static long l = 0; return l; } }
extern "C" inline __attribute__((used)) void *__wrap_malloc(size_t n) {
  if (memctl::on) { long k = memctl::nalloc++; if (k == memctl::fail_at || (memctl::fail_from >= 0 && k >= memctl::fail_from)) return 0; if (memctl::limit() && (long)n > memctl::limit()) return 0; if ((long)n > memctl::biggest) memctl::biggest = n; }
  void *p = __real_malloc(n); if (p && memctl::on) memctl::live++; if (p && n < (64u << 20)) memset(p, 0xA5, n); return p;
}
extern "C" inline __attribute__((used)) void *__wrap_calloc(size_t a, size_t b) {
  if (memctl::on) { long k = memctl::nalloc++; if (k == memctl::fail_at || (memctl::fail_from >= 0 && k >= memctl::fail_from)) return 0; }
  void *p = __real_calloc(a, b); if (p && memctl::on) memctl::live++; return p;
}
extern "C" inline __attribute__((used)) void *__wrap_realloc(void *p, size_t n) {
  if (memctl::on) { long k = memctl::nalloc++; if (k == memctl::fail_at || (memctl::fail_from >= 0 && k >= memctl::fail_from)) return 0; }
  void *q = __real_realloc(p, n); if (q && !p && memctl::on) memctl::live++; return q;
}
extern "C" inline __attribute__((used)) void __wrap_free(void *p) { if (p && memctl::on) memctl::live--; __real_free(p); }
#endif

// ---------------------------------------------------------------- memory image
struct Image { std::vector<char> b; gint free; };
inline db_memsegment_header *HDR(void *db) { return dbmemsegh(db); }
inline Image *img_save(void *db) { Image *i = new Image; i->free = HDR(db)->free; i->b.resize(i->free); memcpy(i->b.data(), HDR(db), i->free); return i; }
inline void img_restore(void *db, Image *i) {
  gint cur = HDR(db)->free; gint size = *(gint *)((char *)i->b.data() + offsetof(db_memsegment_header, size));
  memcpy((void *)HDR(db), i->b.data(), i->free);
  if (cur < 0 || cur > size) cur = size;
  if (cur > i->free) memset((char *)HDR(db) + i->free, 0xA5, cur - i->free);
}
inline void img_hash(void *db, mc::H128 &h) { mc::hash_mem(h, (void *)HDR(db), HDR(db)->free); }

// ---------------------------------------------------------------- values
enum VT { V_NULL = WG_NULLTYPE, V_REC = WG_RECORDTYPE, V_INT = WG_INTTYPE, V_DBL = WG_DOUBLETYPE, V_STR = WG_STRTYPE, V_XML = WG_XMLLITERALTYPE,
  V_URI = WG_URITYPE, V_BLOB = WG_BLOBTYPE, V_CHAR = WG_CHARTYPE, V_FIX = WG_FIXPOINTTYPE, V_DATE = WG_DATETYPE, V_TIME = WG_TIMETYPE, V_VAR = WG_VARTYPE };
struct Val {
  int t = V_NULL; ll i = 0; double d = 0; std::string s; bool hasx = false; std::string x;
  bool operator==(const Val &o) const {
    if (t != o.t) return false;
    switch (t) { case V_NULL: return true; case V_DBL: return memcmp(&d, &o.d, 8) == 0; case V_FIX: return fabs(d - o.d) < 1e-9;
      case V_STR: case V_XML: case V_URI: case V_BLOB: return s == o.s && hasx == o.hasx && x == o.x; default: return i == o.i; }
  }
  bool operator!=(const Val &o) const { return !(*this == o); }
  void hash(mc::H128 &h) const { mc::hash_u64(h, t); mc::hash_u64(h, i); mc::hash_mem(h, &d, 8); mc::hash_str(h, s); mc::hash_u64(h, hasx); mc::hash_str(h, x); }
  std::string str() const {
    switch (t) { case V_NULL: return "null"; case V_REC: return mc::fmt("rec#%lld", i); case V_INT: return mc::fmt("int %lld", i); case V_DBL: return mc::fmt("dbl %.17g", d); case V_FIX: return mc::fmt("fix %g", d);
      case V_CHAR: return mc::fmt("char %lld", i); case V_DATE: return mc::fmt("date %lld", i); case V_TIME: return mc::fmt("time %lld", i); case V_VAR: return mc::fmt("var %lld", i); }
    const char *n = t == V_STR ? "str" : t == V_XML ? "xml" : t == V_URI ? "uri" : "blob";
    std::string e; for (unsigned char c : s.substr(0, 24)) { if (c >= 32 && c < 127) e += c; else e += mc::fmt("\\x%02x", c); }
    return mc::fmt("%s[%zu]'%s%s'%s%s", n, s.size(), e.c_str(), s.size() > 24 ? ".." : "", hasx ? "/" : "", hasx ? x.substr(0, 16).c_str() : "");
  }
};
inline Val vNull() { return Val(); }
inline Val vInt(ll i) { Val v; v.t = V_INT; v.i = i; return v; }
inline Val vDbl(double d) { Val v; v.t = V_DBL; v.d = d; return v; }
inline Val vFix(double d) { Val v; v.t = V_FIX; v.d = d; return v; }
inline Val vChar(int c) { Val v; v.t = V_CHAR; v.i = c; return v; }
inline Val vDate(int c) { Val v; v.t = V_DATE; v.i = c; return v; }
inline Val vTime(int c) { Val v; v.t = V_TIME; v.i = c; return v; }
inline Val vVar(ll c) { Val v; v.t = V_VAR; v.i = c; return v; }
inline Val vRec(ll c) { Val v; v.t = V_REC; v.i = c; return v; }
inline Val vTxt(int t, const std::string &s) { Val v; v.t = t; v.s = s; return v; }
inline Val vTxt(int t, const std::string &s, const std::string &x) { Val v; v.t = t; v.s = s; v.hasx = true; v.x = x; return v; }
inline Val vStr(const std::string &s) { return vTxt(V_STR, s); }

// encode (rec: pointer of the referenced record)
inline gint enc_val(void *db, const Val &v, void *rec = nullptr) {
  const char *x = v.hasx ? v.x.c_str() : NULL;
  switch (v.t) {
    case V_NULL: return wg_encode_null(db, NULL);
    case V_INT: return wg_encode_int(db, v.i);
    case V_DBL: return wg_encode_double(db, v.d);
    case V_FIX: return wg_encode_fixpoint(db, v.d);
    case V_CHAR: return wg_encode_char(db, (char)v.i);
    case V_DATE: return wg_encode_date(db, v.i);
    case V_TIME: return wg_encode_time(db, v.i);
    case V_VAR: return wg_encode_var(db, v.i);
    case V_STR: return wg_encode_str(db, v.s.c_str(), (char *)x);
    case V_XML: return wg_encode_xmlliteral(db, v.s.c_str(), x);
    case V_URI: return wg_encode_uri(db, v.s.c_str(), x);
    case V_BLOB: return wg_encode_blob(db, v.s.data(), x, v.s.size());
    case V_REC: return wg_encode_record(db, rec);
  }
  abort();
}
inline gint enc_param(void *db, const Val &v, void *rec = nullptr) {
  const char *x = v.hasx ? v.x.c_str() : NULL;
  switch (v.t) {
    case V_NULL: return wg_encode_query_param_null(db, NULL);
    case V_INT: return wg_encode_query_param_int(db, v.i);
    case V_DBL: return wg_encode_query_param_double(db, v.d);
    case V_FIX: return wg_encode_query_param_fixpoint(db, v.d);
    case V_CHAR: return wg_encode_query_param_char(db, (char)v.i);
    case V_DATE: return wg_encode_query_param_date(db, v.i);
    case V_TIME: return wg_encode_query_param_time(db, v.i);
    case V_VAR: return wg_encode_query_param_var(db, v.i);
    case V_STR: return wg_encode_query_param_str(db, v.s.c_str(), x);
    case V_XML: return wg_encode_query_param_xmlliteral(db, v.s.c_str(), x);
    case V_URI: return wg_encode_query_param_uri(db, v.s.c_str(), x);
    case V_REC: return wg_encode_query_param_record(db, rec);
  }
  return WG_ILLEGAL;
}
// decode; record pointers come back as segment offsets in .i
inline Val dec_val(void *db, gint e) {
  Val v; gint t = wg_get_encoded_type(db, e); v.t = (int)t; char *p, *x = 0; gint n;
  switch (t) {
    case V_NULL: break;
    case V_INT: v.i = wg_decode_int(db, e); break;
    case V_DBL: v.d = wg_decode_double(db, e); break;
    case V_FIX: v.d = wg_decode_fixpoint(db, e); break;
    case V_CHAR: v.i = wg_decode_char(db, e); break;
    case V_DATE: v.i = wg_decode_date(db, e); break;
    case V_TIME: v.i = wg_decode_time(db, e); break;
    case V_VAR: v.i = wg_decode_var(db, e); break;
    case V_REC: { void *r = wg_decode_record(db, e); v.i = r ? (char *)r - (char *)dbmemseg(db) : -1; break; }
    case V_STR: p = wg_decode_str(db, e); n = wg_decode_str_len(db, e); x = wg_decode_str_lang(db, e); goto txt;
    case V_XML: p = wg_decode_xmlliteral(db, e); n = wg_decode_xmlliteral_len(db, e); x = wg_decode_xmlliteral_xsdtype(db, e); goto txt;
    case V_URI: p = wg_decode_uri(db, e); n = wg_decode_uri_len(db, e); x = wg_decode_uri_prefix(db, e); goto txt;
    case V_BLOB: p = wg_decode_blob(db, e); n = wg_decode_blob_len(db, e); x = wg_decode_blob_type(db, e);
    txt:
      if (!p) mc::fail("decode-null", mc::fmt("decoding type %ld gives no text", (long)t));
      if (n < 0 || n > (1 << 26)) mc::fail("decode-len", mc::fmt("decoding type %ld gives length %ld", (long)t, (long)n));
      v.s.assign(p, n); if (t != V_BLOB && p[n] != 0) mc::fail("decode-term", "text is not terminated at its length");
      if (t != V_BLOB && strlen(p) != (size_t)n) mc::fail("decode-len2", mc::fmt("text length %zu but length call says %ld", strlen(p), (long)n));
      if (x) { v.hasx = true; v.x = x; }
      break;
    default: mc::fail("bad-type", mc::fmt("encoded value %lx has unknown type %ld", (long)e, (long)t));
  }
  return v;
}

// ---------------------------------------------------------------- structural check of the storage areas
struct AreaCount { ll used = 0, free = 0, usedbytes = 0; };
struct HeapCount { AreaCount a[10]; };
inline std::vector<std::pair<const char *, db_area_header *>> areas(void *db) {
  db_memsegment_header *h = HDR(db);
  return {{"datarec", &h->datarec_area_header}, {"longstr", &h->longstr_area_header}, {"listcell", &h->listcell_area_header}, {"shortstr", &h->shortstr_area_header},
          {"word", &h->word_area_header}, {"doubleword", &h->doubleword_area_header}, {"tnode", &h->tnode_area_header}, {"indexhdr", &h->indexhdr_area_header},
          {"indextmpl", &h->indextmpl_area_header}, {"indexhash", &h->indexhash_area_header}};
}
#define FETCH(o) (*(gint *)((char *)HDR(db) + (o)))
// Walks every storage area: the blocks tile each subarea exactly, no object overlaps another,
// free blocks are listed exactly once and never adjacent, fixed-size free lists are acyclic.
inline void fsck(void *db, HeapCount *hc = nullptr, std::vector<std::pair<gint, gint>> *recs = nullptr) {
  db_memsegment_header *h = HDR(db); int ai = 0; gint G = sizeof(gint);
  MC_CHECK(h->free > 0 && h->free <= h->size, "fsck-free", "segment free pointer %ld outside segment of size %ld", (long)h->free, (long)h->size);
  for (auto &ar : areas(db)) {
    db_area_header *a = ar.second; AreaCount c; const char *nm = ar.first;
    MC_CHECK(a->last_subarea_index >= 0 && a->last_subarea_index < SUBAREA_ARRAY_SIZE, "fsck-subarea", "%s: bad subarea index", nm);
    std::vector<std::pair<gint, gint>> sub;
    for (int i = 0; i <= a->last_subarea_index; i++) {
      db_subarea_header *s = &a->subarea_array[i];
      if (s->size == 0 && a->last_subarea_index == 0) continue; // never populated
      MC_CHECK(s->offset > 0 && s->offset + s->size <= h->free && s->alignedoffset >= s->offset && s->alignedoffset % 8 == 0 && s->alignedoffset + s->alignedsize <= s->offset + s->size, "fsck-subarea2", "%s: subarea %d outside segment", nm, i);
      sub.push_back({s->alignedoffset, s->alignedoffset + s->alignedsize});
    }
    if (a->fixedlength) {
      ll total = 0; for (auto &s : sub) total += (s.second - s.first) / a->objlength;
      std::unordered_set<gint> fl; gint p = a->freelist;
      while (p) {
        bool in = false; for (auto &s : sub) if (p >= s.first && p + a->objlength <= s.second && (p - s.first) % a->objlength == 0) in = true;
        MC_CHECK(in, "fsck-fixfree", "%s: free list points outside the area (%ld)", nm, (long)p);
        MC_CHECK(fl.insert(p).second, "fsck-fixcycle", "%s: free list contains an object twice", nm);
        p = FETCH(p);
      }
      c.free = fl.size(); c.used = total - c.free;
    } else {
      std::unordered_map<gint, gint> frees; gint dvseen = 0; gint dv = a->freebuckets[DVBUCKET], dvsize = a->freebuckets[DVSIZEBUCKET];
      for (auto &s : sub) {
        gint o = s.first; gint hd = FETCH(o);
        MC_CHECK(isspecialusedobject(hd), "fsck-start", "%s: start marker missing", nm);
        o += getspecialusedobjectsize(hd); bool prevfree = false; bool end = false;
        while (!end) {
          MC_CHECK(o > s.first && o + 2 * G <= s.second, "fsck-walk", "%s: block walk leaves the subarea at %ld", nm, (long)o);
          hd = FETCH(o); gint sz;
          if (isfreeobject(hd)) {
            sz = getfreeobjectsize(hd);
            MC_CHECK(!prevfree, "fsck-adjacent", "%s: two adjacent free blocks were not merged at %ld", nm, (long)o);
            MC_CHECK(sz >= MIN_VARLENOBJ_SIZE && o + sz <= s.second, "fsck-freesize", "%s: free block of bad size %ld", nm, (long)sz);
            MC_CHECK(FETCH(o + sz - G) == hd, "fsck-foot", "%s: size at the end of a free block differs", nm);
            frees[o] = sz; prevfree = true; c.free++;
          } else if (isspecialusedobject(hd)) {
            sz = getspecialusedobjectsize(hd);
            if (FETCH(o + G) == SPECIALGINT1DV && o == dv) {
              MC_CHECK(sz == dvsize, "fsck-dvsize", "%s: designated block size %ld recorded as %ld", nm, (long)sz, (long)dvsize);
              MC_CHECK(!prevfree, "fsck-adjacent2", "%s: free block before the designated block was not merged", nm);
              dvseen++; prevfree = false;
            } else { end = true; MC_CHECK(FETCH(o + G) == SPECIALGINT1END, "fsck-end", "%s: unknown special object at %ld", nm, (long)o); MC_CHECK(o + sz <= s.second, "fsck-end2", "%s: end marker outside", nm); }
          } else {
            sz = getusedobjectsize(hd);
            MC_CHECK(sz >= MIN_VARLENOBJ_SIZE && o + sz <= s.second, "fsck-usedsize", "%s: used block of bad size %ld", nm, (long)sz);
            MC_CHECK(isnormalusedobjectprevfree(hd) ? prevfree : !prevfree, "fsck-prevbit", "%s: block at %ld has a wrong predecessor mark", nm, (long)o);
            c.used++; c.usedbytes += sz; prevfree = false;
            if (recs && ai == 0) recs->push_back({o, hd});
          }
          o += sz;
        }
      }
      MC_CHECK((dv != 0) == (dvseen == 1), "fsck-dv", "%s: designated block recorded %ld but found %ld times", nm, (long)dv, (long)dvseen);
      size_t listed = 0;
      for (int b = 0; b < EXACTBUCKETS_NR + VARBUCKETS_NR; b++) {
        gint p = a->freebuckets[b]; gint prev = (char *)&a->freebuckets[b] - (char *)h;
        while (p) {
          auto it = frees.find(p);
          MC_CHECK(it != frees.end(), "fsck-bucket", "%s: free list %d holds something that is not a free block (%ld)", nm, b, (long)p);
          MC_CHECK(FETCH(p + 2 * G) == prev, "fsck-backptr", "%s: broken back pointer in free list %d", nm, b);
          listed++; MC_CHECK(listed <= frees.size(), "fsck-cycle", "%s: free list %d is cyclic or a block is in two lists", nm, b);
          MC_CHECK(b >= EXACTBUCKETS_NR || it->second == b, "fsck-exact", "%s: block of size %ld in the list for size %d", nm, (long)it->second, b);
          prev = p; p = FETCH(p + G);
        }
      }
      MC_CHECK(listed == frees.size(), "fsck-unlisted", "%s: %zu free blocks but %zu in the free lists", nm, frees.size(), listed);
    }
    if (hc) hc->a[ai] = c;
    ai++;
  }
}
