// Reference model of JSON documents and the record structure that stores them.
#pragma once
#include "wgdb.h"
enum JK { J_INT, J_DBL, J_STR, J_ARR, J_OBJ, J_NULL, J_TRUE, J_FALSE };
struct J {
  JK k = J_INT; ll i = 0; double d = 0; std::string s; std::vector<J> a; std::vector<std::string> key;
  bool scalar() const { return k != J_ARR && k != J_OBJ; }
  bool operator==(const J &o) const {
    if (k != o.k) return false;
    switch (k) { case J_INT: return i == o.i; case J_DBL: return d == o.d; case J_STR: return s == o.s; case J_ARR: return a == o.a; case J_OBJ: return key == o.key && a == o.a; default: return true; }
  }
  bool operator!=(const J &o) const { return !(*this == o); }
  std::string text() const {
    switch (k) {
      case J_INT: return mc::fmt("%lld", i); case J_DBL: { std::string r = mc::fmt("%.17g", d); if (r.find_first_of(".en") == std::string::npos) r += ".0"; return r; }
      case J_NULL: return "null"; case J_TRUE: return "true"; case J_FALSE: return "false";
      case J_STR: return quote(s);
      case J_ARR: { std::string r = "["; for (size_t n = 0; n < a.size(); n++) r += (n ? "," : "") + a[n].text(); return r + "]"; }
      case J_OBJ: { std::string r = "{"; for (size_t n = 0; n < a.size(); n++) r += (n ? "," : "") + quote(key[n]) + ":" + a[n].text(); return r + "}"; }
    }
    abort();
  }
  static std::string quote(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c == 127) r += mc::fmt("\\u%04x", c); else r += c; }
    return r + "\"";
  }
  int nodes() const { int n = 1; for (auto &x : a) n += x.nodes(); return n; }
};
inline J jI(ll i) { J j; j.k = J_INT; j.i = i; return j; }
inline J jD(double d) { J j; j.k = J_DBL; j.d = d; return j; }
inline J jS(const std::string &s) { J j; j.k = J_STR; j.s = s; return j; }
inline J jA(std::vector<J> v) { J j; j.k = J_ARR; j.a = v; return j; }
inline J jO(std::vector<std::pair<std::string, J>> v) { J j; j.k = J_OBJ; for (auto &p : v) { j.key.push_back(p.first); j.a.push_back(p.second); } return j; }
// A small independent JSON reader (strict; comments not needed), false on malformed text.
struct JReader {
  const char *p, *e; bool bad = false; bool ctl = false;
  void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++; }
  static void utf8(std::string &o, unsigned c) { if (c < 0x80) o += c; else if (c < 0x800) { o += 0xC0 | c >> 6; o += 0x80 | (c & 63); } else if (c < 0x10000) { o += 0xE0 | c >> 12; o += 0x80 | (c >> 6 & 63); o += 0x80 | (c & 63); } else { o += 0xF0 | c >> 18; o += 0x80 | (c >> 12 & 63); o += 0x80 | (c >> 6 & 63); o += 0x80 | (c & 63); } }
  int hex4() { int v = 0; for (int k = 0; k < 4; k++) { if (p >= e || !isxdigit((unsigned char)*p)) { bad = true; return 0; } v = v * 16 + (isdigit((unsigned char)*p) ? *p - '0' : (tolower(*p) - 'a' + 10)); p++; } return v; }
  std::string str() {
    std::string o; if (p >= e || *p != '"') { bad = true; return o; } p++;
    while (p < e && *p != '"' && !bad) {
      unsigned char c = *p++;
      if (c < 32) { bad = true; return o; }
      if (c != '\\') { o += c; continue; }
      if (p >= e) { bad = true; return o; }
      c = *p++;
      switch (c) { case '"': case '\\': case '/': o += c; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
        case 'u': { unsigned v = hex4(); if (v >= 0xD800 && v < 0xDC00 && p + 1 < e && p[0] == '\\' && p[1] == 'u') { const char *q = p; p += 2; unsigned w = hex4(); if (w >= 0xDC00 && w < 0xE000) v = 0x10000 + ((v & 0x3FF) << 10) + (w & 0x3FF); else p = q; } utf8(o, v); break; }
        default: bad = true; }
    }
    if (p >= e) { bad = true; return o; } p++; return o;
  }
  J val(int depth = 0) {
    J j; ws(); if (p >= e || depth > 200) { bad = true; return j; }
    if (*p == '{') { j.k = J_OBJ; p++; ws(); if (p < e && *p == '}') { p++; return j; }
      for (;;) { ws(); std::string k = str(); if (bad) return j; ws(); if (p >= e || *p != ':') { bad = true; return j; } p++; j.key.push_back(k); j.a.push_back(val(depth + 1)); if (bad) return j; ws(); if (p < e && *p == ',') { p++; continue; } if (p < e && *p == '}') { p++; return j; } bad = true; return j; } }
    if (*p == '[') { j.k = J_ARR; p++; ws(); if (p < e && *p == ']') { p++; return j; }
      for (;;) { j.a.push_back(val(depth + 1)); if (bad) return j; ws(); if (p < e && *p == ',') { p++; continue; } if (p < e && *p == ']') { p++; return j; } bad = true; return j; } }
    if (*p == '"') { j.k = J_STR; j.s = str(); return j; }
    for (auto &l : {std::make_pair("null", J_NULL), std::make_pair("true", J_TRUE), std::make_pair("false", J_FALSE)}) { size_t n = strlen(l.first); if ((size_t)(e - p) >= n && !memcmp(p, l.first, n)) { p += n; j.k = l.second; return j; } }
    const char *s = p; bool dbl = false; if (p < e && *p == '-') p++;
    if (p >= e || !isdigit((unsigned char)*p)) { bad = true; return j; }
    if (*p == '0') p++; else while (p < e && isdigit((unsigned char)*p)) p++;
    if (p < e && *p == '.') { dbl = true; p++; if (p >= e || !isdigit((unsigned char)*p)) { bad = true; return j; } while (p < e && isdigit((unsigned char)*p)) p++; }
    if (p < e && (*p == 'e' || *p == 'E')) { dbl = true; p++; if (p < e && (*p == '+' || *p == '-')) p++; if (p >= e || !isdigit((unsigned char)*p)) { bad = true; return j; } while (p < e && isdigit((unsigned char)*p)) p++; }
    std::string t(s, p - s); if (dbl) { j.k = J_DBL; j.d = strtod(t.c_str(), 0); } else { j.k = J_INT; errno = 0; j.i = strtoll(t.c_str(), 0, 10); if (errno) ctl = true; } return j;
  }
};
inline bool jparse(const std::string &s, J &out) { JReader r{s.data(), s.data() + s.size()}; out = r.val(); r.ws(); return !r.bad && r.p == r.e; }
// ---- the stored structure
struct JRecs { std::vector<void *> all, kv, arr; };
inline J jread(void *db, gint enc, JRecs *rs = nullptr, int depth = 0);
inline J jreadrec(void *db, void *rec, JRecs *rs = nullptr, int depth = 0) {
  MC_CHECK(depth < 40, "json-cycle", "document structure is too deep");
  if (rs) rs->all.push_back(rec);
  J j; int n = wg_get_record_len(db, rec); gint *r = (gint *)rec;
  MC_CHECK(n >= 0, "json-len", "record length %d", n);
  if (is_schema_array(r)) { MC_CHECK(!is_schema_object(r), "json-both", "record is both array and object"); j.k = J_ARR; if (rs) rs->arr.push_back(rec); for (int k = 0; k < n; k++) j.a.push_back(jread(db, wg_get_field(db, rec, k), rs, depth + 1)); }
  else if (is_schema_object(r)) {
    j.k = J_OBJ;
    for (int k = 0; k < n; k++) {
      gint e = wg_get_field(db, rec, k); MC_CHECK(wg_get_encoded_type(db, e) == WG_RECORDTYPE, "json-member", "object member is not a record (type %ld)", (long)wg_get_encoded_type(db, e));
      void *kv = wg_decode_record(db, e); MC_CHECK(wg_get_record_len(db, kv) == 3 && !is_schema_array((gint *)kv) && !is_schema_object((gint *)kv), "json-kv", "object member is not a key-value row");
      if (rs) { rs->all.push_back(kv); rs->kv.push_back(kv); }
      MC_CHECK(wg_get_field_type(db, kv, 0) == WG_NULLTYPE && wg_get_field_type(db, kv, 1) == WG_STRTYPE, "json-kv2", "key-value row of wrong form");
      j.key.push_back(wg_decode_str(db, wg_get_field(db, kv, 1))); j.a.push_back(jread(db, wg_get_field(db, kv, 2), rs, depth + 1));
    }
  } else mc::fail("json-plain", "value record is neither array nor object");
  return j;
}
inline J jread(void *db, gint e, JRecs *rs, int depth) {
  Val v; if (wg_get_encoded_type(db, e) == WG_RECORDTYPE) return jreadrec(db, wg_decode_record(db, e), rs, depth);
  v = dec_val(db, e); J j;
  switch (v.t) { case V_INT: j.k = J_INT; j.i = v.i; break; case V_DBL: j.k = J_DBL; j.d = v.d; break; case V_STR: j.k = J_STR; j.s = v.s; break; case V_NULL: j.k = J_NULL; break; default: mc::fail("json-type", "stored value " + v.str()); }
  return j;
}
