// Reference order of values, written from the documentation: types in the order of their
// codes; numbers by value, texts byte-wise (qualifiers of URI and XML first; a missing
// qualifier equals an empty one; language tags and blob types are not significant),
// records by length and then field by field, to the supported depth.
#pragma once
#include "wgdb.h"
inline int sgn(ll x) { return x < 0 ? -1 : x > 0; }
inline int bytecmp(const std::string &a, const std::string &b) { size_t n = std::min(a.size(), b.size()); int r = n ? memcmp(a.data(), b.data(), n) : 0; return r ? (r < 0 ? -1 : 1) : sgn((ll)a.size() - (ll)b.size()); }
inline int dblcmp(double a, double b) { bool na = a != a, nb = b != b; if (na || nb) return (int)na - (int)nb; return a < b ? -1 : a > b; }
typedef std::function<const std::vector<Val> &(ll)> RecOf;
inline int vcmp(const Val &a, const Val &b, const RecOf &rec = nullptr, int depth = 7) {
  if (a.t != b.t) return a.t < b.t ? -1 : 1;
  switch (a.t) {
    case V_NULL: return 0;
    case V_INT: case V_DATE: case V_TIME: case V_VAR: return a.i < b.i ? -1 : a.i > b.i;
    case V_CHAR: return sgn((int)(unsigned char)a.i - (int)(unsigned char)b.i);
    case V_DBL: return dblcmp(a.d, b.d);
    case V_FIX: return dblcmp(a.d, b.d);
    case V_STR: case V_BLOB: return bytecmp(a.s, b.s);
    case V_URI: case V_XML: { int r = bytecmp(a.hasx ? a.x : "", b.hasx ? b.x : ""); return r ? r : bytecmp(a.s, b.s); }
    case V_REC: {
      if (a.i == b.i) return 0; if (!rec || !depth) return 2; // unspecified but not equal
      const std::vector<Val> &x = rec(a.i), &y = rec(b.i); if (x.size() != y.size()) return x.size() < y.size() ? -1 : 1;
      for (size_t i = 0; i < x.size(); i++) { int r = vcmp(x[i], y[i], rec, depth - 1); if (r) return r; }
      return 0; }
  }
  return 0;
}
inline bool vsat(int c, gint cond) { return cond == WG_COND_EQUAL ? c == 0 : cond == WG_COND_NOT_EQUAL ? c != 0 : cond == WG_COND_LESSTHAN ? c < 0 : cond == WG_COND_GREATER ? c > 0 : cond == WG_COND_LTEQUAL ? c <= 0 : c >= 0; }
static const gint CONDS[] = {WG_COND_EQUAL, WG_COND_NOT_EQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_LTEQUAL, WG_COND_GTEQUAL};
static const char *CONDN[] = {"=", "!=", "<", ">", "<=", ">="};
