// C36: every public call with each invalid handle or argument, in several database states: error value, no crash, nothing changed, no lock held.
#include <climits>
#include <csetjmp>
#include <csignal>
#include <functional>
#include "mc.h"
#include "wgdb.h"
extern "C" {
#include "dbjson.h"
#include "dbschema.h"
#include "dbutil.h"
#include "dbdump.h"
#include "dblock.h"
#include "dbmpool.h"
}
using namespace mc;
static void *db, *badh[4]; static sigjmp_buf jb; static volatile bool armed = false;
static void onsegv(int s) { if (armed) { armed = false; siglongjmp(jb, s); } signal(s, SIG_DFL); raise(s); }
static int ival[8]; static char buf[256]; static gint cols[4] = {0, 1, 2, 3}; static void *docp;
static std::string I(gint v) { return std::to_string((long)v); }
static std::string P(const void *p) { return p ? "ptr" : "NULL"; }
static std::string R(double d) { return fmt("%g", d); }
struct St { void *r, *r0, *doc; gint e_int, e_full, e_dbl, e_str, e_lstr, e_uri, e_xml, e_blob, e_char, e_date, e_time, e_fix, e_var, e_rec; gint ix; gint lock; wg_query *q; wg_query_arg *arg; } S;
struct Call { std::string n; std::function<std::string(void *)> f; std::string want; };
static std::string guarded(std::function<std::string()> f) {
  int s = sigsetjmp(jb, 1); if (s) return fmt("crash(%d)", s);
  armed = true; std::string r = f(); armed = false; return r;
}
#define C(expr, conv, want) v.push_back({#expr, [](void *d) -> std::string { return conv(expr); }, want})
#define CV(expr) v.push_back({#expr, [](void *d) -> std::string { expr; return "void"; }, "void"})
static std::vector<Call> handlecalls() {
  std::vector<Call> v;
  C(wg_database_freesize(d), I, "0|-1"); C(wg_database_size(d), I, "0|-1"); 
  C(wg_create_record(d, 2), P, "NULL"); C(wg_create_raw_record(d, 2), P, "NULL"); C(wg_delete_record(d, S.r), I, "-2|-1");
  C(wg_get_first_record(d), P, "NULL"); C(wg_get_next_record(d, S.r0), P, "NULL"); C(wg_get_first_raw_record(d), P, "NULL"); C(wg_get_next_raw_record(d, S.r0), P, "NULL");
  C(wg_get_first_parent(d, S.r0), P, "NULL"); C(wg_get_next_parent(d, S.r0, S.r), P, "NULL");
  C(wg_get_record_len(d, S.r), I, "-1"); C(wg_get_record_dataarray(d, S.r), P, "NULL");
  C(wg_set_field(d, S.r, 0, 0), I, "-1"); C(wg_set_field(d, S.r, 0, S.e_str), I, "-1"); C(wg_set_new_field(d, S.r, 3, 0), I, "-1"); C(wg_set_new_field(d, S.r, 3, S.e_rec), I, "-1"); C(wg_set_int_field(d, S.r, 0, 7), I, "-1"); C(wg_set_double_field(d, S.r, 0, 7.5), I, "-1"); C(wg_set_str_field(d, S.r, 0, (char *)"abc"), I, "-1");
  C(wg_update_atomic_field(d, S.r, 0, 0, 0), I, "-1"); C(wg_set_atomic_field(d, S.r, 0, 0), I, "-1"); C(wg_add_int_atomic_field(d, S.r, 0, 1), I, "-1");
  C(wg_get_field(d, S.r, 0), I, I(WG_ILLEGAL)); C(wg_get_field_type(d, S.r, 0), I, "0"); C(wg_get_encoded_type(d, S.e_str), I, "0"); C(wg_free_encoded(d, S.e_str), I, "0");
  C(wg_encode_null(d, NULL), I, I(WG_ILLEGAL)); C(wg_encode_int(d, 1), I, I(WG_ILLEGAL)); C(wg_encode_int(d, 1LL << 61), I, I(WG_ILLEGAL)); C(wg_encode_double(d, 1.5), I, I(WG_ILLEGAL)); C(wg_encode_fixpoint(d, 1.5), I, I(WG_ILLEGAL)); C(wg_encode_date(d, 7), I, I(WG_ILLEGAL)); C(wg_encode_time(d, 7), I, I(WG_ILLEGAL)); C(wg_encode_char(d, 7), I, I(WG_ILLEGAL)); C(wg_encode_var(d, 7), I, I(WG_ILLEGAL)); C(wg_encode_record(d, S.r), I, I(WG_ILLEGAL));
  C(wg_encode_str(d, "x", NULL), I, I(WG_ILLEGAL)); C(wg_encode_str(d, "x", (char *)"en"), I, I(WG_ILLEGAL)); C(wg_encode_uri(d, "x", NULL), I, I(WG_ILLEGAL)); C(wg_encode_xmlliteral(d, "x", "t"), I, I(WG_ILLEGAL)); C(wg_encode_blob(d, "x", NULL, 1), I, I(WG_ILLEGAL)); C(wg_encode_anonconst(d, "x"), I, I(WG_ILLEGAL));
  C(wg_decode_null(d, 0), P, "NULL"); C(wg_decode_int(d, S.e_int), I, "0"); C(wg_decode_int(d, S.e_full), I, "0"); C(wg_decode_double(d, S.e_dbl), R, "0"); C(wg_decode_fixpoint(d, S.e_fix), R, "0"); C(wg_decode_date(d, S.e_date), I, "-1|0"); C(wg_decode_time(d, S.e_time), I, "-1|0"); C(wg_decode_char(d, S.e_char), I, "0"); C(wg_decode_var(d, S.e_var), I, "-1"); C(wg_decode_record(d, S.e_rec), P, "NULL");
  C(wg_decode_str(d, S.e_lstr), P, "NULL"); C(wg_decode_str_lang(d, S.e_lstr), P, "NULL"); C(wg_decode_str_len(d, S.e_lstr), I, "-1"); C(wg_decode_str_lang_len(d, S.e_lstr), I, "-1"); C(wg_decode_str_copy(d, S.e_lstr, buf, 200), I, "-1"); C(wg_decode_str_lang_copy(d, S.e_lstr, buf, 200), I, "-1");
  C(wg_decode_uri(d, S.e_uri), P, "NULL"); C(wg_decode_uri_prefix(d, S.e_uri), P, "NULL"); C(wg_decode_uri_len(d, S.e_uri), I, "-1"); C(wg_decode_uri_prefix_len(d, S.e_uri), I, "-1"); C(wg_decode_uri_copy(d, S.e_uri, buf, 200), I, "-1"); C(wg_decode_uri_prefix_copy(d, S.e_uri, buf, 200), I, "-1");
  C(wg_decode_xmlliteral(d, S.e_xml), P, "NULL"); C(wg_decode_xmlliteral_xsdtype(d, S.e_xml), P, "NULL"); C(wg_decode_xmlliteral_len(d, S.e_xml), I, "-1"); C(wg_decode_xmlliteral_xsdtype_len(d, S.e_xml), I, "-1"); C(wg_decode_xmlliteral_copy(d, S.e_xml, buf, 200), I, "-1"); C(wg_decode_xmlliteral_xsdtype_copy(d, S.e_xml, buf, 200), I, "-1");
  C(wg_decode_blob(d, S.e_blob), P, "NULL"); C(wg_decode_blob_type(d, S.e_blob), P, "NULL"); C(wg_decode_blob_len(d, S.e_blob), I, "-1"); C(wg_decode_blob_type_len(d, S.e_blob), I, "-1"); C(wg_decode_blob_copy(d, S.e_blob, buf, 200), I, "-1"); C(wg_decode_blob_type_copy(d, S.e_blob, buf, 200), I, "-1"); C(wg_decode_anonconst(d, S.e_uri), P, "NULL");
  C(wg_dump(d, (char *)"refused.bin"), I, "-1|-2"); C(wg_import_dump(d, (char *)"refused.bin"), I, "-1|-2"); C(wg_start_logging(d), I, "-1"); C(wg_stop_logging(d), I, "-1"); C(wg_replay_log(d, (char *)"refused.log"), I, "-1");
  C(wg_start_write(d), I, "0"); C(wg_end_write(d, 1), I, "0"); C(wg_start_read(d), I, "0"); C(wg_end_read(d, 1), I, "0");
  CV(wg_snprint_value(d, S.e_str, buf, 200)); C(wg_parse_and_encode(d, "abc"), I, I(WG_ILLEGAL)); C(wg_parse_and_encode(d, "99999999999999999"), I, I(WG_ILLEGAL)); CV(wg_print_db(d)); CV(wg_print_record(d, (gint *)S.r)); CV(wg_export_db_csv(d, (char *)"refused.csv")); C(wg_import_db_csv(d, (char *)"in.csv"), I, "-1|-2");
  C(wg_make_query(d, NULL, 0, NULL, 0), P, "NULL"); C(wg_make_query(d, NULL, 0, S.arg, 1), P, "NULL"); C(wg_make_query(d, S.r, 0, NULL, 0), P, "NULL"); C(wg_make_query_rc(d, NULL, 0, S.arg, 1, 1), P, "NULL"); C(wg_fetch(d, S.q), P, "NULL");
  C(wg_find_record(d, 0, WG_COND_EQUAL, S.e_int, NULL), P, "NULL"); C(wg_find_record(d, 0, WG_COND_LESSTHAN, S.e_int, S.r), P, "NULL"); C(wg_find_record_int(d, 0, WG_COND_EQUAL, 1, NULL), P, "NULL"); C(wg_find_record_str(d, 0, WG_COND_EQUAL, (char *)"s", NULL), P, "NULL"); C(wg_find_record_null(d, 0, WG_COND_EQUAL, NULL, NULL), P, "NULL"); C(wg_find_record_double(d, 0, WG_COND_EQUAL, 1, NULL), P, "NULL"); C(wg_find_record_record(d, 0, WG_COND_EQUAL, S.r0, NULL), P, "NULL");
  C(wg_register_external_db(d, db), I, "-1"); C(wg_encode_external_data(d, db, S.e_str), I, I(WG_ILLEGAL)); 
  C(wg_create_index(d, 0, WG_INDEX_TYPE_TTREE, NULL, 0), I, "-1"); C(wg_create_multi_index(d, cols, 2, WG_INDEX_TYPE_HASH, NULL, 0), I, "-1"); C(wg_drop_index(d, S.ix), I, "-1"); C(wg_column_to_index_id(d, 0, WG_INDEX_TYPE_TTREE, NULL, 0), I, "-1"); C(wg_multi_column_to_index_id(d, cols, 1, WG_INDEX_TYPE_TTREE, NULL, 0), I, "-1"); C(wg_get_index_type(d, S.ix), I, "-1"); C(wg_get_index_template(d, S.ix, (gint *)ival), P, "NULL"); C(wg_get_all_indexes(d, (gint *)ival), P, "NULL");
  C(wg_parse_json_file(d, (char *)"in.json"), I, "-1|-2"); C(wg_parse_json_document(d, (char *)"[1]", &docp), I, "-1|-2"); C(wg_parse_json_fragment(d, (char *)"[1]", &docp), I, "-1|-2"); 
  C(wg_create_triple(d, 0, 0, 0, 0), P, "NULL"); C(wg_create_array(d, 2, 0, 0), P, "NULL"); C(wg_create_object(d, 2, 0, 0), P, "NULL"); C(wg_find_document(d, S.doc), P, "NULL"); C(wg_delete_document(d, S.doc), I, "-1|-2");
  C(wg_detach_database(d), I, "-1|-2|1"); 
  return v;
}
#define A(expr, conv, want) v.push_back({#expr, [](void *d) -> std::string { return conv(expr); }, want})
static std::vector<Call> argcalls() {
  std::vector<Call> v; static gint bad[] = {-1, -2, 4, 5, 1000, INT_MIN, INT_MAX, LONG_MIN, LONG_MAX, LONG_MAX - 3, 1L << 32, (1L << 32) + 1};
  for (gint f : bad) {
    auto c = [&](const char *n, std::function<gint(void *)> g, const std::string &w) { v.push_back({fmt("%s with field number %ld", n, (long)f), [g](void *d) { return I(g(d)); }, w}); };
    c("wg_set_field", [f](void *d) { return wg_set_field(d, S.r, f, 0); }, "-2"); c("wg_set_field of a string", [f](void *d) { return wg_set_field(d, S.r, f, S.e_lstr); }, "-2"); c("wg_set_new_field", [f](void *d) { return wg_set_new_field(d, S.r, f, S.e_int); }, "-2"); c("wg_set_int_field", [f](void *d) { return wg_set_int_field(d, S.r, f, 5); }, "-2"); 
    c("wg_set_int_field of a value", [f](void *d) { return wg_set_int_field(d, S.r, f, 1L << 40); }, "-2"); c("wg_set_double_field of a value", [f](void *d) { return wg_set_double_field(d, S.r, f, 7.53); }, "-2"); for (const char *t : {"", "abc", "a text which is somewhat longer than a short text can be, so that it is stored in the area of long ones", "a stored text of more than thirty-two bytes length, with a language"}) c("wg_set_str_field of a value", [f, t](void *d) { return wg_set_str_field(d, S.r, f, (char *)t); }, "-2");
    c("wg_update_atomic_field", [f](void *d) { return wg_update_atomic_field(d, S.r, f, 0, 0); }, "-2"); c("wg_set_atomic_field", [f](void *d) { return wg_set_atomic_field(d, S.r, f, 0); }, "-2"); c("wg_add_int_atomic_field", [f](void *d) { return wg_add_int_atomic_field(d, S.r, f, 1); }, "-2");
    c("wg_get_field", [f](void *d) { return wg_get_field(d, S.r, f); }, I(WG_ILLEGAL)); c("wg_get_field_type", [f](void *d) { return wg_get_field_type(d, S.r, f); }, "0");
  }
  for (gint n : {(gint)-1, (gint)-2, (gint)INT_MIN, (gint)LONG_MIN}) { v.push_back({fmt("wg_create_record of length %ld", (long)n), [n](void *d) { return P(wg_create_record(d, n)); }, "NULL"}); v.push_back({fmt("wg_create_raw_record of length %ld", (long)n), [n](void *d) { return P(wg_create_raw_record(d, n)); }, "NULL"}); }
  for (gint n : {(gint)1 << 27, (gint)INT_MAX - 2, (gint)INT_MAX, (gint)INT_MAX + 1, (gint)1 << 32, ((gint)1 << 32) + 2, (gint)1 << 60, ((gint)1 << 61) + 1, ((gint)1 << 61) - 2, (gint)LONG_MAX / 8, (gint)LONG_MAX - 2, (gint)LONG_MAX}) { v.push_back({fmt("wg_create_record of length %ld", (long)n), [n](void *d) { return P(wg_create_record(d, n)); }, "NULL"}); v.push_back({fmt("wg_create_raw_record of length %ld", (long)n), [n](void *d) { return P(wg_create_raw_record(d, n)); }, "NULL"}); }
  A(wg_encode_str(d, NULL, NULL), I, I(WG_ILLEGAL)); A(wg_encode_str(d, NULL, (char *)"en"), I, I(WG_ILLEGAL)); A(wg_encode_uri(d, NULL, NULL), I, I(WG_ILLEGAL)); A(wg_encode_xmlliteral(d, NULL, "t"), I, I(WG_ILLEGAL)); A(wg_encode_xmlliteral(d, "x", NULL), I, I(WG_ILLEGAL)); A(wg_encode_blob(d, NULL, NULL, 3), I, I(WG_ILLEGAL)); A(wg_encode_blob(d, "x", NULL, -1), I, I(WG_ILLEGAL)); A(wg_encode_blob(d, "x", NULL, LONG_MIN), I, I(WG_ILLEGAL)); A(wg_encode_anonconst(d, NULL), I, I(WG_ILLEGAL));
  A(wg_decode_str_copy(d, S.e_lstr, NULL, 100), I, "-1"); A(wg_decode_str_copy(d, S.e_lstr, buf, 0), I, "-1"); A(wg_decode_uri_copy(d, S.e_uri, NULL, 100), I, "-1"); A(wg_decode_uri_prefix_copy(d, S.e_uri, NULL, 100), I, "-1"); A(wg_decode_xmlliteral_copy(d, S.e_xml, NULL, 9), I, "-1"); A(wg_decode_blob_copy(d, S.e_blob, NULL, 9), I, "-1"); A(wg_decode_blob_type_copy(d, S.e_blob, NULL, 9), I, "-1"); A(wg_decode_str_lang_copy(d, S.e_lstr, NULL, 9), I, "-1"); A(wg_decode_xmlliteral_xsdtype_copy(d, S.e_xml, NULL, 9), I, "-1");
  // queries
  for (gint col : {(gint)-1, (gint)-5, (gint)INT_MIN, (gint)LONG_MIN}) for (int cond : {WG_COND_EQUAL, WG_COND_LESSTHAN, WG_COND_NOT_EQUAL}) { 
    v.push_back({fmt("wg_find_record in column %ld", (long)col), [=](void *d) { return P(wg_find_record(d, col, cond, S.e_int, NULL)); }, "NULL"});
    v.push_back({fmt("wg_make_query on column %ld", (long)col), [=](void *d) { wg_query_arg a; a.column = col; a.cond = cond; a.value = S.e_int; wg_query *q = wg_make_query(d, NULL, 0, &a, 1); void *r = q ? wg_fetch(d, q) : NULL; if (q) wg_free_query(d, q); return q ? (r ? "rows" : "none") : "NULL"; }, "NULL|none"}); }
  for (gint cond : {(gint)0, (gint)3, (gint)7, (gint)64, (gint)-1, (gint)0x8001, (gint)INT_MAX}) {
    v.push_back({fmt("wg_find_record with condition %ld", (long)cond), [=](void *d) { return P(wg_find_record(d, 0, cond, S.e_int, NULL)); }, "NULL"});
    v.push_back({fmt("wg_make_query with condition %ld", (long)cond), [=](void *d) { wg_query_arg a; a.column = 0; a.cond = cond; a.value = S.e_int; wg_query *q = wg_make_query(d, NULL, 0, &a, 1); void *r = q ? wg_fetch(d, q) : NULL; if (q) wg_free_query(d, q); return q ? (r ? "rows" : "none") : "NULL"; }, "NULL|none"}); }
  A(wg_fetch(d, NULL), P, "NULL");
  A(wg_make_query(d, NULL, -1, NULL, 0), P, "NULL|ptr");
  // indexes
  for (gint c : {(gint)-1, (gint)-100, (gint)INT_MIN, (gint)MAX_INDEXED_FIELDNR + 1, (gint)100000, (gint)LONG_MAX}) {
    v.push_back({fmt("wg_create_index on column %ld", (long)c), [=](void *d) { return I(wg_create_index(d, c, WG_INDEX_TYPE_TTREE, NULL, 0)); }, "-1"});
    v.push_back({fmt("wg_create_multi_index on column 0 and %ld", (long)c), [=](void *d) { gint x[2] = {0, c}; return I(wg_create_multi_index(d, x, 2, WG_INDEX_TYPE_HASH, NULL, 0)); }, "-1"});
    v.push_back({fmt("wg_column_to_index_id of column %ld", (long)c), [=](void *d) { return I(wg_column_to_index_id(d, c, WG_INDEX_TYPE_TTREE, NULL, 0)); }, "-1"});
    v.push_back({fmt("wg_multi_column_to_index_id of column %ld and 0", (long)c), [=](void *d) { gint x[2] = {c, 0}; return I(wg_multi_column_to_index_id(d, x, 2, WG_INDEX_TYPE_HASH, NULL, 0)); }, "-1"}); }
  for (gint n : {(gint)0, (gint)-1, (gint)MAX_INDEX_FIELDS + 1, (gint)1000000}) { static gint many[64]; for (int i = 0; i < 64; i++) many[i] = i;
    v.push_back({fmt("wg_create_multi_index on %ld columns", (long)n), [=](void *d) { return I(wg_create_multi_index(d, many, n, WG_INDEX_TYPE_HASH, NULL, 0)); }, "-1"});
    v.push_back({fmt("wg_multi_column_to_index_id of %ld columns", (long)n), [=](void *d) { return I(wg_multi_column_to_index_id(d, many, n, WG_INDEX_TYPE_HASH, NULL, 0)); }, "-1"}); }
  for (gint t : {(gint)0, (gint)-1, (gint)7, (gint)49, (gint)52, (gint)99, (gint)1000}) { v.push_back({fmt("wg_create_index of type %ld", (long)t), [=](void *d) { return I(wg_create_index(d, 2, t, NULL, 0)); }, "-1"}); v.push_back({fmt("wg_column_to_index_id of type %ld", (long)t), [=](void *d) { return I(wg_column_to_index_id(d, 2, t, NULL, 0)); }, "-1"}); }
  A(wg_create_multi_index(d, NULL, 2, WG_INDEX_TYPE_HASH, NULL, 0), I, "-1"); A(wg_multi_column_to_index_id(d, NULL, 2, WG_INDEX_TYPE_HASH, NULL, 0), I, "-1"); A(wg_create_multi_index(d, cols, 2, WG_INDEX_TYPE_TTREE, NULL, 0), I, "-1");
  for (gint id : {(gint)0, (gint)-1, (gint)1, (gint)64, (gint)999992, (gint)LONG_MAX}) { v.push_back({fmt("wg_drop_index of %ld", (long)id), [=](void *d) { return I(wg_drop_index(d, id)); }, "-1"}); v.push_back({fmt("wg_get_index_type of %ld", (long)id), [=](void *d) { return I(wg_get_index_type(d, id)); }, "-1"}); v.push_back({fmt("wg_get_index_template of %ld", (long)id), [=](void *d) { return P(wg_get_index_template(d, id, (gint *)ival)); }, "NULL"}); }
  // external databases, files, texts
  for (int i = 0; i < 4; i++) if (i || 1) { v.push_back({fmt("wg_register_external_db of invalid handle %d", i), [=](void *d) { return I(wg_register_external_db(d, badh[i])); }, "-1"}); v.push_back({fmt("wg_encode_external_data from invalid handle %d", i), [=](void *d) { return I(wg_encode_external_data(d, badh[i], S.e_str)); }, I(WG_ILLEGAL)}); }
  A(wg_import_dump(d, (char *)"nofile.bin"), I, "-1|-2"); A(wg_dump(d, (char *)"/nodir/x.bin"), I, "-1|-2"); A(wg_replay_log(d, (char *)"nofile.log"), I, "-1"); A(wg_import_db_csv(d, (char *)"nofile.csv"), I, "-1"); A(wg_parse_json_file(d, (char *)"nofile.json"), I, "-1"); A(wg_stop_logging(d), I, "-1");
  A(wg_free_encoded(d, 0), I, "0"); A(wg_free_encoded(d, WG_ILLEGAL), I, "0"); A(wg_get_encoded_type(d, WG_ILLEGAL), I, "-1"); A(wg_get_encoded_type(d, 0x6f), I, "-1"); A(wg_free_query_param(d, 0), I, "0"); A(wg_free_query_param(d, WG_ILLEGAL), I, "0");
  A(wg_delete_document(d, S.r0), I, "-1"); 
  return v;
}
static void populate(int st) {
  db = wg_attach_local_database(2000000); if (!db) { fprintf(out(), "ERROR attach\n"); _exit(2); }
  S.r0 = wg_create_record(db, 1); S.r = wg_create_record(db, 4); wg_parse_json_document(db, (char *)"{\"a\":[1,2]}", &S.doc);
  auto put = [&](gint e) { void *x = wg_create_record(db, 1); wg_set_field(db, x, 0, e); return e; };
  std::string L(60, 'l'); S.e_int = wg_encode_int(db, 5); S.e_full = put(wg_encode_int(db, 1LL << 61)); S.e_dbl = put(wg_encode_double(db, 2.5)); S.e_str = put(wg_encode_str(db, "short", NULL)); S.e_lstr = put(wg_encode_str(db, L.c_str(), (char *)"en")); S.e_uri = put(wg_encode_uri(db, "u", "http://p")); S.e_xml = put(wg_encode_xmlliteral(db, "x", "t")); S.e_blob = put(wg_encode_blob(db, "b\0c", "bt", 3)); S.e_char = wg_encode_char(db, 'c'); S.e_date = wg_encode_date(db, 700000); S.e_time = wg_encode_time(db, 5000); S.e_fix = wg_encode_fixpoint(db, 1.5); S.e_var = wg_encode_var(db, 3); S.e_rec = wg_encode_record(db, S.r0);
  wg_set_field(db, S.r, 0, wg_encode_int(db, 5)); wg_set_field(db, S.r, 1, wg_encode_str(db, "other", NULL)); wg_set_field(db, S.r, 2, S.e_rec); wg_set_field(db, S.r0, 0, wg_encode_int(db, 5));
  if (st & 1) { wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0); wg_create_multi_index(db, cols, 2, WG_INDEX_TYPE_HASH, NULL, 0); S.ix = wg_column_to_index_id(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0); }
  static wg_query_arg a; a.column = 0; a.cond = WG_COND_EQUAL; a.value = S.e_int; S.arg = &a; S.q = wg_make_query(db, NULL, 0, &a, 1);
  if (st & 2) S.lock = wg_start_read(db);
  memset(buf, 0, sizeof buf);
}
int main(int argc, char **argv) {
  init(argc, argv); Opts &o = opts(); std::string p = o.profile; Cases K; int st = o.num("state", 0); bool show = o.num("show", 0);
  signal(SIGSEGV, onsegv); signal(SIGBUS, onsegv); signal(SIGFPE, onsegv); if (!freopen("/dev/null", "w", stderr) || !freopen("/dev/null", "w", stdout)) return 2;
  FILE *f = fopen("in.csv", "w"); fputs("1,2\n3,4\n", f); fclose(f); f = fopen("in.json", "w"); fputs("[1]", f); fclose(f);
  populate(st); static char zero[1 << 16], junk[1 << 16]; memset(junk, 0x41, sizeof junk);
#ifdef USE_DATABASE_HANDLE
  static db_handle h1, h2, h3; h1.db = (db_memsegment_header *)zero; h2.db = NULL; h3.db = (db_memsegment_header *)junk; badh[0] = NULL; badh[1] = &h1; badh[2] = &h2; badh[3] = &h3;
#else
  badh[0] = NULL; badh[1] = zero; badh[2] = NULL; badh[3] = junk;
#endif
  // the queue of the locks is left out for calls that take a lock before they find out
  auto unlocked = [&](bool put) { static std::vector<char> q, l; auto *h = HDR(db); char *m = (char *)h + h->locks.storage; size_t n = h->locks.max_nodes * SYN_VAR_PADDING;
    if (!put) { q.assign(m, m + n); l.assign((char *)&h->locks, (char *)(&h->locks + 1)); } else { memcpy(m, q.data(), n); memcpy((void *)&h->locks, l.data(), l.size()); } };
  H128 h0 = hash0(); img_hash(db, h0); std::vector<char> j0(junk, junk + sizeof junk);
  auto one = [&](const Call &c, void *d, const std::string &desc) {
    bool enc = c.n.find(" of a value") != std::string::npos; HeapCount k0; if (enc) fsck(db, &k0); // these store the value and release it again
    bool lk = c.n.find("/nodir/x.bin") != std::string::npos; if (lk) unlocked(false);
    std::string g = guarded([&] { return c.f(d); }); bool ok = false; size_t a = 0; std::string w = c.want + "|"; while (a < w.size()) { size_t b = w.find('|', a); if (w.substr(a, b - a) == g) ok = true; a = b + 1; }
    if (lk) { if (!(st & 2)) { gint l = wg_start_write(db); MC_CHECK(l && wg_end_write(db, l), "lock-held", "%s leaves the database locked", desc.c_str()); } unlocked(true); }
    if (show) { if (!ok) fprintf(out(), "%s -> %s want %s\n", desc.c_str(), g.c_str(), c.want.c_str()); H128 h1 = hash0(); img_hash(db, h1); if (!(h0 == h1)) { fprintf(out(), "%s CHANGES\n", desc.c_str()); populate(st); h0 = hash0(); img_hash(db, h0); } return; }
    MC_CHECK(ok, g.compare(0, 5, "crash") ? "error-value" : "crash", "%s gives %s instead of %s", desc.c_str(), g.c_str(), c.want.c_str());
    H128 h1 = hash0(); img_hash(db, h1);
    if (enc) { HeapCount k; fsck(db, &k); for (int i = 0; i < 10; i++) MC_CHECK(k.a[i].used == k0.a[i].used && k.a[i].usedbytes == k0.a[i].usedbytes, "leak", "%s leaves something in the database (storage area %d: %lld objects instead of %lld)", desc.c_str(), i, k.a[i].used, k0.a[i].used); h0 = h1; }
    MC_CHECK(h0 == h1, "changed", "%s changes the database", desc.c_str());
    for (size_t i = 0; i < sizeof zero; i++) MC_CHECK(!zero[i] && junk[i] == j0[i], "foreign-changed", "%s writes to the foreign memory", desc.c_str());
    MC_CHECK(access("refused.bin", F_OK) && access("refused.csv", F_OK), "file", "%s creates a file", desc.c_str());
  };
  if (p == "handles") {
    auto v = handlecalls(); const char *N[] = {"a null handle", "a foreign handle", "a handle without segment", "a handle to junk"};
    for (auto &c : v) for (int i = 0; i < 4; i++) K.run([&] { return c.n + " with " + N[i]; }, [&] { one(c, badh[i], c.n + " with " + N[i]); return true; });
  } else if (p == "args") { auto v = argcalls(); for (auto &c : v) K.run([&] { return c.n; }, [&] { one(c, db, c.n); return true; });
  } else if (p == "decode") {   // each decoder on each kind of encoded value
    struct D { const char *n; int t; std::function<std::string(gint)> f; std::string want; };
#define DEC(fn, t, conv, want) {#fn, t, [](gint e) { return conv(fn(db, e)); }, want}
#define DCP(fn, t) {#fn, t, [](gint e) { return I(fn(db, e, buf, 200)); }, "-1"}
    std::vector<D> ds = {DEC(wg_decode_int, V_INT, I, "0"), DEC(wg_decode_double, V_DBL, R, "0"), DEC(wg_decode_fixpoint, V_FIX, R, "0"), DEC(wg_decode_date, V_DATE, I, "-1"), DEC(wg_decode_time, V_TIME, I, "-1"), DEC(wg_decode_record, V_REC, P, "NULL"),
      DEC(wg_decode_str, V_STR, P, "NULL"), DEC(wg_decode_str_len, V_STR, I, "-1"), DEC(wg_decode_str_lang, V_STR, P, "NULL"), DEC(wg_decode_str_lang_len, V_STR, I, "-1|0"), DCP(wg_decode_str_copy, V_STR),
      DEC(wg_decode_uri, V_URI, P, "NULL"), DEC(wg_decode_uri_len, V_URI, I, "-1"), DEC(wg_decode_uri_prefix, V_URI, P, "NULL"), DCP(wg_decode_uri_copy, V_URI), DEC(wg_decode_xmlliteral, V_XML, P, "NULL"), DEC(wg_decode_xmlliteral_len, V_XML, I, "-1"), DEC(wg_decode_xmlliteral_xsdtype, V_XML, P, "NULL"), DCP(wg_decode_xmlliteral_copy, V_XML),
      DEC(wg_decode_blob, V_BLOB, P, "NULL"), DEC(wg_decode_blob_len, V_BLOB, I, "-1"), DEC(wg_decode_blob_type, V_BLOB, P, "NULL"), DCP(wg_decode_blob_copy, V_BLOB)};
    std::vector<std::pair<gint, int>> es = {{0, V_NULL}, {S.e_int, V_INT}, {S.e_full, V_INT}, {S.e_dbl, V_DBL}, {S.e_str, V_STR}, {S.e_lstr, V_STR}, {S.e_uri, V_URI}, {S.e_xml, V_XML}, {S.e_blob, V_BLOB}, {S.e_char, V_CHAR}, {S.e_date, V_DATE}, {S.e_time, V_TIME}, {S.e_fix, V_FIX}, {S.e_var, V_VAR}, {S.e_rec, V_REC}, {WG_ILLEGAL, -1}, {0x6f, -1}, {-1, -1}};
    auto text = [](int t) { return t == V_STR || t == V_URI || t == V_XML || t == V_BLOB; };
    for (auto &x : ds) for (auto &e : es) { if (x.t == e.second || (text(x.t) && text(e.second))) continue; std::string n = fmt("%s of a value of type %d (%lx)", x.n, e.second, (long)e.first); K.run([&] { return n; }, [&] { one({n, [&](void *) { return x.f(e.first); }, x.want}, db, n); return true; }); }
  } else return 2;
  finish(K.failed());
}
