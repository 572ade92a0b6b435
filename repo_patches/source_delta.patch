From dc00f1a4b7fb793fdd36bbfb78b58a0111711278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 001/116] fix: update index entries of referring records
 exactly once when a linked record changes

---
 Db/dbdata.c  | 323 +++++++++++++++++++++++++--------------------------
 Db/dbindex.c |  57 +++++++++
 Db/dbindex.h |   2 +
 3 files changed, 220 insertions(+), 162 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 66c3c3a..9eaf9fd 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -77,10 +77,9 @@ static struct tm * localtime_r (const time_t *timer, struct tm *result);
 /* ======= Private protos ================ */
 
 #ifdef USE_BACKLINKING
-static gint remove_backlink_index_entries(void *db, gint *record,
-  gint value, gint depth);
-static gint restore_backlink_index_entries(void *db, gint *record,
-  gint value, gint depth);
+static gint collect_referring_records(void *db, gint *record, gint **refs);
+static gint update_backlink_index_entries(void *db, gint *refs, gint count,
+  gint *record, gint fieldnr, gint add);
 #endif
 
 static int isleap(unsigned yr);
@@ -460,117 +459,116 @@ void *wg_get_next_parent(void* db, void* record, void *parent) {
 }
 
 
-/* ------------ backlink chain recursive functions ------------------- */
+/* ------------ backlink chain index functions ------------------- */
 
 #ifdef USE_BACKLINKING
 
-/** Remove index entries in backlink chain recursively.
- *  Needed for index maintenance when records are compared by their
- *  contens, as change in contents also changes the value of the entire
- *  record and thus affects it's placement in the index.
- *  Returns 0 for success
+static int compare_offsets(const void *a, const void *b) {
+  gint x = *((const gint *) a), y = *((const gint *) b);
+  return (x > y) - (x < y);
+}
+
+/** Find the records whose value depends on the value of the given record.
+ *  Those are the records in the backlink chain, the records that refer to
+ *  them and so on, up to the depth that is significant when comparing records.
+ *
+ *  Each record is listed once, regardless of how many fields or paths lead
+ *  to it, so that its index entries are removed and restored exactly once.
+ *  The result may include the record itself (circular links).
+ *
+ *  Returns the number of records; *refs is allocated if it is > 0.
  *  Returns -1 in case of errors.
  */
-static gint remove_backlink_index_entries(void *db, gint *record,
-  gint value, gint depth) {
-  gint col, length, err = 0;
-  db_memsegment_header *dbh = dbmemsegh(db);
+static gint collect_referring_records(void *db, gint *record, gint **refs) {
+  gint *list = NULL, *tmp;
+  gint depth, i, j, known = 0, count = 0, size = 0;
 
-  if(!is_special_record(record)) {
-    /* Find all fields in the record that match value (which is actually
-     * a reference to a child record in encoded form) and remove it from
-     * indexes. It will be recreated in the indexes by wg_set_field() later.
+  for(depth=0; depth<WG_COMPARE_REC_DEPTH; depth++) {
+    /* The first pass takes the parents of the record, the following
+     * ones add the parents of the records that are already listed.
      */
-    length = getusedobjectwantedgintsnr(*record) - RECORD_HEADER_GINTS;
-    if(length > MAX_INDEXED_FIELDNR)
-      length = MAX_INDEXED_FIELDNR + 1;
-
-    for(col=0; col<length; col++) {
-      if(*(record + RECORD_HEADER_GINTS + col) == value) {
-        /* Changed value is always a WG_RECORDDTYPE field, therefore
-         * we don't need to deal with index templates here
-         * (record links are not allowed in templates).
-         */
-        if(dbh->index_control_area_header.index_table[col]) {
-          if(wg_index_del_field(db, record, col) < -1)
+    for(i=(depth ? 0 : -1); i<known; i++) {
+      gint *rec = (i < 0 ? record : (gint *) offsettoptr(db, list[i]));
+      gint next = *(rec + RECORD_BACKLINKS_POS);
+      while(next) {
+        gcell *cell = (gcell *) offsettoptr(db, next);
+        if(count >= size) {
+          size = (size ? size * 2 : 16);
+          tmp = (gint *) realloc(list, size * sizeof(gint));
+          if(!tmp) {
+            show_data_error(db, "Failed to allocate memory");
+            if(list)
+              free(list);
             return -1;
+          }
+          list = tmp;
         }
+        list[count++] = cell->car;
+        next = cell->cdr;
       }
     }
-  }
 
-  /* If recursive depth is not exchausted, continue with the parents
-   * of this record.
-   */
-  if(depth > 0) {
-    gint backlink_list = *(record + RECORD_BACKLINKS_POS);
-    if(backlink_list) {
-      gcell *next = (gcell *) offsettoptr(db, backlink_list);
-      for(;;) {
-        err = remove_backlink_index_entries(db,
-          (gint *) offsettoptr(db, next->car),
-          wg_encode_record(db, record), depth-1);
-        if(err)
-          return err;
-        if(!next->cdr)
-          break;
-        next = (gcell *) offsettoptr(db, next->cdr);
-      }
+    if(count == known)
+      break; /* nothing refers to the record(s) */
+    qsort(list, count, sizeof(gint), compare_offsets);
+    for(i=1, j=1; i<count; i++) {
+      if(list[i] != list[j-1])
+        list[j++] = list[i];
     }
+    count = j;
+    if(count == known)
+      break; /* no new records */
+    known = count;
   }
 
-  return 0;
+  *refs = list;
+  return count;
 }
 
-/** Add index entries in backlink chain recursively.
- *  Called after doing remove_backling_index_entries() and updating
- *  data in the record that originated the call. This recreates the
- *  entries in the indexes for all the records that were affected.
+/** Remove (add=0) or restore (add=1) index entries of the listed records.
+ *  Needed for index maintenance when records are compared by their
+ *  contens, as change in contents also changes the value of the entire
+ *  record and thus affects it's placement in the index.
+ *
+ *  Only the columns that contain links to the changed records are affected.
+ *  The field that is being changed is handled by the caller.
+ *
  *  Returns 0 for success
  *  Returns -1 in case of errors.
  */
-static gint restore_backlink_index_entries(void *db, gint *record,
-  gint value, gint depth) {
-  gint col, length, err = 0;
-  db_memsegment_header *dbh = dbmemsegh(db);
-
-  if(!is_special_record(record)) {
-    /* Find all fields in the record that match value (which is actually
-     * a reference to a child record in encoded form) and add it back to
-     * indexes.
-     */
-    length = getusedobjectwantedgintsnr(*record) - RECORD_HEADER_GINTS;
+static gint update_backlink_index_entries(void *db, gint *refs, gint count,
+  gint *record, gint fieldnr, gint add) {
+  gint i, col, length, offset, enc, found;
+  gint changed = ptrtooffset(db, record);
+  char cols[MAX_INDEXED_FIELDNR+1];
+
+  for(i=0; i<count; i++) {
+    gint *rec = (gint *) offsettoptr(db, refs[i]);
+    if(is_special_record(rec))
+      continue;
+
+    length = getusedobjectwantedgintsnr(*rec) - RECORD_HEADER_GINTS;
     if(length > MAX_INDEXED_FIELDNR)
       length = MAX_INDEXED_FIELDNR + 1;
 
+    memset(cols, 0, sizeof(cols));
+    found = 0;
     for(col=0; col<length; col++) {
-      if(*(record + RECORD_HEADER_GINTS + col) == value) {
-        if(dbh->index_control_area_header.index_table[col]) {
-          if(wg_index_add_field(db, record, col) < -1)
-            return -1;
+      enc = *(rec + RECORD_HEADER_GINTS + col);
+      if(isptr(enc) && wg_get_encoded_type(db, enc) == WG_RECORDTYPE) {
+        offset = decode_datarec_offset(enc);
+        if(offset == changed || bsearch(&offset, refs, count,
+          sizeof(gint), compare_offsets)) {
+          cols[col] = 1;
+          found = 1;
         }
       }
     }
-  }
 
-  /* Continue to the parents until depth==0 */
-  if(depth > 0) {
-    gint backlink_list = *(record + RECORD_BACKLINKS_POS);
-    if(backlink_list) {
-      gcell *next = (gcell *) offsettoptr(db, backlink_list);
-      for(;;) {
-        err = restore_backlink_index_entries(db,
-          (gint *) offsettoptr(db, next->car),
-          wg_encode_record(db, record), depth-1);
-        if(err)
-          return err;
-        if(!next->cdr)
-          break;
-        next = (gcell *) offsettoptr(db, next->cdr);
-      }
-    }
+    if(found && wg_index_update_columns(db, rec, cols,
+      (rec == record ? fieldnr : -1), add) < -1)
+      return -1;
   }
-
   return 0;
 }
 
@@ -614,10 +612,11 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   gint* fieldadr;
   gint fielddata;
   gint* strptr;
-#ifdef USE_BACKLINKING
-  gint backlink_list;           /** start of backlinks for this record */
-  gint rec_enc = WG_ILLEGAL;    /** this record as encoded value. */
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  gint *refs = NULL;            /** records whose index entries change */
+  gint refcount = 0;
 #endif
+  gint err = 0;
   db_memsegment_header *dbh = dbmemsegh(db);
 #ifdef USE_CHILD_DB
   void *offset_owner = dbmemseg(db);
@@ -644,6 +643,25 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
     return 0;
   }
 
+  /* If there are backlinks, go up the chain and remove the reference
+   * to this record from all indexes (updating a field in the record
+   * causes the value of the record to change). Note that we only go
+   * as far as the recursive comparison depth - records higher in the
+   * hierarchy are not affected.
+   */
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  if(*((gint *) record + RECORD_BACKLINKS_POS) &&\
+    dbh->index_control_area_header.number_of_indexes) {
+    refcount = collect_referring_records(db, (gint *) record, &refs);
+    if(refcount < 0)
+      return -4;
+    if(update_backlink_index_entries(db, refs, refcount, record, fieldnr, 0)) {
+      err = -4; /* override the error code, for now. */
+      goto setfld_done;
+    }
+  }
+#endif
+
   /* Update index(es) while the old value is still in the db */
 #ifdef USE_INDEX_TEMPLATE
   if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
@@ -653,35 +671,11 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
     dbh->index_control_area_header.index_table[fieldnr]) {
 #endif
-    if(wg_index_del_field(db, record, fieldnr) < -1)
-      return -3; /* index error */
-  }
-
-  /* If there are backlinks, go up the chain and remove the reference
-   * to this record from all indexes (updating a field in the record
-   * causes the value of the record to change). Note that we only go
-   * as far as the recursive comparison depth - records higher in the
-   * hierarchy are not affected.
-   */
-#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
-  backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
-  if(backlink_list) {
-    gint err;
-    gcell *next = (gcell *) offsettoptr(db, backlink_list);
-    rec_enc = wg_encode_record(db, record);
-    for(;;) {
-      err = remove_backlink_index_entries(db,
-        (gint *) offsettoptr(db, next->car),
-        rec_enc, WG_COMPARE_REC_DEPTH-1);
-      if(err) {
-        return -4; /* override the error code, for now. */
-      }
-      if(!next->cdr)
-        break;
-      next = (gcell *) offsettoptr(db, next->cdr);
+    if(wg_index_del_field(db, record, fieldnr) < -1) {
+      err = -3; /* index error */
+      goto setfld_done;
     }
   }
-#endif
 
 #ifdef USE_CHILD_DB
   /* Get the offset owner */
@@ -689,7 +683,8 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
     offset_owner = get_ptr_owner(db, data);
     if(!offset_owner) {
       show_data_error(db, "External reference not recognized");
-      return -5;
+      err = -5;
+      goto setfld_done;
     }
   }
 #endif
@@ -722,7 +717,8 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
       next_offset = &(old->cdr);
     }
     show_data_error(db, "Corrupt backlink chain");
-    return -4; /* backlink error */
+    err = -4; /* backlink error */
+    goto setfld_done;
   }
 setfld_backlink_removed:
 #endif
@@ -752,8 +748,10 @@ setfld_backlink_removed:
   if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
     dbh->index_control_area_header.index_table[fieldnr]) {
 #endif
-    if(wg_index_add_field(db, record, fieldnr) < -1)
-      return -3;
+    if(wg_index_add_field(db, record, fieldnr) < -1) {
+      err = -3;
+      goto setfld_done;
+    }
   }
 
 #ifdef USE_BACKLINKING
@@ -780,24 +778,16 @@ setfld_backlink_removed:
 
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
   /* Create new entries in indexes in all referring records */
-  if(backlink_list) {
-    gint err;
-    gcell *next = (gcell *) offsettoptr(db, backlink_list);
-    for(;;) {
-      err = restore_backlink_index_entries(db,
-        (gint *) offsettoptr(db, next->car),
-        rec_enc, WG_COMPARE_REC_DEPTH-1);
-      if(err) {
-        return -4;
-      }
-      if(!next->cdr)
-        break;
-      next = (gcell *) offsettoptr(db, next->cdr);
-    }
-  }
+  if(update_backlink_index_entries(db, refs, refcount, record, fieldnr, 1))
+    err = -4;
 #endif
 
-  return 0;
+setfld_done:
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  if(refs)
+    free(refs);
+#endif
+  return err;
 }
 
 /** Write contents of one field.
@@ -822,9 +812,11 @@ setfld_backlink_removed:
 wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   gint* fieldadr;
   gint* strptr;
-#ifdef USE_BACKLINKING
-  gint backlink_list;           /** start of backlinks for this record */
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  gint *refs = NULL;            /** records whose index entries change */
+  gint refcount = 0;
 #endif
+  gint err = 0;
   db_memsegment_header *dbh = dbmemsegh(db);
 #ifdef USE_CHILD_DB
   void *offset_owner = dbmemseg(db);
@@ -861,6 +853,24 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
     return -2;
   }
 #endif
+
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  /* Remove the entries of all referring records from indexes. Normal
+   * usage scenario would be that the record is also new, so that
+   * there are no backlinks, however this is not guaranteed.
+   */
+  if(*((gint *) record + RECORD_BACKLINKS_POS) &&\
+    dbh->index_control_area_header.number_of_indexes) {
+    refcount = collect_referring_records(db, (gint *) record, &refs);
+    if(refcount < 0)
+      return -4;
+    if(update_backlink_index_entries(db, refs, refcount, record, fieldnr, 0)) {
+      err = -4;
+      goto setnewfld_done;
+    }
+  }
+#endif
+
   (*fieldadr)=data;
 
 #ifdef USE_CHILD_DB
@@ -882,8 +892,10 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
     dbh->index_control_area_header.index_table[fieldnr]) {
 #endif
-    if(wg_index_add_field(db, record, fieldnr) < -1)
-      return -3;
+    if(wg_index_add_field(db, record, fieldnr) < -1) {
+      err = -3;
+      goto setnewfld_done;
+    }
   }
 
 #ifdef USE_BACKLINKING
@@ -909,30 +921,17 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #endif
 
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
-  /* Create new entries in indexes in all referring records. Normal
-   * usage scenario would be that the record is also new, so that
-   * there are no backlinks, however this is not guaranteed.
-   */
-  backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
-  if(backlink_list) {
-    gint err;
-    gcell *next = (gcell *) offsettoptr(db, backlink_list);
-    gint rec_enc = wg_encode_record(db, record);
-    for(;;) {
-      err = restore_backlink_index_entries(db,
-        (gint *) offsettoptr(db, next->car),
-        rec_enc, WG_COMPARE_REC_DEPTH-1);
-      if(err) {
-        return -4;
-      }
-      if(!next->cdr)
-        break;
-      next = (gcell *) offsettoptr(db, next->cdr);
-    }
-  }
+  /* Create new entries in indexes in all referring records */
+  if(update_backlink_index_entries(db, refs, refcount, record, fieldnr, 1))
+    err = -4;
 #endif
 
-  return 0;
+setnewfld_done:
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  if(refs)
+    free(refs);
+#endif
+  return err;
 }
 
 wg_int wg_set_int_field(void* db, void* record, wg_int fieldnr, gint data) {
diff --git a/Db/dbindex.c b/Db/dbindex.c
index 65b9ddc..46c414f 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2982,6 +2982,63 @@ nexttmpl2:
   return 0;
 }
 
+/** Remove or add the entries of a record in the indexes on given columns
+ * Used when the value of the record itself does not change but the
+ * values of the records it is linked to do. Each index is updated once, even
+ * if it covers more than one of the columns.
+ * cols - array of flags (MAX_INDEXED_FIELDNR+1 elements) by column
+ * skipcol - if >= 0, the indexes that include this column are not updated
+ * returns 0 for success
+ * returns -1 for invalid arguments
+ * returns -2 for error
+ */
+gint wg_index_update_columns(void *db, void *rec, char *cols,
+  gint skipcol, gint add) {
+  gint i, j, reclen;
+  db_memsegment_header* dbh = dbmemsegh(db);
+
+#ifdef CHECK
+  if(is_special_record(rec))
+    return -1;
+#endif
+
+  reclen = wg_get_record_len(db, rec);
+  for(i=0; i<reclen && i<=MAX_INDEXED_FIELDNR; i++) {
+    gint *ilist;
+    gcell *ilistelem;
+
+    if(!cols[i])
+      continue;
+
+    ilist = &dbh->index_control_area_header.index_table[i];
+    while(*ilist) {
+      ilistelem = (gcell *) offsettoptr(db, *ilist);
+      if(ilistelem->car) {
+        wg_index_header *hdr = \
+          (wg_index_header *) offsettoptr(db, ilistelem->car);
+        gint update = (reclen > hdr->rec_field_index[hdr->fields - 1]);
+
+        for(j=0; j<hdr->fields; j++) {
+          if(hdr->rec_field_index[j] == skipcol ||\
+            (hdr->rec_field_index[j] < i && cols[hdr->rec_field_index[j]])) {
+            update = 0; /* not affected or already done */
+            break;
+          }
+        }
+        if(update && MATCH_TEMPLATE(db, hdr, rec)) {
+          if(add) {
+            INDEX_ADD_ROW(db, hdr, ilistelem->car, rec)
+          } else {
+            INDEX_REMOVE_ROW(db, hdr, ilistelem->car, rec)
+          }
+        }
+      }
+      ilist = &ilistelem->cdr;
+    }
+  }
+  return 0;
+}
+
 /* --------------- error handling ------------------------------*/
 
 /** called with err msg
diff --git a/Db/dbindex.h b/Db/dbindex.h
index cbb46f2..d973281 100644
--- a/Db/dbindex.h
+++ b/Db/dbindex.h
@@ -146,6 +146,8 @@ gint wg_index_add_field(void *db, void *rec, gint column);
 gint wg_index_add_rec(void *db, void *rec);
 gint wg_index_del_field(void *db, void *rec, gint column);
 gint wg_index_del_rec(void *db, void *rec);
+gint wg_index_update_columns(void *db, void *rec, char *cols,
+  gint skipcol, gint add);
 
 
 #endif /* DEFINED_DBINDEX_H */
-- 
2.43.0


From 520ac821b49130ffe6e143e85a316379b75dae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 002/116] fix: wg_get_next_parent did not end when a parent
 refers to the record twice

---
 Db/dbdata.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 9eaf9fd..cb4a255 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -446,12 +446,25 @@ void *wg_get_next_parent(void* db, void* record, void *parent) {
   backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
   if(backlink_list) {
     gcell *next = (gcell *) offsettoptr(db, backlink_list);
+    gint parent_offset = ptrtooffset(db, parent);
+
+    /* Find the first reference from the current parent */
+    while(next->car != parent_offset) {
+      if(!next->cdr)
+        return NULL;
+      next = (gcell *) offsettoptr(db, next->cdr);
+    }
+
+    /* A parent is in the chain once for each field that refers to
+     * the record. Skip those that have been returned already.
+     */
     while(next->cdr) {
-      void *pp = (void *) offsettoptr(db, next->car);
+      gcell *prev = (gcell *) offsettoptr(db, backlink_list);
       next = (gcell *) offsettoptr(db, next->cdr);
-      if(pp == parent && next->car) {
+      while(prev != next && prev->car != next->car)
+        prev = (gcell *) offsettoptr(db, prev->cdr);
+      if(prev == next)
         return (void *) offsettoptr(db, next->car);
-      }
     }
   }
 #endif /* USE_BACKLINKING */
-- 
2.43.0


From 7fd9aae0c2c1c36bc4518d9bed4ecee61c58a265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 003/116] fix: a zero length record got a field when the free
 space before it was stored in the free list

---
 Db/dballoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 2e9bf9b..7abf2a6 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -665,7 +665,7 @@ gint init_subarea_freespace(void* db, void* area_header, gint arrayindex) {
       nextobj = dv + dvsize;
       nextobjhead = dbfetch(db, nextobj);
       if( isnormalusedobject(nextobjhead) )
-        dbstore(db, nextobj, makeusedobjectsizeprevfree(getusedobjectsize(nextobjhead)));
+        dbstore(db, nextobj, makeusedobjectsizeprevfree(nextobjhead));
       if (freelist!=0) dbstore(db,freelist+2*sizeof(gint),dv); // update prev ptr
       dbstore(db,dv+sizeof(gint),freelist); // store previous freelist
       dbstore(db,dv+2*sizeof(gint),dbaddr(db,&freebuckets[dvindex])); // store ptr to previous
-- 
2.43.0


From da8d5ca56037008a54896d74e6273e833a9ee46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 004/116] fix: queued locks taken without being granted, grants
 lost on timeout

A waiter of the task-fair queue took any return of the futex call for a
granted lock (signals, wake-ups addressed to an earlier user of the same
cell), and on a time-out left the queue even if the lock had been handed to
it just before, so that nobody released it.  Wait until the flag says so and
check it again under the queue mutex before giving up.
---
 Db/dblock.c | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index 29ced95..0cb463b 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1028,15 +1028,24 @@ gint db_tfqueue_wlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
+    /* The wait may also return on a signal or a wake-up meant for an
+     * earlier user of this cell; only the flag tells that we were granted
+     * the lock. */
+    while(lockp->waiting) {
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+        lock_queue(db);
+        if(lockp->waiting) { /* not granted in the meantime */
+          DEQUEUE_LOCK(db, dbh, lock, lockp)
+          free_lock(db, lock);
+          unlock_queue(db);
+          return 0;
+        }
+        unlock_queue(db);
+      }
     }
 #else
-    futex_wait(&lockp->waiting, 1);
+    while(lockp->waiting)
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
@@ -1145,15 +1154,24 @@ gint db_tfqueue_rlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
+    /* The wait may also return on a signal or a wake-up meant for an
+     * earlier user of this cell; only the flag tells that we were granted
+     * the lock. */
+    while(lockp->waiting) {
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+        lock_queue(db);
+        if(lockp->waiting) { /* not granted in the meantime */
+          DEQUEUE_LOCK(db, dbh, lock, lockp)
+          free_lock(db, lock);
+          unlock_queue(db);
+          return 0;
+        }
+        unlock_queue(db);
+      }
     }
 #else
-    futex_wait(&lockp->waiting, 1);
+    while(lockp->waiting)
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
-- 
2.43.0


From 74305070c53717c2109bed75832e2f4b504fd491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:41 +0000
Subject: [PATCH 005/116] fix: atomic integer addition truncated the sum to 32
 bits

---
 Db/dbdata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index cb4a255..5312775 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1118,8 +1118,8 @@ wg_int wg_set_atomic_field(void* db, void* record, wg_int fieldnr, wg_int data)
 
 wg_int wg_add_int_atomic_field(void* db, void* record, wg_int fieldnr, int data) {
   gint* fieldadr;
-  gint old,nxt,r;
-  int i,sum;
+  gint old,nxt,r,sum;
+  int i;
 #ifdef _WIN32
   int ts=1;
 #else
-- 
2.43.0


From d20f10d8f341701624d91d391f3938c7aece21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:14 +0000
Subject: [PATCH 006/116] fix: index filter records were indexed as data, their
 use count started undefined

---
 Db/dbindex.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 46c414f..27e3ed8 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1826,18 +1826,21 @@ nextelem:
   rec = wg_create_raw_record(db, reclen);
   if(!rec)
     return 0;
+  /* Not data: should be marked before the fields are written, otherwise
+   * the match record itself ends up in the existing indexes. */
+  meta = ((gint *) rec + RECORD_META_POS);
+  *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
   for(i=0; i<reclen; i++) {
     if(wg_set_new_field(db, rec, i, matchrec[i]) < 0)
       return 0;
   }
-  meta = ((gint *) rec + RECORD_META_POS);
-  *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
 
   /* Add new template header */
   template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
   tmpl = (wg_index_template *) offsettoptr(db, template_offset);
   tmpl->offset_matchrec = ptrtooffset(db, rec);
   tmpl->fixed_columns = fixed_columns;
+  tmpl->refcount = 0;
 
   /* Insert it into the template list */
   if(!insert_into_list(db, ilist, template_offset))
-- 
2.43.0


From 6b5cff64debb573b003355919aede277810d381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:14 +0000
Subject: [PATCH 007/116] fix: refuse an unsupported index type before anything
 is created

---
 Db/dbindex.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 27e3ed8..ff51391 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2081,6 +2081,13 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
   }
 #endif
 
+  /* Only these types are implemented */
+  if(type != WG_INDEX_TYPE_TTREE && type != WG_INDEX_TYPE_HASH &&\
+    type != WG_INDEX_TYPE_HASH_JSON) {
+    show_index_error(db, "Invalid index type");
+    return -1;
+  }
+
   /* Column count validation */
   if(col_count < 1) {
     show_index_error(db, "need at least one indexed column");
-- 
2.43.0


From 734ec6e17b371d0892ec5d8645c9a1321aa03e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:14 +0000
Subject: [PATCH 008/116] fix: refused drop of a hash index left it half
 removed

---
 Db/dbindex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index ff51391..275a746 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2294,6 +2294,11 @@ gint wg_drop_index(void *db, gint index_id){
     ilistelem = (gcell *) offsettoptr(db, *ilist);
     if(ilistelem->car == index_id) {
       hdr = (wg_index_header *) offsettoptr(db, index_id);
+      if(hdr->type == WG_INDEX_TYPE_HASH ||\
+        hdr->type == WG_INDEX_TYPE_HASH_JSON) {
+        /* Refuse before anything is changed */
+        return drop_hash_index(db, index_id);
+      }
       /* Delete current element */
       delete_from_list(db, ilist);
       break;
-- 
2.43.0


From 64ed2b16f2547a04d0c9683759863fd879fed672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:14 +0000
Subject: [PATCH 009/116] fix: list multi-column indexes once

---
 Db/dbindex.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 275a746..d690ff6 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2614,7 +2614,14 @@ void * wg_get_all_indexes(void *db, gint *count) {
     while(*ilist) {
       gcell *ilistelem = (gcell *) offsettoptr(db, *ilist);
       if(ilistelem->car) {
-        res[(*count)++] = ilistelem->car;
+        wg_index_header *hdr = \
+          (wg_index_header *) offsettoptr(db, ilistelem->car);
+        /* A multi-column index is in the list of each of its columns */
+        if(hdr->rec_field_index[0] == column) {
+          if(*count < dbh->index_control_area_header.number_of_indexes)
+            res[*count] = ilistelem->car;
+          (*count)++;
+        }
       }
       ilist = &ilistelem->cdr;
     }
-- 
2.43.0


From e6b4b9a8cdd7259b9fdaf6a5a53d08e77958cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:14 +0000
Subject: [PATCH 010/116] fix: creating a multi-column hash index read past the
 end of short records

---
 Db/dbindex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index d690ff6..f99d24d 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1611,7 +1611,7 @@ static gint create_hash_index(void *db, gint index_id){
   void *rec;
   wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
   gint type = hdr->type;
-  gint firstcol = hdr->rec_field_index[0];
+  gint lastcol = hdr->rec_field_index[hdr->fields - 1];
   gint i;
 
   /* Initialize the hash table (0 - use default size) */
@@ -1623,7 +1623,7 @@ static gint create_hash_index(void *db, gint index_id){
   rowsprocessed = 0;
 
   while(rec != NULL) {
-    if(firstcol >= wg_get_record_len(db, rec)) {
+    if(lastcol >= wg_get_record_len(db, rec)) {
       rec=wg_get_next_record(db,rec);
       continue;
     }
-- 
2.43.0


From 01d3d6e6a46b860cf49b46e5a1da072f027b6deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:14 +0000
Subject: [PATCH 011/116] fix: hash index keys distinguish large integers,
 language tags and namespaces; blobs can be indexed

---
 Db/dbhash.c | 54 +++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 3051bc0..3e9cfbb 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -266,9 +266,11 @@ gint wg_remove_from_strhash(void* db, gint longstr) {
 
 /* -------------- hash index support ------------------ */
 
-#define CONCAT_FOR_HASHING(d, b, e, l, bb, en) \
+#define HASHING_WIDE_TYPE 0x40 /* type identifier bit: longer form of value */
+
+#define CONCAT_FOR_HASHING(b, e, l, bb) \
   if(e) { \
-    gint xl = wg_decode_xmlliteral_xsdtype_len(d, en); \
+    gint xl = strlen(e); \
     bb = malloc(xl + l + 1); \
     if(!bb) \
       return 0; \
@@ -286,9 +288,9 @@ gint wg_remove_from_strhash(void* db, gint longstr) {
  * returns 0 if the decode failed.
  *
  * NOTE: to differentiate between identical byte strings
- * the value is prefixed with a type identifier.
- * TODO: For values with varying length that can contain
- * '\0' bytes, add length to the prefix.
+ * the value is prefixed with a type identifier. Integers that do not
+ * fit in an int and texts that have a language or a prefix are marked
+ * in it. Blobs can contain '\0' bytes and are prefixed with their length.
  */
 gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
   gint len;
@@ -312,13 +314,22 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &ptrdata;
       break;
     case WG_INTTYPE:
-      len = sizeof(int);
-      intdata = wg_decode_int(db, enc);
-      bytedata = (char *) &intdata;
+      ptrdata = wg_decode_int(db, enc);
+      intdata = (int) ptrdata;
+      if(ptrdata == intdata) {
+        len = sizeof(int);
+        bytedata = (char *) &intdata;
+      } else {
+        len = sizeof(gint);
+        bytedata = (char *) &ptrdata;
+        type |= HASHING_WIDE_TYPE;
+      }
       break;
     case WG_DOUBLETYPE:
       len = sizeof(double);
       doubledata = wg_decode_double(db, enc);
+      if(doubledata == 0.0)
+        doubledata = 0.0; /* the negative zero is an equal value */
       bytedata = (char *) &doubledata;
       break;
     case WG_FIXPOINTTYPE:
@@ -329,18 +340,41 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
     case WG_STRTYPE:
       len = wg_decode_str_len(db, enc);
       bytedata = wg_decode_str(db, enc);
+      exdata = wg_decode_str_lang(db, enc);
+      CONCAT_FOR_HASHING(bytedata, exdata, len, buf)
+      if(exdata)
+        type |= HASHING_WIDE_TYPE;
       break;
     case WG_URITYPE:
       len = wg_decode_uri_len(db, enc);
       bytedata = wg_decode_uri(db, enc);
       exdata = wg_decode_uri_prefix(db, enc);
-      CONCAT_FOR_HASHING(db, bytedata, exdata, len, buf, enc)
+      CONCAT_FOR_HASHING(bytedata, exdata, len, buf)
+      if(exdata)
+        type |= HASHING_WIDE_TYPE;
       break;
     case WG_XMLLITERALTYPE:
       len = wg_decode_xmlliteral_len(db, enc);
       bytedata = wg_decode_xmlliteral(db, enc);
       exdata = wg_decode_xmlliteral_xsdtype(db, enc);
-      CONCAT_FOR_HASHING(db, bytedata, exdata, len, buf, enc)
+      CONCAT_FOR_HASHING(bytedata, exdata, len, buf)
+      break;
+    case WG_BLOBTYPE:
+      len = wg_decode_blob_len(db, enc);
+      exdata = wg_decode_blob_type(db, enc);
+      buf = malloc(sizeof(gint) + len + (exdata ? strlen(exdata) : 0));
+      if(!buf)
+        return 0;
+      ptrdata = len;
+      memcpy(buf, &ptrdata, sizeof(gint));
+      memcpy(buf + sizeof(gint), wg_decode_blob(db, enc), len);
+      len += sizeof(gint);
+      if(exdata) {
+        memcpy(buf + len, exdata, strlen(exdata));
+        len += strlen(exdata);
+        type |= HASHING_WIDE_TYPE;
+      }
+      bytedata = buf;
       break;
     case WG_CHARTYPE:
       len = sizeof(int);
-- 
2.43.0


From ebe6505d660af9cb49eec6155e7e0ce9c23b2785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:14 +0000
Subject: [PATCH 012/116] fix: records filled with wg_set_new_field left stale
 entries in multi-column hash indexes

---
 Db/dbdata.c  | 10 +++++++++
 Db/dbindex.c | 58 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 Db/dbindex.h |  1 +
 3 files changed, 69 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 5312775..88e0885 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -884,6 +884,16 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+  /* If the record has been added to a multi-column index because of another
+   * field, the entry changes. */
+  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
+    dbh->index_control_area_header.index_table[fieldnr]) {
+    if(wg_index_del_new_field(db, record, fieldnr) < -1) {
+      err = -3;
+      goto setnewfld_done;
+    }
+  }
+
   (*fieldadr)=data;
 
 #ifdef USE_CHILD_DB
diff --git a/Db/dbindex.c b/Db/dbindex.c
index f99d24d..0f78a6b 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -88,6 +88,7 @@ static gint remove_index_template(void *db, gint template_offset);
 
 static gint hash_add_row(void *db, gint index_id, void *rec);
 static gint hash_remove_row(void *db, gint index_id, void *rec);
+static gint hash_has_row(void *db, gint index_id, void *rec);
 static gint hash_recurse(void *db, wg_index_header *hdr, char *prefix,
   gint prefixlen, gint *values, gint count, void *rec, gint op, gint expand);
 static gint hash_extend_prefix(void *db, wg_index_header *hdr, char *prefix,
@@ -1500,6 +1501,28 @@ static gint hash_remove_row(void *db, gint index_id, void *rec) {
     HASHIDX_OP_REMOVE, (hdr->type == WG_INDEX_TYPE_HASH_JSON));
 }
 
+/** Check if the hash index contains a row with its current values
+ *  returns 1 if it does, 0 otherwise
+ */
+static gint hash_has_row(void *db, gint index_id, void *rec) {
+  wg_index_header *hdr = (wg_index_header *)offsettoptr(db,index_id);
+  gint i, list;
+  gint values[MAX_INDEX_FIELDS];
+
+  for(i=0; i<hdr->fields; i++) {
+    values[i] = wg_get_field(db, rec, hdr->rec_field_index[i]);
+  }
+  list = hash_recurse(db, hdr, NULL, 0, values, hdr->fields, rec,
+    HASHIDX_OP_FIND, (hdr->type == WG_INDEX_TYPE_HASH_JSON));
+  while(list > 0) {
+    gcell *cell = (gcell *) offsettoptr(db, list);
+    if(cell->car == ptrtooffset(db, rec))
+      return 1;
+    list = cell->cdr;
+  }
+  return 0;
+}
+
 /**
  * Construct a byte array for hashing recursively.
  * Hash it when it is complete.
@@ -2755,6 +2778,41 @@ gint wg_index_add_field(void *db, void *rec, gint column) {
   return 0;
 }
 
+/** Remove the entries that a record, the fields of which are being
+ * initialized one by one, already has in the multi-column indexes.
+ * Called before a field that has no value yet is written.
+ * returns 0 for success
+ * returns -1 for invalid arguments
+ * returns -2 for error (delete failed, possible index corruption)
+ */
+gint wg_index_del_new_field(void *db, void *rec, gint column) {
+  gint *ilist;
+  db_memsegment_header* dbh = dbmemsegh(db);
+  gint reclen = wg_get_record_len(db, rec);
+
+#ifdef CHECK
+  if(column > MAX_INDEXED_FIELDNR || column >= reclen)
+    return -1;
+  if(is_special_record(rec))
+    return -1;
+#endif
+
+  ilist = &dbh->index_control_area_header.index_table[column];
+  while(*ilist) {
+    gcell *ilistelem = (gcell *) offsettoptr(db, *ilist);
+    if(ilistelem->car) {
+      wg_index_header *hdr = \
+        (wg_index_header *) offsettoptr(db, ilistelem->car);
+      if(hdr->fields > 1 && reclen > hdr->rec_field_index[hdr->fields - 1] &&\
+        MATCH_TEMPLATE(db, hdr, rec) && hash_has_row(db, ilistelem->car, rec)) {
+        INDEX_REMOVE_ROW(db, hdr, ilistelem->car, rec)
+      }
+    }
+    ilist = &ilistelem->cdr;
+  }
+  return 0;
+}
+
 /** Add data of one record to all indexes
  * Convinience function to add an entire record into
  * all indexes in the database.
diff --git a/Db/dbindex.h b/Db/dbindex.h
index d973281..a9183d2 100644
--- a/Db/dbindex.h
+++ b/Db/dbindex.h
@@ -143,6 +143,7 @@ gint wg_match_template(void *db, wg_index_template *tmpl, void *rec);
 #endif
 
 gint wg_index_add_field(void *db, void *rec, gint column);
+gint wg_index_del_new_field(void *db, void *rec, gint column);
 gint wg_index_add_rec(void *db, void *rec);
 gint wg_index_del_field(void *db, void *rec, gint column);
 gint wg_index_del_rec(void *db, void *rec);
-- 
2.43.0


From 2d166579deb6c04a4a127cbb7b203ef5b15bed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:18 +0000
Subject: [PATCH 013/116] fix: query with an empty value range returns no rows

---
 Db/dbquery.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index f533691..eaab561 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -715,7 +715,7 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
   }
 
   if(index_id > 0) {
-    int start_inclusive = 0, end_inclusive = 0;
+    int start_inclusive = 0, end_inclusive = 0, empty_range = 0;
     gint start_bound = WG_ILLEGAL; /* encoded values */
     gint end_bound = WG_ILLEGAL;
 
@@ -812,18 +812,20 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
       }
     }
 
-    /* Simple sanity check. Is start_bound greater than end_bound? */
-    if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL &&\
-      WG_COMPARE(db, start_bound, end_bound) == WG_GREATER) {
-      /* return empty query */
-      query->argc = 0;
-      query->arglist = NULL;
-      free(full_arglist);
-      return query;
+    /* Simple sanity check. Is start_bound greater than end_bound? The
+     * range is also empty if the bounds are equal and neither of them
+     * is included. In both cases the query object is left pointing to
+     * no rows and the node search is skipped.
+     */
+    if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL) {
+      gint cmp = WG_COMPARE(db, start_bound, end_bound);
+      if(cmp == WG_GREATER ||\
+        (cmp == WG_EQUAL && !start_inclusive && !end_inclusive))
+        empty_range = 1;
     }
 
     /* Now find the bounding nodes for the query */
-    if(find_ttree_bounds(db, index_id, col,
+    if(!empty_range && find_ttree_bounds(db, index_id, col,
         start_bound, end_bound, start_inclusive, end_inclusive,
         &query->curr_offset, &query->curr_slot, &query->end_offset,
         &query->end_slot)) {
-- 
2.43.0


From 76ac2e8d52adc3797b1fd75c451fdfa0843f6f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:55 +0000
Subject: [PATCH 014/116] fix: offset of a chosen index kept in full width

---
 Db/dbquery.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index eaab561..164fc7e 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -140,7 +140,7 @@ static gint most_restricting_column(void *db,
   struct column_score {
     gint column;
     int score;
-    int index_id;
+    gint index_id;
   };
   struct column_score *sc;
   int i, j, mrc_score = -1;
-- 
2.43.0


From 43c8b45e41c158b959ee44884207fbb8d8bdd52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 015/116] fix: NaN has a consistent place in the order of
 values

---
 Db/dbcompare.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Db/dbcompare.c b/Db/dbcompare.c
index c8ddbac..4f8b843 100644
--- a/Db/dbcompare.c
+++ b/Db/dbcompare.c
@@ -176,6 +176,12 @@ gint wg_compare(void *db, gint a, gint b, int depth) {
         deca = wg_decode_double(db, a);
         decb = wg_decode_double(db, b);
         if(deca==decb) return WG_EQUAL; /* decoded doubles can be equal */
+        if(deca!=deca || decb!=decb) {
+          /* NaN: equal to each other and greater than any number, so
+           * that the order remains consistent. */
+          if(deca==deca) return WG_LESSTHAN;
+          return (decb==decb ? WG_GREATER : WG_EQUAL);
+        }
         return (deca>decb ? WG_GREATER : WG_LESSTHAN);
       }
     }
-- 
2.43.0


From d33062b3caf95be27c8f0dc5a53ebca9cf73914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:07 +0000
Subject: [PATCH 016/116] fix: document queries took array and object members
 for a key-value pair

Arrays and objects of three or more members were compared as if they were
(subject, key, value) rows when no hash index was used.
---
 Db/dbquery.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 164fc7e..1fa91ed 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1657,8 +1657,9 @@ static gint check_and_merge_by_kv(void *db, void *rec,
 {
   gint rc = 0;
   gint reclen = wg_get_record_len(db, rec);
-  if(reclen > WG_SCHEMA_VALUE_OFFSET) { /* XXX: assume key
-                                         * before value */
+  /* Array and object records are not key-value pairs */
+  if(is_plain_record(rec) &&\
+    reclen > WG_SCHEMA_VALUE_OFFSET) { /* XXX: assume key before value */
 #ifndef JSON_SCAN_UNWRAP_ARRAY
     if(WG_COMPARE(db, wg_get_field(db, rec, WG_SCHEMA_KEY_OFFSET),
       arg->key) == WG_EQUAL &&\
@@ -1696,7 +1697,8 @@ static gint check_and_merge_by_key(void *db, void *rec,
 {
   gint rc = 0;
   gint reclen = wg_get_record_len(db, rec);
-  if(reclen > WG_SCHEMA_VALUE_OFFSET) {
+  /* Array and object records are not key-value pairs */
+  if(is_plain_record(rec) && reclen > WG_SCHEMA_VALUE_OFFSET) {
 #ifndef JSON_SCAN_UNWRAP_ARRAY
     if(WG_COMPARE(db, wg_get_field(db, rec, WG_SCHEMA_VALUE_OFFSET),
       arg->value) == WG_EQUAL)
-- 
2.43.0


From 323db39ee28c9276e4d8cee391fdcda59a9c7d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:13 +0000
Subject: [PATCH 017/116] fix: documents of more than three nested objects
 could not be queried or deleted

The depth limits for walking between a document and its parts did not take
into account that each nested object takes two records.
---
 Db/dbquery.c  | 2 +-
 Db/dbschema.c | 4 ++--
 Db/dbschema.h | 6 ++++++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 1fa91ed..9aa6bdc 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1969,7 +1969,7 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
           rec, &arglist[i], next_set, 99);
 #else
         gint rc = check_and_merge_recursively(db,
-          rec, &arglist[i], next_set, WG_COMPARE_REC_DEPTH);
+          rec, &arglist[i], next_set, WG_SCHEMA_DOC_DEPTH);
 #endif
         IF_ERR_CLEAN_UP(db, curr_res, next_set, sorted_arglist, rc)
       }
diff --git a/Db/dbschema.c b/Db/dbschema.c
index 58575d8..bde1d54 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -167,7 +167,7 @@ void *wg_find_document(void *db, void *rec) {
   show_schema_error(db, "Backlinks are required to find complete documents");
   return NULL;
 #else
-  return find_document_recursive(db, (gint *) rec, WG_COMPARE_REC_DEPTH-1);
+  return find_document_recursive(db, (gint *) rec, WG_SCHEMA_DOC_DEPTH-1);
 #endif
 }
 
@@ -222,7 +222,7 @@ gint wg_delete_document(void *db, void *document) {
 #ifndef USE_BACKLINKING
   return delete_record_recursive(db, document, 99);
 #else
-  return delete_record_recursive(db, document, WG_COMPARE_REC_DEPTH);
+  return delete_record_recursive(db, document, WG_SCHEMA_DOC_DEPTH);
 #endif
 }
 
diff --git a/Db/dbschema.h b/Db/dbschema.h
index 0776d92..38ea6ac 100644
--- a/Db/dbschema.h
+++ b/Db/dbschema.h
@@ -35,6 +35,12 @@
 #define WG_SCHEMA_KEY_OFFSET (WG_SCHEMA_TRIPLE_OFFSET + 1)
 #define WG_SCHEMA_VALUE_OFFSET (WG_SCHEMA_TRIPLE_OFFSET + 2)
 
+/* Depth of the record tree of a document. The nesting of the document itself is
+ * restricted by WG_COMPARE_REC_DEPTH, each level of it may take two records
+ * (an object and the key-value pair that contains the next level).
+ */
+#define WG_SCHEMA_DOC_DEPTH (2*WG_COMPARE_REC_DEPTH)
+
 /* ====== data structures ======== */
 
 
-- 
2.43.0


From efe773476ceb0f06072e22f7c50a263f53582a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:37 +0000
Subject: [PATCH 018/116] fix: a matching row outside of documents made the
 whole document query fail

---
 Db/dbquery.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 9aa6bdc..f491ba2 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1597,6 +1597,13 @@ static query_result_set *unique_resultset(void *db, query_result_set *set)
 
 /* ------------------- (JSON) document query -------------------*/
 
+/* Return code for a matching row that belongs to no document */
+#ifdef USE_BACKLINKING
+#define NO_DOC_RC(db) 0
+#else
+#define NO_DOC_RC(db) show_query_error(db, "Failed to retrieve the document")
+#endif
+
 /* Note the non-conventional return code values:
  * -1 adding the document failed
  * 1 adding the document succeeded
@@ -1611,7 +1618,7 @@ static query_result_set *unique_resultset(void *db, query_result_set *set)
     else \
       rc = -1; \
   } else { \
-    rc = show_query_error(db, "Failed to retrieve the document"); \
+    rc = NO_DOC_RC(db); \
   }
 
 #define IF_ERR_CLEAN_UP(db, cr, ns, al, rc) \
-- 
2.43.0


From b627cd369eb24bc81a707fecc3384cc8657e0224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:08 +0000
Subject: [PATCH 019/116] fix: deleting a document failed halfway when
 something outside refers to a part of it

Check the depth and the references of all the parts before deleting anything.
---
 Db/dbschema.c | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/Db/dbschema.c b/Db/dbschema.c
index bde1d54..62d54f7 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -54,6 +54,7 @@ extern "C" {
 #ifdef USE_BACKLINKING
 static void *find_document_recursive(void *db, gint *rec, int depth);
 #endif
+static gint check_delete_recursive(void *db, void *rec, int depth, int top);
 static gint delete_record_recursive(void *db, void *rec, int depth);
 static gint show_schema_error(void *db, char *errmsg);
 
@@ -220,12 +221,58 @@ gint wg_delete_document(void *db, void *document) {
   }
 #endif
 #ifndef USE_BACKLINKING
+  if(check_delete_recursive(db, document, 99, 1))
+    return -1;
   return delete_record_recursive(db, document, 99);
 #else
+  if(check_delete_recursive(db, document, WG_SCHEMA_DOC_DEPTH, 1))
+    return -1;
   return delete_record_recursive(db, document, WG_SCHEMA_DOC_DEPTH);
 #endif
 }
 
+/*
+ * Check that a record and all the records it points to can be deleted,
+ * so that deleting them does not stop halfway.
+ *
+ * returns 0 if the records may be deleted
+ * returns -1 otherwise
+ */
+static gint check_delete_recursive(void *db, void *rec, int depth, int top) {
+  gint i, reclen;
+#ifdef USE_BACKLINKING
+  gint backlinks;
+#endif
+
+  if(depth <= 0) {
+    return show_schema_error(db, "deleting record: recursion too deep");
+  }
+#ifdef USE_CHILD_DB
+  if(wg_get_rec_owner(db, rec) != dbmemseg(db)) {
+    return show_schema_error(db, "deleting record: not a local record");
+  }
+#endif
+#ifdef USE_BACKLINKING
+  /* Other than the top level, each record should have a single parent */
+  backlinks = *((gint *) rec + RECORD_BACKLINKS_POS);
+  if(top ? (backlinks != 0) : (!backlinks ||\
+    ((gcell *) offsettoptr(db, backlinks))->cdr)) {
+    return show_schema_error(db,
+      "deleting record: there are references from elsewhere");
+  }
+#endif
+
+  reclen = wg_get_record_len(db, rec);
+  for(i=0; i<reclen; i++) {
+    gint enc = wg_get_field(db, rec, i);
+    if(wg_get_encoded_type(db, enc) == WG_RECORDTYPE) {
+      if(check_delete_recursive(db, wg_decode_record(db, enc), depth-1, 0))
+        return -1;
+    }
+  }
+  return 0;
+}
+
 /*
  * Delete a record and all the records it points to.
  * This is safe to call on JSON documents.
-- 
2.43.0


From 0fb034fb1405158b042944d87761caf84817f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:20 +0000
Subject: [PATCH 020/116] fix: a JSON file of exactly a multiple of 16384 bytes
 was silently not imported

---
 Db/dbjson.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index b80c020..016675d 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -220,8 +220,9 @@ gint wg_parse_json_file(void *db, const char *filename) {
       if(!feof(f)) {
         show_json_error_byte(db, "Read error", count);
         result = -1;
+        goto done;
       }
-      goto done;
+      break; /* the input ended exactly at the end of previous chunk */
     }
     if(yajl_parse(hand, (unsigned char *) &buf[count], rd) != yajl_status_ok) {
       unsigned char *errtxt = yajl_get_error(hand, 1,
@@ -232,7 +233,7 @@ gint wg_parse_json_file(void *db, const char *filename) {
       goto done;
     }
     count += rd;
-    if(count >= bufsize) {
+    if(count + WG_JSON_INPUT_CHUNK > bufsize) { /* space for next chunk */
       void *tmp = realloc(buf, bufsize + WG_JSON_INPUT_CHUNK);
       if(!tmp) {
         show_json_error(db, "Failed to allocate additional memory");
-- 
2.43.0


From 32f630168e43528714f4fb86649ab5076e8ab3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:20 +0000
Subject: [PATCH 021/116] fix: wg_check_json() did not agree with the import
 about nesting depth and numbers out of range

---
 Db/dbjson.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 016675d..69b23c6 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -116,6 +116,8 @@ static int add_literal(parser_context *ctx, gint val);
 
 static gint run_json_parser(void *db, const char *buf,
   yajl_callbacks *cb, int isparam, int isdocument, void **document);
+static int check_integer_cb(void* cb_ctx, long long intval);
+static int check_double_cb(void* cb_ctx, double doubleval);
 static int check_push_cb(void* cb_ctx);
 static int check_pop_cb(void* cb_ctx);
 static int array_begin_cb(void* cb_ctx);
@@ -141,8 +143,8 @@ static gint show_json_error_byte(void *db, const char *errmsg, int byte);
 yajl_callbacks validate_cb = {
     NULL,
     NULL,
-    NULL,
-    NULL,
+    check_integer_cb,
+    check_double_cb,
     NULL,
     NULL,
     check_push_cb,
@@ -422,11 +424,24 @@ done:
   return result;
 }
 
+/* The parser checks the range of numbers only if it has a function to
+ * pass them to.
+ */
+static int check_integer_cb(void* cb_ctx, long long intval)
+{
+  return 1;
+}
+
+static int check_double_cb(void* cb_ctx, double doubleval)
+{
+  return 1;
+}
+
 static int check_push_cb(void* cb_ctx)
 {
   int *depth = (int *) cb_ctx;
   if(*depth == -1) *depth = 0; /* hack: something was pushed */
-  if(++(*depth) >= MAX_DEPTH) {
+  if(++(*depth) > MAX_DEPTH) {
     return 0;
   }
   return 1;
-- 
2.43.0


From efcc6b36b21fe65b7660b675b04549ec0e71ab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:26 +0000
Subject: [PATCH 022/116] fix: JSON object keys were cut at 79 characters

---
 Db/dbjson.c | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 69b23c6..1a77247 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -92,7 +92,7 @@ typedef struct {
   stack_entry_t type;
   stack_entry_elem *head;
   stack_entry_elem *tail;
-  char last_key[80];
+  char *last_key;
   int size;
 } stack_entry;
 
@@ -110,6 +110,7 @@ typedef struct {
 
 static int push(parser_context *ctx, stack_entry_t type);
 static int pop(parser_context *ctx);
+static void free_stack_entry(stack_entry *e);
 static int add_elem(parser_context *ctx, gint enc);
 static int add_key(parser_context *ctx, char *key);
 static int add_literal(parser_context *ctx, gint val);
@@ -420,6 +421,12 @@ static gint run_json_parser(void *db, const char *buf,
   }
 
 done:
+  /* release what an error left on the stack */
+  while(ctx.stack_ptr >= 0) {
+    if(ctx.stack_ptr < MAX_DEPTH)
+      free_stack_entry(&ctx.stack[ctx.stack_ptr]);
+    ctx.stack_ptr--;
+  }
   if(hand) yajl_free(hand);
   return result;
 }
@@ -467,6 +474,7 @@ static int push(parser_context *ctx, stack_entry_t type)
   e->type = type;
   e->head = NULL;
   e->tail = NULL;
+  e->last_key = NULL;
   return 1;
 }
 
@@ -518,14 +526,7 @@ static int pop(parser_context *ctx)
     ret = 0;
   }
 
-  /* free the elements */
-  while(e->head) {
-    stack_entry_elem *tmp = e->head;
-    e->head = e->head->next;
-    free(tmp);
-  }
-  e->tail = NULL;
-  e->size = 0;
+  free_stack_entry(e);
 
   /* is it an element of something? */
   if(!istoplevel && rec && ret) {
@@ -535,6 +536,22 @@ static int pop(parser_context *ctx)
   return ret;
 }
 
+/**
+ * Release the elements and the key of a stack entry.
+ */
+static void free_stack_entry(stack_entry *e)
+{
+  while(e->head) {
+    stack_entry_elem *tmp = e->head;
+    e->head = e->head->next;
+    free(tmp);
+  }
+  e->tail = NULL;
+  e->size = 0;
+  if(e->last_key) free(e->last_key);
+  e->last_key = NULL;
+}
+
 /**
  * Append an element to the current stack entry.
  */
@@ -564,7 +581,8 @@ static int add_elem(parser_context *ctx, gint enc)
 }
 
 /**
- * Store a key in the current stack entry.
+ * Store a key in the current stack entry. Takes over the (allocated) key
+ * if successful.
  */
 static int add_key(parser_context *ctx, char *key)
 {
@@ -574,8 +592,8 @@ static int add_key(parser_context *ctx, char *key)
     return 0; /* paranoia */
 
   e = &ctx->stack[ctx->stack_ptr];
-  strncpy(e->last_key, key, 80);
-  e->last_key[79] = '\0';
+  if(e->last_key) free(e->last_key);
+  e->last_key = key;
   return 1;
 }
 
@@ -697,11 +715,11 @@ static int object_key_cb(void* cb_ctx, const unsigned char * strval,
   buf[strl] = '\0';
 
   if(!add_key(ctx, buf)) {
+    free(buf);
     res = 0;
   }
 /*  OUT_INDENT(ctx->stack_ptr+1, i, stdout)
   printf("KEY: %s\n", buf);*/
-  free(buf);
   return res;
 }
 
-- 
2.43.0


From 806794394b1d884b3cb7b516c9411bd0203ac4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:26 +0000
Subject: [PATCH 023/116] fix: null members were dropped when importing JSON
 and exported as text

---
 Db/dbjson.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 1a77247..c1ed20b 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -125,6 +125,7 @@ static int array_begin_cb(void* cb_ctx);
 static int array_end_cb(void* cb_ctx);
 static int object_begin_cb(void* cb_ctx);
 static int object_end_cb(void* cb_ctx);
+static int elem_null_cb(void* cb_ctx);
 static int elem_integer_cb(void* cb_ctx, long long intval);
 static int elem_double_cb(void* cb_ctx, double doubleval);
 static int object_key_cb(void* cb_ctx, const unsigned char * strval,
@@ -156,7 +157,7 @@ yajl_callbacks validate_cb = {
 };
 
 yajl_callbacks input_cb = {
-    NULL,
+    elem_null_cb,
     NULL,
     elem_integer_cb,
     elem_double_cb,
@@ -672,6 +673,12 @@ static int object_end_cb(void* cb_ctx)
   return 1;
 }
 
+static int elem_null_cb(void* cb_ctx)
+{
+  parser_context *ctx = (parser_context *) cb_ctx;
+  return add_literal(ctx, wg_encode_null(ctx->db, NULL));
+}
+
 static int elem_integer_cb(void* cb_ctx, long long intval)
 {
 /*  int i;*/
@@ -877,6 +884,10 @@ static int pretty_print_jsonval(void *db, yajl_gen *g, gint enc)
         return show_json_error(db, "Formatter failure");
       }
     }
+  } else if(type == WG_NULLTYPE) {
+    if(yajl_gen_null(*g) != yajl_gen_status_ok) {
+      return show_json_error(db, "Formatter failure");
+    }
   } else {
     /* other literal value */
     size_t len;
-- 
2.43.0


From ef1bfe5c1ae07f2aeaeeb2f700a50f35e5f2dc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:26 +0000
Subject: [PATCH 024/116] fix: JSON export cut integers to 32 bits and doubles
 to six decimals

---
 Db/dbjson.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index c1ed20b..25df66d 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -888,14 +888,21 @@ static int pretty_print_jsonval(void *db, yajl_gen *g, gint enc)
     if(yajl_gen_null(*g) != yajl_gen_status_ok) {
       return show_json_error(db, "Formatter failure");
     }
+  } else if(type == WG_INTTYPE) {
+    if(yajl_gen_integer(*g, wg_decode_int(db, enc)) != yajl_gen_status_ok) {
+      return show_json_error(db, "Formatter failure");
+    }
+  } else if(type == WG_DOUBLETYPE) {
+    if(yajl_gen_double(*g, wg_decode_double(db, enc)) != yajl_gen_status_ok) {
+      return show_json_error(db, "Formatter failure");
+    }
   } else {
     /* other literal value */
     size_t len;
     char buf[80];
     wg_snprint_value(db, enc, buf, 79);
     len = strlen(buf);
-    if(type == WG_INTTYPE || type == WG_DOUBLETYPE ||\
-      type == WG_FIXPOINTTYPE) {
+    if(type == WG_FIXPOINTTYPE) {
       if(yajl_gen_number(*g, buf, len) != yajl_gen_status_ok) {
         return show_json_error(db, "Formatter failure");
       }
-- 
2.43.0


From d900f0ed23fccbca8b11b7e43a47e6146d951fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:26 +0000
Subject: [PATCH 025/116] fix: malformed JSON left half of the document in the
 database

---
 Db/dbjson.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 25df66d..a363690 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -371,8 +371,9 @@ gint wg_parse_json_param(void *db, const char *buf, void **document) {
 }
 
 /* Run JSON parser.
- * The data is inserted in the database. If there are any errors, the
+ * The data is inserted in the database. If storing the data fails, the
  * database will currently remain in an inconsistent state, so beware.
+ * Incorrect input does not modify the database.
  *
  * if isparam is specified, the data will not be indexed nor returned
  * by wg_get_*_record() calls.
@@ -395,6 +396,13 @@ static gint run_json_parser(void *db, const char *buf,
   const char *iptr = buf;
   parser_context ctx;
 
+  /* Check the input first, as records created before a syntax error
+   * is encountered would stay in the database.
+   */
+  *document = NULL;
+  if(wg_check_json(db, buf))
+    return -1;
+
   /* setup context */
   ctx.state = 0;
   ctx.stack_ptr = -1;
-- 
2.43.0


From 37227a78feaa6417e74f8c478e15a6743da26f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:26 +0000
Subject: [PATCH 026/116] fix: the character after an unpaired surrogate escape
 was lost from JSON text

---
 json/yajl_all.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json/yajl_all.c b/json/yajl_all.c
index d7b3a56..0e62665 100644
--- a/json/yajl_all.c
+++ b/json/yajl_all.c
@@ -471,6 +471,7 @@ static void yajl_string_decode(yajl_buf buf, const unsigned char * str,
                                  (surrogate & 0x3FF));
                             end += 5;
                         } else {
+                            end--; /* not a part of this escape */
                             unescaped = "?";
                             break;
                         }
-- 
2.43.0


From e4f10731a55cceeacc858c8057df845fbce8c573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:50 +0000
Subject: [PATCH 027/116] fix: an unfinished token after a complete JSON value
 was accepted

---
 json/yajl_all.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/json/yajl_all.c b/json/yajl_all.c
index 0e62665..f224605 100644
--- a/json/yajl_all.c
+++ b/json/yajl_all.c
@@ -1694,8 +1694,18 @@ yajl_do_finish(yajl_handle hand)
         case yajl_state_parse_error:
         case yajl_state_lexical_error:
             return yajl_status_error;
-        case yajl_state_got_value:
         case yajl_state_parse_complete:
+            /* an unfinished token (other than a line comment) after the value */
+            if (!(hand->flags & yajl_allow_trailing_garbage) &&
+                hand->lexer->bufInUse && yajl_buf_len(hand->lexer->buf) &&
+                strncmp((const char *) yajl_buf_data(hand->lexer->buf), "//", 2))
+            {
+                yajl_bs_set(hand->stateStack, yajl_state_parse_error);
+                hand->parseError = "trailing garbage";
+                return yajl_status_error;
+            }
+            return yajl_status_ok;
+        case yajl_state_got_value:
             return yajl_status_ok;
         default:
             if (!(hand->flags & yajl_allow_partial_values))
-- 
2.43.0


From 29a2851cb80675c7156ba0745f59258cbe7e0230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:57 +0000
Subject: [PATCH 028/116] fix: journal replay used stale address translations
 when addresses were reused

---
 Db/dbhash.c |  8 ++++++++
 Db/dblog.c  | 20 ++++++++++----------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 3e9cfbb..dc63230 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -628,6 +628,7 @@ void *wg_ginthash_init(void *db) {
 }
 
 /** Add a key/value pair to the hash table.
+ *  If the key is already present, its value is replaced.
  *  tbl should be created with wg_ginthash_init()
  *  Returns 0 on success
  *  Returns -1 on failure
@@ -648,6 +649,13 @@ gint wg_ginthash_addkey(void *db, void *tbl, gint key, gint val) {
     ((ext_ginthash *)tbl)->directory[hash] = bucket;
   }
   else {
+    int i;
+    for(i=0; i<bucket->fill; i++) {
+      if(bucket->key[i] == key) {
+        bucket->value[i] = val;
+        return 0;
+      }
+    }
     add_to_bucket(bucket, key, val);
     while(bucket->fill > GINTHASH_BUCKETCAP) {
       ginthash_bucket *newb;
diff --git a/Db/dblog.c b/Db/dblog.c
index b9c5a47..adbace5 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -448,6 +448,10 @@ static int fget_varint(void *db, FILE *f, wg_uint *val) {
  */
 static gint add_tran_offset(void *db, void *table, gint old, gint new)
 {
+  /* Nothing to do if the current translation (which may be a leftover from
+   * an earlier object that used the same offset) is already correct. */
+  if(translate_offset(db, table, old) == new)
+    return 0;
   return wg_ginthash_addkey(db, table, old, new);
 }
 
@@ -622,11 +626,9 @@ static gint recover_journal(void *db, FILE *f, void *table)
             return show_log_error(db, "Failed to create a new record");
           }
           newoffset = ptrtooffset(db, rec);
-          if(newoffset != offset) {
-            if(add_tran_offset(db, table, offset, newoffset)) {
-              return show_log_error(db, "Failed to parse log "\
-                "(out of translation memory)");
-            }
+          if(add_tran_offset(db, table, offset, newoffset)) {
+            return show_log_error(db, "Failed to parse log "\
+              "(out of translation memory)");
           }
         }
         break;
@@ -647,11 +649,9 @@ static gint recover_journal(void *db, FILE *f, void *table)
           if(newenc == WG_ILLEGAL) {
             return -1;
           }
-          if(newenc != enc) {
-            if(add_tran_enc(db, table, enc, newenc)) {
-              return show_log_error(db, "Failed to parse log "\
-                "(out of translation memory)");
-            }
+          if(add_tran_enc(db, table, enc, newenc)) {
+            return show_log_error(db, "Failed to parse log "\
+              "(out of translation memory)");
           }
         }
         break;
-- 
2.43.0


From 2c3e39292eff769ee48376f621080f79d5f53650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:57 +0000
Subject: [PATCH 029/116] fix: integers that need allocation were not
 journalled and their address garbled the journal

---
 Db/dblog.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index adbace5..e7cf38b 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -536,12 +536,12 @@ gint recover_encode(void *db, FILE *f, gint type)
 {
   char *strbuf, *extbuf;
   gint length = 0, extlength = 0, enc;
-  int intval;
+  gint intval;
   double doubleval;
 
   switch(type) {
     case WG_INTTYPE:
-      if(fread((char *) &intval, sizeof(int), 1, f) != 1) {
+      if(fread((char *) &intval, sizeof(gint), 1, f) != 1) {
         show_log_error(db, "Failed to read log entry");
         return WG_ILLEGAL;
       }
@@ -1079,14 +1079,14 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       return 0;
       break;
     case WG_INTTYPE:
-      /* int argument */
-      if(fits_smallint(*((int *) data))) {
+      /* gint argument */
+      if(fits_smallint(*((gint *) data))) {
         return 0; /* self-contained, don't log */
       } else {
-        buflen = 1 + sizeof(int);
+        buflen = 1 + sizeof(gint);
         buf = (unsigned char *) malloc(buflen);
         optr = buf + 1;
-        *((int *) optr) = *((int *) data);
+        *((gint *) optr) = *((gint *) data);
       }
       break;
     case WG_DOUBLETYPE:
-- 
2.43.0


From 44080639daf34a7d288367afdc1c0664968fb365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:09 +0000
Subject: [PATCH 030/116] fix: strings with a language, prefix or type were
 journalled as two interleaved entries

---
 Db/dbdata.c | 59 ++++++++++++++++++++++++-----------------------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 88e0885..bf274a6 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -89,6 +89,7 @@ static long ymd_to_scalar (unsigned yr, unsigned mo, unsigned day);
 static void scalar_to_ymd (long scalar, unsigned *yr, unsigned *mo, unsigned *day);
 
 static gint free_field_encoffset(void* db,gint encoffset);
+static gint encode_unistr(void* db, const char* str, const char* lang, gint type);
 static gint find_create_longstr(void* db, const char* data, const char* extrastr, gint type, gint length);
 
 #ifdef USE_CHILD_DB
@@ -2504,6 +2505,31 @@ Universal funs for string, xmlliteral, uri, blob
 
 
 gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
+#ifdef USE_DBLOG
+  gint enc;
+
+  /* Log before allocating. */
+  if(dbmemsegh(db)->logging.active) {
+    gint extlen = 0;
+    if(lang) extlen = strlen(lang);
+    if(wg_log_encode(db, type, str, (gint) strlen(str), lang, extlen))
+      return WG_ILLEGAL;
+  }
+  enc = encode_unistr(db, str, lang, type);
+  if(dbmemsegh(db)->logging.active) {
+    if(wg_log_encval(db, enc))
+      return WG_ILLEGAL; /* journal error */
+  }
+  return enc;
+#else
+  return encode_unistr(db, str, lang, type);
+#endif
+}
+
+/** Encode a string without writing to the journal. The extra string that
+ *  belongs to another string is a part of the latter's journal entry.
+ */
+static gint encode_unistr(void* db, const char* str, const char* lang, gint type) {
   gint offset;
   gint len;
 #ifdef USETINYSTR
@@ -2514,15 +2540,6 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
   char* dendptr;
 
   len=(gint)(strlen(str));
-#ifdef USE_DBLOG
-  /* Log before allocating. */
-  if(dbmemsegh(db)->logging.active) {
-    gint extlen = 0;
-    if(lang) extlen = strlen(lang);
-    if(wg_log_encode(db, type, str, len, lang, extlen))
-      return WG_ILLEGAL;
-  }
-#endif
 #ifdef USETINYSTR
 /* XXX: add tinystr support to logging */
 #ifdef USE_DBLOG
@@ -2544,11 +2561,6 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
     offset=alloc_shortstr(db);
     if (!offset) {
       show_data_error_str(db,"cannot store a string in wg_encode_unistr",str);
-#ifdef USE_DBLOG
-      if(dbmemsegh(db)->logging.active) {
-        wg_log_encval(db, WG_ILLEGAL);
-      }
-#endif
       return WG_ILLEGAL;
     }
     // loop over bytes, storing them starting from offset
@@ -2561,31 +2573,14 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
     for(sptr=(char *) str; (*dptr=*sptr)!=0; sptr++, dptr++) {}; // copy string
     for(dptr++; dptr<dendptr; dptr++) { *dptr=0; }; // zero the rest
     // store offset to field
-#ifdef USE_DBLOG
-    if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_shortstr_offset(offset)))
-        return WG_ILLEGAL; /* journal error */
-    }
-#endif
     return encode_shortstr_offset(offset);
     //dbstore(db,ptrtoffset(record)+RECORD_HEADER_GINTS+fieldnr,encode_shortstr_offset(offset));
   } else {
     offset=find_create_longstr(db,str,lang,type,len+1);
     if (!offset) {
       show_data_error_nr(db,"cannot create a string of size ",len);
-#ifdef USE_DBLOG
-      if(dbmemsegh(db)->logging.active) {
-        wg_log_encval(db, WG_ILLEGAL);
-      }
-#endif
       return WG_ILLEGAL;
     }
-#ifdef USE_DBLOG
-    if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_longstr_offset(offset)))
-        return WG_ILLEGAL; /* journal error */
-    }
-#endif
     return encode_longstr_offset(offset);
   }
 }
@@ -2658,7 +2653,7 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
     }
     // if extrastr exists, encode extrastr and store ptr to longstr record field
     if (extrastr!=NULL) {
-      tmp=wg_encode_str(db,extrastr,NULL);
+      tmp=encode_unistr(db,extrastr,NULL,WG_STRTYPE);
       if (tmp==WG_ILLEGAL) {
         //show_data_error_nr(db,"cannot create an (extra)string of size ",strlen(extrastr));
         return 0;
-- 
2.43.0


From 3dcd1811d3d65ac6aebec5f3bf5ac88a4351a6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:09 +0000
Subject: [PATCH 031/116] fix: a string was lost from the hash chain when its
 extra string hashed to the same bucket

---
 Db/dbdata.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index bf274a6..5f0d169 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2656,6 +2656,7 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
       tmp=encode_unistr(db,extrastr,NULL,WG_STRTYPE);
       if (tmp==WG_ILLEGAL) {
         //show_data_error_nr(db,"cannot create an (extra)string of size ",strlen(extrastr));
+        wg_free_object(db,&(dbmemsegh(db)->longstr_area_header),offset);
         return 0;
       }
       dbstore(db,offset+LONGSTR_EXTRASTR_POS*sizeof(gint),tmp);
@@ -2680,6 +2681,8 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
     dbstore(db,offset+LONGSTR_BACKLINKS_POS*sizeof(gint),0); // no backlinks yet
     // encode
     res=encode_longstr_offset(offset);
+    // encoding the extrastr may have changed the hash chain
+    hasharrel=dbfetch(db,((dbh->strhash_area_header).arraystart)+(sizeof(gint)*hash));
     // store to hash and update hashchain
     dbstore(db,((dbh->strhash_area_header).arraystart)+(sizeof(gint)*hash),res);
     //printf("hasharrel 2 %d \n",hasharrel);
-- 
2.43.0


From b31536612432b318564c8817ffb9e962ef2d763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:09 +0000
Subject: [PATCH 032/116] fix: blobs were not journalled

---
 Db/dbdata.c | 20 ++++++++++++++++++++
 Db/dblog.c  |  9 ++++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 5f0d169..145a26a 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2591,11 +2591,31 @@ gint wg_encode_uniblob(void* db, const char* str, const char* lang, gint type, g
 
   if (0) {
   } else {
+#ifdef USE_DBLOG
+    /* Log before allocating. */
+    if(dbmemsegh(db)->logging.active) {
+      gint extlen = 0;
+      if(lang) extlen = strlen(lang);
+      if(wg_log_encode(db, type, str, len, lang, extlen))
+        return WG_ILLEGAL;
+    }
+#endif
     offset=find_create_longstr(db,str,lang,type,len);
     if (!offset) {
       show_data_error_nr(db,"cannot create a blob of size ",len);
+#ifdef USE_DBLOG
+      if(dbmemsegh(db)->logging.active) {
+        wg_log_encval(db, WG_ILLEGAL);
+      }
+#endif
       return WG_ILLEGAL;
     }
+#ifdef USE_DBLOG
+    if(dbmemsegh(db)->logging.active) {
+      if(wg_log_encval(db, encode_longstr_offset(offset)))
+        return WG_ILLEGAL; /* journal error */
+    }
+#endif
     return encode_longstr_offset(offset);
   }
 }
diff --git a/Db/dblog.c b/Db/dblog.c
index e7cf38b..10003c1 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -556,7 +556,7 @@ gint recover_encode(void *db, FILE *f, gint type)
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
-    case WG_BLOBTYPE: /* XXX: no encode func for this yet */
+    case WG_BLOBTYPE:
       /* strings with extdata */
       GET_LOG_VARINT(db, f, length, WG_ILLEGAL)
       GET_LOG_VARINT(db, f, extlength, WG_ILLEGAL)
@@ -591,7 +591,10 @@ gint recover_encode(void *db, FILE *f, gint type)
         extbuf = NULL;
       }
 
-      enc = wg_encode_unistr(db, strbuf, extbuf, type);
+      if(type == WG_BLOBTYPE)
+        enc = wg_encode_uniblob(db, strbuf, extbuf, type, length);
+      else
+        enc = wg_encode_unistr(db, strbuf, extbuf, type);
       free(strbuf);
       if(extbuf)
         free(extbuf);
@@ -1100,7 +1103,7 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
-    case WG_BLOBTYPE: /* XXX: no encode func for this yet */
+    case WG_BLOBTYPE:
       /* strings with extdata */
       buflen = 1 + 2*VARINT_SIZE + length + extlength;
       buf = (unsigned char *) malloc(buflen);
-- 
2.43.0


From 6272a958c2c7890815f804dbec417a8e8ef4a602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:28 +0000
Subject: [PATCH 033/116] fix: replay turned parameter and index template
 records into data records

---
 Db/dbindex.c  | 14 +++++++++++---
 Db/dbschema.c | 13 ++++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 0f78a6b..11dfbd0 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -46,6 +46,7 @@ extern "C" {
 #include "dbcompare.h"
 #include "dbhash.h"
 #include "dbutil.h"
+#include "dblog.h"
 
 
 /* ====== Private defs =========== */
@@ -1779,7 +1780,7 @@ static void delete_from_list(void *db, gint *head) {
  * Returns 0 on error.
  */
 static gint add_index_template(void *db, gint *matchrec, gint reclen) {
-  gint *ilist, *meta;
+  gint *ilist, *metap, meta;
   void *rec;
   db_memsegment_header* dbh = dbmemsegh(db);
   wg_index_template *tmpl;
@@ -1851,8 +1852,15 @@ nextelem:
     return 0;
   /* Not data: should be marked before the fields are written, otherwise
    * the match record itself ends up in the existing indexes. */
-  meta = ((gint *) rec + RECORD_META_POS);
-  *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
+  metap = ((gint *) rec + RECORD_META_POS);
+  meta = *metap | (RECORD_META_NOTDATA | RECORD_META_MATCH);
+#ifdef USE_DBLOG
+  if(dbh->logging.active) {
+    if(wg_log_set_meta(db, rec, meta))
+      return 0;
+  }
+#endif
+  *metap = meta;
   for(i=0; i<reclen; i++) {
     if(wg_set_new_field(db, rec, i, matchrec[i]) < 0)
       return 0;
diff --git a/Db/dbschema.c b/Db/dbschema.c
index 62d54f7..3d5017b 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -69,11 +69,18 @@ static gint show_schema_error(void *db, char *errmsg);
  */
 void *wg_create_triple(void *db, gint subj, gint prop, gint ob, gint isparam) {
   void *rec = wg_create_raw_record(db, WG_SCHEMA_TRIPLE_SIZE);
-  gint *meta;
+  gint *metap, meta;
   if(rec) {
-    meta = ((gint *) rec + RECORD_META_POS);
+    metap = ((gint *) rec + RECORD_META_POS);
     if(isparam) {
-      *meta |= (RECORD_META_NOTDATA|RECORD_META_MATCH);
+      meta = *metap | (RECORD_META_NOTDATA|RECORD_META_MATCH);
+#ifdef USE_DBLOG
+      if(dbmemsegh(db)->logging.active) {
+        if(wg_log_set_meta(db, rec, meta))
+          return NULL;
+      }
+#endif
+      *metap = meta;
     } else if(wg_index_add_rec(db, rec) < -1) {
       return NULL; /* index error */
     }
-- 
2.43.0


From 4082eeb2559eca2037963595de7850f602daa820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:57 +0000
Subject: [PATCH 034/116] fix: rejected field writes and deletes were
 journalled (and index entries removed)

---
 Db/dbdata.c | 57 ++++++++++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 145a26a..762d2c9 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -219,6 +219,15 @@ gint wg_delete_record(void* db, void *rec) {
     return -1;
 #endif
 
+  offset = ptrtooffset(db, rec);
+#if defined(CHECK) && defined(USE_CHILD_DB)
+  /* Check if it's a local record */
+  if(!is_local_offset(db, offset)) {
+    show_data_error(db, "not deleting an external record");
+    return -2;
+  }
+#endif
+
 #ifdef USE_DBLOG
   /* Log first, modify shared memory next */
   if(dbmemsegh(db)->logging.active) {
@@ -233,15 +242,6 @@ gint wg_delete_record(void* db, void *rec) {
       return -3; /* index error */
   }
 
-  offset = ptrtooffset(db, rec);
-#if defined(CHECK) && defined(USE_CHILD_DB)
-  /* Check if it's a local record */
-  if(!is_local_offset(db, offset)) {
-    show_data_error(db, "not deleting an external record");
-    return -2;
-  }
-#endif
-
   /* Loop over fields, freeing them */
   dendptr = (gint *) (((char *) rec) + datarec_size_bytes(*((gint *)rec)));
   for(dptr=(gint *)rec+RECORD_HEADER_GINTS; dptr<dendptr; dptr++) {
@@ -640,6 +640,17 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   recordcheck(db,record,fieldnr,"wg_set_field");
 #endif
 
+#ifdef USE_CHILD_DB
+  /* Get the offset owner */
+  if(isptr(data)) {
+    offset_owner = get_ptr_owner(db, data);
+    if(!offset_owner) {
+      show_data_error(db, "External reference not recognized");
+      return -5;
+    }
+  }
+#endif
+
 #ifdef USE_DBLOG
   /* Do not proceed before we've logged the operation */
   if(dbh->logging.active) {
@@ -691,18 +702,6 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
     }
   }
 
-#ifdef USE_CHILD_DB
-  /* Get the offset owner */
-  if(isptr(data)) {
-    offset_owner = get_ptr_owner(db, data);
-    if(!offset_owner) {
-      show_data_error(db, "External reference not recognized");
-      err = -5;
-      goto setfld_done;
-    }
-  }
-#endif
-
 #ifdef USE_BACKLINKING
   /* Is the old field value a record pointer? If so, remove the backlink.
    * XXX: this can be optimized to use a custom macro instead of
@@ -840,14 +839,6 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   recordcheck(db,record,fieldnr,"wg_set_field");
 #endif
 
-#ifdef USE_DBLOG
-  /* Do not proceed before we've logged the operation */
-  if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
-      return -6; /* journal error, cannot write */
-  }
-#endif
-
 #ifdef USE_CHILD_DB
   /* Get the offset owner */
   if(isptr(data)) {
@@ -868,6 +859,14 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+#ifdef USE_DBLOG
+  /* Do not proceed before we've logged the operation */
+  if(dbh->logging.active) {
+    if(wg_log_set_field(db,record,fieldnr,data))
+      return -6; /* journal error, cannot write */
+  }
+#endif
+
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
   /* Remove the entries of all referring records from indexes. Normal
    * usage scenario would be that the record is also new, so that
-- 
2.43.0


From 0552fda1d210041c7d2b27990f6e638de7a6223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:40 +0000
Subject: [PATCH 035/116] fix: an empty language or type string was lost in the
 journal; unchecked allocations in wg_log_encode

---
 Db/dblog.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Db/dblog.c b/Db/dblog.c
index 10003c1..a4167ef 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -1088,6 +1088,8 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       } else {
         buflen = 1 + sizeof(gint);
         buf = (unsigned char *) malloc(buflen);
+        if(!buf)
+          return show_log_error(db, "Failed to allocate buffers");
         optr = buf + 1;
         *((gint *) optr) = *((gint *) data);
       }
@@ -1096,6 +1098,8 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       /* double precision argument */
       buflen = 1 + sizeof(double);
       buf = (unsigned char *) malloc(buflen);
+      if(!buf)
+        return show_log_error(db, "Failed to allocate buffers");
       optr = buf + 1;
       *((double *) optr) = *((double *) data);
       break;
@@ -1105,8 +1109,14 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
     case WG_ANONCONSTTYPE:
     case WG_BLOBTYPE:
       /* strings with extdata */
+      /* an empty extra string (as opposed to none) is stored with its
+       * terminating zero. */
+      if(extdata && !extlength)
+        extlength = 1;
       buflen = 1 + 2*VARINT_SIZE + length + extlength;
       buf = (unsigned char *) malloc(buflen);
+      if(!buf)
+        return show_log_error(db, "Failed to allocate buffers");
 
       /* data and extdata length */
       optr = buf + 1;
-- 
2.43.0


From 77bd101576de3ef07c6bc7e916219618e5b5b87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:55 +0000
Subject: [PATCH 036/116] fix: a failed journal write left a torn entry and a
 closed descriptor behind

---
 Db/dbdata.c | 12 +++++++++---
 Db/dblog.c  | 52 +++++++++++++++++++++++++++++++++++++++++-----------
 Db/dblog.h  |  1 +
 3 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 762d2c9..9a88d08 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -184,8 +184,10 @@ void* wg_create_raw_record(void* db, wg_int length) {
 #ifdef USE_DBLOG
   /* Append the created offset to log */
   if(dbmemsegh(db)->logging.active) {
-    if(wg_log_encval(db, offset))
+    if(wg_log_encval(db, offset)) {
+      wg_free_object(db, &(dbmemsegh(db)->datarec_area_header), offset);
       return 0; /* journal error */
+    }
   }
 #endif
 
@@ -1517,8 +1519,10 @@ wg_int wg_encode_int(void* db, wg_int data) {
     dbstore(db,offset,data);
 #ifdef USE_DBLOG
     if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_fullint_offset(offset)))
+      if(wg_log_encval(db, encode_fullint_offset(offset))) {
+        wg_free_encoded(db, encode_fullint_offset(offset));
         return WG_ILLEGAL; /* journal error */
+      }
     }
 #endif
     return encode_fullint_offset(offset);
@@ -1602,8 +1606,10 @@ wg_int wg_encode_double(void* db, double data) {
     *((double*)(offsettoptr(db,offset)))=data;
 #ifdef USE_DBLOG
     if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_fulldouble_offset(offset)))
+      if(wg_log_encval(db, encode_fulldouble_offset(offset))) {
+        wg_free_encoded(db, encode_fulldouble_offset(offset));
         return WG_ILLEGAL; /* journal error */
+      }
     }
 #endif
     return encode_fulldouble_offset(offset);
diff --git a/Db/dblog.c b/Db/dblog.c
index a4167ef..ae425f0 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -121,7 +121,8 @@ static gint translate_encoded(void *db, void *table, gint enc);
 static gint recover_encode(void *db, FILE *f, gint type);
 static gint recover_journal(void *db, FILE *f, void *table);
 
-static gint write_log_buffer(void *db, void *buf, int buflen);
+static gint write_log_buffer(void *db, void *buf, int buflen, int entrylen);
+static int truncate_journal(int fd, int bytes);
 #endif /* USE_DBLOG */
 
 static gint show_log_error(void *db, char *errmsg);
@@ -940,12 +941,16 @@ abort2:
 #ifdef USE_DBLOG
 /** Write a byte buffer to the log file.
  *
+ *  entrylen is the number of bytes of the same log entry that are
+ *  already in the file. If the write fails, the journal is cut back to
+ *  where the entry started so that later entries remain readable.
  */
-static gint write_log_buffer(void *db, void *buf, int buflen)
+static gint write_log_buffer(void *db, void *buf, int buflen, int entrylen)
 {
   db_memsegment_header* dbh = dbmemsegh(db);
   db_handle_logdata *ld = \
     (db_handle_logdata *) (((db_handle *) db)->logdata);
+  int written;
 
   if(ld->fd >= 0 && ld->serial != dbh->logging.serial) {
     /* Stale file descriptor, get a new one */
@@ -981,16 +986,38 @@ static gint write_log_buffer(void *db, void *buf, int buflen)
   dbh->logging.dirty = 1;
 
 #ifndef _WIN32
-  if(write(ld->fd, (char *) buf, buflen) != buflen) {
+  written = write(ld->fd, (char *) buf, buflen);
 #else
-  if(_write(ld->fd, (char *) buf, buflen) != buflen) {
+  written = _write(ld->fd, (char *) buf, buflen);
 #endif
+  if(written != buflen) {
+    int fd = ld->fd;
     show_log_error(db, "Error writing to log file");
-    JOURNAL_FAIL(ld->fd, -5)
+    ld->fd = -1;
+    if(written > 0)
+      entrylen += written;
+    if(entrylen && truncate_journal(fd, entrylen))
+      show_log_error(db, "Failed to remove an incomplete log entry");
+    JOURNAL_FAIL(fd, -5)
   }
 
   return 0;
 }
+
+/** Remove bytes from the end of the journal file.
+ *
+ */
+static int truncate_journal(int fd, int bytes)
+{
+#ifndef _WIN32
+  struct stat tmp;
+  if(fstat(fd, &tmp) == -1)
+    return -1;
+  return ftruncate(fd, tmp.st_size - bytes);
+#else
+  return _chsize_s(fd, _filelengthi64(fd) - bytes) ? -1 : 0;
+#endif
+}
 #endif /* USE_DBLOG */
 
 /*
@@ -1019,7 +1046,8 @@ gint wg_log_create_record(void *db, gint length)
   buf[0] = WG_JOURNAL_ENTRY_CRE;
   optr = &buf[1];
   optr += enc_varint(optr, (wg_uint) length);
-  return write_log_buffer(db, (void *) buf, optr - buf);
+  ((db_handle_logdata *) (((db_handle *) db)->logdata))->entrylen = optr - buf;
+  return write_log_buffer(db, (void *) buf, optr - buf, 0);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
@@ -1035,7 +1063,7 @@ gint wg_log_delete_record(void *db, gint enc)
   buf[0] = WG_JOURNAL_ENTRY_DEL;
   optr = &buf[1];
   optr += enc_varint(optr, (wg_uint) enc);
-  return write_log_buffer(db, (void *) buf, optr - buf);
+  return write_log_buffer(db, (void *) buf, optr - buf, 0);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
@@ -1051,7 +1079,8 @@ gint wg_log_encval(void *db, gint enc)
 #ifdef USE_DBLOG
   unsigned char buf[VARINT_SIZE];
   size_t buflen = enc_varint(buf, (wg_uint) enc);
-  return write_log_buffer(db, (void *) buf, buflen);
+  return write_log_buffer(db, (void *) buf, buflen,
+    ((db_handle_logdata *) (((db_handle *) db)->logdata))->entrylen);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
@@ -1141,7 +1170,8 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
   /* Add a fixed prefix */
   buf[0] = WG_JOURNAL_ENTRY_ENC | type;
 
-  err = write_log_buffer(db, (void *) buf, buflen);
+  ((db_handle_logdata *) (((db_handle *) db)->logdata))->entrylen = buflen;
+  err = write_log_buffer(db, (void *) buf, buflen, 0);
   free(buf);
   return err;
 #else
@@ -1162,7 +1192,7 @@ gint wg_log_set_field(void *db, void *rec, gint col, gint data)
   optr += enc_varint(optr, (wg_uint) ptrtooffset(db, rec));
   optr += enc_varint(optr, (wg_uint) col);
   optr += enc_varint(optr, (wg_uint) data);
-  return write_log_buffer(db, (void *) buf, optr - buf);
+  return write_log_buffer(db, (void *) buf, optr - buf, 0);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
@@ -1180,7 +1210,7 @@ gint wg_log_set_meta(void *db, void *rec, gint meta)
   optr = &buf[1];
   optr += enc_varint(optr, (wg_uint) ptrtooffset(db, rec));
   optr += enc_varint(optr, (wg_uint) meta);
-  return write_log_buffer(db, (void *) buf, optr - buf);
+  return write_log_buffer(db, (void *) buf, optr - buf, 0);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
diff --git a/Db/dblog.h b/Db/dblog.h
index cf72c83..b22df53 100644
--- a/Db/dblog.h
+++ b/Db/dblog.h
@@ -55,6 +55,7 @@ typedef struct {
   int fd;
   gint serial;
   int umask;
+  int entrylen;   /** bytes of the current, still incomplete entry */
 } db_handle_logdata;
 
 /* ==== Protos ==== */
-- 
2.43.0


From 2bd9dc1002c56930bd8e9af2edcadd7c8f6491f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:24 +0000
Subject: [PATCH 037/116] fix: a dump taken while the journal was suspended did
 not start a new journal

---
 Db/dbdump.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index ecab351..c278734 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -158,9 +158,12 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     }
   }
 #else
+  /* the dump includes everything that has been journalled */
+  if(!err)
+    dbh->logging.dirty = 0;
+
   /* restart logging */
   if(active) {
-    dbh->logging.dirty = 0;
     if(wg_start_logging(db)) {
       err = -2; /* Failed to re-initialize log */
     }
-- 
2.43.0


From a42090a60d83d18d7ba11dcd2bd6d2a533ae850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:24 +0000
Subject: [PATCH 038/116] fix: importing a dump replaced the journal serial
 number and the key of the segment

---
 Db/dbdump.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index c278734..d9edecb 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -287,7 +287,9 @@ gint wg_import_dump(void * db,char fileName[]) {
   gint err = -1;
 #ifdef USE_DBLOG
   gint active = dbh->logging.active;
+  gint serial = dbh->logging.serial;
 #endif
+  gint key = dbh->key;
 
 
   /* Attempt to open the dump file */
@@ -334,7 +336,9 @@ gint wg_import_dump(void * db,char fileName[]) {
       err = -2; /* database is in undetermined state now */
     } else {
       err = 0;
+      /* these belong to the memory segment, not to its contents */
       dbh->size = newsize;
+      dbh->key = key;
       dbh->checksum = 0;
     }
   }
@@ -350,6 +354,7 @@ abort:
   /* restart logging */
   dbh->logging.dirty = 0;
   dbh->logging.active = 0;
+  dbh->logging.serial = serial;
   if(active) { /* state inherited from memory */
     if(wg_start_logging(db)) {
       return -2; /* Failed to re-initialize log */
-- 
2.43.0


From 6cff9b02434b9100cf7152d0b0128371ec608382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:27 +0000
Subject: [PATCH 039/116] fix: a journal started after the old file was removed
 kept receiving writes in the removed file

---
 Db/dblog.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index ae425f0..8d23e47 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -200,10 +200,6 @@ static int backup_journal(void *db, char *journal_fn) {
   _unlink(journal_backup);
 #endif
   err = rename(journal_fn, journal_backup);
-  if(!err) {
-    db_memsegment_header* dbh = dbmemsegh(db);
-    dbh->logging.serial++; /* new journal file */
-  }
   return err;
 }
 
@@ -242,6 +238,8 @@ static int open_journal(void *db, int create) {
         goto abort;
       }
     }
+    if(!dbh->logging.dirty)
+      dbh->logging.serial++; /* new journal file */
   }
 
 #ifndef _WIN32
-- 
2.43.0


From 89289c7e21db5f4d754cb7fda84c33b4ea9d212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:38 +0000
Subject: [PATCH 040/116] fix: importing a damaged or foreign dump destroyed
 the database

---
 Db/dbdump.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index d9edecb..59bbad2 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -290,7 +290,14 @@ gint wg_import_dump(void * db,char fileName[]) {
   gint serial = dbh->logging.serial;
 #endif
   gint key = dbh->key;
+  gint minsize, maxsize;
 
+  /* Check the integrity and compatibility first: once the memory image
+   * is being overwritten, there is no way back.
+   */
+  if(wg_check_dump(db, fileName, &minsize, &maxsize)) {
+    return -1;
+  }
 
   /* Attempt to open the dump file */
 #ifdef _WIN32
@@ -302,10 +309,7 @@ gint wg_import_dump(void * db,char fileName[]) {
     return -1;
   }
 
-  /* Examine the dump header. We only read the size, it is
-   * implied that the integrity and compatibility were verified
-   * earlier.
-   */
+  /* Examine the dump header. */
   dumph = (db_memsegment_header *) malloc(sizeof(db_memsegment_header));
   if(!dumph) {
     show_dump_error(db, "malloc error in wg_import_dump");
@@ -317,6 +321,7 @@ gint wg_import_dump(void * db,char fileName[]) {
     dbsize = dumph->free;
     if(dumph->extdbs.count != 0) {
       show_dump_error(db, "Dump contains external references");
+      free(dumph);
       goto abort;
     }
   }
@@ -330,8 +335,9 @@ gint wg_import_dump(void * db,char fileName[]) {
   } else if(dbsize > 0) {
     /* We have a compatible dump file. */
     newsize = dbh->size;
-    fseek(f, 0, SEEK_SET);
-    if(fread(dbmemseg(db), dbsize, 1, f) != 1) {
+    if(fseek(f, 0, SEEK_SET)) {
+      show_dump_error(db, "Error reading dump file");
+    } else if(fread(dbmemseg(db), dbsize, 1, f) != 1) {
       show_dump_error(db, "Error reading dump file");
       err = -2; /* database is in undetermined state now */
     } else {
-- 
2.43.0


From 8d359146660153b0a61c52a5ec786150f7218c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:31 +0000
Subject: [PATCH 041/116] fix: a dump was unusable if locks were requested
 meanwhile, and write errors were not reported

---
 Db/dbdump.c | 95 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 64 insertions(+), 31 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 59bbad2..4732f2e 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -30,6 +30,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #ifdef _WIN32
 #define WIN32_LEAN_AND_MEAN
@@ -57,8 +58,15 @@ extern "C" {
 #include "dbdump.h"
 #include "crc1.h"
 
+/* This has to be large enough to hold all the relevant
+ * fields in the header during the first pass of the read.
+ * (Currently this is the first 24 bytes of the dump file)
+ */
+#define BUFSIZE 8192
+
 /* ======= Private protos ================ */
 
+static gint write_image(void *db, FILE *f, gint dbsize);
 
 static gint show_dump_error(void *db, char *errmsg);
 static gint show_dump_error_str(void *db, char *errmsg, char *str);
@@ -85,13 +93,12 @@ gint wg_dump(void * db,char fileName[]) {
 gint wg_dump_internal(void * db, char fileName[], int locking) {
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = dbh->free; /* first unused offset - 0 = db size */
+  gint dbsize;
 #ifdef USE_DBLOG
   gint active;
 #endif
   gint err = -1;
   gint lock_id = 0;
-  gint32 crc;
 
 #ifdef CHECK
   if(dbh->extdbs.count != 0) {
@@ -99,16 +106,6 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  /* Open the dump file */
-#ifdef _WIN32
-  if(fopen_s(&f, fileName, "wb")) {
-#else
-  if(!(f = fopen(fileName, "wb"))) {
-#endif
-    show_dump_error(db, "Error opening file");
-    return -1;
-  }
-
 #ifndef USE_DBLOG
   /* Get shared lock on the db */
   if(locking) {
@@ -134,21 +131,27 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  /* Compute the CRC32 of the used area */
-  crc = update_crc32(dbmemsegbytes(db), dbsize, 0x0);
+  dbsize = dbh->free; /* first unused offset - 0 = db size */
 
-  /* Now, write the memory area to file */
-  if(fwrite(dbmemseg(db), dbsize, 1, f) == 1) {
-    /* Overwrite checksum field */
-    fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET);
-    if(fwrite(&crc, sizeof(gint32), 1, f) == 1) {
+  /* Open the dump file */
+#ifdef _WIN32
+  if(fopen_s(&f, fileName, "wb"))
+    f = NULL;
+#else
+  f = fopen(fileName, "wb");
+#endif
+  if(!f) {
+    show_dump_error(db, "Error opening file");
+  } else {
+    /* Write the memory area to the file and complete the header */
+    if(!write_image(db, f, dbsize))
       err = 0;
-    }
+    if(fclose(f)) /* includes flushing the data */
+      err = -1;
+    if(err)
+      show_dump_error(db, "Error writing file");
   }
 
-  if(err)
-    show_dump_error(db, "Error writing file");
-
 #ifndef USE_DBLOG
   /* We're done writing */
   if(locking) {
@@ -177,18 +180,48 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  fflush(f);
-  fclose(f);
-
   return err;
 }
 
-
-/* This has to be large enough to hold all the relevant
- * fields in the header during the first pass of the read.
- * (Currently this is the first 24 bytes of the dump file)
+/** Write the memory image with the checksum to an open file.
+ *  The image is copied block by block, so that the checksum matches
+ *  the data in the file even if other processes access the lock
+ *  area of the database meanwhile.
+ *  Returns 0 when successful, -1 on error.
  */
-#define BUFSIZE 8192
+static gint write_image(void *db, FILE *f, gint dbsize) {
+  char *buf;
+  gint pos, len, err = -1;
+  gint32 crc = 0;
+  gint checksum_pos = ptrtooffset(db, &(dbmemsegh(db)->checksum));
+
+  buf = (char *) malloc(BUFSIZE);
+  if(!buf) {
+    show_dump_error(db, "malloc error in wg_dump");
+    return -1;
+  }
+
+  for(pos = 0; pos < dbsize; pos += len) {
+    len = (dbsize - pos < BUFSIZE ? dbsize - pos : BUFSIZE);
+    memcpy(buf, dbmemsegbytes(db) + pos, len);
+    if(!pos) /* the checksum itself is counted as 0 */
+      memset(buf + checksum_pos, 0, sizeof(gint32));
+    crc = update_crc32(buf, len, crc);
+    if(fwrite(buf, len, 1, f) != 1)
+      goto done;
+  }
+
+  /* Overwrite checksum field */
+  if(!fseek(f, checksum_pos, SEEK_SET) && \
+    fwrite(&crc, sizeof(gint32), 1, f) == 1) {
+    err = 0;
+  }
+
+done:
+  free(buf);
+  return err;
+}
+
 
 /** Check dump file for compatibility and errors.
  *  Returns 0 when successful (no error).
-- 
2.43.0


From 133b23969dd4337588724c32caba2a7c09e1ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:48 +0000
Subject: [PATCH 042/116] fix: databases of builds with and without the
 reasoner were taken as compatible

---
 Db/dbfeatures.h | 10 +++++++++-
 Db/dbmem.c      | 12 ++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/Db/dbfeatures.h b/Db/dbfeatures.h
index dfec67b..34754ae 100644
--- a/Db/dbfeatures.h
+++ b/Db/dbfeatures.h
@@ -41,6 +41,7 @@
 #define FEATURE_BITS_BACKLINK 0x8
 #define FEATURE_BITS_CHILD_DB 0x10
 #define FEATURE_BITS_INDEX_TMPL 0x20
+#define FEATURE_BITS_REASONER 0x40
 
 /* Construct the bit vector */
 #ifdef HAVE_64BIT_GINT
@@ -79,11 +80,18 @@
   #define FEATURE_BITS_06 0x0
 #endif
 
+#ifdef USE_REASONER
+  #define FEATURE_BITS_07 FEATURE_BITS_REASONER
+#else
+  #define FEATURE_BITS_07 0x0
+#endif
+
 #define MEMSEGMENT_FEATURES (FEATURE_BITS_01 |\
   FEATURE_BITS_02 |\
   FEATURE_BITS_03 |\
   FEATURE_BITS_04 |\
   FEATURE_BITS_05 |\
-  FEATURE_BITS_06)
+  FEATURE_BITS_06 |\
+  FEATURE_BITS_07)
 
 #endif /* DEFINED_DBFEATURES_H */
diff --git a/Db/dbmem.c b/Db/dbmem.c
index 453efe9..a31f70f 100644
--- a/Db/dbmem.c
+++ b/Db/dbmem.c
@@ -511,13 +511,15 @@ void wg_print_code_version(void) {
     "  chained nodes in T-tree: %s\n"\
     "  record backlinking: %s\n"\
     "  child databases: %s\n"\
-    "  index templates: %s\n",
+    "  index templates: %s\n"\
+    "  reasoner: %s\n",
     (MEMSEGMENT_FEATURES & FEATURE_BITS_64BIT ? "yes" : "no"),
     (MEMSEGMENT_FEATURES & FEATURE_BITS_QUEUED_LOCKS ? "yes" : "no"),
     (MEMSEGMENT_FEATURES & FEATURE_BITS_TTREE_CHAINED ? "yes" : "no"),
     (MEMSEGMENT_FEATURES & FEATURE_BITS_BACKLINK ? "yes" : "no"),
     (MEMSEGMENT_FEATURES & FEATURE_BITS_CHILD_DB ? "yes" : "no"),
-    (MEMSEGMENT_FEATURES & FEATURE_BITS_INDEX_TMPL ? "yes" : "no"));
+    (MEMSEGMENT_FEATURES & FEATURE_BITS_INDEX_TMPL ? "yes" : "no"),
+    (MEMSEGMENT_FEATURES & FEATURE_BITS_REASONER ? "yes" : "no"));
 }
 
 void wg_print_header_version(db_memsegment_header *dbh, int verbose) {
@@ -558,13 +560,15 @@ void wg_print_header_version(db_memsegment_header *dbh, int verbose) {
       "  chained nodes in T-tree: %s\n"\
       "  record backlinking: %s\n"\
       "  child databases: %s\n"\
-      "  index templates: %s\n",
+      "  index templates: %s\n"\
+      "  reasoner: %s\n",
       (features & FEATURE_BITS_64BIT ? "yes" : "no"),
       (features & FEATURE_BITS_QUEUED_LOCKS ? "yes" : "no"),
       (features & FEATURE_BITS_TTREE_CHAINED ? "yes" : "no"),
       (features & FEATURE_BITS_BACKLINK ? "yes" : "no"),
       (features & FEATURE_BITS_CHILD_DB ? "yes" : "no"),
-      (features & FEATURE_BITS_INDEX_TMPL ? "yes" : "no"));
+      (features & FEATURE_BITS_INDEX_TMPL ? "yes" : "no"),
+      (features & FEATURE_BITS_REASONER ? "yes" : "no"));
   } else {
     printf("%d.%d.%d%s\n",
       (version & 0xff), ((version>>8) & 0xff), ((version>>16) & 0xff),
-- 
2.43.0


From f779ab82a1228bf0ff6041c33e583927f0916461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:44 +0000
Subject: [PATCH 043/116] fix: index inserts that ran out of memory damaged the
 database

A T-tree insert could lose the row that it had already taken out of a full
node, the hash index did not check the list cell it allocated, and a failed
list insert dropped the entire list.
---
 Db/dbhash.c  |  7 ++++++-
 Db/dbindex.c | 45 +++++++++++++++++++++++++--------------------
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index dc63230..8ee527f 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -478,6 +478,11 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
   head_offset = (ha->arraystart)+(sizeof(gint) * hash);
   head = dbfetch(db, head_offset);
 
+  rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
+  if(!rec_offset) {
+    return -1;
+  }
+
   /* Traverse the hash chain to check if there is a matching
    * hash string already
    */
@@ -495,6 +500,7 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
          &(dbh->indexhash_area_header),
         lengints + HASHIDX_HEADER_SIZE);
     if(!bucket) {
+      wg_free_listcell(db, rec_offset);
       return -1;
     }
 
@@ -518,7 +524,6 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
 
   /* Add the record offset to the list. */
   rec_head = dbfetch(db, bucket + HASHIDX_RECLIST_POS*sizeof(gint));
-  rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
   rec_cell = (gcell *) offsettoptr(db, rec_offset);
   rec_cell->car = offset;
   rec_cell->cdr = rec_head;
diff --git a/Db/dbindex.c b/Db/dbindex.c
index 11dfbd0..a08b709 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -502,6 +502,21 @@ static gint ttree_add_row(void *db, gint index_id, void *rec) {
       //get the minimum element from this node
       int i, j;
       gint cr, minvalue, minvaluerowoffset;
+      gint newnode = 0, glbnode = bnodeoffset;
+
+      //find the node that holds greatest lower bound - must be leaf (can be the initial bounding node)
+      if(node->left_child_offset != 0){
+#ifndef TTREE_CHAINED_NODES
+        glbnode = wg_ttree_find_glb_node(db,node->left_child_offset);
+#else
+        glbnode = node->pred_offset;
+#endif
+      }
+      //if there is no room in it, a new node is needed. Allocate it before anything is changed
+      if(((struct wg_tnode *)offsettoptr(db,glbnode))->number_of_elements >= WG_TNODE_ARRAY_SIZE){
+        newnode = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
+        if(newnode == 0)return -1;
+      }
 
       minvalue = node->current_min;
       minvaluerowoffset = node->array_of_values[0];
@@ -540,18 +555,11 @@ static gint ttree_add_row(void *db, gint index_id, void *rec) {
         }
       }
 
-      //proceed to the node that holds greatest lower bound - must be leaf (can be the initial bounding node)
-      if(node->left_child_offset != 0){
-#ifndef TTREE_CHAINED_NODES
-        gint greatestlb = wg_ttree_find_glb_node(db,node->left_child_offset);
-#else
-        gint greatestlb = node->pred_offset;
-#endif
-        node = (struct wg_tnode *)offsettoptr(db, greatestlb);
-      }
+      //proceed to the node that holds greatest lower bound
+      node = (struct wg_tnode *)offsettoptr(db, glbnode);
       //if the greatest lower bound node has room, insert value
       //otherwise make the new node as right child and put the value there
-      if(node->number_of_elements < WG_TNODE_ARRAY_SIZE){
+      if(newnode == 0){
         //add array entry and update control data
         node->array_of_values[node->number_of_elements] = minvaluerowoffset;//save offset, use first free slot
         node->number_of_elements++;
@@ -559,10 +567,7 @@ static gint ttree_add_row(void *db, gint index_id, void *rec) {
 
       }else{
         //create, initialize and save first value
-        struct wg_tnode *leaf;
-        gint newnode = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
-        if(newnode == 0)return -1;
-        leaf =(struct wg_tnode *)offsettoptr(db,newnode);
+        struct wg_tnode *leaf =(struct wg_tnode *)offsettoptr(db,newnode);
         leaf->parent_offset = ptrtooffset(db,node);
         leaf->left_subtree_height = 0;
         leaf->right_subtree_height = 0;
@@ -1742,15 +1747,15 @@ gint wg_search_hash(void *db, gint index_id, gint *values, gint count) {
  */
 static gint insert_into_list(void *db, gint *head, gint value) {
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint old = *head;
+  gint cell = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
 
-  *head = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
-  if(*head) {
-    gcell *listelem = (gcell *) offsettoptr(db, *head);
+  if(cell) {
+    gcell *listelem = (gcell *) offsettoptr(db, cell);
     listelem->car = value;
-    listelem->cdr = old;
+    listelem->cdr = *head;
+    *head = cell;
   }
-  return *head;
+  return cell;
 }
 
 /** Delete from list
-- 
2.43.0


From f335ad492b6a2e9456f911fd168db9b5c84916e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:38 +0000
Subject: [PATCH 044/116] fix: an index that could not be created for lack of
 memory was left half registered

The unchecked allocations overwrote the segment header, rows that did not
fit were silently missing from the new index, and a hash index without its
table was left in place.
---
 Db/dbhash.c  |   6 +--
 Db/dbindex.c | 143 +++++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 120 insertions(+), 29 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 8ee527f..bde05a1 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -463,7 +463,7 @@ static gint find_idxhash_bucket(void *db, char *data, gint length,
  * Based on longstr hash, with some simplifications.
  *
  * Returns 0 on success
- * Returns -1 on error.
+ * Returns -2 if out of memory.
  */
 gint wg_idxhash_store(void* db, db_hash_area_header *ha,
   char* data, gint length, gint offset)
@@ -480,7 +480,7 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
 
   rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
   if(!rec_offset) {
-    return -1;
+    return -2;
   }
 
   /* Traverse the hash chain to check if there is a matching
@@ -501,7 +501,7 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
         lengints + HASHIDX_HEADER_SIZE);
     if(!bucket) {
       wg_free_listcell(db, rec_offset);
-      return -1;
+      return -2;
     }
 
     /* Copy the byte data */
diff --git a/Db/dbindex.c b/Db/dbindex.c
index a08b709..35a679c 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -96,6 +96,7 @@ static gint hash_extend_prefix(void *db, wg_index_header *hdr, char *prefix,
   gint prefixlen, gint nextval, gint *values, gint count, void *rec, gint op,
   gint expand);
 
+static void clear_hash_index(void *db, gint index_id);
 static gint create_hash_index(void *db, gint index_id);
 static gint drop_hash_index(void *db, gint index_id);
 
@@ -1387,6 +1388,8 @@ static gint create_ttree_index(void *db, gint index_id){
   /* allocate (+ init) root node for new index tree and save
    * the offset into index_array */
   node = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
+  if(!node)
+    return -1;
   nodest =(struct wg_tnode *)offsettoptr(db,node);
   nodest->parent_offset = 0;
   nodest->left_subtree_height = 0;
@@ -1417,7 +1420,10 @@ static gint create_ttree_index(void *db, gint index_id){
       continue;
     }
     if(MATCH_TEMPLATE(db, hdr, rec)) {
-      ttree_add_row(db, index_id, rec);
+      if(ttree_add_row(db, index_id, rec)) {
+        drop_ttree_index(db, index_id);
+        return -1;
+      }
       rowsprocessed++;
     }
     rec=wg_get_next_record(db,rec);
@@ -1477,6 +1483,7 @@ static gint drop_ttree_index(void *db, gint index_id){
  *  returns:
  *  0 - on success
  *  -1 - if error
+ *  -2 - if out of memory
  */
 static gint hash_add_row(void *db, gint index_id, void *rec) {
   wg_index_header *hdr = (wg_index_header *)offsettoptr(db,index_id);
@@ -1630,6 +1637,31 @@ static gint hash_extend_prefix(void *db, wg_index_header *hdr, char *prefix,
   return retv;
 }
 
+/*
+ * Remove all the rows from a hash index. The main hash table itself
+ * is not freed.
+ */
+static void clear_hash_index(void *db, gint index_id) {
+  wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
+  db_hash_area_header *ha = HASHIDX_ARRAYP(hdr);
+  gint i, bucket, cell, next;
+
+  for(i=0; i<ha->arraylength; i++) {
+    gint head = ha->arraystart + i * sizeof(gint);
+    for(bucket=dbfetch(db, head); bucket; bucket=next) {
+      cell = dbfetch(db, bucket + HASHIDX_RECLIST_POS*sizeof(gint));
+      while(cell) {
+        next = ((gcell *) offsettoptr(db, cell))->cdr;
+        wg_free_listcell(db, cell);
+        cell = next;
+      }
+      next = dbfetch(db, bucket + HASHIDX_HASHCHAIN_POS*sizeof(gint));
+      wg_free_object(db, &(dbmemsegh(db)->indexhash_area_header), bucket);
+    }
+    dbstore(db, head, 0);
+  }
+}
+
 /*
  * Create hash index.
  * Returns 0 on success
@@ -1662,12 +1694,18 @@ static gint create_hash_index(void *db, gint index_id){
          * from the rows that point to them.
          */
         if(is_plain_record(rec)) {
-          hash_add_row(db, index_id, rec);
+          if(hash_add_row(db, index_id, rec) < -1) {
+            clear_hash_index(db, index_id);
+            return -1;
+          }
           rowsprocessed++;
         }
       } else {
         /* Add all rows normally */
-        hash_add_row(db, index_id, rec);
+        if(hash_add_row(db, index_id, rec) < -1) {
+          clear_hash_index(db, index_id);
+          return -1;
+        }
         rowsprocessed++;
       }
     }
@@ -1773,6 +1811,22 @@ static void delete_from_list(void *db, gint *head) {
     ptrtooffset(db, listelem));
 }
 
+/** Delete from list by value
+ *
+ * helper function to delete the element that contains the given value,
+ * if there is one.
+ */
+static void remove_from_list(void *db, gint *head, gint value) {
+  while(*head) {
+    gcell *listelem = (gcell *) offsettoptr(db, *head);
+    if(listelem->car == value) {
+      delete_from_list(db, head);
+      break;
+    }
+    head = &listelem->cdr;
+  }
+}
+
 #ifdef USE_INDEX_TEMPLATE
 
 /** Add index template
@@ -1861,26 +1915,37 @@ nextelem:
   meta = *metap | (RECORD_META_NOTDATA | RECORD_META_MATCH);
 #ifdef USE_DBLOG
   if(dbh->logging.active) {
-    if(wg_log_set_meta(db, rec, meta))
+    if(wg_log_set_meta(db, rec, meta)) {
+      wg_delete_record(db, rec);
       return 0;
+    }
   }
 #endif
   *metap = meta;
   for(i=0; i<reclen; i++) {
-    if(wg_set_new_field(db, rec, i, matchrec[i]) < 0)
+    if(wg_set_new_field(db, rec, i, matchrec[i]) < 0) {
+      wg_delete_record(db, rec);
       return 0;
+    }
   }
 
   /* Add new template header */
   template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
+  if(!template_offset) {
+    wg_delete_record(db, rec);
+    return 0;
+  }
   tmpl = (wg_index_template *) offsettoptr(db, template_offset);
   tmpl->offset_matchrec = ptrtooffset(db, rec);
   tmpl->fixed_columns = fixed_columns;
   tmpl->refcount = 0;
 
   /* Insert it into the template list */
-  if(!insert_into_list(db, ilist, template_offset))
+  if(!insert_into_list(db, ilist, template_offset)) {
+    wg_free_fixlen_object(db, &dbh->indextmpl_area_header, template_offset);
+    wg_delete_record(db, rec);
     return 0;
+  }
 
   return template_offset;
 }
@@ -2095,6 +2160,7 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 #endif
   gint *ilist[MAX_INDEX_FIELDS];
   gint sorted_cols[MAX_INDEX_FIELDS];
+  gint err;
   db_memsegment_header* dbh = dbmemsegh(db);
 
   /* Check the arguments */
@@ -2196,7 +2262,7 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 
       if(!ilistelem->car) {
         show_index_error(db, "Invalid header in index list");
-        return -1;
+        goto failed_no_header;
       }
       hdr = (wg_index_header *) offsettoptr(db, ilistelem->car);
 
@@ -2215,7 +2281,7 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
         }
         if(match) {
           show_index_error(db, "Identical index already exists on the column");
-          return -1;
+          goto failed_no_header;
         }
       }
 
@@ -2239,17 +2305,8 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 
   /* Add new index header */
   index_id = wg_alloc_fixlen_object(db, &dbh->indexhdr_area_header);
-
-  for(i=0; i<col_count; i++) {
-    if(!insert_into_list(db, ilist[i], index_id)) {
-      if(i) {
-        /* XXX: need to clean up the earlier inserts :-( */
-        return -1;
-      } else {
-        return -1;
-      }
-    }
-  }
+  if(!index_id)
+    goto failed_no_header;
 
   /* Set up the header */
   hdr = (wg_index_header *) offsettoptr(db, index_id);
@@ -2260,27 +2317,36 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
   }
   hdr->template_offset = template_offset;
 
-  /* create the actual index */
+  /* create the actual index. It is not visible to anyone before it is
+   * complete. */
   switch(hdr->type) {
     case WG_INDEX_TYPE_TTREE:
-      create_ttree_index(db, index_id);
+      err = create_ttree_index(db, index_id);
       break;
     case WG_INDEX_TYPE_HASH:
     case WG_INDEX_TYPE_HASH_JSON:
-      if(create_hash_index(db, index_id))
-        return -1;
+      err = create_hash_index(db, index_id);
       break;
     case WG_INDEX_TYPE_TTREE_JSON:
       /* Return an error, until proper implementation exists */
     default:
       show_index_error(db, "Invalid index type");
-      return -1;
+      err = -1;
+      break;
+  }
+  if(err)
+    goto failed;
+
+  /* Add to column lists */
+  for(i=0; i<col_count; i++) {
+    if(!insert_into_list(db, ilist[i], index_id))
+      goto failed_registering;
   }
 
   /* Add to master list */
   if(!insert_into_list(db,
      &dbh->index_control_area_header.index_list ,index_id))
-    return -1;
+    goto failed_registering;
 
 #ifdef USE_INDEX_TEMPLATE
   if(hdr->template_offset) {
@@ -2294,7 +2360,7 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
         if(!insert_into_list(db,
           &(dbh->index_control_area_header.index_template_table[i]),
           index_id))
-          return 0;
+          goto failed_registering;
       }
     }
   }
@@ -2308,6 +2374,31 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 #endif
 
   return 0;
+
+failed_registering:
+  remove_from_list(db, &dbh->index_control_area_header.index_list, index_id);
+  for(i=0; i<=MAX_INDEXED_FIELDNR; i++) {
+    remove_from_list(db,
+      &dbh->index_control_area_header.index_table[i], index_id);
+#ifdef USE_INDEX_TEMPLATE
+    remove_from_list(db,
+      &dbh->index_control_area_header.index_template_table[i], index_id);
+#endif
+  }
+  if(hdr->type == WG_INDEX_TYPE_TTREE)
+    drop_ttree_index(db, index_id);
+  else
+    clear_hash_index(db, index_id);
+
+failed:
+  wg_free_fixlen_object(db, &dbh->indexhdr_area_header, index_id);
+
+failed_no_header:
+#ifdef USE_INDEX_TEMPLATE
+  if(tmpl && !tmpl->refcount)
+    remove_index_template(db, template_offset);
+#endif
+  return -1;
 }
 
 
-- 
2.43.0


From b91dbf4670e4757b3c4d8818d05f1b07b12b519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:28 +0000
Subject: [PATCH 045/116] fix: field updates and new records that ran out of
 memory left the database inconsistent

A backlink that could not be allocated overwrote the segment header and a
failed index update left the value half stored. The memory for the backlink
is now taken first and a value whose index entries do not fit is undone.
Old values that are links to an external database are told apart by their
own owner, not that of the new value.
---
 Db/dbdata.c  | 284 ++++++++++++++++++++++++++++++++++-----------------
 Db/dbindex.c |   7 +-
 2 files changed, 196 insertions(+), 95 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 9a88d08..0ede345 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -119,8 +119,10 @@ void* wg_create_record(void* db, wg_int length) {
   void *rec = wg_create_raw_record(db, length);
   /* Index all the created NULL fields to ensure index consistency */
   if(rec) {
-    if(wg_index_add_rec(db, rec) < -1)
+    if(wg_index_add_rec(db, rec) < -1) {
+      wg_delete_record(db, rec);
       return NULL; /* index error */
+    }
   }
   return rec;
 }
@@ -590,6 +592,53 @@ static gint update_backlink_index_entries(void *db, gint *refs, gint count,
 
 #endif
 
+/* ------------ backlink chain helpers --------------------------- */
+
+#ifdef USE_BACKLINKING
+
+/** Check if the encoded value is a link to a record in this database */
+static int is_local_link(void *db, gint enc) {
+#ifdef USE_CHILD_DB
+  return wg_get_encoded_type(db, enc) == WG_RECORDTYPE &&
+    is_local_offset(db, decode_datarec_offset(enc));
+#else
+  return wg_get_encoded_type(db, enc) == WG_RECORDTYPE;
+#endif
+}
+
+/** Take the (first) list cell that refers to the parent out of the backlink
+ *  chain of a record. Returns the offset of the cell, 0 if there is none.
+ */
+static gint unlink_backlink(void *db, gint enc, void *parent) {
+  gint *next_offset = (gint *) wg_decode_record(db, enc) +
+    RECORD_BACKLINKS_POS;
+  gint offset = ptrtooffset(db, parent);
+
+  while(*next_offset) {
+    gcell *cell = (gcell *) offsettoptr(db, *next_offset);
+    if(cell->car == offset) {
+      gint cell_offset = *next_offset;
+      *next_offset = cell->cdr;
+      return cell_offset;
+    }
+    next_offset = &(cell->cdr);
+  }
+  return 0;
+}
+
+/** Add a list cell to the end of the backlink chain of a record. */
+static void append_backlink(void *db, gint enc, gint cell_offset) {
+  gint *next_offset = (gint *) wg_decode_record(db, enc) +
+    RECORD_BACKLINKS_POS;
+
+  while(*next_offset)
+    next_offset = &(((gcell *) offsettoptr(db, *next_offset))->cdr);
+  ((gcell *) offsettoptr(db, cell_offset))->cdr = 0;
+  *next_offset = cell_offset;
+}
+
+#endif
+
 /* ------------ field handling: data storage and fetching ---------------- */
 
 
@@ -631,6 +680,9 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
   gint *refs = NULL;            /** records whose index entries change */
   gint refcount = 0;
+#endif
+#ifdef USE_BACKLINKING
+  gint old_link = 0, new_link = 0;  /** list cells of the backlinks */
 #endif
   gint err = 0;
   db_memsegment_header *dbh = dbmemsegh(db);
@@ -653,18 +705,30 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+  /* Read the old encoded value */
+  fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
+  fielddata=*fieldadr;
+
+#ifdef USE_BACKLINKING
+  /* Allocate the backlink before anything is changed. If the old value
+   * is a link too, its backlink is reused. */
+  if(is_local_link(db, data) && !is_local_link(db, fielddata)) {
+    new_link = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
+    if(!new_link)
+      return -4;
+  }
+#endif
+
 #ifdef USE_DBLOG
   /* Do not proceed before we've logged the operation */
   if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
-      return -6; /* journal error, cannot write */
+    if(wg_log_set_field(db,record,fieldnr,data)) {
+      err = -6; /* journal error, cannot write */
+      goto setfld_done;
+    }
   }
 #endif
 
-  /* Read the old encoded value */
-  fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
-  fielddata=*fieldadr;
-
   /* Skip changes if the value does not change */
   if(fielddata == data) {
     return 0;
@@ -680,8 +744,10 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   if(*((gint *) record + RECORD_BACKLINKS_POS) &&\
     dbh->index_control_area_header.number_of_indexes) {
     refcount = collect_referring_records(db, (gint *) record, &refs);
-    if(refcount < 0)
-      return -4;
+    if(refcount < 0) {
+      err = -4;
+      goto setfld_done;
+    }
     if(update_backlink_index_entries(db, refs, refcount, record, fieldnr, 0)) {
       err = -4; /* override the error code, for now. */
       goto setfld_done;
@@ -705,37 +771,15 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 
 #ifdef USE_BACKLINKING
-  /* Is the old field value a record pointer? If so, remove the backlink.
-   * XXX: this can be optimized to use a custom macro instead of
-   * wg_get_encoded_type().
-   */
-#ifdef USE_CHILD_DB
-  /* Only touch local records */
-  if(wg_get_encoded_type(db, fielddata) == WG_RECORDTYPE &&
-    offset_owner == dbmemseg(db)) {
-#else
-  if(wg_get_encoded_type(db, fielddata) == WG_RECORDTYPE) {
-#endif
-    gint *rec = (gint *) wg_decode_record(db, fielddata);
-    gint *next_offset = rec + RECORD_BACKLINKS_POS;
-    gint parent_offset = ptrtooffset(db, record);
-    gcell *old = NULL;
-
-    while(*next_offset) {
-      old = (gcell *) offsettoptr(db, *next_offset);
-      if(old->car == parent_offset) {
-        gint old_offset = *next_offset;
-        *next_offset = old->cdr; /* remove from list chain */
-        wg_free_listcell(db, old_offset); /* free storage */
-        goto setfld_backlink_removed;
-      }
-      next_offset = &(old->cdr);
+  /* Is the old field value a record pointer? If so, remove the backlink. */
+  if(is_local_link(db, fielddata)) {
+    old_link = unlink_backlink(db, fielddata, record);
+    if(!old_link) {
+      show_data_error(db, "Corrupt backlink chain");
+      err = -4; /* backlink error */
+      goto setfld_done;
     }
-    show_data_error(db, "Corrupt backlink chain");
-    err = -4; /* backlink error */
-    goto setfld_done;
   }
-setfld_backlink_removed:
 #endif
 
 #ifdef USE_CHILD_DB
@@ -748,10 +792,6 @@ setfld_backlink_removed:
     ++(*(strptr+LONGSTR_REFCOUNT_POS));
   }
   //printf("wg_set_field adr %d offset %d\n",fieldadr,ptrtooffset(db,fieldadr));
-  if (isptr(fielddata)) {
-    //printf("wg_set_field freeing old data\n");
-    free_field_encoffset(db,fielddata);
-  }
   (*fieldadr)=data; // store data to field
 
   /* Update index after new value is written */
@@ -763,41 +803,72 @@ setfld_backlink_removed:
   if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
     dbh->index_control_area_header.index_table[fieldnr]) {
 #endif
-    if(wg_index_add_field(db, record, fieldnr) < -1) {
+    if(wg_index_add_field(db, record, fieldnr) < -1)
       err = -3;
-      goto setfld_done;
-    }
   }
 
-#ifdef USE_BACKLINKING
-  /* Is the new field value a record pointer? If so, add a backlink */
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  /* Create new entries in indexes in all referring records */
+  if(!err && update_backlink_index_entries(db, refs, refcount, record,
+    fieldnr, 1)) {
+    update_backlink_index_entries(db, refs, refcount, record, fieldnr, 0);
+    err = -4;
+  }
+#endif
+
+  if(err) {
+    /* The indexes could not be updated, return to the old value */
+    if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR)
+      wg_index_del_field(db, record, fieldnr);
+    (*fieldadr)=fielddata;
 #ifdef USE_CHILD_DB
-  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
-    offset_owner == dbmemseg(db)) {
+    if (islongstr(data) && offset_owner == dbmemseg(db)) {
 #else
-  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
+    if (islongstr(data)) {
+#endif
+      strptr = (gint *) offsettoptr(db,decode_longstr_offset(data));
+      --(*(strptr+LONGSTR_REFCOUNT_POS));
+    }
+#ifdef USE_BACKLINKING
+    if(old_link) {
+      append_backlink(db, fielddata, old_link);
+      old_link = 0;
+    }
+#endif
+    if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR)
+      wg_index_add_field(db, record, fieldnr);
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+    update_backlink_index_entries(db, refs, refcount, record, fieldnr, 1);
 #endif
-    gint *rec = (gint *) wg_decode_record(db, data);
-    gint *next_offset = rec + RECORD_BACKLINKS_POS;
-    gint new_offset = wg_alloc_fixlen_object(db,
-      &(dbmemsegh(db)->listcell_area_header));
-    gcell *new_cell = (gcell *) offsettoptr(db, new_offset);
+    goto setfld_done;
+  }
 
-    while(*next_offset)
-      next_offset = &(((gcell *) offsettoptr(db, *next_offset))->cdr);
-    new_cell->car = ptrtooffset(db, record);
-    new_cell->cdr = 0;
-    *next_offset = new_offset;
+#ifdef USE_BACKLINKING
+  /* Is the new field value a record pointer? If so, add a backlink */
+  if(is_local_link(db, data)) {
+    if(!new_link) {
+      new_link = old_link;
+      old_link = 0;
+    }
+    ((gcell *) offsettoptr(db, new_link))->car = ptrtooffset(db, record);
+    append_backlink(db, data, new_link);
+    new_link = 0;
   }
 #endif
 
-#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
-  /* Create new entries in indexes in all referring records */
-  if(update_backlink_index_entries(db, refs, refcount, record, fieldnr, 1))
-    err = -4;
-#endif
+  if (isptr(fielddata)) {
+    //printf("wg_set_field freeing old data\n");
+    free_field_encoffset(db,fielddata);
+  }
 
 setfld_done:
+#ifdef USE_BACKLINKING
+  /* The list cells that are not part of a backlink chain */
+  if(old_link)
+    wg_free_listcell(db, old_link);
+  if(new_link)
+    wg_free_listcell(db, new_link);
+#endif
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
   if(refs)
     free(refs);
@@ -830,6 +901,9 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
   gint *refs = NULL;            /** records whose index entries change */
   gint refcount = 0;
+#endif
+#ifdef USE_BACKLINKING
+  gint new_link = 0;            /** list cell of the backlink */
 #endif
   gint err = 0;
   db_memsegment_header *dbh = dbmemsegh(db);
@@ -861,11 +935,22 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+#ifdef USE_BACKLINKING
+  /* Allocate the backlink before anything is changed. */
+  if(is_local_link(db, data)) {
+    new_link = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
+    if(!new_link)
+      return -4;
+  }
+#endif
+
 #ifdef USE_DBLOG
   /* Do not proceed before we've logged the operation */
   if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
-      return -6; /* journal error, cannot write */
+    if(wg_log_set_field(db,record,fieldnr,data)) {
+      err = -6; /* journal error, cannot write */
+      goto setnewfld_done;
+    }
   }
 #endif
 
@@ -877,8 +962,10 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   if(*((gint *) record + RECORD_BACKLINKS_POS) &&\
     dbh->index_control_area_header.number_of_indexes) {
     refcount = collect_referring_records(db, (gint *) record, &refs);
-    if(refcount < 0)
-      return -4;
+    if(refcount < 0) {
+      err = -4;
+      goto setnewfld_done;
+    }
     if(update_backlink_index_entries(db, refs, refcount, record, fieldnr, 0)) {
       err = -4;
       goto setnewfld_done;
@@ -917,41 +1004,52 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
     dbh->index_control_area_header.index_table[fieldnr]) {
 #endif
-    if(wg_index_add_field(db, record, fieldnr) < -1) {
+    if(wg_index_add_field(db, record, fieldnr) < -1)
       err = -3;
-      goto setnewfld_done;
-    }
   }
 
-#ifdef USE_BACKLINKING
-  /* Is the new field value a record pointer? If so, add a backlink */
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  /* Create new entries in indexes in all referring records */
+  if(!err && update_backlink_index_entries(db, refs, refcount, record,
+    fieldnr, 1)) {
+    update_backlink_index_entries(db, refs, refcount, record, fieldnr, 0);
+    err = -4;
+  }
+#endif
+
+  if(err) {
+    /* The indexes could not be updated, leave the field empty. */
+    if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR)
+      wg_index_del_field(db, record, fieldnr);
+    (*fieldadr)=0;
 #ifdef USE_CHILD_DB
-  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
-    offset_owner == dbmemseg(db)) {
+    if (islongstr(data) && offset_owner == dbmemseg(db)) {
 #else
-  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
+    if (islongstr(data)) {
 #endif
-    gint *rec = (gint *) wg_decode_record(db, data);
-    gint *next_offset = rec + RECORD_BACKLINKS_POS;
-    gint new_offset = wg_alloc_fixlen_object(db,
-      &(dbmemsegh(db)->listcell_area_header));
-    gcell *new_cell = (gcell *) offsettoptr(db, new_offset);
-
-    while(*next_offset)
-      next_offset = &(((gcell *) offsettoptr(db, *next_offset))->cdr);
-    new_cell->car = ptrtooffset(db, record);
-    new_cell->cdr = 0;
-    *next_offset = new_offset;
-  }
+      strptr = (gint *) offsettoptr(db,decode_longstr_offset(data));
+      --(*(strptr+LONGSTR_REFCOUNT_POS));
+    }
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+    update_backlink_index_entries(db, refs, refcount, record, fieldnr, 1);
 #endif
+    goto setnewfld_done;
+  }
 
-#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
-  /* Create new entries in indexes in all referring records */
-  if(update_backlink_index_entries(db, refs, refcount, record, fieldnr, 1))
-    err = -4;
+#ifdef USE_BACKLINKING
+  /* Is the new field value a record pointer? If so, add a backlink */
+  if(new_link) {
+    ((gcell *) offsettoptr(db, new_link))->car = ptrtooffset(db, record);
+    append_backlink(db, data, new_link);
+    new_link = 0;
+  }
 #endif
 
 setnewfld_done:
+#ifdef USE_BACKLINKING
+  if(new_link)
+    wg_free_listcell(db, new_link);
+#endif
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
   if(refs)
     free(refs);
diff --git a/Db/dbindex.c b/Db/dbindex.c
index 35a679c..24afd98 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2789,15 +2789,18 @@ void * wg_get_all_indexes(void *db, gint *count) {
       break; \
   }
 
+/* A row that is not present (because of an insert that ran out of memory,
+ * for example) is not an error.
+ */
 #define INDEX_REMOVE_ROW(d, h, i, r) \
   switch(h->type) { \
     case WG_INDEX_TYPE_TTREE: \
-      if(ttree_remove_row(d, i, r) < -2) \
+      if(ttree_remove_row(d, i, r) < -3) \
         return -2; \
       break; \
     case WG_INDEX_TYPE_TTREE_JSON: \
       if(is_plain_record(r)) { \
-        if(ttree_remove_row(d, i, r) < -2) \
+        if(ttree_remove_row(d, i, r) < -3) \
           return -2; \
       } \
       break; \
-- 
2.43.0


From d02876792532ca1e8cf04a4512ab3f7cbe4f2175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:13 +0000
Subject: [PATCH 046/116] fix: a refused index update could not always be
 undone

---
 Db/dbdata.c  | 12 ++++++++++++
 Db/dbindex.c | 39 +++++++++++++++++++++++++++++++++++++++
 Db/dbindex.h |  1 +
 3 files changed, 52 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 0ede345..6aa544c 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -748,6 +748,10 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
       err = -4;
       goto setfld_done;
     }
+    if(wg_index_reserve(db, refcount + 1)) {
+      err = -4;
+      goto setfld_done;
+    }
     if(update_backlink_index_entries(db, refs, refcount, record, fieldnr, 0)) {
       err = -4; /* override the error code, for now. */
       goto setfld_done;
@@ -764,6 +768,10 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
     dbh->index_control_area_header.index_table[fieldnr]) {
 #endif
+    if(!refcount && wg_index_reserve(db, 1)) {
+      err = -3;
+      goto setfld_done;
+    }
     if(wg_index_del_field(db, record, fieldnr) < -1) {
       err = -3; /* index error */
       goto setfld_done;
@@ -966,6 +974,10 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
       err = -4;
       goto setnewfld_done;
     }
+    if(wg_index_reserve(db, refcount + 1)) {
+      err = -4;
+      goto setnewfld_done;
+    }
     if(update_backlink_index_entries(db, refs, refcount, record, fieldnr, 0)) {
       err = -4;
       goto setnewfld_done;
diff --git a/Db/dbindex.c b/Db/dbindex.c
index 24afd98..7c41b6d 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2885,6 +2885,43 @@ gint wg_index_add_field(void *db, void *rec, gint column) {
   return 0;
 }
 
+/** Make sure that there is memory for updating the T-tree indexes
+ * Moving a row in a T-tree may need one new node. Ensures that a number of
+ * rows can be moved in all of the T-tree indexes of the database and, if
+ * something else fails, moved back again.
+ * returns 0 for success
+ * returns -1 if there is not enough memory
+ */
+gint wg_index_reserve(void *db, gint rows) {
+  db_memsegment_header* dbh = dbmemsegh(db);
+  gint ilist, node, needed = 0, chain = 0;
+
+  for(ilist = dbh->index_control_area_header.index_list; ilist;
+    ilist = ((gcell *) offsettoptr(db, ilist))->cdr) {
+    wg_index_header *hdr = (wg_index_header *) offsettoptr(db,
+      ((gcell *) offsettoptr(db, ilist))->car);
+    if(hdr->type == WG_INDEX_TYPE_TTREE)
+      needed += 2 * rows;
+  }
+
+  /* Take the nodes from the storage and return them immediately, so that
+   * they are known to be free. */
+  while(needed > 0) {
+    node = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
+    if(!node)
+      break;
+    dbstore(db, node, chain);
+    chain = node;
+    needed--;
+  }
+  while(chain) {
+    node = chain;
+    chain = dbfetch(db, node);
+    wg_free_tnode(db, node);
+  }
+  return (needed > 0 ? -1 : 0);
+}
+
 /** Remove the entries that a record, the fields of which are being
  * initialized one by one, already has in the multi-column indexes.
  * Called before a field that has no value yet is written.
@@ -3205,6 +3242,8 @@ gint wg_index_update_columns(void *db, void *rec, char *cols,
           (wg_index_header *) offsettoptr(db, ilistelem->car);
         gint update = (reclen > hdr->rec_field_index[hdr->fields - 1]);
 
+        if(hdr->type == WG_INDEX_TYPE_HASH)
+          update = 0; /* links are hashed by address */
         for(j=0; j<hdr->fields; j++) {
           if(hdr->rec_field_index[j] == skipcol ||\
             (hdr->rec_field_index[j] < i && cols[hdr->rec_field_index[j]])) {
diff --git a/Db/dbindex.h b/Db/dbindex.h
index a9183d2..95e013e 100644
--- a/Db/dbindex.h
+++ b/Db/dbindex.h
@@ -143,6 +143,7 @@ gint wg_match_template(void *db, wg_index_template *tmpl, void *rec);
 #endif
 
 gint wg_index_add_field(void *db, void *rec, gint column);
+gint wg_index_reserve(void *db, gint rows);
 gint wg_index_del_new_field(void *db, void *rec, gint column);
 gint wg_index_add_rec(void *db, void *rec);
 gint wg_index_del_field(void *db, void *rec, gint column);
-- 
2.43.0


From 9ae8b4d890408bb02c9d8d0b87b746b61a49d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:01 +0000
Subject: [PATCH 047/116] fix: dates and times that do not exist were accepted
 and stored as others

---
 Db/dbdata.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 6aa544c..3877f06 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -83,6 +83,8 @@ static gint update_backlink_index_entries(void *db, gint *refs, gint count,
 #endif
 
 static int isleap(unsigned yr);
+static int is_valid_date(int yr, int mo, int day);
+static int is_valid_time(int hr, int min, int sec, int prt);
 static unsigned months_to_days (unsigned month);
 static long years_to_days (unsigned yr);
 static long ymd_to_scalar (unsigned yr, unsigned mo, unsigned day);
@@ -1926,7 +1928,7 @@ int wg_strp_iso_date(void* db, const char* inbuf) {
   int res;
 
   sres=sscanf(inbuf,"%4d-%2d-%2d",&yr,&mo,&day);
-  if (sres<3 || yr<0 || mo<1 || mo>12 || day<1 || day>31) return -1;
+  if (sres<3 || !is_valid_date(yr,mo,day)) return -1;
   res=ymd_to_scalar(yr,mo,day);
   return res;
 }
@@ -1940,19 +1942,19 @@ int wg_strp_iso_time(void* db, const char* inbuf) {
   int prt=0;
 
   sres=sscanf(inbuf,"%2d:%2d:%2d.%2d",&hr,&min,&sec,&prt);
-  if (sres<3 || hr<0 || hr>24 || min<0 || min>60 || sec<0 || sec>60 || prt<0 || prt>99) return -1;
+  if (sres<3 || !is_valid_time(hr,min,sec,prt)) return -1;
   return hr*(60*60*100)+min*(60*100)+sec*100+prt;
 }
 
 
 int wg_ymd_to_date(void* db, int yr, int mo, int day) {
-  if (yr<0 || mo<1 || mo>12 || day<1 || day>31) return -1;
+  if (!is_valid_date(yr,mo,day)) return -1;
   return ymd_to_scalar(yr,mo,day);
 }
 
 
 int wg_hms_to_time(void* db, int hr, int min, int sec, int prt) {
-  if (hr<0 || hr>24 || min<0 || min>60 || sec<0 || sec>60 || prt<0 || prt>99)
+  if (!is_valid_time(hr,min,sec,prt))
     return -1;
   return hr*(60*60*100)+min*(60*100)+sec*100+prt;
 }
@@ -3054,6 +3056,19 @@ static int isleap(unsigned yr) {
   return yr % 400 == 0 || (yr % 4 == 0 && yr % 100 != 0);
 }
 
+/* The first year is 1 */
+static int is_valid_date(int yr, int mo, int day) {
+  static const int mdays[] = {31,28,31,30,31,30,31,31,30,31,30,31};
+  if (yr<1 || mo<1 || mo>12 || day<1) return 0;
+  return day <= mdays[mo-1] + (mo==2 && isleap(yr));
+}
+
+/* The last moment of a day may be given as 24:00:00.00 */
+static int is_valid_time(int hr, int min, int sec, int prt) {
+  if (hr<0 || min<0 || min>59 || sec<0 || sec>59 || prt<0 || prt>99) return 0;
+  return hr<24 || (hr==24 && !min && !sec && !prt);
+}
+
 static unsigned months_to_days (unsigned month) {
   return (month * 3057 - 3007) / 100;
 }
-- 
2.43.0


From a258671e0de7cd55b07e587e25445ef27e9d4017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:01 +0000
Subject: [PATCH 048/116] fix: the current UTC time is negative from 2038 on

---
 Db/dbdata.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 3877f06..38125cd 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1873,17 +1873,15 @@ int wg_current_localdate(void* db) {
 
 int wg_current_utctime(void* db) {
   struct timeb tstruct;
-  int esecs;
-  int days;
+  time_t esecs;
   int secs;
   int milli;
   int secsday=24*60*60;
 
   ftime(&tstruct);
-  esecs=(int)(tstruct.time);
+  esecs=tstruct.time;
   milli=tstruct.millitm;
-  days=esecs/secsday;
-  secs=esecs-(days*secsday);
+  secs=(int)(esecs%secsday);
   return (secs*100)+(milli/10);
 }
 
-- 
2.43.0


From 677318a269b60e312c4c37127d50a83ccf084ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:05 +0000
Subject: [PATCH 049/116] fix: negative columns, unknown conditions and illegal
 values were accepted in queries

---
 Db/dbquery.c | 53 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index f491ba2..2e7a5ef 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -127,6 +127,22 @@ static gint show_query_error(void* db, char* errmsg);
 
 
 
+/** Check that a query condition is one of the WG_COND_* constants
+ */
+static int is_query_cond(gint cond) {
+  switch(cond) {
+    case WG_COND_EQUAL:
+    case WG_COND_NOT_EQUAL:
+    case WG_COND_LESSTHAN:
+    case WG_COND_GREATER:
+    case WG_COND_LTEQUAL:
+    case WG_COND_GTEQUAL:
+      return 1;
+    default:
+      return 0;
+  }
+}
+
 /** Find most restricting column from query argument list
  *  This is probably a reasonable approach to optimize queries
  *  based on T-tree indexes, but might be difficult to combine
@@ -362,7 +378,7 @@ static gint prepare_params(void *db, void *matchrec, gint reclen,
       matchrec = wg_get_record_dataarray(db, matchrec);
     }
 #ifdef CHECK
-    if(!reclen) {
+    if(reclen <= 0) {
       show_query_error(db, "Zero-length match record argument");
       return -1;
     }
@@ -370,7 +386,7 @@ static gint prepare_params(void *db, void *matchrec, gint reclen,
   }
 
 #ifdef CHECK
-  if(arglist && !argc) {
+  if(arglist && argc <= 0) {
     show_query_error(db, "Zero-length argument list");
     return -1;
   }
@@ -378,6 +394,20 @@ static gint prepare_params(void *db, void *matchrec, gint reclen,
     show_query_error(db, "Invalid argument list (NULL)");
     return -1;
   }
+  for(i=0; i<argc; i++) {
+    if(arglist[i].column < 0) {
+      show_query_error(db, "Invalid column number in argument list");
+      return -1;
+    }
+    if(!is_query_cond(arglist[i].cond)) {
+      show_query_error(db, "Invalid condition in argument list");
+      return -1;
+    }
+    if(arglist[i].value == WG_ILLEGAL) {
+      show_query_error(db, "Invalid value in argument list");
+      return -1;
+    }
+  }
 #endif
 
   /* Determine total number of query parameters (number of arguments
@@ -2055,6 +2085,25 @@ void *wg_find_record(void *db, gint fieldnr, gint cond, gint data,
     void* lastrecord) {
   gint index_id = -1;
 
+#ifdef CHECK
+  if (!dbcheck(db)) {
+    show_query_error(db, "Invalid database pointer in wg_find_record");
+    return NULL;
+  }
+#endif
+  if(fieldnr < 0) {
+    show_query_error(db, "Invalid field number in wg_find_record");
+    return NULL;
+  }
+  if(data == WG_ILLEGAL) {
+    show_query_error(db, "Invalid value in wg_find_record");
+    return NULL;
+  }
+  if(!is_query_cond(cond)) {
+    show_query_error(db, "Invalid condition in wg_find_record");
+    return NULL;
+  }
+
   /* find index on colum */
   if(cond != WG_COND_NOT_EQUAL) {
     index_id = wg_multi_column_to_index_id(db, &fieldnr, 1,
-- 
2.43.0


From b2a08d38af350cd67810cb8a4f38332fa4b1545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:05 +0000
Subject: [PATCH 050/116] fix: wg_register_external_db reported success when
 the table was full

---
 Db/dballoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 7abf2a6..fb1fc9b 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1417,7 +1417,7 @@ gint wg_register_external_db(void *db, void *extdb) {
       "Database has indexes, external references not allowed");
   }
   if(dbh->extdbs.count >= MAX_EXTDB) {
-    show_dballoc_error(db, "cannot register external database");
+    return show_dballoc_error(db, "cannot register external database");
   } else {
     dbh->extdbs.offset[dbh->extdbs.count] = ptrtooffset(db, dbmemsegh(extdb));
     dbh->extdbs.size[dbh->extdbs.count++] = \
-- 
2.43.0


From 3c813fc0ead01dafdaa80006a449f371f0bc75b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:05 +0000
Subject: [PATCH 051/116] fix: field numbers and record lengths near the
 integer limits overflowed

---
 Db/dballoc.c | 1 +
 Db/dbdata.c  | 6 +++---
 Db/dbdata.h  | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index fb1fc9b..a89d01e 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -883,6 +883,7 @@ gint wg_alloc_gints(void* db, void* area_header, gint nr) {
   db_area_header* areah;
 
   areah=(db_area_header*)area_header;
+  if (nr<0 || nr>dbmemsegh(db)->size/(gint)sizeof(gint)) return 0; // cannot fit (includes overflow)
   wantedbytes=nr*sizeof(gint); // object sizes are stored in bytes
   if (wantedbytes<0) return 0; // cannot allocate negative or zero sizes
   if (wantedbytes<=MIN_VARLENOBJ_SIZE) usedbytes=MIN_VARLENOBJ_SIZE;
diff --git a/Db/dbdata.c b/Db/dbdata.c
index 38125cd..efc6d52 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -151,7 +151,7 @@ void* wg_create_raw_record(void* db, wg_int length) {
     show_data_error_nr(db,"wrong database pointer given to wg_create_record with length ",length);
     return 0;
   }
-  if(length < 0) {
+  if(length < 0 || length > dbmemsegh(db)->size/(gint)sizeof(gint)) {
     show_data_error_nr(db, "invalid record length:",length);
     return 0;
   }
@@ -1289,7 +1289,7 @@ wg_int wg_get_field(void* db, void* record, wg_int fieldnr) {
     show_data_error_nr(db,"wrong database pointer given to wg_get_field",fieldnr);
     return WG_ILLEGAL;
   }
-  if (fieldnr<0 || (getusedobjectwantedgintsnr(*((gint*)record))<=fieldnr+RECORD_HEADER_GINTS)) {
+  if (fieldnr<0 || (getusedobjectwantedgintsnr(*((gint*)record))-RECORD_HEADER_GINTS<=fieldnr)) {
     show_data_error_nr(db,"wrong field number given to wg_get_field",fieldnr);\
     return WG_ILLEGAL;
   }
@@ -1307,7 +1307,7 @@ wg_int wg_get_field_type(void* db, void* record, wg_int fieldnr) {
     show_data_error_nr(db,"wrong database pointer given to wg_get_field_type",fieldnr);\
     return 0;
   }
-  if (fieldnr<0 || (getusedobjectwantedgintsnr(*((gint*)record))<=fieldnr+RECORD_HEADER_GINTS)) {
+  if (fieldnr<0 || (getusedobjectwantedgintsnr(*((gint*)record))-RECORD_HEADER_GINTS<=fieldnr)) {
     show_data_error_nr(db,"wrong field number given to wg_get_field_type",fieldnr);\
     return 0;
   }
diff --git a/Db/dbdata.h b/Db/dbdata.h
index 988db22..d25957f 100644
--- a/Db/dbdata.h
+++ b/Db/dbdata.h
@@ -636,7 +636,7 @@ gint usage from start:
     show_data_error_str(db,"wrong database pointer given to ",opname);\
     return -1;\
   }\
-  if (fieldnr<0 || getusedobjectwantedgintsnr(*((gint*)record))<=fieldnr+RECORD_HEADER_GINTS) {\
+  if (fieldnr<0 || getusedobjectwantedgintsnr(*((gint*)record))-RECORD_HEADER_GINTS<=fieldnr) {\
     show_data_error_str(db,"wrong field number given to ",opname);\
     return -2;\
   }\
-- 
2.43.0


From 345f918b2a34b37da496b0144e142c33cb929475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:05 +0000
Subject: [PATCH 052/116] fix: wrong values given to decoders and negative
 lengths were not recognized as errors

---
 Db/dbdata.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index efc6d52..f61a64d 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1807,12 +1807,12 @@ int wg_decode_date(void* db, wg_int data) {
 #ifdef CHECK
   if (!dbcheck(db)) {
     show_data_error(db,"wrong database pointer given to wg_decode_date");
-    return 0;
+    return -1;
   }
 #endif
   if (isdate(data)) return decode_date(data);
   show_data_error_nr(db,"data given to wg_decode_date is not an encoded date: ",data);
-  return 0;
+  return -1;
 }
 
 wg_int wg_encode_time(void* db, int data) {
@@ -1843,12 +1843,12 @@ int wg_decode_time(void* db, wg_int data) {
 #ifdef CHECK
   if (!dbcheck(db)) {
     show_data_error(db,"wrong database pointer given to wg_decode_time");
-    return 0;
+    return -1;
   }
 #endif
   if (istime(data)) return decode_time(data);
   show_data_error_nr(db,"data given to wg_decode_time is not an encoded time: ",data);
-  return 0;
+  return -1;
 }
 
 int wg_current_utcdate(void* db) {
@@ -2009,7 +2009,10 @@ void* wg_decode_record(void* db, wg_int data) {
     return 0;
   }
 #endif
-  return (void*)(offsettoptr(db,decode_datarec_offset(data)));
+  if (isptr(data) && isdatarec(data))
+    return (void*)(offsettoptr(db,decode_datarec_offset(data)));
+  show_data_error_nr(db,"data given to wg_decode_record is not an encoded record: ",data);
+  return NULL;
 }
 
 
@@ -2420,6 +2423,10 @@ wg_int wg_encode_blob(void* db, const char* str, const char* type, wg_int len) {
     show_data_error(db,"NULL string ptr given to wg_encode_blob");
     return WG_ILLEGAL;
   }
+  if (len<0) {
+    show_data_error_nr(db,"negative length given to wg_encode_blob: ",len);
+    return WG_ILLEGAL;
+  }
 #endif
   return wg_encode_uniblob(db,str,type,WG_BLOBTYPE,len);
 }
@@ -2441,6 +2448,7 @@ char* wg_decode_blob(void* db, wg_int data) {
 
 
 wg_int wg_decode_blob_len(void* db, wg_int data) {
+  gint len;
 #ifdef CHECK
   if (!dbcheck(db)) {
     show_data_error(db,"wrong database pointer given to wg_decode_blob_len");
@@ -2451,7 +2459,8 @@ wg_int wg_decode_blob_len(void* db, wg_int data) {
     return -1;
   }
 #endif
-  return wg_decode_unistr_len(db,data,WG_BLOBTYPE)+1;
+  len=wg_decode_unistr_len(db,data,WG_BLOBTYPE);
+  return (len < 0 ? len : len+1);
 }
 
 
@@ -2906,7 +2915,7 @@ gint wg_decode_unistr_len(void* db, gint data, gint type) {
     return strsize;
   }
 #endif
-  if (isshortstr(data)) {
+  if (type==WG_STRTYPE && isshortstr(data)) {
     dataptr=(char*)(offsettoptr(db,decode_shortstr_offset(data)));
     strsize=strlen(dataptr);
     return strsize;
@@ -2920,7 +2929,7 @@ gint wg_decode_unistr_len(void* db, gint data, gint type) {
     return strsize-1;
   }
   show_data_error(db,"data given to wg_decode_unistr_len is not an encoded string");
-  return 0;
+  return -1;
 }
 
 /**
-- 
2.43.0


From cee926b97b5b8d94d53d02b890d6072071c1e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:05 +0000
Subject: [PATCH 053/116] fix: many functions crashed when given an invalid
 database handle

---
 Db/dballoc.c  | 23 +++++++++++++++++++++--
 Db/dballoc.h  |  4 ++--
 Db/dbdata.c   | 15 ++++++++++++---
 Db/dbdump.c   | 21 ++++++++++++++++++---
 Db/dbindex.c  | 43 +++++++++++++++++++++++++++++++++++++++++++
 Db/dblog.c    | 14 ++++++++++++++
 Db/dbquery.c  | 13 +++++++++++++
 Db/dbschema.c | 10 ++++++++++
 Db/dbutil.c   |  7 +++++++
 9 files changed, 140 insertions(+), 10 deletions(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index a89d01e..a186e02 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -885,7 +885,6 @@ gint wg_alloc_gints(void* db, void* area_header, gint nr) {
   areah=(db_area_header*)area_header;
   if (nr<0 || nr>dbmemsegh(db)->size/(gint)sizeof(gint)) return 0; // cannot fit (includes overflow)
   wantedbytes=nr*sizeof(gint); // object sizes are stored in bytes
-  if (wantedbytes<0) return 0; // cannot allocate negative or zero sizes
   if (wantedbytes<=MIN_VARLENOBJ_SIZE) usedbytes=MIN_VARLENOBJ_SIZE;
   /* XXX: modifying the next line breaks encode_query_param_unistr().
    * Rewrite this using macros to reduce the chance of accidental breakage */
@@ -1406,6 +1405,11 @@ gint wg_register_external_db(void *db, void *extdb) {
   db_memsegment_header* dbh = dbmemsegh(db);
 
 #ifdef CHECK
+  if(!dbcheck(db) || !dbcheck(extdb)) {
+    show_dballoc_error(db,
+      "wrong database pointer given to wg_register_external_db");
+    return -1;
+  }
   if(dbh->key != 0) {
     show_dballoc_error(db,
       "external references not allowed in a shared memory db");
@@ -1454,7 +1458,15 @@ gint wg_create_hash(void *db, db_hash_area_header* areah, gint size) {
  */
 gint wg_database_freesize(void *db) {
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint freesize = dbh->size - dbh->free;
+  gint freesize;
+
+#ifdef CHECK
+  if (!dbcheck(db)) {
+    show_dballoc_error(db, "wrong database pointer given to wg_database_freesize");
+    return 0;
+  }
+#endif
+  freesize = dbh->size - dbh->free;
   return (freesize < MINIMAL_SUBAREA_SIZE ? 0 : freesize);
 }
 
@@ -1463,6 +1475,13 @@ gint wg_database_freesize(void *db) {
  */
 gint wg_database_size(void *db) {
   db_memsegment_header* dbh = dbmemsegh(db);
+
+#ifdef CHECK
+  if (!dbcheck(db)) {
+    show_dballoc_error(db, "wrong database pointer given to wg_database_size");
+    return 0;
+  }
+#endif
   return dbh->size;
 }
 
diff --git a/Db/dballoc.h b/Db/dballoc.h
index 9a9d0ab..4f62456 100644
--- a/Db/dballoc.h
+++ b/Db/dballoc.h
@@ -184,8 +184,8 @@ typedef __int64 gint64;    /** 64-bit fixed size storage */
 #endif
 
 #ifdef USE_DATABASE_HANDLE
-#define dbmemseg(x) ((void *)(((db_handle *) x)->db))
-#define dbmemsegh(x) ((db_memsegment_header *)(((db_handle *) x)->db))
+#define dbmemseg(x) ((void *)((x) ? ((db_handle *) (x))->db : NULL))
+#define dbmemsegh(x) ((db_memsegment_header *)((x) ? ((db_handle *) (x))->db : NULL))
 #define dbmemsegbytes(x) ((char *)(((db_handle *) x)->db))
 #else
 #define dbmemseg(x) ((void *)(x))
diff --git a/Db/dbdata.c b/Db/dbdata.c
index f61a64d..fea2457 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -352,13 +352,15 @@ void* wg_get_next_raw_record(void* db, void* record) {
   gint subareaend;
   gint freemarker;
 
-  curoffset=ptrtooffset(db,record);
-  //printf("curroffset %d record %x\n",curoffset,(uint)record);
 #ifdef CHECK
   if (!dbcheck(db)) {
-    show_data_error(db,"wrong database pointer given to wg_get_first_record");
+    show_data_error(db,"wrong database pointer given to wg_get_next_record");
     return NULL;
   }
+#endif
+  curoffset=ptrtooffset(db,record);
+  //printf("curroffset %d record %x\n",curoffset,(uint)record);
+#ifdef CHECK
   head=dbfetch(db,curoffset);
   if (isfreeobject(head)) {
     show_data_error(db,"wrong record pointer (free) given to wg_get_next_record");
@@ -3138,6 +3140,13 @@ static struct tm * localtime_r (const time_t *timer, struct tm *result) {
  */
 gint wg_encode_external_data(void *db, void *extdb, gint encoded) {
 #ifdef USE_CHILD_DB
+#ifdef CHECK
+  if (!dbcheck(db) || !dbcheck(extdb)) {
+    show_data_error(db,
+      "wrong database pointer given to wg_encode_external_data");
+    return WG_ILLEGAL;
+  }
+#endif
   return wg_translate_hdroffset(db, dbmemseg(extdb), encoded);
 #else
   show_data_error(db, "child databases support is not enabled.");
diff --git a/Db/dbdump.c b/Db/dbdump.c
index 4732f2e..48c0a41 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -101,6 +101,10 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   gint lock_id = 0;
 
 #ifdef CHECK
+  if(!dbcheck(db)) {
+    show_dump_error(db, "wrong database pointer given to wg_dump");
+    return -1;
+  }
   if(dbh->extdbs.count != 0) {
     show_dump_error(db, "Database contains external references");
   }
@@ -319,12 +323,23 @@ gint wg_import_dump(void * db,char fileName[]) {
   gint dbsize = -1, newsize;
   gint err = -1;
 #ifdef USE_DBLOG
-  gint active = dbh->logging.active;
-  gint serial = dbh->logging.serial;
+  gint active, serial;
 #endif
-  gint key = dbh->key;
+  gint key;
   gint minsize, maxsize;
 
+#ifdef CHECK
+  if(!dbcheck(db)) {
+    show_dump_error(db, "wrong database pointer given to wg_import_dump");
+    return -1;
+  }
+#endif
+#ifdef USE_DBLOG
+  active = dbh->logging.active;
+  serial = dbh->logging.serial;
+#endif
+  key = dbh->key;
+
   /* Check the integrity and compatibility first: once the memory image
    * is being overwritten, there is no way back.
    */
diff --git a/Db/dbindex.c b/Db/dbindex.c
index 7c41b6d..e3777e7 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2415,6 +2415,13 @@ gint wg_drop_index(void *db, gint index_id){
   gcell *ilistelem;
   db_memsegment_header* dbh = dbmemsegh(db);
 
+#ifdef CHECK
+  if (!dbcheck(db)) {
+    show_index_error(db, "Invalid database pointer in wg_drop_index");
+    return -1;
+  }
+#endif
+
   /* Locate the header */
   ilist = &dbh->index_control_area_header.index_list;
   while(*ilist) {
@@ -2546,6 +2553,17 @@ gint wg_multi_column_to_index_id(void *db, gint *columns, gint col_count,
   gcell *ilistelem;
   gint sorted_cols[MAX_INDEX_FIELDS];
 
+#ifdef CHECK
+  if (!dbcheck(db)) {
+    show_index_error(db, "Invalid database pointer in wg_multi_column_to_index_id");
+    return -1;
+  }
+  if (!columns) {
+    show_index_error(db, "columns list is a NULL pointer");
+    return -1;
+  }
+#endif
+
 #ifdef USE_INDEX_TEMPLATE
   /* Validate the match record and find the template */
   if(matchrec) {
@@ -2587,6 +2605,11 @@ gint wg_multi_column_to_index_id(void *db, gint *columns, gint col_count,
     sorted_cols[0] = columns[0];
   }
 
+  if(sorted_cols[0] < 0) {
+    show_index_error_nr(db, "Invalid column number", sorted_cols[0]);
+    return -1;
+  }
+
   for(i=0; i<col_count; i++) {
     if(sorted_cols[i] > MAX_INDEXED_FIELDNR) {
       show_index_error_nr(db, "Max allowed column number",
@@ -2636,6 +2659,13 @@ gint wg_get_index_type(void *db, gint index_id) {
   gcell *ilistelem;
   db_memsegment_header* dbh = dbmemsegh(db);
 
+#ifdef CHECK
+  if (!dbcheck(db)) {
+    show_index_error(db, "Invalid database pointer in wg_get_index_type");
+    return -1;
+  }
+#endif
+
   /* Locate the header */
   ilist = &dbh->index_control_area_header.index_list;
   while(*ilist) {
@@ -2673,6 +2703,13 @@ void * wg_get_index_template(void *db, gint index_id, gint *reclen) {
   wg_index_template *tmpl = NULL;
   void *matchrec;
 
+#ifdef CHECK
+  if (!dbcheck(db)) {
+    show_index_error(db, "Invalid database pointer in wg_get_index_template");
+    return NULL;
+  }
+#endif
+
   /* Locate the header */
   ilist = &dbh->index_control_area_header.index_list;
   while(*ilist) {
@@ -2724,6 +2761,12 @@ void * wg_get_all_indexes(void *db, gint *count) {
   gint *res;
 
   *count = 0;
+#ifdef CHECK
+  if (!dbcheck(db)) {
+    show_index_error(db, "Invalid database pointer in wg_get_all_indexes");
+    return NULL;
+  }
+#endif
   if(!dbh->index_control_area_header.number_of_indexes) {
     return NULL;
   }
diff --git a/Db/dblog.c b/Db/dblog.c
index 8d23e47..74d7a65 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -786,6 +786,13 @@ gint wg_start_logging(void *db)
 /*  db_handle_logdata *ld = ((db_handle *) db)->logdata;*/
   int fd;
 
+#ifdef CHECK
+  if (!dbcheck(db)) {
+    show_log_error(db, "Invalid database pointer in wg_start_logging");
+    return -1;
+  }
+#endif
+
   if(dbh->logging.active) {
     show_log_error(db, "Logging is already active");
     return -1;
@@ -847,6 +854,13 @@ gint wg_stop_logging(void *db)
 #ifdef USE_DBLOG
   db_memsegment_header* dbh = dbmemsegh(db);
 
+#ifdef CHECK
+  if (!dbcheck(db)) {
+    show_log_error(db, "Invalid database pointer in wg_stop_logging");
+    return -1;
+  }
+#endif
+
   if(!dbh->logging.active) {
     show_log_error(db, "Logging is not active");
     return -1;
diff --git a/Db/dbquery.c b/Db/dbquery.c
index 2e7a5ef..9bf1a5c 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1209,6 +1209,12 @@ gint wg_encode_query_param_int(void *db, gint data) {
 gint wg_encode_query_param_double(void *db, double data) {
   void *dptr;
 
+#ifdef CHECK
+  if (!dbcheck(db)) {
+    show_query_error(db, "Invalid database pointer in wg_encode_query_param_double");
+    return WG_ILLEGAL;
+  }
+#endif
   dptr=malloc(2*sizeof(gint));
   if(!dptr) {
     show_query_error(db, "Failed to encode query parameter");
@@ -1256,6 +1262,13 @@ static gint encode_query_param_unistr(void *db, const char *data, gint type,
   const char *extdata, int length) {
 
   void *dptr;
+
+#ifdef CHECK
+  if (!dbcheck(db)) {
+    show_query_error(db, "Invalid database pointer given for a query parameter");
+    return WG_ILLEGAL;
+  }
+#endif
   if(type == WG_STRTYPE && extdata == NULL) {
     dptr=malloc(length+1);
     if(!dptr) {
diff --git a/Db/dbschema.c b/Db/dbschema.c
index 3d5017b..528c1cc 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -175,6 +175,12 @@ void *wg_find_document(void *db, void *rec) {
   show_schema_error(db, "Backlinks are required to find complete documents");
   return NULL;
 #else
+#ifdef CHECK
+  if(!dbcheck(db)) {
+    show_schema_error(db, "wrong database pointer given to wg_find_document");
+    return NULL;
+  }
+#endif
   return find_document_recursive(db, (gint *) rec, WG_SCHEMA_DOC_DEPTH-1);
 #endif
 }
@@ -223,6 +229,10 @@ static void *find_document_recursive(void *db, gint *rec, int depth) {
  */
 gint wg_delete_document(void *db, void *document) {
 #ifdef CHECK
+  if(!dbcheck(db)) {
+    return show_schema_error(db,
+      "wrong database pointer given to wg_delete_document");
+  }
   if(!is_schema_document(document)) {
     return show_schema_error(db, "wg_delete_document: not a document");
   }
diff --git a/Db/dbutil.c b/Db/dbutil.c
index 5716487..26ab642 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -141,6 +141,13 @@ void wg_print_record(void *db, wg_int* rec) {
     return;
   }
 
+#ifdef CHECK
+  if (!dbcheck(db)) {
+    show_io_error(db, "wrong database pointer given to wg_print_record");
+    return;
+  }
+#endif
+
 #ifdef USE_CHILD_DB
   parent = wg_get_rec_owner(db, rec);
 #endif
-- 
2.43.0


From 137812cf2318548054c8ddf7e8426cee982af1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:27 +0000
Subject: [PATCH 054/116] fix: exporting from an invalid database handle
 overwrote the file

---
 Db/dbutil.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 26ab642..d9c2e5b 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -682,6 +682,12 @@ void wg_export_db_csv(void *db, const char *filename) {
   void *rec;
   FILE *f;
 
+#ifdef CHECK
+  if (!dbcheck(db)) {
+    show_io_error(db, "wrong database pointer given to wg_export_db_csv");
+    return;
+  }
+#endif
 #ifdef _WIN32
   if(fopen_s(&f, filename, "w")) {
 #else
-- 
2.43.0


From 0bcc94b83852b3c8053a901220244e2b5977161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:37 +0000
Subject: [PATCH 055/116] fix: requests over 1 GB from a memory pool overflowed
 the block size

---
 Db/dbmpool.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index 90c0fca..e05749c 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -119,6 +119,11 @@ void* wg_create_mpool(void* db, int origbytes) {
   void* nextptr;
   int i;
 
+  if (origbytes>INT_MAX-(int)sizeof(mpool_header)-ALIGNMENT_BYTES) {
+    show_mpool_error_nr(db,
+      " cannot create an mpool with size: ",origbytes);
+    return NULL;
+  }
   if (origbytes<MIN_FIRST_SUBAREA_SIZE+ALIGNMENT_BYTES)
     bytes=sizeof(mpool_header)+MIN_FIRST_SUBAREA_SIZE+ALIGNMENT_BYTES;
   else
@@ -162,10 +167,16 @@ static int extend_mpool(void* db, void* mpool, int minbytes) {
   void* nextptr;
 
   mpoolh=(mpool_header*)mpool;
+  if (mpoolh->cur_subarea+1>=NROF_SUBAREAS || minbytes>INT_MAX-ALIGNMENT_BYTES) {
+    show_mpool_error_nr(db,
+      " cannot extend mpool to size: ",minbytes);
+    return -1;
+  }
   cursize=((mpoolh->subarea_table)[(mpoolh->cur_subarea)]).size;
   bytes=cursize;
   for(i=0;i<100;i++) {
-    bytes=bytes*2;
+    if (bytes>INT_MAX/2) bytes=INT_MAX; // cannot be doubled any more
+    else bytes=bytes*2;
     if (bytes>=(minbytes+ALIGNMENT_BYTES)) break;
   }
   subarea=malloc(bytes);
-- 
2.43.0


From 71190899e00e3a5105ff60c902748ed792c0590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:37 +0000
Subject: [PATCH 056/116] fix: the second string of an atom was misread if it
 was short, or the type of the atom 0

---
 Db/dbmpool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index e05749c..4428cf4 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -396,8 +396,9 @@ char* wg_atomstr1(void* db, void* ptr) {
 
 char* wg_atomstr2(void* db, void* ptr) {
   if (ptr==NULL) return NULL;
+  ptr=(char*)ptr+1; // skip the type byte
   ptr=(char*)ptr+strlen((char*)ptr)+1;
-  if (*(((char*)ptr)+1)==(char)0) return NULL;
+  if (*((char*)ptr)==(char)0) return NULL;
   else return ((char*)ptr);
 }
 
-- 
2.43.0


From 49c2745bd98400b6a90eab6f109a51f073c489b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:22 +0000
Subject: [PATCH 057/116] fix: texts that merely start like a date or time, or
 that are long numbers, were parsed wrongly

---
 Db/dbutil.c | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index d9c2e5b..4e5e7d3 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -541,6 +541,28 @@ gint wg_parse_and_encode_param(void *db, const char *buf) {
   return encoded;
 }
 
+/** Check that the text consists of groups of digits only
+ *  A digit in the format stands for a group of at most that many digits,
+ *  0 stands for a group of any length. Returns 1 if the entire text
+ *  matches.
+ */
+static int match_digit_groups(const char *buf, const char *format) {
+  for(; *format; format++) {
+    if(*format >= '0' && *format <= '9') {
+      int cnt = 0;
+      while(*buf >= '0' && *buf <= '9') {
+        buf++;
+        cnt++;
+      }
+      if(!cnt || (*format != '0' && cnt > *format - '0'))
+        return 0;
+    } else if(*buf++ != *format) {
+      return 0;
+    }
+  }
+  return *buf == 0;
+}
+
 /** Detect the type of input data in string format.
  *
  *  Supports following data types:
@@ -584,19 +606,26 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
   else if((c >= '0' && c <= '9') ||\
    (c == '-' && buf[1] >= '0' && buf[1] <= '9')) {
     /* This could be one of int, double, date or time */
-    if(c != '-' && (*datetime = wg_strp_iso_date(db, buf)) >= 0) {
+    if(match_digit_groups(buf, "4-2-2") &&\
+     (*datetime = wg_strp_iso_date(db, buf)) >= 0) {
       type = WG_DATETYPE;
-    } else if(c != '-' && (*datetime = wg_strp_iso_time(db, buf)) >= 0) {
+    } else if((match_digit_groups(buf, "2:2:2") ||\
+     match_digit_groups(buf, "2:2:2.0")) &&\
+     (*datetime = wg_strp_iso_time(db, buf)) >= 0) {
       type = WG_TIMETYPE;
     } else {
       /* Examine the field contents to distinguish between float
        * and int, then convert using atol()/atof(). sscanf() tends to
        * be too optimistic about the conversion, especially under Win32.
        */
-      char numbuf[80];
+      char *numbuf = (char *) malloc(strlen(buf) + 1);
       const char *ptr = buf;
       char *wptr = numbuf, *decptr = NULL;
       int decsep = 0;
+      if(!numbuf) {
+        show_io_error(db, "Failed to allocate memory");
+        return 0;
+      }
       while(*ptr) {
         if(*ptr == CSV_DECIMAL_SEPARATOR) {
           decsep++;
@@ -610,10 +639,9 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
           break;
         }
         *(wptr++) = *(ptr++);
-        if((int) (wptr - numbuf) >= 79)
-          break;
       }
       *wptr = '\0';
+      errno = 0; /* may be left over from an earlier call */
 
       if(decsep==1) {
         char tmp = *decptr;
@@ -621,18 +649,15 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
         *doubledata = atof(numbuf);
         if(errno!=ERANGE && errno!=EINVAL) {
           type = WG_DOUBLETYPE;
-        } else {
-          errno = 0; /* Under Win32, successful calls don't do this? */
         }
         *decptr = tmp; /* conversion might have failed, restore string */
       } else if(!decsep) {
         *intdata = atol(numbuf);
         if(errno!=ERANGE && errno!=EINVAL) {
           type = WG_INTTYPE;
-        } else {
-          errno = 0;
         }
       }
+      free(numbuf);
     }
   }
 
-- 
2.43.0


From 5a8de4c474e8905e7e9dda2f6ea64818f40fd17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:22 +0000
Subject: [PATCH 058/116] fix: printing a value into a buffer of one byte left
 it unterminated

---
 Db/dbutil.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 4e5e7d3..bec6608 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -240,6 +240,12 @@ void wg_snprint_value(void *db, gint enc, char *buf, int buflen) {
   double doubledata;
   char strbuf[80];
 
+  if(buflen < 2) {
+    /* no room for anything but the terminator */
+    if(buflen > 0)
+      buf[0] = '\0';
+    return;
+  }
   buflen--; /* snprintf adds '\0' */
   switch(wg_get_encoded_type(db, enc)) {
     case WG_NULLTYPE:
-- 
2.43.0


From 5f3241833729bf9b292d2cebbc34b89a0fd914c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:22 +0000
Subject: [PATCH 059/116] fix: integers that do not fit in 32 bits were printed
 and exported wrongly

---
 Db/dbutil.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index bec6608..d56a7a1 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -259,8 +259,7 @@ void wg_snprint_value(void *db, gint enc, char *buf, int buflen) {
         snprint_record(db, (wg_int*)ptrdata, buf+len, buflen-len);
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      snprintf(buf, buflen, "%d", intdata);
+      snprintf(buf, buflen, "%td", wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
@@ -367,8 +366,7 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
       snprintf(buf, buflen, "\"<record offset %d>\"", intdata);
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      snprintf(buf, buflen, "%d", intdata);
+      snprintf(buf, buflen, "%td", wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
-- 
2.43.0


From 553564db0c84076d2eca7d545ce1fb8f65988d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:57 +0000
Subject: [PATCH 060/116] fix: characters, URIs without a prefix and single
 NULL fields were exported wrongly to CSV

---
 Db/dbutil.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index d56a7a1..cb96c06 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -354,7 +354,7 @@ static void csv_escaped_str(void *db, char *iptr, char *buf, int buflen) {
 static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
   int intdata, ilen;
   double doubledata;
-  char strbuf[80], *ibuf;
+  char strbuf[80], *ibuf, *prefix;
 
   buflen--; /* snprintf adds '\0' */
   switch(wg_get_encoded_type(db, enc)) {
@@ -386,21 +386,25 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
       /* More efficient solutions are possible, but here we simply allocate
        * enough storage to concatenate the URI before encoding it for CSV.
        */
+      prefix = wg_decode_uri_prefix(db, enc);
+      if(!prefix)
+        prefix = "";
       ilen = wg_decode_uri_len(db, enc);
-      ilen += wg_decode_uri_prefix_len(db, enc);
+      ilen += (int) strlen(prefix);
       ibuf = (char *) malloc(ilen + 1);
       if(!ibuf) {
         show_io_error(db, "Failed to allocate memory");
+        buf[0] = '\0';
         return;
       }
-      snprintf(ibuf, ilen+1, "%s%s",
-        wg_decode_uri_prefix(db, enc), wg_decode_uri(db, enc));
+      snprintf(ibuf, ilen+1, "%s%s", prefix, wg_decode_uri(db, enc));
       csv_escaped_str(db, ibuf, buf, buflen);
       free(ibuf);
       break;
     case WG_CHARTYPE:
-      intdata = wg_decode_char(db, enc);
-      snprintf(buf, buflen, "%c", (char) intdata);
+      strbuf[0] = (char) wg_decode_char(db, enc);
+      strbuf[1] = '\0';
+      csv_escaped_str(db, strbuf, buf, buflen);
       break;
     case WG_DATETYPE:
       intdata = wg_decode_date(db, enc);
@@ -697,7 +701,10 @@ void wg_fprint_record_csv(void *db, wg_int* rec, FILE *f) {
     if(i) fprintf(f, "%c", CSV_FIELD_SEPARATOR);
     enc = wg_get_field(db, rec, i);
     snprint_value_csv(db, enc, strbuf, CSV_FIELD_BUF-1);
-    fprintf(f, "%s", strbuf);
+    if(len == 1 && !strbuf[0])
+      fprintf(f, "\"\""); /* an empty line would not be read as a record */
+    else
+      fprintf(f, "%s", strbuf);
   }
 
   free(strbuf);
-- 
2.43.0


From d8507230bfa7b90aeb4349e7a78aad04bb28700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:17 +0000
Subject: [PATCH 061/116] fix: CSV import lost an unterminated last line, hung
 on read errors and hid lost values

---
 Db/dbutil.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index cb96c06..648f893 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -757,6 +757,7 @@ static gint fread_csv(void *db, FILE *f) {
   gint commit_strbuf, commit_record;
   gint reclen;
   gint encdata_sz = CSV_ENCDATA_BUF;
+  int c = 0;
 
   strbuf = (char *) malloc(CSV_FIELD_BUF);
   if(strbuf==NULL) {
@@ -777,7 +778,7 @@ static gint fread_csv(void *db, FILE *f) {
   commit_strbuf = commit_record = 0;
   ptr = strbuf;
 
-  while(!feof(f)) {
+  while(c != EOF) {
     /* Parse cycle consists:
      * 1. read character from stream. This can either:
      *   - change the state of the parser
@@ -788,15 +789,25 @@ static gint fread_csv(void *db, FILE *f) {
      *   - store the record in the database
      */
 
-    char c = (char) fgetc(f);
+    c = fgetc(f);
 
-    if(quoted_field) {
+    if(c == EOF) {
+      if(ferror(f)) {
+        err = -1;
+        show_io_error(db, "Failed to read file");
+        break;
+      }
+      /* The last line does not need to be terminated. */
+      if(quoted_field || uq_field || (reclen && !eat_sep))
+        commit_strbuf = 1;
+      commit_record = 1;
+    } else if(quoted_field) {
       /* We're parsing a quoted field. Anything we get is added to
        * strbuf unless it's a quote character.
        */
       if(!esc_quote && c == '"') {
-        char nextc = (char) fgetc(f);
-        ungetc((int) nextc, f);
+        int nextc = fgetc(f);
+        ungetc(nextc, f);
 
         if(nextc!='"') {
           /* Field ends. Note that even EOF is acceptable here */
@@ -810,7 +821,7 @@ static gint fread_csv(void *db, FILE *f) {
         esc_quote = 0;
         /* read the character. It's simply ignored if the buffer is full */
         if(((gint) ptr - (gint) strbuf) < CSV_FIELD_BUF-1)
-          *ptr++ = c;
+          *ptr++ = (char) c;
       }
     } else if(uq_field) {
       /* In case of an unquoted field, terminator can be the field
@@ -828,7 +839,7 @@ static gint fread_csv(void *db, FILE *f) {
         commit_record = 1;
       } else {
         if(((gint) ptr - (gint) strbuf) < CSV_FIELD_BUF-1)
-          *ptr++ = c;
+          *ptr++ = (char) c;
       }
     } else {
       /* We are currently not parsing anything. Four things can happen:
@@ -866,12 +877,13 @@ static gint fread_csv(void *db, FILE *f) {
         commit_record = 1;
       } else {
         /* A new field begins */
+        eat_sep = 0;
         if(c == '"') {
           quoted_field = 1;
         }
         else {
           uq_field = 1;
-          *ptr++ = c;
+          *ptr++ = (char) c;
         }
       }
     }
@@ -904,6 +916,8 @@ static gint fread_csv(void *db, FILE *f) {
       if(enc == WG_ILLEGAL) {
         show_io_error_str(db, "Warning: failed to parse", strbuf);
         enc = 0; /* continue anyway */
+        if(!err)
+          err = -1;
       }
       encdata[reclen++] = enc;
     }
-- 
2.43.0


From b7bf4651ab9fc6a2d2a4a4ddaedcb43f92f620eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:31 +0000
Subject: [PATCH 062/116] fix: failing attach calls left the segment attached
 or an unusable segment behind

---
 Db/dbmem.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Db/dbmem.c b/Db/dbmem.c
index a31f70f..de49f34 100644
--- a/Db/dbmem.c
+++ b/Db/dbmem.c
@@ -98,6 +98,7 @@ static gint show_memory_error_nr(char* errmsg, int nr);
         wg_print_code_version(); \
         wg_print_header_version(dbmemsegh(shmx), 1); \
       } \
+      wg_detach_database(shmx); \
       return NULL; \
     } \
   }
@@ -225,6 +226,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
      */
     if(!dbcheckh(shm)) {
       show_memory_error("Existing segment header is invalid");
+      detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
       free_dbhandle(dbhandle);
 #endif
@@ -238,6 +240,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
        */
       if(((db_memsegment_header *) shm)->size < minsize) {
         show_memory_error("Existing segment is too small");
+        detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
         free_dbhandle(dbhandle);
 #endif
@@ -253,6 +256,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
        */
       if(!((db_memsegment_header *) shm)->logging.active) {
         show_memory_error("Existing memory segment has no journal");
+        detach_shared_memory(shm);
         free_dbhandle(dbhandle);
         return NULL;
       }
@@ -264,6 +268,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
     omode = wg_memmode(dbhandle);
     if(omode == -1) {
       show_memory_error("Failed to get the access mode of the segment");
+      detach_shared_memory(shm);
       free_dbhandle(dbhandle);
       return NULL;
     }
@@ -322,6 +327,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
       if(err) {
         show_memory_error("Database initialization failed");
         free_shared_memory(key);
+        detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
         free_dbhandle(dbhandle);
 #endif
@@ -386,6 +392,9 @@ void* wg_attach_local_database(gint size) {
   shm = (void *) malloc(size);
   if (shm==NULL) {
     show_memory_error("malloc failed");
+#ifdef USE_DATABASE_HANDLE
+    free_dbhandle(dbhandle);
+#endif
     return NULL;
   } else {
     /* key=0 - no shared memory associated */
@@ -794,6 +803,7 @@ static void* create_shared_memory(int key, gint size, int mode) {
   shm=shmat(shmid,NULL,0);
   if (shm==(char *) -1) {
     show_memory_error("attaching shared memory segment failed");
+    shmctl(shmid, IPC_RMID, NULL); /* it would be unusable */
     return NULL;
   }
   return (void*) shm;
-- 
2.43.0


From 41763a6202966762179d4e433e86a819e5122498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:45 +0000
Subject: [PATCH 063/116] fix: dumping a database with registered external
 databases was not refused

The error was printed, but the dump was written anyway. The image refers to
memory of other databases and can never be imported.
---
 Db/dbdump.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 48c0a41..3b5ee08 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -107,6 +107,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
   if(dbh->extdbs.count != 0) {
     show_dump_error(db, "Database contains external references");
+    return -1;
   }
 #endif
 
-- 
2.43.0


From 1331e3308f05e061a9a7a1653cb0fed534785d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:45 +0000
Subject: [PATCH 064/116] fix: language, prefix or type of an external string
 was decoded with the wrong base

The extra string of a long string is encoded relative to the database the
string is stored in.
---
 Db/dbdata.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index fea2457..90983f0 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2873,6 +2873,9 @@ char* wg_decode_unistr_lang(void* db, gint data, gint type) {
   gint* fldptr;
   gint fldval;
   char* res;
+#ifdef USE_CHILD_DB
+  void* owner;
+#endif
 
 #ifdef USETINYSTR
   if (type==WG_STRTYPE && istinystr(data)) {
@@ -2887,6 +2890,11 @@ char* wg_decode_unistr_lang(void* db, gint data, gint type) {
     fldptr=((gint*)objptr)+LONGSTR_EXTRASTR_POS;
     fldval=*fldptr;
     if (fldval==0) return NULL;
+#ifdef USE_CHILD_DB
+    /* The extra string is encoded relative to the database of the string */
+    owner=get_ptr_owner(db,data);
+    if (owner!=NULL) fldval=wg_translate_hdroffset(db,owner,fldval);
+#endif
     res=wg_decode_unistr(db,fldval,type);
     return res;
   }
-- 
2.43.0


From 5bc3f61d7dd0bca97513aef25462073cf825d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:07 +0000
Subject: [PATCH 065/116] fix: JSON output of external arrays and objects used
 the wrong base

Values inside a record that belongs to an external database need to be
translated.
---
 Db/dbjson.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index a363690..14dafe5 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -133,6 +133,7 @@ static int object_key_cb(void* cb_ctx, const unsigned char * strval,
 static int elem_string_cb(void* cb_ctx, const unsigned char * strval,
                            size_t strl);
 static void print_cb(void *cb_ctx, const char *str, size_t len);
+static gint get_field_local(void *db, void *rec, gint fieldnr);
 static int pretty_print_json(void *db, yajl_gen *g, void *rec);
 static int pretty_print_jsonval(void *db, yajl_gen *g, gint enc);
 
@@ -797,6 +798,21 @@ void wg_print_json_document(void *db, void *cb, void *cb_ctx, void *document) {
   yajl_gen_free(g);
 }
 
+/*
+ * Read a field of a record that may belong to an external database.
+ * The returned value is encoded in relation to the database db.
+ */
+static gint get_field_local(void *db, void *rec, gint fieldnr)
+{
+  gint enc = wg_get_field(db, rec, fieldnr);
+#ifdef USE_CHILD_DB
+  void *owner = wg_get_rec_owner(db, rec);
+  if(owner && owner != dbmemseg(db))
+    enc = wg_translate_hdroffset(db, owner, enc);
+#endif
+  return enc;
+}
+
 /*
  * Recursively print JSON elements (using the JSON schema)
  * Returns 0 on success
@@ -814,7 +830,7 @@ static int pretty_print_json(void *db, yajl_gen *g, void *rec)
     reclen = wg_get_record_len(db, rec);
     for(i=0; i<reclen; i++) {
       gint enc;
-      enc = wg_get_field(db, rec, i);
+      enc = get_field_local(db, rec, i);
       if(wg_get_encoded_type(db, enc) != WG_RECORDTYPE) {
         return show_json_error(db, "Object had an element of invalid type");
       }
@@ -837,7 +853,7 @@ static int pretty_print_json(void *db, yajl_gen *g, void *rec)
     reclen = wg_get_record_len(db, rec);
     for(i=0; i<reclen; i++) {
       gint enc;
-      enc = wg_get_field(db, rec, i);
+      enc = get_field_local(db, rec, i);
       if(pretty_print_jsonval(db, g, enc)) {
         return -1;
       }
@@ -850,8 +866,8 @@ static int pretty_print_json(void *db, yajl_gen *g, void *rec)
   else {
     /* assume key-value pair */
     gint key, value;
-    key = wg_get_field(db, rec, WG_SCHEMA_KEY_OFFSET);
-    value = wg_get_field(db, rec, WG_SCHEMA_VALUE_OFFSET);
+    key = get_field_local(db, rec, WG_SCHEMA_KEY_OFFSET);
+    value = get_field_local(db, rec, WG_SCHEMA_VALUE_OFFSET);
 
     if(wg_get_encoded_type(db, key) != WG_STRTYPE) {
       return show_json_error(db, "Key is of invalid type");
-- 
2.43.0


From 220850c3e2ca410647847c51c3f25fed1a4784af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:08 +0000
Subject: [PATCH 066/116] fix: document queries decoded values of external
 records with the wrong base

---
 Db/dbquery.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 9bf1a5c..f121589 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1678,13 +1678,28 @@ static query_result_set *unique_resultset(void *db, query_result_set *set)
   if(al) \
     free(al);
 
+/*
+ * Read a field of a record that may belong to an external database.
+ * The returned value is encoded in relation to the database db.
+ */
+static gint get_field_local(void *db, void *rec, gint fieldnr)
+{
+  gint enc = wg_get_field(db, rec, fieldnr);
+#ifdef USE_CHILD_DB
+  void *owner = wg_get_rec_owner(db, rec);
+  if(owner && owner != dbmemseg(db))
+    enc = wg_translate_hdroffset(db, owner, enc);
+#endif
+  return enc;
+}
+
 #define ADD_DOC_ARRAY_UNWRAP(db, rec, ns, rc, k, v) \
   void *arec = wg_decode_record(db, k); \
   if(is_schema_array(arec)) { \
     gint areclen = wg_get_record_len(db, arec); \
     int j; \
     for(j=0; j<areclen; j++) { \
-      if(WG_COMPARE(db, wg_get_field(db, arec, j), v) == WG_EQUAL) { \
+      if(WG_COMPARE(db, get_field_local(db, arec, j), v) == WG_EQUAL) { \
         ADD_DOC_TO_RESULTSET(db, rec, ns, rc) \
         break; \
       } \
@@ -1793,8 +1808,13 @@ static gint check_and_merge_recursively(void *db, void *rec,
     gint enc = wg_get_field(db, rec, i);
     gint type = wg_get_encoded_type(db, enc);
     if(type == WG_RECORDTYPE) {
-      rc = check_and_merge_recursively(db, wg_decode_record(db, enc),
-        arg, next_set, depth-1);
+      void *child = wg_decode_record(db, enc);
+#ifdef USE_CHILD_DB
+      /* External records are not part of this document */
+      if(wg_get_rec_owner(db, child) != dbmemseg(db))
+        continue;
+#endif
+      rc = check_and_merge_recursively(db, child, arg, next_set, depth-1);
       if(rc) /* successful match or an error */
         return rc;
     }
-- 
2.43.0


From e780cb1c298cd32de503b89bb82a8c3df4f8b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:13 +0000
Subject: [PATCH 067/116] fix: the length of an empty blob was reported as an
 error

---
 Db/dbdata.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 90983f0..88623d4 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2450,7 +2450,6 @@ char* wg_decode_blob(void* db, wg_int data) {
 
 
 wg_int wg_decode_blob_len(void* db, wg_int data) {
-  gint len;
 #ifdef CHECK
   if (!dbcheck(db)) {
     show_data_error(db,"wrong database pointer given to wg_decode_blob_len");
@@ -2461,8 +2460,11 @@ wg_int wg_decode_blob_len(void* db, wg_int data) {
     return -1;
   }
 #endif
-  len=wg_decode_unistr_len(db,data,WG_BLOBTYPE);
-  return (len < 0 ? len : len+1);
+  if (!islongstr(data)) {
+    show_data_error(db,"data given to wg_decode_blob_len is not an encoded blob");
+    return -1;
+  }
+  return wg_decode_unistr_len(db,data,WG_BLOBTYPE)+1;
 }
 
 
-- 
2.43.0


From eaceae47966d4fc52abd19fbbb69f6fe497f3f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:25 +0000
Subject: [PATCH 068/116] fix: the database did not compile without backlinks
 or deep comparison

---
 Db/dbdata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 88623d4..668d737 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -683,8 +683,8 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   gint* strptr;
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
   gint *refs = NULL;            /** records whose index entries change */
-  gint refcount = 0;
 #endif
+  gint refcount = 0;            /** how many of them */
 #ifdef USE_BACKLINKING
   gint old_link = 0, new_link = 0;  /** list cells of the backlinks */
 #endif
-- 
2.43.0


From 3f3acb81314ac2b771603228febc766a1b809b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:25 +0000
Subject: [PATCH 069/116] fix: a failed insert from Python left an incomplete
 record in the database

---
 Python/whitedb.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/Python/whitedb.py b/Python/whitedb.py
index 6211f61..64acfaf 100644
--- a/Python/whitedb.py
+++ b/Python/whitedb.py
@@ -203,17 +203,26 @@ and record accessing functions."""
             self.start_write()
         try:
             r = wgdb.create_raw_record(self._db, l)
-            for i in range(l):
-                if type(fields[i]) == tupletype:
-                    data = fields[i][0]
-                    extarg = fields[i][1:]
-                else:
-                    data = fields[i]
-                    extarg = ()
-                if isinstance(data, Record):
-                    data = data.get__rec()
-                fargs = (self._db, r, i, data) + extarg
-                wgdb.set_new_field(*fargs)
+            i = 0
+            try:
+                for i in range(l):
+                    if type(fields[i]) == tupletype:
+                        data = fields[i][0]
+                        extarg = fields[i][1:]
+                    else:
+                        data = fields[i]
+                        extarg = ()
+                    if isinstance(data, Record):
+                        data = data.get__rec()
+                    fargs = (self._db, r, i, data) + extarg
+                    wgdb.set_new_field(*fargs)
+            except:
+                # do not leave an incomplete record behind. It can only
+                # be deleted once all of its fields are initialized.
+                for j in range(i, l):
+                    wgdb.set_new_field(self._db, r, j, None)
+                wgdb.delete_record(self._db, r)
+                raise
         finally:
             if self.locking:
                 self.end_write()
-- 
2.43.0


From 1351f31334dbac3ca3e97e4d9e4dc6172681f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:25 +0000
Subject: [PATCH 070/116] fix: record objects returned to Python were never
 freed

---
 Python/wgdbmodule.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index a80d6c9..a31e79a 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -710,7 +710,6 @@ static PyObject * wgdb_get_first_record(PyObject *self, PyObject *args) {
     return NULL;
   }
 
-  Py_INCREF(rec);
   return (PyObject *) rec;
 }
 
@@ -738,7 +737,6 @@ static PyObject * wgdb_get_next_record(PyObject *self, PyObject *args) {
     return NULL;
   }
 
-  Py_INCREF(rec);
   return (PyObject *) rec;
 }
 
@@ -1413,7 +1411,6 @@ static PyObject *wgdb_get_field(PyObject *self, PyObject *args) {
       wg_record_type.tp_free(ddata);
       return NULL;
     }
-    Py_INCREF(ddata);
     return (PyObject *) ddata;
   }
   else if(ftype==WG_INTTYPE) {
@@ -1795,7 +1792,6 @@ static PyObject * wgdb_fetch(PyObject *self, PyObject *args) {
     return NULL;
   }
 
-  Py_INCREF(rec);
   return (PyObject *) rec;
 }
 
@@ -1946,6 +1942,7 @@ static PyObject *wg_query_get_res_count(wg_query_ob *obj, void *closure) {
     if(obj->query->qtype == WG_QTYPE_PREFETCH) {
       return Py_BuildValue("K", (unsigned PY_LONG_LONG) obj->query->res_count);
     } else {
+      Py_INCREF(Py_None);
       return Py_None;
     }
   } else {
-- 
2.43.0


From 09639b6365eea67a4e0d71efa74e158dd4d91d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:47 +0000
Subject: [PATCH 071/116] fix: strings written from Python were lost,
 unreadable or crashed the interpreter in some cases

---
 Python/wgdbmodule.c | 173 +++++++++++++++++++++++++-------------------
 1 file changed, 99 insertions(+), 74 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index a31e79a..0438401 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -45,9 +45,6 @@
 #if PY_VERSION_HEX >= 0x03000000
 #define PYTHON3
 #define ENCODEERR "surrogateescape" /* handling of charset mismatches */
-#if PY_VERSION_HEX >= 0x03030000
-#define HAVE_LOCALEENC /* locale dependent string encode function exists */
-#endif
 #endif
 
 struct module_state {
@@ -110,6 +107,7 @@ static wg_int encode_pyobject_record(wg_database *db, PyObject *data);
 static wg_int encode_pyobject_int(wg_database *db, PyObject *data, int param);
 static wg_int encode_pyobject_double(wg_database *db, PyObject *data,
   int param);
+static char *pyobject_to_cstr(PyObject *data, PyObject **bytes);
 static wg_int encode_pyobject_str(wg_database *db, PyObject *data,
   char *ext_str, int param);
 static wg_int encode_pyobject_uri(wg_database *db, PyObject *data,
@@ -134,6 +132,7 @@ static PyObject *wgdb_set_field(PyObject *self, PyObject *args,
                                         PyObject *kwds);
 static PyObject *wgdb_set_new_field(PyObject *self, PyObject *args,
                                         PyObject *kwds);
+static PyObject *cstr_to_pyobject(char *prefix, char *s);
 static PyObject *wgdb_get_field(PyObject *self, PyObject *args);
 
 static PyObject *wgdb_start_write(PyObject *self, PyObject *args);
@@ -939,6 +938,31 @@ static wg_int encode_pyobject_double(wg_database *db, PyObject *data,
   }
 }
 
+/** Convert a Python string to a C string.
+ *  The text is stored as UTF-8, as expected when it is read.
+ *  *bytes receives an object that owns the C string. It should be
+ *  released when the string is no longer needed.
+ *  returns NULL on failure (the Python exception is set).
+ */
+static char *pyobject_to_cstr(PyObject *data, PyObject **bytes) {
+  char *s;
+#ifndef PYTHON3
+  Py_INCREF(data);
+  *bytes = data;
+  if(PyString_AsStringAndSize(data, &s, NULL) < 0)
+    return NULL;
+#else
+  if(!PyUnicode_Check(data)) {
+    PyErr_SetString(PyExc_TypeError, "A string is required.");
+    return NULL;
+  }
+  *bytes = PyUnicode_AsEncodedString(data, "utf-8", ENCODEERR);
+  if(!*bytes || PyBytes_AsStringAndSize(*bytes, &s, NULL) < 0)
+    return NULL;
+#endif
+  return s;
+}
+
 /** Encode an atomic value of type WG_STRTYPE
  *  returns WG_ILLEGAL on failure
  *  if param is 1, the storage will be allocated in local memory (intended
@@ -946,24 +970,19 @@ static wg_int encode_pyobject_double(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_str(wg_database *db, PyObject *data,
   char *ext_str, int param) {
-  char *s;
-#ifndef PYTHON3
-  s = PyString_AsString(data);
-#elif defined(HAVE_LOCALEENC)
-  s = PyBytes_AsString(PyUnicode_EncodeLocale(data, ENCODEERR));
-#else
-  s = PyBytes_AsString(PyUnicode_AsEncodedString(data, NULL, ENCODEERR));
-#endif
+  wg_int enc = WG_ILLEGAL;
+  PyObject *bytes = NULL;
+  char *s = pyobject_to_cstr(data, &bytes);
   /* wg_encode_str is not guaranteed to check for NULL pointer */
   if(s) {
     if(!param) {
-      return wg_encode_str(db->db, s, ext_str);
+      enc = wg_encode_str(db->db, s, ext_str);
     } else {
-      return wg_encode_query_param_str(db->db, s, ext_str);
+      enc = wg_encode_query_param_str(db->db, s, ext_str);
     }
-  } else {
-    return WG_ILLEGAL;
   }
+  Py_XDECREF(bytes);
+  return enc;
 }
 
 /** Encode an atomic value of type WG_URITYPE
@@ -973,24 +992,19 @@ static wg_int encode_pyobject_str(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_uri(wg_database *db, PyObject *data,
   char *ext_str, int param) {
-  char *s;
-#ifndef PYTHON3
-  s = PyString_AsString(data);
-#elif defined(HAVE_LOCALEENC)
-  s = PyBytes_AsString(PyUnicode_EncodeLocale(data, ENCODEERR));
-#else
-  s = PyBytes_AsString(PyUnicode_AsEncodedString(data, NULL, ENCODEERR));
-#endif
+  wg_int enc = WG_ILLEGAL;
+  PyObject *bytes = NULL;
+  char *s = pyobject_to_cstr(data, &bytes);
   /* wg_encode_str is not guaranteed to check for NULL pointer */
   if(s) {
     if(!param) {
-      return wg_encode_uri(db->db, s, ext_str);
+      enc = wg_encode_uri(db->db, s, ext_str);
     } else {
-      return wg_encode_query_param_uri(db->db, s, ext_str);
+      enc = wg_encode_query_param_uri(db->db, s, ext_str);
     }
-  } else {
-    return WG_ILLEGAL;
   }
+  Py_XDECREF(bytes);
+  return enc;
 }
 
 /** Encode an atomic value of type WG_XMLLITERALTYPE
@@ -1000,24 +1014,19 @@ static wg_int encode_pyobject_uri(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_xmlliteral(wg_database *db, PyObject *data,
   char *ext_str, int param) {
-  char *s;
-#ifndef PYTHON3
-  s = PyString_AsString(data);
-#elif defined(HAVE_LOCALEENC)
-  s = PyBytes_AsString(PyUnicode_EncodeLocale(data, ENCODEERR));
-#else
-  s = PyBytes_AsString(PyUnicode_AsEncodedString(data, NULL, ENCODEERR));
-#endif
+  wg_int enc = WG_ILLEGAL;
+  PyObject *bytes = NULL;
+  char *s = pyobject_to_cstr(data, &bytes);
   /* wg_encode_str is not guaranteed to check for NULL pointer */
   if(s) {
     if(!param) {
-      return wg_encode_xmlliteral(db->db, s, ext_str);
+      enc = wg_encode_xmlliteral(db->db, s, ext_str);
     } else {
-      return wg_encode_query_param_xmlliteral(db->db, s, ext_str);
+      enc = wg_encode_query_param_xmlliteral(db->db, s, ext_str);
     }
-  } else {
-    return WG_ILLEGAL;
   }
+  Py_XDECREF(bytes);
+  return enc;
 }
 
 /** Encode an atomic value of type WG_CHARTYPE
@@ -1026,24 +1035,25 @@ static wg_int encode_pyobject_xmlliteral(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_char(wg_database *db, PyObject *data,
   int param) {
-  char *s;
-#ifndef PYTHON3
-  s = PyString_AsString(data);
-#elif defined(HAVE_LOCALEENC)
-  s = PyBytes_AsString(PyUnicode_EncodeLocale(data, ENCODEERR));
-#else
-  s = PyBytes_AsString(PyUnicode_AsEncodedString(data, NULL, ENCODEERR));
+  wg_int enc = WG_ILLEGAL;
+  PyObject *bytes = NULL;
+  char *s = pyobject_to_cstr(data, &bytes);
+#ifdef PYTHON3
+  /* A single byte cannot hold other characters than ASCII */
+  if(s && (s[0] & 0x80) && (s[1] & 0xc0) == 0x80) {
+    PyErr_SetString(PyExc_ValueError, "Not a single-byte character.");
+    s = NULL;
+  }
 #endif
-  /* wg_encode_str is not guaranteed to check for NULL pointer */
   if(s) {
     if(!param) {
-      return wg_encode_char(db->db, s[0]);
+      enc = wg_encode_char(db->db, s[0]);
     } else {
-      return wg_encode_query_param_char(db->db, s[0]);
+      enc = wg_encode_query_param_char(db->db, s[0]);
     }
-  } else {
-    return WG_ILLEGAL;
   }
+  Py_XDECREF(bytes);
+  return enc;
 }
 
 /** Encode an atomic value of type WG_FIXPOINTTYPE
@@ -1177,6 +1187,7 @@ static wg_int encode_pyobject_ext(PyObject *self,
   PyObject *data;
   wg_int enc, ftype = 0;
   char *ext_str = NULL;
+  PyObject *ext_bytes = NULL;
 
   if(PyTuple_Check(obj)) {
     /* Extended value. */
@@ -1203,17 +1214,10 @@ static wg_int encode_pyobject_ext(PyObject *self,
     }
 
     if(extargs > 2) {
-#ifndef PYTHON3
-      ext_str = PyString_AsString(PyTuple_GetItem(obj, 2));
-#elif defined(HAVE_LOCALEENC)
-      ext_str = PyBytes_AsString(
-        PyUnicode_EncodeLocale(PyTuple_GetItem(obj, 2), ENCODEERR));
-#else
-      ext_str = PyBytes_AsString(
-        PyUnicode_AsEncodedString(PyTuple_GetItem(obj, 2), NULL, ENCODEERR));
-#endif
+      ext_str = pyobject_to_cstr(PyTuple_GetItem(obj, 2), &ext_bytes);
       if(!ext_str) {
         /* Error has been set in conversion */
+        Py_XDECREF(ext_bytes);
         return WG_ILLEGAL;
       }
     }
@@ -1226,18 +1230,21 @@ static wg_int encode_pyobject_ext(PyObject *self,
   if(ftype == -1) {
     PyErr_SetString(PyExc_TypeError,
       "Requested encoding is not supported.");
+    Py_XDECREF(ext_bytes);
     return WG_ILLEGAL;
   }
   else if(ftype == -2) {
     PyErr_SetString(PyExc_TypeError,
       "Value is of unsupported type.");
+    Py_XDECREF(ext_bytes);
     return WG_ILLEGAL;
   }
 
   /* Now encode the given obj using the selected type */
   enc = encode_pyobject(db, data, ftype, ext_str, param);
-  if(enc==WG_ILLEGAL)
+  if(enc==WG_ILLEGAL && !PyErr_Occurred())
     wgdb_error_setstring(self, "Value encoding error.");
+  Py_XDECREF(ext_bytes);
 
   return enc;
 }
@@ -1291,7 +1298,8 @@ static PyObject *wgdb_set_field(PyObject *self, PyObject *args,
   /* Now encode the given data using the selected type */
   fdata = encode_pyobject((wg_database *) db, data, ftype, ext_str, 0);
   if(fdata==WG_ILLEGAL) {
-    wgdb_error_setstring(self, "Field data conversion error.");
+    if(!PyErr_Occurred())
+      wgdb_error_setstring(self, "Field data conversion error.");
     return NULL;
   }
 
@@ -1342,7 +1350,8 @@ static PyObject *wgdb_set_new_field(PyObject *self, PyObject *args,
 
   fdata = encode_pyobject((wg_database *) db, data, ftype, ext_str, 0);
   if(fdata==WG_ILLEGAL) {
-    wgdb_error_setstring(self, "Field data conversion error.");
+    if(!PyErr_Occurred())
+      wgdb_error_setstring(self, "Field data conversion error.");
     return NULL;
   }
 
@@ -1357,6 +1366,29 @@ static PyObject *wgdb_set_new_field(PyObject *self, PyObject *args,
   return Py_None;
 }
 
+/** Convert a C string to a Python string.
+ *  Bytes that are not valid UTF-8 are escaped, so that storing
+ *  the result again gives the same bytes.
+ */
+static PyObject *cstr_to_pyobject(char *prefix, char *s) {
+#ifndef PYTHON3
+  return PyString_FromFormat("%s%s", (prefix ? prefix : ""), s);
+#else
+  PyObject *res, *tail;
+  tail = PyUnicode_DecodeUTF8(s, strlen(s), ENCODEERR);
+  if(!tail || !prefix)
+    return tail;
+  res = PyUnicode_DecodeUTF8(prefix, strlen(prefix), ENCODEERR);
+  if(res) {
+    PyObject *tmp = PyUnicode_Concat(res, tail);
+    Py_DECREF(res);
+    res = tmp;
+  }
+  Py_DECREF(tail);
+  return res;
+#endif
+}
+
 /** Get decoded field value.
  *  Currently supported types:
  *   NULL - Python None
@@ -1424,29 +1456,22 @@ static PyObject *wgdb_get_field(PyObject *self, PyObject *args) {
   else if(ftype==WG_STRTYPE) {
     char *ddata = wg_decode_str(((wg_database *) db)->db, fdata);
     /* Data is copied here, no leaking */
-    return Py_BuildValue("s", ddata);
+    return cstr_to_pyobject(NULL, ddata);
   }
   else if(ftype==WG_URITYPE) {
     char *ddata = wg_decode_uri(((wg_database *) db)->db, fdata);
     char *ext_str = wg_decode_uri_prefix(((wg_database *) db)->db, fdata);
-    if(ext_str) {
-#ifndef PYTHON3
-      return PyString_FromFormat("%s%s", ext_str, ddata);
-#else
-      return PyUnicode_FromFormat("%s%s", ext_str, ddata);
-#endif
-    }
-    else return Py_BuildValue("s", ddata);
+    return cstr_to_pyobject(ext_str, ddata);
   }
   else if(ftype==WG_XMLLITERALTYPE) {
     char *ddata = wg_decode_xmlliteral(((wg_database *) db)->db, fdata);
-    return Py_BuildValue("s", ddata);
+    return cstr_to_pyobject(NULL, ddata);
   }
   else if(ftype==WG_CHARTYPE) {
     char ddata[2];
     ddata[0] = wg_decode_char(((wg_database *) db)->db, fdata);
     ddata[1] = '\0';
-    return Py_BuildValue("s", ddata); /* treat as single-character string */
+    return cstr_to_pyobject(NULL, ddata); /* a single-character string */
   }
   else if(ftype==WG_FIXPOINTTYPE) {
     double ddata = wg_decode_fixpoint(((wg_database *) db)->db, fdata);
-- 
2.43.0


From bb26407d54a97084d5e6fb34a9e35e11cc1dc590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:08 +0000
Subject: [PATCH 072/116] fix: integers too large for the database were stored
 from Python as other numbers

---
 Python/wgdbmodule.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 0438401..3350805 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -913,8 +913,10 @@ static wg_int encode_pyobject_int(wg_database *db, PyObject *data, int param) {
 #ifndef PYTHON3
   intdata = (wg_int) PyInt_AsLong(data);
 #else
-  intdata = (wg_int) PyLong_AsLong(data);
+  intdata = (wg_int) PyLong_AsSsize_t(data);
 #endif
+  if(intdata == -1 && PyErr_Occurred())
+    return WG_ILLEGAL; /* does not fit */
 
   if(!param) {
     return wg_encode_int(db->db, intdata);
@@ -1119,12 +1121,14 @@ static wg_int encode_pyobject_time(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_var(wg_database *db, PyObject *data,
   int param) {
-  int intdata;
+  wg_int intdata;
 #ifndef PYTHON3
-  intdata = (int) PyInt_AsLong(data);
+  intdata = (wg_int) PyInt_AsLong(data);
 #else
-  intdata = (int) PyLong_AsLong(data);
+  intdata = (wg_int) PyLong_AsSsize_t(data);
 #endif
+  if(intdata == -1 && PyErr_Occurred())
+    return WG_ILLEGAL;
 
   if(!param) {
     return wg_encode_var(db->db, intdata);
@@ -1504,8 +1508,8 @@ static PyObject *wgdb_get_field(PyObject *self, PyObject *args) {
      * however this approach preserves consistency in handling the type
      * conversions.
      */
-    int ddata = wg_decode_var(((wg_database *) db)->db, fdata);
-    return Py_BuildValue("(i,i)", ddata, WG_VARTYPE);
+    wg_int ddata = wg_decode_var(((wg_database *) db)->db, fdata);
+    return Py_BuildValue("(n,i)", ddata, WG_VARTYPE);
   }
   else {
     char buf[80];
-- 
2.43.0


From 0abcc6e2f91e837d9200a7277648912c03e5dec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:36 +0000
Subject: [PATCH 073/116] fix: failing query parameters crashed the Python
 module or leaked memory

---
 Python/wgdbmodule.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 3350805..2e2a66d 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -1645,6 +1645,8 @@ static int parse_query_params(PyObject *self, PyObject *args,
       return 0;
     }
     len = (int) PySequence_Size(arglist);
+    if(len < 0)
+      return 0; /* Error has been set */
 
     /* Argument list was present. Extract the individual arguments. */
     if(len > 0) {
@@ -1661,6 +1663,9 @@ static int parse_query_params(PyObject *self, PyObject *args,
         wg_int enc;
         PyObject *t = PySequence_GetItem(arglist, (Py_ssize_t) i);
 
+        if(!t)
+          return 0; /* Error has been set */
+
         if(!PyTuple_Check(t) || PyTuple_Size(t) != 3) {
           PyErr_SetString(PyExc_ValueError,
             "Query arglist item must be a 3-tuple.");
@@ -1724,6 +1729,8 @@ static int parse_query_params(PyObject *self, PyObject *args,
     }
     else if(PySequence_Check(matchrec)) {
       int len = (int) PySequence_Size(matchrec);
+      if(len < 0)
+        return 0; /* Error has been set */
       if(len) {
         int i;
 
@@ -1737,10 +1744,18 @@ static int parse_query_params(PyObject *self, PyObject *args,
 
         for(i=0; i<len; i++) {
           PyObject *sg_t = PySequence_GetItem(matchrec, i);
-          wg_int enc = encode_pyobject_ext(self, query->db, sg_t, 1);
-          Py_DECREF(sg_t);
+          wg_int enc = WG_ILLEGAL;
+          if(sg_t) {
+            enc = encode_pyobject_ext(self, query->db, sg_t, 1);
+            Py_DECREF(sg_t);
+          }
           if(enc==WG_ILLEGAL) {
-            /* Error set by encode function */
+            /* Error set by encode function. Without any encoded fields,
+             * the record would be taken as not belonging to the query. */
+            if(!query->reclen) {
+              free(query->matchrec);
+              query->matchrec = NULL;
+            }
             return 0;
           }
 
-- 
2.43.0


From 3aac8917ad73410e6a8e779811993c95d88bde7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:58 +0000
Subject: [PATCH 074/116] fix: a field write refused by the database leaked the
 value in Python

---
 Python/wgdbmodule.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 2e2a66d..0858a93 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -1311,6 +1311,7 @@ static PyObject *wgdb_set_field(PyObject *self, PyObject *args,
   err = wg_set_field(((wg_database *) db)->db,
     ((wg_record *) rec)->rec, fieldnr, fdata);
   if(err < 0) {
+    wg_free_encoded(((wg_database *) db)->db, fdata);
     wgdb_error_setstring(self, "Failed to set field value.");
     return NULL;
   }
@@ -1362,6 +1363,7 @@ static PyObject *wgdb_set_new_field(PyObject *self, PyObject *args,
   err = wg_set_new_field(((wg_database *) db)->db,
     ((wg_record *) rec)->rec, fieldnr, fdata);
   if(err < 0) {
+    wg_free_encoded(((wg_database *) db)->db, fdata);
     wgdb_error_setstring(self, "Failed to set field value.");
     return NULL;
   }
-- 
2.43.0


From c1d36b468a1cbf1ed9552d9d6cfbda0f74616614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:58 +0000
Subject: [PATCH 075/116] fix: ending a Python transaction of the other kind
 damaged the lock

---
 Python/whitedb.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Python/whitedb.py b/Python/whitedb.py
index 64acfaf..80986d3 100644
--- a/Python/whitedb.py
+++ b/Python/whitedb.py
@@ -69,6 +69,7 @@ and record accessing functions."""
         self.shmname = shmname
         self.locking = 1
         self._lock_id = None
+        self._lock_write = False
 
     def close(self):
         """Close the connection."""
@@ -93,11 +94,12 @@ and record accessing functions."""
         if self._lock_id:
             raise ProgrammingError("Transaction already started.")
         self._lock_id = wgdb.start_write(self._db)
+        self._lock_write = True
 
     def end_write(self):
         """Finish writing transaction"""
-        if not self._lock_id:
-            raise ProgrammingError("No current transaction.")
+        if not self._lock_id or not self._lock_write:
+            raise ProgrammingError("No current write transaction.")
         wgdb.end_write(self._db, self._lock_id)
         self._lock_id = None
 
@@ -106,11 +108,12 @@ and record accessing functions."""
         if self._lock_id:
             raise ProgrammingError("Transaction already started.")
         self._lock_id = wgdb.start_read(self._db)
+        self._lock_write = False
 
     def end_read(self):
         """Finish reading transaction"""
-        if not self._lock_id:
-            raise ProgrammingError("No current transaction.")
+        if not self._lock_id or self._lock_write:
+            raise ProgrammingError("No current read transaction.")
         wgdb.end_read(self._db, self._lock_id)
         self._lock_id = None
 
-- 
2.43.0


From bf1466e61a82a3a2d60a5d3e695ada125ce9a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 076/116] fix: database, record and query objects without
 content could be created from Python and crashed it

---
 Python/wgdbmodule.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 0858a93..f88e541 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -2037,15 +2037,12 @@ PyMODINIT_FUNC PyInit_wgdb(void)
   PyObject *m;
   struct module_state *st;
 
-  wg_database_type.tp_new = PyType_GenericNew;
   if (PyType_Ready(&wg_database_type) < 0)
     INITERROR
 
-  wg_record_type.tp_new = PyType_GenericNew;
   if (PyType_Ready(&wg_record_type) < 0)
     INITERROR
 
-  wg_query_type.tp_new = PyType_GenericNew;
   if (PyType_Ready(&wg_query_type) < 0)
     INITERROR
 
-- 
2.43.0


From 946d7582a72d3ba3f63745a0c3982106cfc9fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 077/116] fix: variables read from Python could not be written
 back with set_field

---
 Python/wgdbmodule.c | 90 +++++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 43 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index f88e541..edb0acf 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -128,6 +128,8 @@ static wg_int encode_pyobject(wg_database *db, PyObject *data,
                             wg_int ftype, char *ext_str, int param);
 static wg_int encode_pyobject_ext(PyObject *self,
                             wg_database *db, PyObject *obj, int param);
+static wg_int encode_pyobject_arg(PyObject *self, wg_database *db,
+  PyObject *data, wg_int ftype, char *ext_str);
 static PyObject *wgdb_set_field(PyObject *self, PyObject *args,
                                         PyObject *kwds);
 static PyObject *wgdb_set_new_field(PyObject *self, PyObject *args,
@@ -1254,6 +1256,44 @@ static wg_int encode_pyobject_ext(PyObject *self,
 }
 
 
+/** Encode the data argument of set_field() and set_new_field().
+ *  returns WG_ILLEGAL on failure (the Python exception is set).
+ */
+static wg_int encode_pyobject_arg(PyObject *self, wg_database *db,
+  PyObject *data, wg_int ftype, char *ext_str) {
+  wg_int enc;
+
+  /* Tuples carry the encoding. In particular, this is how get_field()
+   * represents the values of type WG_VARTYPE.
+   */
+  if(PyTuple_Check(data) && !ftype && !ext_str)
+    return encode_pyobject_ext(self, db, data, 0);
+
+  /* Determine the argument type. If the optional encoding
+   * argument is not supplied, default encoding for the Python type
+   * of the data is selected. Otherwise the user-provided encoding
+   * is used, with the limitation that the Python type must
+   * be compatible with the encoding.
+   */
+  ftype = pytype_to_wgtype(data, ftype);
+  if(ftype == -1) {
+    PyErr_SetString(PyExc_TypeError,
+      "Requested encoding is not supported.");
+    return WG_ILLEGAL;
+  }
+  else if(ftype == -2) {
+    PyErr_SetString(PyExc_TypeError,
+      "Argument is of unsupported type.");
+    return WG_ILLEGAL;
+  }
+
+  /* Now encode the given data using the selected type */
+  enc = encode_pyobject(db, data, ftype, ext_str, 0);
+  if(enc==WG_ILLEGAL && !PyErr_Occurred())
+    wgdb_error_setstring(self, "Field data conversion error.");
+  return enc;
+}
+
 /** Update field data.
  *  Data types supported:
  *  Python None. Translates to WhiteDB NULL (empty) field.
@@ -1281,31 +1321,10 @@ static PyObject *wgdb_set_field(PyObject *self, PyObject *args,
       &fieldnr, &data, &ftype, &ext_str))
     return NULL;
 
-  /* Determine the argument type. If the optional encoding
-   * argument is not supplied, default encoding for the Python type
-   * of the data is selected. Otherwise the user-provided encoding
-   * is used, with the limitation that the Python type must
-   * be compatible with the encoding.
-   */
-  ftype = pytype_to_wgtype(data, ftype);
-  if(ftype == -1) {
-    PyErr_SetString(PyExc_TypeError,
-      "Requested encoding is not supported.");
-    return NULL;
-  }
-  else if(ftype == -2) {
-    PyErr_SetString(PyExc_TypeError,
-      "Argument is of unsupported type.");
-    return NULL;
-  }
-
-  /* Now encode the given data using the selected type */
-  fdata = encode_pyobject((wg_database *) db, data, ftype, ext_str, 0);
-  if(fdata==WG_ILLEGAL) {
-    if(!PyErr_Occurred())
-      wgdb_error_setstring(self, "Field data conversion error.");
-    return NULL;
-  }
+  /* Convert the data */
+  fdata = encode_pyobject_arg(self, (wg_database *) db, data, ftype, ext_str);
+  if(fdata==WG_ILLEGAL)
+    return NULL; /* Error set by encode function */
 
   /* Store the encoded field data in the record */
   err = wg_set_field(((wg_database *) db)->db,
@@ -1341,24 +1360,9 @@ static PyObject *wgdb_set_new_field(PyObject *self, PyObject *args,
       &fieldnr, &data, &ftype, &ext_str))
     return NULL;
 
-  ftype = pytype_to_wgtype(data, ftype);
-  if(ftype == -1) {
-    PyErr_SetString(PyExc_TypeError,
-      "Requested encoding is not supported.");
-    return NULL;
-  }
-  else if(ftype == -2) {
-    PyErr_SetString(PyExc_TypeError,
-      "Argument is of unsupported type.");
-    return NULL;
-  }
-
-  fdata = encode_pyobject((wg_database *) db, data, ftype, ext_str, 0);
-  if(fdata==WG_ILLEGAL) {
-    if(!PyErr_Occurred())
-      wgdb_error_setstring(self, "Field data conversion error.");
-    return NULL;
-  }
+  fdata = encode_pyobject_arg(self, (wg_database *) db, data, ftype, ext_str);
+  if(fdata==WG_ILLEGAL)
+    return NULL; /* Error set by encode function */
 
   err = wg_set_new_field(((wg_database *) db)->db,
     ((wg_record *) rec)->rec, fieldnr, fdata);
-- 
2.43.0


From 2b3ae1a4026b3e0150c985cb1d282e5f559ae72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:17 +0000
Subject: [PATCH 078/116] fix: large column and condition numbers of Python
 queries were truncated

---
 Python/wgdbmodule.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index edb0acf..dea1ad9 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -1665,8 +1665,7 @@ static int parse_query_params(PyObject *self, PyObject *args,
 
       /* Now copy all the parameters. */
       for(i=0; i<len; i++) {
-        int col, cond;
-        wg_int enc;
+        wg_int col, cond, enc;
         PyObject *t = PySequence_GetItem(arglist, (Py_ssize_t) i);
 
         if(!t)
@@ -1682,7 +1681,7 @@ static int parse_query_params(PyObject *self, PyObject *args,
 #ifndef PYTHON3
         col = PyInt_AsLong(PyTuple_GetItem(t, 0));
 #else
-        col = PyLong_AsLong(PyTuple_GetItem(t, 0));
+        col = PyLong_AsSsize_t(PyTuple_GetItem(t, 0));
 #endif
         if(col==-1 && PyErr_Occurred()) {
           PyErr_SetString(PyExc_ValueError,
@@ -1694,7 +1693,7 @@ static int parse_query_params(PyObject *self, PyObject *args,
 #ifndef PYTHON3
         cond = PyInt_AsLong(PyTuple_GetItem(t, 1));
 #else
-        cond = PyLong_AsLong(PyTuple_GetItem(t, 1));
+        cond = PyLong_AsSsize_t(PyTuple_GetItem(t, 1));
 #endif
         if(cond==-1 && PyErr_Occurred()) {
           PyErr_SetString(PyExc_ValueError,
-- 
2.43.0


From 24ac154723ac9730f98243d168cea1bfc058087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:50 +0000
Subject: [PATCH 079/116] fix: a failed journal replay was reported as success
 in Python

---
 Python/wgdbmodule.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index dea1ad9..f040507 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -528,7 +528,7 @@ static PyObject * wgdb_replay_log(PyObject *self, PyObject *args) {
   if(!PyArg_ParseTuple(args, "O!s", &wg_database_type, &db, &fname))
     return NULL;
   res = wg_replay_log(((wg_database*)db)->db, fname);
-  if (res == 0 || res == -1) {
+  if (res == 0) {
     Py_INCREF(Py_None);
     return Py_None;
   } else {
-- 
2.43.0


From 068952a66cf94cfde954db5cd8224eb008a9074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:32 +0000
Subject: [PATCH 080/116] fix: a database smaller than its header was
 initialised beyond its memory

---
 Db/dballoc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index a186e02..9bd4623 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -102,6 +102,11 @@ gint wg_init_db_memsegment(void* db, gint key, gint size) {
   gint free;
   gint i;
 
+  if(size<(gint) sizeof(db_memsegment_header)) {
+    show_dballoc_error(NULL,"database size is too small");
+    return -1;
+  }
+
   // set main global values for db
   dbh->mark=(gint32) MEMSEGMENT_MAGIC_INIT;
   dbh->version=(gint32) MEMSEGMENT_VERSION;
-- 
2.43.0


From 3ea81b3863e3e615c5a9d6c1d300e326772f4eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:05 +0000
Subject: [PATCH 081/116] fix: a freed Python query kept pointing to its freed
 result

---
 Python/wgdbmodule.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index f040507..2dc0748 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -1829,6 +1829,11 @@ static PyObject * wgdb_fetch(PyObject *self, PyObject *args) {
       &wg_query_type, &query))
     return NULL;
 
+  if(!((wg_query_ob *) query)->query) {
+    PyErr_SetString(PyExc_ValueError, "Invalid query object");
+    return NULL;
+  }
+
   /* Build a new record object */
   rec = (wg_record *) wg_record_type.tp_alloc(&wg_record_type, 0);
   if(!rec) return NULL;
@@ -1903,6 +1908,11 @@ static void free_query(wg_query_ob *obj) {
       free(obj->matchrec);
     }
 
+    /* The object may be used after this by mistake */
+    obj->query = NULL;
+    obj->arglist = NULL;
+    obj->matchrec = NULL;
+
     Py_DECREF(obj->db);
     obj->db = NULL;
   }
-- 
2.43.0


From 2f259c3b70a9f78271339c8274b68d3e1a84226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:01 +0000
Subject: [PATCH 082/116] fix: the reasoner could not run on memory below the
 database and used uninitialised tables

---
 Reasoner/clstore.c  | 10 ++++++----
 Reasoner/mem.c      |  2 +-
 Reasoner/rgenloop.c |  3 ++-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/Reasoner/clstore.c b/Reasoner/clstore.c
index baca410..e5b2dd5 100644
--- a/Reasoner/clstore.c
+++ b/Reasoner/clstore.c
@@ -780,12 +780,13 @@ gint wr_term_basehash(glb* g, gint enc) {
       hash=2;
       break;
   }
-  if (hash<0) hash=0-hash;
+  // valid positions of a hash vector start from 1
+  hash=1+(int)(((unsigned int)hash)%(NROF_CLTERM_HASHVEC_ELS-2));
 #ifdef DEBUG
-  printf("wr_termhash computed hash %d using NROF_CLTERM_HASHVEC_ELS-2 %d gives final res %d \n",
-         hash,NROF_CLTERM_HASHVEC_ELS-2,0+(hash%(NROF_CLTERM_HASHVEC_ELS-2)));
+  printf("wr_termhash using NROF_CLTERM_HASHVEC_ELS-2 %d gives final res %d \n",
+         NROF_CLTERM_HASHVEC_ELS-2,hash);
 #endif    
-  return (gint)(0+(hash%(NROF_CLTERM_HASHVEC_ELS-2)));
+  return (gint)hash;
 }
 
 
@@ -1000,6 +1001,7 @@ void wr_clterm_hashlist_free(glb* g, vec hashvec) {
         wr_clterm_free_hashnode(g,(otp(db,node)));
         node=nextnode;
       }        
+      wr_clterm_free_hashnode(g,otp(db,hashvec[i])); // list head
     }  
   } 
   wr_vec_free(g,hashvec);
diff --git a/Reasoner/mem.c b/Reasoner/mem.c
index e85e47d..08274f2 100644
--- a/Reasoner/mem.c
+++ b/Reasoner/mem.c
@@ -98,7 +98,7 @@ vec wr_vec_new(glb* g,int len) {
   res=(gptr)((char*)res+i);
   
   res[0]=(gint)len;
-  //for (i=VEC_START; i<=len; i++) res[i]=0;
+  for (i=VEC_START; i<=len; i++) res[i]=0;
     
   return res;
 }
diff --git a/Reasoner/rgenloop.c b/Reasoner/rgenloop.c
index 41022e3..219ceab 100644
--- a/Reasoner/rgenloop.c
+++ b/Reasoner/rgenloop.c
@@ -461,8 +461,9 @@ void wr_resolve_binary_all_active(glb* g, gptr cl) {
         dprintf("no matching atoms in hash\n");
         continue;
       }  
+      // NB! nodes are offsets which are negative for memory before the database
       node=wr_clterm_hashlist_start(g,hashvec,hash);
-      if (node<0)  {
+      if (hlen<0)  {
         wr_sys_exiterr(g,"apparently wrong hash given to wr_clterm_hashlist_start");
         return;
       }  
-- 
2.43.0


From 7d401f5dfc4c62e82b52c3e8afa1c6014f3354ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:53 +0000
Subject: [PATCH 083/116] fix: the reasoner freed the wrong buffer after a
 partial hyperresolution

---
 Reasoner/derive.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/Reasoner/derive.c b/Reasoner/derive.c
index 1817f7d..4bc2432 100644
--- a/Reasoner/derive.c
+++ b/Reasoner/derive.c
@@ -63,7 +63,8 @@ void wr_process_resolve_result(glb* g, gint xatom, gptr xcl, gint yatom, gptr yc
   int ruleflag,datalen;
   //int clstackflag;
   int partialresflag;
-  gint given_termbuf_storednext;
+  gptr partialbuf=NULL;  // partial hyperresolvents are built here
+  gptr storedbuf;
   
 #ifdef DEBUG
   printf("wr_process_resolve_result called\n");
@@ -133,10 +134,12 @@ void wr_process_resolve_result(glb* g, gint xatom, gptr xcl, gint yatom, gptr yc
     //wr_process_resolve_result_setupclpickstackcopy(g); 
     wr_process_resolve_result_setupgivencopy(g);    
     // store buffer pos to be restored later
-    given_termbuf_storednext=g->build_buffer;
+    storedbuf=g->build_buffer;
     //g->build_buffer=malloc(1024);
     //given_termbuf_storednext=CVEC_NEXT(g->given_termbuf); 
-    g->build_buffer=wr_cvec_new(g,1000);  
+    partialbuf=wr_cvec_new(g,1000);
+    if (partialbuf==NULL) return; // alloc_err is set
+    g->build_buffer=partialbuf;
   } else {
     partialresflag=0;
     wr_process_resolve_result_setupquecopy(g);
@@ -149,7 +152,7 @@ void wr_process_resolve_result(glb* g, gint xatom, gptr xcl, gint yatom, gptr yc
     if (res==NULL) {
       ++(g->stat_internlimit_discarded_cl);
       wr_alloc_err(g,"could not alloc raw record in wr_process_resolve_result ");
-      return;
+      goto done;
     }  
     for(i=RECORD_HEADER_GINTS;i<(RECORD_HEADER_GINTS+CLAUSE_EXTRAHEADERLEN);i++) {
       res[i]=0;     
@@ -163,7 +166,7 @@ void wr_process_resolve_result(glb* g, gint xatom, gptr xcl, gint yatom, gptr yc
       if (blt==WG_ILLEGAL) {
         ++(g->stat_internlimit_discarded_cl);       
         wr_alloc_err(g,"could not build new atom blt in wr_process_resolve_result ");
-        return;
+        goto done;
       }
       res[tmp+RECORD_HEADER_GINTS+CLAUSE_EXTRAHEADERLEN+LIT_ATOM_POS]=blt;                
     }
@@ -176,7 +179,7 @@ void wr_process_resolve_result(glb* g, gint xatom, gptr xcl, gint yatom, gptr yc
     if (blt==WG_ILLEGAL) {
       ++(g->stat_internlimit_discarded_cl);
       wr_alloc_err(g,"could not build new atom blt in wr_process_resolve_result ");
-      return;
+      goto done;
     }
     res=otp(db,blt);
     res[RECORD_META_POS]=meta;
@@ -199,10 +202,6 @@ void wr_process_resolve_result(glb* g, gint xatom, gptr xcl, gint yatom, gptr yc
     //wr_clear_all_varbanks(g);
     //wr_print_vardata(g);
     wr_resolve_binary_all_active(g,res);
-    // restore buffer pos to situation before building the current clause
-    wr_vec_free(g,g->build_buffer);
-    g->build_buffer=given_termbuf_storednext;
-    //CVEC_NEXT(g->given_termbuf)=given_termbuf_storednext;
   } else {       
     ++(g->stat_kept_cl);
     if (g->print_derived_cl) {
@@ -212,6 +211,13 @@ void wr_process_resolve_result(glb* g, gint xatom, gptr xcl, gint yatom, gptr yc
     // push built clause into suitable list
     wr_push_clqueue_cl(g,res);
   }  
+done:
+  if (partialresflag) {
+    // restore situation before building the current clause
+    // NB! the nested resolution changes g->build_buffer
+    wr_vec_free(g,partialbuf);
+    g->build_buffer=storedbuf;
+  }
 }  
 
 
-- 
2.43.0


From d89d97a057c707d39e6694ea968dd4fce1a606c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:56 +0000
Subject: [PATCH 084/116] fix: the compiler could drop stores to the reasoner's
 memory outside the database

---
 Reasoner/clterm.h | 2 +-
 Reasoner/mem.h    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/Reasoner/clterm.h b/Reasoner/clterm.h
index 319a1a4..dec7f12 100644
--- a/Reasoner/clterm.h
+++ b/Reasoner/clterm.h
@@ -88,7 +88,7 @@
 #define set_field(r,n,d)  (*(((gint*)record)+RECORD_HEADER_GINTS+fieldnr)=(d))
 #define get_record_len(r) (((gint)(getusedobjectwantedgintsnr(*((gint*)(r)))))-RECORD_HEADER_GINTS)  
 #define decode_record(db,d) ((void*)(offsettoptr(db,decode_datarec_offset((d)))))
-#define encode_record(db,d) ((gint)(encode_datarec_offset(ptrtooffset((db),(d)))))
+#define encode_record(db,d) ((gint)(encode_datarec_offset(pto((db),(d)))))
 
 #define wg_rec_is_rule_clause(db,rec) (*((gint*)(rec)+RECORD_META_POS) & RECORD_META_RULE_CLAUSE)
 #define wg_rec_is_fact_clause(db,rec) (*((gint*)(rec)+RECORD_META_POS) & RECORD_META_FACT_CLAUSE)
diff --git a/Reasoner/mem.h b/Reasoner/mem.h
index a2fc714..1c16536 100644
--- a/Reasoner/mem.h
+++ b/Reasoner/mem.h
@@ -65,7 +65,8 @@
 /* ======= global defines === */
 
 #define otp(db,offset) ((gptr)(offsettoptr((db),(offset)))) 
-#define pto(db,realptr)((gint)(ptrtooffset((db),(realptr))))
+// NB! realptr may lie outside db: a pointer difference would let the compiler drop stores to it
+#define pto(db,realptr)((gint)(realptr)-(gint)(dbmemsegbytes(db)))
 #define rotp(g,offset) ((gptr)(otp(((g)->db),(offset))))
 #define rpto(g,realptr)((gint)(pto(((g)->db),(realptr))))
 
-- 
2.43.0


From 02c5dd688db381bba2df840e378582e6d49647b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:19 +0000
Subject: [PATCH 085/116] fix: long strings overflowed the otter lexer's buffer

---
 Parser/dbotter.l | 69 ++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 37 deletions(-)

diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index f2c7c98..fd6cec0 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -110,9 +110,25 @@ lex_parsestr(const char *s)
 
 
 
-char linebuf[1024];
-char elmparsestrbuf[1024]; 
-char *s; 
+/* remove the quotes around text and replace \n, \t and escaped quotes in it */
+static char *unescape(char *text, int len) {
+  char *to=text;
+  int i;
+
+  for(i=1;i<len-1;i++) {
+    if (text[i]=='\\' && i+1<len-1 &&
+        (text[i+1]=='n' || text[i+1]=='t' || text[i+1]==text[len-1])) {
+      i++;
+      if (text[i]=='n') *to++='\n';
+      else if (text[i]=='t') *to++='\t';
+      else *to++=text[i];
+    } else {
+      *to++=text[i];
+    }
+  }
+  *to=0;
+  return text;
+}
 
 
 
@@ -127,8 +143,6 @@ char *s;
 %option nounput
 %option noinput
 
-%x STRSTATE 
-%x QUOTESTATE
 %x COMMENT
 
 DIGIT    [0-9]
@@ -166,38 +180,19 @@ ID       [A-z][A-z0-9_:+\-*/<>=]*
               return TIME; 
 	    }  	    
 
-\"              { BEGIN STRSTATE; s = elmparsestrbuf; } 
-<STRSTATE>\\n   { *s++ = '\n'; } 
-<STRSTATE>\\t   { *s++ = '\t'; } 
-<STRSTATE>\\\"  { *s++ = '\"'; } 
-<STRSTATE>\"    { *s = 0; BEGIN 0; 
-                  parseprintf("found '%s'\n", elmparsestrbuf); 
-		              *yylval=elmparsestrbuf;
-		              return STRING;
-                } 
-<STRSTATE>\n    { *s++ = '\n'; 
-                 /* parseprintf("elm parser error: invalid string (newline in string)"); 
-                    exit(1); 
-		             */   
-	        } 
-<STRSTATE>.     { *s++ = *yytext; }
-
-
-\'              { BEGIN QUOTESTATE; s = elmparsestrbuf; } 
-<QUOTESTATE>\\n   { *s++ = '\n'; } 
-<QUOTESTATE>\\t   { *s++ = '\t'; } 
-<QUOTESTATE>\\\'  { *s++ = '\''; } 
-<QUOTESTATE>\'    { *s = 0; BEGIN 0; 
-                  parseprintf("found '%s'\n", elmparsestrbuf); 
-		              *yylval=elmparsestrbuf;
-		              return URI;
-                } 
-<QUOTESTATE>\n    { *s++ = '\n'; 
-                 /* parseprintf("elm parser error: invalid string (newline in quote)"); 
-                    exit(1); 
-		             */   
-	        } 
-<QUOTESTATE>.     { *s++ = *yytext; }
+\"([^"]|\\\")*\"  { /* no length limit: the token is unescaped in place */
+              *yylval=unescape(yytext,yyleng);
+              parseprintf("found '%s'\n", *yylval);
+              return STRING;
+            }
+
+\'([^']|\\\')*\'  {
+              *yylval=unescape(yytext,yyleng);
+              parseprintf("found '%s'\n", *yylval);
+              return URI;
+            }
+
+[\"\']      return *yytext; /* not terminated: an error in the grammar */
 
 
 "/*"         BEGIN(COMMENT);  
-- 
2.43.0


From 667ef146197b602ae730a3706a0e271d9fa69e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:19 +0000
Subject: [PATCH 086/116] fix: importing clauses kept unfinished or partly
 ignored clauses and misread numbers and empty strings

---
 Parser/dbparse.c  | 63 ++++++++++++++++++++++++++++++++++++-----------
 Reasoner/clterm.c |  4 +++
 2 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index ea40816..af343f8 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -215,6 +215,21 @@ int wr_import_prolog_file(glb* g, char* filename, char* strasfile, cvec clvec) {
 
 /* ---- convert parser-returned list to db records --------- */
 
+/* Remove an unfinished rule clause and its atoms */
+
+static void discard_rule_clause(glb* g, void* record, int litnr) {
+  void* db=g->db;
+  gint atom;
+  int i;
+
+  for(i=0;i<litnr;i++) {
+    atom=wg_get_rule_clause_atom(db,record,i);
+    wr_set_rule_clause_atom(g,record,i,0);
+    if (atom) wg_delete_record(db,wg_decode_record(db,atom));
+  }
+  wg_delete_record(db,record);
+}
+
 void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist) {
   void* db=g->db;
   void* lpart;
@@ -239,6 +254,7 @@ void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist) {
   void* resultlist=NULL;
   char** vardata;
   int i;
+  int ignored;
   
 #ifdef DEBUG  
   DPRINTF("wg_parse_rulelist starting with clauselist\n");  
@@ -308,8 +324,7 @@ void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist) {
     
     if (!issimple) {
       record=wr_create_rule_clause(g,litnr);   
-      if (((int)record)==0) {
-        free(vardata);
+      if (record==NULL) {
         return NULL;
       }
       resultlist=wg_mkpair(db,mpool,record,resultlist);       
@@ -324,6 +339,7 @@ void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist) {
     
     // process one clause
     
+    ignored=0;
     for(clpart=cl,litnr=0;wg_ispair(db,clpart);clpart=wg_rest(db,clpart),litnr++) {
       lit=wg_first(db,clpart);
 #ifdef DEBUG    
@@ -337,6 +353,7 @@ void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist) {
         wg_mpool_print(db,lit); 
         printf("\n");
 #endif        
+        ignored=1;
         continue;
       }              
       
@@ -347,6 +364,7 @@ void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist) {
         wg_mpool_print(db,fun); 
         printf("\n");
 #endif        
+        ignored=1;
         continue;
       } 
       
@@ -363,6 +381,7 @@ void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist) {
           wg_mpool_print(db,lit); 
           printf("\n");
 #endif          
+          ignored=1;
           continue;
         }
         atom=wg_first(db,tmpptr);
@@ -372,6 +391,7 @@ void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist) {
           wg_mpool_print(db,lit); 
           printf("\n");
 #endif          
+          ignored=1;
           continue;
         }
         fun=wg_first(db,atom);
@@ -381,6 +401,7 @@ void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist) {
           wg_mpool_print(db,fun); 
           printf("\n");
 #endif          
+          ignored=1;
           continue;
         }         
       } else {
@@ -396,7 +417,7 @@ void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist) {
       atomres=wr_parse_atom(g,mpool,atom,isneg,issimple,vardata); 
       if (atomres==NULL) {
         show_parse_error(db,"problem converting an atom to record");
-        free(vardata);
+        if (!issimple) discard_rule_clause(g,record,litnr);
         return NULL;        
       }
       if (issimple) {
@@ -411,13 +432,21 @@ void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist) {
         tmpres2=wg_encode_record(db,atomres);
         setres2=wr_set_rule_clause_atom(g,record,litnr,tmpres2);
         if (setres!=0 || setres2!=0) {
-          wg_delete_record(db,atomres);
-          free(vardata);
+          discard_rule_clause(g,record,litnr+1);
           return NULL; 
         }   
       }        
             
     } // end one clause processing loop
+    if (ignored) {
+      // without all its literals the clause would mean something else
+      show_parse_warning(db,"clause nr %d is ignored: ",clnr);
+      if (!issimple) {
+        resultlist=wg_rest(db,resultlist);
+        discard_rule_clause(g,record,litnr);
+      }
+      continue;
+    }
     // if clvec present, store record to clvec, given enough space
     if (clvec!=NULL) {
       if ((clvec[1]+1)<clvec[0]) {
@@ -465,7 +494,7 @@ void* wr_parse_atom(glb* g,void* mpool,void* term, int isneg, int issimple, char
   // create data record
  
   record=wr_create_atom(g,termnr);   
-  if (((int)record)==0) {
+  if (record==NULL) {
     return NULL;
   }  
   // fill data record and do recursive calls for subterms
@@ -541,7 +570,7 @@ void* wr_parse_term(glb* g,void* mpool,void* term, char** vardata) {
   
   // create data record
   record=wr_create_term(g,termnr);   
-  if (((int)record)==0) {
+  if (record==NULL) {
     return NULL;
   } 
   //DPRINTF("\nwg_parse_term termnr %d \n",termnr);
@@ -591,7 +620,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata) {
   int type;
   char* str1;
   char* str2;
-  int intdata;
+  gint intdata;
   double doubledata;
   int i;
 
@@ -606,12 +635,14 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata) {
   } else {    
     type=wg_atomtype(db,atomptr);
     str1=wg_atomstr1(db,atomptr);
+    if (str1==NULL) str1=""; // mpool has no empty strings
     str2=wg_atomstr2(db,atomptr);
     switch (type) {
       case 0: ret=wg_encode_null(db,NULL); break; 
       case WG_NULLTYPE: ret=wg_encode_null(db,NULL); break;      
       case WG_INTTYPE: 
-        intdata = atol(str1);
+        errno=0;
+        intdata = strtol(str1,NULL,10);
         if(errno!=ERANGE && errno!=EINVAL) {
           ret = wg_encode_int(db, intdata);
         } else {
@@ -620,7 +651,8 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata) {
         }
         break;         
       case WG_DOUBLETYPE: 
-        doubledata = atof(str1);
+        errno=0;
+        doubledata = strtod(str1,NULL);
         if(errno!=ERANGE && errno!=EINVAL) {
           ret = wg_encode_double(db, doubledata);
         } else {
@@ -644,7 +676,8 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata) {
         ret=wg_encode_char(db,*str1); 
         break; 
       case WG_FIXPOINTTYPE:
-        doubledata = atof(str1);
+        errno=0;
+        doubledata = strtod(str1,NULL);
         if(errno!=ERANGE && errno!=EINVAL) {
           ret = wg_encode_fixpoint(db, doubledata);
         } else {
@@ -654,11 +687,13 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata) {
         break; 
       case WG_DATETYPE: 
         intdata=wg_strp_iso_date(db,str1);
-        ret=wg_encode_date(db,intdata); 
+        if (intdata<0) ret=WG_ILLEGAL;
+        else ret=wg_encode_date(db,intdata); 
         break; 
       case WG_TIMETYPE: 
         intdata=wg_strp_iso_time(db,str1); 
-        ret=wg_encode_time(db,intdata);
+        if (intdata<0) ret=WG_ILLEGAL;
+        else ret=wg_encode_time(db,intdata);
         break; 
       case WG_ANONCONSTTYPE: 
         ret=wg_encode_anonconst(db,str1); 
@@ -686,7 +721,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata) {
           break;          
         }                   
         ret=wg_encode_var(db,intdata);
-        DPRINTF("var %d encoded ok\n",intdata);       
+        DPRINTF("var %d encoded ok\n",(int)intdata);       
         break; 
       default: 
         ret=wg_encode_null(db,NULL);
diff --git a/Reasoner/clterm.c b/Reasoner/clterm.c
index 7a308e5..a5df398 100644
--- a/Reasoner/clterm.c
+++ b/Reasoner/clterm.c
@@ -82,6 +82,7 @@ void* wr_create_rule_clause(glb* g, int litnr) {
   void* res;
   
   res=wg_create_raw_record(g->db,CLAUSE_EXTRAHEADERLEN+(LIT_WIDTH*litnr));
+  if (res==NULL) return NULL;
   //printf("meta %d",*((gint*)res+RECORD_META_POS));
   *((gint*)res+RECORD_META_POS)=(RECORD_META_NOTDATA | RECORD_META_RULE_CLAUSE);
   return res;  
@@ -91,6 +92,7 @@ void* wr_create_fact_clause(glb* g, int litnr) {
   void* res;
   
   res=wg_create_raw_record(g->db,(g->unify_firstuseterm)+litnr+(g->unify_footerlen));
+  if (res==NULL) return NULL;
   *((gint*)res+RECORD_META_POS)=RECORD_META_FACT_CLAUSE;
   return res;  
 } 
@@ -99,6 +101,7 @@ void* wr_create_atom(glb* g, int termnr) {
   void* res;
   
   res=wg_create_raw_record(g->db,(g->unify_firstuseterm)+termnr+(g->unify_footerlen));
+  if (res==NULL) return NULL;
   *((gint*)res+RECORD_META_POS)=(RECORD_META_NOTDATA | RECORD_META_ATOM);
   return res;  
 } 
@@ -108,6 +111,7 @@ void* wr_create_term(glb* g, int termnr) {
   void* res;
   
   res=wg_create_raw_record(g->db,(g->unify_firstuseterm)+termnr+(g->unify_footerlen));
+  if (res==NULL) return NULL;
   *((gint*)res+RECORD_META_POS)=(RECORD_META_NOTDATA | RECORD_META_TERM);
   return res;  
 } 
-- 
2.43.0


From 56b0beebc4fa8fa8fdb5fc512dd1f8e5e45bb6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:32 +0000
Subject: [PATCH 087/116] fix: importing clauses ignored failures to store a
 term

---
 Reasoner/clterm.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Reasoner/clterm.c b/Reasoner/clterm.c
index a5df398..b4bb25f 100644
--- a/Reasoner/clterm.c
+++ b/Reasoner/clterm.c
@@ -142,15 +142,13 @@ int wr_set_rule_clause_atom_meta(glb* g, void* clause, int litnr, gint meta) {
 
 int wr_set_atom_subterm(glb* g, void* atom, int termnr, gint subterm) {
   
-  wg_set_new_field(g->db,atom,(g->unify_firstuseterm)+termnr,subterm);  
-  return 0;
+  return (int)wg_set_new_field(g->db,atom,(g->unify_firstuseterm)+termnr,subterm);
 } 
 
 
 int wr_set_term_subterm(glb* g, void* term, int termnr, gint subterm) {
   
-  wg_set_new_field(g->db,term,(g->unify_firstuseterm)+termnr,subterm);  
-  return 0;
+  return (int)wg_set_new_field(g->db,term,(g->unify_firstuseterm)+termnr,subterm);
 }
 
 
-- 
2.43.0


From ca808e336763729bc777ae2a02de7e5a78c1563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:01 +0000
Subject: [PATCH 088/116] fix: the server read past or reused stale request
 buffers

---
 Server/dserve.c      |  8 +++++---
 Server/dserve_net.c  | 11 +++++++++--
 Server/dserve_util.c |  9 ++++++---
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index aa5ee37..96908d8 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -357,6 +357,7 @@ static char* get_cgi_query(thread_data_p tdata, char* inmethod) {
     }
     n=fread(inquery,1,len,stdin);
     if (n<=0) { return NULL; }
+    inquery[n]='\0';
     if (n<len) {
       // read less than content-length
     }
@@ -379,6 +380,7 @@ static void setup_globals(void) {
     globalptr->threads_data[i].db=NULL;
     globalptr->threads_data[i].inuse=0;
   }
+  memset(globalptr->conf,0,sizeof(struct dserve_conf));
   globalptr->conf->default_dbase.size=0;
   globalptr->conf->default_dbase_size.size=0;
   globalptr->conf->max_dbase_size.size=0;
@@ -391,7 +393,7 @@ static void setup_globals(void) {
   globalptr->conf->read_tokens.size=0;
   globalptr->conf->default_dbase.used=0;
   globalptr->conf->default_dbase_size.used=0;
-  globalptr->conf->max_dbase_size.size=0;
+  globalptr->conf->max_dbase_size.used=0;
   globalptr->conf->dbases.used=0;
   globalptr->conf->admin_ips.used=0;
   globalptr->conf->write_ips.used=0;
@@ -404,7 +406,7 @@ static void setup_globals(void) {
 char* process_query(char* inquery, thread_data_p tdata) {  
   int i=0;
   char *query;
-  char querybuf[MAXQUERYLEN];  
+  char querybuf[MAXQUERYLEN+1];  
   int pcount=0;
   int ql,found;  
   char* res=NULL;
@@ -568,7 +570,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
   char* sfields[MAXPARAMS]; // set / selected fields
   char* svalues[MAXPARAMS]; // set field values
   char* stypes[MAXPARAMS];  // set field types  
-  int sfcount; // array el counters for above              
+  int sfcount=0; // array el counters for above              
   int from=0;             
   unsigned long count,rcount,gcount,handlecount;
   void* db=NULL; // actual database pointer
diff --git a/Server/dserve_net.c b/Server/dserve_net.c
index 8424ac2..8a8bcd9 100644
--- a/Server/dserve_net.c
+++ b/Server/dserve_net.c
@@ -454,7 +454,13 @@ void *handle_http(void *targ) {
 #endif
       // accepted connection: read and process
       // read and parse request line
-      readlineb(connsd,buf,MAXLINE,ssl);
+      // forget everything left from the previous request of this thread
+      uri=NULL;
+      version=NULL;
+      query=NULL;
+      res=NULL;
+      tdata->inbuf=NULL;
+      if (readlineb(connsd,buf,MAXLINE,ssl)<=0) buf[0]='\0';
       method=buf;
       for(i=0,bp=buf; *bp!='\0' && i<2; bp++) {
         if (*bp==' ') {
@@ -633,7 +639,7 @@ static char* get_post_data(int connsd,char* buf,void* ssl,thread_data_p tdata) {
   // start reading line by line until empty line is hit
   for(j=0;j<MAXLINES;j++) {
     k=readlineb(connsd,bufp,MAXLINE,ssl);
-    if (k<0) { warnprint(READING_FAILED_WARN,NULL); return NULL; }
+    if (k<=0) { warnprint(READING_FAILED_WARN,NULL); return NULL; }
     //printf("line %d:%s",j,bufp);
     // content length handling
     chk=strncmp(bufp,"Content-Length:",clenlen);
@@ -677,6 +683,7 @@ static char* get_post_data(int connsd,char* buf,void* ssl,thread_data_p tdata) {
     warnprint(READING_FAILED_WARN,NULL);
     return NULL;
   }
+  buffer[len]='\0';
   tdata->inbuf=buffer;
   tdata->intype=type;
   //printf("query:\n%s\n",buffer);
diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 7839cae..7a00368 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -984,22 +984,25 @@ void errprint(char* fmt, char* param) {
 
 char* errhalt(char* str, thread_data_p tdata) {
   char buf[HTTP_ERR_BUFSIZE];
+  char *errstr;
   
   if (tdata==NULL) {
     errprint("tdata was NULL in errhalt\n",NULL);
     terminate();
   }
   if (tdata->isserver) {
+    // jsonp may point into inbuf: free it after the string is built
+    errstr=make_http_errstr(str,tdata);
     if (tdata->inbuf!=NULL) { free(tdata->inbuf); tdata->inbuf=NULL; }
-    return make_http_errstr(str,tdata);
+    return errstr;
   } else {
-    // freeing tdata->inbuf here is not really necessary
-    if (tdata->inbuf!=NULL) { free(tdata->inbuf); tdata->inbuf=NULL; }
     if (tdata->jsonp==NULL)
       snprintf(buf,HTTP_ERR_BUFSIZE,NORMAL_ERR_FORMAT,str);
     else
       snprintf(buf,HTTP_ERR_BUFSIZE,JSONP_ERR_FORMAT,tdata->jsonp,str); 
     print_final(buf,tdata);
+    // freeing tdata->inbuf here is not really necessary
+    if (tdata->inbuf!=NULL) { free(tdata->inbuf); tdata->inbuf=NULL; }
 #if _MSC_VER    
 #ifdef SERVEROPTION    
     WSACleanup();
-- 
2.43.0


From fd830569bffd58d784fa103bd2d3602712f0c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:01 +0000
Subject: [PATCH 089/116] fix: the server's output buffer could overflow or be
 freed twice

---
 Server/dserve.c      | 10 +++++++---
 Server/dserve_util.c |  5 +++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 96908d8..2a3143e 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -1210,12 +1210,15 @@ static char* handle_fld_param(thread_data_p tdata,char* key,char* value,
 static int op_print_data_start(thread_data_p tdata, int listflag) {
   int itmp;
   
-  if(!str_guarantee_space(tdata,MIN_STRLEN)) return 0;
+  int limit=MIN_STRLEN;
+
+  if (tdata->jsonp!=NULL) limit+=strlen(tdata->jsonp);
+  if(!str_guarantee_space(tdata,limit)) return 0;
   if (tdata->format!=0) {
     // json
     if (tdata->jsonp!=NULL) {
-      if (listflag) itmp=snprintf(tdata->bufptr,MIN_STRLEN,"%s([\n",tdata->jsonp);
-      else itmp=snprintf(tdata->bufptr,MIN_STRLEN,"%s(",tdata->jsonp);
+      if (listflag) itmp=snprintf(tdata->bufptr,limit,"%s([\n",tdata->jsonp);
+      else itmp=snprintf(tdata->bufptr,limit,"%s(",tdata->jsonp);
       tdata->bufptr+=itmp;
     } else {
       if (listflag) { 
@@ -1234,6 +1237,7 @@ static int op_print_data_end(thread_data_p tdata, int listflag) {
   int itmp;
 
   if(!str_guarantee_space(tdata,MIN_STRLEN)) return 0; 
+  *(tdata->bufptr)='\0'; // nothing may have been printed yet
   if (tdata->format!=0) {
     // json
     if (tdata->jsonp!=NULL) {
diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 7a00368..1ad183f 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -629,7 +629,7 @@ int str_guarantee_space(thread_data_p tdata, int needed) {
   if (needed>(*strlenadr-(int)((*ptr)-(*stradr)))) {  
     used=(int)((*ptr)-(*stradr));
     newlen=(*strlenadr)*2;
-    if (newlen<needed) newlen=needed;
+    if (newlen<used+needed) newlen=used+needed;
     if (newlen>MAX_MALLOC) {
       //if (*stradr!=NULL) free(*stradr);
       //err_clear_detach_halt(MALLOC_ERR);
@@ -638,7 +638,7 @@ int str_guarantee_space(thread_data_p tdata, int needed) {
     //printf("needed %d oldlen %d used %d newlen %d \n",needed,*strlenadr,used,newlen);
     tmp=realloc(*stradr,newlen);
     if (tmp==NULL) {
-      if (*stradr!=NULL) free(*stradr);
+      // the old buffer is freed by the caller
       //err_clear_detach_halt(MALLOC_ERR);
       return 0;
     }     
@@ -1051,6 +1051,7 @@ char* err_clear_detach_halt(char* errstr, thread_data_p tdata) {
   // free string buf
   if (tdata->buf!=NULL) {
     free(tdata->buf);
+    tdata->buf=NULL;
   }  
   // call the simpler terminator
   return errhalt(errstr,tdata);
-- 
2.43.0


From 3c9e652ec4c570d473a724a742455c22c31d2b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:01 +0000
Subject: [PATCH 090/116] fix: the server printed values wrongly and unescaped

---
 Server/dserve.c      |  2 +-
 Server/dserve.h      |  1 +
 Server/dserve_util.c | 59 ++++++++++++++++++++++++++++++++------------
 3 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 2a3143e..16a8be2 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -426,7 +426,7 @@ char* process_query(char* inquery, thread_data_p tdata) {
   tdata->jsonp=NULL;
   tdata->format=1;
   tdata->showid=0;
-  tdata->depth=MAX_DEPTH_DEFAULT;
+  tdata->depth=0; // increases when printing nested records
   tdata->maxdepth=MAX_DEPTH_DEFAULT;
   tdata->strenc=2;
   tdata->buf=NULL;
diff --git a/Server/dserve.h b/Server/dserve.h
index f8ca1db..20b7bb9 100644
--- a/Server/dserve.h
+++ b/Server/dserve.h
@@ -477,6 +477,7 @@ char* urldecode(char *indst, char *src);
 int sprint_record(void *db, wg_int *rec, thread_data_p tdata);                   
 char* sprint_value(void *db, wg_int enc, thread_data_p tdata);
 int sprint_string(char* bptr, int limit, char* strdata, int strenc);
+int sprint_string_parts(char* bptr, char* str1, char* sep, char* str2, int strenc);
 int sprint_blob(char* bptr, int limit, char* strdata, int strenc);
 int sprint_append(char** buf, char* str, int l);
 
diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 1ad183f..cd25165 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -247,7 +247,7 @@ int sprint_record(void *db, wg_int *rec, thread_data_p tdata) {
     if (len<0) return 0;    
     if (tdata->showid) {
       // add record id (offset) as the first extra elem of record      
-      snprintf(*bptr, limit-1, "%d",wg_encode_record(db,rec));
+      snprintf(*bptr, limit-1, "%ld",(long)wg_encode_record(db,rec));
       *bptr=*bptr+strlen(*bptr);      
     }
     for(i=0; i<len; i++) {
@@ -306,7 +306,8 @@ int sprint_record(void *db, wg_int *rec, thread_data_p tdata) {
 
 char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
   wg_int *ptrdata;
-  int intdata,strl,strl1,strl2;
+  int i,intdata,strl,strl1,strl2;
+  wg_int longdata;
   char *strdata, *exdata;
   double doubledata;
   char strbuf[80]; // tmp area for dates
@@ -325,21 +326,24 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
     case WG_RECORDTYPE:      
       if (!str_guarantee_space(tdata, MIN_STRLEN)) return NULL;
       if (!tdata->format || tdata->depth>=tdata->maxdepth) {
-        snprintf(*bptr, limit,"%d", (int)enc); // record offset (i.e. id)
+        snprintf(*bptr, limit,"%ld", (long)enc); // record offset (i.e. id)
         return *bptr+strlen(*bptr);
       } else {
         // recursive print
         ptrdata = wg_decode_record(db, enc);
         if(ptrdata==0) return NULL;
-        sprint_record(db,ptrdata,tdata);
+        tdata->depth++;
+        i=sprint_record(db,ptrdata,tdata);
+        tdata->depth--;
+        if (!i) return NULL;
         **bptr='\0';                 
         return *bptr;
       }      
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
+      longdata = wg_decode_int(db, enc);
       if (!str_guarantee_space(tdata, MIN_STRLEN)) return NULL;
-      snprintf(*bptr, limit, "%d", intdata);
+      snprintf(*bptr, limit, "%ld", (long)longdata);
       return *bptr+strlen(*bptr);
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
@@ -359,10 +363,7 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
       if (exdata!=NULL) strl2=strlen(exdata);      
       else strl2=0; 
       if (!str_guarantee_space(tdata, MIN_STRLEN+STRLEN_FACTOR*(strl1+strl2))) return NULL;
-      sprint_string(*bptr,(strl1+strl2),strdata,tdata->strenc);      
-      if (exdata!=NULL) {
-        snprintf(*bptr+strl1+1,limit,"@%s\"", exdata);
-      }     
+      sprint_string_parts(*bptr,strdata,(exdata!=NULL ? "@" : NULL),exdata,tdata->strenc);
       return *bptr+strlen(*bptr);
     case WG_URITYPE:
       strdata = wg_decode_uri(db, enc);
@@ -374,9 +375,9 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
       limit=MIN_STRLEN+STRLEN_FACTOR*(strl1+strl2);
       if(!str_guarantee_space(tdata, limit)) return NULL;
       if (exdata==NULL)
-        snprintf(*bptr, limit, "\"%s\"", strdata);
+        sprint_string(*bptr,strl1,strdata,tdata->strenc);
       else
-        snprintf(*bptr, limit, "\"%s:%s\"", exdata, strdata);
+        sprint_string_parts(*bptr,exdata,":",strdata,tdata->strenc);
       return *bptr+strlen(*bptr);
     case WG_XMLLITERALTYPE:
       strdata = wg_decode_xmlliteral(db, enc);
@@ -387,12 +388,17 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
       else strl2=0; 
       limit=MIN_STRLEN+STRLEN_FACTOR*(strl1+strl2);      
       if(!str_guarantee_space(tdata, limit)) return NULL;      
-      snprintf(*bptr, limit, "\"%s:%s\"", exdata, strdata);
+      if (exdata==NULL)
+        sprint_string(*bptr,strl1,strdata,tdata->strenc);
+      else
+        sprint_string_parts(*bptr,exdata,":",strdata,tdata->strenc);
       return *bptr+strlen(*bptr);
     case WG_CHARTYPE:
       intdata = wg_decode_char(db, enc);
       if(!str_guarantee_space(tdata, MIN_STRLEN)) return NULL;
-      snprintf(*bptr, limit, "\"%c\"", (char) intdata);
+      strbuf[0]=(char) intdata;
+      strbuf[1]=0;
+      sprint_string(*bptr,1,strbuf,tdata->strenc);
       return *bptr+strlen(*bptr);
     case WG_DATETYPE:
       intdata = wg_decode_date(db, enc);
@@ -415,7 +421,7 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
     case WG_BLOBTYPE:
       strdata = wg_decode_blob(db, enc);
       strl=wg_decode_blob_len(db, enc);
-      limit=MIN_STRLEN+STRLEN_FACTOR*strlen(strdata);
+      limit=MIN_STRLEN+STRLEN_FACTOR*strl;
       if(!str_guarantee_space(tdata, limit)) return NULL;
       sprint_blob(*bptr,strl,strdata,tdata->strenc);
       return *bptr+strlen(*bptr);
@@ -427,6 +433,27 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
 }
 
 
+/* Print two strings with a separator between them as a single quoted string,
+   escaping each part like sprint_string. The separator may be NULL: then
+   only the first string is printed.
+   
+   It must be guaranteed beforehand that there is enough room in the buffer.
+*/
+
+int sprint_string_parts(char* bptr, char* str1, char* sep, char* str2, int strenc) {
+  int seplen;
+  
+  sprint_string(bptr,(str1==NULL ? 0 : strlen(str1)),str1,strenc);
+  if (sep==NULL) return 1;
+  bptr+=strlen(bptr)-1; // at the closing quote
+  sprint_string(bptr,(str2==NULL ? 0 : strlen(str2)),str2,strenc);
+  // the opening quote of the second part is replaced by the separator
+  seplen=strlen(sep);
+  memmove(bptr+seplen,bptr+1,strlen(bptr+1)+1);
+  memcpy(bptr,sep,seplen);
+  return 1;
+}
+
 /* Print string with several encoding/escaping options.
  
   It must be guaranteed beforehand that there is enough room in the buffer.
@@ -567,7 +594,7 @@ int sprint_blob(char* bptr, int limit, char* strdata, int strenc) {
       *bptr++='"';
       *bptr='\0';  
       return 1; 
-    } else if (c < ' ' || c=='%' || c=='"' || (int)c>126) {
+    } else if (c < ' ' || c=='%' || c=='"' || c=='\\' || (int)c>126) {
       *bptr++='%';
       *bptr++=hex_chars[c >> 4];
       *bptr++=hex_chars[c & 0xf];
-- 
2.43.0


From 35aca1a60eea43b9eadcd05ae9484289792b21e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:01 +0000
Subject: [PATCH 091/116] fix: the server misread parameters and dereferenced
 arbitrary record ids

---
 Server/dserve.c      |  8 +++-----
 Server/dserve.h      |  1 +
 Server/dserve_util.c | 38 ++++++++++++++++++++++++++------------
 3 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 16a8be2..d71041e 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -605,7 +605,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
       for(j=0;j<MAXIDS;j++) ids[j]=0;
       // split csv int list to ids int array      
       for(j=0;j<strlen(cids);j++) {
-        if (atoi(cids+j) && atoi(cids+j)>0) ids[x++]=atoi(cids+j);        
+        if (strtol(cids+j,NULL,10)>0) ids[x++]=strtol(cids+j,NULL,10);
         if (x>=MAXIDS) break;
         for(;j<strlen(cids) && cids[j]!=','; j++) {};
       }             
@@ -715,7 +715,8 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     }   
   } else if (searchtype==1) {
     // ------------ search by record ids: ------------               
-    for(j=0; ids[j]!=0 && j<MAXIDS; j++) {    
+    for(j=0; j<MAXIDS && ids[j]!=0; j++) {    
+      if (!is_record_id(db,ids[j])) continue;
       x=wg_get_encoded_type(db,ids[j]);
       if (x!=WG_RECORDTYPE) continue;
       rec=wg_decode_record(db,ids[j]);    
@@ -735,9 +736,6 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
         // test that db is not null, otherwise we may corrupt the database
         oldrec=wg_get_first_record(db);
         if (oldrec!=NULL) {
-          //wg_int objecthead=dbfetch((void*)db,(void*)rec);
-          //printf("isfreeobject %d\n",isfreeobject((int)objecthead));
-          wg_print_record(db,rec);
           itmp=op_delete_record(tdata,rec);
           //printf("deletion result %d\n",itmp);
           if (!itmp) handlecount++;
diff --git a/Server/dserve.h b/Server/dserve.h
index 20b7bb9..a2df74a 100644
--- a/Server/dserve.h
+++ b/Server/dserve.h
@@ -469,6 +469,7 @@ char* make_http_errstr(char* str, thread_data_p tdata);
 wg_int encode_incomp(void* db, char* incomp);
 wg_int encode_intype(void* db, char* intype);
 wg_int encode_invalue(void* db, char* invalue, wg_int type);
+int is_record_id(void* db, wg_int id);
 int isint(char* s);
 int isdbl(char* s);
 int parse_query(char* query, int ql, char* params[], char* values[]);
diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index cd25165..c5fb277 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -71,10 +71,12 @@ wg_int encode_invalue(void* db, char* invalue, wg_int type) {
   if (type==WG_NULLTYPE) return wg_encode_query_param_null(db,NULL);
   else if (type==WG_INTTYPE) {
     if (!isint(invalue)) return WG_ILLEGAL;      
-    return wg_encode_query_param_int(db,atoi(invalue));
+    return wg_encode_query_param_int(db,strtol(invalue,NULL,10));
   } else if (type==WG_RECORDTYPE) {
     if (!isint(invalue)) return WG_ILLEGAL;      
-    return (wg_int)atoi(invalue);
+    type=strtol(invalue,NULL,10);
+    if (!is_record_id(db,type)) return WG_ILLEGAL;
+    return type;
   } else if (type==WG_DOUBLETYPE) {
     if (!isdbl(invalue)) return WG_ILLEGAL;
     return wg_encode_query_param_double(db,strtod(invalue,NULL));
@@ -83,7 +85,7 @@ wg_int encode_invalue(void* db, char* invalue, wg_int type) {
   } else if (type==WG_CHARTYPE) {
     return wg_encode_query_param_char(db,invalue[0]);
   } else if (type==0 && isint(invalue)) {
-    return wg_encode_query_param_int(db,atoi(invalue));
+    return wg_encode_query_param_int(db,strtol(invalue,NULL,10));
   } else if (type==0 && isdbl(invalue)) {
     return wg_encode_query_param_double(db,strtod(invalue,NULL));
   } else if (type==0) {
@@ -93,6 +95,18 @@ wg_int encode_invalue(void* db, char* invalue, wg_int type) {
   }
 }  
 
+/* return 1 iff id is the encoded value of a record in the database
+*/
+
+int is_record_id(void* db, wg_int id) {
+  void* rec;
+  
+  for(rec=wg_get_first_record(db); rec!=NULL; rec=wg_get_next_record(db,rec)) {
+    if (wg_encode_record(db,rec)==id) return 1;
+  }
+  return 0;
+}
+
 /* ********  cgi query parsing  ****** */
 
 
@@ -136,11 +150,11 @@ char* urldecode(char *indst, char *src) {
   while (*src) {
     if ((*src == '%') && (src+2<endptr) &&
         ((a = src[1]) && (b = src[2])) &&
-        (isxdigit(a) && isxdigit(b))) {
-      if (a >= 'a') a -= 'A'-'a';
+        (isxdigit((unsigned char)a) && isxdigit((unsigned char)b))) {
+      if (a >= 'a') a -= 'a'-'A';
       if (a >= 'A') a -= ('A' - 10);
       else a -= '0';
-      if (b >= 'a') b -= 'A'-'a';
+      if (b >= 'a') b -= 'a'-'A';
       if (b >= 'A') b -= ('A' - 10);
       else b -= '0';
       *dst++ = 16*a+b;
@@ -161,9 +175,9 @@ char* urldecode(char *indst, char *src) {
 */
 
 int isint(char* s) {
-  if (s==NULL) return 0;
+  if (s==NULL || *s=='\0') return 0;
   while(*s!='\0') {
-    if (!isdigit(*s)) return 0;
+    if (!isdigit((unsigned char)*s)) return 0;
     s++;
   }
   return 1;
@@ -174,17 +188,17 @@ int isint(char* s) {
 
 
 int isdbl(char* s) {
-  int c=0;
+  int c=0,n=0;
   if (s==NULL) return 0;
   while(*s!='\0') {
-    if (!isdigit(*s)) {
+    if (!isdigit((unsigned char)*s)) {
       if (*s=='.') c++;
       else return 0;
       if (c>1) return 0;
-    }
+    } else n++;
     s++;
   }
-  return 1;
+  return n>0;
 }   
 
 /* *********  json printing ********* */
-- 
2.43.0


From 7a130f97f08479184f5cb82d1d3df57639caf6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:01 +0000
Subject: [PATCH 092/116] fix: the server modified the database under a read
 lock and ignored from and count

---
 Server/dserve.c | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index d71041e..8423637 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -571,10 +571,10 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
   char* svalues[MAXPARAMS]; // set field values
   char* stypes[MAXPARAMS];  // set field types  
   int sfcount=0; // array el counters for above              
-  int from=0;             
+  unsigned long from=0;
   unsigned long count,rcount,gcount,handlecount;
   void* db=NULL; // actual database pointer
-  void *rec, *oldrec; 
+  void *rec, *oldrec, *next; 
   char* res;
   wg_query *wgquery;  // query datastructure built later
   wg_query_arg wgargs[MAXPARAMS]; 
@@ -623,7 +623,8 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     } else if (strncmp(inparams[i],"type",MAXQUERYLEN)==0) {
       types[tcount++]=invalues[i];
     } else if (strncmp(inparams[i],"from",MAXQUERYLEN)==0) {      
-      from=atoi(invalues[i]);
+      itmp=atoi(invalues[i]);
+      from=(itmp>0 ? itmp : 0);
     } else if (strncmp(inparams[i],"count",MAXQUERYLEN)==0) {      
       count=atoi(invalues[i]);    
     } else {  
@@ -679,15 +680,21 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
   handlecount=0; // actual nr of records handled
   // get lock
   if (tdata->realthread && tdata->common->shutdown) return NULL; // for multithreading only
-  lock_id = wg_start_read(db); // get read lock
+  if (opcode==DELETE_CODE || opcode==UPDATE_CODE) {
+    lock_id = wg_start_write(db); // the database is changed: get write lock
+    tdata->lock_type=WRITE_LOCK_TYPE;
+  } else {
+    lock_id = wg_start_read(db); // get read lock
+    tdata->lock_type=READ_LOCK_TYPE;
+  }
   tdata->lock_id=lock_id;
-  tdata->lock_type=READ_LOCK_TYPE;
   if (!lock_id) return err_clear_detach_halt(LOCK_ERR,tdata);
   // handle one of the cases
   if (searchtype==0) {
     // ------- full scan case  ---     
     rec=wg_get_first_record(db);
     while (rec!=NULL) {    
+      next=NULL;
       if (rcount>=from) {
         gcount++;
         if (gcount>count) break;  
@@ -699,18 +706,19 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
         } else if (opcode==UPDATE_CODE) {
           itmp=op_update_record(tdata,db,rec,0,0);
           if (!itmp) handlecount++;
+        } else if (opcode==DELETE_CODE) {
+          // find the next record before the current one disappears
+          next=wg_get_next_record(db,rec);
+          x=wg_get_record_len(db,rec);
+          if (x>0) {
+            itmp=op_delete_record(tdata,rec);
+            if (!itmp) handlecount++;
+            //else err_clear_detach_halt(DELETE_ERR,tdata);
+          }
         }
       }
-      oldrec=rec;
-      rec=wg_get_next_record(db,rec);
-      if (opcode==DELETE_CODE) {
-        x=wg_get_record_len(db,oldrec);
-        if (x>0) {
-          itmp=op_delete_record(tdata,oldrec);
-          if (!itmp) handlecount++;
-          //else err_clear_detach_halt(DELETE_ERR,tdata);
-        }  
-      } 
+      if (opcode==DELETE_CODE && rcount>=from) rec=next;
+      else rec=wg_get_next_record(db,rec);
       rcount++;
     }   
   } else if (searchtype==1) {
@@ -772,6 +780,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     // actually perform the query           
     if (tdata->maxdepth>MAX_DEPTH_HARD) tdata->maxdepth=MAX_DEPTH_HARD;
     while((rec = wg_fetch(db, wgquery))) {
+      if (gcount>=count) break;
       if (rcount>=from) {
         gcount++;                           
         if (opcode==COUNT_CODE) handlecount++;
@@ -788,7 +797,6 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
         }
       }  
       rcount++;
-      if (gcount>=count) break;    
     }   
     // free query datastructure, 
     for(i=0;i<fcount;i++) wg_free_query_param(db, wgargs[i].value);
@@ -803,7 +811,9 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     tdata->bufptr+=itmp;
   }
   // release locks and detach
-  if (!wg_end_read(db, lock_id)) {  // release read lock
+  if (tdata->lock_type==WRITE_LOCK_TYPE) itmp=wg_end_write(db, lock_id);
+  else itmp=wg_end_read(db, lock_id);
+  if (!itmp) {
     return err_clear_detach_halt(LOCK_RELEASE_ERR,tdata);
   }
   tdata->lock_id=0;
-- 
2.43.0


From 4706df0e032c80cd43613813830698938788a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:01 +0000
Subject: [PATCH 093/116] fix: the server leaked queries, parameters and
 buffers on errors

---
 Server/dserve.c | 75 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 19 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 8423637..cf57b83 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -107,6 +107,7 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[],
 
 static int op_print_record(thread_data_p tdata,void* rec,int gcount);
 static int op_delete_record(thread_data_p tdata,void* rec);
+static void free_search_query(void* db, wg_query_arg* args, int n, wg_query* query);
 
 static char* handle_generic_param(thread_data_p tdata,char* key,char* value,
                                   char** token,char* errbuf);
@@ -666,7 +667,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
   // database attached OK
   // create output string buffer (may be reallocated later)  
   tdata->buf=str_new(INITIAL_MALLOC);
-  if (tdata->buf==NULL) return errhalt(MALLOC_ERR,tdata);
+  if (tdata->buf==NULL) return err_clear_detach_halt(MALLOC_ERR,tdata);
   tdata->bufsize=INITIAL_MALLOC;
   tdata->bufptr=tdata->buf; 
   // check printing depth
@@ -757,25 +758,43 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     // create a query list datastructure    
     for(i=0;i<fcount;i++) {   
       // field num    
-      if (!isint(fields[i])) return err_clear_detach_halt(NO_FIELD_ERR,tdata);
+      if (!isint(fields[i])) {
+        free_search_query(db,wgargs,i,NULL);
+        return err_clear_detach_halt(NO_FIELD_ERR,tdata);
+      }
       itmp=atoi(fields[i]);
-      if(itmp<0) return err_clear_detach_halt(NO_FIELD_ERR,tdata);
+      if(itmp<0) {
+        free_search_query(db,wgargs,i,NULL);
+        return err_clear_detach_halt(NO_FIELD_ERR,tdata);
+      }
       // column to compare
       wgargs[i].column = itmp;    
       // comparison op: default equal
       wgargs[i].cond = encode_incomp(db,compares[i]);
-      if (wgargs[i].cond==BAD_WG_VALUE) return err_clear_detach_halt(COND_ERR,tdata);    
+      if (wgargs[i].cond==BAD_WG_VALUE) {
+        free_search_query(db,wgargs,i,NULL);
+        return err_clear_detach_halt(COND_ERR,tdata);
+      }
       // valuetype: default guess from value later
       type=encode_intype(db,types[i]); 
-      if (type==BAD_WG_VALUE) return err_clear_detach_halt(INTYPE_ERR,tdata);
+      if (type==BAD_WG_VALUE) {
+        free_search_query(db,wgargs,i,NULL);
+        return err_clear_detach_halt(INTYPE_ERR,tdata);
+      }
       // encode value to compare with   
       wgargs[i].value =  encode_invalue(db,values[i],type);        
-      if (wgargs[i].value==WG_ILLEGAL) return err_clear_detach_halt(INTYPE_ERR,tdata);
+      if (wgargs[i].value==WG_ILLEGAL) {
+        free_search_query(db,wgargs,i,NULL);
+        return err_clear_detach_halt(INTYPE_ERR,tdata);
+      }
     }   
     
     // make the query structure       
     wgquery = wg_make_query(db, NULL, 0, wgargs, i);
-    if (!wgquery) return err_clear_detach_halt(QUERY_ERR,tdata);
+    if (!wgquery) {
+      free_search_query(db,wgargs,fcount,NULL);
+      return err_clear_detach_halt(QUERY_ERR,tdata);
+    }
     
     // actually perform the query           
     if (tdata->maxdepth>MAX_DEPTH_HARD) tdata->maxdepth=MAX_DEPTH_HARD;
@@ -786,7 +805,10 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
         if (opcode==COUNT_CODE) handlecount++;
         else if (opcode==SEARCH_CODE) {
           itmp=op_print_record(tdata,rec,gcount);
-          if (!itmp) return err_clear_detach_halt(MALLOC_ERR,tdata);
+          if (!itmp) {
+            free_search_query(db,wgargs,fcount,wgquery);
+            return err_clear_detach_halt(MALLOC_ERR,tdata);
+          }
         } else if (opcode==UPDATE_CODE) {
           itmp=op_update_record(tdata,db,rec,0,0);
           if (!itmp) handlecount++;          
@@ -799,8 +821,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
       rcount++;
     }   
     // free query datastructure, 
-    for(i=0;i<fcount;i++) wg_free_query_param(db, wgargs[i].value);
-    wg_free_query(db,wgquery); 
+    free_search_query(db,wgargs,fcount,wgquery);
   }
   // ----- cases  handled  ------
   // print a single number for count and delete
@@ -824,6 +845,19 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
 }
 
 
+// free the query (unless NULL) and the values of its n first arguments
+
+static void free_search_query(void* db, wg_query_arg* args, int n, wg_query* query) {
+  int i;
+  
+  for(i=0;i<n;i++) {
+    // a record is given by its id, there is nothing to free
+    if (wg_get_encoded_type(db,args[i].value)!=WG_RECORDTYPE)
+      wg_free_query_param(db,args[i].value);
+  }
+  if (query!=NULL) wg_free_query(db,query);
+}
+
 // insert into the database */  
   
 static char* insert(thread_data_p tdata, char* inparams[], char* invalues[], int incount) {
@@ -893,7 +927,7 @@ static char* insert(thread_data_p tdata, char* inparams[], char* invalues[], int
   // database attached OK
   // create output string buffer (may be reallocated later)
   tdata->buf=str_new(INITIAL_MALLOC);
-  if (tdata->buf==NULL) return errhalt(MALLOC_ERR,tdata);
+  if (tdata->buf==NULL) return err_clear_detach_halt(MALLOC_ERR,tdata);
   tdata->bufsize=INITIAL_MALLOC;
   tdata->bufptr=tdata->buf;
   op_print_data_start(tdata,1);  
@@ -986,7 +1020,7 @@ static char* create(thread_data_p tdata, char* inparams[], char* invalues[], int
     } else if (strncmp(inparams[i],"size",MAXQUERYLEN)==0) {
       tmps=invalues[i];   
       size=atoi(tmps);
-      if(tmps<=0) return errhalt(DB_NO_SIZE_ERR,tdata); 
+      if(size<=0) return errhalt(DB_NO_SIZE_ERR,tdata); 
 #ifdef MAX_DATABASE_SIZE
       max_size=MAX_DATABASE_SIZE;
 #else
@@ -1011,7 +1045,7 @@ static char* create(thread_data_p tdata, char* inparams[], char* invalues[], int
   // all parameters and values were understood
   // create output string buffer (may be reallocated later)
   tdata->buf=str_new(INITIAL_MALLOC);
-  if (tdata->buf==NULL) return errhalt(MALLOC_ERR,tdata);
+  if (tdata->buf==NULL) return err_clear_detach_halt(MALLOC_ERR,tdata);
   tdata->bufsize=INITIAL_MALLOC;
   tdata->bufptr=tdata->buf;
   op_print_data_start(tdata,0);      
@@ -1022,7 +1056,7 @@ static char* create(thread_data_p tdata, char* inparams[], char* invalues[], int
   //db=wg_attach_existing_database(database);
   //if (db!=NULL) return errhalt(DB_EXISTS_ALREADY_ERR,tdata);      
   db=op_create_database(tdata,database,size);
-  if (db==NULL) return errhalt(DB_CREATE_ERR,tdata); 
+  if (db==NULL) return err_clear_detach_halt(DB_CREATE_ERR,tdata); 
   tdata->db=db;
   // created successfully 
   if(!str_guarantee_space(tdata,MIN_STRLEN)) 
@@ -1044,7 +1078,7 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[], int i
   int i,tmp;
   void* db=NULL; // actual database pointer
   char *res;
-  int lock_id=0;
+  wg_int lock_id=0;
   int found=0;
   char errbuf[ERRBUF_LEN];  
   
@@ -1068,7 +1102,7 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[], int i
   // all parameters and values were understood
   // create output string buffer (may be reallocated later)
   tdata->buf=str_new(INITIAL_MALLOC);
-  if (tdata->buf==NULL) return errhalt(MALLOC_ERR,tdata);
+  if (tdata->buf==NULL) return err_clear_detach_halt(MALLOC_ERR,tdata);
   tdata->bufsize=INITIAL_MALLOC;
   tdata->bufptr=tdata->buf;
   op_print_data_start(tdata,0);
@@ -1080,12 +1114,12 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[], int i
         break;
       }
     }
-    if (!found) return errhalt(DB_AUTHORIZE_ERR,tdata);
+    if (!found) return err_clear_detach_halt(DB_AUTHORIZE_ERR,tdata);
   }
   // first try to attach to an existing database 
   db=op_attach_database(tdata,database,ADMIN_LEVEL);
   if (db==NULL) {
-    return errhalt(DB_NOT_EXISTS_ERR,tdata);
+    return err_clear_detach_halt(DB_NOT_EXISTS_ERR,tdata);
   } else {  
     // database exists, take lock
     if (tdata->realthread && tdata->common->shutdown) return NULL; // for multithreading only
@@ -1096,8 +1130,11 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[], int i
     if (!lock_id) return err_clear_detach_halt(LOCK_ERR,tdata); 
     tmp=wg_detach_database(db); // detaches a database: returns 0 if OK
     if (tmp) return err_clear_detach_halt(DB_DROP_ERR,tdata);
+    // the memory is not ours any more
+    tdata->db=NULL;
+    tdata->lock_id=0;
     tmp=wg_delete_database(database);    
-    if (tmp) return errhalt(DB_DROP_ERR,tdata);
+    if (tmp) return err_clear_detach_halt(DB_DROP_ERR,tdata);
   }  
   // deleted successfully 
   tdata->db=NULL;
-- 
2.43.0


From 6e465e9350530c85be547fd02345bedb06ddca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:01 +0000
Subject: [PATCH 094/116] fix: the server's configuration reader overran and
 reused freed buffers

---
 Server/dserve_util.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index c5fb277..29905ec 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -710,26 +710,28 @@ int load_configuration(char* path, dserve_conf_p conf) {
   // read configuration file
   fp=fopen(path,READ);
   if (fp==NULL) {errprint(CONF_OPEN_ERR,path);  exit(ERR_EX_NOINPUT);}    
-  for(i=0;i<10;i++) {
+  for(i=0;;i++) {
     //printf("i %d bufsize %d\n",i,bufsize);
-    buf=malloc(bufsize);
-    if (buf==NULL) {errprint(CONF_MALLOC_ERR,NULL);  return 3;}
+    buf=malloc(bufsize+1); // room for the final zero
+    if (buf==NULL) {errprint(CONF_MALLOC_ERR,NULL); fclose(fp); return 3;}
     n=fread(buf,1,bufsize,fp);
-    if (n<=0) {errprint(CONF_READ_ERR,path); free(buf); return 3;}
+    if (n<=0) {errprint(CONF_READ_ERR,path); free(buf); fclose(fp); return 3;}
     if (n>=bufsize) {
       // did not manage to read all
       free(buf);
       rewind(fp);
       bufsize=bufsize*2;
-      if (bufsize>MAX_CONF_BUF_SIZE) {errprint(CONF_SIZE_ERR,path); free(buf); return 4;}
+      if (bufsize>MAX_CONF_BUF_SIZE) {errprint(CONF_SIZE_ERR,path); fclose(fp); return 4;}
     } else {
       // reading successful
       break;
     }      
   }
+  fclose(fp);
   // parse configuration file
   bp=buf;
   bend=buf+n;
+  *bend='\0';
   key=NULL;
   for(row=0;;row++) {
     // parse row by row
@@ -792,7 +794,7 @@ int load_configuration(char* path, dserve_conf_p conf) {
 static int empty_str(char *s) {
   if (s==NULL) return 1;
   while (*s != '\0') {
-    if (!isspace(*s)) return 0;
+    if (!isspace((unsigned char)*s)) return 0;
     s++;
   }
   return 1;
-- 
2.43.0


From fc49cdeeffa07e4fd21b4dec2daf568591c654ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:04 +0000
Subject: [PATCH 095/116] fix: refuse incomplete or misspelt query conditions
 in the wgdb tool

del and query ignored the arguments left over after full conditions, so
"del 0 =" deleted every row, and matched only the start of an operator
("<>" was taken as "<", "=<" as "=") or column number.
---
 Main/wgdb.c | 73 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 23 deletions(-)

diff --git a/Main/wgdb.c b/Main/wgdb.c
index 26a0a69..33d3721 100644
--- a/Main/wgdb.c
+++ b/Main/wgdb.c
@@ -110,6 +110,8 @@ extern "C" {
 gint parse_shmsize(char *arg);
 gint parse_flag(char *arg);
 int parse_memmode(char *arg);
+int parse_int(char *arg, int *val);
+int parse_cond(char *arg);
 wg_query_arg *make_arglist(void *db, char **argv, int argc, int *sz);
 void free_arglist(void *db, wg_query_arg *arglist, int sz);
 void query(void *db, char **argv, int argc);
@@ -756,6 +758,42 @@ int main(int argc, char **argv) {
   exit(0);
 }
 
+/** Parse an integer argument. Returns 1 if successful, 0 otherwise.
+ *
+ */
+int parse_int(char *arg, int *val) {
+  char *trailing = NULL;
+  long parsed;
+
+  errno = 0;
+  parsed = strtol(arg, &trailing, 10);
+  if(errno || trailing == arg || *trailing ||
+      parsed > INT_MAX || parsed < INT_MIN) {
+    return 0;
+  }
+  *val = (int) parsed;
+  return 1;
+}
+
+/** Parse a query condition. Returns 0 if it is not recognized.
+ *
+ */
+int parse_cond(char *arg) {
+  if(!strcmp(arg, "="))
+    return WG_COND_EQUAL;
+  if(!strcmp(arg, "!="))
+    return WG_COND_NOT_EQUAL;
+  if(!strcmp(arg, "<="))
+    return WG_COND_LTEQUAL;
+  if(!strcmp(arg, ">="))
+    return WG_COND_GTEQUAL;
+  if(!strcmp(arg, "<"))
+    return WG_COND_LESSTHAN;
+  if(!strcmp(arg, ">"))
+    return WG_COND_GREATER;
+  return 0;
+}
+
 /** Parse row matching parameters from the command line
  *
  *  argv should point to the part in argument list where the
@@ -767,10 +805,14 @@ int main(int argc, char **argv) {
  */
 wg_query_arg *make_arglist(void *db, char **argv, int argc, int *sz) {
   int c, i, j, qargc;
-  char cond[80];
   wg_query_arg *arglist;
   gint encoded;
 
+  /* an incomplete condition would match too many rows */
+  if(argc < 3 || argc % 3) {
+    fprintf(stderr, "failed to parse query parameters\n");
+    return NULL;
+  }
   qargc = argc / 3;
   *sz = qargc;
   arglist = (wg_query_arg *) malloc(qargc * sizeof(wg_query_arg));
@@ -782,36 +824,21 @@ wg_query_arg *make_arglist(void *db, char **argv, int argc, int *sz) {
   }
 
   for(i=0,j=0; i<qargc; i++) {
-    int cnt = 0;
-    cnt += sscanf(argv[j++], "%d", &c);
-    cnt += sscanf(argv[j++], "%79s", cond);
+    int op = parse_cond(argv[j+1]);
+    int ok = (parse_int(argv[j], &c) && op);
+    j += 2;
     encoded = wg_parse_and_encode_param(db, argv[j++]);
 
-    if(cnt!=2 || encoded==WG_ILLEGAL) {
+    /* freed with the list */
+    arglist[i].value = encoded;
+    if(!ok || encoded==WG_ILLEGAL) {
       fprintf(stderr, "failed to parse query parameters\n");
       free_arglist(db, arglist, qargc);
       return NULL;
     }
 
     arglist[i].column = c;
-    arglist[i].value = encoded;
-    if(!strncmp(cond, "=", 1))
-        arglist[i].cond = WG_COND_EQUAL;
-    else if(!strncmp(cond, "!=", 2))
-        arglist[i].cond = WG_COND_NOT_EQUAL;
-    else if(!strncmp(cond, "<=", 2))
-        arglist[i].cond = WG_COND_LTEQUAL;
-    else if(!strncmp(cond, ">=", 2))
-        arglist[i].cond = WG_COND_GTEQUAL;
-    else if(!strncmp(cond, "<", 1))
-        arglist[i].cond = WG_COND_LESSTHAN;
-    else if(!strncmp(cond, ">", 1))
-        arglist[i].cond = WG_COND_GREATER;
-    else {
-      fprintf(stderr, "invalid condition %s\n", cond);
-      free_arglist(db, arglist, qargc);
-      return NULL;
-    }
+    arglist[i].cond = op;
   }
 
   return arglist;
-- 
2.43.0


From 55ccf8350143109e7308859e1955b5a8d7155c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:04 +0000
Subject: [PATCH 096/116] fix: do not leave a partial row when wgdb add fails

A value that could not be parsed, or a field that could not be stored,
left the record with the fields before it in the database.
---
 Main/wgdb.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Main/wgdb.c b/Main/wgdb.c
index 33d3721..2a4e436 100644
--- a/Main/wgdb.c
+++ b/Main/wgdb.c
@@ -986,9 +986,14 @@ int add_row(void *db, char **argv, int argc) {
     encoded = wg_parse_and_encode(db, argv[i]);
     if(encoded == WG_ILLEGAL) {
       fprintf(stderr, "Parsing or encoding error\n");
+      wg_delete_record(db, rec);
+      return -1;
+    }
+    if(wg_set_field(db, rec, i, encoded)) {
+      fprintf(stderr, "Failed to store a value\n");
+      wg_delete_record(db, rec);
       return -1;
     }
-    wg_set_field(db, rec, i, encoded);
   }
 
   return 0;
-- 
2.43.0


From 66fefaa188088ff0eae76609bf689f63ccdce172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:04 +0000
Subject: [PATCH 097/116] fix: check column arguments of the wgdb index
 commands

An unparsed column number was used uninitialised, more than
MAX_INDEX_FIELDS columns overflowed the array, and a failure to create
the index was not reported.
---
 Main/wgdb.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/Main/wgdb.c b/Main/wgdb.c
index 2a4e436..e3244b1 100644
--- a/Main/wgdb.c
+++ b/Main/wgdb.c
@@ -690,9 +690,13 @@ int main(int argc, char **argv) {
         fprintf(stderr, "Failed to attach to database.\n");
         exit(1);
       }
-      sscanf(argv[i+1], "%d", &col);
+      if(!parse_int(argv[i+1], &col)) {
+        fprintf(stderr, "Invalid column number.\n");
+        break;
+      }
       WLOCK(shmptr, wlock);
-      wg_create_index(shmptr, col, WG_INDEX_TYPE_TTREE, NULL, 0);
+      if(wg_create_index(shmptr, col, WG_INDEX_TYPE_TTREE, NULL, 0))
+        fprintf(stderr, "Failed to create index.\n");
       WULOCK(shmptr, wlock);
       break;
     }
@@ -704,14 +708,20 @@ int main(int argc, char **argv) {
         exit(1);
       }
       col_count = 0;
-      for(j = i+1; j<argc; j++) {
+      for(j = i+1; j<argc && col_count<MAX_INDEX_FIELDS; j++) {
         int col;
-        sscanf(argv[j], "%d", &col);
+        if(!parse_int(argv[j], &col))
+          break;
         cols[col_count++] = col;
       }
+      if(j < argc) {
+        fprintf(stderr, "Invalid column number or too many columns.\n");
+        break;
+      }
       WLOCK(shmptr, wlock);
-      wg_create_multi_index(shmptr, cols, col_count,
-        WG_INDEX_TYPE_HASH_JSON, NULL, 0);
+      if(wg_create_multi_index(shmptr, cols, col_count,
+        WG_INDEX_TYPE_HASH_JSON, NULL, 0))
+        fprintf(stderr, "Failed to create index.\n");
       WULOCK(shmptr, wlock);
       break;
     }
@@ -722,7 +732,10 @@ int main(int argc, char **argv) {
         fprintf(stderr, "Failed to attach to database.\n");
         exit(1);
       }
-      sscanf(argv[i+1], "%d", &index_id);
+      if(!parse_int(argv[i+1], &index_id)) {
+        fprintf(stderr, "Invalid index id.\n");
+        break;
+      }
       WLOCK(shmptr, wlock);
       if(wg_drop_index(shmptr, index_id))
         fprintf(stderr, "Failed to drop index.\n");
-- 
2.43.0


From be81b23a18b3f95e4d53b61bcb4e0dbba688891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:05 +0000
Subject: [PATCH 098/116] fix: size and mode arguments of wgdb create and
 server

Sizes with a suffix could overflow, negative ones were accepted, and a
stale errno made valid modes fail.
---
 Main/wgdb.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/Main/wgdb.c b/Main/wgdb.c
index e3244b1..089b754 100644
--- a/Main/wgdb.c
+++ b/Main/wgdb.c
@@ -202,8 +202,10 @@ void usage(char *prog) {
 */
 gint parse_shmsize(char *arg) {
   char *trailing = NULL;
-  long maxv = LONG_MAX, mult = 1, val = strtol(arg, &trailing, 10);
+  long maxv = LONG_MAX, mult = 1, val;
 
+  errno = 0;
+  val = strtol(arg, &trailing, 10);
   if((val == LONG_MAX || val == LONG_MIN) && errno==ERANGE) {
     fprintf(stderr, "Numeric value out of range (try k, M, G?)\n");
   } else if(trailing) {
@@ -225,10 +227,10 @@ gint parse_shmsize(char *arg) {
     }
   }
 
-#ifndef HAVE_64BIT_GINT
   maxv /= mult;
-#endif
-  if(val > maxv) {
+  if(val < 0) {
+    return 0;
+  } else if(val > maxv) {
     fprintf(stderr, "Requested segment size not supported (using %ld)\n",
       mult * maxv);
     val = maxv;
@@ -260,7 +262,10 @@ gint parse_flag(char *arg) {
  */
 int parse_memmode(char *arg) {
   char *trailing = NULL;
-  long parsed = strtol(arg, &trailing, 8);
+  long parsed;
+
+  errno = 0;
+  parsed = strtol(arg, &trailing, 8);
   if(errno == 0 && (!trailing || strlen(trailing) == 0) &&
       parsed <= 0777 && parsed > 0) {
     return (int) parsed;
-- 
2.43.0


From c4d7cbc398cadc266f2c416f541474063f094c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:22 +0000
Subject: [PATCH 099/116] fix: lock the database while importing clauses and
 reasoning in the wgdb tool

importprolog, importotter and runreasoner changed and read the database
without any lock, unlike every other command.
---
 Main/wgdb.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Main/wgdb.c b/Main/wgdb.c
index 089b754..a2175dd 100644
--- a/Main/wgdb.c
+++ b/Main/wgdb.c
@@ -446,7 +446,9 @@ int main(int argc, char **argv) {
         fprintf(stderr, "Failed to attach to database.\n");
         exit(1);
       }
+      WLOCK(shmptr, wlock);
       err = wg_import_prolog_file(shmptr,argv[i+1]);
+      WULOCK(shmptr, wlock);
       if(!err)
         printf("Data imported from prolog file.\n");
       else if(err<-1)
@@ -464,7 +466,9 @@ int main(int argc, char **argv) {
         fprintf(stderr, "Failed to attach to database.\n");
         exit(1);
       }
+      WLOCK(shmptr, wlock);
       err = wg_import_otter_file(shmptr,argv[i+1]);
+      WULOCK(shmptr, wlock);
       if(!err)
         printf("Data imported from otter file.\n");
       else if(err<-1)
@@ -483,7 +487,10 @@ int main(int argc, char **argv) {
         exit(1);
       }
       //printf("about to call wg_run_reasoner\n");
+      /* computed values may be stored in the database */
+      WLOCK(shmptr, wlock);
       err = wg_run_reasoner(shmptr,argc,argv);
+      WULOCK(shmptr, wlock);
       //if(!err);
         //printf("wg_run_reasoner finished ok.\n");
       //else
-- 
2.43.0


From f71d0617e06552aa08db472081b055379bb2d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:02 +0000
Subject: [PATCH 100/116] fix: memory corruption in wgdb importprolog

The grammar handed the database itself over as the parser parameter, so
terms were allocated from the database header read as a memory pool. A
missing file made the scanner exit, and a parse error was reported as
success.
---
 Parser/dbparse.c  | 10 ++++++++--
 Parser/dbprolog.y |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index af343f8..98b5d1e 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -192,23 +192,29 @@ int wr_import_prolog_file(glb* g, char* filename, char* strasfile, cvec clvec) {
   parse_parm  pp;
   char* fnamestr;  
   FILE* fp;    
+  int pres;
   
   DPRINTF("Hello from dbprologparse!\n"); 
 
   fnamestr=filename;   
   fp=freopen(fnamestr, "r", stdin);
+  if (fp==NULL) return 1;
   pp.db=db;
   pp.filename=fnamestr;
   pp.foo="abcba";
+  pp.result=NULL;
+  pp.mpool=wg_create_mpool(db,1000000);
+  if (pp.mpool==NULL) return 1;
   
   wg_yyprologlex_init(&pp.yyscanner);
   wg_yyprologset_extra(&pp, pp.yyscanner);
-  wg_yyprologparse(&pp, pp.yyscanner);
+  pres=wg_yyprologparse(&pp, pp.yyscanner);
          
   wg_yyprologlex_destroy(pp.yyscanner);
+  wg_free_mpool(db,pp.mpool);
   DPRINTF("\nprologparse quitting.\n");
   
-  return 0;  
+  return pres ? 1 : 0;  
 }
 
 
diff --git a/Parser/dbprolog.y b/Parser/dbprolog.y
index 5589b28..d2748f4 100644
--- a/Parser/dbprolog.y
+++ b/Parser/dbprolog.y
@@ -34,7 +34,7 @@
 #include <stdio.h>
 #include "dbprologparse.h"
 
-#define DBPARM ((void*)(parm->db))
+#define DBPARM (parm)
 
 %}
 
-- 
2.43.0


From 1b17d52b36a3dc44c14949872ec5684cfb931dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:48 +0000
Subject: [PATCH 101/116] fix: readers queued behind a reader that is granted
 before it waits

A reader whose lock was granted between leaving the queue lock and looking
at its flag did not pass the grant on to readers queued behind it, so they
stayed blocked until it released the lock, or timed out.
---
 Db/dblock.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index 0cb463b..5bf85ea 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1111,7 +1111,7 @@ gint db_tfqueue_rlock(void * db) {
 #else
   struct timespec ts;
 #endif
-  gint lock, prev;
+  gint lock, prev, waiting;
   lock_queue_node *lockp;
   db_memsegment_header* dbh;
 
@@ -1147,9 +1147,12 @@ gint db_tfqueue_rlock(void * db) {
   } else {
     lockp->waiting = 0;
   }
+  /* a reader may queue up behind us while we are waiting, even if the lock
+   * is granted before we get to sleep */
+  waiting = lockp->waiting;
   unlock_queue(db);
 
-  if(lockp->waiting) {
+  if(waiting) {
     volatile gint *syn_addr = NULL;
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
-- 
2.43.0


From b1b998eca0d9502ad79f4f415f1d749a64b698ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:25 +0000
Subject: [PATCH 102/116] fix: let readers in when the writer they queued
 behind times out

A write request that timed out behind a reader left the readers queued
after it blocked until the reader ahead released its lock.
---
 Db/dblock.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/Db/dblock.c b/Db/dblock.c
index 5bf85ea..61cdc04 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1035,9 +1035,22 @@ gint db_tfqueue_wlock(void * db) {
       if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
         lock_queue(db);
         if(lockp->waiting) { /* not granted in the meantime */
+          volatile gint *syn_addr = NULL;
+          if(lockp->prev && lockp->next) {
+            /* a reader held up only by us may join the readers ahead */
+            lock_queue_node *prevp = offsettoptr(db, lockp->prev);
+            lock_queue_node *nextp = offsettoptr(db, lockp->next);
+            if(prevp->class == LOCKQ_READ && !prevp->waiting &&
+              nextp->class == LOCKQ_READ) {
+              nextp->waiting = 0;
+              syn_addr = &nextp->waiting;
+            }
+          }
           DEQUEUE_LOCK(db, dbh, lock, lockp)
           free_lock(db, lock);
           unlock_queue(db);
+          if(syn_addr)
+            futex_wake(syn_addr, 1);
           return 0;
         }
         unlock_queue(db);
-- 
2.43.0


From 59ab300b5cd8e8137cfe5fa8abd94f353038af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:00 +0000
Subject: [PATCH 103/116] fix: java binding returned a Record with a null
 pointer

A refused createRecord() and getFirstRecord() on an empty database gave a
Record object pointing nowhere instead of null (as getNextRecord() does).
---
 java/jni/src/native/whitedbDriver.c | 841 ++++++++++++++--------------
 1 file changed, 422 insertions(+), 419 deletions(-)

diff --git a/java/jni/src/native/whitedbDriver.c b/java/jni/src/native/whitedbDriver.c
index dec5497..fd4559a 100644
--- a/java/jni/src/native/whitedbDriver.c
+++ b/java/jni/src/native/whitedbDriver.c
@@ -1,419 +1,422 @@
-/*
-* $Id:  $
-* $Version: $
-*
-* Copyright (c) Andres Puusepp 2009
-* Copyright (c) Priit Järv 2013
-*
-* This file is part of WhiteDB
-*
-* WhiteDB is free software: you can redistribute it and/or modify
-* it under the terms of the GNU General Public License as published by
-* the Free Software Foundation, either version 3 of the License, or
-* (at your option) any later version.
-* 
-* WhiteDB is distributed in the hope that it will be useful,
-* but WITHOUT ANY WARRANTY; without even the implied warranty of
-* MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-* GNU General Public License for more details.
-* 
-* You should have received a copy of the GNU General Public License
-* along with WhiteDB.  If not, see <http://www.gnu.org/licenses/>.
-*
-*/
-
- /** @file whitedbDriver.c
- *  JNI native methods for WhiteDB.
- *
- */
-
-#include "whitedb_driver_WhiteDB.h"
-#include "../../../../Db/dballoc.h"
-#include "../../../../Db/dbmem.h"
-#include "../../../../Db/dbdata.h"
-#include "../../../../Db/dbquery.h"
-
-#ifdef _WIN32
-#include "../../config-w32.h"
-#else
-#include "../../config.h"
-#endif
-
-#include <stdlib.h>
-
-#if 0
-void* get_database_from_java_object(JNIEnv *env, jobject database) {
-    jclass clazz;
-    jfieldID fieldID;
-    jlong pointer;
-
-    clazz = (*env)->FindClass(env, "whitedb/holder/Database");
-    fieldID = (*env)->GetFieldID(env, clazz, "pointer", "J");
-    pointer = (*env)->GetLongField(env, database, fieldID);
-
-    return (void*)pointer;
-}
-
-void* get_record_from_java_object(JNIEnv *env, jobject record) {
-    jclass clazz;
-    jfieldID fieldID;
-    jlong pointer;
-
-    clazz = (*env)->FindClass(env, "whitedb/holder/Record");
-    fieldID = (*env)->GetFieldID(env, clazz, "pointer", "J");
-    pointer = (*env)->GetLongField(env, record, fieldID);
-
-    return (void*)pointer;
-}
-#endif
-
-jobject create_database_record_for_java(JNIEnv *env, void* recordPointer) {
-    jclass clazz;
-    jmethodID methodID;
-    jobject item;
-    jfieldID fieldID;
-
-    clazz = (*env)->FindClass(env, "whitedb/holder/Record");
-    methodID = (*env)->GetMethodID(env, clazz, "<init>", "()V");
-    item = (*env)->NewObject(env, clazz,  methodID, NULL);
-    fieldID = (*env)->GetFieldID(env, clazz, "pointer", "J");
-    (*env)->SetLongField(env, item, fieldID, (jlong)recordPointer);
-
-    return item;
-}
-
-JNIEXPORT jobject JNICALL Java_whitedb_driver_WhiteDB_getDatabase(JNIEnv *env,
-  jobject obj, jstring shmname, jint size, jboolean local) {
-    jclass clazz;
-    jmethodID methodID;
-    jobject item;
-    jfieldID fieldID;
-    jlong shmptr;
-    const char *shmnamep = NULL; /* JNI wants const here */
-
-    if(local) {
-        shmptr = (jlong) wg_attach_local_database((int) size);
-    } else {
-        if(shmname)
-            shmnamep = (*env)->GetStringUTFChars(env, shmname, 0);
-        shmptr = (jlong) wg_attach_database((char *) shmnamep, (int) size);
-    }
-
-    clazz = (*env)->FindClass(env, "whitedb/holder/Database");
-    methodID = (*env)->GetMethodID(env, clazz, "<init>", "()V");
-    item = (*env)->NewObject(env, clazz,  methodID, NULL);
-    fieldID = (*env)->GetFieldID(env, clazz, "pointer", "J");
-    (*env)->SetLongField(env, item, fieldID, shmptr);
-
-    if(shmnamep)
-        (*env)->ReleaseStringUTFChars(env, shmname, shmnamep);
-
-    return item;
-}
-
-JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_deleteDatabase(JNIEnv *env,
-  jobject obj, jstring shmname) {
-    jboolean ret;
-    const char *shmnamep = NULL;
-    if(shmname)
-        shmnamep = (*env)->GetStringUTFChars(env, shmname, 0);
-    ret = wg_delete_database((char *) shmnamep);
-    if(shmnamep)
-        (*env)->ReleaseStringUTFChars(env, shmname, shmnamep);
-    return ret;
-}
-
-JNIEXPORT void JNICALL Java_whitedb_driver_WhiteDB_deleteLocalDatabase(JNIEnv *env,
-  jobject obj, jlong dbptr) {
-    wg_delete_local_database((void *) dbptr);
-}
-
-JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_detachDatabase(JNIEnv *env,
-  jobject obj, jlong dbptr ) {
-    return wg_detach_database((void *) dbptr);
-}
-
-JNIEXPORT jobject JNICALL Java_whitedb_driver_WhiteDB_createRecord (JNIEnv *env, jobject obj, jlong dbptr, jint fieldcount) {
-    void* record;
-
-    record = wg_create_record((void *) dbptr, (int)fieldcount);
-
-    return create_database_record_for_java(env, record);
-}
-
-JNIEXPORT jobject JNICALL Java_whitedb_driver_WhiteDB_getFirstRecord (JNIEnv *env, jobject obj, jlong dbptr) {
-    void* record;
-
-    record = wg_get_first_record((void *) dbptr);
-
-    return create_database_record_for_java(env, record);
-}
-
-JNIEXPORT jobject JNICALL Java_whitedb_driver_WhiteDB_getNextRecord (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr) {
-    void* record;
-
-    record = wg_get_next_record((void *) dbptr, (void *) rptr);
-    if(record == NULL) {
-        return NULL;
-    }
-    return create_database_record_for_java(env, record);
-}
-
-JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_deleteRecord (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr) {
-
-    return wg_delete_record((void *) dbptr, (void *) rptr);
-}
-
-JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_getRecordLength (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr) {
-
-    return wg_get_record_len((void *) dbptr, (void *) rptr);
-}
-
-JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_setRecordIntField (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr, jint field, jint value) {
-
-    return wg_set_int_field((void *) dbptr, (void *) rptr, (int)field, (int)value);
-}
-
-JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_getIntFieldValue (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr, jint field) {
-    void* database;
-
-    database = (void *) dbptr;
-    return wg_decode_int(database, wg_get_field(database, (void *) rptr, (int)field));
-}
-
-JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_setRecordStringField (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr, jint field, jstring value) {
-    int result;
-    const char *valuep = NULL;
-
-    if(value)
-        valuep = (*env)->GetStringUTFChars(env, value, 0);
-    if(!valuep)
-        return -1;
-
-    result = wg_set_str_field((void *) dbptr, (void *) rptr, (int)field, (char *)valuep);
-
-    (*env)->ReleaseStringUTFChars(env, value, valuep);
-    return result;
-}
-
-JNIEXPORT jstring JNICALL Java_whitedb_driver_WhiteDB_getStringFieldValue (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr, jint field) {
-    void* database;
-    gint enc;
-    char* str = NULL;
-
-    database = (void *) dbptr;
-    enc = wg_get_field(database, (void *) rptr, (int)field);
-    if(enc != WG_ILLEGAL) {
-        str = wg_decode_str(database, enc);
-    }
-    if(str) {
-        return (*env)->NewStringUTF(env, (const char *) str);
-    } else {
-        return NULL;
-    }
-}
-
-JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_setRecordBlobField (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr, jint field, jbyteArray value) {
-    void* database;
-    size_t arraylen, result;
-    gint enc;
-    jbyte *valuep = NULL;
-
-    if(value)
-        valuep = (*env)->GetByteArrayElements(env, value, 0);
-    if(!valuep)
-        return -1;
-
-    database = (void *) dbptr;
-
-    arraylen = (*env)->GetArrayLength(env, value);
-    enc = wg_encode_blob(database, (char *) valuep, NULL, arraylen);
-    if(enc != WG_ILLEGAL) {
-        result = wg_set_field(database, (void *) rptr, (int)field, enc);
-    } else {
-        result = -1;
-    }
-
-    (*env)->ReleaseByteArrayElements(env, value, valuep, 0);
-    return result;
-}
-
-JNIEXPORT jbyteArray JNICALL Java_whitedb_driver_WhiteDB_getBlobFieldValue (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr, jint field) {
-    void* database;
-    size_t arraylen = 0;
-    gint enc;
-    char* str = NULL;
-    jbyteArray result;
-
-    database = (void *) dbptr;
-    enc = wg_get_field(database, (void *) rptr, (int)field);
-    if(enc != WG_ILLEGAL) {
-        str = wg_decode_blob(database, enc);
-        arraylen = wg_decode_blob_len(database, enc);
-    }
-    if(str) {
-        result = (*env)->NewByteArray(env, arraylen);
-        if(result)
-            (*env)->SetByteArrayRegion(env, result, 0, arraylen,
-              (const jbyte *) str);
-        return result;
-    } else {
-        return NULL;
-    }
-}
-
-gint map_cond(jint cond) {
-    /* Robust method of mapping constants. This way redefining
-     * something on either side doesn't break. */
-    switch(cond) {
-        case whitedb_driver_WhiteDB_COND_EQUAL:
-            return WG_COND_EQUAL;
-        case whitedb_driver_WhiteDB_COND_NOT_EQUAL:
-            return WG_COND_NOT_EQUAL;
-        case whitedb_driver_WhiteDB_COND_LESSTHAN:
-            return WG_COND_LESSTHAN;
-        case whitedb_driver_WhiteDB_COND_GREATER:
-            return WG_COND_GREATER;
-        case whitedb_driver_WhiteDB_COND_LTEQUAL:
-            return WG_COND_LTEQUAL;
-        case whitedb_driver_WhiteDB_COND_GTEQUAL:
-            return WG_COND_GTEQUAL;
-        default:
-            break;
-    }
-    return -1;
-}
-
-JNIEXPORT jobject JNICALL Java_whitedb_driver_WhiteDB_makeQuery(JNIEnv *env,
-  jobject obj, jlong dbptr,
-  jlong matchrecptr, jobjectArray arglistobj, jlong rowlimit) {
-    jclass clazz;
-    jmethodID methodID;
-    jfieldID fieldID;
-    jobject item = NULL;
-
-    void *database;
-    wg_query *query;
-    void *matchrec = NULL;
-    wg_query_arg *argv = NULL;
-    int argc = 0, i;
-
-    database = (void *) dbptr;
-
-    if(matchrecptr) {
-        matchrec = (void *) matchrecptr;
-    } else if(arglistobj) {
-        jfieldID column_id, cond_id, value_id;
-        argc = (*env)->GetArrayLength(env, arglistobj);
-        argv = malloc(sizeof(wg_query_arg) * argc);
-        if(!argv) {
-            return NULL;
-        }
-
-        clazz = (*env)->FindClass(env, "whitedb/util/ArgListEntry");
-        column_id = (*env)->GetFieldID(env, clazz, "column", "I");
-        cond_id = (*env)->GetFieldID(env, clazz, "cond", "I");
-        value_id = (*env)->GetFieldID(env, clazz, "value", "I");
-        for(i=0; i<argc; i++) {
-            jobject argobj = (*env)->GetObjectArrayElement(env, arglistobj, i);
-            argv[i].column = \
-                (gint) (*env)->GetIntField(env, argobj, column_id);
-            argv[i].cond = map_cond(
-                (*env)->GetIntField(env, argobj, cond_id));
-            argv[i].value = wg_encode_query_param_int(database,
-                (gint) (*env)->GetIntField(env, argobj, value_id));
-        }
-    }
-
-    if(rowlimit > 0)
-	query = wg_make_query_rc(database, matchrec, 0, argv, argc, rowlimit);
-    else
-	query = wg_make_query(database, matchrec, 0, argv, argc);
-
-    if(query) {
-        clazz = (*env)->FindClass(env, "whitedb/holder/Query");
-        methodID = (*env)->GetMethodID(env, clazz, "<init>", "()V");
-        item = (*env)->NewObject(env, clazz,  methodID, NULL);
-
-        fieldID = (*env)->GetFieldID(env, clazz, "query", "J");
-        (*env)->SetLongField(env, item, fieldID, (jlong)query);
-        fieldID = (*env)->GetFieldID(env, clazz, "arglist", "J");
-        (*env)->SetLongField(env, item, fieldID, (jlong)argv);
-        fieldID = (*env)->GetFieldID(env, clazz, "argc", "I");
-        (*env)->SetIntField(env, item, fieldID, argc);
-    }
-
-    return item;
-}
-
-JNIEXPORT void JNICALL Java_whitedb_driver_WhiteDB_freeQuery(JNIEnv *env,
-  jobject obj, jlong dbptr, jobject queryobj) {
-    jclass clazz;
-    jfieldID fieldID;
-    jlong pointer;
-
-    void *database;
-    wg_query *query = NULL;
-    wg_query_arg *arglist = NULL;
-    int argc = 0, i;
-
-    database = (void *) dbptr;
-
-    clazz = (*env)->FindClass(env, "whitedb/holder/Query");
-    fieldID = (*env)->GetFieldID(env, clazz, "arglist", "J");
-    pointer = (*env)->GetLongField(env, queryobj, fieldID);
-    if(pointer) {
-        arglist = (wg_query_arg *) pointer;
-        fieldID = (*env)->GetFieldID(env, clazz, "argc", "I");
-        argc = (*env)->GetIntField(env, queryobj, fieldID);
-        for(i=0; i<argc; i++) {
-            wg_free_query_param(database, arglist[i].value);
-        }
-        free(arglist);
-    }
-    fieldID = (*env)->GetFieldID(env, clazz, "query", "J");
-    pointer = (*env)->GetLongField(env, queryobj, fieldID);
-    query = (wg_query *) pointer;
-    if(query)
-        wg_free_query(database, query);
-}
-
-JNIEXPORT jobject JNICALL Java_whitedb_driver_WhiteDB_fetchQuery(JNIEnv *env,
-  jobject obj, jlong dbptr, jlong queryptr) {
-
-    wg_query *query;
-    void *rec = NULL;
-
-    query = (wg_query *) queryptr;
-    if(!query)
-        return NULL;
-
-    rec = wg_fetch((void *) dbptr, query);
-    if(!rec)
-        return NULL;
-    return create_database_record_for_java(env, rec);
-}
-
-JNIEXPORT jlong JNICALL Java_whitedb_driver_WhiteDB_startRead(JNIEnv *env,
-  jobject obj, jlong dbptr) {
-
-    return (jlong) wg_start_read((void *) dbptr);
-}
-
-JNIEXPORT jlong JNICALL Java_whitedb_driver_WhiteDB_endRead(JNIEnv *env,
-  jobject obj, jlong dbptr, jlong lock) {
-
-    return (jlong) wg_end_read((void *) dbptr, lock);
-}
-
-JNIEXPORT jlong JNICALL Java_whitedb_driver_WhiteDB_startWrite(JNIEnv *env,
-  jobject obj, jlong dbptr) {
-
-    return (jlong) wg_start_write((void *) dbptr);
-}
-
-JNIEXPORT jlong JNICALL Java_whitedb_driver_WhiteDB_endWrite(JNIEnv *env,
-  jobject obj, jlong dbptr, jlong lock) {
-
-    return (jlong) wg_end_write((void *) dbptr, lock);
-}
+/*
+* $Id:  $
+* $Version: $
+*
+* Copyright (c) Andres Puusepp 2009
+* Copyright (c) Priit Järv 2013
+*
+* This file is part of WhiteDB
+*
+* WhiteDB is free software: you can redistribute it and/or modify
+* it under the terms of the GNU General Public License as published by
+* the Free Software Foundation, either version 3 of the License, or
+* (at your option) any later version.
+* 
+* WhiteDB is distributed in the hope that it will be useful,
+* but WITHOUT ANY WARRANTY; without even the implied warranty of
+* MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+* GNU General Public License for more details.
+* 
+* You should have received a copy of the GNU General Public License
+* along with WhiteDB.  If not, see <http://www.gnu.org/licenses/>.
+*
+*/
+
+ /** @file whitedbDriver.c
+ *  JNI native methods for WhiteDB.
+ *
+ */
+
+#include "whitedb_driver_WhiteDB.h"
+#include "../../../../Db/dballoc.h"
+#include "../../../../Db/dbmem.h"
+#include "../../../../Db/dbdata.h"
+#include "../../../../Db/dbquery.h"
+
+#ifdef _WIN32
+#include "../../config-w32.h"
+#else
+#include "../../config.h"
+#endif
+
+#include <stdlib.h>
+
+#if 0
+void* get_database_from_java_object(JNIEnv *env, jobject database) {
+    jclass clazz;
+    jfieldID fieldID;
+    jlong pointer;
+
+    clazz = (*env)->FindClass(env, "whitedb/holder/Database");
+    fieldID = (*env)->GetFieldID(env, clazz, "pointer", "J");
+    pointer = (*env)->GetLongField(env, database, fieldID);
+
+    return (void*)pointer;
+}
+
+void* get_record_from_java_object(JNIEnv *env, jobject record) {
+    jclass clazz;
+    jfieldID fieldID;
+    jlong pointer;
+
+    clazz = (*env)->FindClass(env, "whitedb/holder/Record");
+    fieldID = (*env)->GetFieldID(env, clazz, "pointer", "J");
+    pointer = (*env)->GetLongField(env, record, fieldID);
+
+    return (void*)pointer;
+}
+#endif
+
+jobject create_database_record_for_java(JNIEnv *env, void* recordPointer) {
+    jclass clazz;
+    jmethodID methodID;
+    jobject item;
+    jfieldID fieldID;
+
+    if(!recordPointer)
+        return NULL;
+
+    clazz = (*env)->FindClass(env, "whitedb/holder/Record");
+    methodID = (*env)->GetMethodID(env, clazz, "<init>", "()V");
+    item = (*env)->NewObject(env, clazz,  methodID, NULL);
+    fieldID = (*env)->GetFieldID(env, clazz, "pointer", "J");
+    (*env)->SetLongField(env, item, fieldID, (jlong)recordPointer);
+
+    return item;
+}
+
+JNIEXPORT jobject JNICALL Java_whitedb_driver_WhiteDB_getDatabase(JNIEnv *env,
+  jobject obj, jstring shmname, jint size, jboolean local) {
+    jclass clazz;
+    jmethodID methodID;
+    jobject item;
+    jfieldID fieldID;
+    jlong shmptr;
+    const char *shmnamep = NULL; /* JNI wants const here */
+
+    if(local) {
+        shmptr = (jlong) wg_attach_local_database((int) size);
+    } else {
+        if(shmname)
+            shmnamep = (*env)->GetStringUTFChars(env, shmname, 0);
+        shmptr = (jlong) wg_attach_database((char *) shmnamep, (int) size);
+    }
+
+    clazz = (*env)->FindClass(env, "whitedb/holder/Database");
+    methodID = (*env)->GetMethodID(env, clazz, "<init>", "()V");
+    item = (*env)->NewObject(env, clazz,  methodID, NULL);
+    fieldID = (*env)->GetFieldID(env, clazz, "pointer", "J");
+    (*env)->SetLongField(env, item, fieldID, shmptr);
+
+    if(shmnamep)
+        (*env)->ReleaseStringUTFChars(env, shmname, shmnamep);
+
+    return item;
+}
+
+JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_deleteDatabase(JNIEnv *env,
+  jobject obj, jstring shmname) {
+    jboolean ret;
+    const char *shmnamep = NULL;
+    if(shmname)
+        shmnamep = (*env)->GetStringUTFChars(env, shmname, 0);
+    ret = wg_delete_database((char *) shmnamep);
+    if(shmnamep)
+        (*env)->ReleaseStringUTFChars(env, shmname, shmnamep);
+    return ret;
+}
+
+JNIEXPORT void JNICALL Java_whitedb_driver_WhiteDB_deleteLocalDatabase(JNIEnv *env,
+  jobject obj, jlong dbptr) {
+    wg_delete_local_database((void *) dbptr);
+}
+
+JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_detachDatabase(JNIEnv *env,
+  jobject obj, jlong dbptr ) {
+    return wg_detach_database((void *) dbptr);
+}
+
+JNIEXPORT jobject JNICALL Java_whitedb_driver_WhiteDB_createRecord (JNIEnv *env, jobject obj, jlong dbptr, jint fieldcount) {
+    void* record;
+
+    record = wg_create_record((void *) dbptr, (int)fieldcount);
+
+    return create_database_record_for_java(env, record);
+}
+
+JNIEXPORT jobject JNICALL Java_whitedb_driver_WhiteDB_getFirstRecord (JNIEnv *env, jobject obj, jlong dbptr) {
+    void* record;
+
+    record = wg_get_first_record((void *) dbptr);
+
+    return create_database_record_for_java(env, record);
+}
+
+JNIEXPORT jobject JNICALL Java_whitedb_driver_WhiteDB_getNextRecord (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr) {
+    void* record;
+
+    record = wg_get_next_record((void *) dbptr, (void *) rptr);
+    if(record == NULL) {
+        return NULL;
+    }
+    return create_database_record_for_java(env, record);
+}
+
+JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_deleteRecord (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr) {
+
+    return wg_delete_record((void *) dbptr, (void *) rptr);
+}
+
+JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_getRecordLength (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr) {
+
+    return wg_get_record_len((void *) dbptr, (void *) rptr);
+}
+
+JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_setRecordIntField (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr, jint field, jint value) {
+
+    return wg_set_int_field((void *) dbptr, (void *) rptr, (int)field, (int)value);
+}
+
+JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_getIntFieldValue (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr, jint field) {
+    void* database;
+
+    database = (void *) dbptr;
+    return wg_decode_int(database, wg_get_field(database, (void *) rptr, (int)field));
+}
+
+JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_setRecordStringField (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr, jint field, jstring value) {
+    int result;
+    const char *valuep = NULL;
+
+    if(value)
+        valuep = (*env)->GetStringUTFChars(env, value, 0);
+    if(!valuep)
+        return -1;
+
+    result = wg_set_str_field((void *) dbptr, (void *) rptr, (int)field, (char *)valuep);
+
+    (*env)->ReleaseStringUTFChars(env, value, valuep);
+    return result;
+}
+
+JNIEXPORT jstring JNICALL Java_whitedb_driver_WhiteDB_getStringFieldValue (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr, jint field) {
+    void* database;
+    gint enc;
+    char* str = NULL;
+
+    database = (void *) dbptr;
+    enc = wg_get_field(database, (void *) rptr, (int)field);
+    if(enc != WG_ILLEGAL) {
+        str = wg_decode_str(database, enc);
+    }
+    if(str) {
+        return (*env)->NewStringUTF(env, (const char *) str);
+    } else {
+        return NULL;
+    }
+}
+
+JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_setRecordBlobField (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr, jint field, jbyteArray value) {
+    void* database;
+    size_t arraylen, result;
+    gint enc;
+    jbyte *valuep = NULL;
+
+    if(value)
+        valuep = (*env)->GetByteArrayElements(env, value, 0);
+    if(!valuep)
+        return -1;
+
+    database = (void *) dbptr;
+
+    arraylen = (*env)->GetArrayLength(env, value);
+    enc = wg_encode_blob(database, (char *) valuep, NULL, arraylen);
+    if(enc != WG_ILLEGAL) {
+        result = wg_set_field(database, (void *) rptr, (int)field, enc);
+    } else {
+        result = -1;
+    }
+
+    (*env)->ReleaseByteArrayElements(env, value, valuep, 0);
+    return result;
+}
+
+JNIEXPORT jbyteArray JNICALL Java_whitedb_driver_WhiteDB_getBlobFieldValue (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr, jint field) {
+    void* database;
+    size_t arraylen = 0;
+    gint enc;
+    char* str = NULL;
+    jbyteArray result;
+
+    database = (void *) dbptr;
+    enc = wg_get_field(database, (void *) rptr, (int)field);
+    if(enc != WG_ILLEGAL) {
+        str = wg_decode_blob(database, enc);
+        arraylen = wg_decode_blob_len(database, enc);
+    }
+    if(str) {
+        result = (*env)->NewByteArray(env, arraylen);
+        if(result)
+            (*env)->SetByteArrayRegion(env, result, 0, arraylen,
+              (const jbyte *) str);
+        return result;
+    } else {
+        return NULL;
+    }
+}
+
+gint map_cond(jint cond) {
+    /* Robust method of mapping constants. This way redefining
+     * something on either side doesn't break. */
+    switch(cond) {
+        case whitedb_driver_WhiteDB_COND_EQUAL:
+            return WG_COND_EQUAL;
+        case whitedb_driver_WhiteDB_COND_NOT_EQUAL:
+            return WG_COND_NOT_EQUAL;
+        case whitedb_driver_WhiteDB_COND_LESSTHAN:
+            return WG_COND_LESSTHAN;
+        case whitedb_driver_WhiteDB_COND_GREATER:
+            return WG_COND_GREATER;
+        case whitedb_driver_WhiteDB_COND_LTEQUAL:
+            return WG_COND_LTEQUAL;
+        case whitedb_driver_WhiteDB_COND_GTEQUAL:
+            return WG_COND_GTEQUAL;
+        default:
+            break;
+    }
+    return -1;
+}
+
+JNIEXPORT jobject JNICALL Java_whitedb_driver_WhiteDB_makeQuery(JNIEnv *env,
+  jobject obj, jlong dbptr,
+  jlong matchrecptr, jobjectArray arglistobj, jlong rowlimit) {
+    jclass clazz;
+    jmethodID methodID;
+    jfieldID fieldID;
+    jobject item = NULL;
+
+    void *database;
+    wg_query *query;
+    void *matchrec = NULL;
+    wg_query_arg *argv = NULL;
+    int argc = 0, i;
+
+    database = (void *) dbptr;
+
+    if(matchrecptr) {
+        matchrec = (void *) matchrecptr;
+    } else if(arglistobj) {
+        jfieldID column_id, cond_id, value_id;
+        argc = (*env)->GetArrayLength(env, arglistobj);
+        argv = malloc(sizeof(wg_query_arg) * argc);
+        if(!argv) {
+            return NULL;
+        }
+
+        clazz = (*env)->FindClass(env, "whitedb/util/ArgListEntry");
+        column_id = (*env)->GetFieldID(env, clazz, "column", "I");
+        cond_id = (*env)->GetFieldID(env, clazz, "cond", "I");
+        value_id = (*env)->GetFieldID(env, clazz, "value", "I");
+        for(i=0; i<argc; i++) {
+            jobject argobj = (*env)->GetObjectArrayElement(env, arglistobj, i);
+            argv[i].column = \
+                (gint) (*env)->GetIntField(env, argobj, column_id);
+            argv[i].cond = map_cond(
+                (*env)->GetIntField(env, argobj, cond_id));
+            argv[i].value = wg_encode_query_param_int(database,
+                (gint) (*env)->GetIntField(env, argobj, value_id));
+        }
+    }
+
+    if(rowlimit > 0)
+	query = wg_make_query_rc(database, matchrec, 0, argv, argc, rowlimit);
+    else
+	query = wg_make_query(database, matchrec, 0, argv, argc);
+
+    if(query) {
+        clazz = (*env)->FindClass(env, "whitedb/holder/Query");
+        methodID = (*env)->GetMethodID(env, clazz, "<init>", "()V");
+        item = (*env)->NewObject(env, clazz,  methodID, NULL);
+
+        fieldID = (*env)->GetFieldID(env, clazz, "query", "J");
+        (*env)->SetLongField(env, item, fieldID, (jlong)query);
+        fieldID = (*env)->GetFieldID(env, clazz, "arglist", "J");
+        (*env)->SetLongField(env, item, fieldID, (jlong)argv);
+        fieldID = (*env)->GetFieldID(env, clazz, "argc", "I");
+        (*env)->SetIntField(env, item, fieldID, argc);
+    }
+
+    return item;
+}
+
+JNIEXPORT void JNICALL Java_whitedb_driver_WhiteDB_freeQuery(JNIEnv *env,
+  jobject obj, jlong dbptr, jobject queryobj) {
+    jclass clazz;
+    jfieldID fieldID;
+    jlong pointer;
+
+    void *database;
+    wg_query *query = NULL;
+    wg_query_arg *arglist = NULL;
+    int argc = 0, i;
+
+    database = (void *) dbptr;
+
+    clazz = (*env)->FindClass(env, "whitedb/holder/Query");
+    fieldID = (*env)->GetFieldID(env, clazz, "arglist", "J");
+    pointer = (*env)->GetLongField(env, queryobj, fieldID);
+    if(pointer) {
+        arglist = (wg_query_arg *) pointer;
+        fieldID = (*env)->GetFieldID(env, clazz, "argc", "I");
+        argc = (*env)->GetIntField(env, queryobj, fieldID);
+        for(i=0; i<argc; i++) {
+            wg_free_query_param(database, arglist[i].value);
+        }
+        free(arglist);
+    }
+    fieldID = (*env)->GetFieldID(env, clazz, "query", "J");
+    pointer = (*env)->GetLongField(env, queryobj, fieldID);
+    query = (wg_query *) pointer;
+    if(query)
+        wg_free_query(database, query);
+}
+
+JNIEXPORT jobject JNICALL Java_whitedb_driver_WhiteDB_fetchQuery(JNIEnv *env,
+  jobject obj, jlong dbptr, jlong queryptr) {
+
+    wg_query *query;
+    void *rec = NULL;
+
+    query = (wg_query *) queryptr;
+    if(!query)
+        return NULL;
+
+    rec = wg_fetch((void *) dbptr, query);
+    if(!rec)
+        return NULL;
+    return create_database_record_for_java(env, rec);
+}
+
+JNIEXPORT jlong JNICALL Java_whitedb_driver_WhiteDB_startRead(JNIEnv *env,
+  jobject obj, jlong dbptr) {
+
+    return (jlong) wg_start_read((void *) dbptr);
+}
+
+JNIEXPORT jlong JNICALL Java_whitedb_driver_WhiteDB_endRead(JNIEnv *env,
+  jobject obj, jlong dbptr, jlong lock) {
+
+    return (jlong) wg_end_read((void *) dbptr, lock);
+}
+
+JNIEXPORT jlong JNICALL Java_whitedb_driver_WhiteDB_startWrite(JNIEnv *env,
+  jobject obj, jlong dbptr) {
+
+    return (jlong) wg_start_write((void *) dbptr);
+}
+
+JNIEXPORT jlong JNICALL Java_whitedb_driver_WhiteDB_endWrite(JNIEnv *env,
+  jobject obj, jlong dbptr, jlong lock) {
+
+    return (jlong) wg_end_write((void *) dbptr, lock);
+}
-- 
2.43.0


From 655033f119461fb22b20bb697ed7f5802a690df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:00 +0000
Subject: [PATCH 104/116] fix: java binding's deleteDatabase() lost the error
 code

The result went through an unsigned 8-bit type: a failure (-1) came back as
255.
---
 java/jni/src/native/whitedbDriver.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/jni/src/native/whitedbDriver.c b/java/jni/src/native/whitedbDriver.c
index fd4559a..39d899c 100644
--- a/java/jni/src/native/whitedbDriver.c
+++ b/java/jni/src/native/whitedbDriver.c
@@ -116,7 +116,7 @@ JNIEXPORT jobject JNICALL Java_whitedb_driver_WhiteDB_getDatabase(JNIEnv *env,
 
 JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_deleteDatabase(JNIEnv *env,
   jobject obj, jstring shmname) {
-    jboolean ret;
+    jint ret;
     const char *shmnamep = NULL;
     if(shmname)
         shmnamep = (*env)->GetStringUTFChars(env, shmname, 0);
-- 
2.43.0


From 03d8e9b6a8543abf39f2fe8b880237fabfac3e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:15 +0000
Subject: [PATCH 105/116] fix: wg_set_int/double/str_field leaked the encoded
 value on failure

---
 Db/dbdata.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 668d737..4e6cdce 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1073,12 +1073,22 @@ setnewfld_done:
   return err;
 }
 
+/** Store a newly encoded value, release it if it cannot be stored
+*
+*/
+static gint set_encoded_field(void* db, void* record, gint fieldnr,
+  gint fielddata) {
+  gint err = wg_set_field(db,record,fieldnr,fielddata);
+  if (err<0) wg_free_encoded(db,fielddata);
+  return err;
+}
+
 wg_int wg_set_int_field(void* db, void* record, wg_int fieldnr, gint data) {
   gint fielddata;
   fielddata=wg_encode_int(db,data);
   //printf("wg_set_int_field data %d encoded %d\n",data,fielddata);
   if (fielddata==WG_ILLEGAL) return -1;
-  return wg_set_field(db,record,fieldnr,fielddata);
+  return set_encoded_field(db,record,fieldnr,fielddata);
 }
 
 wg_int wg_set_double_field(void* db, void* record, wg_int fieldnr, double data) {
@@ -1086,7 +1096,7 @@ wg_int wg_set_double_field(void* db, void* record, wg_int fieldnr, double data)
 
   fielddata=wg_encode_double(db,data);
   if (fielddata==WG_ILLEGAL) return -1;
-  return wg_set_field(db,record,fieldnr,fielddata);
+  return set_encoded_field(db,record,fieldnr,fielddata);
 }
 
 wg_int wg_set_str_field(void* db, void* record, wg_int fieldnr, char* data) {
@@ -1094,7 +1104,7 @@ wg_int wg_set_str_field(void* db, void* record, wg_int fieldnr, char* data) {
 
   fielddata=wg_encode_str(db,data,NULL);
   if (fielddata==WG_ILLEGAL) return -1;
-  return wg_set_field(db,record,fieldnr,fielddata);
+  return set_encoded_field(db,record,fieldnr,fielddata);
 }
 
 wg_int wg_set_rec_field(void* db, void* record, wg_int fieldnr, void* data) {
-- 
2.43.0


From cfa1bae01131bb1cf1d566892ea689acb5e92220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:15 +0000
Subject: [PATCH 106/116] fix: java binding leaked a blob that could not be
 stored

---
 java/jni/src/native/whitedbDriver.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/java/jni/src/native/whitedbDriver.c b/java/jni/src/native/whitedbDriver.c
index 39d899c..d4a34ce 100644
--- a/java/jni/src/native/whitedbDriver.c
+++ b/java/jni/src/native/whitedbDriver.c
@@ -218,8 +218,8 @@ JNIEXPORT jstring JNICALL Java_whitedb_driver_WhiteDB_getStringFieldValue (JNIEn
 
 JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_setRecordBlobField (JNIEnv *env, jobject obj, jlong dbptr, jlong rptr, jint field, jbyteArray value) {
     void* database;
-    size_t arraylen, result;
-    gint enc;
+    size_t arraylen;
+    gint enc, result;
     jbyte *valuep = NULL;
 
     if(value)
@@ -233,6 +233,8 @@ JNIEXPORT jint JNICALL Java_whitedb_driver_WhiteDB_setRecordBlobField (JNIEnv *e
     enc = wg_encode_blob(database, (char *) valuep, NULL, arraylen);
     if(enc != WG_ILLEGAL) {
         result = wg_set_field(database, (void *) rptr, (int)field, enc);
+        if(result < 0)
+            wg_free_encoded(database, enc);
     } else {
         result = -1;
     }
-- 
2.43.0


From 29c66bdd9f676fc39da39bfa40c5fa914ee63350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:15 +0000
Subject: [PATCH 107/116] fix: java binding's getBlobFieldValue() failed on a
 text field

The length of a value that is not a blob is -1: a
NegativeArraySizeException was thrown.
---
 java/jni/src/native/whitedbDriver.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/java/jni/src/native/whitedbDriver.c b/java/jni/src/native/whitedbDriver.c
index d4a34ce..00d440d 100644
--- a/java/jni/src/native/whitedbDriver.c
+++ b/java/jni/src/native/whitedbDriver.c
@@ -252,7 +252,8 @@ JNIEXPORT jbyteArray JNICALL Java_whitedb_driver_WhiteDB_getBlobFieldValue (JNIE
 
     database = (void *) dbptr;
     enc = wg_get_field(database, (void *) rptr, (int)field);
-    if(enc != WG_ILLEGAL) {
+    if(enc != WG_ILLEGAL &&
+      wg_get_encoded_type(database, enc) == WG_BLOBTYPE) {
         str = wg_decode_blob(database, enc);
         arraylen = wg_decode_blob_len(database, enc);
     }
-- 
2.43.0


From 9d94089b848ec78fbf244b87ebdf77c79c18958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:38 +0000
Subject: [PATCH 108/116] fix: java binding's getStringFieldValue() made a
 string of a blob

The bytes of a blob need not be valid UTF-8, which JNI does not allow.
---
 java/jni/src/native/whitedbDriver.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/java/jni/src/native/whitedbDriver.c b/java/jni/src/native/whitedbDriver.c
index 00d440d..b70a407 100644
--- a/java/jni/src/native/whitedbDriver.c
+++ b/java/jni/src/native/whitedbDriver.c
@@ -206,7 +206,8 @@ JNIEXPORT jstring JNICALL Java_whitedb_driver_WhiteDB_getStringFieldValue (JNIEn
 
     database = (void *) dbptr;
     enc = wg_get_field(database, (void *) rptr, (int)field);
-    if(enc != WG_ILLEGAL) {
+    if(enc != WG_ILLEGAL &&
+      wg_get_encoded_type(database, enc) != WG_BLOBTYPE) {
         str = wg_decode_str(database, enc);
     }
     if(str) {
-- 
2.43.0


From 977cc4b4b22494df39176f32a55d749dcd8a459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:02 +0000
Subject: [PATCH 109/116] fix: java binding used a query after freeing it

freeQuery() left its pointers in the Query object: freeing it again or
fetching from it used released memory.
---
 java/jni/src/native/whitedbDriver.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/java/jni/src/native/whitedbDriver.c b/java/jni/src/native/whitedbDriver.c
index b70a407..0d98b35 100644
--- a/java/jni/src/native/whitedbDriver.c
+++ b/java/jni/src/native/whitedbDriver.c
@@ -377,12 +377,16 @@ JNIEXPORT void JNICALL Java_whitedb_driver_WhiteDB_freeQuery(JNIEnv *env,
             wg_free_query_param(database, arglist[i].value);
         }
         free(arglist);
+        fieldID = (*env)->GetFieldID(env, clazz, "arglist", "J");
+        (*env)->SetLongField(env, queryobj, fieldID, 0);
     }
     fieldID = (*env)->GetFieldID(env, clazz, "query", "J");
     pointer = (*env)->GetLongField(env, queryobj, fieldID);
     query = (wg_query *) pointer;
-    if(query)
+    if(query) {
         wg_free_query(database, query);
+        (*env)->SetLongField(env, queryobj, fieldID, 0);
+    }
 }
 
 JNIEXPORT jobject JNICALL Java_whitedb_driver_WhiteDB_fetchQuery(JNIEnv *env,
-- 
2.43.0


From f8ad4105f8496440417ad3b4be75fdab7436e200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:02 +0000
Subject: [PATCH 110/116] fix: java binding leaked the arguments of a refused
 query

---
 java/jni/src/native/whitedbDriver.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/java/jni/src/native/whitedbDriver.c b/java/jni/src/native/whitedbDriver.c
index 0d98b35..7c0b23d 100644
--- a/java/jni/src/native/whitedbDriver.c
+++ b/java/jni/src/native/whitedbDriver.c
@@ -348,6 +348,11 @@ JNIEXPORT jobject JNICALL Java_whitedb_driver_WhiteDB_makeQuery(JNIEnv *env,
         (*env)->SetLongField(env, item, fieldID, (jlong)argv);
         fieldID = (*env)->GetFieldID(env, clazz, "argc", "I");
         (*env)->SetIntField(env, item, fieldID, argc);
+    } else if(argv) {
+        for(i=0; i<argc; i++) {
+            wg_free_query_param(database, argv[i].value);
+        }
+        free(argv);
     }
 
     return item;
-- 
2.43.0


From c155178be84a83696af7572065a37159c10385d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:02 +0000
Subject: [PATCH 111/116] fix: java binding crashed on a null in a query's
 argument list

---
 java/jni/src/native/whitedbDriver.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/java/jni/src/native/whitedbDriver.c b/java/jni/src/native/whitedbDriver.c
index 7c0b23d..c5b6372 100644
--- a/java/jni/src/native/whitedbDriver.c
+++ b/java/jni/src/native/whitedbDriver.c
@@ -323,6 +323,12 @@ JNIEXPORT jobject JNICALL Java_whitedb_driver_WhiteDB_makeQuery(JNIEnv *env,
         value_id = (*env)->GetFieldID(env, clazz, "value", "I");
         for(i=0; i<argc; i++) {
             jobject argobj = (*env)->GetObjectArrayElement(env, arglistobj, i);
+            if(!argobj) {
+                while(--i >= 0)
+                    wg_free_query_param(database, argv[i].value);
+                free(argv);
+                return NULL;
+            }
             argv[i].column = \
                 (gint) (*env)->GetIntField(env, argobj, column_id);
             argv[i].cond = map_cond(
-- 
2.43.0


From 41536de4e8349dc8b9aca2a72e910c7ddd2d49c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:55 +0000
Subject: [PATCH 112/116] fix: atomic field updates broke indexes on links to
 the record

The value of a link is the contents of the record it refers to, so changing a
field of the record moves the linking record in an ordered index. Such updates
are now refused like those of indexed fields.
---
 Db/dbdata.c | 56 ++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 4e6cdce..f87a784 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -594,6 +594,51 @@ static gint update_backlink_index_entries(void *db, gint *refs, gint count,
   return 0;
 }
 
+/** Check if there is an index on a field that depends on the contents of
+ *  the record because of links.
+ *
+ *  Returns 1 if there is (or if it cannot be determined), 0 otherwise.
+ */
+static gint has_referring_index(void *db, gint *record) {
+  db_memsegment_header *dbh = dbmemsegh(db);
+  gint *refs = NULL;
+  gint i, col, length, offset, enc, count, found = 0;
+  gint changed = ptrtooffset(db, record);
+
+  count = collect_referring_records(db, record, &refs);
+  if(count < 0)
+    return 1;
+  for(i=0; i<count && !found; i++) {
+    gint *rec = (gint *) offsettoptr(db, refs[i]);
+    if(is_special_record(rec))
+      continue;
+
+    length = getusedobjectwantedgintsnr(*rec) - RECORD_HEADER_GINTS;
+    if(length > MAX_INDEXED_FIELDNR)
+      length = MAX_INDEXED_FIELDNR + 1;
+
+    for(col=0; col<length && !found; col++) {
+#ifdef USE_INDEX_TEMPLATE
+      if(!dbh->index_control_area_header.index_table[col] &&\
+        !dbh->index_control_area_header.index_template_table[col])
+#else
+      if(!dbh->index_control_area_header.index_table[col])
+#endif
+        continue;
+      enc = *(rec + RECORD_HEADER_GINTS + col);
+      if(isptr(enc) && wg_get_encoded_type(db, enc) == WG_RECORDTYPE) {
+        offset = decode_datarec_offset(enc);
+        if(offset == changed || bsearch(&offset, refs, count,
+          sizeof(gint), compare_offsets))
+          found = 1;
+      }
+    }
+  }
+  if(refs)
+    free(refs);
+  return found;
+}
+
 #endif
 
 /* ------------ backlink chain helpers --------------------------- */
@@ -1146,7 +1191,8 @@ wg_int wg_set_rec_field(void* db, void* record, wg_int fieldnr, void* data) {
  *  returns -10 if new value non-immediate
  *  returns -11 if old value non-immediate
  *  returns -12 if cannot fetch old data
- *  returns -13 if the field has an index
+ *  returns -13 if the field has an index, or an index depends on it because
+ *    a field that refers to the record is indexed
  *  returns -14 if logging is active
  *  returns -15 if the field value has been changed from old_data
  *  may return other field-setting error codes from wg_set_new_field
@@ -1176,6 +1222,14 @@ wg_int wg_update_atomic_field(void* db, void* record, wg_int fieldnr, wg_int dat
 #endif
     return -13;
   }
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  // an index on a field that refers to the record depends on its contents
+  if(*((gint *) record + RECORD_BACKLINKS_POS) &&\
+    dbh->index_control_area_header.number_of_indexes &&\
+    has_referring_index(db, (gint *) record)) {
+    return -13;
+  }
+#endif
   // check that no logging is used
 #ifdef USE_DBLOG
   if(dbh->logging.active) {
-- 
2.43.0


From e23c1b661ecd81947bdd26123a7ce3d47044fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:27 +0000
Subject: [PATCH 113/116] fix: hash index entries and query answers were lost
 when memory ran out

---
 Db/dbhash.c  |  7 +++---
 Db/dbindex.c | 63 ++++++++++++++++++++++++++++++++++++++++++++++++----
 Db/dbquery.c |  6 +++++
 3 files changed, 69 insertions(+), 7 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index bde05a1..d2ea6f5 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -273,7 +273,7 @@ gint wg_remove_from_strhash(void* db, gint longstr) {
     gint xl = strlen(e); \
     bb = malloc(xl + l + 1); \
     if(!bb) \
-      return 0; \
+      return -1; \
     memcpy(bb, e, xl); \
     bb[xl] = '\0'; \
     memcpy(bb + xl + 1, b, l); \
@@ -286,6 +286,7 @@ gint wg_remove_from_strhash(void* db, gint longstr) {
  * It should be freed afterwards.
  * returns the number of bytes in the array.
  * returns 0 if the decode failed.
+ * returns -1 if out of memory.
  *
  * NOTE: to differentiate between identical byte strings
  * the value is prefixed with a type identifier. Integers that do not
@@ -364,7 +365,7 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       exdata = wg_decode_blob_type(db, enc);
       buf = malloc(sizeof(gint) + len + (exdata ? strlen(exdata) : 0));
       if(!buf)
-        return 0;
+        return -1;
       ptrdata = len;
       memcpy(buf, &ptrdata, sizeof(gint));
       memcpy(buf + sizeof(gint), wg_decode_blob(db, enc), len);
@@ -410,7 +411,7 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
     *decbytes = outbuf;
   } else {
     /* Indicate failure */
-    len = 0;
+    len = -1;
   }
 
   if(buf)
diff --git a/Db/dbindex.c b/Db/dbindex.c
index e3777e7..e19f1f2 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1497,6 +1497,44 @@ static gint hash_add_row(void *db, gint index_id, void *rec) {
     HASHIDX_OP_STORE, (hdr->type == WG_INDEX_TYPE_HASH_JSON));
 }
 
+/** Remove all entries connected to a row from hash index without
+ *  using the values in the row. Does not allocate memory, but needs to visit
+ *  the entire index.
+ */
+static void hash_remove_row_scan(void *db, gint index_id, void *rec) {
+  wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
+  db_hash_area_header *ha = HASHIDX_ARRAYP(hdr);
+  gint offset = ptrtooffset(db, rec);
+  gint i, bucket;
+
+  for(i=0; i<ha->arraylength; i++) {
+    gint *bucketp = (gint *) offsettoptr(db,
+      ha->arraystart + i * sizeof(gint));
+    while((bucket = *bucketp)) {
+      gint *head = (gint *) offsettoptr(db,
+        bucket + HASHIDX_RECLIST_POS*sizeof(gint));
+      gint *nextp = head;
+      while(*nextp) {
+        gint cell_offset = *nextp;
+        gcell *cell = (gcell *) offsettoptr(db, cell_offset);
+        if(cell->car == offset) {
+          *nextp = cell->cdr;
+          wg_free_listcell(db, cell_offset);
+        } else {
+          nextp = &(cell->cdr);
+        }
+      }
+      if(!*head) {
+        *bucketp = dbfetch(db, bucket + HASHIDX_HASHCHAIN_POS*sizeof(gint));
+        wg_free_object(db, &(dbmemsegh(db)->indexhash_area_header), bucket);
+      } else {
+        bucketp = (gint *) offsettoptr(db,
+          bucket + HASHIDX_HASHCHAIN_POS*sizeof(gint));
+      }
+    }
+  }
+}
+
 /** Remove all entries connected to a row from hash index
  *  returns:
  *  0 - on success
@@ -1504,18 +1542,27 @@ static gint hash_add_row(void *db, gint index_id, void *rec) {
  */
 static gint hash_remove_row(void *db, gint index_id, void *rec) {
   wg_index_header *hdr = (wg_index_header *)offsettoptr(db,index_id);
-  gint i;
+  gint i, retv;
   gint values[MAX_INDEX_FIELDS];
 
   for(i=0; i<hdr->fields; i++) {
     values[i] = wg_get_field(db, rec, hdr->rec_field_index[i]);
   }
-  return hash_recurse(db, hdr, NULL, 0, values, hdr->fields, rec,
+  retv = hash_recurse(db, hdr, NULL, 0, values, hdr->fields, rec,
     HASHIDX_OP_REMOVE, (hdr->type == WG_INDEX_TYPE_HASH_JSON));
+  if(retv == -2) {
+    /* No memory for finding the entries by value. They may not remain in
+     * the index though.
+     */
+    hash_remove_row_scan(db, index_id, rec);
+    retv = 0;
+  }
+  return retv;
 }
 
 /** Check if the hash index contains a row with its current values
- *  returns 1 if it does, 0 otherwise
+ *  returns 1 if it does (or if there is no memory to find it out),
+ *  0 otherwise
  */
 static gint hash_has_row(void *db, gint index_id, void *rec) {
   wg_index_header *hdr = (wg_index_header *)offsettoptr(db,index_id);
@@ -1527,6 +1574,8 @@ static gint hash_has_row(void *db, gint index_id, void *rec) {
   }
   list = hash_recurse(db, hdr, NULL, 0, values, hdr->fields, rec,
     HASHIDX_OP_FIND, (hdr->type == WG_INDEX_TYPE_HASH_JSON));
+  if(list == -2)
+    return 1;
   while(list > 0) {
     gcell *cell = (gcell *) offsettoptr(db, list);
     if(cell->car == ptrtooffset(db, rec))
@@ -1547,6 +1596,7 @@ static gint hash_has_row(void *db, gint index_id, void *rec) {
  * returns:
  * 0 - on success
  * -1 - on error
+ * -2 - if out of memory
  */
 static gint hash_recurse(void *db, wg_index_header *hdr, char *prefix,
   gint prefixlen, gint *values, gint count, void *rec, gint op, gint expand) {
@@ -1607,6 +1657,10 @@ static gint hash_extend_prefix(void *db, wg_index_header *hdr, char *prefix,
   gint newlen, fldlen, retv;
 
   fldlen = wg_decode_for_hashing(db, nextval, &fldbytes);
+  if(fldlen < 0) {
+    show_index_error(db, "Failed to allocate memory");
+    return -2;
+  }
   if(fldlen < 1) {
     show_index_error(db,"Failed to decode a field value for hash");
     return -1;
@@ -1622,7 +1676,7 @@ static gint hash_extend_prefix(void *db, wg_index_header *hdr, char *prefix,
   if(!newprefix) {
     free(fldbytes);
     show_index_error(db, "Failed to allocate memory");
-    return -1;
+    return -2;
   }
   if(prefix) {
     memcpy(newprefix, prefix, prefixlen);
@@ -1754,6 +1808,7 @@ static gint drop_hash_index(void *db, gint index_id){
  *
  *  returns offset to data row:
  *  -1 - error
+ *  -2 - error (out of memory)
  *  0 - if key NOT found
  *  >0 - offset to the linked list that contains the row offsets
  */
diff --git a/Db/dbquery.c b/Db/dbquery.c
index f121589..d3d2cb6 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1954,6 +1954,7 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
     if(!next_set) {
       if(curr_res)
         free_resultset(db, curr_res);
+      ARGLIST_CLEANUP(sorted_arglist)
       return NULL;
     }
 
@@ -1968,6 +1969,11 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
       values[0] = arglist[i].key;
       values[1] = arglist[i].value;
       reclist_offset = wg_search_hash(db, index_id, values, 2);
+      if(reclist_offset < -1) {
+        /* out of memory, the rows are not known */
+        IF_ERR_CLEAN_UP(db, curr_res, next_set, sorted_arglist,
+          reclist_offset)
+      }
 
       if(reclist_offset > 0) {
         gint *nextoffset = &reclist_offset;
-- 
2.43.0


From f833a3e9c666d1d4d79f50b51b3b40ef1b61926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:45 +0000
Subject: [PATCH 114/116] fix: failed journal replay leaked the directory of
 its hash table

---
 Db/dbhash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index d2ea6f5..5801bcd 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -627,7 +627,7 @@ void *wg_ginthash_init(void *db) {
 
   memset(tbl, 0, sizeof(ext_ginthash));
   if(grow_ginthash(db, tbl)) { /* initial level is set to 1 */
-    free(tbl);
+    wg_ginthash_free(db, tbl);
     return NULL;
   }
   return tbl;
-- 
2.43.0


From b3ae3d1315bc807bff5c5668d312823ca05e7f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:43 +0000
Subject: [PATCH 115/116] fix: a query that ran out of memory leaked its result
 rows

---
 Db/dbquery.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index d3d2cb6..d765e41 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -951,6 +951,7 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
           wg_alloc_mpool(db, query->mpool, sizeof(query_result_page));
         if(!currpage) {
           show_query_error(db, "Failed to allocate a resultset row");
+          wg_free_mpool(db, query->mpool); /* not a prefetch query yet */
           wg_free_query(db, query);
           return NULL;
         }
-- 
2.43.0


From bdaf5e18f9f80d0a5d58324fedd64f621695d7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:00 +0000
Subject: [PATCH 116/116] fix: refused journal replay left the file open or
 logging turned off

---
 Db/dblog.c | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 74d7a65..26611ff 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -901,28 +901,28 @@ gint wg_replay_log(void *db, char *filename)
     return -1;
   }
 
-  if(check_journal(db, fd)) {
-    err = -1;
-    goto abort2;
-  }
-
-  active = dbh->logging.active;
-  dbh->logging.active = 0; /* turn logging off before restoring */
-
   /* Reading can be done with buffered IO */
 #ifndef _WIN32
-  f = fdopen(fd, "r");
+  if(check_journal(db, fd) || !(f = fdopen(fd, "r"))) {
+    close(fd);
 #else
-  f = _fdopen(fd, "rb");
+  if(check_journal(db, fd) || !(f = _fdopen(fd, "rb"))) {
+    _close(fd);
 #endif
+    return -1;
+  }
+
   /* XXX: may consider fcntl-locking here */
   /* restore the log contents */
   tran_tbl = wg_ginthash_init(db);
   if(!tran_tbl) {
     show_log_error(db, "Failed to create log translation table");
-    err = -1;
-    goto abort1;
+    fclose(f);
+    return -1;
   }
+
+  active = dbh->logging.active;
+  dbh->logging.active = 0; /* turn logging off before restoring */
   if(recover_journal(db, f, tran_tbl)) {
     err = -2;
     goto abort0;
@@ -932,11 +932,8 @@ gint wg_replay_log(void *db, char *filename)
 
 abort0:
   wg_ginthash_free(db, tran_tbl);
-
-abort1:
   fclose(f);
 
-abort2:
   if(!err && active) {
     if(wg_start_logging(db)) {
       show_log_error(db, "Log restored but failed to reactivate logging");
-- 
2.43.0

