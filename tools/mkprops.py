#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Edit the table, run, commit."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- concurrency
prop("C01", "Database locks: a writer excludes everybody, readers exclude writers",
 "While some client holds the exclusive (write) lock, obtained through the start-write call, no other client holds either the exclusive or the shared (read) lock, and while shared locks are held no exclusive lock is granted. This holds under every interleaving of any number of clients of the same database, for each of the three lock protocols the library can be configured with, including clients whose acquisition times out or whose wait is interrupted by a signal or wakes spuriously.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings of the memory accesses of 2-4 clients doing lock/unlock sequences, all answers of the wait primitive (woken, spurious, interrupted, timed out), lock protocols 1-3",
 "the tests take and release locks from one process with no contention; stress tests sample a handful of schedules",
 ["Db/dblock.c", "Db/dblock.h", "Db/dballoc.h"],
 [("reader/writer lock words and queue", "Db/dblock.c db_rpspin_*, db_wpspin_*, db_tfqueue_*")],
 [("lock area", "reader/writer counters, queue tail, lock node cells", "Db/dballoc.h syn_var_area")],
 ["wg_start_write", "wg_start_read", "wg_end_write", "wg_end_read"])
prop("C02", "Database locks: no lost wakeup, deadlock or leaked lock after a timeout",
 "Whenever every holder eventually releases its lock, every client that waits without a time limit eventually gets the lock, and a client whose wait times out gets a failure and leaves nothing behind: after all clients are done, a new client can take either lock immediately and the lock is exactly as usable as it was at the start. A client asking for the shared lock waits only for writers that hold it or asked before, never for other readers to leave. This holds in every interleaving, for every lock protocol, and also when more clients queue up than the lock has queue slots for.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings of 2-4 clients, every point at which a timeout, spurious or interrupted wake-up can land, lock protocols 1-3, exhausted lock node pool",
 "no test has two clients contending, none makes a wait time out",
 ["Db/dblock.c"],
 [("queue hand-over, futex wait/wake, node free list, decrement on timeout", "Db/dblock.c db_tfqueue_wlock/rlock/wulock/rulock, alloc_lock, free_lock")],
 [], ["wg_start_write", "wg_start_read", "wg_end_write", "wg_end_read"])
prop("C03", "Atomic single-field operations are linearizable and obey their preconditions",
 "Concurrent atomic field operations (set, compare-and-update, integer add) on the same field behave as if executed one at a time in some order consistent with real time: no addition is lost, a compare-and-update succeeds exactly if the field held the given old value, a set takes effect. Each of them is refused with its documented error and no effect when it is not allowed (new or old value not immediate, indexed field, active journal, non-integer or overflow for add, field out of range).",
 ["schedules", "inputs"],
 "all interleavings of 2-3 clients with 1-2 atomic operations each on one or two fields; all combinations of old/new value types and field states",
 "the tests call them from one thread with one or two values",
 ["Db/dbdata.c", "Db/dblock.c"],
 [("compare-and-swap on the encoded field word", "Db/dbdata.c wg_update_atomic_field, wg_set_atomic_field, wg_add_int_atomic_field; Db/dblock.c wg_compare_and_swap")],
 [], ["wg_update_atomic_field", "wg_set_atomic_field", "wg_add_int_atomic_field"])

# ---------------------------------------------------------------- records and values
prop("C04", "A record field always reads back the last value written to it",
 "A created record has exactly the requested number of fields, all null, and afterwards every field reads back, with type and content, the value most recently stored in it by a successful write, for every value type the database supports. No operation on one record or field ever changes another, and reads and writes outside the record's length are refused without effect.",
 ["histories", "inputs"],
 "all sequences of create/set/overwrite/clear/delete over a small record population and one value per storage class, to a depth bound",
 "the tests write each type once or twice in a fixed order on a fresh database; storage reuse after overwrites is hardly reached",
 ["Db/dbdata.c", "Db/dballoc.c"],
 [("encode/decode, field store, old value release", "Db/dbdata.c wg_set_field, wg_set_new_field, free_field_encoffset, wg_encode_*, wg_decode_*")],
 [], ["wg_get_field", "wg_get_field_type", "wg_decode_*", "wg_get_record_len"])
prop("C05", "A scan visits every live record exactly once and nothing else",
 "Following first-record/next-record visits each live data record exactly once and terminates, and never yields a deleted record, an internal (non-data) record or something that is not a record. This holds after any history of creations and deletions, whatever sizes were used and whatever storage was reused or merged.",
 ["histories"],
 "all sequences of create (over the size classes) and delete operations to a depth bound, from empty and pre-fragmented databases, crossing storage-block boundaries",
 "tests scan databases that were only ever filled, or filled and emptied in one order",
 ["Db/dbdata.c", "Db/dballoc.c"],
 [("walk over storage blocks by object size tags", "Db/dbdata.c wg_get_first_record, wg_get_next_record, wg_get_first_raw_record, wg_get_next_raw_record")],
 [("object headers", "size and in-use tag bits of each stored object", "Db/dballoc.h makefreeobjectsize...")],
 ["wg_get_first_record", "wg_get_next_record"])
prop("C06", "Storage is never handed out twice and freed storage becomes reusable",
 "Two live objects never share storage, whatever sequence of allocations and frees preceded. Everything freed can be allocated again: repeating a create-and-delete workload runs for ever in bounded space, and adjacent freed space is merged so that a larger object fits into it.",
 ["histories"],
 "all sequences of allocations and frees over size classes (exact-size, variable-size, whole-block, minimum) to a depth bound, with pattern checks and free-list invariants in every state",
 "the tests allocate a few objects and run a self-check once; free list corruption needs particular orders of frees and sizes",
 ["Db/dballoc.c"],
 [("exact/variable free buckets, designated victim, boundary tags, subarea growth", "Db/dballoc.c wg_alloc_gints, wg_free_object, split_free, extend_varlen_area, wg_alloc_fixlen_object")],
 [], ["wg_create_record", "wg_delete_record", "wg_database_freesize", "wg_encode_str"])
prop("C07", "A record can be deleted exactly when no record refers to it",
 "Deleting a record succeeds if and only if no field of any live record refers to it (a record's references are dropped when the record is deleted or the field overwritten), and the parent iteration of a record yields exactly the records that currently refer to it. A refused deletion changes nothing, so no live record ever contains a reference to a deleted one.",
 ["histories"],
 "all sequences of link/unlink/overwrite/delete operations over 3-4 records with up to 3 fields, including self links, duplicate links and cycles",
 "the tests make one or two links and delete in one order",
 ["Db/dbdata.c", "Db/dballoc.c"],
 [("back-link lists", "Db/dbdata.c wg_set_field, remove_backlink_index_entries, wg_delete_record, wg_get_first_parent, wg_get_next_parent")],
 [("backlink list", "list cells of referring records", "Db/dbdata.h RECORD_BACKLINKS_POS")],
 ["wg_delete_record", "wg_get_first_parent", "wg_get_next_parent"])
prop("C08", "Equal strings are shared and live exactly as long as a field uses them",
 "Storing the same long string, URI, XML literal or blob-like text (same content, same type, same qualifier such as language or namespace) twice yields one shared stored value, and texts that differ in content, type or qualifier never get confused. The stored text stays intact as long as at least one field of a live record uses it and its storage is released when the last use is overwritten or deleted, for any history of uses.",
 ["histories", "inputs"],
 "all sequences of set/overwrite/clear/delete of strings drawn from colliding and nearly equal values (hash-bucket collisions, same text with different type or qualifier), to a depth bound",
 "tests store strings and read them back; release order within one hash chain, collisions and qualifiers are not covered",
 ["Db/dbdata.c", "Db/dbhash.c"],
 [("string hash chains and reference counts", "Db/dbdata.c find_create_longstr, free_field_encoffset; Db/dbhash.c wg_hash_typedstr, wg_find_strhash_bucket, wg_remove_from_strhash")],
 [("strhash", "hash array of chains of long strings", "Db/dballoc.h strhash_area_header")],
 ["wg_encode_*", "wg_decode_*", "wg_database_freesize"])
prop("C09", "Encoding then decoding a value returns the same type and content",
 "For every value of every supported type (integers, doubles, fixpoints, dates, times, characters, variables, strings, URIs, XML literals, blobs and records), encoding it and decoding the result returns exactly the same value, type, length and qualifier. Copying decoders never write beyond the given buffer, and values outside the documented range of a type are refused with an error instead of being stored altered.",
 ["inputs"],
 "every value of the small types, all boundary values around each representation switch of the larger ones, all text lengths across the storage classes with and without qualifier, every buffer size",
 "tests encode a few values per type; representation switches and buffer limits are mostly not hit",
 ["Db/dbdata.c", "Db/dbdata.h"],
 [("tagged encodings", "Db/dbdata.c wg_encode_*, wg_decode_*, Db/dbdata.h encode_*/decode_* macros")],
 [], ["wg_encode_*", "wg_decode_*", "wg_get_encoded_type"])
prop("C10", "Running out of memory fails cleanly and leaves the database intact",
 "When the database memory is exhausted, the operation that could not be completed reports an error and has no effect, and the database stays fully usable: every record and value stored earlier reads back unchanged, scans, indexes and reference tracking stay correct, storage taken for the refused operation is free again (but for the hash table of a hash index that could not be built), and after deleting something new data can be stored again. Deleting never fails for lack of memory. This holds whichever internal storage runs out, at any point of any operation, for records, values, references, indexes and JSON documents (a JSON import that ends with the fatal code may leave parts of the document behind, but nothing else changed). The exhaustion of the process heap is the subject of C39; what the journal contains about refused operations is not covered.",
 ["fault_sequences", "histories"],
 "in every state reached by all operation sequences to a depth bound, every operation with every one of its internal storage requests meeting an exhausted area, followed by full consistency checks and every further operation",
 "the tests never exhaust the memory except by one oversized request",
 ["Db/dballoc.c", "Db/dbdata.c", "Db/dbindex.c", "Db/dbhash.c"],
 [("error returns of the allocator and their handling", "Db/dballoc.c extend_fixedlen_area, extend_varlen_area; callers in Db/dbdata.c, Db/dbindex.c, Db/dbhash.c")],
 [], ["all data modification calls"])

# ---------------------------------------------------------------- indexes and queries
prop("C11", "An ordered index always reflects exactly the current table content",
 "At any time an ordered index on a column contains precisely the live records that have that column, each once, so that querying through it returns exactly the rows a full scan would, and in key order. This holds after any sequence of insertions, field updates (lock-free atomic ones included), deletions and index creations and drops, in any key order and with any number of duplicate keys.",
 ["histories"],
 "all insertion/deletion/update orders of small key multisets on trees with small and default node capacity, and all short operation sequences from many prefilled shapes (every rotation and node merge)",
 "tests insert pseudo-random keys and check size; which rotation, split or merge happens is left to chance",
 ["Db/dbindex.c"],
 [("T-tree insert/delete/rotation", "Db/dbindex.c ttree_add_row, ttree_remove_row, ttree_remove_row_fast, rotate_ttree")],
 [("tree nodes", "parent/child/chain offsets, min/max, subtree heights", "Db/dballoc.h struct wg_tnode")],
 ["wg_make_query", "wg_find_record", "wg_index_add_field ..."])
prop("C12", "A hash index always reflects exactly the current table content",
 "At any time a hash index, on one or several columns, maps each combination of column values to precisely the live records that currently have those values, and nothing else, so that an equality lookup through it agrees with a full scan. This holds for every value type, after any sequence of insertions, updates and deletions, including values whose hashes collide.",
 ["histories", "inputs"],
 "all sequences of create/set/update/delete over colliding and type-confusable values with one- and two-column hash indexes, to a depth bound",
 "the tests index a handful of ascii strings and integers and look up a few",
 ["Db/dbindex.c", "Db/dbhash.c"],
 [("hash rows keyed by value bytes", "Db/dbindex.c hash_add_row, hash_remove_row, hash_extract_json...; Db/dbhash.c wg_decode_for_hashing, wg_idxhash_store, wg_idxhash_remove, wg_idxhash_find")],
 [], ["wg_search_hash", "wg_make_query"])
prop("C13", "Index creation, listing, lookup and removal stay consistent; filters are exact",
 "Creating an index succeeds only for supported combinations and otherwise changes nothing; listing and looking up indexes always reports exactly the existing ones with their columns, type and filter, dropping one removes exactly it and releases its storage (a drop of a kind that cannot be dropped is refused and has no effect). An index with a filter (match record) contains exactly the records that agree with the filter at every moment of any history.",
 ["histories", "inputs"],
 "all sequences of create/drop/list/lookup over column sets, types and filters (valid and invalid) interleaved with record changes, to a depth bound",
 "tests create one index at a time with valid arguments",
 ["Db/dbindex.c"],
 [("index header lists per column and template table", "Db/dbindex.c wg_create_multi_index, wg_drop_index, wg_column_to_index_id, wg_get_all_indexes, add_index_template, match_template")],
 [("index table", "per-column lists of index headers", "Db/dballoc.h index_control_area_header")],
 ["wg_create_index", "wg_create_multi_index", "wg_drop_index", "wg_column_to_index_id", "wg_get_index_type", "wg_get_all_indexes"])
prop("C14", "A query returns exactly the rows that satisfy all its conditions",
 "For every conjunction of conditions (=, !=, <, >, <=, >= on any columns with values of any type) and every match record, the query yields exactly the records a full scan would select, each once, and no others. The answer does not depend on which indexes exist, on the order of the conditions or on how storage is laid out, a row limit yields exactly that many of these rows when there are more, and the query never modifies the database.",
 ["inputs", "configurations"],
 "all conjunctions of up to 2-3 conditions over all operators and boundary values, all match records over a value/wildcard alphabet, on several data sets with many duplicates, under every index configuration, all row limits",
 "tests run a dozen fixed queries against counted data",
 ["Db/dbquery.c", "Db/dbindex.c"],
 [("index bound computation, column choice, scan filter, prefetch", "Db/dbquery.c wg_make_query, internal_build_query, prepare_params, most_restricting_column, find_ttree_bounds, wg_fetch")],
 [], ["wg_make_query", "wg_make_query_rc", "wg_fetch", "wg_free_query"])
prop("C15", "Find-record iteration yields every matching record once and then ends",
 "Repeatedly asking for the next record whose given field is in the given relation to a value, starting from nothing and passing the previous result, yields exactly the matching live records, each once, and then reports the end. This holds for every relation and value type, with and without indexes on the column.",
 ["inputs", "configurations"],
 "all relations x all values of a mixed-type alphabet x data sets with duplicates, short records and empty tables x index configurations",
 "tests look up single rows",
 ["Db/dbquery.c"],
 [("single condition search from the last record", "Db/dbquery.c wg_find_record, wg_find_record_*")],
 [], ["wg_find_record", "wg_find_record_*"])
prop("C16", "A document (JSON) query finds exactly the documents containing all key-values",
 "A query for key-value pairs returns exactly the top-level documents that contain every given pair somewhere in them, each once, whether or not document indexes exist. Adding, changing or deleting documents is immediately and exactly reflected in later answers.",
 ["histories", "inputs", "configurations"],
 "all pairs and pairs of pairs over a small alphabet of nested documents, with and without document index, after all short sequences of inserting and deleting documents",
 "tests run a few fixed queries over one document set",
 ["Db/dbquery.c", "Db/dbindex.c", "Db/dbschema.c", "Db/dbjson.c"],
 [("hash lookup of key-value rows, document search by back-links, scan merge", "Db/dbquery.c wg_make_json_query, check_and_merge_by_kv; Db/dbschema.c wg_find_document")],
 [], ["wg_make_json_query", "wg_fetch", "wg_parse_json_document", "wg_delete_document"])
prop("C17", "Value comparison is a consistent total order",
 "Comparing stored values is antisymmetric, transitive and reflexive for all types (values of different types included), equal exactly when type and content are equal (namespaces of URIs and types of XML literals included, language tags of strings and type tags of blobs not significant, nested records compared to the documented depth), and orders numbers numerically, texts byte-wise, and dates and times chronologically. The outcome never depends on where or how the values are stored.",
 ["inputs"],
 "all pairs and triples over an alphabet holding several values of every type and storage class, including embedded extremes and nested records at each recursion depth",
 "tests compare a few pairs",
 ["Db/dbcompare.c", "Db/dbcompare.h"],
 [("three-way comparison", "Db/dbcompare.c wg_compare")],
 [], ["wg_compare", "wg_make_query", "wg_find_record"])

# ---------------------------------------------------------------- durability
prop("C18", "Replaying the journal reproduces the logged history",
 "If journalling is switched on for a database and the journal is later replayed into a copy of the database as it was when journalling started, the result has the same records, in content, links, and document metadata, as the logged database, for every history of operations that the journal covers. Replay is also correct when it places objects at other addresses than the original, when addresses were reused during the history, and when operations in the history had failed.",
 ["histories"],
 "all sequences of data operations (every value type, links, deletes, failed calls) to a depth bound, each journalled, replayed and compared; base states that force address translation",
 "the log test replays one fixed small journal",
 ["Db/dblog.c", "Db/dbdata.c", "Db/dbhash.c"],
 [("journal entries and offset translation", "Db/dblog.c wg_log_*, wg_replay_log, recover_*; Db/dbhash.c wg_ginthash_*")],
 [], ["wg_start_logging", "wg_stop_logging", "wg_replay_log"])
prop("C19", "A torn journal recovers exactly a prefix of the history or reports an error",
 "If the journal was cut off at any byte, replaying it stops with an error or restores exactly the state after some prefix of the logged operations, never a mixture and never anything that was not logged; a file that does not begin with the journal header is refused before anything changes. A failed write or open of the journal makes the operation, or the start of journalling, report an error rather than silently losing it, and leaves the journal written so far replayable.",
 ["crash_points", "fault_sequences"],
 "every byte position of journals of varied histories as crash point; foreign files; every write/open call of the journal failing or writing short",
 "the log test only replays intact journals",
 ["Db/dblog.c"],
 [("entry framing, magic, error returns", "Db/dblog.c recover_journal, check_journal, write_log_buffer, add_tran_offset")],
 [], ["wg_replay_log", "wg_start_logging"])
prop("C20", "Dump followed by import restores the identical database",
 "Dumping the database to a file and importing the file into another database of sufficient size, or later into the same one, yields exactly the state at the time of the dump: records, values, links, indexes, schema information and free space all behave identically afterwards. The dump leaves the source unchanged and concurrent readers undisturbed, and an import into a too small database is refused without changing it.",
 ["histories", "configurations"],
 "all short operation sequences before the dump, between dump and import and after the import, differential against the non-dumped twin; target databases of all relevant sizes and prior contents",
 "tests do not dump or import",
 ["Db/dbdump.c", "Db/crc1.h"],
 [("dump image with header and checksum", "Db/dbdump.c wg_dump, wg_import_dump, wg_check_dump")],
 [], ["wg_dump", "wg_import_dump"])
prop("C21", "A damaged or foreign dump file is rejected and memory stays untouched",
 "An import of a dump file that was truncated, altered in any bit, or written by an incompatible library or database is refused with an error and the existing database content stays exactly as it was and usable. An I/O error during an import is reported, as fatal if the memory may have been changed. A dump that could not be written completely reports an error.",
 ["fault_sequences", "crash_points"],
 "every truncation length on block boundaries and around them, every byte of the dump altered, header field combinations, every I/O call of dump and import failing",
 "tests do not import damaged dumps",
 ["Db/dbdump.c", "Db/crc1.h", "Db/dbmem.c"],
 [("header check and CRC before import", "Db/dbdump.c wg_check_dump, wg_import_dump; Db/dbmem.c wg_check_header_compat")],
 [], ["wg_import_dump", "wg_dump", "wg_check_dump"])
prop("C22", "Journal files are rotated safely and never overwrite or extend an older journal",
 "Starting the journal, stopping it, restarting it, dumping, replaying and importing dumps may happen in any order and from several attached processes. Each start of journalling gives a fresh journal, except that restarting a journal that was stopped continues it as long as it holds entries that no dump contains yet; earlier journals are kept under numbered names up to the configured number of backups, the oldest being replaced first; and every logged operation ends up in exactly the journal that was current when it was performed. Restoring the latest dump and then replaying the journal started with it gives the current state.",
 ["histories"],
 "all sequences to a depth bound of start/stop/write/replay/dump/import by two handles of one database",
 "the log test starts and stops once",
 ["Db/dblog.c", "Db/dbdump.c", "Db/dbmem.c"],
 [("rename chain of backups and journal serial", "Db/dblog.c backup_journal, open_journal, get_journal_fn, wg_start_logging")],
 [("logging.serial / handle serial", "detects a rotated journal from another process", "Db/dblog.c db_handle_logdata")],
 ["wg_start_logging", "wg_stop_logging", "wg_replay_log", "wg_dump", "wg_import_dump"])
prop("C23", "Attaching and deleting shared databases follows existence, size and mode rules",
 "Attaching by name creates the database exactly when none of that name exists (and creation is allowed), otherwise gives access to the very same data with its original size, and fails without side effects when a larger minimum size is demanded, when it must exist but does not, or when the segment is not a compatible database. After deletion the name is free again, distinct names are distinct databases, and a detached database keeps its content.",
 ["histories", "configurations"],
 "all sequences to a depth bound of attach variants (size 0, equal, larger, existing-only, logged, with mode), detach and delete over two names",
 "tests use a single local database",
 ["Db/dbmem.c"],
 [("shared memory segment lookup, size and header checks", "Db/dbmem.c wg_attach_memsegment, wg_attach_database, wg_attach_existing_database, wg_delete_database, wg_check_header_compat")],
 [], ["wg_attach_database", "wg_attach_existing_database", "wg_attach_memsegment", "wg_detach_database", "wg_delete_database", "wg_memmode"])

# ---------------------------------------------------------------- formats
prop("C24", "JSON documents survive import and export unchanged",
 "Importing a valid JSON document stores an equivalent structure (same nesting, order of array elements, keys, strings with all escapes and Unicode characters, numbers and literals), and exporting it gives JSON text that denotes the same value. The size of the document, the file or how the input arrives in pieces makes no difference.",
 ["inputs"],
 "all JSON texts up to a size bound over a token alphabet, all string escapes, key and string lengths across buffer limits, input sizes around the read block size, nesting to the supported depth",
 "tests import two or three fixed documents",
 ["Db/dbjson.c", "Db/dbschema.c", "json/"],
 [("streaming parser callbacks building records, printer", "Db/dbjson.c wg_parse_json_document, wg_parse_json_file, wg_print_json_document")],
 [], ["wg_parse_json_document", "wg_parse_json_file", "wg_parse_json_fragment", "wg_print_json_document"])
prop("C25", "Malformed JSON is rejected and the check function agrees with the parser",
 "A text that is not a valid JSON document is refused with an error by every import function, never crashes it and stores no document. The check function accepts exactly the texts which the import accepts, and never modifies the database.",
 ["inputs"],
 "all token strings and all byte-level truncations and single mutations up to a size bound; nesting beyond the limit",
 "tests contain a few malformed samples",
 ["Db/dbjson.c", "json/"],
 [("yajl lexer/parser, check callbacks", "Db/dbjson.c wg_check_json, run_json_parser; json/yajl_all.c")],
 [], ["wg_check_json", "wg_parse_json_document", "wg_parse_json_file"])
prop("C26", "Document and object helpers find and delete precisely what belongs to a document",
 "The document of any part of a stored document is found from that part, and deleting a document removes all its records and nothing else, or fails leaving everything in place. Objects and arrays built by the helper calls have exactly the given members and are recognisable as such, and parameter objects never become part of the data.",
 ["histories", "inputs"],
 "all document shapes up to a size bound: every part looked up, every document deleted in every order, with indexes and with parts referenced from outside",
 "tests delete one document",
 ["Db/dbschema.c", "Db/dbdata.c"],
 [("schema bits in record metadata, recursive delete, upward search", "Db/dbschema.c wg_create_object, wg_create_array, wg_create_triple, wg_find_document, wg_delete_document")],
 [], ["wg_find_document", "wg_delete_document", "wg_create_array", "wg_create_object", "wg_create_triple"])
prop("C27", "CSV export followed by import reproduces the table",
 "Exporting a database whose values have a CSV representation and importing the file into an empty database gives the same number of records with the same fields, for all texts including those with separators, quotes, line breaks and empty fields. Import accepts any file without crashing or losing rows, whatever its line ending, field count and field length within the documented limits.",
 ["inputs"],
 "all tables up to a size bound over an alphabet of tricky field values; all byte strings up to a length bound over the CSV control characters as import files",
 "tests do not touch CSV",
 ["Db/dbutil.c"],
 [("CSV writer and reader state machine, type detection", "Db/dbutil.c wg_export_db_csv, wg_import_db_csv, fread_csv, snprint_value_csv, csv_escaped_str")],
 [], ["wg_export_db_csv", "wg_import_db_csv"])
prop("C28", "Date and time conversions are exact over their whole range",
 "Converting a calendar date or a clock time to the stored number and back returns the same date or time, consecutive days map to consecutive numbers, and text output in ISO format parsed again gives the same value. Invalid dates, times and texts are refused.",
 ["inputs"],
 "every day of the supported range and every hundredth of a second of a day, and every ISO text over a digit/separator alphabet near the valid format",
 "tests convert a handful of dates",
 ["Db/dbdata.c"],
 [("calendar arithmetic", "Db/dbdata.c wg_ymd_to_date, wg_date_to_ymd, wg_hms_to_time, wg_time_to_hms, wg_strp_iso_date, wg_strp_iso_time, wg_strf_iso_datetime")],
 [], ["wg_ymd_to_date", "wg_date_to_ymd", "wg_hms_to_time", "wg_time_to_hms", "wg_strp_iso_date", "wg_strp_iso_time", "wg_strf_iso_datetime"])
prop("C29", "Typed parsing and printing of single values is deterministic and bounded",
 "Parsing a text into a value picks the documented type and value from the text alone (null, integer, double, date, time or string), identically for stored values and query parameters and independent of earlier calls. Printing any value never writes beyond the given buffer and always terminates the text, truncating when it does not fit.",
 ["inputs", "histories"],
 "all texts up to a length bound over digits, sign, separators and letters, each after each kind of earlier call; every value type printed into every buffer size",
 "tests parse a few texts",
 ["Db/dbutil.c"],
 [("type detection and bounded printing", "Db/dbutil.c wg_parse_and_encode, wg_parse_and_encode_param, parse_input_type, wg_snprint_value")],
 [], ["wg_parse_and_encode", "wg_parse_and_encode_param", "wg_snprint_value"])
prop("C30", "References into another database read through and never modify it",
 "A local database that registered another one can store references to the other's records and values, which read back as exactly that data, and storing, overwriting, deleting them or discarding the local database leaves the other database completely unchanged. Use of external data that is not supported (not registered, shared target, index, dump, deleting an external record) is refused with an error and no effect on either database.",
 ["histories", "inputs"],
 "all sequences of storing/overwriting/clearing/deleting external and local values over two databases to a depth bound, the other database compared byte by byte",
 "tests store a few references",
 ["Db/dbdata.c", "Db/dbmem.c", "Db/dbindex.c"],
 [("offset translation between segments and owner detection", "Db/dbdata.c wg_encode_external_data, wg_translate_hdroffset, get_ptr_owner; Db/dbmem.c wg_register_external_db")],
 [], ["wg_encode_external_data", "wg_register_external_db", "wg_set_field", "wg_delete_record"])
prop("C31", "The scratch memory pool never hands out overlapping or too small memory",
 "Every block obtained from a memory pool is at least as large as requested, aligned, disjoint from all other blocks and unchanged until the pool is freed; list and atom cells built in it read back as built. Any sequence of request sizes works until real memory is exhausted, then requests fail instead of corrupting memory.",
 ["histories", "inputs"],
 "all sequences of request sizes around alignment, block and growth limits to a depth bound; every allocation failing",
 "tests only use the pool indirectly",
 ["Db/dbmpool.c"],
 [("bump allocation with growing blocks", "Db/dbmpool.c wg_create_mpool, wg_alloc_mpool, extend_mpool, wg_mkpair, wg_mkatom")],
 [], ["wg_create_mpool", "wg_alloc_mpool", "wg_free_mpool"])
prop("C32", "Query parameters leave the database untouched and compare like stored values",
 "Preparing, using and releasing query parameters of any type never changes the database, works without a lock, and a parameter compares with stored values exactly as the same value stored in the database would. All memory of queries and parameters is returned when they are released.",
 ["inputs", "histories"],
 "every value of the mixed-type alphabet as a parameter against every stored value with every operator; database image compared before and after; every sequence of prepare/use/release to a depth bound with allocation accounting",
 "tests prepare integer and string parameters only",
 ["Db/dbquery.c", "Db/dbdata.c"],
 [("local storage outside the segment addressed by offsets", "Db/dbquery.c wg_encode_query_param_*, wg_free_query_param, wg_free_query")],
 [], ["wg_encode_query_param_*", "wg_free_query_param"])
prop("C33", "The prover reports a proof only for contradictory input and finds small ones",
 "When the reasoner reports that a proof was found, the given clause set is really contradictory, and for small sets without function symbols whose clauses are ground or Horn it reports a proof whenever the set is contradictory and otherwise ends without one. Values count as the same term exactly if they are equal. Reading the clause file stores exactly the clauses written in it.",
 ["inputs"],
 "all sets of clauses up to a size bound over a small vocabulary, decided by brute-force ground truth",
 "tests run a dozen fixed problems",
 ["Reasoner/rgenloop.c", "Reasoner/derive.c", "Reasoner/unify.c", "Reasoner/subsume.c", "Reasoner/clstore.c", "Parser/dbparse.c"],
 [("resolution with subsumption and simplification", "Reasoner/rgenloop.c wr_genloop; Reasoner/derive.c; Reasoner/subsume.c; Reasoner/unify.c")],
 [], ["wg_run_reasoner", "wg_import_otter_file"])
prop("C34", "The Python binding mirrors the database and always releases its locks",
 "Everything stored through the Python module reads back as the equal Python value of the right type, record and query objects behave as the underlying calls do, and cursors fetch exactly the matching records. Every Python-level operation, whether it succeeds or raises, leaves no lock held, no file open and no reference dangling, unless a transaction was explicitly started and not ended. Dumping, loading, logging and replaying through the module act as the underlying calls do: failures raise, and dump plus journal give back the table.",
 ["histories", "inputs"],
 "all sequences of the high-level operations (with each failing variant) to a depth bound, with a lock probe after each; all values of a type alphabet round-tripped",
 "the Python tests exercise one success path per call",
 ["Python/wgdbmodule.c", "Python/whitedb.py"],
 [("argument conversion, lock/unlock around operations", "Python/wgdbmodule.c; Python/whitedb.py Connection, Cursor, Record")],
 [], ["wgdb.*", "whitedb.Connection", "whitedb.Cursor", "whitedb.Record"])
prop("C35", "The web server answers every request correctly and survives any input",
 "The database web server answers a well-formed count, search, record-id or delete request with exactly the rows that match, in database order, from the requested start and up to the requested count, as well-formed JSON (padded for jsonp) or CSV with every value escaped in the requested way and records expanded to the requested depth; a delete removes exactly the rows it reports. Any other request - malformed, oversized, unauthorised, or run out of memory - is answered with an error and changes nothing. No request can crash the server, read or write outside its buffers or records, leak memory or an attachment, or leave a lock held; the database is read only under a read or write lock and modified only under the write lock. Databases, addresses and tokens restrict access exactly as the configuration file says.",
 ["inputs"],
 "all combinations of request parameters over small tables compared with a reference evaluation; all token sequences, truncations and one-character changes of requests; all sizes around every limit; all configurations over small lists of addresses, tokens and databases",
 "there are no tests for the server",
 ["Server/dserve.c", "Server/dserve_util.c", "Server/dserve_net.c"],
 [("query-string parsing, result printing, authorization", "Server/dserve.c process_query, search, recids; Server/dserve_util.c; Server/dserve_net.c")],
 [], ["dserve query processor and HTTP handler (not the unfinished insert and update operations, https, CGI and command line)"])
prop("C36", "Database calls reject invalid handles and arguments without side effects",
 "Every public call given a null handle, a handle without a database or a handle to foreign memory returns its error value. So do calls given an out-of-range field number or record length, a column number or condition that does not exist, an unknown index id or type, an illegal encoded value in a query, a NULL text or too small buffer, or, for non-text decoders, a value of another type. Such a call changes nothing in the database or the foreign memory, does not crash and leaves no lock held. (Record, document and query pointers themselves must be valid.)",
 ["inputs"],
 "every public call x every argument position replaced by each kind of invalid value, with the database image compared before and after",
 "tests cover a few of these combinations",
 ["Db/dbdata.c", "Db/dballoc.c", "Db/dbquery.c", "Db/dbindex.c", "Db/dbjson.c"],
 [("checks at the start of each call", "Db/dbdata.c recordcheck, dbcheck; Db/*.c")],
 [], ["the public API"])
prop("C37", "The wgdb command line tool does exactly what each command says",
 "Each wgdb command acts on the database it names as its help text says and on no other: add, select, query, del, exportcsv, importcsv, export, import, replay, addjson, findjson, createindex, createhash, dropindex, listindex, info, create and free print and store what a model of typed rows and documents predicts. A command with missing, malformed or unsupported arguments, without its file or database, refused the lock or out of memory prints a message and leaves rows, indexes and databases as they were. Reads hold a lock, changes the write lock (importing a dump excepted); every lock is released and the database detached. Imports of clauses and reasoning are only checked for locks, exit codes and messages.",
 ["inputs", "histories"],
 "all sequences of command lines to a bounded depth given to the tool's real main(), from several starting databases, with every lock refused and with memory running out",
 "no test runs the tool",
 ["Main/wgdb.c"],
 [("commands and argument parsing", "Main/wgdb.c main, make_arglist, del_records, add_row, parse_shmsize")],
 [], ["the wgdb program"])
prop("C38", "The Java binding behaves like the database it wraps",
 "Through the Java classes, records, integer, text and byte-array fields, deletion, record-by-record scans, equality and condition queries with a row limit, read and write locks, object storage and local or named databases act exactly as the database underneath: what was stored is read back unchanged (integers, text in any script, any bytes), a scan or query returns exactly the matching records, once each, and null at the end, and locks are really held until ended. A field read as text or bytes when it holds another kind gives null. A refused call (record length, field number or query condition out of range, null values, memory exhausted, no database) returns null or a negative code, throws nothing, and neither crashes nor changes or leaks anything in the database or on the heap. Freeing a query twice is harmless.",
 ["inputs", "histories"],
 "all sequences of calls of the Java classes to a bounded depth on the real native library, every memory request failing in turn, databases filled until nothing fits, every constructor with and without an existing or attachable database",
 "there are no tests for the binding",
 ["java/jni/src/native/whitedbDriver.c", "java/jni/src/whitedb/driver/WhiteDB.java"],
 [("JNI functions", "java/jni/src/native/whitedbDriver.c makeQuery, freeQuery, setRecordBlobField, getBlobFieldValue, getDatabase"), ("storing on failure", "Db/dbdata.c wg_set_str_field")],
 [], ["whitedb.driver.WhiteDB"])
prop("C39", "Running out of process memory (heap) fails cleanly",
 "When a request for process memory is refused, at any point of an operation, alone or with all later ones, the operation reports an error or does what it does with all memory, completely and correctly; it never crashes, gives a wrong or shortened answer, or leaves an index without an entry. It returns all the memory it took, leaves no file open and the database unlocked; after an error the stored content and the storage used are as before, and the same call made again with the memory back succeeds. This holds for queries and document queries, query parameters, parsing of values, creating and dropping and updating indexes, writing and deleting records, dumping, checking and importing dumps, CSV import, attaching a local database, listing indexes, logging and journal replay (a refused CSV import or replay may leave the part done so far, earlier content intact). Not covered: parsing and printing JSON text (the bundled parser does not check), functions that print and have no way to report an error, and undoing a field write refused on a hash-indexed column when every later request is refused too.",
 ["fault_sequences", "inputs"],
 "every operation in every state reached by all operation sequences to a depth bound, once for every heap request it makes with that request refused, alone and with all later ones",
 "the tests never meet a refused heap request",
 ["Db/dbquery.c", "Db/dbhash.c", "Db/dbindex.c", "Db/dbjson.c", "Db/dblog.c", "Db/dbdump.c", "Db/dbmpool.c"],
 [("handling of refused memory", "error returns after malloc in Db/dbquery.c, Db/dbhash.c wg_decode_for_hashing, wg_ginthash_init, Db/dbindex.c hash_add_row, Db/dblog.c recover_encode, wg_replay_log, Db/dbdump.c wg_dump, Db/dbmpool.c")],
 [], ["wg_make_query", "wg_make_json_query", "wg_set_field", "wg_create_multi_index", "wg_dump", "wg_replay_log", "wg_import_db_csv"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
