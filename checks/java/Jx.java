// Explorer for the Java binding (C38): every sequence of calls to a depth on local databases, compared with a model.
import whitedb.driver.WhiteDB; import whitedb.holder.*; import whitedb.holder.Record; import whitedb.util.ArgListEntry;
import java.util.*; import java.io.*; import java.nio.*; import java.nio.file.*;
public class Jx {
    static Map<String, String> opt = new HashMap<>(); static long evals, nontriv, calls; static List<String> samples = new ArrayList<>(); static boolean failed; static int[] replay; static MappedByteBuffer tr;
    static class Bad extends RuntimeException { String sig; Bad(String s, String m) { super(m); sig = s; } }
    static void need(boolean c, String sig, String msg, Object... a) { if (!c) throw new Bad(sig, a.length > 0 ? String.format(msg, a) : msg); }
    static String q(String s) { StringBuilder b = new StringBuilder("\""); for (char c : s.toCharArray()) { if (c == '"' || c == '\\') b.append('\\').append(c); else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c)); else b.append(c); } return b.append('"').toString(); }
    static void trace(int[] path, String note) { if (tr == null) return; tr.putInt(0, path.length); for (int i = 0; i < path.length; i++) tr.putInt(4 + 4 * i, path[i]); byte[] n = note.getBytes(); int m = Math.min(n.length, 1900); for (int i = 0; i < m; i++) tr.put(16004 + i, n[i]); tr.put(16004 + m, (byte) 0); }
    static void report(String sig, String msg, String desc, int[] path) { System.out.println("FAIL {\"sig\":" + q(sig) + ",\"msg\":" + q(msg) + ",\"desc\":" + q(desc) + ",\"path\":" + Arrays.toString(path) + "}"); failed = true; }
    static void finish() { StringBuilder s = new StringBuilder(); for (String x : samples) s.append(s.length() > 0 ? "," : "").append(q(x)); System.out.println("STATS {\"states\":0,\"transitions\":0,\"traces\":0,\"evaluations\":" + evals + ",\"nontrivial\":" + nontriv + ",\"dedup\":0,\"extra\":{\"calls\":" + calls + "},\"outcomes\":{},\"known\":{},\"samples\":[" + s + "]}"); System.out.flush(); Runtime.getRuntime().halt(failed ? 1 : 0); }
    static int num(String k, int d) { return opt.containsKey(k) ? Integer.parseInt(opt.get(k)) : d; }

    // ---- reaching the connection's database
    static java.lang.reflect.Field fdb; static { try { fdb = WhiteDB.class.getDeclaredField("database"); fdb.setAccessible(true); } catch (Exception e) { throw new RuntimeException(e); } }
    static long ptr(WhiteDB d) { try { return ((Database) fdb.get(d)).pointer; } catch (Exception e) { throw new RuntimeException(e); } }

    // ---- the model: a value is null, Integer, String or byte[]
    static int rank(Object v) { return v == null ? 0 : v instanceof Integer ? 1 : v instanceof String ? 2 : 3; }
    static boolean same(Object a, Object b) { return a instanceof byte[] && b instanceof byte[] ? Arrays.equals((byte[]) a, (byte[]) b) : Objects.equals(a, b); }
    static int cmpInt(Object v, int x) { return rank(v) != 1 ? Integer.compare(rank(v), 1) : Integer.compare((Integer) v, x); }
    static boolean holds(Object[] r, ArgListEntry a) {
        if (a.column >= r.length) return false; int c = cmpInt(r[a.column], a.value);
        switch (a.cond) { case 1: return c == 0; case 2: return c != 0; case 4: return c < 0; case 8: return c > 0; case 16: return c <= 0; default: return c >= 0; }
    }
    static class W { // a database and its model
        WhiteDB db; LinkedHashMap<Long, Object[]> rows = new LinkedHashMap<>(); String empty; long live0; StringBuilder hist = new StringBuilder();
        W(int size) { live0 = Probe.live(); db = new WhiteDB(size, true); need(ptr(db) != 0, "open", "no database of %d bytes", size); empty = Probe.fsck(ptr(db)); }
        Record rec(boolean last) { if (rows.isEmpty()) return null; Long p = null; for (Long x : rows.keySet()) { p = x; if (!last) break; } Record r = new Record(); r.pointer = p; return r; }
        void check(String after) {
            String f = Probe.fsck(ptr(db)); need(f.startsWith("="), "heap", "%s: storage areas damaged: %s", after, f);
            need(Probe.lock(ptr(db)) == 0, "lock", "%s: the database is left locked", after);
            Set<Long> seen = new HashSet<>(); Record r = db.getFirstRecord(); calls++;
            while (r != null) {
                need(r.pointer != 0, "null-record", "%s: the scan returns a record that does not exist", after);
                Object[] m = rows.get(r.pointer); need(m != null, "scan", "%s: the scan returns a record that was not created or was deleted", after); need(seen.add(r.pointer), "scan", "%s: the scan returns a record twice", after);
                need(db.getRecordLength(r) == m.length, "length", "%s: the record length is %d instead of %d", after, db.getRecordLength(r), m.length);
                for (int i = 0; i < m.length; i++) read(r, i, m[i], after);
                for (int i : new int[]{-1, m.length, 9, Integer.MAX_VALUE, Integer.MIN_VALUE}) { need(db.getStringFieldValue(r, i) == null, "range", "%s: text in field %d", after, i); need(db.getBlobFieldValue(r, i) == null, "range", "%s: bytes in field %d", after, i); db.getIntFieldValue(r, i); }
                Record n = db.getNextRecord(r); calls++; r = n;
            }
            need(seen.size() == rows.size(), "scan", "%s: the scan returns %d of %d records", after, seen.size(), rows.size());
        }
        void read(Record r, int i, Object v, String after) {
            calls += 3; String s = db.getStringFieldValue(r, i); byte[] b = db.getBlobFieldValue(r, i); int n = db.getIntFieldValue(r, i);
            need(same(s, v instanceof String ? v : null), "string", "%s: the text in field %d is %s instead of %s", after, i, s, v); need(same(b, v instanceof byte[] ? v : null), "bytes", "%s: the bytes in field %d are %s instead of %s", after, i, Arrays.toString(b), v instanceof byte[] ? Arrays.toString((byte[]) v) : "none");
            if (v instanceof Integer) need(n == (Integer) v, "int", "%s: the number in field %d is %d instead of %s", after, i, n, v);
            int t = Probe.type(ptr(db), r.pointer, i); need(t == new int[]{1, 3, 5, 8}[rank(v)], "type", "%s: field %d has type %d", after, i, t);
        }
        void create(int n) { long h = Probe.hash(ptr(db)); Record r = db.createRecord(n); calls++; if (n < 0 || n > 100000) { need(r == null, "create", "a record of %d fields is created (%s)", n, r == null ? "" : "pointer " + r.pointer); need(h == Probe.hash(ptr(db)), "create", "a refused creation changes the database"); } else { need(r != null && r.pointer != 0, "create", "no record of %d fields", n); need(!rows.containsKey(r.pointer), "create", "an existing record is returned"); rows.put(r.pointer, new Object[n]); } }
        int put(Record r, int f, Object v, int kind) { calls++; return kind == 1 ? db.setRecordIntField(r, f, (Integer) v) : kind == 2 ? db.setRecordStringField(r, f, (String) v) : db.setRecordBlobField(r, f, (byte[]) v); }
        void set(boolean last, int f, Object v, int kind) {
            Record r = rec(last); if (r == null) return; Object[] m = rows.get(r.pointer); boolean ok = f >= 0 && f < m.length && v != null;
            String before = Probe.fsck(ptr(db)); int rc = put(r, f, v, kind);
            if (ok) { need(rc == 0, "set", "setting field %d fails (%d)", f, rc); m[f] = v; } else { need(rc < 0, "set", "setting field %d of %d to %s returns %d", f, m.length, v == null ? "null" : rank(v) == 3 ? "no bytes" : v, rc); need(before.equals(Probe.fsck(ptr(db))), "leak", "a refused value stays in the database: %s became %s", before, Probe.fsck(ptr(db))); }
        }
        void del(boolean last) { Record r = rec(last); if (r == null) return; calls++; int rc = db.deleteRecord(r); need(rc == 0, "delete", "deleting a record fails (%d)", rc); rows.remove(r.pointer); }
        boolean validq(ArgListEntry[] a) { if (a != null && a.length == 0) return false; if (a != null) for (ArgListEntry x : a) { if (x == null || x.column < 0 || Integer.bitCount(x.cond) != 1 || x.cond < 0 || x.cond > 32) return false; } return true; }
        void query(ArgListEntry[] a, Record m, long limit) {
            String before = Probe.fsck(ptr(db)); long l0 = Probe.live(); calls++;
            Query qq = m != null ? (limit > 0 ? db.makeQuery(m, limit) : db.makeQuery(m)) : limit != 0 ? db.makeQuery(a, limit) : db.makeQuery(a);
            if (m == null ? !validq(a) : rows.get(m.pointer).length == 0) { need(qq == null, "query", "a query without valid conditions is accepted"); need(Probe.live() == l0, "leak", "a refused query leaves %d blocks of memory", Probe.live() - l0); return; }
            need(qq != null, "query", "the query is refused");
            Set<Long> want = new HashSet<>(); for (Map.Entry<Long, Object[]> e : rows.entrySet()) { boolean ok = true; if (m != null) { Object[] t = rows.get(m.pointer); ok = e.getValue().length >= t.length; for (int i = 0; ok && i < t.length; i++) ok = same(t[i], e.getValue()[i]); } else if (a != null) for (ArgListEntry x : a) ok &= holds(e.getValue(), x); if (ok) want.add(e.getKey()); }
            Set<Long> got = new HashSet<>(); Record r; while ((r = db.fetchQuery(qq)) != null) { calls++; need(got.add(r.pointer), "query", "a row is returned twice"); need(want.contains(r.pointer), "query", "a row that does not match is returned"); }
            need(got.size() == (limit > 0 ? Math.min(limit, want.size()) : want.size()), "query", "%d rows instead of %d (limit %d)", got.size(), want.size(), limit);
            need(db.fetchQuery(qq) == null, "query", "a finished query returns a row");
            db.freeQuery(qq); need(Probe.live() == l0, "leak", "a query leaves %d blocks of memory", Probe.live() - l0); need(before.equals(Probe.fsck(ptr(db))), "leak", "a query leaves something in the database");
            if (freetwice) { db.freeQuery(qq); need(Probe.live() == l0, "double-free", "freeing a query again frees %d more blocks", l0 - Probe.live()); need(db.fetchQuery(qq) == null, "freed", "a freed query returns a row"); }
        }
        void end() { while (!rows.isEmpty()) del(false); check("after deleting everything"); String f = Probe.fsck(ptr(db)); need(same(words(f), words(empty)), "leak", "after deleting every record the database keeps %s instead of %s", f, empty); db.close(); need(Probe.live() == live0, "leak", "closing leaves %d blocks of memory", Probe.live() - live0); }
        static String words(String f) { return f; }
    }
    static boolean freetwice = true;
    interface Op { void run(W w); }
    static List<String> names = new ArrayList<>(); static List<Op> ops = new ArrayList<>();
    static void op(String n, Op o) { names.add(n); ops.add(o); }
    static ArgListEntry A(int c, int k, int v) { return new ArgListEntry(c, k, v); }
    static void qop(String n, long lim, ArgListEntry... a) { op(n, w -> w.query(a, null, lim)); }
    static String rep(String s, int n) { StringBuilder b = new StringBuilder(); for (int i = 0; i < n; i++) b.append(s); return b.toString(); }
    static byte[] bytes(int n) { byte[] b = new byte[n]; for (int i = 0; i < n; i++) b[i] = (byte) (i * 7 + i / 256); return b; }
    static void alphabet(boolean small) {
        op("create 2", w -> w.create(2)); op("create 1", w -> w.create(1)); if (!small) { op("create 0", w -> w.create(0)); op("create -1", w -> w.create(-1)); op("create 5000000", w -> w.create(5000000)); op("create 2147483647", w -> w.create(Integer.MAX_VALUE)); }
        for (boolean last : new boolean[]{false, true}) { String s = last ? "last" : "first";
            Object[] vals = small ? new Object[]{5, "abc", rep("x\u00e4\u4e2d\ud83d\ude00", 30), bytes(300)} : new Object[]{5, -1, 0, Integer.MAX_VALUE, Integer.MIN_VALUE, "abc", "", "a\u0000b", rep("x\u00e4\u4e2d\ud83d\ude00", 30), "\u00e4", new byte[]{65, 0, -7}, new byte[]{0}, bytes(300), new byte[0]};
            for (Object v : vals) for (int f : small ? new int[]{0, 1} : last ? new int[]{1, 9} : new int[]{0, -1}) { if (last && rank(v) == 1 && f == 9 && (Integer) v != 5) continue; op("set " + s + "[" + f + "] " + (v instanceof byte[] ? ((byte[]) v).length + " bytes" : v instanceof String && ((String) v).length() > 9 ? "long text" : v), w -> w.set(last, f, v, rank(v))); }
            op("delete " + s, w -> w.del(last)); op("match " + s, w -> { Record r = w.rec(last); if (r != null) w.query(null, r, 0); }); if (!small) op("match " + s + " limit 1", w -> { Record r = w.rec(last); if (r != null) w.query(null, r, 1); });
        }
        if (!small) { op("set first[0] null text", w -> w.set(false, 0, null, 2)); op("set first[0] null bytes", w -> w.set(false, 0, null, 3));
            for (int k : new int[]{1, 2, 4, 8, 16, 32}) qop("query 0 cond " + k + " 5", 0, A(0, k, 5)); qop("query 0 cond 3 5", 0, A(0, 3, 5)); qop("query 0 cond 0 5", 0, A(0, 0, 5)); qop("query -1 = 5", 0, A(-1, 1, 5)); qop("query 9 = 5", 0, A(9, 1, 5)); qop("query 1 != 7", 0, A(1, 2, 7)); qop("query 0 >= -1 and 0 < 6", 0, A(0, 32, -1), A(0, 4, 6)); qop("query 0 = 5, 1 cond 99", 0, A(0, 1, 5), A(1, 99, 5)); qop("query min", 0, A(0, 1, Integer.MIN_VALUE)); qop("query max", 0, A(0, 1, Integer.MAX_VALUE)); qop("query nothing", 0); qop("query null entry", 0, A(0, 1, Integer.MAX_VALUE), null); qop("query 0 > -5 limit 1", 1, A(0, 8, -5)); qop("query all limit 2", 2); qop("query all limit -1", -1); op("query null", w -> w.query(null, null, 0));
            op("read lock", w -> { long l = w.db.startRead(); need(l != 0, "lock", "no read lock"); need(Probe.lock(ptr(w.db)) != 0, "lock", "no lock is held"); need(w.db.endRead(l) != 0, "lock", "the read lock cannot be released"); }); op("write lock", w -> { long l = w.db.startWrite(); need(l != 0, "lock", "no write lock"); need(Probe.lock(ptr(w.db)) != 0, "lock", "no lock is held"); need(w.db.endWrite(l) != 0, "lock", "the write lock cannot be released"); }); op("read locks", w -> { long l = w.db.startRead(), m = w.db.startRead(); need(l != 0 && m != 0, "lock", "no second read lock"); w.db.endRead(l); need(Probe.lock(ptr(w.db)) != 0, "lock", "the second lock is gone"); w.db.endRead(m); });
            op("other database", w -> { W o = new W(250000); o.create(1); o.set(false, 0, "other", 2); o.check("other"); o.end(); }); }
        else { qop("query 0 = 5", 0, A(0, 1, 5)); qop("query 0 > 5", 0, A(0, 8, 5)); qop("query 1 <= 5", 0, A(1, 16, 5)); qop("query all limit 1", 1); }
    }
    static void sequences(int depth, boolean small) {
        int n = ops.size(); long total = 1; for (int i = 0; i < depth; i++) total *= n; int sh = num("shard", 0), ns = num("nshards", 1); int starts = small ? 1 : 3;
        for (long k = 0; k < total * starts && !failed; k++) {
            int[] path = new int[depth + 1]; long x = k; for (int i = depth; i > 0; i--) { path[i] = (int) (x % n); x /= n; } path[0] = (int) x;
            if (replay != null) path = replay; else if (k % ns != sh) continue;
            seq(path); if (replay != null) return;
        }
    }
    static void seq(int[] path) {
        StringBuilder d = new StringBuilder(); trace(path, "calls"); if (path[0] == 1) d.append("start with 2 records; "); if (path[0] == 2) d.append("start with 3 records of every type; "); for (int i = 1; i < path.length; i++) d.append(names.get(path[i])).append("; "); evals++; nontriv++; if (evals % 977 == 1 && samples.size() < 6) samples.add(d.toString());
        trace(path, d.toString());
        try { W w = new W(250000); if (path[0] > 0) { w.create(2); w.set(false, 0, 5, 1); w.create(2); w.set(true, 0, "abc", 2); w.set(true, 1, 7, 1); } if (path[0] == 2) { w.create(3); w.set(true, 0, -1, 1); w.set(true, 1, bytes(300), 3); w.set(true, 2, rep("y", 200), 2); }
            w.check("start"); for (int i = 1; i < path.length; i++) { ops.get(path[i]).run(w); w.check("after " + names.get(path[i])); } w.end(); }
        catch (Bad b) { report(b.sig, b.getMessage(), d.toString(), path); } catch (RuntimeException | Error e) { report("exception", e.toString() + " " + Arrays.toString(e.getStackTrace()), d.toString(), path); }
    }
    interface Case { void run(); }
    static int caseno; static void one(String d, Case c) { int k = caseno++; if (failed || (replay != null ? replay[0] != k : k % num("nshards", 1) != num("shard", 0))) return; evals++; nontriv++; if (samples.size() < 6) samples.add(d); trace(new int[]{k}, d); try { c.run(); } catch (Bad b) { report(b.sig, b.getMessage(), d, new int[]{k}); } catch (RuntimeException | Error e) { report("exception", e.toString() + " " + Arrays.toString(e.getStackTrace()), d, new int[]{k}); } }
    static void memory() {
        for (int k = 0; k < 12; k++) for (int kind = 0; kind < 5; kind++) { int kk = k, kd = kind; one("memory request number " + k + " of query " + kind + " fails", () -> {
            W w = new W(250000); w.create(2); w.set(false, 0, 5, 1); w.create(1); long l0 = Probe.live(); String before = Probe.fsck(ptr(w.db));
            Probe.failat(kk); Query q = kd == 0 ? w.db.makeQuery(w.rec(false)) : kd == 1 ? w.db.makeQuery(w.rec(false), 1) : kd == 2 ? w.db.makeQuery(new ArgListEntry[]{A(0, 1, 5), A(1, 2, 9)}) : kd == 3 ? w.db.makeQuery(new ArgListEntry[]{A(0, 8, 1)}, 1) : w.db.makeQuery(new ArgListEntry[0]); Probe.failat(-1);
            if (q == null) need(Probe.live() == l0, "leak", "a query refused for lack of memory leaves %d blocks", Probe.live() - l0); else { while (w.db.fetchQuery(q) != null) calls++; w.db.freeQuery(q); need(Probe.live() == l0, "leak", "a query leaves %d blocks", Probe.live() - l0); }
            need(before.equals(Probe.fsck(ptr(w.db))), "leak", "a query leaves something in the database"); w.check("end"); w.end(); }); }
        for (int k = 0; k < 6; k++) { int kk = k; one("memory request number " + k + " of opening a database fails", () -> { long l0 = Probe.live(); Probe.failat(kk); WhiteDB d = new WhiteDB(250000, true); Probe.failat(-1); unusable(d, l0); }); }
        one("a database of 2000 bytes", () -> { long l0 = Probe.live(); unusable(new WhiteDB(2000, true), l0); }); one("a database of -1 bytes", () -> { long l0 = Probe.live(); unusable(new WhiteDB(-1, true), l0); });
        for (int len : new int[]{1, 5, 20, 100, 1000}) for (int kind = 0; kind < 4; kind++) { int kd = kind; one("records of " + len + " fields filled with values of kind " + kind + " until the database is full", () -> {
            W w = new W(200000); int fails = 0; for (int n = 0; n < 20000 && fails < 4; n++) { Record r = w.db.createRecord(len); calls++; if (r == null) { fails++; continue; } need(r.pointer != 0, "null-record", "a full database returns a record that does not exist"); w.rows.put(r.pointer, new Object[len]);
                for (int f = 0; f < Math.min(len, 6) && kd > 0; f++) { Object v = kd == 1 ? (Object) (n * 70000 + f) : kd == 2 ? rep("t", 40 + n % 50) + n + "," + f : (Object) bytes(100 + n % 200); String before = Probe.fsck(ptr(w.db)); int rc = w.put(r, f, v, kd); if (rc == 0) w.rows.get(r.pointer)[f] = v; else { fails++; need(before.equals(Probe.fsck(ptr(w.db))), "leak", "a value that did not fit stays in the database"); } } }
            need(fails > 0, "full", "the database never fills up"); w.check("full"); w.query(new ArgListEntry[]{A(0, 2, 1)}, null, 0); w.del(false); w.create(Math.min(len, 1)); w.check("after deleting one"); w.end(); }); }
    }
    static void unusable(WhiteDB d, long l0) {
        if (ptr(d) != 0) { Record r = d.createRecord(1); need(r != null, "open", "a new database takes no record"); d.close(); need(Probe.live() == l0, "leak", "closing leaves %d blocks", Probe.live() - l0); return; }
        Record z = new Record(); need(d.createRecord(1) == null, "null-record", "a record is created without a database"); need(d.getFirstRecord() == null, "null-record", "a record is found without a database"); need(d.getNextRecord(z) == null, "null-record", "a record is found without a database"); need(d.deleteRecord(z) != 0, "open", "deleting without a database succeeds"); need(d.setRecordIntField(z, 0, 1) != 0 && d.setRecordStringField(z, 0, "a") != 0 && d.setRecordBlobField(z, 0, new byte[]{1}) != 0, "open", "setting a field without a database succeeds"); need(d.getRecordLength(z) < 0, "open", "a record has a length without a database"); d.getIntFieldValue(z, 0); need(d.getStringFieldValue(z, 0) == null && d.getBlobFieldValue(z, 0) == null, "open", "a field is read without a database"); need(d.makeQuery(new ArgListEntry[]{A(0, 1, 5)}) == null, "open", "a query is made without a database"); need(d.startRead() == 0 && d.startWrite() == 0, "open", "a lock is taken without a database"); d.close(); need(Probe.live() == l0, "leak", "a failed opening leaves %d blocks", Probe.live() - l0);
    }
    static void named() {
        for (int refuse = 0; refuse < 2; refuse++) for (int k = 0; k < 9; k++) for (int first = 0; first < 2; first++) { int rf = refuse, kk = k, ff = first; one("constructor " + k + (rf > 0 ? ", the database cannot be attached" : "") + (ff > 0 ? ", it exists" : ""), () -> {
            long l0 = Probe.live(); String[] nm = {null, null, "7", "7", null, null, "", "x\u00e4", null}; int[] sz = {0, 260000, 0, 260000, 270000, 0, 0, 0, 0}; WhiteDB o = null;
            if (ff > 0) o = nm[kk] == null ? new WhiteDB() : new WhiteDB(nm[kk]); Probe.calls(); Probe.refuse(rf > 0);
            WhiteDB d = kk == 0 ? new WhiteDB() : kk == 1 ? new WhiteDB(260000) : kk == 3 ? new WhiteDB("7", 260000) : kk == 4 ? new WhiteDB(270000, false) : kk == 5 ? new WhiteDB(false) : kk == 8 ? new WhiteDB((String) null) : new WhiteDB(nm[kk]); Probe.refuse(false);
            String want = "attach(" + (nm[kk] == null ? "NULL" : nm[kk]) + "," + sz[kk] + ")", got = Probe.calls(); need(got.equals(want), "attach", "%s instead of %s", got, want);
            if (rf == 0) { Record r = d.createRecord(1); need(r != null && d.setRecordIntField(r, 0, 77) == 0, "attach", "the database cannot be used"); if (o != null) { need(ptr(o) == ptr(d), "attach", "another database"); Record s = o.getFirstRecord(); need(s != null && o.getIntFieldValue(s, 0) == 77, "attach", "the record is not seen through the other connection"); } d.close(); got = Probe.calls(); need(got.equals("detach"), "detach", "closing calls '%s'", got); }
            else { Record z = new Record(); need(d.createRecord(1) == null && d.getFirstRecord() == null, "null-record", "a record without a database"); d.close(); Probe.calls(); }
            boolean ex = rf == 0 || ff > 0; int rc = d.deleteDatabase(nm[kk]); got = Probe.calls(); need(got.equals("delete(" + (nm[kk] == null ? "NULL" : nm[kk]) + ")"), "delete", "deleting calls '%s'", got); need(rc == (ex ? 0 : -1), "delete-code", "deleting %s database returns %d", ex ? "a" : "a missing", rc); need(d.deleteDatabase(nm[kk]) == -1, "delete-code", "deleting a missing database succeeds"); Probe.calls(); need(Probe.live() == l0, "leak", "%d blocks of memory are left", Probe.live() - l0); }); }
        int[] vs = {0, 1, -1, 25, Integer.MAX_VALUE, Integer.MIN_VALUE}; for (int a : vs) for (int b : vs) one("object " + a + "," + b, () -> { try { W w = new W(250000); SampleObject s = new SampleObject(); s.weight = a; s.age = b; PrintStream out = System.out; System.setOut(new PrintStream(new ByteArrayOutputStream())); SampleObject t; Record r;
            try { w.db.writeObjectToDatabase(s); w.db.writeObjectToDatabase(new SampleObject()); r = w.db.getFirstRecord(); t = w.db.readObjectFromDatabase(SampleObject.class, r); } finally { System.setOut(out); }
            need(t.weight == a && t.age == b, "object", "the object read is %s instead of weight %d, age %d", t, a, b); w.rows.put(r.pointer, new Object[]{b, a}); r = w.db.getNextRecord(r); need(r != null && w.db.getNextRecord(r) == null, "object", "two objects are not two records"); w.rows.put(r.pointer, new Object[]{0, 0}); w.check("objects"); w.end(); } catch (IllegalAccessException | InstantiationException e) { throw new RuntimeException(e); } });
    }
    public static void main(String[] args) throws Exception {
        for (String a : args) { String[] p = a.substring(2).split("=", 2); opt.put(p[0], p.length > 1 ? p[1] : ""); }
        if (opt.containsKey("replay")) { String[] t = new String(Files.readAllBytes(Paths.get(opt.get("replay")))).trim().split("\\s+"); replay = new int[t[0].isEmpty() ? 0 : t.length]; for (int i = 0; i < replay.length; i++) replay[i] = Integer.parseInt(t[i]); }
        if (opt.containsKey("trace")) { try (RandomAccessFile f = new RandomAccessFile(opt.get("trace"), "rw")) { f.setLength(18100); tr = f.getChannel().map(java.nio.channels.FileChannel.MapMode.READ_WRITE, 0, 18100); } tr.order(ByteOrder.LITTLE_ENDIAN); }
        Probe.watch(); String p = opt.getOrDefault("profile", "seq");
        if (p.equals("seq")) { alphabet(false); sequences(num("depth", 2), false); } else if (p.equals("short")) { alphabet(true); sequences(num("depth", 3), true); } else if (p.equals("memory")) memory(); else named();
        finish();
    }
}
