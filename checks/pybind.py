# Explorer for the Python binding (C34).  Runs inside the interpreter the module was built for; the module is
# built from the working tree together with pyhelp.cc, whose probes are reached through ctypes.
# usage: pybind.py MODULEDIR --profile=... [--depth=N] [--set=N] [--shard=i --nshards=n] [--replay=FILE] [--trace=FILE]
import sys, os, ctypes, struct, json, math, datetime, re, itertools, resource, signal
moddir = sys.argv[1]; sys.path.insert(0, moddir)
opt = {}
for a in sys.argv[2:]:
    k, _, v = a[2:].partition("="); opt[k] = v
import wgdb, whitedb
L = ctypes.CDLL(wgdb.__file__)
P, I, S = ctypes.c_void_p, ctypes.c_long, ctypes.c_char_p
def proto(n, res, *args):
    f = getattr(L, n); f.restype = res; f.argtypes = args; return f
vp_fsck = proto("vp_fsck", S, P, P); vp_lock = proto("vp_lock", ctypes.c_longlong, P); vp_live = proto("vp_live", I); vp_cmp = proto("vp_cmp", I, P, I, I)
vp_type = proto("vp_type", ctypes.c_int, P, P, I); vp_ext = proto("vp_ext", S, P, P, I); vp_failat = proto("vp_failat", None, I)
c_first = proto("wg_get_first_record", P, P); c_next = proto("wg_get_next_record", P, P, P); c_len = proto("wg_get_record_len", I, P, P); c_get = proto("wg_get_field", I, P, P, I)
c_swr = proto("wg_start_write", I, P); c_ewr = proto("wg_end_write", I, P, I); c_srd = proto("wg_start_read", I, P); c_erd = proto("wg_end_read", I, P, I)
L.vp_watch(1)

class Bad(Exception):
    def __init__(self, sig, msg): self.sig, self.msg = sig, msg
def need(c, sig, msg, *a):
    if not c: raise Bad(sig, msg % a if a else msg)
st = dict(states=0, transitions=0, traces=0, evaluations=0, nontrivial=0, dedup=0); extra = {}; outcomes = {}; samples = []
tracef = None
def trace(path, note):
    global tracef
    if "trace" not in opt: return
    if tracef is None: tracef = open(opt["trace"], "w+b", buffering=0); tracef.write(b"\0" * 18000)
    b = note.encode("ascii", "replace")[:1900] + b"\0"
    tracef.seek(0); tracef.write(struct.pack("i%di" % len(path), len(path), *path)); tracef.seek(4 + 16000); tracef.write(b)
def report(sig, msg, desc, path):
    print("FAIL " + json.dumps(dict(sig=sig, msg=msg[:1500], desc=desc[:3000], path=path))); sys.stdout.flush()
def finish(rc):
    s = dict(st); s.update(extra=extra, outcomes=outcomes, known={}, samples=samples[:6])
    print("STATS " + json.dumps(s)); sys.stdout.flush(); os._exit(rc)
replay = None
if "replay" in opt: replay = [int(x) for x in open(opt["replay"]).read().split()]
shard, nshards = int(opt.get("shard", 0)), int(opt.get("nshards", 1))

HEX = re.compile(r"0x([0-9a-f]+)")
def ptr(o):
    m = HEX.search(repr(o)); return int(m.group(1), 16) if m else 0
def ptrs(db):
    """addresses of all records, by the C interface"""
    r = []; p = c_first(db)
    while p: r.append(p); p = c_next(db, p)
    return r
def heap(db):
    a = (ctypes.c_longlong * 20)(); m = vp_fsck(db, a); need(not m, "heap", "storage areas damaged: %s", m.decode() if m else ""); return list(a)
def rc(o): return sys.getrefcount(o) - 3   # references apart from the caller's own variable and the argument here

# ------------------------------------------------------------------ values
def same(a, b):
    if isinstance(b, float): return isinstance(a, float) and (a == b or (a != a and b != b)) and (a != 0 or math.copysign(1, a) == math.copysign(1, b))
    return type(a) is type(b) and a == b
T = wgdb
TEXT = [T.STRTYPE, T.CHARTYPE, T.URITYPE, T.XMLLITERALTYPE]
ALLOWED = dict(none=[T.NULLTYPE], int=[T.INTTYPE, T.VARTYPE], float=[T.DOUBLETYPE, T.FIXPOINTTYPE], str=TEXT, rec=[T.RECORDTYPE], date=[T.DATETYPE], time=[T.TIMETYPE])
DEFENC = dict(none=T.NULLTYPE, int=T.INTTYPE, float=T.DOUBLETYPE, str=T.STRTYPE, rec=T.RECORDTYPE, date=T.DATETYPE, time=T.TIMETYPE)
def kind(v):
    if v is None: return "none"
    if isinstance(v, int): return "int"
    if isinstance(v, float): return "float"
    if isinstance(v, str): return "str"
    if isinstance(v, (whitedb.Record, type(None))) or wgdb.is_record(v): return "rec"
    if isinstance(v, datetime.datetime): return None
    if isinstance(v, datetime.date): return "date"
    if isinstance(v, datetime.time): return "time"
    return None
class Either:
    """the value may be refused, or must read back as one of these"""
    def __init__(self, *v): self.v = v
REFUSE = Either()
def stored(v, enc=0, ext=None):
    """what a stored value must read back as; REFUSE: must be refused"""
    if type(v) is tuple and 1 <= len(v) <= 3 and not enc and ext is None and type(v[0]) is not tuple: return stored(*v)   # a tuple carries its encoding
    k = kind(v)
    if k is None: return REFUSE
    if enc and enc not in ALLOWED[k]: return REFUSE
    enc = enc or DEFENC[k]
    if k == "int":
        if enc == T.VARTYPE: return (int(v), T.VARTYPE) if 0 <= v < 2**28 else Either((int(v), T.VARTYPE)) if -2**63 <= v < 2**63 else REFUSE
        return int(v) if -2**63 <= v < 2**63 else REFUSE
    if k == "float":
        if enc == T.FIXPOINTTYPE:
            if v != v or abs(v) > 800: return REFUSE
            return ("near", v)
        return v
    if k == "str":
        cut = v.split("\0")[0]
        if enc == T.CHARTYPE:
            if not v: return Either("")
            return Either(v[0], "") if "\0" in v else v[0] if 0 < ord(v[0]) < 128 else Either(v[0], "") if ord(v[0]) == 0 else Either(v[0])
        full = (ext or "") + v if enc == T.URITYPE else v
        try: full.encode("utf-8"); ok = True
        except UnicodeEncodeError: ok = False
        if enc == T.XMLLITERALTYPE and not ext: return REFUSE if ext is None else Either(v)
        if "\0" in v: return Either(v, (ext or "") + cut if enc == T.URITYPE else cut)
        if not ok: return Either(full)
        return full
    if k == "time": return v.replace(microsecond=v.microsecond // 10000 * 10000, tzinfo=None)
    return v
def matches(got, exp):
    if isinstance(exp, tuple) and len(exp) == 2 and exp[0] == "near": return isinstance(got, float) and abs(got - exp[1]) <= 0.00010001
    if isinstance(exp, Either): return any(matches(got, x) for x in exp.v)
    return same(got, exp)
def ev(v, n=60):
    r = repr(v); return r if len(r) <= n else r[:n] + "...(%d)" % len(r)

def values():
    texts = ["", "a", "ab", " ", "x" * 31, "x" * 32, "y" * 300, "\x7f", "a\tb\n", '"q"', "é", "日本", "\U0001f600", "é" * 20, "a\0b", "\0", "\udc80", "a\udcffb", "\ud800", "\xff"]
    exts = [None, "", "en", "http://x/", "é", "z" * 40]
    vals = [(None, [0] + list(range(-2, 20)) + [255, 2**31, 2**63 - 1], [None])]
    for i in (0, 1, -1, 255, 2**28 - 1, 2**28, 2**31, 2**60 - 1, 2**60, -2**60 - 1, 2**63 - 1, -2**63, 2**63, -2**63 - 1, 2**64, 2**70, True): vals.append((i, None, [None, "en"]))
    for f in (0.0, -0.0, 1.5, -3.1416, math.pi, 799.9999, 800.0, 800.5, -800.0, -800.1, 1e308, -1e-308, 5e-324, float("inf"), float("-inf"), float("nan")): vals.append((f, None, [None]))
    for s in texts: vals.append((s, None, exts))
    for d in ((1, 1, 1), (1, 12, 31), (1900, 2, 28), (1999, 12, 31), (2000, 2, 29), (2010, 3, 31), (9999, 12, 31)): vals.append((datetime.date(*d), None, [None]))
    for t in ((0, 0), (23, 59, 59, 999999), (12, 59, 0, 330000), (1, 2, 3, 9999), (0, 0, 0, 10000)): vals.append((datetime.time(*t), None, [None]))
    vals.append((datetime.time(10, 11, 12, 0, datetime.timezone.utc), None, [None]))
    for x in (b"bytes", bytearray(b"x"), 1j, [1], (), (1,), {}, object(), int, Ellipsis, NotImplemented): vals.append((x, None, [None]))
    encs = [0, T.NULLTYPE, T.RECORDTYPE, T.INTTYPE, T.DOUBLETYPE, T.STRTYPE, T.XMLLITERALTYPE, T.URITYPE, T.BLOBTYPE, T.CHARTYPE, T.FIXPOINTTYPE, T.DATETYPE, T.TIMETYPE, T.VARTYPE, -1, 99]
    wid = -1; desc = ""
    for v, es, xs in vals:
        for enc in (es or encs):
            for x in xs:
                for via in ("set_field", "set_new_field", "insert", "update", "conn.set_field", "wgdb tuple", "matchrec", "arglist"):
                    if via in ("insert", "update", "matchrec", "arglist", "wgdb tuple") and type(v) is tuple: continue
                    wid += 1
                    if wid % nshards != shard and not replay: continue
                    if replay and replay != [wid]: continue
                    desc = "%s of %s with encoding %d, extra %s" % (via, ascii(v)[:60], enc, ascii(x)[:20])
                    if replay: print("REPLAY case %d: %s" % (wid, desc))
                    trace([wid], desc); st["evaluations"] += 1
                    try:
                        if value_case(v, enc, x, via): st["nontrivial"] += 1
                    except Bad as b: report(b.sig, b.msg, desc, [wid]); return 1
                    if wid % 997 == 0: samples.append(desc)
    return 0
vc = {}
def value_case(v, enc, x, via):
    """stores the value by one of the ways, reads it back by every reader; afterwards everything is given back"""
    if "c" not in vc or vc["n"] > 400:
        vc.clear(); vc["c"] = whitedb.connect(local=1, shmsize=300000); vc["n"] = 0
        vc["db"] = ptr(vc["c"]._db); vc["other"] = vc["c"].insert((1,))
    vc["n"] += 1
    c, db = vc["c"], vc["db"]
    if via == "set_new_field" : rec = wgdb.create_raw_record(c._db, 2); wgdb.set_new_field(c._db, rec, 1, None)
    elif via in ("insert",): rec = None
    else: rec = wgdb.create_record(c._db, 2)
    live0 = vp_live(); h0 = heap(db); nrec0 = len(ptrs(db))
    args = (v,) + ((enc,) if enc or x is not None else ()) + ((x,) if x is not None else ())
    exp = stored(v, enc, x)
    if via == "wgdb tuple" : exp = Either(exp) if not isinstance(exp, Either) else exp
    raised = None; q = None; hr = None
    try:
        if via in ("set_field", "set_new_field"): getattr(wgdb, via)(c._db, rec, 0, *args)
        elif via == "wgdb tuple": wgdb.set_field(c._db, rec, 0, args)
        elif via == "insert": hr = c.insert((args, None)); rec = hr._rec
        elif via == "update": hr = c._new_record(rec); hr.update((args,))
        elif via == "conn.set_field": hr = c._new_record(rec); hr.set_field(0, *args)
        elif via == "matchrec": q = c.make_query(matchrec=[args])
        elif via == "arglist": q = c.make_query(arglist=[(0, wgdb.COND_EQUAL, args)])
    except (TypeError, ValueError, OverflowError, wgdb.error) as e: raised = e; raised.__traceback__ = None
    except SystemError as e: raise Bad("systemerror", "SystemError raised: %s" % e)
    how = "raised %s: %s" % (type(raised).__name__, ascii(str(raised))) if raised else "accepted"
    need(vp_lock(db) == 0 and not c._lock_id, "lock-held", "lock still held after the call (%s)", how)
    if raised:
        outcomes["refused"] = outcomes.get("refused", 0) + 1
        need(isinstance(exp, Either), "refused", "a storable value was refused: %s", how)
        need(len(ptrs(db)) == nrec0, "refused-record", "refused (%s), but the database now has %d records instead of %d", how, len(ptrs(db)), nrec0)
        h1 = heap(db)
        need(h1 == h0, "refused-storage", "refused (%s), but the amount of storage in use changed: %s, before %s", how, h1, h0)
        need(vp_live() == live0, "refused-leak", "refused (%s), but %d allocated blocks were not freed", how, vp_live() - live0)
        if via in ("set_field", "conn.set_field", "wgdb tuple", "update"): need(wgdb.get_field(c._db, rec, 0) is None, "refused-changed", "refused, but the field now holds %s", ev(wgdb.get_field(c._db, rec, 0)))
    elif q is not None:
        if enc == T.XMLLITERALTYPE and not x: wgdb.free_query(c._db, q); return False   # an untyped literal can be asked for, but not stored
        need(not isinstance(exp, Either) or exp.v, "not-refused", "a query value that cannot be stored was accepted")
        outcomes["query"] = outcomes.get("query", 0) + 1
        # the same value stored is found by it (a variable in a match record stands for anything)
        wr = None
        try: wgdb.set_field(c._db, rec, 0, *args)
        except (TypeError, ValueError, OverflowError, wgdb.error) as e: raise Bad("query-store", "accepted as a query value, but refused as field: %s" % ascii(str(e)))
        q2 = c.make_query(matchrec=[args]) if via == "matchrec" else c.make_query(arglist=[(0, wgdb.COND_EQUAL, args)])
        found = []
        while 1:
            r = c.fetch(q2)
            if r is None: break
            found.append(ptr(r._rec)); r = None
        if v == v: need(ptr(rec) in found, "query-miss", "a query for the very value that a field holds does not find it (stored type %d)", vp_type(db, ptr(rec), 0))
        wgdb.free_query(c._db, q); wgdb.free_query(c._db, q2); q = q2 = None
        wgdb.set_field(c._db, rec, 0, None)
        need(vp_live() == live0, "query-leak", "%d allocated blocks were not freed with the query", vp_live() - live0)
        need(heap(db) == h0, "query-storage", "a query changed the amount of storage in use")
    else:
        need(not isinstance(exp, Either) or exp.v, "not-refused", "a value that cannot be stored was accepted and reads back as %s", ev(readback(c, rec)))
        outcomes["stored"] = outcomes.get("stored", 0) + 1
        got = readback(c, rec)
        need(matches(got, exp), "roundtrip", "reads back as %s (type %d)", ev(ascii(got)), vp_type(db, ptr(rec), 0))
        k = enc or DEFENC[kind(v if type(v) is not tuple else v[0])]
        need(vp_type(db, ptr(rec), 0) == k, "wrong-type", "stored with type %d instead of %d", vp_type(db, ptr(rec), 0), k)
        e = vp_ext(db, ptr(rec), 0)
        if k in (T.STRTYPE, T.URITYPE, T.XMLLITERALTYPE): need((e or b"").decode("utf-8", "surrogateescape") == (x or ""), "wrong-extra", "extra string stored as %s", e)
        hi = whitedb.Record(c, rec); hi.size = 2
        got2 = hi[0]; need(matches(got2, exp), "roundtrip2", "reads back through the high level interface as %s", ev(got2))
        # what was read can be written back unchanged
        if not (type(got) is float and k == T.FIXPOINTTYPE):
            try: wgdb.set_field(c._db, rec, 1, got) if k in (T.STRTYPE, T.INTTYPE, T.DOUBLETYPE, T.DATETYPE, T.TIMETYPE, T.NULLTYPE) else c.atomic_update_record(hi, (got, got))
            except (TypeError, ValueError, OverflowError, wgdb.error) as e2: raise Bad("writeback", "the value read (%s) cannot be written back: %s" % (ev(got), e2))
            need(matches(wgdb.get_field(c._db, rec, 1), exp), "writeback2", "written back, it reads as %s", ev(wgdb.get_field(c._db, rec, 1)))
        if k == T.VARTYPE:
            try: hi.set_field(1, got)
            except (TypeError, ValueError, wgdb.error) as e2: raise Bad("writeback-var", "the variable read (%s) cannot be written back by set_field: %s" % (ev(got), e2))
    hr = hi = raised = None
    if rec is not None:
        need(rc(rec) == 0, "ref-leak", "the record object has %d references more than it should", rc(rec))
        wgdb.delete_record(c._db, rec)
    return True
def readback(c, rec):
    try: return wgdb.get_field(c._db, rec, 0)
    except Exception as e: raise Bad("unreadable", "the stored value cannot be read: %s: %s" % (type(e).__name__, e))

# ------------------------------------------------------------------ low level calls with invalid arguments
class BadLen:
    def __len__(self): raise RuntimeError("len")
    def __getitem__(self, i): raise IndexError
class BadItem:
    def __len__(self): return 2
    def __getitem__(self, i): raise RuntimeError("item")
class LateBad:
    def __init__(self, good): self.good = good
    def __len__(self): return 2
    def __getitem__(self, i):
        if i == 0: return self.good
        raise RuntimeError("item")
class NegLen:
    def __len__(self): return -1
    def __getitem__(self, i): raise IndexError
def args_profile():
    E, EQ = wgdb, wgdb.COND_EQUAL
    def fresh(state):
        d = wgdb.attach_database(local=1, size=300000); r = wgdb.create_record(d, 2); wgdb.set_field(d, r, 0, 1); wgdb.set_field(d, r, 1, "abc" * 20)
        q = wgdb.make_query(d, arglist=[(0, EQ, 1)])
        if state == "detached": wgdb.detach_database(d)
        if state == "freed": wgdb.free_query(d, q)
        return d, r, q
    longs = "long string " * 10
    cases = []   # (name, function of (d, r, q, x), must raise)
    for n in ("create_record", "create_raw_record"):
        for a in (-1, 10**8, 2**62, 2**64, "x", None, 1.5): cases.append(("%s(d, %r)" % (n, a), lambda d, r, q, n=n, a=a: getattr(wgdb, n)(d, a), True))
        cases.append((n + "()", lambda d, r, q, n=n: getattr(wgdb, n)(), True)); cases.append((n + "(None, 1)", lambda d, r, q, n=n: getattr(wgdb, n)(None, 1), True))
    for n in ("get_first_record", "size", "free", "start_write", "start_read", "detach_database"):
        for a in ((), (None,), (1,), ("x",), (wgdb,)): cases.append(("%s%r" % (n, ascii(a)), lambda d, r, q, n=n, a=a: getattr(wgdb, n)(*a), True))
    for n in ("get_next_record", "get_record_len", "delete_record"):
        cases.append((n + "(d, None)", lambda d, r, q, n=n: getattr(wgdb, n)(d, None), True)); cases.append((n + "(d)", lambda d, r, q, n=n: getattr(wgdb, n)(d), True)); cases.append((n + "(r, d)", lambda d, r, q, n=n: getattr(wgdb, n)(r, d), True)); cases.append((n + "(d, q)", lambda d, r, q, n=n: getattr(wgdb, n)(d, q), True))
    for f in (-1, 2, 100, 2**40, -2**40, 2**63, "0", None, 0.5):
        cases.append(("get_field(d, r, %r)" % (f,), lambda d, r, q, f=f: wgdb.get_field(d, r, f), True))
        for n in ("set_field", "set_new_field"):
            for v in (None, 5, 2**62, 1.5, "short", longs, ("tuple", 0)): cases.append(("%s(d, r, %r, %.20r)" % (n, f, v), lambda d, r, q, n=n, f=f, v=v: getattr(wgdb, n)(d, r, f, v), True))
    for n in ("set_field",):
        for kw in (dict(encoding="x"), dict(encoding=None), dict(encoding=2**70), dict(ext_str=5), dict(ext_str=b"x"), dict(ext_str="a\0b"), dict(nosuch=1)): cases.append(("%s(d, r, 0, 'v', %r)" % (n, kw), lambda d, r, q, kw=kw: wgdb.set_field(d, r, 0, "v", **kw), True))
    # queries
    cases.append(("fetch(make_query(d, column 2**32))", lambda d, r, q: wgdb.fetch(d, wgdb.make_query(d, arglist=[(2**32, EQ, 1)])), True))
    for al in (5, 1.5, object(), {1}, [5], [()], [(1, 2)], [(0, EQ, 1, 2)], [[0, EQ, 1]], [("0", EQ, 1)], [(0, "=", 1)], [(None, EQ, 1)], [(2**70, EQ, 1)], [(0, 2**70, 1)], [(0, EQ + 2**32, 1)], [(-1, EQ, 1)], [(0, 0, 1)], [(0, 3, 1)], [(0, -1, 1)],
               [(0, EQ, object())], [(0, EQ, b"x")], [(0, EQ, ())], [(0, EQ, (1, 2, 3, 4))], [(0, EQ, (1, "x"))], [(0, EQ, (1, -1))], [(0, EQ, ("a", 0, 5))], [(0, EQ, ("a", 0, None))], [(0, EQ, ("a", T.INTTYPE))], [(0, EQ, 2**70)], [(0, EQ, "a\0b")], [(0, EQ, "\ud800")],
               [(0, EQ, longs), (0, EQ, object())], [(0, EQ, 1.5), 7], BadLen(), BadItem(), NegLen(), LateBad((0, EQ, longs)), "ab", b"ab"):
        nm = al if isinstance(al, (list, int, float, set, str, bytes)) else type(al).__name__
        cases.append(("make_query(d, arglist=%.80s)" % ascii(nm), lambda d, r, q, al=al: wgdb.make_query(d, arglist=al), True))
    for mr in (5, 1.5, object(), {1}, [object()], [b"x"], [()], [(1, 2, 3, 4)], [1, object()], [longs, (1, "x")], ["a\0b"], ["\ud800"], [2**70], [("a", T.INTTYPE)], BadLen(), BadItem(), NegLen(), LateBad(longs), LateBad(5)):
        nm = mr if isinstance(mr, (list, int, float, set, str, bytes)) else type(mr).__name__
        cases.append(("make_query(d, matchrec=%.80s)" % ascii(nm), lambda d, r, q, mr=mr: wgdb.make_query(d, matchrec=mr), True))
        cases.append(("make_query(d, %.80s, [(0, EQ, longs)])" % ascii(nm), lambda d, r, q, mr=mr: wgdb.make_query(d, mr, [(0, EQ, longs)]), True))
        cases.append(("make_query(d, ['text'], arglist=%.80s)" % ascii(nm), lambda d, r, q, mr=mr: wgdb.make_query(d, ["text"], arglist=mr) if not isinstance(mr, list) else wgdb.make_query(d, ["text"], arglist=[(0, EQ, mr[-1])]), None))
    for a in (("d", "q2"), ("d", None), (None, "q"), ("d",)):
        for n in ("fetch", "free_query"): cases.append(("%s%r" % (n, a), lambda d, r, q, n=n, a=a: getattr(wgdb, n)(*[dict(d=d, q=q, q2=r).get(x, x) for x in a]), True))
    cases.append(("q.res_count = 5", lambda d, r, q: setattr(q, "res_count", 5), True)); cases.append(("del q.res_count", lambda d, r, q: delattr(q, "res_count"), True))
    for t in ("d", "r", "q"): cases.append(("type(%s)()" % t, lambda d, r, q, t=t: type(dict(d=d, r=r, q=q)[t])(), True))
    for n in ("dump", "load", "replay_log"):
        for f in ("/nonexistent/x", "", 5, None, "a\0b"): cases.append(("%s(d, %r)" % (n, f), lambda d, r, q, n=n, f=f: getattr(wgdb, n)(d, f), True))
    for f in (-1, 2**20, 2**63, "x", None): cases.append(("createindex(d, %r)" % (f,), lambda d, r, q, f=f: wgdb.createindex(d, f), True))
    for kw in (dict(local=1, size=-5), dict(local=1, size=10), dict(size="x"), dict(local="y"), dict(shmname=5), dict(shmname="a\0b"), dict(nosuch=1), dict(local=1, size=2**62)): cases.append(("attach_database(%r)" % (kw,), lambda d, r, q, kw=kw: wgdb.attach_database(**kw), None if kw.get("size") in (-5, 10) else True))
    for a in (("-5",), (5,), ("123456789012345678901234567890",)): cases.append(("attach_existing_database%r" % (a,), lambda d, r, q, a=a: wgdb.attach_existing_database(*a), True))
    # valid calls, for the other states and for the reference counts
    ok = [("create_record(d, 2)", lambda d, r, q: wgdb.create_record(d, 2)), ("get_first_record(d)", lambda d, r, q: wgdb.get_first_record(d)), ("get_record_len(d, r)", lambda d, r, q: wgdb.get_record_len(d, r)), ("get_field(d, r, 0)", lambda d, r, q: wgdb.get_field(d, r, 0)),
          ("get_field(d, r, 1)", lambda d, r, q: wgdb.get_field(d, r, 1)), ("set_field(d, r, 0, long)", lambda d, r, q: wgdb.set_field(d, r, 0, longs)), ("set_field(d, r, 0, 'x', ext)", lambda d, r, q: wgdb.set_field(d, r, 0, "x", T.URITYPE, "http://" + "e" * 40)), ("set_field(d, r, 0, r)", lambda d, r, q: wgdb.set_field(d, r, 0, r)),
          ("set_field ref and get", lambda d, r, q: (wgdb.set_field(d, r, 0, r), wgdb.get_field(d, r, 0))[1]), ("size(d)", lambda d, r, q: wgdb.size(d)), ("free(d)", lambda d, r, q: wgdb.free(d)), ("createindex(d, 0)", lambda d, r, q: wgdb.createindex(d, 0)), ("indexid(d, 0)", lambda d, r, q: wgdb.indexid(d, 0)), ("indexid(d, -1)", lambda d, r, q: wgdb.indexid(d, -1)),
          ("make_query(d)", lambda d, r, q: wgdb.make_query(d)), ("make_query(d, r)", lambda d, r, q: wgdb.make_query(d, r)), ("make_query(d, [1, long], [...])", lambda d, r, q: wgdb.make_query(d, [1, longs], [(0, EQ, 1.5), (1, EQ, (longs, 0, "en"))])), ("make_query(d, (), ())", lambda d, r, q: wgdb.make_query(d, (), ())), ("fetch(d, q)", lambda d, r, q: wgdb.fetch(d, q)),
          ("free_query(d, q)", lambda d, r, q: wgdb.free_query(d, q)), ("q.res_count", lambda d, r, q: q.res_count), ("start_write/end_write", lambda d, r, q: wgdb.end_write(d, wgdb.start_write(d))), ("start_read/end_read", lambda d, r, q: wgdb.end_read(d, wgdb.start_read(d))), ("repr", lambda d, r, q: (repr(d), str(r), repr(q))), ("dump", lambda d, r, q: wgdb.dump(d, "d.img")), ("delete_record", lambda d, r, q: wgdb.delete_record(d, r)),
          ("is_record", lambda d, r, q: (wgdb.is_record(r), wgdb.is_record(d), wgdb.is_record(None))), ("detach_database(d)", lambda d, r, q: wgdb.detach_database(d)), ("get_next_record", lambda d, r, q: (wgdb.create_record(d, 1), wgdb.get_next_record(d, r))[1])]
    runs = [("live", n, f, m) for n, f, m in cases] + [("live", n, f, False) for n, f in ok]
    harmless = ("make_query", "repr", "is_record", "detach_database", "q.res_count", "free_query(d, q)")
    runs += [("detached", n, f, None if n.startswith(harmless + ("size(", "free(", "indexid(")) else True) for n, f in ok if n not in ("make_query(d, r)",)] + [("freed", n, f, True if n in ("fetch(d, q)", "q.res_count") else None) for n, f in ok if n != "fetch"] + [("freed", n, f, m) for n, f, m in cases]
    for i, (state, name, f, must) in enumerate(runs):
        if replay and replay != [i]: continue
        if not replay and i % nshards != shard: continue
        desc = "%s database: %s" % (state, name)
        if replay: print("REPLAY case %d: %s" % (i, desc))
        trace([i], desc); st["evaluations"] += 1; st["nontrivial"] += 1
        try:
            d, r, q = fresh(state); alive = state != "detached"; db = ptr(d); live0 = vp_live()
            before = (heap(db), ptrs(db)) if alive else None
            raised, res = call(f, d, r, q)
            outcomes["raised" if raised else "returned"] = outcomes.get("raised" if raised else "returned", 0) + 1
            need(raised != "SystemError", "systemerror", "the call raised SystemError: a failure without or a result with an exception set")
            if must is True: need(raised, "not-refused", "an invalid call returned %s", ev(res))
            if must is False: need(not raised, "valid-raises", "a valid call raised %s", raised)
            still = alive and name != "detach_database(d)"
            if still: need(vp_lock(db) == 0, "lock-held", "the lock is held after the call")
            if raised and still:
                need(ptrs(db) == before[1], "refused-changed", "the refused call changed the records of the database")
                need(heap(db) == before[0], "refused-storage", "the refused call changed the amount of storage in use: %s, before %s", heap(db), before[0])
                need(vp_live() == live0, "refused-leak", "%d blocks allocated by the refused call were not freed", vp_live() - live0)
            if must is False and wgdb.is_record(res): need(rc(res) == 0, "ref-leak", "the returned record object has %d references more than it should", rc(res))
            res = None; refs = rc(d); q = None
            need(rc(r) == 0, "ref-leak", "the record argument has %d references more than it should", rc(r))
            need(rc(d) == 0, "ref-leak", "the database object has %d references more than it should when no query exists", rc(d))
            # called again and again, nothing piles up
            if name not in ("detach_database(d)",) and alive:
                for _ in range(30): call(f, d, r, q)
                q = wgdb.make_query(d) if still else None
                b0 = sys.getallocatedblocks(); l0 = vp_live()
                for _ in range(200):
                    call(f, d, r, q)
                b1 = sys.getallocatedblocks()
                need(b1 - b0 < 150, "py-leak", "200 repetitions leave %d Python objects behind", b1 - b0)
                if q is not None and "free_query" not in name: wgdb.free_query(d, q)
                q = None
                need(vp_live() < l0 + 150, "c-leak", "200 repetitions leave %d allocated blocks behind", vp_live() - l0)
        except Bad as b: report(b.sig, b.msg, desc, [i]); return 1
        if i % 97 == 0: samples.append(desc)
    return 0
def call(f, *a):
    try: return None, f(*a)
    except Exception as e: n = type(e).__name__; del e; return n, None

# ------------------------------------------------------------------ histories of the high level interface
LONG = "a long string that lives in the long string area"
# every low level call of the high level module goes through this: the lock must be held as documented
NEEDW = {"create_record", "create_raw_record", "delete_record", "set_field", "set_new_field", "make_query", "free_query"}
NEEDR = {"get_first_record", "get_next_record", "get_record_len", "get_field", "fetch"}
class Watch:
    cur = None
    def __getattr__(self, n):
        a = getattr(wgdb, n)
        if n in NEEDW or n in NEEDR:
            def f(*args, **kw):
                w = Watch.cur
                if w is not None and w.c.locking and w.alive:
                    l = vp_lock(w.db); need(l != 0, "no-lock", "%s was called without the lock", n)
                    if n in NEEDW and w.rp: need(l & 1, "no-write-lock", "%s was called under a lock that is not the write lock (%x)", n, l)
                    w.underlock.append(n)
                return a(*args, **kw)
            return f
        return a
REF = lambda i: ("REF", i)
class World:
    """the module and a reference model side by side"""
    def __init__(self):
        self.c = whitedb.connect(local=1, shmsize=240000); self.db = ptr(self.c._db); self.alive = True
        self.model = {}   # id -> list of values, ("REF", id) for links
        self.h = {}       # id -> the high level object the creating call returned
        self.at = {}      # id -> address
        self.n = 0; self.cur = self.c.cursor(); self.expq = None; self.pos = 0; self.qopen = False
        self.tx = None; self.idx = False; self.rp = L.vp_proto() == 1; self.base = heap(self.db); self.underlock = []; self.gone = None
        Watch.cur = self
    def key(self): return repr((sorted(self.model.items()), self.tx, self.c.locking, self.alive, self.expq, self.pos, self.qopen, self.idx))
    def last(self): return max(self.model) if self.model else None
    def first(self): return min(self.model) if self.model else None
def raises(w, f, *classes):
    """the call must raise one of these and leave the database alone"""
    h, p = (heap(w.db), ptrs(w.db)) if w.alive else (0, 0)
    try: f()
    except classes as e: e.__traceback__ = None
    except SystemError as e: raise Bad("systemerror", "SystemError: %s" % e)
    except Exception as e: raise Bad("wrong-exception", "raised %s (%s)" % (type(e).__name__, e))
    else: raise Bad("not-refused", "an operation that cannot be done was accepted")
    if w.alive:
        need(ptrs(w.db) == p, "refused-record", "the refused operation left %d records, before %d", len(ptrs(w.db)), len(p))
        need(heap(w.db) == h, "refused-storage", "the refused operation changed the amount of storage in use")
ERR = (TypeError, ValueError, IndexError, OverflowError, wgdb.error)
def blocked(w):
    """why any operation on the connection must be refused now"""
    return not w.alive or (w.c.locking and w.tx)
def op(w, f, then, *alsoerr):
    """f must succeed unless the connection cannot work now; then(result) updates the model"""
    if blocked(w): raises(w, f, *ERR); return
    try: r = f()
    except SystemError as e: raise Bad("systemerror", "SystemError: %s" % e)
    except Bad: raise
    except Exception as e: raise Bad("valid-raises", "raised %s: %s" % (type(e).__name__, e))
    then(r)
def newrec(w, vals):
    def then(r):
        i = w.n; w.n += 1; w.model[i] = list(vals); w.h[i] = r; w.at[i] = ptr(r._rec)
        need(isinstance(r, whitedb.Record) and len(r) == len(vals) and r.get_size() == len(vals), "size", "the new record reports %d fields instead of %d", len(r), len(vals))
        need(rc(r._rec) == 0, "ref-leak", "the record object has %d references more than it should", rc(r._rec))
    return then
def insert(*spec):
    def f(w):
        l = w.last(); vals = []; args = []
        for s in spec:
            if s == "LAST":
                if l is None: vals.append(None); args.append(None)
                else: vals.append(REF(l)); args.append(w.h[l])
            elif isinstance(s, tuple): args.append(s); vals.append(stored(*s))
            else: args.append(s); vals.append(s)
        op(w, lambda: w.c.insert(tuple(args)), newrec(w, vals))
    return f
def bad(fn, *cls):
    return lambda w: raises(w, lambda: fn(w), *(cls or ERR))
def create(n): return lambda w: op(w, lambda: w.c.create_record(n), newrec(w, [None] * n))
def setf(which, i, v, *ext):
    def f(w):
        r = getattr(w, which)()
        if r is None: return
        m = w.model[r]; a = v; val = v
        if v == "FIRST": a = w.h[w.first()]; val = REF(w.first())
        elif ext: val = stored(v, *ext)
        if i < 0 or i >= len(m): raises(w, lambda: w.h[r].set_field(i, a, *ext), *ERR); return
        if isinstance(val, Either): raises(w, lambda: w.h[r].set_field(i, a, *ext), *ERR); return
        def then(_): m[i] = val
        op(w, lambda: w.h[r].set_field(i, a, *ext), then)
    return f
def setitem(which, i, v):
    def f(w):
        r = getattr(w, which)()
        if r is None: return
        def g(): w.h[r][i] = v
        def then(_): w.model[r][i] = v
        op(w, g, then)
    return f
def update(which, *vals):
    def f(w):
        r = getattr(w, which)()
        if r is None: return
        m = w.model[r]; n = len(m)
        if blocked(w): raises(w, lambda: w.h[r].update(vals), *ERR); return
        # field by field: the first that does not fit stops it, as documented
        new = list(m); ok = True
        for i, v in enumerate(vals):
            s = stored(*v) if isinstance(v, tuple) else stored(v)
            if i >= n or isinstance(s, Either): ok = False; break
            new[i] = s
        if ok: new[len(vals):] = [None] * (n - len(vals))
        try: w.h[r].update(vals); done = True
        except ERR: done = False
        need(done == ok, "update", "update of a record of %d fields %s", n, "succeeded" if done else "was refused")
        m[:] = new
    return f
def delete(which):
    def f(w):
        r = getattr(w, which)()
        if r is None: return
        refd = any(x == REF(r) for k, m in w.model.items() for x in m)
        if refd: raises(w, lambda: w.h[r].delete(), *ERR); need(w.h[r]._rec is not None, "handle-lost", "the record object lost its record although deletion was refused"); return
        def then(_):
            need(w.h[r]._rec is None, "handle", "the record object still refers to the deleted record")
            w.gone = w.h.pop(r); w.model.pop(r); w.at.pop(r)
        op(w, lambda: w.h[r].delete(), then)
    return f
def usegone(w):
    g = w.gone
    if g is None: return
    raises(w, lambda: g.get_field(0), *ERR); raises(w, lambda: g.set_field(0, 1), *ERR); raises(w, lambda: g.delete(), *ERR); raises(w, lambda: w.c.next_record(g), *ERR); raises(w, lambda: g.update((1,)), *ERR)
def idof(w, r): 
    p = ptr(r._rec)
    for i, a in w.at.items():
        if a == p: return i
    raise Bad("foreign-record", "returned a record that is not in the database")
def check_rec(w, r):
    i = idof(w, r); m = w.model[i]; need(len(r) == len(m), "size", "record %d reports %d fields instead of %d", i, len(r), len(m))
    need(rc(r._rec) == 0, "ref-leak", "the record object has %d references more than it should", rc(r._rec))
    return i
def scan(w):
    def go():
        out = []; r = w.c.first_record()
        while r is not None: out.append(check_rec(w, r)); r = w.c.next_record(r)
        return out
    def then(out): need(out == [i for p in ptrs(w.db) for i in w.at if w.at[i] == p], "scan", "first/next returned the records %s", out)
    op(w, go, then)
def sequence(w):
    """the sequence protocol"""
    for i, m in w.model.items():
        r = w.h[i]
        if blocked(w): raises(w, lambda: list(r), *ERR); continue
        for k in (-1, len(m), len(m) + 5): raises(w, lambda: r[k], *ERR); raises(w, lambda: r.set_field(k, 1), *ERR)
        got = list(r); need(len(got) == len(m) and all(eq(w, a, b) for a, b in zip(got, m)), "read", "record %d reads as %s instead of %s", i, ev(got), ev(m))
        if m: g = r[len(m) - 1]; need(eq(w, g, m[-1]), "read", "last field of record %d reads as %s", i, ev(g))
def eq(w, got, m):
    if isinstance(m, tuple) and len(m) == 2 and m[0] == "REF": return isinstance(got, whitedb.Record) and ptr(got._rec) == w.at[m[1]] and len(got) == len(w.model[m[1]])
    return matches(got, m)
def lowval(w, got, m):
    if isinstance(m, tuple) and len(m) == 2 and m[0] == "REF": return wgdb.is_record(got) and ptr(got) == w.at[m[1]]
    return matches(got, m)
# queries: rows whose field compares as asked; only columns of plain integers, None and texts are used here
def cmpv(a, b):
    rank = lambda x: 0 if x is None else 1 if isinstance(x, int) else 2 if isinstance(x, float) else 3
    if rank(a) != rank(b): return None
    return 0 if a == b else -1 if a < b else 1
def cond(c, r):
    return {wgdb.COND_EQUAL: r == 0, wgdb.COND_NOT_EQUAL: r != 0, wgdb.COND_LESSTHAN: r == -1, wgdb.COND_GREATER: r == 1, wgdb.COND_LTEQUAL: r in (-1, 0), wgdb.COND_GTEQUAL: r in (0, 1)}[c]
def execute(matchrec=None, arglist=None, match=None):
    def f(w):
        mr = matchrec
        if match:
            i = getattr(w, match)()
            if i is None: return
            mr = w.h[i]
        def hit(m):
            if match:
                t = w.model[i]
                if len(m) < len(t) or any(not (x == y) for x, y in zip(m, t)): return False
            elif matchrec:
                if len(m) < len(matchrec): return False
                for x, y in zip(m, matchrec):
                    if isinstance(y, tuple):
                        if y[1] == T.VARTYPE: continue
                        y = stored(*y)
                    if not same(x, y): return False
            for col, cnd, v in arglist or ():
                if col >= len(m): return False
                if not cond(cnd, cmpv(m[col], v)): return False
            return True
        def then(_):
            w.expq = [k for p in ptrs(w.db) for k in w.at if w.at[k] == p and hit(w.model[k])]
            w.pos = 0; w.qopen = True
            if w.cur._query.res_count is not None: need(w.cur.rowcount == len(w.expq), "rowcount", "rowcount is %s, %d rows match", w.cur.rowcount, len(w.expq))
        op(w, lambda: w.cur.execute(matchrec=mr, arglist=arglist), then)
    return f
def stale(w):
    """rows of the open result set may have been deleted or changed since"""
    return w.expq is None
def fetchall(w):
    if not w.qopen: raises(w, w.cur.fetchall, *ERR); return
    if stale(w): return
    def then(rows):
        got = [check_rec(w, r) for r in rows]
        need(sorted(got) == sorted(w.expq[w.pos:]) if not w.pos else len(got) == len(w.expq) - w.pos and set(got) <= set(w.expq), "fetch", "the cursor returned the records %s, matching are %s", got, w.expq[w.pos:])
        w.pos = len(w.expq)
    if blocked(w): raises(w, w.cur.fetchall, *ERR); return
    op(w, w.cur.fetchall, then)
def fetchone(w):
    if not w.qopen: raises(w, w.cur.fetchone, *ERR); return
    if stale(w): return
    def then(r):
        if w.pos < len(w.expq): need(r is not None, "fetch-short", "the cursor ended after %d of %d rows", w.pos, len(w.expq)); need(check_rec(w, r) in w.expq, "fetch", "the cursor returned a record that does not match"); w.pos += 1
        else: need(r is None, "fetch-more", "the cursor returned more rows than match")
    op(w, w.cur.fetchone, then)
def closecur(w):
    if not w.qopen: w.cur.close(); return
    def then(_): w.qopen = False; w.expq = None; need(w.cur._query is None, "cursor", "the closed cursor keeps its query")
    op(w, w.cur.close, then)
def index(w):
    if not w.alive: raises(w, lambda: wgdb.createindex(w.c._db, 0), *ERR); return
    r, e = None, None
    try: wgdb.createindex(w.c._db, 0)
    except wgdb.error: need(w.idx, "createindex", "index creation failed")
    w.idx = True; w.base = None
    need(wgdb.indexid(w.c._db, 0) is not None and wgdb.indexid(w.c._db, 1) is None, "indexid", "indexid does not tell which column is indexed")
# transactions
def begin(kind):
    def f(w):
        if not w.alive or w.tx: raises(w, getattr(w.c, "start_" + kind), *ERR); return
        getattr(w.c, "start_" + kind)(); w.tx = kind
    return f
def end(kind):
    def f(w):
        if not w.tx or w.tx != kind: raises(w, getattr(w.c, "end_" + kind), *ERR); return
        if not w.alive: raises(w, getattr(w.c, "end_" + kind), *ERR); return
        getattr(w.c, "end_" + kind)(); w.tx = None
    return f
def locking(m):
    def f(w): w.c.set_locking(m)
    return f
def close(w):
    if w.tx: return
    w.c.close(); w.alive = False; w.c.close()
def another(kind):
    """somebody else holds the lock: every operation gives up and leaves nothing behind"""
    def f(w):
        if not w.alive or w.tx or not w.c.locking: return
        l = (c_swr if kind == "write" else c_srd)(w.db); before = vp_lock(w.db)
        c = w.c; i = w.last()
        ops = [lambda: c.insert((1, LONG)), lambda: c.create_record(1), lambda: c.make_query(arglist=[(0, 1, LONG)]), c.start_write]
        if i is not None: ops += [lambda: w.h[i].set_field(0, LONG), lambda: w.h[i].delete(), lambda: w.h[i].update((1,))]
        if kind == "write": ops += [c.start_read, c.first_record]
        if kind == "write" and i is not None: ops += [lambda: w.h[i].get_field(0), lambda: c.next_record(w.h[i]), lambda: list(w.h[i])]
        if w.qopen: ops += [w.cur.close] + ([w.cur.fetchone] if kind == "write" else [])
        Watch.cur = None
        for o in ops:
            raises(w, o, wgdb.error); need(w.c._lock_id is None, "lock-id", "the connection believes it holds a lock after failing to get it")
            need(vp_lock(w.db) == before, "lock-lost", "the lock word changed from %x to %x by a failed attempt", before, vp_lock(w.db))
        Watch.cur = w
        need((c_ewr if kind == "write" else c_erd)(w.db, l), "unlock", "the lock holder cannot release the lock")
    return f
MUTATE = {"insert", "create", "setf", "update", "delete"}
Q = wgdb
SETS = {
 0: [("insert(1,'abc')", insert(1, "abc")), ("insert(None,(LONG,0,'en'))", insert(None, (LONG, 0, "en"))), ("insert(2.5,LAST)", insert(2.5, "LAST")), ("insert('ok',LONG,object())", bad(lambda w: w.c.insert(("ok", LONG, object())))), ("insert(LONG,(1,STRTYPE),3)", bad(lambda w: w.c.insert((LONG, (1, T.STRTYPE), 3)))),
     ("insert(())", bad(lambda w: w.c.insert(()), whitedb.DataError)), ("insert((),)", bad(lambda w: w.c.insert((LONG, ())))), ("create(2)", create(2)), ("create(0)", bad(lambda w: w.c.create_record(0), whitedb.DataError)), ("create(10**8)", bad(lambda w: w.c.create_record(10**8))), ("create('x')", bad(lambda w: w.c.create_record("x"))),
     ("last[0]=7", setf("last", 0, 7)), ("last[1]=LONG", setf("last", 1, LONG)), ("first[0]=(uri)", setf("first", 0, "u", T.URITYPE, "http://a.example.com/prefix/of/it#")), ("last[0]->first", setf("last", 0, "FIRST")), ("last[1]=object", bad(lambda w: (w.h[w.last()].set_field(1, object()) if w.model else w.c.insert(5)))), ("last[9]", setf("last", 9, LONG)), ("last[0]=int as text", setf("last", 0, 5, T.STRTYPE)),
     ("update(LONG)", update("last", LONG)), ("update(1,2,3)", update("last", 1, 2, 3)), ("update(LONG,2**70)", update("last", LONG, 2**70)), ("update(('hello',CHAR),2.0)", update("first", ("hello", T.CHARTYPE), 2.0)), ("delete last", delete("last")), ("delete first", delete("first")), ("use deleted", usegone), ("sequence", sequence), ("scan", scan), ("index", index)],
 1: [("insert(1,'abc')", insert(1, "abc")), ("insert(2)", insert(2)), ("insert(1,None)", insert(1, None)), ("insert('abc',LONG)", insert("abc", LONG)), ("delete last", delete("last")), ("last[0]=2", setf("last", 0, 2)), ("index", index), ("all", execute()), ("col0==1", execute(arglist=[(0, Q.COND_EQUAL, 1)])), ("col0!=1", execute(arglist=[(0, Q.COND_NOT_EQUAL, 1)])),
     ("col0<2,col1==abc", execute(arglist=[(0, Q.COND_LESSTHAN, 2), (1, Q.COND_EQUAL, "abc")])), ("col0>=1,<=2", execute(arglist=[(0, Q.COND_GTEQUAL, 1), (0, Q.COND_LTEQUAL, 2)])), ("match [1]", execute(matchrec=[1])), ("match (VAR,LONG)", execute(matchrec=((0, T.VARTYPE), (LONG, 0)))), ("match [] ", execute(matchrec=[], arglist=[])), ("match first", execute(match="first")), ("match [1] col1!=abc", execute(matchrec=[1], arglist=[(1, Q.COND_NOT_EQUAL, "abc")])),
     ("execute bad", bad(lambda w: w.cur.execute(arglist=[(0, Q.COND_EQUAL, LONG), (0, Q.COND_EQUAL, object())]))), ("execute bad2", bad(lambda w: w.cur.execute(matchrec=5))), ("execute bad3", bad(lambda w: w.cur.execute(arglist=[(0, 77, 1)]))), ("fetchone", fetchone), ("fetchall", fetchall), ("close cursor", closecur), ("scan", scan)],
 2: [("insert(1,LONG)", insert(1, LONG)), ("create(1)", create(1)), ("last[0]=LONG", setf("last", 0, LONG)), ("delete last", delete("last")), ("bad insert", bad(lambda w: w.c.insert((LONG, object())))), ("scan", scan), ("sequence", sequence), ("all", execute()), ("fetchone", fetchone), ("fetchall", fetchall), ("close cursor", closecur), ("bad execute", bad(lambda w: w.cur.execute(arglist=[(0, 1, object())]))),
     ("start_write", begin("write")), ("end_write", end("write")), ("start_read", begin("read")), ("end_read", end("read")), ("locking off", locking(0)), ("locking on", locking(1)), ("close", close), ("other writer", another("write")), ("other reader", another("read")), ("update", update("last", 5, LONG)), ("commit", lambda w: (w.c.commit(), w.c.rollback()))],
}
def check_world(w):
    if not w.alive: return
    l = vp_lock(w.db)
    if w.tx: need(l != 0 and w.c._lock_id, "tx-lost", "the explicitly started %s transaction holds no lock any more", w.tx)
    else: need(l == 0, "lock-held", "the lock is held (%x) although no transaction is open", l); need(w.c._lock_id is None, "lock-id", "the connection still believes it holds a lock")
    h = heap(w.db)
    need(sorted(ptrs(w.db)) == sorted(w.at.values()), "records", "the database holds %d records, the model %d", len(ptrs(w.db)), len(w.at))
    for i, m in w.model.items():
        r = w.h[i]._rec
        need(c_len(w.db, w.at[i]) == len(m), "size", "record %d has %d fields instead of %d", i, c_len(w.db, w.at[i]), len(m))
        for k, v in enumerate(m):
            try: g = wgdb.get_field(w.c._db, r, k)
            except Exception as e: raise Bad("unreadable", "field %d of record %d cannot be read: %s" % (k, i, e))
            need(lowval(w, g, v), "content", "field %d of record %d holds %s instead of %s", k, i, ev(g), ev(v))
    if w.idx and not w.tx:   # what the index finds is what the scan finds
        for v in (None, 1, 2, 7, "abc", LONG):
            q = wgdb.make_query(w.c._db, arglist=[(0, wgdb.COND_EQUAL, v)]); n = 0
            try:
                while 1: wgdb.fetch(w.c._db, q); n += 1
            except wgdb.error: pass
            e = sum(1 for m in w.model.values() if m and (same(m[0], v)))
            need(n == e, "index", "the indexed query for %s finds %d records, there are %d", ev(v), n, e)
def teardown(w):
    """everything deleted through the interface: all storage is given back"""
    Watch.cur = None
    if w.tx: getattr(w.c, "end_" + w.tx)()
    w.c.set_locking(1)
    if w.alive:
        if w.qopen: w.cur.close()
        for i, m in w.model.items():
            for k in range(len(m)): w.h[i].set_field(k, None)
        for i in list(w.model): w.h[i].delete()
        if w.base is not None: need(heap(w.db) == w.base, "storage", "after everything was deleted, the storage in use differs from that of the empty database: %s, %s", heap(w.db), w.base)
        need(vp_lock(w.db) == 0, "lock-held", "the lock is held at the end")
    w.h.clear(); w.gone = None
    d = w.c._db; w.cur = None
    if d is not None: need(rc(d) == 1, "ref-leak", "the database object has %d references more than it should", rc(d) - 1)
    d = None; w.c.close()
def histories():
    whitedb.wgdb = Watch()
    ops = SETS[int(opt.get("set", 0))]; depth = int(opt["depth"]); seen = set(); n = len(ops)
    def run(path, final):
        live0 = vp_live(); w = World()
        try:
            for j, k in enumerate(path):
                mut = w.model and repr(w.model)
                if replay: print("REPLAY step %d: %s" % (j, ops[k][0]))
                ops[k][1](w); st["transitions"] += 1
                if w.qopen and ops[k][0].split("(")[0].split(" ")[0] not in ("all", "match", "fetchone", "fetchall") and repr(w.model) != mut and mut is not None: w.expq = None
                if w.qopen and mut != (w.model and repr(w.model)): w.expq = None
                if final or j == len(path) - 1: check_world(w)
            seen.add(hash(w.key())); teardown(w)
        finally: Watch.cur = None
        w = None; need(vp_live() == live0, "c-leak", "%d allocated blocks were never freed", vp_live() - live0)
        st["traces"] += 1
    names = lambda p: "; ".join(ops[k][0] for k in p)
    if replay is not None: seqs = [tuple(replay)]
    else: seqs = (p for d in range(1, depth + 1) for p in itertools.product(range(n), repeat=d))
    for no, p in enumerate(seqs):
        if replay is None and no % nshards != shard: continue
        trace(list(p), names(p))
        try: run(p, replay is not None)
        except Bad as b: report(b.sig, b.msg, names(p), list(p)); return 1
        if no % 9973 == 0: samples.append(names(p))
    st["states"] += len(seen); return 0

resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
devnull = os.open(os.devnull, os.O_WRONLY); os.dup2(devnull, 2)
def journal_profile():
    """logging, dumps and replay through the module: every sequence of calls to a depth"""
    import shutil, tempfile
    depth = int(opt.get("depth", 4)); OPS = ["start_logging", "stop_logging", "add", "edit", "delete", "dump", "load", "lose the directory", "replay a missing file", "replay a file that is no journal"]
    top = os.getcwd(); work = tempfile.mkdtemp(dir=top); wid = -1; E = wgdb.error
    def table(d):
        res = []; r = None
        try: r = wgdb.get_first_record(d)
        except E: return res
        while r is not None:
            res.append([wgdb.get_field(d, r, i) for i in range(wgdb.get_record_len(d, r))])
            try: r = wgdb.get_next_record(d, r)
            except E: r = None
        return res
    def raised(f, *a):
        try: x = f(*a)
        except E: return True
        need(x is None, "journal-value", "%s returns %r", f.__name__, x); return False
    def run(seq):
        shutil.rmtree(work); os.mkdir(work); os.chdir(work); lost = False
        d = wgdb.attach_database(local=1, size=250000); rows = []; active = False; base = None; tracked = False; n = 0; dumped = None; logged = False; fd0 = len(os.listdir("/proc/self/fd"))
        D = lambda x: os.path.join(work, x)
        open(D("no"), "wb").write(b"this is not a journal" * 3)
        def recs():
            out = []; r = None
            try: r = wgdb.get_first_record(d)
            except E: return out
            while r is not None:
                out.append(r)
                try: r = wgdb.get_next_record(d, r)
                except E: r = None
            return out
        try:
            for o in seq:
                before = [list(x) for x in rows]
                if o == 0:
                    bad = raised(wgdb.start_logging, d)
                    if active: need(not bad, "journal-twice", "start_logging raises although logging is active")
                    elif lost: need(bad, "journal-lost", "start_logging is silent although no journal can be written")
                    else:
                        need(not bad, "journal-start", "start_logging raises"); active = True
                        if not rows and not logged: tracked = True; base = None
                        logged = True
                elif o == 1:
                    need(not raised(wgdb.stop_logging, d), "journal-stop", "stop_logging raises"); active = False
                elif o in (2, 3, 4):
                    rs = recs()
                    if o == 2:
                        n += 1; new = [n, "a text that is longer than thirty two characters, number %d" % n]
                        f = lambda: (lambda r: (wgdb.set_field(d, r, 0, new[0]), wgdb.set_field(d, r, 1, new[1])))(wgdb.create_record(d, 2))
                    elif not rs: continue
                    else:
                        x = rs[-1 if o == 3 else 0]; old = [wgdb.get_field(d, x, 0), wgdb.get_field(d, x, 1)]; need(old in rows, "journal-rows", "row %r appears", old); n += 1
                        f = (lambda: wgdb.set_field(d, x, 0, -n * 10**12)) if o == 3 else (lambda: wgdb.delete_record(d, x))
                    try: f(); ok = True
                    except E: ok = False
                    if ok:
                        if o == 2: rows.append(new)
                        elif o == 3: rows[rows.index(old)] = [-n * 10**12, old[1]]
                        else: rows.remove(old)
                        if not active: tracked = False
                    else: need(active and lost, "journal-write", "%s raises", OPS[o])
                    if active and lost: return
                elif o == 5:
                    bad = raised(wgdb.dump, d, D("dump"))
                    if lost: return   # an active journal cannot be started again
                    need(not bad, "journal-dump", "dump raises"); dumped = before; base = True; tracked = True
                elif o == 6:
                    bad = raised(wgdb.load, d, D("dump"))
                    if dumped is None: need(bad, "journal-load", "loading a missing dump is silent")
                    elif lost: return
                    else: need(not bad, "journal-load", "load raises"); rows = [list(x) for x in dumped]; base = True; tracked = True
                elif o == 7:
                    if lost: continue
                    x = tempfile.mkdtemp(dir=top); os.chdir(x); os.rmdir(x); lost = True
                else:
                    if lost and active: continue
                    need(raised(wgdb.replay_log, d, D("missing" if o == 8 else "no")), "journal-replay-bad", "replaying a file that is %s is silent", "missing" if o == 8 else "no journal")
                need(sorted(table(d)) == sorted(rows), "journal-rows", "after %s the table is %r instead of %r", OPS[o], table(d), rows)
            if lost: return
            j = D("wgdb.journal.0")
            if tracked and active and os.path.exists(j):
                shutil.copy(j, D("copy")); e = wgdb.attach_database(local=1, size=250000)
                if base: wgdb.load(e, D("dump"))
                need(not raised(wgdb.replay_log, e, D("copy")), "journal-replay", "replaying the journal raises"); need(sorted(table(e)) == sorted(rows), "journal-replayed", "replaying the journal gives %r instead of %r", table(e), rows); extra["replays"] = extra.get("replays", 0) + 1; st["nontrivial"] += 1
                wgdb.detach_database(e)
            wgdb.detach_database(d); d = None; need(len(os.listdir("/proc/self/fd")) <= fd0, "journal-files", "files are left open")
        finally:
            os.chdir(top)
    seqs = itertools.product(range(len(OPS)), repeat=depth); failed = 0
    for seq in seqs:
        wid += 1
        if (wid % nshards != shard and not replay) or (replay and replay != [wid]): continue
        desc = ", ".join(OPS[o] for o in seq)
        if replay: print("REPLAY case %d: %s" % (wid, desc))
        trace([wid], desc); st["evaluations"] += 1
        if len(samples) < 3 and wid % 997 == 5: samples.append(desc)
        try: run(seq)
        except Bad as b: report(b.sig, b.msg, desc, [wid]); failed += 1
        except Exception as x: report("journal-exception", repr(x), desc, [wid]); failed += 1
        if failed > 5: break
    shutil.rmtree(work); return 1 if failed else 0
finish({"values": values, "args": args_profile, "hist": histories, "journal": journal_profile}[opt["profile"]]())
