"""Which explorers decide which property, and with what bounds."""
import os, subprocess, json, glob, shutil
from run import sh as shell, HERE as HERE_
PROPS, META, NA = {}, {}, {}
def meta(i, note, technique="exhaustive bounded exploration of operation sequences on the real code against a reference model", level="model_checking"): META[i] = (technique, level, note)
def prop(f): PROPS[f.__name__] = f; return f

def wrapped(c, src, lib=None, **kw):
    return c.harness(src, lib or c.lib(), cflags="-O1 -DWRAP_MALLOC", wrap=c.MALLOC, **kw)

SEQ_ASSUME = ["single process, no concurrent access", "bounds: population, value alphabet and depth as listed under jobs",
              "states merged only when the complete database image and the complete model coincide"]
@prop
def C04(c):
    b = wrapped(c, "records.cc"); d = 0 if c.quick else 1
    c.assumptions = SEQ_ASSUME
    c.job(b, ["--profile=types", "--depth=%d" % (3 + d)], shards=8)
    c.job(b, ["--profile=types1", "--depth=%d" % (5 + d)], shards=4)
    c.job(b, ["--profile=lengths", "--depth=%d" % (5 + d)], shards=2)
@prop
def C05(c):
    b = wrapped(c, "records.cc"); d = 0 if c.quick else 1
    c.assumptions = SEQ_ASSUME
    c.job(b, ["--profile=scan", "--depth=%d" % (6 + d)], shards=4)
    c.job(b, ["--profile=scanspecial", "--depth=%d" % (6 + d)], shards=4)
    c.job(b, ["--profile=scanfull", "--depth=%d" % (5 + d)], shards=4)
    c.job(b, ["--profile=lengths", "--depth=%d" % (5 + d)], shards=2)
@prop
def C07(c):
    b = wrapped(c, "records.cc"); d = 0 if c.quick else 1
    c.assumptions = SEQ_ASSUME
    c.job(b, ["--profile=links", "--slots=3", "--fields=2", "--depth=%d" % (4 + 2 * d)], shards=8)
    c.job(b, ["--profile=links", "--slots=2", "--fields=2", "--depth=%d" % (6 + d)], shards=4)
    c.job(b, ["--profile=links", "--slots=2", "--fields=3", "--depth=%d" % (5 + d)], shards=4)
@prop
def C08(c):
    lib = c.lib(conf=dict(STRHASH_SIZE="0.012")); b = wrapped(c, "records.cc", lib); d = 0 if c.quick else 1
    c.assumptions = SEQ_ASSUME
    c.job(b, ["--profile=strings", "--depth=%d" % (4 + d), "--vals=6"], shards=8)
    c.job(b, ["--profile=strings", "--depth=%d" % (3 + d)], shards=4)
    c.job(b, ["--profile=strings2", "--depth=%d" % (4 + d)], shards=8)

meta("C04", "all set/copy/delete sequences over 16 values of every type and storage class; bounded depth and population")
meta("C05", "all create/delete sequences over all size classes incl. histories crossing block boundaries; bounded depth")
meta("C07", "all link/unlink/delete sequences over small record graphs incl. self and duplicate references")
meta("C08", "all sequences over colliding / nearly equal long texts with a tiny string hash table")

# ---------------------------------------------------------------- concurrency
CONC_WRAP = ("syscall", "nanosleep", "usleep", "sched_yield")
CONC_ASSUME = ["sequentially consistent memory (x86 store buffering is not modelled)", "a wake-up of several sleepers on one word wakes them in client order",
  "spin and sleep constants reduced so that spin loops close into cycles of the state graph"]
def lockbin(c, proto, timeouts=True, nodes=4):
    sub = {"Db/dblock.c": [(r"#define SPIN_COUNT \d+", "#define SPIN_COUNT 1"), (r"#define SLEEP_NSEC \d+", "#define SLEEP_NSEC %d" % (400000 if timeouts and proto != 3 else 0))],
           "Db/dblock.h": [(r"#define DEFAULT_LOCK_TIMEOUT \d+", "#define DEFAULT_LOCK_TIMEOUT 1")] + ([] if timeouts else [(r"#define USE_LOCK_TIMEOUT 1", "")]),
           "Db/dballoc.c": [(r"#define MAX_LOCKS \d+", "#define MAX_LOCKS %d" % nodes)]}
    lib = c.lib(conf=dict(LOCK_PROTO=proto), sub=sub, fileflags={"Db/dblock.c": "-fsanitize=thread -fno-builtin"})
    return c.harness("locks.cc", lib, cflags="-O1 -DNLOCKS=%d" % nodes, wrap=CONC_WRAP)
def lockjobs(c, args):
    c.assumptions = CONC_ASSUME
    T = dict(timeout=3000, budget=None if c.quick else 1500)
    for proto in (1, 2, 3):
        for to in (True, False):
            b = lockbin(c, proto, to); t = "--timeouts=%d" % to
            two = ["WR,RW", "WW,WW", "WR,WR", "WRW,R", "RW,RW"]; three = ["W,W,W", "W,R,R", "W,W,R", "R,R,R"]; more = []
            if proto != 3: more = ["WR,RW,WR", "WW,RR,RW", "W,R,W,R", "R,R,W,W"]
            elif not to: more = ["WR,RW,W", "RR,W,R"]
            if not c.quick:
                two += ["WRWR,RWRW"]; more += ["WR,RW,W", "WW,R,R", "RW,R,W", "RR,RW,W"]
                if proto != 3 or not to: more += ["R,W,R,R", "W,R,W,R"]
            for s in dict.fromkeys(two): c.job(b, args + [t, "--script=" + s, "--faults=%d" % (2 if proto == 3 else 0)], **T)
            for s in dict.fromkeys(three): c.job(b, args + [t, "--script=" + s, "--faults=%d" % (2 if proto == 3 else 0)], **T)
            for s in dict.fromkeys(more): c.job(b, args + [t, "--script=" + s, "--faults=0", "--maxstates=%d" % (12000000 if c.quick else 25000000)], **T)
@prop
def C01(c): lockjobs(c, ["--excl=1", "--prog=0"])
@prop
def C02(c):
    lockjobs(c, ["--excl=0", "--prog=1"])
    for proto in (1, 2, 3):    # shared holders let each other in: each holds until all have the lock
        for to in (True, False):
            for s in ["w,T,T", "w,T,T,T", "T,T,T"] + (["T,W,T", "w,T,W,T", "w,T,R,T"] if proto == 3 and to else []) + (["T,W,T,T", "w,W,T,T"] if proto == 3 and to and not c.quick else []): c.job(lockbin(c, proto, to), ["--excl=0", "--prog=1", "--timeouts=%d" % to, "--patient", "--script=" + s, "--faults=0", "--maxstates=%d" % (12000000 if c.quick else 25000000)], timeout=3000, budget=None if c.quick else 1500)
    for to in (True, False):   # fewer queue slots than clients
        b = lockbin(c, 3, to, nodes=1 if c.quick else 2)
        for s in (["WR,RW", "W,R,W"] if c.quick else ["W,R,R", "WR,RW,W"]): c.job(b, ["--excl=0", "--prog=1", "--timeouts=%d" % to, "--script=" + s, "--faults=0"], timeout=3000)

CONC_TECH = "exhaustive stateful exploration of all thread interleavings of the real lock code at memory-access granularity, incl. interrupted, spurious and timed-out waits"
meta("C01", "all interleavings of 2-4 clients acquiring/releasing read and write locks, three lock protocols, with and without time limits", CONC_TECH)
meta("C02", "on the complete state graph: every reachable state can reach completion, no lost wake-up, nothing left held, slots returned", CONC_TECH)

@prop
def C03(c):
    c.assumptions = CONC_ASSUME
    sub = {"Db/dballoc.c": [(r"#define MAX_LOCKS \d+", "#define MAX_LOCKS 4")]}; ff = {"Db/dblock.c": "-fsanitize=thread -fno-builtin", "Db/dbdata.c": "-fsanitize=thread -fno-builtin"}
    for proto in (3, 1):
        lib = c.lib(conf=dict(LOCK_PROTO=proto, USE_DBLOG=1, DBLOG_DIR='"."'), sub=sub, fileflags=ff); b = c.harness("atomic.cc", lib, cflags="-O1", wrap=CONC_WRAP)
        if proto == 3: c.job(b, ["--mode=refuse"], shards=4)
        if proto == 1 and c.quick: c.job(b, ["--lens=11"]); continue
        c.job(b, ["--lens=22"], shards=4); c.job(b, ["--lens=111"], shards=4); c.job(b, ["--lens=31", "--alpha=6"], shards=2)
        if proto == 3: c.job(b, ["--lens=211"], shards=8); c.job(b, ["--lens=32", "--alpha=6"], shards=8); c.job(b, ["--lens=1111", "--alpha=6"], shards=8)
        if not c.quick: c.job(b, ["--lens=222", "--alpha=5"], shards=8); c.job(b, ["--lens=2111", "--alpha=4"], shards=8); c.job(b, ["--lens=33", "--alpha=7"], shards=8)
meta("C03", "all interleavings of 2-4 clients over all operation lists of bounded length, every outcome checked for linearizability; all preconditions enumerated", CONC_TECH)

# ---------------------------------------------------------------- indexes
def ixbin(c, node=2, hashlen=2, conf=None):
    sub = {"Db/dballoc.h": [(r"#define WG_TNODE_ARRAY_SIZE \d+", "#define WG_TNODE_ARRAY_SIZE %d" % node), (r"#define DEFAULT_IDXHASH_LENGTH \d+", "#define DEFAULT_IDXHASH_LENGTH %d" % hashlen)]}
    return wrapped(c, "index.cc", c.lib(sub=sub, conf=conf))
def shapebin(c, node, conf=None):
    return c.harness("ttshape.cc", c.lib(sub={"Db/dballoc.h": [(r"#define WG_TNODE_ARRAY_SIZE \d+", "#define WG_TNODE_ARRAY_SIZE %d" % node)]}, conf=conf))
TCONF = [None, dict(TTREE_CHAINED_NODES=None), dict(TTREE_SINGLE_COMPARE=None), dict(TTREE_CHAINED_NODES=None, TTREE_SINGLE_COMPARE=None)]
def oombin(c):
    sub = {"Db/dballoc.h": [(r"#define WG_TNODE_ARRAY_SIZE \d+", "#define WG_TNODE_ARRAY_SIZE 2"), (r"#define DEFAULT_IDXHASH_LENGTH \d+", "#define DEFAULT_IDXHASH_LENGTH 2")]}
    return c.harness("oom.cc", c.lib(sub=sub), wrap=["wg_alloc_gints", "wg_alloc_fixlen_object"])
@prop
def C10(c):
    c.assumptions = SEQ_ASSUME; b = oombin(c); d = 0 if c.quick else 1
    for p in ("plain", "hash", "mixed", "icreate", "docs"): c.job(b, ["--profile=" + p, "--depth=%d" % (2 + d)], shards=4, timeout=7000)
    c.job(b, ["--profile=docs", "--ix=1", "--depth=%d" % (2 + d)], shards=2, timeout=7000)
    for s in (0, 1, 2):
        c.job(b, ["--profile=ttree", "--seq=%d" % s, "--depth=1"])
        c.job(b, ["--profile=ttree", "--seq=%d" % s, "--depth=%d" % (2 + d), "--deep=%d" % d], shards=4, timeout=7000)
    c.job(b, ["--profile=ttree", "--pre=5", "--seq=2", "--depth=1"])
    c.job(b, ["--profile=tlinks", "--depth=1"]); c.job(b, ["--profile=tlinks", "--depth=%d" % (2 + d), "--deep=%d" % d], shards=4, timeout=7000)
meta("C10", "all operation sequences to a bounded depth; in every state every operation is run with every storage area exhausted at every point of the operation, followed by every further operation")
def oomheap(c):
    sub = {"Db/dballoc.h": [(r"#define WG_TNODE_ARRAY_SIZE \d+", "#define WG_TNODE_ARRAY_SIZE 2"), (r"#define DEFAULT_IDXHASH_LENGTH \d+", "#define DEFAULT_IDXHASH_LENGTH 2")]}
    return c.harness("oom.cc", c.lib(sub=sub), cflags="-O1 -DWRAP_MALLOC", wrap=["wg_alloc_gints", "wg_alloc_fixlen_object"] + list(c.MALLOC))
@prop
def C39(c):
    c.assumptions = SEQ_ASSUME; d = 0 if c.quick else 1
    b = oomheap(c)
    for p in ("plain", "ttree", "tlinks"): c.job(b, ["--profile=" + p, "--heap=1", "--depth=%d" % (2 + d)], shards=2)
    for p in ("hash", "mixed", "icreate"): c.job(b, ["--profile=" + p, "--heap=1", "--modes=0", "--depth=%d" % (2 + d)], shards=4)
    h = wrapped(c, "heapfail.cc", c.lib(conf=dict(USE_DBLOG=1, DBLOG_DIR='"."')))
    for ix in range(4): c.job(h, ["--ix=%d" % ix, "--log=1"], shards=2)
    c.job(wrapped(c, "heapfail.cc"), ["--ix=3"])
    j = jqbin(c)
    for p in ("values", "arrays"): c.job(j, ["--profile=" + p, "--heap=1", "--depth=%d" % (2 + d)], shards=4)
    c.job(j, ["--profile=big", "--heap=1", "--n=%d" % (45 + 60 * d), "--step=9"], shards=4)
meta("C39", "exhaustive enumeration on the real code: in every explored state every operation is run once for every request it makes to the process heap, that request refused, alone and with all later ones; answer, content, storage, lock, files and heap compared afterwards")
@prop
def C11(c):
    c.assumptions = SEQ_ASSUME + ["shape exploration: the tree code observes keys only by comparing them, so states with equal tree structure and equal order pattern of keys are merged"]
    d = 0 if c.quick else 1
    for n, N in ((2, 8), (4, 10), (3, 8)) if c.quick else ((2, 9), (3, 10), (4, 11), (5, 12)): c.job(shapebin(c, n), ["--n=%d" % N], label="all tree shapes, node size %d, up to %d records" % (n, N), timeout=7000)
    for conf in TCONF[1:]:
        for n, N in ((2, 7), (3, 8)) if c.quick else ((2, 8), (3, 9), (4, 10)): c.job(shapebin(c, n, conf), ["--n=%d" % N], label="all tree shapes, node size %d, up to %d records, without %s" % (n, N, "/".join(conf)), timeout=7000)
    for n in (2, 3):
        b = ixbin(c, n)
        c.job(b, ["--profile=ttree", "--slots=5", "--depth=%d" % (6 + d)], shards=4)
    b = ixbin(c, 2)
    c.job(b, ["--profile=ttypes", "--depth=%d" % (3 + d)], shards=4)
    c.job(b, ["--profile=tlinks", "--depth=%d" % (4 + d)], shards=4)
    c.job(b, ["--profile=fan", "--max=%d" % (40 if c.quick else 100)])
    c.job(b, ["--profile=tlinks", "--atomic=1", "--depth=%d" % (4 + d)], shards=4)
    c.job(b, ["--profile=templ", "--pre=1", "--depth=%d" % (4 + d)], shards=4)
@prop
def C12(c):
    c.assumptions = SEQ_ASSUME; d = 0 if c.quick else 1
    b = ixbin(c)
    c.job(b, ["--profile=hash", "--depth=%d" % (5 + d)], shards=8)
    c.job(b, ["--profile=htypes", "--depth=%d" % (3 + d)], shards=4)
    c.job(b, ["--profile=htypes", "--two=1", "--depth=%d" % (2 + d)], shards=4)
    c.job(b, ["--profile=hlinks", "--depth=%d" % (4 + d)], shards=4)
    c.job(b, ["--profile=hlinks", "--atomic=1", "--depth=%d" % (3 + d)], shards=4)
    c.job(b, ["--profile=templh", "--pre=1", "--depth=%d" % (4 + d)], shards=4)
@prop
def C13(c):
    c.assumptions = SEQ_ASSUME; d = 0 if c.quick else 1
    b = ixbin(c)
    c.job(b, ["--profile=ctl", "--depth=%d" % (5 + d)], shards=8)
    c.job(b, ["--profile=templ", "--depth=%d" % (5 + d)], shards=4)
    c.job(b, ["--profile=templ", "--pre=1", "--depth=%d" % (3 + d)], shards=4)
    c.job(b, ["--profile=templh", "--depth=%d" % (5 + d)], shards=4)
    c.job(b, ["--profile=templh", "--pre=1", "--depth=%d" % (4 + d)], shards=4)

def qbin(c, node=2, page=2, conf=None):
    return wrapped(c, "query.cc", c.lib(sub={"Db/dballoc.h": [(r"#define WG_TNODE_ARRAY_SIZE \d+", "#define WG_TNODE_ARRAY_SIZE %d" % node), (r"#define DEFAULT_IDXHASH_LENGTH \d+", "#define DEFAULT_IDXHASH_LENGTH 2")], "Db/dbquery.c": [(r"#define QUERY_RESULTSET_PAGESIZE \d+", "#define QUERY_RESULTSET_PAGESIZE %d" % page)]}, conf=conf))
@prop
def C14(c):
    c.assumptions = SEQ_ASSUME; t = 0 if c.quick else 1
    for n, N in ((2, 7), (3, 7)) if c.quick else ((2, 8), (3, 9), (4, 9)): 
        for conf in TCONF: c.job(shapebin(c, n, conf), ["--n=%d" % N, "--ranges=1"], label="all range queries on every reachable tree shape, node size %d, up to %d records, without %s" % (n, N, "/".join(conf or ["-"])), timeout=7000)
    for node, conf in ((2, TCONF[0]), (3, TCONF[3])):
        b = qbin(c, node, 2 if node == 2 else 3, conf)
        c.job(b, ["--profile=tables", "--rows=%d" % (3 if node == 2 else 2 + t), "--alpha=6"], shards=8, timeout=7000)
        c.job(b, ["--profile=triples"], shards=4); c.job(b, ["--profile=types"], shards=4); c.job(b, ["--profile=match"], shards=4); c.job(b, ["--profile=pages", "--rows=%d" % (12 + 20 * t)]); c.job(b, ["--profile=wide"])
    b = qbin(c)
    c.job(b, ["--profile=tables", "--rows=%d" % (3 + t), "--alpha=%d" % (4 if c.quick else 6)], shards=8, timeout=7000)
    c.job(qbin(c, 10, 63), ["--profile=pages", "--rows=190", "--step=11"], shards=2); c.job(b, ["--profile=big", "--size=3000000"])
@prop
def C15(c):
    c.assumptions = SEQ_ASSUME; t = 0 if c.quick else 1
    for node, conf in ((2, TCONF[0]), (3, TCONF[3])):
        b = qbin(c, node, 2, conf)
        c.job(b, ["--profile=tables", "--find=1", "--rows=%d" % (4 + t), "--alpha=6"], shards=8)
        c.job(b, ["--profile=types", "--find=1"], shards=2); c.job(b, ["--profile=pages", "--find=1", "--rows=%d" % (20 + 30 * t)]); c.job(b, ["--profile=wide", "--find=1"])

meta("C14", "all tables, index sets and conjunctions within bounds, and all two-condition ranges on every reachable index shape, each answer compared with a reference scan", "exhaustive bounded enumeration of tables x indexes x queries on the real code against a reference model; closed state space of index shapes")
meta("C15", "all tables, index sets, relations and values within bounds, each iteration followed to its end", "exhaustive bounded enumeration of tables x indexes x iterations on the real code against a reference model")
@prop
def C17(c):
    c.level = "exploration"; c.rule = "every ordered pair and every triple of the value alphabet, each value as stored, stored again, as query parameter and as external value; non-trivial: the two values differ"
    b = wrapped(c, "values.cc")
    c.job(b, ["--profile=order"], shards=4); c.job(b, ["--profile=deep"]); c.job(b, ["--profile=external"], shards=2)
@prop
def C32(c):
    c.assumptions = SEQ_ASSUME; t = 0 if c.quick else 1
    b = wrapped(c, "values.cc")
    for ix in (0, 1): c.job(b, ["--profile=params", "--index=%d" % ix], shards=2); c.job(b, ["--profile=seq", "--index=%d" % ix, "--depth=%d" % (5 + t)], shards=4); c.job(b, ["--profile=seq", "--slots=3", "--index=%d" % ix, "--depth=%d" % (4 + t)], shards=4)
meta("C17", "every pair and triple over values of every type and storage class, nested records at every depth, parameters and external values", "exhaustive enumeration of all pairs and triples of a value alphabet against a reference order, on the real code", "exploration")
meta("C32", "all sequences of prepare/query/fetch/release; every parameter x operator x stored value with the segment write-protected")
def jqbin(c, page=2): return wrapped(c, "jsonq.cc", c.lib(sub={"Db/dballoc.h": [(r"#define WG_TNODE_ARRAY_SIZE \d+", "#define WG_TNODE_ARRAY_SIZE 2"), (r"#define DEFAULT_IDXHASH_LENGTH \d+", "#define DEFAULT_IDXHASH_LENGTH 3")], "Db/dbquery.c": [(r"#define QUERY_RESULTSET_PAGESIZE \d+", "#define QUERY_RESULTSET_PAGESIZE %d" % page)]}))
@prop
def C06(c):
    c.assumptions = SEQ_ASSUME; d = 0 if c.quick else 1
    small = {"Db/dballoc.h": [(r"#define INITIAL_SUBAREA_SIZE \d+", "#define INITIAL_SUBAREA_SIZE 2048"), (r"#define MINIMAL_SUBAREA_SIZE \d+", "#define MINIMAL_SUBAREA_SIZE 1024")]}
    b = wrapped(c, "heap.cc", c.lib(sub=small)); b0 = wrapped(c, "heap.cc")
    c.job(b, ["--profile=alloc", "--sizes=4,5,8,31,32,33", "--live=5", "--depth=%d" % (6 + d)], shards=8)
    c.job(b, ["--profile=alloc", "--sizes=4,40,63,64,100,180", "--live=5", "--depth=%d" % (6 + d)], shards=8)
    c.job(b0, ["--profile=alloc", "--sizes=3,250,500,1000,1020", "--live=4", "--depth=%d" % (6 + d)], shards=8)
    for w in range(5): c.job(b, ["--profile=fixed", "--which=%d" % w, "--live=5", "--depth=%d" % (12 + d)], shards=2)
    c.job(asanbin(c, "tiny.cc"), [], shards=2, env=AENV, label="small databases")
    for m in range(4): c.job(b, ["--profile=repeat", "--rounds=4000", "--mix=%d" % m, "--depth=%d" % (6 if c.quick or m == 3 else 8)], shards=4)
meta("C06", "all sequences of allocations and frees up to a bound, with the content, structure, merging and reuse checked at every step; every balanced workload up to a length repeated until the complete database image repeats, which bounds its space for every number of repetitions")
@prop
def C31(c):
    d = 0 if c.quick else 1
    c.assumptions = ["memory is exhausted when 8 GB have been requested", "blocks larger than 8 KB are written and compared at both ends only"]
    b = c.harness("mpool.cc", c.lib(), cflags="-O1", wrap=("malloc", "free"))
    c.job(b, ["--profile=small", "--depth=%d" % (4 + d)], shards=8)
    c.job(b, ["--profile=big", "--depth=%d" % (4 + d)], shards=8)
    c.job(b, ["--profile=cells", "--depth=%d" % 3], shards=8)
    c.job(b, ["--profile=long", "--depth=1"], shards=2)
    c.level = "exploration"; c.rule = "a case counts if the pool had to be extended, or at least two cells were built"
meta("C31", "all sequences of requests up to a length, from sizes around the block and integer limits, with each malloc failing in turn; all sequences of cell and atom constructions; the blocks are compared with what malloc was asked for", level="exploration")
@prop
def C16(c):
    c.assumptions = SEQ_ASSUME; d = 0 if c.quick else 1
    b = jqbin(c)
    c.job(b, ["--profile=values", "--depth=%d" % (5 + d)], shards=8)
    c.job(b, ["--profile=values", "--triples=1", "--depth=%d" % (3 + d)], shards=4)
    c.job(b, ["--profile=arrays", "--depth=%d" % (4 + d)], shards=8)
    c.job(b, ["--profile=deep", "--depth=%d" % (5 + d)], shards=8)
    c.job(jqbin(c, 63), ["--profile=big", "--n=%d" % (150 if c.quick else 400)], shards=8)
    c.job(b, ["--profile=big", "--n=40"], shards=4)
    c.job(jqbin(c, 63), ["--profile=nest", "--arr=%d" % (12 if c.quick else 70)], shards=8)
    c.job(hashbin(c, None, "3UL, 5UL, 7UL, 11UL, 13UL"), ["--profile=set", "--depth=%d" % (5 + d)], shards=4)
    c.job(hashbin(c), ["--profile=large", "--n=20000"], shards=4)
meta("C16", "all histories of adding, changing, deleting documents and document indexes over a catalog; every single, paired and some triple queries compared with a reference search after each step; all document counts up to a bound for the result-set strategies")
@prop
def C26(c):
    c.assumptions = SEQ_ASSUME; d = 0 if c.quick else 1
    b = wrapped(c, "jsonhelp.cc", c.lib(sub={"Db/dballoc.h": [(r"#define WG_TNODE_ARRAY_SIZE \d+", "#define WG_TNODE_ARRAY_SIZE 2"), (r"#define DEFAULT_IDXHASH_LENGTH \d+", "#define DEFAULT_IDXHASH_LENGTH 3")]}))
    for ix in (0, 1): c.job(b, ["--index=%d" % ix, "--depth=%d" % (5 + d)], shards=8); c.job(b, ["--profile=deep", "--index=%d" % ix, "--depth=%d" % (4 + d)], shards=4)
    c.job(b, ["--slots=3", "--depth=%d" % (3 + d)], shards=8)
meta("C26", "all histories of importing or building documents, fragments and parameters, attaching and detaching parts, referring to parts from outside and deleting; structure, owner of every part, scan, query and storage compared after each step")
ASAN = "-O1 -fsanitize=address,undefined -fno-sanitize=alignment,shift -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
AENV = dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", UBSAN_OPTIONS="abort_on_error=1")
def asanbin(c, src, lib=None, flags="", **kw):
    return c.harness(src, lib or c.lib(cflags=ASAN), cflags=ASAN + " " + flags, **kw)
@prop
def C24(c):
    c.level = "exploration"; c.rule = "every document of the enumeration imported by every entry point, read back, exported, parsed by an independent reader and imported again; non-trivial: all"
    b = wrapped(c, "json.cc"); a = asanbin(c, "json.cc"); t = ["--tmp=" + c.tmp]
    c.job(b, ["--profile=trees", "--depth=%d" % (5 if c.quick else 6)] + t, shards=8)
    c.job(b, ["--profile=chars"] + t, shards=4); c.job(a, ["--profile=values"] + t, shards=8, env=AENV); c.job(a, ["--profile=chunks", "--k=%d" % (2 if c.quick else 6)] + t, shards=8, env=AENV)
meta("C24", "all document trees up to a node count over a scalar/key alphabet, every Unicode character raw and escaped, boundary numbers, every alignment of a document to the 16384-byte chunk border, every total size around it", "exhaustive enumeration of documents and of their delivery in pieces, on the real code against an independent JSON reader", "exploration")
@prop
def C25(c):
    c.level = "exploration"; c.rule = "every text of the enumeration given to the check function and all four imports; non-trivial: accepted texts"
    b = wrapped(c, "json.cc"); a = asanbin(c, "json.cc"); t = ["--tmp=" + c.tmp]
    c.job(b, ["--profile=texts", "--depth=%d" % (5 if c.quick else 6)] + t, shards=8); c.job(a, ["--profile=mutate"] + t, shards=8, env=AENV); c.job(a, ["--profile=texts", "--depth=3"] + t, shards=4, env=AENV)
meta("C25", "all token sequences up to a length, all one-byte changes of rich documents, all nesting depths, numbers out of range; agreement of the check with four imports, database image unchanged after refusal", "exhaustive enumeration of input texts on the real code against an independent JSON reader", "exploration")
# ---------------------------------------------------------------- journal
JCONF = dict(USE_DBLOG=1, USE_DATABASE_HANDLE=1, DBLOG_DIR='"."')
def jlib(c, **kw): return c.lib(conf=dict(JCONF, STRHASH_SIZE="0.012"), cflags="-O1 -U_FORTIFY_SOURCE", **kw)
def jbin(c, **kw): return c.harness("journal.cc", jlib(c, **kw), cflags="-O1 -U_FORTIFY_SOURCE", wrap=("write", "open"))
def hashbin(c, cap=None, primes=None):
    s = []
    if cap: s += [(r"#define GINTHASH_BUCKETCAP \d+", "#define GINTHASH_BUCKETCAP %d" % cap), (r"GINTHASH_SCRAMBLE\(v\) +\(rehash_gint\(v\)\)", "GINTHASH_SCRAMBLE(v) (v)")]
    if primes: s += [(r"389UL, 769UL, 1543UL, 3079UL, 6151UL", primes)]
    return c.harness("hashes.cc", c.lib(sub={"Db/dbhash.c": s} if s else {}), cflags="-O1")
@prop
def C18(c):
    b = jbin(c); d = 0 if c.quick else 1
    for cap in (1, 2): c.job(hashbin(c, cap), ["--profile=trans", "--depth=%d" % (6 + d)], shards=4, label="translation table, buckets of %d" % cap)
    c.job(hashbin(c), ["--profile=large", "--n=%d" % (50000 if c.quick else 1000000)], shards=4)
    c.assumptions = SEQ_ASSUME
    c.job(b, ["--profile=values", "--depth=%d" % (3 + 0 * d)], shards=4)
    b1 = jbin(c, sub={"Db/dbhash.c": [(r"#define GINTHASH_BUCKETCAP \d+", "#define GINTHASH_BUCKETCAP 1")]})
    for base in (0, 1):
        b = b1 if base else b
        c.job(b, ["--profile=mixed", "--depth=%d" % (3 + d), "--base=%d" % base], shards=8)
        for v in (0, 1, 2): c.job(b, ["--profile=reuse", "--val=%d" % v, "--depth=%d" % (5 + d), "--base=%d" % base], shards=2)
        c.job(b, ["--profile=held", "--depth=%d" % (4 + d), "--base=%d" % base], shards=4)
@prop
def C19(c):
    b = jbin(c); d = 0 if c.quick else 1
    c.assumptions = SEQ_ASSUME
    for base in (0, 1):
        c.job(b, ["--profile=tear", "--depth=%d" % (3 + d - base), "--base=%d" % base], shards=4)
        c.job(b, ["--profile=faults", "--faults=%d" % (1 + d), "--depth=4", "--base=%d" % base], shards=8)
@prop
def C22(c):
    lib = jlib(c, sub={"Db/dblog.h": [(r"#define WG_JOURNAL_MAX_BACKUPS \d+", "#define WG_JOURNAL_MAX_BACKUPS 2")]})
    b = c.harness("rotate.cc", lib, cflags="-O1"); d = 0 if c.quick else 1
    c.assumptions = SEQ_ASSUME + ["at most 2 backups configured in the checked build (10 in the shipped one)", "file modification times of successive actions differ"]
    c.job(b, ["--depth=%d" % (7 + d)], shards=16)
    c.job(b, ["--depth=%d" % (6 + d), "--lose"], shards=16)
def dumpbin(c, kind="log", **conf):
    base = dict(JCONF) if kind == "log" else {}
    base.update(STRHASH_SIZE="0.012", **conf)
    return c.harness("dump.cc", c.lib(conf=base, sub={"Db/dballoc.h": [(r"#define WG_TNODE_ARRAY_SIZE \d+", "#define WG_TNODE_ARRAY_SIZE 2"), (r"#define DEFAULT_IDXHASH_LENGTH \d+", "#define DEFAULT_IDXHASH_LENGTH 3")]}, cflags="-O1 -U_FORTIFY_SOURCE"), cflags="-O1 -U_FORTIFY_SOURCE", wrap=("fopen", "malloc"), ldflags="-lpthread")
@prop
def C20(c):
    d = 0 if c.quick else 1; c.assumptions = SEQ_ASSUME + ["databases are local memory images of the same build; sizes 8 and 1 byte below, exactly at and above the used part"]
    for k in ("log", "nolog"):
        b = dumpbin(c, k); c.job(b, ["--profile=twin", "--depth=%d" % (2 + (k == "log") if c.quick else 3), "--post=%d" % (1 + d)], shards=16, label="twins, %s" % k)
        c.job(b, ["--profile=readers"], shards=4, label="lock clients at every I/O point, %s" % k)
    c.job(dumpbin(c, "log"), ["--profile=twin", "--depth=1", "--post=%d" % (2 + d)])
    for lp in (1, 2): c.job(dumpbin(c, "nolog", LOCK_PROTO=lp), ["--profile=readers"], shards=4, label="lock clients, lock protocol %d" % lp)
@prop
def C21(c):
    b = dumpbin(c); f = []; c.level = "fault_enumeration"; c.rule = "one damaged file, header variant or failing I/O call per case; non-trivial: the file differs from the original, or the fault was reached"
    for i, conf in enumerate([dict(TTREE_CHAINED_NODES=None), dict(USE_BACKLINKING=None), dict(USE_CHILD_DB=None), dict(USE_REASONER=1), dict(LOCK_PROTO=1), dict(USE_INDEX_TEMPLATE=None)]):
        v = dumpbin(c, "log", **conf); c.building[v].result(); n = os.path.join(c.tmp, "_".join("%s-%s" % kv for kv in conf.items()) + ".dump"); 
        if subprocess.run([v, "--make=" + n], cwd=c.tmp).returncode: raise RuntimeError("cannot make " + n)
        f.append(n)
    c.job(b, ["--profile=damage", "--mode=0", "--step=%d" % (16 if c.quick else 1)], shards=8)
    c.job(b, ["--profile=damage", "--mode=1", "--bits=%d" % (1 if c.quick else 8)], shards=8)
    c.job(b, ["--profile=damage", "--mode=2"]); c.job(b, ["--profile=damage", "--mode=3", "--foreign=" + ",".join(f)])
    for lg in (0, 1): c.job(b, ["--profile=faults", "--log=%d" % lg], shards=2)
    c.job(dumpbin(c, "nolog"), ["--profile=faults"], shards=2, label="faults, without journalling")
meta("C20", "all operation sequences before the dump, imports into new and used databases of every size class, every continuation compared byte by byte with the undumped twin; lock clients at every I/O point of the dump")
meta("C21", "every truncation, every byte altered, blocks lost or exchanged, every header field variant with a correct checksum, dumps of six other builds, every I/O call of dump and import failing or short", "exhaustive enumeration of damaged files and I/O faults on the real code", "fault_enumeration")
meta("C18", "all sequences of data operations over every value type, links, deletes, refused calls, shared texts held by the client and addresses reused, replayed into databases with equal and with shifted addresses")
meta("C19", "every byte position of the journals of all short histories as crash point, foreign files, every write/open call failing or short", "exhaustive enumeration of crash points and I/O faults over all histories to a depth bound on the real code")
meta("C22", "all sequences of start/stop/write/replay/dump/import by two handles, journal files compared with a model after each step")
meta("C11", "every reachable ordered-index shape up to N records (closed state spaces, all node sizes and compile-time variants) plus all operation sequences over every value type, links and filters")
meta("C12", "all operation sequences over single- and multi-column hash indexes with a two-bucket table, every value type incl. values differing in one attribute, every key combination looked up after each step")
meta("C13", "all sequences of valid and invalid index requests, drops and data changes; listing, lookup, filters, refused calls and storage compared after each step")
# ---------------------------------------------------------------- values
def convbin(c): return c.harness("conv.cc", c.lib(), wrap=("time", "ftime", "gettimeofday", "clock_gettime"))
@prop
def C09(c):
    c.level = "exploration"; c.rule = "one case per block of 4096 immediate values, per boundary value, or per text length x type x qualifier with all buffer sizes; non-trivial: all"
    b = convbin(c); a = c.harness("conv.cc", c.lib(cflags=ASAN), cflags=ASAN, wrap=("time", "ftime", "gettimeofday", "clock_gettime"))
    c.job(b, ["--profile=imm"], shards=8); c.job(b, ["--profile=text"], shards=4); c.job(a, ["--profile=text", "--n=%d" % (80 if c.quick else 300)], shards=8, env=AENV)
@prop
def C28(c):
    c.level = "exploration"; c.rule = "one case per year, per minute, per text or per clock reading; non-trivial: the text was accepted or had to be"
    b = convbin(c)
    c.job(b, ["--profile=date"], shards=4); c.job(b, ["--profile=time"], shards=2); c.job(b, ["--profile=isotext", "--k=%d" % (5 if c.quick else 6)], shards=4); c.job(b, ["--profile=now"], shards=2)
meta("C09", "every date, time, character, fixpoint and 140000 integers; every power of two +-2 for every type, every double exponent; every text length up to a bound and around each power of two, every qualifier class, every buffer size", "exhaustive enumeration of the value ranges on the real code against the identity", "exploration")
meta("C28", "every day of the date range, every clock reading with invalid neighbours, every text one or two edits from valid ones and all texts up to a length, clock readings around every boundary", "exhaustive enumeration of the calendar, clock and ISO texts on the real code against an independent calendar", "exploration")
@prop
def C27(c):
    c.level = "exploration"; c.rule = "one case per table, file or batch of 256 files; non-trivial: all"
    b = c.harness("csv.cc", c.lib(), cflags="-O1")
    a = asanbin(c, "csv.cc")
    d = 0 if c.quick else 1
    c.job(b, ["--profile=table", "--k=%d" % (5 + d)], shards=8)
    c.job(a, ["--profile=table", "--k=4"], shards=8, env=AENV) if not c.quick else None
    c.job(b, ["--profile=raw", "--k=%d" % (6 + d)], shards=8)
    c.job(a, ["--profile=raw", "--k=%d" % (3 + d)], shards=4, env=AENV)
    c.job(b, ["--profile=errors"], shards=8)
@prop
def C29(c):
    c.level = "exploration"; c.rule = "one case per structured text, value, record graph or batch of 256 short texts; non-trivial: all"
    b = c.harness("csv.cc", c.lib(), cflags="-O1")
    a = asanbin(c, "csv.cc")
    d = 0 if c.quick else 1
    c.job(b, ["--profile=parse", "--k=%d" % (6 + d)], shards=8)
    c.job(a, ["--profile=parse", "--k=%d" % (3 + d)], shards=8, env=AENV)
    c.job(a, ["--profile=print"], shards=8, env=AENV)
meta("C27", "every table of up to three fields over an alphabet of 52 values, every field count and text length up to the limits, every byte sequence up to a length over the CSV control characters as an import file, every degree of memory exhaustion", "exhaustive enumeration of tables and of import files on the real code against an independent CSV reader and type rules", "exploration")
meta("C29", "every text up to a length over digits, signs, separators and letters, structured dates, times and numbers with every field at its limits and every junk suffix, each after five kinds of earlier call; every value type and every graph of 4 records into every buffer size", "exhaustive enumeration of texts, values and buffer sizes on the real code against independent type rules", "exploration")
def shmbin(c, log, tsan=False):
    conf = dict(USE_DATABASE_HANDLE=1, USE_DBLOG=1, DBLOG_DIR='"j"', STRHASH_SIZE="0.012") if log else dict(STRHASH_SIZE="0.012")
    return c.harness("shm.cc", c.lib(conf=conf, sub={"Db/dbmem.h": [(r"#define DEFAULT_MEMDBASE_SIZE \d+", "#define DEFAULT_MEMDBASE_SIZE 180000")]}, fileflags={"Db/%s.c" % f: "-fsanitize=thread -fno-builtin" for f in ("dballoc", "dbmem", "dblock", "dblog")} if tsan else None), cflags="-O1 -DWRAP_MALLOC" + (" -DTSAN" if tsan else ""), wrap=c.MALLOC + ("shmget", "shmat", "shmdt", "shmctl"))
@prop
def C23(c):
    d = 0 if c.quick else 1
    c.assumptions = ["the System V shared memory calls behave as the stand-in does (per shmget(2), shmop(2), shmctl(2))", "segment sizes 150000 to 200000 bytes, default size reduced to 180000", "at most 3 attachments at a time, 2 records per database"]
    for log in (False, True):
        b = shmbin(c, log); n = "with journal" if log else "plain"
        c.job(b, ["--depth=%d" % (4 + d)], shards=16, label=n)
        c.job(b, ["--profile=race"], shards=4, label="interrupted calls, " + n)
        c.job(shmbin(c, log, True), ["--profile=creating"], shards=8, label="unfinished creation, " + n)
meta("C23", "all sequences of attach variants (sizes, modes, existing only, logged, aliases of names), detach, delete, writes, foreign segments, other users and refused system calls over two names; a second client's call at each system call of the first")
@prop
def C30(c):
    c.assumptions = ["segments of 200000 bytes placed below, above, next to and 2^46 bytes away from each other", "records of at most 2 fields, at most 2 records in the referring database; the other databases are not modified meanwhile", "indexes of another database's own data are out of scope"]
    b = c.harness("child.cc", c.lib(conf=dict(STRHASH_SIZE="0.012"), sub={"Db/dballoc.h": [(r"#define DEFAULT_IDXHASH_LENGTH \d+", "#define DEFAULT_IDXHASH_LENGTH 17")]}), wrap=("malloc", "free"))
    for lay in range(4):
        for p in ("values", "register", "json"): c.job(b, ["--profile=" + p, "--layout=%d" % lay], label="%s, placement %d" % (p, lay))
        for s in range(3): c.job(b, ["--set=%d" % s, "--layout=%d" % lay, "--depth=%d" % ((3 if lay % 2 else 4) + (not c.quick))], shards=4 if c.quick else 16, label="histories %d, placement %d" % (s, lay))
meta("C30", "all sequences of storing, overwriting, clearing and deleting external and local values, and of refused operations; every value of three databases read, printed and compared pairwise; registration limits; documents with external parts; four placements of the segments")
def pymod(c, conf=None, sub=None):
    """the Python module, built together with the probes of pyhelp.cc; returns the script that runs the explorer with it"""
    import sysconfig, threading
    py = "/usr/bin/python3"
    inc = shell([py, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"]).strip()
    L = c.lib(conf=conf, cflags="-O1 -fPIC", sub=sub); d = L["dir"]; m = d + "/Python"
    shell(["gcc", "-g", "-fcommon", "-w", "-O1", "-fPIC", "-I" + d, "-I" + d + "/Db", "-I" + inc, "-c", m + "/wgdbmodule.c", "-o", m + "/wgdbmodule.o"])
    shell(["g++", "-std=c++17", "-g", "-fcommon", "-w", "-fpermissive", "-O1", "-fPIC", "-shared", "-I" + d, "-I" + d + "/Db", "-I" + os.path.join(HERE_, "lib"), os.path.join(HERE_, "checks", "pyhelp.cc"), m + "/wgdbmodule.o"] + L["objs"] + ["-Wl,--wrap=" + x for x in c.MALLOC] + ["-lm", "-o", m + "/wgdb.so"])
    b = m + "/explore"
    with open(b, "w") as f: f.write("#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1\nexec %s -B %s/checks/pybind.py %s \"$@\"\n" % (py, HERE_, m))
    os.chmod(b, 0o755); c.bins[json.dumps(["pybind.py", L["key"]])] = b
    return b
def rsnlib(c, conf=None, sub=None, cflags="-O1"):
    """the library with the reasoner, the parsers generated from the grammar files"""
    sub = dict(sub or {}); sub["Reasoner/glb.h"] = [(r"#define NROF_QUEUE_TERMBUF_ELS \s*\d+", "#define NROF_QUEUE_TERMBUF_ELS 100000"), (r"#define NROF_ACTIVE_TERMBUF_ELS \s*\d+", "#define NROF_ACTIVE_TERMBUF_ELS 50000"), (r"#define NROF_(GIVEN|DERIVED)_TERMBUF_ELS \s*\d+", r"#define NROF_\1_TERMBUF_ELS 20000")]
    cf = dict(USE_REASONER=1, YYTEXT_POINTER=1, USE_CHILD_DB=None); cf.update(conf or {})
    L = c.lib(conf=cf, sub=sub, cflags=cflags); d = L["dir"]; P = d + "/Parser"
    if "robjs" not in L:
        for g in ("otter", "prolog"):
            shell(["sh", "-c", "cd %s && bison -pwg_yy%s -d db%s.y -o db%s.tab.c 2>/dev/null && flex -Pwg_yy%s -odb%s.yy.c db%s.l" % (P, g, g, g, g, g, g)])
        srcs = sorted(glob.glob(d + "/Reasoner/*.c") + glob.glob(d + "/Printer/*.c")) + [P + "/" + f for f in ("dbparse.c", "dbotter.tab.c", "dbotter.yy.c", "dbprolog.tab.c", "dbprolog.yy.c")]
        def comp(s):
            o = s[:-2] + ".o"; shell(["gcc", "-g", "-fcommon", "-w", "-I" + d, "-I" + d + "/Db", "-I" + P] + cflags.split() + ["-c", s, "-o", o]); return o
        L["robjs"] = list(c.pool.map(comp, srcs))
    return L
def rsnbin(c, conf=None, sub=None, cflags="-O1", wrap=True):
    L = rsnlib(c, conf, sub, cflags)
    return c.harness("reason.cc", L, cflags=cflags + ("" if wrap else " -DNOWRAP"), objs=L["objs"] + L["robjs"], wrap=c.MALLOC if wrap else ())
@prop
def C33(c):
    c.level = "exploration"; c.rule = "every set of clauses of the enumeration written as text, imported, read back, and run; the answer is compared with all interpretations; non-trivial: all"
    c.assumptions = ["the default strategy", "term buffers of 20000 to 100000 words instead of up to 100 million", "clauses with variables that are not Horn, and clauses with function symbols: only soundness, since the search need not end", "importing Prolog files is a stub that stores nothing: not covered"]
    b = rsnbin(c); a = rsnbin(c, cflags=ASAN, wrap=False)
    q = c.quick
    def j(p, k, ln=0, order=2, sh=8, bin_=None): c.job(bin_ or b, ["--profile=" + p, "--k=%d" % k, "--order=%d" % order] + (["--len=%d" % ln] if ln else []), shards=sh, env=AENV if bin_ else None, label="%s, %d clauses%s%s" % (p, k, " of %d literals" % ln if ln else "", ", ASAN" if bin_ else ""))
    j("prop", 4 if q else 5); j("prop4", 3 if q else 4); j("datalog", 3, 1, sh=1); j("datalog", 2); j("pairs", 2, 2); j("pairs", 3, 1); j("functions", 2 if q else 3); j("functions", 4, 1); j("functions2", 2); j("functions2", 4, 1)
    if not q: j("datalog", 3, 2, sh=16); j("pairs", 2, 3, sh=16); j("functions2", 3, 2, order=0, sh=16); j("datalog", 5, 1)
    for p in ("text", "values", "lowmem"): c.job(b, ["--profile=" + p, "--step=%d" % (256 if q else 64)], shards=2); c.job(a, ["--profile=" + p, "--step=4096"], shards=4, env=AENV, label=p + ", ASAN")
    j("prop", 2, bin_=a); j("functions", 2, bin_=a); j("pairs", 2, 1, bin_=a); j("datalog", 2, 1, bin_=a)
meta("C33", "every set of up to four clauses over ground, Horn, relational and functional vocabularies, in two orders; every pair of values in every position, every layout of the text, texts that must be refused, every shortage of database memory", "exhaustive enumeration of clause sets on the real reasoner, judged by brute force over all interpretations", "exploration")
@prop
def C34(c):
    c.assumptions = ["local databases; CPython 3.12", "records created by the module itself; objects of another connection are not mixed in"]
    sub = {"Db/dblock.h": [(r"#define DEFAULT_LOCK_TIMEOUT \w+", "#define DEFAULT_LOCK_TIMEOUT 1")]}
    b = pymod(c, dict(LOCK_PROTO=1), sub); b3 = pymod(c)
    for i, loc in enumerate(("C.UTF-8", "C")):
        c.job(b, ["--profile=values"], shards=2, env=dict(LC_ALL=loc), label="values, locale " + loc)
    c.job(b, ["--profile=args"], label="arguments")
    for s in range(3): c.job(b, ["--profile=hist", "--set=%d" % s, "--depth=%d" % (3 if c.quick else 4)], shards=4 if c.quick else 32, timeout=800 if c.quick else 6000, label="histories %d" % s)
    c.job(b3, ["--profile=hist", "--set=0", "--depth=2"], label="histories 0, queue lock")
    c.job(pymod(c, dict(USE_DBLOG=1, DBLOG_DIR='"."'), sub), ["--profile=journal", "--depth=%d" % (4 if c.quick else 6)], shards=4 if c.quick else 32, timeout=800 if c.quick else 6000, label="logging, dumps and replay")
meta("C34", "all sequences of high level operations, valid and failing, with the lock, the records, the storage and the reference counts examined after each; every value of a type alphabet through every way of storing and reading; low level calls with invalid arguments; two locales")
def srvbin(c, cflags="-O1", wrap=True, conf=None):
    """the library with the web server's request processing"""
    L = c.lib(conf=conf, cflags=cflags); d = L["dir"]; inc = d + "/srvinc/whitedb"
    if "sobjs" not in L:
        os.makedirs(inc, exist_ok=True)
        if not os.path.exists(inc + "/dbapi.h"): os.symlink(d + "/Db/dbapi.h", inc + "/dbapi.h")
        os.makedirs(d + "/srvincx/whitedb", exist_ok=True)
        with open(d + "/srvincx/whitedb/dbapi.h", "w") as f: f.write("typedef gint wg_int;\n")
        def comp(s):
            o = s[:-2] + ".o"; shell(["gcc", "-g", "-w", "-Dmain=dserve_main", "-I" + d + "/srvinc", "-I" + d + "/Server"] + cflags.split() + ["-c", s, "-o", o]); return o
        L["sobjs"] = list(c.pool.map(comp, [d + "/Server/" + f for f in ("dserve.c", "dserve_net.c", "dserve_util.c")]))
    w = ["exit"] + ["wg_" + x for x in "attach_existing_database attach_database detach_database delete_database start_read end_read start_write end_write delete_record get_first_record fetch set_int_field".split()]
    return c.harness("server.cc", L, cflags=cflags + " -I%s/srvincx -I%s/Server" % (d, d) + ("" if wrap else " -DNOWRAP"), objs=L["objs"] + L["sobjs"], wrap=w + (list(c.MALLOC) if wrap else []), ldflags="-lpthread")
@prop
def C35(c):
    c.level = "exploration"; c.rule = "every request of the enumeration given to the real query processor or http handler; non-trivial: all"
    c.assumptions = ["not covered: the insert and update operations (unfinished stubs), https, the accept loop, CGI and command line output", "without escaping (escape=no) only that the bytes appear", "attaching, creating and deleting shared databases is recorded by stand-ins working on a local database"]
    b = srvbin(c); a = srvbin(c, ASAN, False); q = c.quick; deep = [] if q else ["--deep"]
    c.job(b, ["--profile=search"] + deep, shards=8); c.job(a, ["--profile=search", "--light"], shards=8, env=AENV, label="search, ASAN"); c.job(b, ["--profile=lowmem"], shards=2)
    c.job(b, ["--profile=print"] + deep, shards=4); c.job(a, ["--profile=print"], shards=4, env=AENV, label="print, ASAN")
    c.job(a, ["--profile=malformed", "--depth=%d" % (3 if q else 4)], shards=8 if q else 32, env=AENV); c.job(b, ["--profile=limits"], shards=4); c.job(a, ["--profile=limits"], shards=4, env=AENV, label="limits, ASAN")
    c.job(a, ["--profile=conf", "--depth=%d" % (4 if q else 5)], shards=4, env=AENV); c.job(b, ["--profile=auth"] + deep, shards=8); c.job(a, ["--profile=http"], shards=4, env=AENV)
meta("C35", "every combination of operation, conditions, record ids, limits and output form over small tables, judged by a reference evaluation and an independent reader of the answers; all token sequences up to a length and all one-character changes of requests, all sizes around every limit, every failing allocation; all configurations of addresses, tokens and databases; sequences of http requests over real connections", "exhaustive enumeration of requests on the real code", "exploration")
def clibin(c, conf=None, cflags="-O1 -g", reason=False):
    L = rsnlib(c, conf) if reason else c.lib(conf=conf, cflags=cflags); d = L["dir"]
    if "cobj" not in L:
        o = d + "/Main/wgdb.o"; shell(["gcc", "-g", "-w", "-DHAVE_CONFIG_H", "-Dmain=wgdb_main", "-I" + d, "-I" + d + "/Db"] + cflags.split() + ["-c", d + "/Main/wgdb.c", "-o", o]); L["cobj"] = o
    w = ["exit"] + ["wg_" + x for x in "attach_memsegment attach_existing_database attach_database detach_database delete_database start_read end_read start_write end_write get_first_record get_next_record fetch import_dump dump dump_internal memmode memowner memgroup".split()]
    return c.harness("cli.cc", L, cflags=cflags + (" -DREASON" if reason else ""), objs=L["objs"] + L.get("robjs", []) + [L["cobj"]], wrap=w)
@prop
def C37(c):
    c.level = "exploration"; c.rule = "one case per sequence of command lines given to the real main(); non-trivial: all"
    q = c.quick; b = clibin(c); l = clibin(c, dict(USE_DBLOG=1, DBLOG_DIR='"."'))
    for x in (b, l):
        c.job(x, ["--profile=files", "--depth=%d" % 2], shards=8)
        c.job(x, ["--profile=locks"]); c.job(x, ["--profile=memory"])
        if x is b or not q: c.job(x, ["--profile=rows", "--depth=2"], shards=8); c.job(x, ["--profile=json", "--depth=%d" % (2 if q else 3)], shards=1 if q else 8); c.job(x, ["--profile=short", "--depth=%d" % (3 if q else 4)], shards=8)
    c.job(l, ["--profile=log", "--depth=%d" % (3 if q else 4)], shards=1 if q else 4)
    r = clibin(c, reason=True); c.job(r, ["--profile=reason", "--depth=%d" % (2 if q else 3)], shards=2); c.job(r, ["--profile=reason", "--depth=1", "--stub"])
    for x in (clibin(c, None, ASAN), clibin(c, dict(USE_DBLOG=1, DBLOG_DIR='"."'), ASAN)):
        c.job(x, ["--profile=rows", "--depth=%d" % (1 if q else 2)], env=AENV, shards=1 if q else 8); c.job(x, ["--profile=files", "--depth=%d" % (1 if q else 2)], env=AENV, shards=1 if q else 8); c.job(x, ["--profile=json", "--depth=%d" % (1 if q else 2)], env=AENV, shards=2)
meta("C37", "every sequence of command lines of the tool to a depth, given to its real main(); printed text, contents of the databases, locks and attachments compared with a model", "exhaustive enumeration of command sequences on the real code", "exploration")
def javabin(c, conf=None):
    """the Java classes and the native library, built together with the probes of javahelp.cc; returns the script that runs the explorer"""
    home = os.path.dirname(os.path.dirname(os.path.realpath(shutil.which("javac"))))
    L = c.lib(conf=conf, cflags="-O1 -fPIC"); d = L["dir"]; j = d + "/java/jni"; os.makedirs(j + "/cls", exist_ok=True)
    inc = ["-I" + home + "/include", "-I" + home + "/include/linux", "-I" + d, "-I" + d + "/Db", "-I" + j + "/src/native"]
    if os.path.lexists(j + "/config.h"): os.remove(j + "/config.h")
    os.symlink(d + "/config.h", j + "/config.h")
    shell(["javac", "-nowarn", "-cp", j + "/src", "-d", j + "/cls", "-h", j + "/src/native", j + "/src/whitedb/driver/WhiteDB.java", j + "/src/whitedb/holder/SampleObject.java", HERE_ + "/checks/java/Jx.java", HERE_ + "/checks/java/Probe.java"])
    shell(["gcc", "-g", "-w", "-O1", "-fPIC"] + inc + ["-c", j + "/src/native/whitedbDriver.c", "-o", j + "/driver.o"])
    w = list(c.MALLOC) + ["wg_attach_database", "wg_detach_database", "wg_delete_database"]
    shell(["g++", "-std=c++17", "-g", "-w", "-fpermissive", "-O1", "-fPIC", "-shared"] + inc + ["-I" + os.path.join(HERE_, "lib"), HERE_ + "/checks/javahelp.cc", j + "/driver.o"] + L["objs"] + ["-Wl,--wrap=" + x for x in w] + ["-lm", "-o", j + "/libwhitedbDriver.so"])
    b = j + "/explore"
    with open(b, "w") as f: f.write("#!/bin/sh\nexec java -Xmx512m -XX:TieredStopAtLevel=1 -XX:+UseSerialGC -XX:-UsePerfData -Xcheck:jni -XX:-CreateCoredumpOnCrash -cp %s/cls -Djava.library.path=%s Jx \"$@\" 2>/dev/null\n" % (j, j))
    os.chmod(b, 0o755); c.bins[json.dumps(["Jx.java", L["key"]])] = b
    return b
@prop
def C38(c):
    c.level = "exploration"; c.rule = "one case per sequence of calls of the Java classes; non-trivial: all"
    b = javabin(c, dict(LOCK_PROTO=1)); q = c.quick
    c.job(b, ["--profile=seq", "--depth=%d" % (2 if q else 3)], shards=4 if q else 16, timeout=6000); c.job(b, ["--profile=short", "--depth=%d" % (3 if q else 4)], shards=4 if q else 16, timeout=6000); c.job(b, ["--profile=memory"]); c.job(b, ["--profile=named"])
meta("C38", "every sequence of calls of the Java classes to a depth on the real native library, records, queries, locks, memory and storage compared with a model after each call; every memory request failing, databases filled up", "exhaustive enumeration of call sequences and memory failures on the real code", "exploration")
@prop
def C36(c):
    c.level = "exploration"; c.rule = "one case per call, invalid argument and database state; non-trivial: all"
    for conf in (dict(USE_DBLOG=1, DBLOG_DIR='"."'), dict(USE_CHILD_DB=None)):
        b = c.harness("args.cc", c.lib(conf=conf))
        for st in (0, 1, 2, 3):
            for p in ("handles", "args", "decode"): c.job(b, ["--profile=" + p, "--state=%d" % st])
meta("C36", "every public call with every kind of invalid handle and argument, in four database states", "exhaustive enumeration of calls x invalid arguments x states on the real code", "exploration")
