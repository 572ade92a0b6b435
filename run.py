#!/usr/bin/env python3
"""Driver: builds the library from /repo's working tree, runs the explorers of one
property, replays what they report, writes evidence.

  run.py C07            run the check of C07 (tier from VERIF_TIER, default quick)
  run.py --replay FILE  rebuild and replay a recorded violation
"""
import sys, os, re, json, glob, shutil, subprocess, tempfile, time, threading, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 1)
sys.path.insert(0, HERE)

class CheckError(Exception): pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode: raise CheckError("command failed: %s\n%s" % (cmd if isinstance(cmd, str) else " ".join(cmd), p.stdout[-3000:]))
    return p.stdout

BASE_CONFIG = dict(CHECK=1, HAVE_64BIT_GINT=1, HAVE_DLFCN_H=1, HAVE_INTTYPES_H=1, HAVE_LIBM=1, HAVE_PTHREAD=1, HAVE_STDINT_H=1,
  HAVE_STDIO_H=1, HAVE_STDLIB_H=1, HAVE_STRINGS_H=1, HAVE_STRING_H=1, HAVE_SYS_STAT_H=1, HAVE_SYS_TYPES_H=1, HAVE_UNISTD_H=1,
  LOCK_PROTO=3, PACKAGE='"whitedb"', PACKAGE_NAME='"WhiteDB"', PACKAGE_STRING='"WhiteDB 0.8-alpha"', PACKAGE_VERSION='"0.8-alpha"', VERSION='"0.8-alpha"', STDC_HEADERS=1, STRHASH_SIZE=2,
  TTREE_CHAINED_NODES=1, TTREE_SINGLE_COMPARE=1, USE_BACKLINKING=1, USE_CHILD_DB=1, USE_ERROR_CALLBACK=1, USE_INDEX_TEMPLATE=1,
  VERSION_MAJOR=0, VERSION_MINOR=8, VERSION_REV=0, YYTEXT_POINTER=1)

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier != "thorough"
        self.tmp = tempfile.mkdtemp(prefix="wgv-", dir="/tmp")
        self.libs, self.bins, self.jobs = {}, {}, []
        self.pool = ThreadPoolExecutor(NCPU)
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.level, self.assumptions, self.rule = "model_checking", [], None
        self.lock = threading.Lock()
        self.extra_cov, self.building = {}, {}
    def cleanup(self): shutil.rmtree(self.tmp, ignore_errors=True)

    # -- library variants --------------------------------------------------
    def lib(self, conf=None, cflags="-O1", sub=None, files=None, fileflags=None):
        """conf: config.h macros (None value removes); sub: {file: [(regex, repl)]} build-time constants; returns dict"""
        conf = dict(conf or {}); sub = sub or {}
        fileflags = fileflags or {}; key = json.dumps([conf, cflags, sub, files, fileflags], sort_keys=True)
        if key in self.libs: return self.libs[key]
        d = os.path.join(self.tmp, "lib%d" % len(self.libs)); os.makedirs(d)
        for s in ("Db", "json", "Parser", "Printer", "Reasoner", "Server", "Main", "Python"):
            src = os.path.join(REPO, s)
            if not os.path.isdir(src): continue
            os.makedirs(os.path.join(d, s))
            for f in os.listdir(src):
                if f.endswith((".c", ".h", ".y", ".l", ".py")): shutil.copy(os.path.join(src, f), os.path.join(d, s, f))
        if os.path.isdir(os.path.join(REPO, "java")): shutil.copytree(os.path.join(REPO, "java"), os.path.join(d, "java"), symlinks=True)
        for f, subs in sub.items():
            p = os.path.join(d, f); t = open(p).read()
            for a, b in subs: t = re.sub(a, b, t)
            open(p, "w").write(t)
        c = dict(BASE_CONFIG); c.update(conf)
        with open(os.path.join(d, "config.h"), "w") as f:
            for k, v in sorted(c.items()):
                if v is not None: f.write("#define %s %s\n" % (k, v))
        L = dict(dir=d, cflags=cflags, key=key, conf=conf, sub=sub, files=files)
        srcs = [os.path.join(d, f) for f in files] if files else sorted(glob.glob(d + "/Db/*.c")) + [d + "/json/yajl_all.c"]
        def comp(s):
            o = s[:-2] + ".o"
            sh(["gcc", "-g", "-fcommon", "-w", "-I" + d, "-I" + d + "/Db"] + cflags.split() + fileflags.get(os.path.relpath(s, d), "").split() + ["-c", s, "-o", o]); return o
        L["objs"] = list(self.pool.map(comp, srcs))
        self.libs[key] = L
        return L
    def harness(self, src, lib, cflags="-O1", ldflags="", wrap=(), objs=None):
        key = json.dumps([src, lib["key"], cflags, ldflags, list(wrap)])
        if key in self.bins: return self.bins[key]
        out = os.path.join(self.tmp, "h%d_%s" % (len(self.bins), os.path.basename(src).split(".")[0]))
        w = list(wrap)
        cmd = ["g++", "-std=c++17", "-g", "-fcommon", "-w", "-fpermissive", "-I" + lib["dir"], "-I" + lib["dir"] + "/Db", "-I" + os.path.join(HERE, "lib")] + cflags.split()
        cmd += [os.path.join(HERE, "checks", src)] + (objs if objs is not None else lib["objs"]) + ["-Wl,--wrap=" + x for x in w] + ldflags.split() + ["-lm", "-o", out]
        self.building[out] = self.pool.submit(sh, cmd)
        self.bins[key] = out
        return out
    def job(self, binary, args, shards=1, timeout=600, budget=None, env=None, label=None):
        for i in range(shards):
            self.jobs.append(dict(bin=binary, args=list(args) + (["--shard=%d" % i, "--nshards=%d" % shards] if shards > 1 else []), timeout=timeout, budget=budget, env=env, label=label or " ".join(args)))
    MALLOC = ("malloc", "calloc", "realloc", "free")

    # -- execution ----------------------------------------------------------
    def run_job(self, j, replay=None, timeout=None):
        n = None
        if j["bin"] in self.building: self.building[j["bin"]].result()
        with self.lock:
            self.jobno = getattr(self, "jobno", 0) + 1; n = self.jobno
        tr = os.path.join(self.tmp, "trace%d" % n); cwd = os.path.join(self.tmp, "cwd%d" % n); os.makedirs(cwd)
        cmd = [j["bin"]] + [a for a in j["args"] if not (replay and a.startswith(("--shard", "--nshards")))] + ["--trace=" + tr, "--known=" + self.knownfile]
        if j.get("budget") and not replay: cmd.append("--budget=%d" % j["budget"])
        if replay: cmd.append("--replay=" + replay)
        env = dict(os.environ); env.update(j.get("env") or {}); env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_odr_violation=0")
        t0 = time.time(); to = timeout or j["timeout"]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, start_new_session=True)
        timed = False
        try: o, e = p.communicate(timeout=to)
        except subprocess.TimeoutExpired:
            timed = True
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            o, e = p.communicate()
        try: os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError): pass
        o = o.decode(errors="replace"); e = e.decode(errors="replace")
        r = dict(job=j, rc=p.returncode, out=o, err=e[-4000:], timed=timed, wall=time.time() - t0, fail=None, stats=None)
        for l in o.splitlines():
            if l.startswith("FAIL ") and r["fail"] is None:
                try: r["fail"] = json.loads(l[5:])
                except ValueError: r["fail"] = dict(sig="unparsed", msg=l[:500], desc="", path=[])
            elif l.startswith("STATS "):
                r["stats"] = json.loads(l[6:])
            elif l.startswith("ERROR"): r["error"] = l
        if r["fail"] is None and (timed or (p.returncode is not None and (p.returncode < 0 or (r["stats"] is None and p.returncode not in (0, 2))))):
            path, note = self.read_trace(tr)
            if timed: sig = "timeout"
            else: sig = "crash-signal-%d" % (-p.returncode) if p.returncode < 0 else "crash-exit-%d" % p.returncode
            m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", e)
            if m: sig = "asan-" + m.group(1)
            r["fail"] = dict(sig=sig, msg="the process %s; %s %s" % ("did not finish" if timed else "died", note, (e[:1500] if m else "")), desc=note, path=path)
            r["died"] = True
        shutil.rmtree(cwd, ignore_errors=True)
        return r
    def read_trace(self, tr):
        import struct
        try: b = open(tr, "rb").read()
        except OSError: return [], ""
        if len(b) < 4: return [], ""
        n = struct.unpack_from("i", b, 0)[0]; n = max(0, min(n, 4000))
        path = list(struct.unpack_from("%di" % n, b, 4)); note = b[4 + 16000:].split(b"\0")[0].decode(errors="replace")
        return path, note
    def confirm(self, r):
        """replay a failure in a fresh process; returns (confirmed, replaypath)"""
        d = os.path.join(HERE, "replays"); os.makedirs(d, exist_ok=True)
        f = r["fail"]
        name = os.path.join(d, "%s-%s-%d.json" % (self.pid, re.sub(r"[^\w-]", "_", f["sig"])[:40], int(time.time() * 1000) % 10**8))
        lib = None
        for k, b in self.bins.items():
            if b == r["job"]["bin"]: lib = json.loads(k)
        json.dump(dict(property=self.pid, tier=self.tier, build=lib, args=[a for a in r["job"]["args"] if not a.startswith(("--shard", "--nshards"))], env=r["job"].get("env"), sig=f["sig"], msg=f["msg"], history=f["desc"], path=f["path"]), open(name, "w"), indent=1)
        pf = os.path.join(self.tmp, "replay%d" % time.monotonic_ns()); open(pf, "w").write(" ".join(map(str, f["path"])) + "\n")
        again = None
        if r.get("timed"):
            again = self.run_job(r["job"], replay=pf, timeout=max(120, r["job"]["timeout"]))
        else:
            again = self.run_job(r["job"], replay=pf, timeout=300)
        steps = re.findall(r"REPLAY (?:step|case) \d+: (.*)", again["out"])
        if steps and not f["desc"]: f["desc"] = "; ".join(steps)[:4000]
        if again["fail"]: return True, name
        # not reproduced from the path alone: does the same exploration fail again?
        if r.get("timed"): return False, name
        again = self.run_job(r["job"])
        if again["fail"] and again["fail"]["sig"] == f["sig"] and again["fail"]["path"] == f["path"]: return True, name
        return False, name
    def execute(self):
        t0 = time.time()
        self.knownfile = os.path.join(self.tmp, "known"); kf = load_known().get(self.pid, {})
        open(self.knownfile, "w").write("".join(s + "\n" for s in kf))
        cov = dict(states=0, transitions=0, traces=0, evaluations=0, nontrivial=0)
        extra, outcomes, samples, hits, per = {}, {}, [], {}, []
        viol, errors = [], []
        stopflag = threading.Event()
        def one(j):
            if stopflag.is_set(): return None
            r = self.run_job(j)
            if r["fail"] and r["fail"]["sig"] not in kf and not r.get("timed"): stopflag.set()
            return r
        results = list(ThreadPoolExecutor(NCPU).map(one, self.jobs))
        for r in results:
            if r is None: continue
            s = r["stats"]
            if s:
                for k in cov: cov[k] += s.get(k, 0)
                for k, v in s.get("extra", {}).items(): extra[k] = extra.get(k, 0) + v
                for k, v in s.get("outcomes", {}).items(): outcomes[k] = outcomes.get(k, 0) + v
                for k, v in s.get("known", {}).items(): hits[k] = hits.get(k, 0) + v
                samples += s["samples"][:2]
                per.append(dict(job=r["job"]["label"], states=s["states"], transitions=s["transitions"], evaluations=s["evaluations"], wall_s=round(r["wall"], 1)))
            elif not r["fail"]:
                errors.append("job %s: rc=%s %s %s" % (r["job"]["label"], r["rc"], r.get("error", ""), (r["out"] + r["err"])[-800:]))
            if r["fail"]:
                if r["fail"]["sig"] in kf: hits[r["fail"]["sig"]] = hits.get(r["fail"]["sig"], 0) + 1; continue
                if viol: continue
                ok, name = self.confirm(r)
                if ok: viol.append((r["fail"], name))
                else: errors.append("job %s: failure not reproduced on replay: %s" % (r["job"]["label"], r["fail"]))
        wall = time.time() - t0
        capped = extra.get("capped", 0)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, assumptions=self.assumptions, wall_s=round(wall + getattr(self, "build_s", 0), 2), violations=len(viol))
        c = dict(self.extra_cov)
        smp = [x for x in samples if x][:8] or ["(empty history)"]
        if self.level == "model_checking":
            c.update(states=cov["states"], transitions=cov["transitions"], traces_validated_against_impl=cov["traces"], samples=smp)
            if cov["evaluations"]: c.update(evaluations=cov["evaluations"], distinct_nontrivial=cov["nontrivial"])
        else:
            c.update(evaluations=cov["evaluations"] + cov["transitions"], distinct_nontrivial=cov["nontrivial"] + cov["states"], samples=smp)
        if self.rule: c["rule"] = self.rule
        c["exhaustive"] = not capped and not errors
        c["jobs"] = per[:60]
        if extra: c["counters"] = extra
        if outcomes: c["outcomes"] = outcomes
        if hits: c["known_findings_hit"] = hits
        ev["coverage"] = c
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", self.pid + ".json"), "w"), indent=1)
        for s, txt in kf.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, txt))
        print("%s %s: states=%d transitions=%d traces=%d evaluations=%d nontrivial=%d wall=%.1fs%s" % (self.pid, self.tier, cov["states"], cov["transitions"], cov["traces"], cov["evaluations"], cov["nontrivial"], wall, " CAPPED" if capped else ""))
        if viol:
            f, name = viol[0]
            print("what failed: [%s] %s" % (f["sig"], f["msg"])); print("history: %s" % f["desc"])
            print("VIOLATION property=%s replay=%s" % (self.pid, name)); return 1
        if errors:
            print("check error:\n" + "\n".join(errors[:5])); return 2
        return 0

def load_known():
    res = {}; p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) sig=(\S+) (.*)", l.strip())
            if m: res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return res

def main():
    import props
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        R = json.load(open(sys.argv[2])); ctx = Ctx(R["property"], R["tier"])
        try:
            props.PROPS[R["property"]](ctx)
            for k, b in ctx.bins.items():
                if json.loads(k) == R["build"]:
                    pf = os.path.join(ctx.tmp, "rp"); open(pf, "w").write(" ".join(map(str, R["path"])) + "\n")
                    ctx.knownfile = "/dev/null"
                    r = ctx.run_job(dict(bin=b, args=R["args"], timeout=300, env=R.get("env"), label="replay"), replay=pf)
                    print(r["out"]); print(r["err"]); print("FAIL" if r["fail"] else "no failure"); return 1 if r["fail"] else 0
        finally: ctx.cleanup()
        return 2
    if len(sys.argv) > 1 and sys.argv[1] == "--selftest":   # setup: the tools are there and the sources build
        ctx = Ctx("selftest", "quick")
        try: ctx.lib(); print("ok"); return 0
        except CheckError as e: print(e); return 2
        finally: ctx.cleanup()
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ctx = Ctx(pid, tier)
    try:
        t0 = time.time(); props.PROPS[pid](ctx); ctx.build_s = time.time() - t0
        return ctx.execute()
    except CheckError as e:
        print("check error: %s" % e); return 2
    finally: ctx.cleanup()
if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
