"""Shared machinery of the checks: executor process wrapper, case runner, verdicts, evidence."""
import os, sys, json, time, random, shutil, tempfile, subprocess, traceback, signal, select, hashlib
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from build import build, VERIF, REPO, BuildError

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
SAN_MARK = ("ERROR: AddressSanitizer", "runtime error:", "ERROR: LeakSanitizer", "WARNING: ThreadSanitizer",
            "AddressSanitizer:DEADLYSIGNAL", "FATAL: ThreadSanitizer")

class Dead(Exception):
    """the executor process ended"""
    def __init__(self, rc, err, last):
        self.rc, self.err, self.last = rc, err, last
        Exception.__init__(self, "process ended rc=%s at %r: %s" % (rc, last, tail(err)))

class Hang(Exception):
    pass

class Viol(Exception):
    """an oracle decided that the property does not hold"""
    def __init__(self, key, detail):
        self.key, self.detail = key, detail
        Exception.__init__(self, "%s: %s" % (key, detail))

class Inconclusive(Exception):
    pass

def tail(s, n=1500):
    for m in SAN_MARK:
        i = s.find(m)
        if i >= 0:
            return s[max(0, i - 100):i + n]
    return s[-n:]

class Mnx:
    """one executor process"""
    def __init__(self, variant="plain", timeout=120, env=None, leaks=False, main="mnx", user=None, exe=None, log=None):
        self.exe = exe or build(variant, main)
        self.timeout = timeout
        self.script = log if log is not None else []   # everything sent, for replay
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=%d:detect_stack_use_after_return=0:allocator_may_return_null=1" % (1 if leaks else 0)
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
        e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=99:history_size=4:second_deadlock_stack=1"
        e.pop("http_proxy", None); e.pop("https_proxy", None)
        if env: e.update(env)
        self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  env=e, start_new_session=True)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b""
        self.last = None
    def err(self):
        self.errf.seek(0)
        return self.errf.read().decode("latin1")
    def _dead(self):
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.kill()
        raise Dead(self.p.returncode, self.err(), self.last)
    def _fill(self, deadline):
        while True:
            left = deadline - time.time()
            if left <= 0:
                stacks = self.stacks()
                self.kill()
                raise Hang("no reply within %ds to %r; stacks %s" % (self.timeout, self.last, stacks))
            r, _, _ = select.select([self.p.stdout], [], [], min(left, 5))
            if r:
                d = self.p.stdout.read()
                if d is None: continue
                if not d: self._dead()
                self.buf += d
                return
    def stacks(self):
        try:
            r = subprocess.run(["gdb", "-p", str(self.p.pid), "-batch", "-ex", "thread apply all bt 12"],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=30, text=True)
            return r.stdout[-4000:]
        except Exception:
            return ""
    def _reply(self, deadline):
        while b"\n" not in self.buf: self._fill(deadline)
        head, self.buf = self.buf.split(b"\n", 1)
        st, n = head.split(b" "); n = int(n)
        while len(self.buf) < n + 1: self._fill(deadline)
        body, self.buf = self.buf[:n], self.buf[n + 1:]
        return st == b"ok", body.decode("latin1")
    def cmd(self, line, timeout=None):
        return self.batch([line], timeout)[0]
    def post(self, line):
        """send without waiting, wait() gets the reply"""
        self.script.append(line); self.last = line
        try: self.p.stdin.write((line + "\n").encode("latin1")); self.p.stdin.flush()
        except (BrokenPipeError, OSError): pass
    def wait(self, timeout=None):
        return self._reply(time.time() + (timeout or self.timeout))
    def ready(self):
        """has the reply of a posted command arrived"""
        if b"\n" in self.buf: return True
        return bool(select.select([self.p.stdout], [], [], 0)[0])
    def batch(self, lines, timeout=None):
        """send many commands, pipelined in bounded chunks"""
        out = []; i = 0
        while i < len(lines):
            j = i; size = 0; 
            while j < len(lines) and (j == i or size + len(lines[j]) < 30000) and j - i < 400:
                size += len(lines[j]) + 1; j += 1
            chunk = lines[i:j]
            self.script.extend(chunk)
            self.last = chunk[0]
            data = ("\n".join(chunk) + "\n").encode("latin1")
            try:
                self.p.stdin.write(data); self.p.stdin.flush()
            except (BrokenPipeError, OSError):
                pass
            deadline = time.time() + (timeout or self.timeout)
            for c in chunk:
                self.last = c
                out.append(self._reply(deadline))
            i = j
        return out
    def ok(self, line):
        ok, t = self.cmd(line)
        if not ok:
            raise Viol("unexpected-error", "%r failed: %s" % (line[:300], t))
        return t
    def sql(self, text):
        return self.ok("sql " + text)
    def js(self, text):
        return json.loads(self.sql(text))
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except Exception: pass
        try: self.p.wait(10)
        except Exception: pass
    def close(self, check=True):
        """clean end; raises Dead when the process ends badly (sanitizer reports, leaks included)"""
        if self.p.poll() is None:
            try:
                self.batch(["quit"])
            except Hang:
                raise
            try:
                self.p.stdin.close()
            except Exception: pass
            try:
                self.p.wait(self.timeout)
            except subprocess.TimeoutExpired:
                self.kill(); raise Hang("no exit")
        rc, err = self.p.returncode, self.err()
        self.drop()
        if check and (rc != 0 or any(m in err for m in SAN_MARK)):
            raise Dead(rc, err, "exit")
    def drop(self):
        if self.p.poll() is None: self.kill()
        for f in (self.p.stdin, self.p.stdout, self.errf):
            try: f.close()
            except Exception: pass

# ------------------------------------------------------------------ scratch
def scratch(prefix="mnv"):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else None
    return tempfile.mkdtemp(prefix=prefix, dir=base)

# ------------------------------------------------------------------ known findings
def known_findings(pid):
    """lines 'finding: property=<id> key=<key> <text>'"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                f = dict(x.split("=", 1) for x in l.split()[1:3])
                if f.get("property") == pid:
                    out[f["key"]] = l.split(None, 3)[3] if len(l.split(None, 3)) > 3 else ""
    return out

# ------------------------------------------------------------------ check runner
def _run_one(args):
    fn, case, idx = args
    t0 = time.time()
    d = scratch()
    ctx = Ctx(d, case)
    res = {"idx": idx, "case": case, "status": "ok", "stats": {}}
    try:
        try:
            fn(ctx, case)
        except Viol as v:
            res.update(status="viol", key=v.key, detail=v.detail)
        except Dead as e:
            res.update(status="viol", key="died:" + death_key(e), detail=str(e))
        except Hang as e:
            res.update(status="hang", key="hang", detail=str(e))
        except Inconclusive as e:
            res.update(status="inconclusive", detail=str(e))
        except BuildError as e:
            res.update(status="error", detail="build: %s" % e)
        except Exception:
            res.update(status="error", detail=traceback.format_exc())
    finally:
        ctx.cleanup()
        shutil.rmtree(d, ignore_errors=True)
    res["stats"] = ctx.stats
    res["sample"] = ctx.sample
    res["sets"] = {k: list(v) for k, v in ctx.sets.items()}
    if res["status"] in ("viol", "hang"):
        res["script"] = ctx.scripts()
    res["wall"] = time.time() - t0
    return res

def death_key(e):
    t = tail(e.err, 3000)
    for m in SAN_MARK:
        if m in e.err:
            fr = [l.split(" in ")[1].split()[0] for l in t.splitlines() if " in " in l and l.strip().startswith("#")]
            fr = [f for f in fr if not f.startswith(("__", "_start", "main"))][:2]
            line = [l for l in t.splitlines() if m in l][0]
            return "sanitizer:%s:%s" % (line.split(":", 1)[-1].strip()[:60].split("0x")[0], ",".join(fr))
    if "Assertion" in e.err:
        return "assert:" + e.err[e.err.find("Assertion"):][:80]
    return "rc=%s" % e.rc

class Ctx:
    """per-case context: scratch dir, processes, statistics"""
    def __init__(self, d, case):
        self.dir, self.case = d, case
        self.procs, self.stats, self.sample, self.sets = [], {}, None, {}
        self.cleanups = []
    def mnx(self, *a, **k):
        m = Mnx(*a, **k); self.procs.append(m); return m
    def add(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n
    def see(self, name, item):
        self.sets.setdefault(name, set()).add(item)
    def scripts(self):
        return [p.script[-4000:] for p in self.procs[-4:]]
    def cleanup(self):
        for p in self.procs: p.drop()
        for f in self.cleanups:
            try: f()
            except Exception: pass

class Check:
    def __init__(self, pid, level="exploration", variants=("plain",)):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.results = []
        self.notes = []
        self.variants = variants
        for v in variants:
            try:
                build(v)
            except BuildError as e:
                print("build failed: %s" % e); sys.exit(2)
    def run(self, fn, cases, procs=8, budget=None):
        """runs fn(ctx, case) for all cases in parallel; hangs are re-run once before they count.
        budget (s): remaining cases are skipped after it (counted, reported)."""
        cases = list(cases)
        t0 = time.time()
        skipped = 0
        jobs = [(fn, c, i) for i, c in enumerate(cases)]
        viol = 0
        with mp.get_context("fork").Pool(min(procs, max(1, len(jobs)))) as pool:
            it = iter(jobs); live = []
            done = False
            stop = False
            while True:
                while not stop and len(live) < procs:
                    j = next(it, None)
                    if j is None: stop = True; break
                    live.append((j, pool.apply_async(_run_one, (j,))))
                    if budget and time.time() - t0 > budget: stop = True
                if not live: break
                rest = []
                for j, r in live:
                    if r.ready():
                        res = r.get()
                        if res["status"] == "hang" and not j[1].get("_again"):
                            c2 = dict(j[1]); c2["_again"] = True
                            rest.append(((j[0], c2, j[2]), pool.apply_async(_run_one, ((j[0], c2, j[2]),))))
                            continue
                        if res["status"] == "hang": res["status"] = "viol"
                        self.results.append(res)
                        if res["status"] == "viol":
                            viol += not any(k == res["key"] or (k.endswith("*") and res["key"].startswith(k[:-1])) for k in known_findings(self.pid))
                            if viol >= 12: stop = True     # enough to report
                    else: rest.append((j, r))
                live = rest
                time.sleep(0.003)
        skipped = len(cases) - len([r for r in self.results if r["case"] in cases]) if budget else 0
        if skipped > 0: self.notes.append("%d planned cases not run (time budget)" % skipped)
        return self.results
    def total(self, name):
        return sum(r["stats"].get(name, 0) for r in self.results)
    def union(self, name):
        s = set()
        for r in self.results: s.update(tuple(x) if isinstance(x, list) else x for x in r["sets"].get(name, ()))
        return s
    def finish(self, rule, assumptions=(), nontrivial=None, need=(), extra=None):
        viols = [r for r in self.results if r["status"] == "viol"]
        errs = [r for r in self.results if r["status"] == "error"]
        inc = [r for r in self.results if r["status"] == "inconclusive"]
        known = known_findings(self.pid)
        stats = {}
        for r in self.results:
            for k, v in r["stats"].items(): stats[k] = stats.get(k, 0) + v
        sets = {k: len(self.union(k)) for k in {k for r in self.results for k in r["sets"]}}
        nt = nontrivial if nontrivial is not None else \
            len({hashlib.sha1(json.dumps(r["case"], sort_keys=True).encode()).hexdigest() for r in self.results
                 if r["status"] in ("ok", "viol") and r["stats"].get("nontrivial", 1)})
        cov = {"evaluations": len(self.results), "distinct_nontrivial": nt, "rule": rule,
               "samples": [r["sample"] for r in self.results if r["sample"]][:3] or [r["case"] for r in self.results[:2]],
               "observed": stats, "distinct_observed": sets, "inconclusive": len(inc), "case_errors": len(errs)}
        if extra: cov.update(extra)
        if self.notes: cov["notes"] = self.notes
        new, seen = [], {}
        for r in viols:
            k = next((k for k in known if k == r["key"] or (k.endswith("*") and r["key"].startswith(k[:-1]))), None)
            if k: seen[k] = r
            else: new.append(r)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]))
        cov["known_findings_seen"] = sorted(seen)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump({"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
                       "level": self.level, "coverage": cov, "assumptions": list(assumptions),
                       "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}, f, indent=1)
            f.write("\n")
        print("%s: %d cases, %d violations, %d inconclusive, %d errors, %.1fs; %s; distinct %s" % (
            self.pid, len(self.results), len(new), len(inc), len(errs), time.time() - self.t0,
            " ".join("%s=%d" % kv for kv in sorted(stats.items())), sets))
        for r in inc[:5]: print("inconclusive: %s" % r["detail"][:300])
        for r in errs[:5]: print("case error: %s\n%s" % (json.dumps(r["case"])[:300], r["detail"][:3000]))
        if new:
            rd = os.path.join(VERIF, "replay", self.pid)
            os.makedirs(rd, exist_ok=True)
            keys = set()
            for r in new:
                if r["key"] in keys: continue
                keys.add(r["key"])
                p = os.path.join(rd, "%s-%d.json" % (hashlib.sha1(r["key"].encode()).hexdigest()[:8], r["idx"]))
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "key": r["key"], "detail": r["detail"], "case": r["case"],
                               "seed": SEED, "tier": TIER, "check": sys.argv[0], "script": r.get("script")}, f, indent=1)
                print("  %s: %s" % (r["key"], r["detail"][:1200]))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
                if len(keys) >= 5: break
            sys.exit(1)
        if errs:
            print("harness errors"); sys.exit(2)
        miss = [n for n in need if not (stats.get(n) or sets.get(n))]
        if (miss and "--replay" not in sys.argv) or len(inc) * 5 > len(self.results) or not self.results:
            print("observed too little: %s (inconclusive %d of %d)" % (miss, len(inc), len(self.results)))
            sys.exit(3)
        sys.exit(0)

def replay_case(argv):
    """python3 check.py --replay FILE runs only the saved case"""
    if len(argv) > 2 and argv[1] == "--replay":
        return json.load(open(argv[2]))["case"]
    return None
