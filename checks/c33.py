import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *
import collections

def held(m):
    """what the process holds: open files, threads"""
    d = "/proc/%d/fd" % m.p.pid; out = collections.Counter()
    for f in os.listdir(d):
        try: out[os.readlink(os.path.join(d, f))] += 1
        except OSError: pass
    return out
def threads(m): return len(os.listdir("/proc/%d/task" % m.p.pid))

class World:
    def __init__(self, ctx, case):
        self.ctx, self.case = ctx, case
        r = self.r = rng_of(case, "c33")
        self.interval = r.choice((10, 100))
        self.workers, self.upl = case["workers"]
        sets = ["interval to %d" % self.interval, "mm_page_size to 65536", "wal to %s" % ("true" if case["wal"] else "false"), "wal_crc to %s" % r.choice(("true", "false")),
                "wal_rotate_wm to %d" % r.choice((2000, 50000, 1 << 20)), "wal_sync_on_write to %s" % r.choice(("true", "false"))]
        if r.random() < .2: sets.append("log_to_file to false")
        self.tofile = "log_to_file to false" not in sets
        db = self.db = Db(ctx, r, case.get("variant", "plain"), sets, workers=self.workers, workers_upload=self.upl); db.wal = case["wal"]
        steady = case["kind"] == "steady"
        db.m = ctx.mnx(db.variant, env=dict(GLIBC_TUNABLES="glibc.malloc.tcache_count=0", MALLOC_ARENA_MAX="1") if steady else None)
        db.m.ok("env 0")
        self.base, self.base_th = held(db.m), threads(db.m)
        db.start()
        db.sql("create cloud c (type 'mock')")
        self.g = Gen(r, self.interval, ids=r.choice(("dense", "shuffle", "border")), keys=r.choice(("none", "short")), vals=r.choice(("tiny", "small", "mixed")), limit=400, maxval=3000)
        for n in ["main", "s1", "s2"][:r.choice((1, 2, 3))]:
            o = ["region_size %d" % r.choice((100, 4096)), "compression '%s'" % r.choice(("zstd", "lz4", "")), "crc %s" % r.choice(("true", "false"))]
            if r.random() < .3: o += ["encryption 'aes'", "encryption_key '0123456789abcdef0123456789ABCDEF'"]
            if r.random() < .5: o += ["cloud 'c'", "cloud_drop_local %s" % r.choice(("true", "false"))]
            db.sql(("alter storage main set (%s)" if n == "main" else "create storage " + n + " (%s)") % ", ".join(o))
        db.m.ok("ip root " + db.path)
        self.names = 0
    # ---- monitors
    def check(self, why):
        db, ctx = self.db, self.ctx
        now = held(db.m)
        rel = collections.Counter(); other = collections.Counter()
        for f, n in now.items():
            if f.startswith(db.path): rel[f[len(db.path) + 1:]] += n
            else: other[f] += n
        if other != self.base: raise Viol("files-held", "%s: open beside the directory: %s; before: %s" % (why, dict((other - self.base) + (self.base - other)), db.trail[-12:]))
        want = collections.Counter(self.dirs())
        # (the directory itself is open while its lock is held)
        for p in db.parts():
            if p["on_storage"]:
                n = [f for f in rel if "/" in f and f.split("/")[-1] in ("%020d" % p["min"], "%020d.complete" % p["min"])]
                if len(n) != 1: raise Viol("files-held", "%s: partition %s, open %s; before: %s" % (why, p["min"], n or sorted(rel), db.trail[-12:]))
                want[n[0]] += 1
        if db.wal: want["wal/" + max(os.listdir(os.path.join(db.path, "wal")))] += 1
        if rel != want:
            raise Viol("files-held", "%s: held but not needed %s, missing %s; before: %s" % (why, dict(rel - want), dict(want - rel), db.trail[-12:]))
        ctx.add("states"); ctx.add("files_held", sum(rel.values())); ctx.see("held", tuple(sorted(collections.Counter(re_(f) for f in rel).items())))
        t = threads(db.m) - self.base_th
        if t != self.workers + self.upl: raise Viol("threads", "%s: %d threads, workers %d+%d" % (why, t, self.workers, self.upl))
    def dirs(self):
        return (["log"] if self.tofile else []) + LOCK
    def gone(self, why):
        db = self.db
        now, t = held(db.m), threads(db.m)
        if now != self.base: raise Viol("files-held-closed", "%s: still open %s, missing %s; before: %s" % (why, dict(now - self.base), dict(self.base - now), db.trail[-12:]))
        if t != self.base_th: raise Viol("threads", "%s: %d threads after close, %d before open; %s" % (why, t, self.base_th, db.trail[-12:]))
        self.ctx.add("closed_states")
    def tidy(self, why):
        """nothing of an operation which is over stands in the directory"""
        db = self.db; st = db.js("show storages")
        sh = {p["min"]: p for p in db.parts()}
        for n, s in st.items():
            c = s["config"]; d = os.path.join(db.path, c["path"], c["uuid"])
            want = set()
            for p in sh.values():
                if p["storage"] != n: continue
                if p["on_storage"]: want.add("%020d" % p["min"])
                if p["on_cloud"]: want.add("%020d.cloud" % p["min"])
            fs = set(os.listdir(d)) - {"mock"}
            if n == "main": fs = {f for f in fs if not os.path.isdir(os.path.join(d, f))}
            if fs != want: raise Viol("leftovers", "%s: storage %s: not needed %s, missing %s; before: %s" % (why, n, sorted(fs - want), sorted(want - fs), db.trail[-14:]))
            if os.path.isdir(d + "/mock"):
                o = set(os.listdir(d + "/mock")); w = {"%020d" % p["min"] for p in sh.values() if p["storage"] == n and p["on_cloud"]}
                if self.ctx.stats.get("faults"): o &= w              # (an object whose removal failed stays)
                if o != w: raise Viol("leftovers", "%s: objects of %s: not needed %s, missing %s; before: %s" % (why, n, sorted(o - w), sorted(w - o), db.trail[-14:]))
        top = {f for f in os.listdir(db.path) if not (os.path.isdir(os.path.join(db.path, f)) and not os.listdir(os.path.join(db.path, f)))}     # (empty ones of failed commands)
        ok = {"config.json", "log", "wal"} | {c["config"]["uuid"] for c in st.values()} | {c["config"]["path"].split("/")[0] for c in st.values() if c["config"]["path"]}
        if top - ok: raise Viol("leftovers", "%s: in the directory: %s; before: %s" % (why, sorted(top - ok), db.trail[-14:]))
        self.ctx.add("tidy_states")
def re_(f): return "".join("9" if x.isdigit() else x for x in f.split("/")[-1])[-30:]
LOCK = [""]

OPSX = dict(write=20, refresh=8, refresh_all=3, refresh_range=3, fail_refresh=3, checkpoint=2, service=4, rotate=3, gc=3, create=2, move=6, move_range=2, drop=5, drop_range=1, cloud=9, cursor=5, ddl=4, bad=4, show=2, reopen=2, badopen=1, rebalance=2)

def one(w, faulty):
    db, r, g = w.db, w.r, w.g
    op = pick(r, OPSX)
    if not db.wal and op in ("rotate", "gc"): op = "show"
    if faulty and op in ("drop", "drop_range", "reopen", "badopen", "cursor", "fail_refresh"): op = "refresh"
    w.ctx.add("op_" + op)
    def go(text):
        if not faulty: return db.sql(text)
        return db.trysql(text)
    if op == "write":
        evs = g.batch(r.choice((1, 5, 30)), db.live(), rehit=.3, delete=.2)
        ok, t = db.m.cmd(fmt_events(evs)); db.note("w %d" % len(evs))
        if ok: db.apply(evs)
        elif not faulty: raise Viol("write", t)
    elif op == "cursor":
        db.m.cmd("co 3 0"); db.m.cmd("cw 3 %d" % r.choice((1, 10, 100))); w.ctx.add("cursors")
        w.check("cursor open"); db.m.cmd("cc 3")
    elif op == "ddl":
        w.names += 1; n = "x%d" % w.names
        if r.random() < .5: db.trysql("create storage %s (compression '%s')" % (n, r.choice(("zstd", "bad")))); go("alter storage if exists %s rename to y%s" % (n, n)); db.trysql("drop storage if exists y%s" % n); db.trysql("drop storage if exists %s" % n)
        else: go("create cloud %s (type '%s')" % (n, r.choice(("mock", "s3', access_key 'a', secret_key 'b', url 'http://127.0.0.1:1")))); db.trysql("drop cloud if exists %s" % n)
    elif op == "bad":
        db.trysql(r.choice(("create storage main", "refresh partition 77777777777", "move partition 1 into nowhere", "create cloud q (type 'nothing')", "set nothing to 1", "show nothing", "drop cloud c", "alter storage main set (compression 'x', bad 1)",
                            "create storage q (encryption 'bad')", "create storage q (cloud 'nocloud')", "x", "alter pipeline set nowhere (partitions 1), main", "create partition 10 5", "download partition 99999999999", "'")))
        db.trysql("alter storage main set (compression 'zstd')")
    elif op == "show":
        for x in ("all", "partitions", "storages", "clouds", "wal", "memory", "config", "pipeline"): db.m.cmd("sql show " + x)
    elif op == "rebalance": go("rebalance")
    elif op == "reopen":
        if not db.wal: db.op_refresh_all()
        db.stop(); w.gone("closed"); db.start(); db.m.ok("ip root " + db.path)
    elif op == "badopen":
        db.m.ok("env 1"); db.m.ok("init"); db.m.sql("set workers to %d" % r.choice((0, 2)))
        p = r.choice((db.path, db.path, "/proc/nowhere/x", db.path + "/config.json"))
        ok, t = db.m.cmd("open " + p)
        if ok: raise Viol("badopen", "opened " + p)
        db.m.ok("free"); db.m.ok("env 0"); w.ctx.add("failed_opens")
    elif faulty and r.random() < .3:
        db.m.cmd("scan -1"); db.m.cmd("scan 5 %d -" % r.randrange(500)); db.m.cmd("co 4 %d -" % r.randrange(500)); db.m.cmd("cw 4 50"); db.m.cmd("cc 4"); op = "scan"
    elif faulty:
        p = db.some_part(); q = r.choice(db.storages())
        i = p["min"] if p else 1
        t = {"refresh": "refresh partition %d" % i, "refresh_all": "refresh partitions between 0 and 18446744073709551615", "move": "move partition %d into %s" % (i, q),
             "cloud": r.choice(("upload partition %d if cloud", "download partition %d if cloud")) % i, "checkpoint": "checkpoint", "service": "service", "rotate": "debug 'wal_create'", "gc": "debug 'wal_gc'"}.get(op, "move partition %d into %s" % (i, q))
        db.trysql(t); op = t.split()[0]
    else: getattr(db, "op_" + op)()
    return op

def state_case(ctx, case):
    w = World(ctx, case); db, r = w.db, w.r
    w.check("opened")
    for n in range(case["steps"]):
        faulty = r.random() < .4 and n > 5
        if faulty:
            mask = r.choice((1 + 2, 4, 8, 16, 64, 128, 1 + 2 + 4 + 8 + 16 + 64 + 128, 256, 1024, 2048, 32))
            db.m.ok("ip fail %d %d %d %d 0" % (r.randrange(1, 12), r.choice((5, 28, 12)), mask, r.random() < .3))
            op = one(w, True)
            if int(db.m.ok("ip fired")): ctx.add("faults"); ctx.see("faulted", op)
            db.m.ok("ip off")
            db.m.ok("ip root " + db.path)
        else: one(w, False)
        w.check("step %d" % n)
    for e in (1, 2, 3): db.sql("set error_refresh_%d to false" % e)
    db.op_refresh_all(); db.op_service_all()
    db.sql("set interval to %d" % w.interval)           # (a failed save leaves config.json.new until the next one)
    w.check("end")
    db.stop(); w.gone("end"); db.start(); w.check("reopened"); w.tidy("reopened"); db.check_scan("end")
    # the same without a restart, and without faults
    for n in range(12): one(w, False)
    db.op_refresh_all(); db.op_service_all(); w.check("end 2")
    if not ctx.stats.get("op_fail_refresh"): w.tidy("end 2")
    db.stop(); w.gone("end 2"); db.m.close()

# ---- repeated work reaches a steady state
def heap(db):
    return int(db.m.ok("heap"))
def steady_case(ctx, case):
    w = World(ctx, case); db, r = w.db, w.r
    nst = db.storages()
    evs = [(0, i, "", "g%d:%d:2" % (i, r.choice((10, 100, 1000)) + 70)) for i in sorted({r.randrange(4 * w.interval) for _ in range(60)})]
    los = sorted({i - i % w.interval for _, i, _, _ in evs})
    q = r.choice(nst)
    steps = []
    for _ in range(r.choice((3, 6, 10))):
        lo = r.choice(los)
        steps += r.choice((["refresh partition %d" % lo], ["move partition if exists %d into %s" % (lo, r.choice(nst))], ["upload partition if exists %d if cloud" % lo], ["download partition if exists %d if cloud" % lo], ["debug 'wal_create'"] if db.wal else ["show all"], ["debug 'wal_gc'"] if db.wal else ["show wal"],
                           ["drop partition if exists %d" % lo], ["refresh partition 99999999"], ["x y z"], ["set nothing to 'a'"], ["create storage zz (compression 'lz4')", "drop storage zz"], ["create storage main"], ["create cloud zc (type 's3', access_key 'a', secret_key 'b', url 'http://127.0.0.1:1')", "create storage zs (cloud 'zc')", "drop storage zs", "drop cloud zc"],
                           ["create storage zr (compression 'zstd')", "alter storage zr rename to zq", "alter storage zq set (compression 'lz4')", "drop storage zq"], ["alter pipeline set main", "alter pipeline reset"], ["show partitions"], ["show storages"], ["checkpoint", "service", "service", "service"], ["rebalance"], ["show memory"],
                           ["create partition if not exists 5000000", "drop partition if exists 5000000"], ["set error_refresh_2 to true", "refresh partition %d" % lo, "set error_refresh_2 to false", "refresh partition %d" % lo]))
    # failures of the file system within a command
    for _ in range(r.choice((0, 1, 3, 6))):
        i = r.choice(los)
        steps.insert(r.randrange(len(steps) + 1), ("ip fail %d %d %d %d 0" % (r.choice((1, 1, 2, 3, 5)), r.choice((5, 28)), r.choice((1 + 2, 4, 8, 8, 16, 64, 128, 4 + 8)), r.random() < .4),
            r.choice((fmt_events(evs[:20]), "sql refresh partition %d" % i, "sql refresh partition %d" % i, "sql move partition %d into %s" % (i, r.choice(nst)), "scan -1", "scan -1", "sql upload partition %d if cloud" % i, "sql download partition %d if cloud" % i,
                      "sql drop partition %d" % i, "sql create storage zf (compression 'zstd')", "sql alter storage s1 set (compression 'zstd')", "sql debug 'wal_create'", "sql set interval to %d" % w.interval, "sql service", "sql checkpoint"))))
    kinds = r.choice(("same", "same", "reopen"))
    def cycle():
        db.m.cmd(fmt_events(evs)); db.m.cmd("scan 10"); db.m.cmd("scan -1")
        for s in steps:
            if isinstance(s, tuple):
                db.m.ok(s[0]); ctx.add("steady_failed", not db.m.cmd(s[1])[0]); db.m.ok("ip off"); db.m.ok("ip root " + db.path)
            else: db.m.cmd("sql " + s)
        db.m.cmd("co 3 5"); db.m.cmd("cw 3 20"); db.m.cmd("cc 3")
        db.m.cmd(fmt_events([(1, i, k, "-") for _, i, k, _ in evs])); db.m.cmd("sql refresh partitions between 0 and 18446744073709551615")
        for _ in range(12): db.m.cmd("sql service")
        if db.wal: db.m.cmd("sql debug 'wal_create'"); db.m.cmd("sql debug 'wal_gc'")
        if kinds == "reopen": db.stop(); db.start()
    warm, n = case["warm"], case["cycles"]
    for _ in range(warm): cycle()
    def sample():
        f = db.files(); f.pop("log", None)
        return heap(db), collections.Counter("".join("9" if c.isdigit() else c for c in x) if x.startswith("wal/") else x for x in f), threads(db.m), json.dumps(db.js("show memory"))
    a = sample()
    for _ in range(n): cycle()
    b = sample()
    for _ in range(n): cycle()
    c = sample()
    ctx.add("steady"); ctx.see("steps", tuple(sorted({str(s).split()[0] + " " + str(s).split()[-1][:6] for s in steps}))); ctx.see("growth", (c[0] - b[0]) // 64)
    if c[0] - b[0] > 16 * n and b[0] - a[0] > 16 * n: raise Viol("memory-grows", "%d rounds of %s (%s) take %d bytes, %d the %d before" % (n, steps, kinds, c[0] - b[0], b[0] - a[0], n))
    if c[1] != b[1]: raise Viol("files-grow", "%d rounds of %s (%s): %s, gone %s" % (n, steps, kinds, dict(c[1] - b[1]), dict(b[1] - c[1])))
    if c[2] != b[2]: raise Viol("threads", "%d then %d threads: %s" % (b[2], c[2], steps))
    if c[3] != b[3]: raise Viol("pages-grow", "%s then %s: %s" % (b[3], c[3], steps))
    w.check("end"); db.stop(); w.gone("end"); db.m.close()

# ---- workers at work: threads while open, nothing left after close
def worker_case(ctx, case):
    r = rng_of(case, "c33w"); db = None
    m = ctx.mnx(case.get("variant", "plain")); path = ctx.dir + "/db"
    m.ok("env 0"); base, th = held(m), threads(m)
    nw, nu = case["n"]; seen = 0; interval = 100; files = None
    live = {}
    for rnd in range(case["rounds"]):
        m.ok("init")
        for s in ("workers to %d" % nw, "workers_upload to %d" % nu, "interval to %d" % interval, "mm_page_size to 65536", "wal_rotate_wm to %d" % r.choice((2000, 1 << 20))): m.sql("set " + s)
        m.ok("open " + path)
        if not rnd:
            m.sql("create cloud c (type 'mock')")
            m.sql("alter storage main set (refresh_wm %d%s)" % (r.choice((1, 2000)), r.choice(("", ", cloud 'c'"))))
        for _ in range(case["writes"]):
            evs = [(0, r.randrange(1500), "", "g%d:%d:2" % (r.getrandbits(30), r.choice((17, 300)))) for _ in range(r.choice((1, 10, 30)))]
            evs.sort(); m.ok(fmt_events(evs))
            for _, i, _, v in evs: live[i] = v
            x = r.random()
            if x < .1: m.cmd("sql checkpoint")
            elif x < .15: m.cmd("sql drop partition if exists %d" % r.randrange(1500)) if case.get("drops") else None
            elif x < .2: m.cmd("sql debug 'wal_gc'")
            elif x < .3: m.ok("sleep %d" % r.choice((100, 5000)))
            t = threads(m) - th
            if t != nw + nu: raise Viol("threads", "%d threads beside those of the process, workers %d+%d" % (t, nw, nu))
            ctx.add("worker_states")
        if r.random() < .4: m.ok("ip fail %d %d %d %d 0" % (r.randrange(1, 20), 28, 1 + 8 + 16 + 64, 1)); m.ok("sleep 3000")
        m.ok("ip off"); m.ok("free")
        now, t = held(m), threads(m)
        if now != base: raise Viol("files-held-closed", "after close with %d+%d workers: still open %s, missing %s" % (nw, nu, dict(now - base), dict(base - now)))
        if t != th: raise Viol("threads", "%d threads after close, %d before open" % (t, th))
        ctx.add("worker_closes")
    # everything done: one object per copy, nothing of the work left
    m.ok("init"); m.sql("set workers to 0"); m.sql("set workers_upload to 0"); m.sql("set interval to %d" % interval); m.sql("set mm_page_size to 65536"); m.ok("open " + path)
    m.sql("refresh partitions between 0 and 18446744073709551615")
    for _ in range(60): m.sql("service")
    got = parse_events(m.ok("scan -1")); want = [(i, "", v) for i, v in sorted(live.items())]
    if [x[0] for x in got] != [x[0] for x in want]: raise Viol("content", diff(got, want))
    ps = m.js("show partitions"); st = m.js("show storages")["main"]["config"]
    fs = {f for f in os.listdir(os.path.join(path, st["path"], st["uuid"])) if f != "mock"}
    w = {"%020d" % p["min"] for p in ps if p["on_storage"]} | {"%020d.cloud" % p["min"] for p in ps if p["on_cloud"]}
    if fs != w: raise Viol("leftovers", "after work by %d+%d workers: not needed %s, missing %s" % (nw, nu, sorted(fs - w), sorted(w - fs)))
    ctx.add("tidy_states"); m.ok("free"); m.close()

def fn(ctx, case):
    if case["kind"] == "workers": return worker_case(ctx, case)
    (steady_case if case["kind"] == "steady" else state_case)(ctx, case)

def cases():
    n = 480 if not THOROUGH else 6000
    return [dict(seed=k, kind="workers", n=((1, 0), (2, 1), (4, 2), (1, 1), (0, 1))[k % 5], rounds=3, writes=15, variant="asan" if k % 4 == 1 else "plain") for k in range(n // 8)] + \
        [dict(seed=k, kind="steady" if k % 4 == 3 else "state", steps=40, wal=k % 5 != 4, workers=(0, 0), warm=6, cycles=20, variant="asan" if k % 8 == 1 else "plain") for k in range(n)]

if __name__ == "__main__":
    c = Check("C33", "exploration", variants=("plain", "asan"))
    one_ = replay_case(sys.argv)
    c.run(fn, [one_] if one_ else cases(), budget=800 if THOROUGH else 150)
    c.finish("one case = (state) a random program with failed commands and injected faults; after every step the open files of the process must be exactly those its state needs, the threads those configured, and after close those from before the open; "
             "at the end the directory and buckets must hold nothing but what SHOW lists; or (steady) one cycle of commands repeated, which must stop taking memory, pages, files or threads; or (workers) writes, faults and closes with workers running",
             need=("states", "closed_states", "tidy_states", "faults", "failed_opens", "cursors", "steady", "steady_failed", "files_held", "worker_states", "worker_closes"))
