import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from conc import *
import c18, c20

class Free(Conc):
    """only the monitors of the process decide here"""
    def decide(self, ops, what="", key=""):
        self.ctx.add("histories")
        fin = self.db.scan(); self.init = {p: {(i, k): v for i, k, v in fin if self.pid(i) == p} for p in range(self.np)}; self.db.model = {(i, k): v for i, k, v in fin}; self.db.live_cache = None
    def history(self, threads, res, may_fail=()):
        ops = {p: [] for p in range(self.np)}
        for th, idx, t0, t1, ok, text in res: self.ctx.add("ok" if ok else "refused")
        return ops
c18.Conc = c20.Conc = Free
c20.check = lambda *a, **k: None
c20.collect = lambda *a: a[0].ctx.add("walkers")

SETS = ["set interval to %d" % Conc.I, "set compression to 'zstd'", "set compression to 'lz4'", "set compression_level to 3", "set wal_rotate_wm to 4000", "set log_to_stdout to false"]
def ddl_line(c):
    r = c.r; n = r.choice(("d1", "d2", "d3")); k = r.choice(("e1", "e2"))
    return "sql " + pick(r, {
        "create storage if not exists %s (refresh_wm %d, region_size %d)" % (n, r.choice((1, 400)), r.choice((1, 5000))): 5,
        "create storage if not exists %s (compression 'zstd', encryption 'aes', encryption_key '%s')" % (n, "k" * 32): 2,
        "create storage if not exists %s (cloud '%s')" % (n, k): 2,
        "drop storage if exists %s" % n: 4,
        "alter storage if exists %s set (refresh_wm %d, compression '%s')" % (n, r.choice((1, 1000)), r.choice(("zstd", "lz4", ""))): 4,
        "alter storage if exists %s rename to %s" % (n, r.choice(("d1", "d2", "d3"))): 2,
        "create cloud if not exists %s (type 'mock')" % k: 3, "drop cloud if exists %s" % k: 2,
        "alter cloud if exists %s rename to %s" % (k, r.choice(("e1", "e2"))): 1, "alter cloud if exists %s set (login 'x')" % k: 1,
        "alter pipeline set main (partitions %d), %s" % (r.choice((0, 1, 2)), n): 4, "alter pipeline reset": 2,
        "alter pipeline set main (events %d), %s (size 1000), d1" % (r.choice((0, 5, 20)), r.choice(("d2", "d3"))): 2,
        r.choice(SETS): 2,
        "show all": 4, "show config": 3, "show storages" + r.choice(("", " debug")): 4, "show storage %s" % n: 2, "show clouds": 2, "show cloud %s debug" % k: 1, "show pipeline": 2, "show memory": 2, "show wal": 3,
        "show partitions" + r.choice(("", " " + n, " main debug")): 4, "show partition %d" % c.lo(r.randrange(c.np)): 2, "show interval": 1, "show uuid": 1,
        "move partition %d into %s" % (c.lo(r.randrange(c.np)), n): 4, "move partitions between %d and %d into %s" % (c.base, c.lo(c.np) - 1, r.choice((n, "main"))): 3,
        "rebalance": 3, "checkpoint": 3, "service": 3, "refresh partition %d" % c.lo(r.randrange(c.np)): 3, "debug 'wal_gc'": 2, "debug 'wal_create'": 2, "debug 'memory_gc'": 2, "debug 'wal_read'": 0,
        "drop partition if exists %d" % c.lo(r.randrange(c.np)): 1, "drop partitions between %d and %d" % (c.lo(r.randrange(c.np)), c.lo(c.np) - 1): 1,
        "upload partitions between %d and %d if cloud" % (c.base, c.lo(c.np) - 1): 2, "download partitions between %d and %d if cloud" % (c.base, c.lo(c.np) - 1): 2,
        "create partition %d" % (c.lo(c.np) + r.randrange(9) * 100): 1, "select 1": 1, "alter pipeline set nope": 1})

def ddl(ctx, case):
    """schema changes, SHOW and settings among writers, readers and maintenance"""
    sets = []
    r = rng_of(case, "c19ddl")
    if case["limit"]: sets = ["mm_limit to true", "mm_limit_wm to %d" % (65536 * r.choice((4, 8))), "mm_limit_behaviour to 'error'"] if r.random() < .5 else ["mm_limit to true", "mm_limit_wm to %d" % (65536 * r.choice((2, 4))), "mm_limit_behaviour to 'error'", "mm_cache to 70000"]
    c = Free(ctx, case, "c19ddl", case["variant"], sets=sets); r, db = c.r, c.db; c.wide = True
    for rnd in range(case["rounds"]):
        threads = []
        for t in range(case["threads"]):
            kind = r.choice(("ddl", "ddl", "mixed", "io")); l = []
            for _ in range(case["n"]):
                x = {"ddl": "d", "mixed": r.choice("dwra"), "io": r.choice("wwr")}[kind]
                if x == "d": l.append((ddl_line(c), None))
                elif x == "w": l += c.writer(1)
                elif x == "r": l += c.reader(1)
                else: l.append(c.admin())
            threads.append(l)
        res = c.run(threads, r.choice((None, (20, 200), (5, 1000))), stall=20)
        c.history(threads, res); ctx.add("ddl_rounds")
        for th, idx, t0, t1, ok, text in res:
            w = threads[th][idx][0].split()
            if w[0] == "sql": ctx.see("commands", " ".join(w[1:3]) + (" ok" if ok else " refused"))
    db.m.ok("free"); db.m.close()

def life(ctx, case):
    """opening and closing while workers are busy"""
    c = Free(ctx, case, "c19life", case["variant"], workers=case["workers"]); r, db = c.r, c.db; c.wide = True
    for rnd in range(case["rounds"]):
        c.run([c.writer(case["n"]) for _ in range(2)], r.choice((None, (50, 500))), stall=20)
        if r.random() < .5: db.m.cmd("sql rebalance")
        db.m.ok("free"); ctx.add("closed_busy"); ctx.add("histories")
        db.m.ok("init")
        for s in db.sets: db.sql("set " + s)
        db.m.ok("open " + db.path)
    db.m.ok("free"); db.m.close()

def two(ctx, case):
    """two environments of one process, each used by its own threads"""
    cs = []
    r = rng_of(case, "two")
    m = ctx.mnx(case["variant"])
    for e in range(2):
        m.ok("env %d" % e); m.ok("init")
        for s in ("workers to %d" % r.choice((0, 1, 2)), "workers_upload to %d" % r.choice((0, 1)), "serial to false", "interval to %d" % Conc.I, "mm_page_size to 65536", "wal_rotate_wm to 5000"): m.sql("set " + s)
        m.ok("open %s/db%d" % (ctx.dir, e)); m.sql("alter storage main set (refresh_wm 1)")
        c = Free.__new__(Free); c.ctx, c.case, c.r, c.base, c.np, c.ver, c.slots, c.names = ctx, case, r, 0, 3, 0, [(x, "") for x in range(0, 32, 9)], ["main"]
        c.db = type("D", (), {"m": m, "wal": True})(); c.wide = True; c.init = {p: {} for p in range(3)}; cs.append(c)
    for rnd in range(case["rounds"]):
        threads = []
        for t in range(case["threads"]):
            e = t % 2; c = cs[e]; l = [("env %d" % e, None)]
            for _ in range(case["n"]):
                x = r.choice("wwrad")
                l += c.writer(1) if x == "w" else c.reader(1) if x == "r" else [c.admin()] if x == "a" else [(ddl_line(c), None)]
            if r.random() < .3 and t < 2 and case["threads"] == 2: l += [("env %d" % e, None)]
            threads.append(l)
        res = cs[0].run(threads, r.choice((None, (20, 200))), stall=20)
        cs[0].history(threads, res); ctx.add("histories")
    for e in range(2): m.ok("env %d" % e); m.ok("free")
    m.close()

def fn(ctx, case):
    f = {"mixed": c18.mixed, "serial": c18.serial, "walk": c20.mixed, "parked": c20.parked, "ddl": ddl, "life": life, "two": two}[case["mode"]]
    f(ctx, case)
    ctx.add("reported", 0); ctx.add("mode_" + case["mode"])

def cases():
    n = 1200 if not THOROUGH else 16000
    out = []
    v = "tsan"
    for k in range(n):
        m = ("ddl", "mixed", "ddl", "walk", "mixed", "life", "ddl", "serial", "mixed", "parked", "ddl", "walk", "two")[k % 13]
        out.append(dict(seed=k, mode=m, threads=(2, 3, 4, 6)[k % 4], walkers=1 + k % 2, n=24, rounds=2, variant=v, drop=k % 3 == 0, cloud=k % 2 == 0, wal=k % 9 != 4, limit=k % 5 == 0, workers=1 + k % 3))
    return out

if __name__ == "__main__":
    c = Check("C19", "exploration", variants=("tsan",))
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), procs=6, budget=800 if THOROUGH else 200)
    c.finish("one case = one threaded workload (writes, scans, cursors, maintenance, schema changes, SHOW, open/close with busy workers) under ThreadSanitizer with injected delays at lock and file operations; "
             "any report (data race, lock misuse, lock order inversion, freed memory) or a standstill is a violation",
             need=("histories", "mode_ddl", "mode_mixed", "mode_walk", "mode_life", "mode_parked", "mode_serial", "mode_two", "ok"))
