import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from program import *
import bisect

class Map:
    """independent model of the partition ranges"""
    def __init__(self, interval): self.p, self.interval = [], interval
    def find(self, i):
        k = bisect.bisect_right(self.p, (i, U64 + 1)) - 1
        return self.p[k] if k >= 0 and self.p[k][0] <= i <= self.p[k][1] else None
    def fill(self, lo, hi):
        new, at = [], lo
        for a, b in self.p:
            if b < at: continue
            if a > hi: break
            if a > at: new.append((at, a - 1))
            at = b + 1
        if at <= hi: new.append((at, hi))
        self.p = sorted(self.p + new)
        return new
    def need(self, i):
        if self.find(i): return []
        lo = i - i % self.interval
        return self.fill(lo, min(U64, lo + self.interval - 1))

class P10:
    def __init__(self, ctx, r, db, g, interval):
        self.ctx, self.r, self.db, self.g, self.map = ctx, r, db, g, Map(interval)
        self.hot = []
    def id(self):
        r = self.r; x = r.random(); it = self.map.interval
        if x < .35 and self.map.p:              # at or next to a border
            a, b = r.choice(self.map.p); return max(0, min(U64 - 1, r.choice((a, b, a - 1, b + 1, (a + b) // 2, a + 1, b - 1))))
        if x < .45: return max(0, min(U64 - 1, r.choice((0, 1, it - 1, it, it + 1, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, U64 - 1, U64 - it, U64 - U64 % it, U64 - U64 % it - 1))))
        if x < .5: return r.randrange(U64)
        return min(U64 - 1, self.base + r.randrange(6 * max(it if it < 1 << 40 else 1000, 50)))
    def write(self):
        evs = []
        for _ in range(self.r.choice((1, 1, 3, 20))):
            live = self.db.live()
            if live and self.r.random() < .15: i, k = self.r.choice(live); evs.append((self.r.choice((0, 1)), i, k, "h%04x" % self.r.randrange(65536)))
            else: evs.append((0, self.id(), "" if self.r.random() < .7 else "61", "h%04x" % self.r.randrange(65536)))
        self.db.write(evs)
        for f, i, k, v in evs:
            n = self.map.need(i)
            if n: self.ctx.add("created_by_write", len(n)); self.ctx.see("fill_shapes", min(len(n), 6))
            if len(n) > 1 or (n and n[0][1] - n[0][0] + 1 != self.map.interval): self.ctx.add("partial_intervals")
    def create(self):
        r = self.r
        a = self.id(); b = min(U64, a + r.choice((0, 1, 5, 50, self.map.interval, self.map.interval * 3, 1 << 33)))
        if r.random() < .15: a, b = b, a
        w = "if not exists " if r.random() < 0 else ""
        ok, t = self.db.trysql("create partition %s%d %d" % (w, a, b))
        if ok: self.ctx.add("created_explicit", len(self.map.fill(a, b)))
        elif a <= b: raise Viol("create-error", "create partition %d %d: %s" % (a, b, t))
        else: self.ctx.add("create_refused")
    def check(self, why):
        ps = self.db.parts(); self.ctx.add("map_checks")
        got = [(p["min"], p["max"]) for p in ps]
        for (a, b), (c, d) in zip(got, got[1:]):
            if not (a <= b < c <= d): raise Viol("overlap", "%s: partitions [%d,%d] and [%d,%d]; before %s" % (why, a, b, c, d, self.db.trail[-8:]))
        if got != self.map.p:
            a = [x for x in got if x not in self.map.p][:5]; b = [x for x in self.map.p if x not in got][:5]
            raise Viol("ranges", "%s: interval %d: unexpected partitions %s, missing %s; before %s" % (why, self.map.interval, a, b, self.db.trail[-8:]))
    def count(self, why):
        """after a refresh of everything each partition reports the events of its range"""
        self.db.op_refresh_all(); ids = sorted(i for i, _ in self.db.model)
        for p in self.db.parts():
            n = bisect.bisect_right(ids, p["max"]) - bisect.bisect_left(ids, p["min"])
            if p["events"] != n: raise Viol("events-of-range", "%s: partition [%d,%d] reports %d events, %d belong to it; before %s" % (why, p["min"], p["max"], p["events"], n, self.db.trail[-8:]))
            self.ctx.add("ranges_counted")
    def reopen(self, kill):
        db = self.db; ps = db.parts()
        if not kill and not db.wal: db.op_refresh_all(); ps = db.parts()
        db.note("kill" if kill else "reopen")
        if kill: db.kill(); db.start()
        else: db.reopen()
        got = [(p["min"], p["max"]) for p in db.parts()]
        # ranges which have files are kept; the replayed events create the others from aligned intervals
        keep = Map(self.map.interval); keep.p = sorted((p["min"], p["max"]) for p in ps if (p["on_storage"] or p["on_cloud"]) and p["events"])
        for x in keep.p:
            if x not in got: raise Viol("range-lost", "partition %s with a file is not there after the reopen; before %s" % (x, db.trail[-8:]))
        keep.p = sorted((p["min"], p["max"]) for p in db.parts() if p["on_storage"] or p["on_cloud"])
        for x in got:
            if x in keep.p or x in self.map.p: continue
            lo = x[0] - x[0] % self.map.interval; hi = min(U64, lo + self.map.interval - 1)
            m = Map(self.map.interval); m.p = list(keep.p)
            if x not in m.fill(lo, hi): raise Viol("ranges", "partition %s appeared in a reopen; files %s; interval %d; before %s" % (x, keep.p[:8], self.map.interval, db.trail[-8:]))
        for i, _ in db.model:
            k = bisect.bisect_right(got, (i, U64 + 1)) - 1
            if k < 0 or not got[k][0] <= i <= got[k][1]: raise Viol("no-partition", "event %d lies in no partition after the reopen" % i)
        self.map.p = got; self.ctx.add("reopen_checks")
        self.check("reopen"); db.check_scan("reopen", "unreachable")
    def drop(self):
        p = self.r.choice(self.map.p) if self.map.p else None
        if not p: return
        i = self.r.choice((p[0], p[1]))
        if self.r.random() < .5 and self.map.p:
            k = self.map.p.index(p); ps = self.map.p[k:k + self.r.randrange(1, 4)]
            # ranges between partitions may hold gaps: only whole partitions are selected
            self.db.sql("drop partitions between %d and %d" % (ps[0][0], ps[-1][1]))
        else: ps = [p]; self.db.sql("drop partition %d" % i)
        for x in ps: self.map.p.remove(x); self.db.remove_range(*x)
        self.ctx.add("drops")

def fn(ctx, case):
    r = rng_of(case)
    interval = r.choice((1, 2, 7, 10, 100, 1000, 3000000, 1 << 40, (1 << 62) - 1))
    wal = r.random() < .7
    db = Db(ctx, r, sets=["interval to %d" % interval, "mm_page_size to 65536", "wal to %s" % ("true" if wal else "false"), "compression to ''"]).start()
    db.sets = [s for s in db.sets if not s.startswith("interval")]
    g = None
    t = P10(ctx, r, db, g, interval); t.base = r.choice((0, 0, 5 * interval, 1 << 32, (1 << 63) - 20))
    if r.random() < .3: db.sql("create storage s2")
    drops = r.random() < .5         # (drops with a later interval change and restart: finding of C11)
    ctx.see("intervals", interval)
    for step in range(case["steps"]):
        x = r.random()
        if len(t.map.p) > 300: x = .5 + x / 2
        if x < .5: t.write()
        elif x < .62: t.create()
        elif x < .68 and not drops:
            t.map.interval = r.choice((1, 3, 10, 64, 100, 999, 3000000, 1 << 33)); db.sql("set interval to %d" % t.map.interval); ctx.add("interval_changes")
        elif x < .74 and drops: t.drop()
        elif x < .8: db.op_refresh() if r.random() < .7 else db.op_fail_refresh()
        elif x < .83: db.op_move()
        elif x < .88: db.check_seeks(5, key="unreachable")
        elif x < .92: db.check_scan("step", "unreachable")
        elif x < .96: t.reopen(kill=wal and r.random() < .5)
        else: t.count("step")
        t.check("step %d" % step)
    t.count("end"); db.check_scan("end", "unreachable"); db.check_seeks(20, key="unreachable")
    t.reopen(False)
    db.stop(); db.m.close()
    ctx.sample = {"interval": interval, "partitions": len(t.map.p), "last": db.trail[-6:]}

def cases():
    q = not THOROUGH
    return [dict(seed=k, steps=(40, 80, 160)[k % 3]) for k in range(1500 if q else 5000)]

if __name__ == "__main__":
    c = Check("C10")
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), budget=800 if THOROUGH else 90)
    c.finish("one case = a program of writes at partition borders and over the whole id space, explicit ranges, interval changes or drops, refreshes, moves and "
             "reopens; the ranges reported are compared with an independent model after every step",
             need=("created_by_write", "created_explicit", "partial_intervals", "reopen_checks", "ranges_counted", "drops", "interval_changes"))
