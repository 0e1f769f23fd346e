import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *
from pfile import Pfile

T0 = 1700000000000000
class Pipe:
    """a database with several storages, a pipeline over some of them and a wall clock of its own"""
    def __init__(self, ctx, case):
        self.ctx, self.case = ctx, case
        r = self.r = rng_of(case, "c16")
        self.sets = ["interval to %d" % r.choice((10, 100)), "mm_page_size to 65536", "wal to %s" % r.choice(("true", "true", "false")), "wal_crc to true"]
        self.interval = int(self.sets[0].split()[-1])
        self.mode = case["mode"]
        w = 0 if self.mode != "workers" else r.choice((1, 2, 4))
        db = self.db = Db(ctx, r, case.get("variant", "plain"), self.sets, workers=w, workers_upload=w and 1)
        self.now = T0
        if self.mode != "workers": db.pre = 1
        self.pre = ["ip clock %d" % self.now] if self.mode != "workers" else []
        db.start(self.pre)
        cloud = r.random() < .3
        if cloud: db.sql("create cloud c (type 'mock')")
        self.names = ["main"] + ["s%d" % i for i in range(r.choice((1, 2, 3, 4)))]
        self.cloudy = set()
        o = []
        comp = r.choice(("", "", "zstd", "lz4")); reg = r.choice((100, 1000, 131072))
        for n in self.names:
            opt = "compression '%s', region_size %d" % (comp, reg)
            if n == "main": db.sql("alter storage main set (%s)" % opt); continue
            if cloud and r.random() < .4: opt += ", cloud 'c', cloud_drop_local %s" % r.choice(("true", "false")); self.cloudy.add(n)
            db.sql("create storage %s (%s)" % (n, opt))
        self.limits = case["limits"]
        self.pipeline = []
        self.pending = set()
        self.next_id = r.choice((0, 1000000)); self.created = {}
        self.g = Gen(r, 100, ids="dense", keys=r.choice(("none", "short")), maxval=1500)
    # ---- pipeline
    def alter(self):
        r, db = self.r, self.db
        if r.random() < .07:
            db.sql("alter pipeline reset"); self.pipeline = []; return
        ns = r.sample(self.names, r.randint(1, len(self.names)))
        if self.mode == "workers" and "main" in ns: pass
        self.pipeline = []
        for n in ns:
            t = {}
            for k in self.limits:
                if r.random() < (.75 if len(self.limits) == 1 else .45):
                    t[k] = {"partitions": lambda: r.choice((0, 1, 1, 2, 3, 5)), "events": lambda: r.choice((0, 1, 20, 60, 150)), "size": lambda: r.choice((0, 1000, 5000, 20000)),
                            "duration": lambda: r.choice((0, 1000000, 60000000, 3600000000))}[k]()
            if not t and n != ns[-1]: t[self.limits[0]] = 3      # a limit is obligatory there
            self.pipeline.append((n, t))
        db.sql("alter pipeline set " + ", ".join("%s (%s)" % (n, ", ".join("%s %d" % x for x in t.items())) if t else n for n, t in self.pipeline))
        self.ctx.see("tiers", len(self.pipeline))
        for n, t in self.pipeline:
            for k in t: self.ctx.see("limits", "%s of tier %s" % (k, "last" if n == ns[-1] else "inner"))
    def clock(self, us):
        self.now += us; self.db.m.ok("ip clock %d" % self.now)
    def write(self, n):
        """mostly in time order, sometimes into partitions of the past"""
        r, db, evs = self.r, self.db, []
        first = self.pipeline[0][0] if self.pipeline else "main"
        old = {p["min"] for p in db.parts()}
        for _ in range(n):
            if r.random() < .2 and db.model:
                i, k = r.choice(db.live()); evs.append((1 if r.random() < .4 else 0, i, k, "-" if 0 else self.g.val()) if r.random() < .7 else (0, max(0, i - r.randrange(3 * self.interval)), k, self.g.val()))
            else:
                self.next_id += r.choice((1, 1, 2, self.interval // 2, self.interval)); evs.append((0, self.next_id, self.g.key(), self.g.val()))
        evs = [(f, i, k, "-" if f else v) for f, i, k, v in evs]
        for e in evs:
            if self.mode != "workers": self.clock(r.choice((1000, 1000, 500000, 20000000)))
            db.write([e])
        if self.mode != "workers":
            for p in db.parts():
                if p["min"] not in old:
                    self.ctx.add("new_partitions")
                    if p["storage"] != first: raise Viol("first-tier", "new partition %d was created on %s, first tier is %s" % (p["min"], p["storage"], first))
    # ---- model
    def snapshot(self):
        db = self.db
        uu = {n: s["config"]["uuid"] for n, s in db.js("show storages").items()}
        out = {}
        for p in db.parts():
            base = os.path.join(db.path, uu[p["storage"]], "%020d" % p["min"])
            d = None
            for x in ("", ".cloud", ".complete"):
                if os.path.exists(base + x): d = Pfile(open(base + x, "rb").read()).index; break
            if d and d["events"] + p["events_heap"] != p["events"]: raise Viol("events", "partition %d: file %d + memory %d events, SHOW says %d" % (p["min"], d["events"], p["events_heap"], p["events"]))
            out[p["min"]] = dict(min=p["min"], max=p["max"], created=p["created"], storage=p["storage"], file=d is not None, size=d["size_regions"] if d else 0,
                                 events=d["events"] if d else 0, heap=p["events_heap"])
        return out
    def predict(self, st, pending):
        """the partitions and storages after REBALANCE: {min: storage or None}"""
        live = {}
        for i, k in self.db.model:
            for q in ():
                pass
        mins = sorted(st)
        import bisect
        for i, k in self.db.model:
            m = mins[bisect.bisect_right(mins, i) - 1]; live[m] = live.get(m, 0) + 1
        st = {m: dict(p) for m, p in st.items()}
        steps = 0
        def next_():
            for n, (name, t) in enumerate(self.pipeline):
                ps = [p for p in st.values() if p["storage"] == name]
                if not ps: continue
                old = min(ps, key=lambda p: p["created"])
                over = None
                if "partitions" in t and len(ps) > t["partitions"]: over = "partitions"
                elif "size" in t and sum(p["size"] for p in ps) > t["size"]: over = "size"
                elif "events" in t and sum(p["events"] for p in ps) > t["events"]: over = "events"
                elif "duration" in t and self.now - old["created"] >= t["duration"]: over = "duration"
                if over is None: continue
                if old["min"] in pending: self.ctx.add("skipped_pending"); continue
                return n, old, over
        while True:
            x = next_()
            if x is None: break
            n, p, over = x; steps += 1
            if n + 1 == len(self.pipeline): del st[p["min"]]; self.ctx.add("predicted_drops"); self.ctx.see("causes", "drop by " + over)
            else:
                if p["heap"] and "size" in self.limits: return None       # size of the merged file is not predicted
                p["storage"] = self.pipeline[n + 1][0]; p["events"] = live.get(p["min"], 0); p["heap"] = 0; p["file"] = True
                self.ctx.add("predicted_moves"); self.ctx.see("causes", "move by " + over)
        self.ctx.see("lengths", min(steps, 20))
        return st
    def forget(self, before, after):
        for m in before:
            if m not in after: self.db.remove_range(m, before[m]["max"])
    def compare(self, got, want, before, why):
        g = {m: p["storage"] for m, p in got.items()}; w = {m: p["storage"] for m, p in want.items()}
        if g != w:
            d = [(m, "was %s" % before[m]["storage"] if m in before else "new", "want %s" % w.get(m, "dropped"), "is %s" % g.get(m, "dropped")) for m in sorted(set(g) | set(w)) if g.get(m) != w.get(m)]
            raise Viol("rebalance", "%s at %d with pipeline %s: %s; partitions before %s; commands %s" % (why, self.now - T0, self.pipeline, d[:4], [(p["min"], p["storage"], p["created"] - T0, p["events"], p["size"]) for p in before.values()][:12], self.db.trail[-40:]))
        self.forget(before, got)
        for m in got:
            if m in before and before[m]["created"] != got[m]["created"]: raise Viol("created", "creation time of partition %d changed from %d to %d by %s" % (m, before[m]["created"], got[m]["created"], why))
        self.db.check_scan(why, "rebalance-content")
        self.ctx.add("rebalances")
    def rebalance(self):
        r, db = self.r, self.db
        if "size" in self.limits and r.random() < .8: db.op_refresh_all(); self.pending = set()
        if r.random() < .25:
            # the scheduled refreshes of these partitions are not done yet
            db.sql("checkpoint"); self.pending |= {p["min"] for p in db.parts() if p["events_heap"]}
        fail = r.random() < .15
        before = self.snapshot()
        if r.random() < .4: self.clock(r.choice((1000, 100000, 1500000, 61000000)))
        else: self.db.m.ok("ip clock %d" % self.now)
        # not closer to a limit than the time the command may take
        for p in before.values():
            for _, t in self.pipeline:
                if "duration" in t and 0 <= p["created"] + t["duration"] - self.now < 3000: self.clock(5000)
        want = self.predict(before, self.pending)
        if fail: return self.rebalance_failing(before)
        db.sql("rebalance")
        got = self.snapshot()
        if want is None: self.sane(before, got); return
        self.compare(got, want, before, "rebalance")
        again = self.snapshot(); db.sql("rebalance")
        if {m: p["storage"] for m, p in self.snapshot().items()} != {m: p["storage"] for m, p in again.items()}:
            raise Viol("not-stable", "a second REBALANCE moved more; pipeline %s" % self.pipeline)
    def rebalance_failing(self, before):
        """an error stops it half way, repeating it without the error finishes"""
        db, r = self.db, self.r
        n = r.choice((1, 2, 3))
        db.sql("set error_refresh_%d to true" % n)
        ok, t = db.trysql("rebalance")
        db.sql("set error_refresh_%d to false" % n)
        mid = self.snapshot(); self.forget(before, mid); self.ctx.add("failed_rebalances", 0 if ok else 1)
        db.check_scan("failed rebalance", "rebalance-content")
        db.m.ok("ip clock %d" % (self.now + 10000)); self.now += 10000
        want = self.predict(mid, self.pending)
        db.sql("rebalance"); got = self.snapshot()
        if want is None: self.sane(mid, got)
        else: self.compare(got, want, mid, "rebalance after a failed one")
    def sane(self, before, got):
        """sizes were not predictable: limits hold and nothing outside of the pipeline moved"""
        names = [n for n, _ in self.pipeline]
        for m, p in before.items():
            if p["storage"] not in names and (m not in got or got[m]["storage"] != p["storage"]): raise Viol("outside", "partition %d of %s, not in the pipeline %s, was touched" % (m, p["storage"], names))
        self.forget(before, got); self.db.check_scan("rebalance", "rebalance-content")
        for n, t in self.pipeline:
            ps = [p for p in got.values() if p["storage"] == n]
            if any(p["min"] in self.pending for p in ps): continue
            bad = [k for k, v in (("partitions", len(ps)), ("events", sum(p["events"] for p in ps)), ("size", sum(p["size"] for p in ps))) if k in t and v > t[k]]
            if bad: raise Viol("limit", "after REBALANCE tier %s %s is over its limit of %s" % (n, t, bad))
        self.ctx.add("rebalances_by_limit_only")
    def service(self):
        """scheduled work runs rebalance as well"""
        db = self.db; before = self.snapshot()
        for _ in range(len(before) * 2 + 30): db.sql("service")
        self.pending = set()
        got = self.snapshot(); self.forget(before, got); db.check_scan("service", "rebalance-content")
        names = [n for n, _ in self.pipeline]
        for m, p in before.items():
            if p["storage"] not in names and (m not in got or got[m]["storage"] != p["storage"]): raise Viol("outside", "partition %d of %s, not in the pipeline %s, was touched" % (m, p["storage"], names))
            if m in got and p["storage"] in names and got[m]["storage"] in names and names.index(got[m]["storage"]) < names.index(p["storage"]): raise Viol("backward", "partition %d moved from %s to %s, pipeline %s" % (m, p["storage"], got[m]["storage"], names))
        lost = [m for m in before if m not in got]
        if lost and not any(t for _, t in self.pipeline): raise Viol("drop", "partitions %s dropped by a pipeline without limits" % lost[:4])
        self.ctx.add("services")

def sim(ctx, case):
    p = Pipe(ctx, case); db, r = p.db, p.r
    p.alter(); p.write(r.choice((5, 30, 60)))
    for _ in range(case["steps"]):
        op = pick(r, dict(write=6, rebalance=8, alter=2, refresh=3, refresh_all=1, move=2, service=2, reopen=1, clock=1, back=.6, cloud=1 if p.cloudy else 0, drop=.5))
        ctx.see("ops", op)
        if op == "write": p.write(r.choice((1, 5, 20)))
        elif op == "rebalance": p.rebalance()
        elif op == "alter":
            p.alter(); db.check_scan("alter pipeline", "rebalance-content")
        elif op == "service": p.service()
        elif op == "clock": p.clock(r.choice((1000000, 30000000, 4000000000)))
        elif op == "back": p.clock(-r.choice((500000, 30000000, 700000000))); ctx.add("clock_set_back")       # the wall clock may be corrected
        elif op == "cloud": db.op_cloud()
        elif op == "reopen":
            if not db.wal: db.op_refresh_all()
            b = p.snapshot(); p.pending = set()
            p.pre[:] = ["ip clock %d" % p.now]; db.note("reopen"); db.stop(); db.start(p.pre); g = p.snapshot()
            for m, x in g.items():
                if m in b and x["file"] and b[m]["file"] and x["created"] != b[m]["created"]: raise Viol("created", "creation time of partition %d changed from %d to %d by restart" % (m, b[m]["created"], x["created"]))
                if m in b and x["file"] and x["storage"] != b[m]["storage"]: raise Viol("storage", "partition %d is on %s after restart, was on %s" % (m, x["storage"], b[m]["storage"]))
            db.check_scan("reopen", "rebalance-content")
        elif op == "drop": db.op_drop()
        elif op == "move":
            q = db.some_part()
            if q:
                s = r.choice(p.names); db.sql("move partition %d into %s" % (q["min"], s))
                if s != q["storage"]: p.pending.discard(q["min"])
        elif op == "refresh":
            q = db.some_part()
            if q:
                db.sql("refresh partition %d" % q["min"])
                if q["events_heap"]: p.pending.discard(q["min"])
        elif op == "refresh_all":
            db.op_refresh_all(); p.pending = set()
    p.rebalance()
    db.stop(); db.m.close()
    ctx.sample = {"case": case, "sets": p.sets, "pipeline": p.pipeline}

def workers(ctx, case):
    """time order writes with background workers: once everything is done, every tier holds the newest partitions it may"""
    p = Pipe(ctx, case); db, r = p.db, p.r
    ns = r.sample(p.names, r.randint(1, len(p.names)))
    p.pipeline = [(n, {"partitions": r.choice((1, 2, 3, 6))}) for n in ns]
    db.sql("alter pipeline set " + ", ".join("%s (partitions %d)" % (n, t["partitions"]) for n, t in p.pipeline))
    order = []
    for _ in range(case["steps"]):
        lo = p.next_id
        for _ in range(r.choice((5, 30))):
            p.next_id += r.choice((1, 3, p.interval, p.interval * 2)); db.write([(0, p.next_id, p.g.key(), p.g.val())])
        if r.random() < .3: db.sql("checkpoint")
        if r.random() < .3: db.sql("rebalance")
    import time as tm
    t0 = tm.time(); last = None
    while True:
        db.sql("checkpoint"); tm.sleep(.02); db.sql("rebalance")
        ps = db.parts(); g = {q["min"]: q["storage"] for q in ps}
        n = sum(t["partitions"] for _, t in p.pipeline)
        inn = sorted(g, reverse=True); want = {}; k = 0
        for name, t in p.pipeline:
            for m in inn[k:k + t["partitions"]]: want[m] = name
            k += t["partitions"]
        if g == want and not any(q["events_heap"] for q in ps): break
        if tm.time() - t0 > 30: raise Viol("rebalance", "30 s after the last write pipeline %s holds %s, expected %s" % (p.pipeline, sorted(g.items())[-12:], sorted(want.items())[-12:]))
    lo = min(want) if want else 0
    # partitions leave only from the end of the pipeline, oldest first
    mins = sorted(want)
    for i, k in list(db.model):
        if i // p.interval * p.interval < lo: del db.model[(i, k)]
    db.live_cache = None
    db.check_scan("after background rebalance", "rebalance-content")
    db.stop(); db.start(); db.check_scan("reopen after background rebalance", "rebalance-content")
    ctx.add("background_runs"); ctx.add("background_partitions", len(want))
    db.stop(); db.m.close()

def fn(ctx, case):
    (workers if case["mode"] == "workers" else sim)(ctx, case)

LIM = [["partitions"], ["events"], ["size"], ["duration"], ["partitions", "events"], ["partitions", "duration"], ["partitions", "events", "size", "duration"]]
def cases():
    n = 500 if not THOROUGH else 2500
    out = [dict(seed=k, mode="sim", limits=LIM[k % len(LIM)], steps=14 if not THOROUGH else 30, variant="asan" if k % 10 == 9 else "plain") for k in range(n)]
    return out + [dict(seed=k, mode="workers", limits=["partitions"], steps=6) for k in range(24 if not THOROUGH else 300)]

if __name__ == "__main__":
    c = Check("C16", "exploration", variants=("plain", "asan"))
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), budget=800 if THOROUGH else 120)
    c.finish("one case = a program over a random pipeline with a wall clock set by the driver; every REBALANCE is predicted partition by partition from SHOW, the partition files and the model of the events",
             need=("rebalances", "predicted_drops", "predicted_moves", "skipped_pending", "failed_rebalances", "new_partitions", "clock_set_back", "background_runs"))
