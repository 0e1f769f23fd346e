"""Random configurations and programs shared by the model-oracle checks."""
from model import *

def rng_of(case, salt=""):
    return random.Random("%s/%s/%s" % (SEED, case["seed"], salt))

def config(r, small=False):
    """random start-up settings and the matching generator limits"""
    interval = r.choice((1, 10, 100, 1000, 5000, 3000000))
    page = r.choice((65536, 131072, 1 << 20, 2 << 20))
    sets = ["interval to %d" % interval, "mm_page_size to %d" % page,
            "wal to %s" % r.choice(("true", "true", "false")),
            "wal_crc to %s" % r.choice(("true", "false")),
            "wal_rotate_wm to %d" % r.choice((2000, 50000, 1 << 20, 100 << 20)),
            "compression to '%s'" % r.choice(("zstd", "zstd", "lz4", ""))]
    if r.random() < .2: sets.append("mm_cache to %d" % r.choice((65536, 1 << 20)))
    return interval, page, sets

def make(ctx, case, variant="plain", wal=None, **gen):
    r = rng_of(case)
    interval, page, sets = config(r)
    if wal is not None: sets = [s for s in sets if not s.startswith("wal to")] + ["wal to " + wal]
    ids = case.get("ids") or r.choice(Gen.IDS)
    if ids in ("huge", "edge"):
        # every event may need its own partition and memory page
        sets = [s for s in sets if not s.startswith("mm_page_size")] + ["mm_page_size to 65536"]; page = 65536
    if ids in ("dense", "reverse", "shuffle", "wide", "mixed") and interval < 100 and case.get("n", 1000) > 300:
        interval = 100; sets[0] = "interval to 100"
    g = Gen(r, interval, ids=ids, keys=case.get("keys"), vals=case.get("vals"), maxval=min(60000, page - 2000), **gen)
    db = Db(ctx, r, variant, sets)
    db.wal = "wal to true" in sets
    ctx.see("configs", "|".join(sets))
    return r, db, g

def tune_main(r, db):
    """storage options of the main storage that shape the files"""
    o = []
    if r.random() < .8: o.append("region_size %d" % r.choice((100, 512, 4096, 20000, 131072)))
    if r.random() < .3: o.append("compression '%s'" % r.choice(("zstd", "lz4", "")))
    if r.random() < .3: o.append("compression_level %d" % r.choice((0, 1, 3, 9)))
    if r.random() < .4: o.append("refresh_wm %d" % r.choice((1, 20000, 200000)))
    if r.random() < .3: o.append("crc true")
    if o: db.sql("alter storage main set (%s)" % ", ".join(o))
    return o

OPS = dict(write=30, bulk=6, scan=3, seek=10, refresh=5, refresh_all=2, refresh_range=2, fail_refresh=2, checkpoint=1, service=3, rotate=2,
           gc=2, create=2, reopen=1.5, reopen_fresh=.7)

class Program:
    def __init__(self, ctx, r, db, g, ops=None, budget=3000):
        self.ctx, self.r, self.db, self.g = ctx, r, db, g
        self.ops = dict(OPS if ops is None else ops)
        self.budget = budget       # events
        self.used = 0
        self.rehit, self.delete = r.choice((.1, .3, .6)), r.choice((0, .1, .3))
    def batch(self, n):
        n = max(1, min(n, self.budget - self.used)); self.used += n
        return self.g.batch(n, self.db.live(), rehit=self.rehit, delete=self.delete)
    def step(self):
        db, r = self.db, self.r
        ops = self.ops
        if self.used >= self.budget: ops = {k: v for k, v in ops.items() if k not in ("write", "bulk")} or {"scan": 1}
        op = pick(r, ops)
        if not db.wal:
            if op in ("rotate", "gc"): op = "seek"
            if op.startswith("reopen"): db.op_refresh_all()     # memory only data is not kept without the log
        if op == "write":
            db.write(self.batch(r.choice((1, 1, 2, 5, 20))))
        elif op == "bulk":
            if r.random() < .5: db.write(self.batch(r.choice((100, 509, 600, 1100))))
            else: db.write_many([self.batch(1) for _ in range(r.choice((50, 300, 600)))])
        elif op == "scan": db.check_scan("scan")
        elif op == "seek": db.check_seeks(r.choice((3, 10)))
        else: getattr(db, "op_" + op)()
        self.ctx.add("op_" + op); self.ctx.add("ops")
        return op
    def run(self, steps, after=None):
        for _ in range(steps):
            op = self.step()
            if after: after(op)
