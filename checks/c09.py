import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *
import c06

AUTO = U64

class Serial:
    """floor: the next automatic id must be above it"""
    def __init__(self, ctx, db, r): self.ctx, self.db, self.r, self.floor, self.n = ctx, db, r, -1, 0
    def val(self): self.n += 1; return "h%08x" % self.n
    def reopened(self): self.floor = max([i for i, _ in self.db.model], default=-1)
    def batch(self):
        r, out, top = self.r, [], max(0, self.floor)
        for _ in range(r.choice((1, 1, 1, 2, 5, 30))):
            x = r.random()
            if x < .7: out.append((0, AUTO, "" if r.random() < .8 else "%02x" % r.randrange(4), self.val()))
            elif x < .8: out.append((0, top + r.choice((0, 1, 2, 10, 100, 1000)), "", self.val()))
            elif x < .9: out.append((0, r.randrange(top + 1), r.choice(("", "01")), self.val()))
            elif self.db.live():
                i, k = r.choice(self.db.live()); out.append((1, i, k, "-"))
        return out or [(0, AUTO, "", self.val())]
    def observe(self, given, ids):
        for (f, i, k, v), got in zip(given, ids):
            if i == AUTO:
                if not self.floor < got < (1 << 62):
                    raise Viol("serial-backwards", "automatic id %d although id %d was in use before; batch %s; before %s" % (got, self.floor, given[:4], self.db.trail[-12:]))
                self.floor = got; self.ctx.add("auto_ids")
            else:
                if got != i: raise Viol("explicit-id", "explicit id %d became %d" % (i, got))
                if not f & 1: self.floor = max(self.floor, i)
                self.ctx.add("explicit_ids")
    def write(self):
        b = self.batch(); n = len(self.db.model)
        ok, evs = self.db.write(b)
        self.observe(b, [e[1] for e in evs])

def seq(ctx, case):
    r = rng_of(case)
    wal = case["seed"] % 5 != 4
    sets = ["interval to %d" % r.choice((1, 3, 10, 1000)), "mm_page_size to 65536", "wal to %s" % ("true" if wal else "false"), "wal_rotate_wm to %d" % r.choice((300, 1 << 20))]
    db = Db(ctx, r, sets=sets, serial=True).start()
    s = Serial(ctx, db, r)
    ctx.see("configs", "|".join(sets))
    if r.random() < .3: db.sql("create storage s2")
    drops = r.random() < .6         # (a drop followed by another interval and a restart: finding of C11)
    for step in range(case["steps"]):
        x = r.random()
        if x < .55: s.write()
        elif x < .6: db.op_refresh_all()
        elif x < .66: db.op_refresh()
        elif x < .69: db.op_fail_refresh()
        elif x < .72:
            lo = r.randrange(0, 2000); hi = lo + r.randrange(0, 100)
            db.trysql("create partition %d %d" % (lo, hi))
        elif x < .75: db.op_interval() if r.random() < .3 and not drops else db.op_move()
        elif x < .8 and drops:
            p = db.some_part()
            if p: db.sql("drop partition %d" % p["min"]); db.remove_range(p["min"], p["max"]); ctx.add("drops")
        elif x < .84: db.op_checkpoint()
        elif x < .86 and wal: db.op_rotate(); db.op_gc()
        elif x < .93:
            if not wal: db.op_refresh_all()
            db.reopen(fresh=r.random() < .3); s.reopened(); s.write()
        elif wal: db.kill(); db.start(); s.reopened(); ctx.add("kills"); s.write()
        if step % 8 == 0: db.check_scan("serial program", "overwritten")
    db.check_scan("serial program", "overwritten")
    # crashes in the middle of a write
    if wal:
        for _ in range(case["crashes"]):
            pend = None; arm(db, r.randrange(1, 12), r.randrange(5))
            try:
                for _ in range(8):
                    pend = [(0, AUTO if r.random() < .8 else max(0, s.floor) + r.randrange(1, 5), "", s.val()) for _ in range(r.choice((1, 2, 6)))]
                    _, evs = db.write(pend); s.observe(pend, [e[1] for e in evs]); pend = None
                    if r.random() < .2: c06.maint(db, r, dict(cloud=False, stor=0, wal=True))
            except Dead as e:
                if e.rc != CRASHED: raise
            db.kill(); db.start(); ctx.add("crashes")
            got = {(i, k): v for i, k, v in db.scan()}
            new = {x: v for x, v in got.items() if x not in db.model}
            old = {x: v for x, v in got.items() if x in db.model}
            if old != db.model: raise Viol("overwritten", "crash in a serial write changed events: %s" % diff([(i, k, v) for (i, k), v in sorted(old.items())], db.sorted()))
            if new and sorted(new.values()) != sorted(e[3] for e in pend or []) and len(new) == len(set((e[1], e[2]) for e in pend or [])):
                raise Viol("overwritten", "unexpected events after a crash: %s, in flight %s" % (list(new.items())[:4], pend))
            for (i, k) in new:
                if i <= max([i for i, _ in db.model], default=-1): raise Viol("serial-backwards", "recovered in-flight automatic id %d is not above the existing ones" % i)
            db.model = got; db.live_cache = None; s.reopened(); c06.unarm_errors(db); s.write()
    db.check_scan("end", "overwritten"); db.stop(); db.m.close()
    ctx.sample = {"sets": sets, "floor": s.floor, "last": db.trail[-6:]}

def threads(ctx, case):
    r = rng_of(case, "par")
    sets = ["interval to %d" % r.choice((5, 40, 1000)), "mm_page_size to 65536", "wal_rotate_wm to %d" % r.choice((500, 1 << 20))]
    db = Db(ctx, r, sets=sets, workers=r.choice((0, 2)), serial=True).start()
    db.sql("alter storage main set (refresh_wm %d)" % r.choice((500, 40 << 20)))
    floor = -1; vals = {}; n = 0
    for rnd in range(case["rounds"]):
        nt = r.randrange(2, 7); prog = []; given = {}
        for t in range(nt):
            for j in range(case["n"]):
                x = r.random()
                if x < .05: given[t, j] = None; prog.append("%d sql %s" % (t, r.choice(("show partitions", "refresh partitions between 0 and 100000", "service")))); continue
                evs = []
                for _ in range(1 if sets[0].endswith(" 5") else r.choice((1, 1, 2, 4))):
                    n += 1
                    explicit = r.random() < .08 and len(evs) == 0
                    evs.append((0, max(0, floor) + r.randrange(1, 60) if explicit else AUTO, "%02x" % t if explicit else "", "h%08x" % n))
                    if explicit: break
                given[t, j] = evs; prog.append("%d %s" % (t, fmt_events(evs)))
        inp, outp = os.path.join(ctx.dir, "in"), os.path.join(ctx.dir, "out")
        open(inp, "w").write("\n".join(prog) + "\n")
        db.m.ok("ip delay %d 150 %d" % (r.choice((0, 100, 300)), r.getrandbits(30)))
        ok, t = db.m.cmd("par %s %s 60" % (inp, outp))
        if not ok: raise Viol("stuck", t)
        db.m.ok("ip delay 0 0 1")
        hist = []; used = {}
        for l in open(outp):
            p = l.split(); k = (int(p[0]), int(p[1])); evs = given[k]
            rep = bytes.fromhex(p[5]).decode("latin1") if len(p) > 5 and p[5] != "-" else ""
            if p[4] != "1":
                if evs is None: continue
                raise Viol("write-error", rep)
            if evs is None: continue
            ids = [int(x) for x in rep.split()]
            last = -1
            for (f, i, kk, v), got in zip(evs, ids):
                if i == AUTO:
                    if got <= floor or got <= last: raise Viol("serial-backwards", "automatic id %d, floor %d, previous of the batch %d" % (got, floor, last))
                    if got in used: raise Viol("serial-twice", "automatic id %d handed out to %s and %s" % (got, used[got], k))
                    used[got] = k; ctx.add("auto_ids")
                    last = got
                vals[got, kk] = v
            au = [g for e, g in zip(evs, ids) if e[1] == AUTO]
            hist.append((int(p[2]), int(p[3]), min(au) if au else None, max(ids)))
        # real time order
        ends = sorted((h[1], h[3]) for h in hist); j = 0; top = floor
        for t0, t1, lo, hi in sorted(hist):
            while j < len(ends) and ends[j][0] < t0: top = max(top, ends[j][1]); j += 1
            if lo is not None and lo <= top: raise Viol("serial-backwards", "automatic id %d for a write that began after id %d was stored" % (lo, top))
            ctx.add("ordered_pairs")
        floor = max([floor] + [h[3] for h in hist])
        db.model = dict(vals); db.check_scan("threads", "overwritten")
        if r.random() < .5: db.reopen(); db.check_scan("reopen", "overwritten")
        else: db.kill(); db.start(); db.check_scan("kill", "overwritten")
        floor = max(i for i, _ in vals)
    ctx.add("thread_rounds", case["rounds"])
    db.stop(); db.m.close()

def fn(ctx, case): (threads if case.get("mode") == "par" else seq)(ctx, case)

def cases():
    q = not THOROUGH; out = []
    for k in range(300 if q else 3000):
        out.append(dict(seed=k, steps=(30, 60, 120)[k % 3], crashes=3))
        if k % 2: out.append(dict(seed=k, mode="par", rounds=4, n=60))
    return out

if __name__ == "__main__":
    c = Check("C09")
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), budget=800 if THOROUGH else 90)
    c.finish("one case = a history of automatic and explicit ids with refreshes, drops, reopens and crashes, or rounds of 2-6 writer threads; each returned id is "
             "compared with the ids in use before it", need=("auto_ids", "explicit_ids", "crashes", "kills", "drops", "ordered_pairs"))
