import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from program import *

class Walk:
    """online monitor of one cursor: order, no repeats, completeness and versions"""
    def __init__(self, ctx, db, slot, start=None):
        self.ctx, self.db, self.slot = ctx, db, slot
        self.start = start
        self.must = {x for x in db.model if start is None or x >= start}      # alive since the cursor was opened
        self.ver = {x: {v} for x, v in db.model.items()}                        # versions current at some time since then
        self.last = None
        self.seen = 0
        self.done = False
    def wrote(self, evs):
        for f, i, k, v in evs:
            if f & 1: self.must.discard((i, k))
            else: self.ver.setdefault((i, k), set()).add(v)
    def step(self):
        ok, t = self.db.m.cmd("cr %d" % self.slot)
        if not ok: raise Viol("cursor-error", "monotone_read failed: %s; %s" % (t, self.db.trail[-8:]))
        if t == "end":
            # also returned while the cursor stands on an event deleted meanwhile: moving on decides
            ok, t = self.db.m.cmd("cn %d" % self.slot)
            if not ok: raise Viol("cursor-error", "monotone_next failed: %s" % t)
            if t == "1": self.ctx.add("stood_on_deleted"); return
            self.finish(None); self.done = True; return
        i, k, v = parse_events(t)[0]
        x = (i, k)
        if self.start is not None and x < self.start: raise Viol("cursor-before-start", "returned %r, opened at %r" % (x, self.start))
        if self.last is not None and x <= self.last:
            raise Viol("cursor-order", "returned %r after %r; %s" % (x, self.last, self.db.trail[-8:]))
        if v not in self.ver.get(x, ()):
            raise Viol("cursor-version", "returned %r value %s, versions %r; %s" % (x, v[:60], list(self.ver.get(x, ()))[:4], self.db.trail[-8:]))
        self.finish(x)
        self.last = x; self.seen += 1
        self.must.discard(x)
        ok, t = self.db.m.cmd("cn %d" % self.slot)
        if not ok: raise Viol("cursor-error", "monotone_next failed: %s; %s" % (t, self.db.trail[-8:]))
        self.ctx.add("steps")
    def finish(self, upto):
        skipped = [y for y in self.must if upto is None or y < upto]
        if skipped:
            raise Viol("cursor-skipped", "%d events alive since the cursor was opened were not returned before %r, e.g. %r (last %r); %s" % (
                len(skipped), upto, min(skipped), self.last, self.db.trail[-10:]))

def near(r, db, g, w, n):
    """events close to the cursor position: where inserts and page splits matter"""
    evs = []
    for _ in range(n):
        x = r.random()
        if w.last is None or x < .25: evs.append(g.event(db.live(), rehit=.4, delete=.25)); continue
        i, k = w.last
        y = r.random()
        if y < .25: e = (i, k)
        elif y < .45: e = (i, (k + "00")[:510])
        elif y < .6: e = (max(0, i - r.randrange(3)), g.key())
        elif y < .9: e = (min(U64 - 1, i + r.randrange(0, 4)), g.key())
        else:
            nxt = sorted(z for z in w.must)[:3]
            e = r.choice(nxt) if nxt else (i, k)
        evs.append((1 if r.random() < .3 else 0, e[0], e[1], g.val()))
    return evs

def fn(ctx, case):
    r, db, g = make(ctx, case, limit=case.get("span"))
    db.start(); tune_main(r, db)
    p = Program(ctx, r, db, g, budget=case["n"])
    for rnd in range(case["rounds"]):
        # some contents, partly in files
        for _ in range(r.randrange(1, 4)):
            n = r.choice((5, 60, 300, 700))
            if p.used < p.budget:
                if r.random() < .5: db.write(p.batch(n))
                else: db.write_many([p.batch(2) for _ in range(n // 2)])
            if r.random() < .5: getattr(db, "op_" + r.choice(("refresh", "refresh_all", "refresh_range", "fail_refresh")))()
        layout(db, ctx)
        ws = []
        for slot in range(r.choice((1, 1, 2, 3))):
            st = None
            if r.random() < .4 and db.model: st = r.choice(db.live())
            db.m.ok("co %d %s" % (slot, "*" if st is None else "%d %s" % (st[0], kx(st[1]))))
            ws.append(Walk(ctx, db, slot, st))
        burst = r.choice((1, 1, 3, 30))
        for _ in range(case["acts"]):
            live = [w for w in ws if not w.done]
            if not live: break
            if r.random() < .5:
                w = r.choice(live)
                evs = near(r, db, g, w, r.choice((1, 1, 2, burst)))
                if r.random() < .08:
                    # a batch that fails: the cursor must survive the rollback
                    db.m.cmd(fmt_events(evs + [(0, 1, "aa" * 300, "-")])); ctx.add("failed_writes")
                    db.note("failed write near %r" % (w.last,))
                else:
                    for q in ws: q.wrote(evs)
                    db.write(evs); ctx.add("writes_under_cursor")
            for w in live:
                for _ in range(r.choice((0, 1, 1, 5))):
                    if not w.done: w.step()
        for w in ws:
            while not w.done: w.step()
            db.m.ok("cc %d" % w.slot); ctx.add("cursors")
            ctx.see("walk_lengths", w.seen)
        db.check_scan("after the cursors are closed")
    ctx.sample = {"ids": g.ids, "keys": g.keys, "sets": db.sets, "trail": db.trail[-6:]}
    db.stop(); db.m.close()

def cases():
    out = []; k = 0
    for rep in range(200 if THOROUGH else 30):
        for ids in ("dense", "reverse", "shuffle", "cluster", "border", "mixed", "wide", "edge"):
            out.append(dict(seed=k, ids=ids, n=120 if ids == "edge" else 3000, rounds=4, acts=200, span=(None, 700, 60, 3000)[rep % 4],
                            keys=Gen.KEYS[(k + rep) % 5], vals="small" if rep % 2 else None)); k += 1
    return out

if __name__ == "__main__":
    c = Check("C03")
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), budget=700 if THOROUGH else 80)
    c.finish("one case = several cursors walked while the same thread writes around their positions; an online monitor checks order, "
             "versions and completeness", need=("steps", "writes_under_cursor", "failed_writes", "layouts"))
