import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import time as tm
from crash import *

class World:
    def __init__(self, ctx, case):
        self.ctx, self.case = ctx, case
        r = self.r = rng_of(case, "c29")
        self.step = r.choice((10, 100))
        self.rot = r.choice((400, 3000, 1 << 20))
        wal = r.random() < .85
        w = case["workers"]
        sets = ["interval to %d" % self.step, "mm_page_size to 65536", "wal to %s" % ("true" if wal else "false"), "wal_rotate_wm to %d" % self.rot]
        db = self.db = Db(ctx, r, case.get("variant", "plain"), sets, workers=w[0], workers_upload=w[1]); db.start()
        if r.random() < .5:
            db.sql("create cloud c (type 'mock')"); self.cloud = True
        else: self.cloud = False
        self.wm, self.cl = {}, {}
        def opt(): return r.choice((0, 1, 65536, 65536, 140000, 1 << 20))
        self.wm["main"] = opt(); db.sql("alter storage main set (refresh_wm %d, region_size %d)" % (self.wm["main"], r.choice((200, 131072))))
        for n in ["s%d" % k for k in range(r.choice((0, 1, 2)))]:
            self.wm[n] = opt(); o = ["refresh_wm %d" % self.wm[n]]
            if self.cloud and r.random() < .7: self.cl[n] = r.random() < .5; o.append("cloud 'c', cloud_drop_local %s" % ("true" if self.cl[n] else "false"))
            db.sql("create storage %s (%s)" % (n, ", ".join(o)))
        self.tiers = []
        if r.random() < .5:                 # the first tier may be any storage
            ns = list(self.wm); r.shuffle(ns)
            if len(ns) > 1 and r.random() < .5: self.tiers = [(ns[0], r.choice((0, 1, 2, 3)))]; db.sql("alter pipeline set %s (partitions %d), %s" % (ns[0], self.tiers[0][1], ns[1]))
            else: db.sql("alter pipeline set %s" % ns[0])
        self.g = Gen(r, self.step, ids="shuffle", limit=r.choice((60, 300)), vals=r.choice(("small", "mixed")), keys=r.choice(("none", "short")), maxval=r.choice((6000, 30000)))
        self.due, self.unsure, self.queued, self.upload = set(), set(), set(), set()
        self.pieces = r.random() < .3
        self.wrote = self.made = self.any = False
        ctx.see("storages", "%d cloud %d tiers %d" % (len(self.wm), len(self.cl), len(self.tiers)))
        ctx.see("watermarks", tuple(sorted(self.wm.values())))
    # ---- which work is due
    def write(self, evs):
        db = self.db
        before = db.parts(); rng = {(p["min"], p["max"]) for p in before}
        ok = db.write(evs)
        after = db.parts()
        new = {(p["min"], p["max"]) for p in after} - rng
        def heads(order):
            cur, out = set(rng), set()
            for i in order:
                if any(a <= i <= b for a, b in cur): continue
                lo = i - i % self.step; head = max(cur) if cur else None
                if head and head[0] < lo: out.add(head[0])
                cur |= {x for x in new if lo <= x[0] <= lo + self.step - 1}
            return out
        h = heads([e[1] for e in evs]); self.due |= h; self.ctx.add("due_as_previous_head", len(h))
        self.queued |= heads(sorted(e[1] for e in evs))     # (the partitions of one batch may be created in another order)
        if new: self.made = True; self.ctx.add("due_rebalance", len(self.tiers))
        for p in after:
            if not any(p["min"] <= e[1] <= p["max"] for e in evs): continue
            wm = self.wm[p["storage"]]
            if wm and p["size_heap"] > wm:
                if p["min"] in self.unsure: self.queued.add(p["min"])
                else: self.due.add(p["min"]); self.ctx.add("due_by_size")
        self.wrote = True
    def checkpoint(self):
        for p in self.db.parts():
            if p["size_heap"]: self.due.add(p["min"]); self.unsure.discard(p["min"]); self.ctx.add("due_by_checkpoint")
        self.db.sql("checkpoint")
    def must(self, p, why):
        """work on p is complete"""
        if p["events_heap"] or p["size_heap"]: raise Viol("not-refreshed", "%s: partition %d still has %d events (%d bytes) in memory; %s; before %s" % (why, p["min"], p["events_heap"], p["size_heap"], p, self.db.trail[-12:]))
        if not (p["on_storage"] or p["on_cloud"]): raise Viol("not-refreshed", "%s: partition has no file: %s; before %s" % (why, p, self.db.trail[-12:]))
        self.placed(p, why)
    def placed(self, p, why):
        if p["storage"] in self.cl:
            if not p["on_cloud"]: raise Viol("not-uploaded", "%s: %s; before %s" % (why, p, self.db.trail[-12:]))
            if p["on_storage"] == self.cl[p["storage"]]: raise Viol("local-copy", "%s: cloud_drop_local %s: %s" % (why, self.cl[p["storage"]], p))
            self.ctx.add("uploaded")
    def logs(self):
        d = os.path.join(self.db.path, "wal")
        return sorted(os.listdir(d)) if os.path.isdir(d) else []
    def service(self, n, trybad=False):
        for ok, t in self.db.m.batch(["sql service"] * n):
            if not ok and not trybad: raise Viol("service-error", t)
    def tiers_ok(self, why):
        if not self.tiers: return
        n, lim = self.tiers[0]
        c = sum(p["storage"] == n for p in self.db.parts())
        if c > lim: raise Viol("not-rebalanced", "%s: %d partitions on %s, limit %d; before %s" % (why, c, n, lim, self.db.trail[-12:]))
        self.ctx.add("rebalanced")
    def drain(self, why):
        db = self.db; self.note("drain")
        before = {p["min"]: p for p in db.parts()}
        logs = self.logs()
        self.service(30 + 3 * len(before))
        after = {p["min"]: p for p in db.parts()}
        for m, p in after.items():
            if m in self.due: self.must(p, why); self.ctx.add("refreshed_in_background")
            elif m in self.upload and (p["on_storage"] or p["on_cloud"]): self.placed(p, why)
            elif m in self.queued or m in self.unsure or self.tiers or self.any: pass
            elif p != before.get(m): raise Viol("unasked", "%s: nothing was due for partition %d: before %s after %s; before %s" % (why, m, before.get(m), p, db.trail[-12:]))
            else: self.ctx.add("left_alone")
        if db.wal and not self.tiers and not self.cl and not any(p["size_heap"] for p in after.values()):
            now = self.logs(); ref = any(m in self.due for m in after); rot = now and logs and now[-1] != logs[-1]
            if (ref or rot) and len(now) > 1: raise Viol("logs-kept", "%s: everything is refreshed (%s), the log was %d files and is %s; before %s" % (why, "in the background" if ref else "and the log was rotated", len(logs), now[:6], db.trail[-12:]))
            if ref or rot: self.ctx.add("logs_removed_after_" + ("refresh" if ref else "rotation"), len(logs))
        if self.wrote:
            # (a tier whose oldest partition waits for its refresh is left beyond its limits until then)
            if not (self.due or self.queued or self.unsure): self.made and self.tiers_ok(why)
            elif self.tiers and self.r.random() < .5:
                used = [(p["min"], p["max"]) for p in after.values()]; a = self.r.randrange(1 << 20) * 200 + (1 << 50)
                if not any(x <= a + 20 and a <= y for x, y in used):
                    db.sql("create partition %d %d" % (a, a + 20)); self.service(10)
                    self.tiers_ok(why + "; and a partition created"); after = {p["min"]: p for p in db.parts()}
            if db.wal:
                f = self.logs(); s = os.path.getsize(os.path.join(db.path, "wal", f[-1]))
                if s > self.rot: raise Viol("not-rotated", "%s: newest log file has %d bytes, wal_rotate_wm %d" % (why, s, self.rot))
                self.ctx.add("log_files", len(f))
        self.unsure -= self.due; self.due.clear(); self.queued.clear(); self.upload.clear(); self.wrote = self.made = self.any = False
        s0 = db.files(); self.service(5)
        s = db.files()
        if {k: v for k, v in s.items() if k != "log"} != {k: v for k, v in s0.items() if k != "log"}: raise Viol("idle", "SERVICE with nothing to do changed files: %s -> %s" % (s0, s))
        p = {q["min"]: q for q in db.parts()}
        if p != after: raise Viol("idle", "SERVICE with nothing to do changed %s to %s" % (after, p))
        self.ctx.add("drains")
    def note(self, s): self.db.note(s)
    def faulty(self):
        """work that fails: later triggers do it"""
        db, r = self.db, self.r
        db.m.ok("ip root " + db.path); db.m.ok("ip reset")
        db.m.ok("ip fail %d %d %d %d 0" % (r.choice((1, 1, 2, 3, 5, 9)), r.choice((5, 28)), MUTATE, r.random() < .4))
        self.note("drain with a fault")
        self.service(30, True)
        fired = db.m.ok("ip fired"); db.m.ok("ip off")
        self.ctx.add("failed_work", 1 if fired.strip() != "0" else 0)
        self.unsure |= self.due | self.queued | {p["min"] for p in db.parts()}
        self.due.clear(); self.queued.clear(); self.upload.clear(); self.wrote = self.made = False
        if r.random() < .4:                 # passes the watermark by itself
            ps = [p for p in db.parts() if self.wm[p["storage"]] and self.wm[p["storage"]] == 1]
            if ps:
                p = r.choice(ps); i = r.randint(p["min"], p["max"])
                self.write([(0, i, "", "g%d:%d:1" % (r.getrandbits(20), 100))])
                self.due.add(p["min"]); self.ctx.add("due_after_failure")
                self.wrote = self.made = False; self.drain("after failed work"); return
        self.checkpoint(); self.drain("CHECKPOINT after failed work"); self.ctx.add("checkpoint_after_failure")
    def ready(self):
        for p in self.db.parts():
            if self.cl.get(p["storage"]) is None: continue
            self.upload.add(p["min"])
            if p["on_storage"] and not p["on_cloud"]: self.ctx.add("uploads_missing_at_open")

def seq(ctx, case):
    w = World(ctx, case); db, r = w.db, w.r
    for step in range(case["steps"]):
        op = pick(r, dict(write=20, drain=6, checkpoint=2, refresh=2, move=2 if len(w.wm) > 1 and not w.tiers else 0, drop=2, reopen=2, fault=2 if case["faults"] else 0, create=1, failref=1, failup=2 if w.cl else 0))
        ctx.see("ops", op)
        if op == "write": w.write(w.g.batch(r.choice((1, 1, 3, 10)), db.live(), rehit=.4, delete=.15))
        elif op == "drain": w.drain("step %d" % step)
        elif op == "checkpoint": w.checkpoint(); w.drain("checkpoint, step %d" % step)
        elif op in ("refresh", "move"):
            p = db.some_part()
            if p:
                db.sql("refresh partition %d" % p["min"] if op == "refresh" else "move partition %d into %s" % (p["min"], r.choice(list(w.wm))))
                w.queued.add(p["min"])
                q = [q for q in db.parts() if q["min"] == p["min"]]
                if not q or not q[0]["size_heap"]: w.due.discard(p["min"]); w.unsure.discard(p["min"])
        elif op == "failref":               # with nothing or something in memory
            p = db.some_part()
            if p and not (p["storage"] in w.cl):
                n = r.choice((1, 2)); db.sql("set error_refresh_%d to true" % n); db.trysql("refresh partition %d" % p["min"]); db.sql("set error_refresh_%d to false" % n)
                w.unsure.add(p["min"]); w.queued.add(p["min"]); w.due.discard(p["min"]); ctx.add("failed_refreshes")
        elif op == "failup":                # the upload is missing until the next open
            ps = [p for p in db.parts() if p["storage"] in w.cl]
            if ps:
                p = r.choice(ps); db.sql("set error_upload to true"); ok = db.trysql("refresh partition %d" % p["min"]); db.sql("set error_upload to false")
                w.queued.add(p["min"]); w.due.discard(p["min"]); w.unsure.add(p["min"]); ctx.add("failed_uploads")
                if p["on_cloud"] or not p["on_storage"]: w.upload.discard(p["min"])     # (nothing was missing at the open)
        elif op == "create":
            a = r.randrange(1000) * 7 + 4000; db.trysql("create partition %d %d" % (a, a + 20)); w.ready_after_create = True
            w.queued |= {p["min"] for p in db.parts()}
        elif op == "drop":
            p = db.some_part()
            if p: db.sql("drop partition %d" % p["min"]); db.remove_range(p["min"], p["max"]); w.due.discard(p["min"]); w.queued.add(p["min"]); w.unsure.discard(p["min"])      # (its request remains)
        elif op == "reopen":
            if not db.wal: w.checkpoint(); w.drain("before reopen")
            if r.random() < .5: db.reopen()
            else: db.kill(); db.start(); ctx.add("kills")
            w.due.clear(); w.queued = {p["min"] for p in db.parts()}; w.unsure.clear(); w.upload.clear(); w.any = True; w.wrote = w.made = False
            for p in db.parts():
                wm = w.wm[p["storage"]]
                if wm and p["size_heap"] > wm: w.due.add(p["min"]); ctx.add("due_by_recovery")
            w.ready()
            if r.random() < .7: w.drain("after reopen")
        elif op == "fault":
            if w.due: w.faulty()
    db.check_scan("work left undone", "contents")
    if r.random() < .5 and db.wal: db.reopen(); db.check_scan("closed with work left undone", "contents"); w.unsure = set()
    w.wrote = False; w.due.clear(); w.queued = {p["min"] for p in db.parts()}
    w.checkpoint(); w.drain("end"); db.check_scan("all done", "contents"); db.check_seeks(5)
    db.stop(); db.m.close()
    ctx.sample = {"watermarks": w.wm, "clouds": list(w.cl), "steps": case["steps"]}

def until(cond, secs, key, what):
    end = tm.time() + secs
    while True:
        x = cond()
        if not x: return
        if tm.time() > end: raise Viol(key, what + ": %s" % (x,))
        tm.sleep(.01)

def par(ctx, case):
    w = World(ctx, case); db, r = w.db, w.r
    seen = {}
    for rnd in range(case["steps"]):
        for _ in range(r.choice((1, 5, 20))): db.write(w.g.batch(r.choice((1, 3, 10)), db.live(), rehit=.4, delete=.15))
        if case["faults"] and r.random() < .4:
            db.m.ok("ip root " + db.path); db.m.ok("ip reset"); db.m.ok("ip fail %d 5 %d %d 0" % (r.choice((1, 2, 5, 9)), RENAME_ETC, r.random() < .5))
            for e in range(4): db.write(w.g.batch(3, db.live()), expect=False) if 0 else db.sql("checkpoint")
            tm.sleep(.03); db.m.ok("ip off"); ctx.add("failed_rounds")
        # a partition may have grown while it was being refreshed: the next write to it finds that
        if r.random() < .5:
            tm.sleep(.02)
            def touch():
                t = {}
                for (i, k) in db.live(): t.setdefault(i - i % w.step, (i, k))
                for (i, k) in list(t.values()): db.write([(0, i, k, "h00")])
                for p in db.parts():            # only deletions in it
                    if not any(p["min"] <= i <= p["max"] for i, _ in t.values()): db.write([(1, p["min"], "", "-")])
            touch(); marks = [tm.time() + 3, tm.time() + 8]
            def big(): return [p for p in db.parts() if w.wm[p["storage"]] and p["size_heap"] > w.wm[p["storage"]]]
            def grown():
                # the writes above may themselves have come during a refresh, when the machine is slow
                if marks and tm.time() > marks[0]: marks.pop(0); touch(); ctx.add("touched_again")
                x = big()
                return x
            if not case["faults"]: until(grown, 20, "not-refreshed", "beyond the watermark after 20 s of quiet"); ctx.add("quiet")
        if r.random() < .6:
            again = [0]
            def heap():
                if again[0] % 20 == 0: db.sql("checkpoint")
                again[0] += 1
                return [p for p in db.parts() if p["size_heap"]]
            until(heap, 20, "not-refreshed", "in memory 20 s after CHECKPOINT"); ctx.add("checkpoints_done")
            def cloud(): return [p for p in db.parts() if p["storage"] in w.cl and (p["on_storage"] or p["on_cloud"]) and not (p["on_cloud"] and p["on_storage"] != w.cl[p["storage"]])]
            if not case["faults"]: until(cloud, 20, "not-uploaded", "not in its cloud place 20 s after CHECKPOINT"); ctx.add("placed_by_workers")
            if w.tiers and not case["faults"]:
                z = [0]
                def over():                 # (a tier whose oldest partition waited for its refresh stays beyond the limits until another partition is made)
                    if z[0] % 50 == 0: w.far = getattr(w, "far", 1 << 50) + 200; db.sql("create partition %d %d" % (w.far, w.far + 20))
                    z[0] += 1
                    return [p["min"] for p in db.parts() if p["storage"] == w.tiers[0][0]][w.tiers[0][1]:]
                until(over, 20, "not-rebalanced", "more than %d partitions on %s after 20 s" % (w.tiers[0][1], w.tiers[0][0]))
                ctx.add("rebalanced_by_workers")
            if db.wal and not case["faults"]:
                def newest():
                    f = w.logs()
                    try: s = os.path.getsize(os.path.join(db.path, "wal", f[-1]))
                    except OSError: s = 1 << 60
                    return s if s > w.rot else 0
                until(newest, 20, "not-rotated", "newest log beyond %d bytes after 20 s" % w.rot); ctx.add("rotated_by_workers")
            db.check_scan("quiet", "contents")
        if r.random() < .2:
            if not db.wal:
                def heap2():
                    db.sql("checkpoint"); return [p for p in db.parts() if p["size_heap"]]
                until(heap2, 20, "not-refreshed", "in memory 20 s after CHECKPOINT")
            t = tm.time(); db.reopen(); ctx.add("closed_while_busy")
            db.check_scan("reopened", "contents")
    if not db.wal: db.op_refresh_all()
    db.stop(); db.m.close()
    ctx.sample = {"workers": case["workers"], "watermarks": w.wm}

RENAME_ETC = IP["OPENW"] | IP["RENAME"] | IP["UNLINK"]

def fn(ctx, case): (par if case["kind"] == "par" else seq)(ctx, case)

def cases():
    n = 1040 if not THOROUGH else 12000
    out = []
    for k in range(n):
        v = "asan" if k % 26 == 3 else "plain"
        if k % 4 == 0: out.append(dict(seed=k, kind="par", workers=((1, 0), (3, 0), (1, 1), (2, 2))[k // 4 % 4], steps=8 if not THOROUGH else 20, faults=k % 12 == 8, variant="tsan" if k % 52 == 40 else v))
        else: out.append(dict(seed=k, kind="seq", workers=(0, 0), steps=50 if not THOROUGH else 120, faults=k % 2 == 1, variant=v))
    return out

if __name__ == "__main__":
    c = Check("C29", "exploration", variants=("plain", "asan", "tsan"))
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), budget=800 if THOROUGH else 120)
    c.finish("one case = a history of writes and commands from which the due background work is derived; after SERVICE calls (or quiet time with workers) the partitions, "
             "their cloud placement, the tiers and the log files are compared with it", need=("drains", "due_by_size", "due_by_checkpoint", "due_as_previous_head", "refreshed_in_background", "uploaded", "left_alone", "checkpoint_after_failure"))
