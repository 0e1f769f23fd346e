import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *
from conc import Conc

ALL_PARTS = "refresh partitions between 0 and 18446744073709551615"
LIMIT = "memory limit"

class Mem:
    """watches SHOW MEMORY"""
    def __init__(self, db, ps, wm, cache, error):
        self.db, self.ps, self.wm, self.cache, self.error = db, ps, wm, cache, error
        self.over = 0        # pages that recovery took beyond the limit
        self.hits = 0
    def check(self, why, m=None, idle=True):
        db = self.db
        m = m or db.js("show memory")
        if (m["page_size"], m["limit"], m["limit_wm"], m["limit_behaviour"], m["cache"]) != (self.ps, True, self.wm, "error" if self.error else "block", self.cache):
            raise Viol("settings", "%s: %s" % (why, m))
        if m["pages"] != m["pages_used"] + m["pages_free"] or min(m["pages"], m["pages_used"], m["pages_free"]) < 0: raise Viol("page-count", "%s: %s" % (why, m))
        # the last page was handed out while memory in use was below the watermark
        if m["pages"] > self.over and (m["pages"] - 1) * (self.ps - 16) > self.wm: raise Viol("beyond-limit", "%s: %s; limit %d = %.2f pages" % (why, m, self.wm, self.wm / self.ps))
        if m["pages"] < self.over: self.over = m["pages"]
        if m["limit_hits"] < self.hits: raise Viol("hits", "%s: %s, %d before" % (why, m, self.hits))
        self.hits = m["limit_hits"]
        if m["pages"] * (self.ps - 16) >= self.wm: db.ctx.add("seen_at_limit")
        if idle:
            heap = sum(p["size_heap"] for p in db.parts())
            if heap != m["pages_used"] * self.ps: raise Viol("page-leak", "%s: %s, the partitions hold %d = %.2f pages" % (why, m, heap, heap / self.ps))
        db.ctx.add("memory_checks")
        return m
    def flushed(self, why):
        """everything is refreshed: nothing is in use"""
        db = self.db
        for p in db.parts():
            if p["events_heap"]: return
        m = self.check(why)
        if m["pages_used"]: raise Viol("baseline", "%s: everything is refreshed, %s" % (why, m))
        if m["pages_free"] and self.cache == 0: raise Viol("baseline", "%s: no page may be cached, %s" % (why, m))
        self.over = max(self.over if m["pages"] else 0, 0) and m["pages"]
        db.ctx.add("baseline")

def need(evs, interval, ps):
    """upper bound of the pages a batch takes when all memtables are empty"""
    by = {}
    for f, i, k, v in evs: by.setdefault(i // interval, []).append(96 + len(k) // 2 + vlen(v))
    n = 0
    for l in by.values():
        l = [8400] * (1 + len(l) // 200) + l      # nodes of the memtable
        page = 0; n += 1
        for x in l:
            if page + x > ps - 64: n += 1; page = 0
            page += x
        if n > 1: n += len(l) * 64 // ps + 1
    return n

def vlen(v):
    if v == "-": return 0
    return (len(v) - 1) // 2 if v[0] == "h" else int(v.split(":")[1])

def make(ctx, case):
    r = rng_of(case)
    ps = r.choice((32768, 40960, 65536)); k = r.choice((3, 4, 5, 8, 12))
    wm = r.choice((k * ps, k * ps - ps // 2, k * (ps - 16), k * (ps - 16) + 1))
    cache = r.choice((0, ps, wm, 1 << 33))
    err = case["mode"] == "error"
    interval = r.choice((10, 100, 1000))
    sets = ["interval to %d" % interval, "mm_page_size to %d" % ps, "mm_limit to true", "mm_limit_wm to %d" % wm,
            "mm_limit_behaviour to '%s'" % ("error" if err else "block"), "mm_cache to %d" % cache, "wal to %s" % ("true" if case["wal"] else "false")]
    db = Db(ctx, r, case["variant"], sets=sets, workers=case.get("workers", 0), serial=case.get("serial", False)); db.start()
    db.sql("alter storage main set (refresh_wm %d)" % r.choice((1, ps, 1 << 30)))
    if case["seed"] % 3 == 0: db.sql("create storage s2")
    if case["seed"] % 5 == 0: db.sql("set wal_rotate_wm to 20000")
    ctx.see("configs", "%d %d %d %d %d" % (ps, wm, cache, err, interval))
    return r, db, Mem(db, ps, wm, cache, err), interval, k, ps

def value(g, r, ps):
    x = r.random()
    return g.val() if x < .3 else "g%d:%d:%d" % (r.getrandbits(30), r.choice((300, 3000, ps // 4, ps // 2, ps - 600)), r.randrange(3))

def refusal(db, mem, evs, t, why, fault):
    """a failed write: must be right about the limit, and must not have changed anything"""
    if fault and "annot allocate" in t: db.ctx.add("mmap_failures")
    elif LIMIT in t:
        m = mem.check(why + " refused")
        if m["pages_free"] or m["pages"] * (mem.ps - 16) < mem.wm: raise Viol("early-refusal", "%s: %s: %s" % (why, t, m))
        if m["limit_hits"] == 0: raise Viol("hits", "%s refused: %s" % (why, m))
        db.ctx.add("refused")
    else: raise Viol("write-error", "%s: %s" % (why, t))
    db.check_scan(why + " failed", "failed-write-visible")

def seq(ctx, case):
    """error mode, one thread"""
    r, db, mem, interval, k, ps = make(ctx, case)
    g = Gen(r, interval, ids="shuffle", limit=r.choice((40, 400)), keys=r.choice(("none", "short")), vals="small")
    for n in range(case["steps"]):
        op = pick(r, dict(write=60, refresh=5, all=4, gc=2, move=2, drop=3, reopen=4, kill=3, failref=2, mmap=4, create=1, checkpoint=1, service=2))
        why = "step %d" % n
        if op in ("write", "mmap"):
            evs = [(f, i, kk, "-" if f & 1 else value(g, r, ps)) for f, i, kk, v in g.batch(r.choice((1, 1, 2, 5, 20)), db.live(), rehit=.3, delete=.1)]
            fault = op == "mmap"
            if fault: db.m.ok("ip root " + db.path); db.m.ok("ip fail %d 12 2048 0 0" % r.choice((1, 1, 2)))
            ok, t = db.write(evs, expect=False)
            if fault: db.m.ok("ip off")
            if not ok:
                refusal(db, mem, evs, t, why, fault)
                x = r.random()
                if x < .7:
                    db.op_refresh_all(); mem.flushed(why)
                    n0 = need(evs, interval, ps)
                    ok, t = db.write(evs, expect=False)
                    if not ok:
                        refusal(db, mem, evs, t, why + " again", False)
                        if n0 * (ps - 16) <= mem.wm: raise Viol("not-recovered", "%s: everything is refreshed, a write of at most %d pages: %s (%s)" % (why, n0, t, db.js("show memory")))
                        ctx.add("too_big")
                    else: ctx.add("accepted_after_refresh")
        elif op == "refresh": db.op_refresh()
        elif op == "all": db.op_refresh_all(); mem.flushed(why)
        elif op == "gc":
            db.sql("debug 'memory_gc'"); m = mem.check(why)
            if m["pages_free"]: raise Viol("page-count", "%s: DEBUG MEMORY_GC left %s" % (why, m))
        elif op == "move": db.op_move()
        elif op == "drop": db.op_drop()
        elif op == "failref": db.op_fail_refresh()
        elif op == "create": db.op_create()
        elif op == "checkpoint": db.op_checkpoint()
        elif op == "service": db.op_service()
        else:
            if op == "kill" and not case["wal"]: continue
            if not case["wal"]: db.op_refresh_all()
            if op == "kill": db.kill(); db.start()
            else: db.reopen()
            mem.hits = 0; mem.over = db.js("show memory")["pages"]
            if mem.over * (ps - 16) > mem.wm + ps: ctx.add("recovered_beyond")
            db.check_scan(why + " reopened", "lost-by-reopen"); ctx.add("reopened")
        mem.check("%s %s" % (why, op))
        if r.random() < .1: db.check_scan(why, "scan")
    db.check_scan("end", "scan"); db.op_refresh_all(); mem.flushed("end"); db.check_scan("end", "scan")
    db.stop(); db.m.close()
    ctx.sample = {"limit": mem.wm, "page": ps}

def conc(ctx, case):
    """several threads, error or block mode"""
    r, db, mem, interval, k, ps = make(ctx, case)
    nth = r.choice((2, 3, 4)); lines = []; plan = []
    first = r.random() < .5 and not case["workers"] and mem.error is False    # nothing frees memory for a while
    span = r.choice((1, 2, 6)) * interval
    for t in range(nth):
        for n in range(case["ops"]):
            if first and n >= case["ops"] // 3: break
            evs = []
            for _ in range(r.choice((1, 1, 2, 3))):
                evs.append((0, r.randrange(span), "%02x%02x" % (t, r.randrange(30)), "g%d:%d:%d" % (r.getrandbits(30), r.choice((100, 3000, ps // 3, ps - 600)), r.randrange(3))))
            while need(evs, interval, ps) * (ps - 16) > mem.wm:
                if len(evs) > 1: evs.pop()
                else: evs = [evs[0][:3] + ("g%d:100:0" % n,)]
            if r.random() < .08: evs[0] = (1, evs[0][1], evs[0][2], "-")
            lines.append("%d %s" % (t, fmt_events(evs))); plan.append((t, sum(1 for p in plan if p[0] == t), evs))
    a = nth
    if first:
        lines.append("%d sleep %d" % (a, 150000))
        for x in ("scan -1", "sql show partitions", "sql set wal_rotate_wm to 30000", "sql create storage while_blocked", "scan 5 0 *", "sql show memory"): lines.append("%d %s" % (a, x))
        for _ in range(60): lines.append("%d sql %s" % (a, ALL_PARTS)); lines.append("%d sleep 500" % a)
        lines.append("%d loop 2000 sql %s" % (a, ALL_PARTS))
    else:
        lines.append("%d loop %d sql %s" % (a, r.choice((300, 2000, 8000)), "checkpoint" if case["workers"] else ALL_PARTS))
    lines.append("%d loop %d sql show memory" % (a + 1, r.choice((200, 1000))))
    if r.random() < .4: lines.append("%d loop 3000 scan 20" % (a + 2))
    inf, outf = os.path.join(ctx.dir, "in"), os.path.join(ctx.dir, "out")
    open(inf, "w").write("\n".join(lines) + "\n")
    if r.random() < .5: db.m.ok("ip root " + db.path); db.m.ok("ip delay 100 300 %d" % r.getrandbits(30))
    try: ok, t = db.m.cmd("par %s %s 20" % (inf, outf))
    except Dead as e: raise Viol("died", "threads: %s %s" % (e, e.err[-1500:]))
    if not ok:
        if "STUCK" in t: raise Viol("blocked-forever", t)
        raise Viol("par", t)
    db.m.ok("ip off")
    res = {}; reps = {}
    for l in open(outf):
        f = l.split(" ", 5)
        reps[int(f[0]), int(f[1])] = (int(f[2]), int(f[3]), f[4] == "1", bytes.fromhex(f[5].strip()).decode("latin-1") if f[5].strip() != "-" else "")
    refr = [v for (t, i), v in reps.items() if t == a]
    bad = [x for (t, i), v in reps.items() if t >= a for x in [v[3]] if not v[2]]
    if bad: raise Viol("command-error", "under memory pressure: %s" % bad[0][:300])
    start = min([v[0] for (t, i), v in reps.items() if t == a and i >= 7] or [0]) if first else 0
    early = 0; blocked = 0
    for t, i, evs in plan:
        t0, t1, good, text = reps[t, i]
        if not good:
            if LIMIT not in text: raise Viol("write-error", "thread %d write %d: %s" % (t, i, text))
            if not mem.error: raise Viol("error-in-block-mode", "thread %d write %d: %s" % (t, i, text))
            ctx.add("refused"); continue
        db.apply(evs); ctx.add("writes")
        if first and t1 < start: early += sum(vlen(e[3]) for e in evs)
        if first and t0 < start < t1: blocked += 1
        if t1 - t0 > 20e6: ctx.add("waited")
    if first:
        if early > mem.wm + ps: raise Viol("beyond-limit", "%d bytes were written before anything was refreshed, limit %d" % (early, mem.wm))
        ctx.add("blocked_writers", blocked); ctx.add("stalls", 1 if blocked else 0)
    for m in reps[a + 1, 0][3].split("\x1e"):
        if m.strip(): mem.check("during", json.loads(m), idle=False); ctx.add("samples")
    db.check_scan("after the threads", "conc-contents")
    if case["workers"]:
        for _ in range(200):
            db.sql("checkpoint"); time.sleep(.005)
            if not any(p["size_heap"] for p in db.parts()): break
        else: raise Viol("baseline", "CHECKPOINT does not flush everything: %s" % db.parts())
    db.op_refresh_all(); m = mem.flushed("after the threads")
    db.check_scan("refreshed", "conc-contents")
    if case["wal"]: db.kill(); db.start(); db.check_scan("killed and opened", "lost-by-reopen"); ctx.add("reopened")
    db.stop(); db.m.close()
    ctx.sample = {"threads": nth, "writes": len(plan), "first": first}

def fn(ctx, case):
    (seq if case["kind"] == "seq" else conc)(ctx, case)

def cases():
    n = 140 if not THOROUGH else 3000
    out = []
    for k in range(n):
        v = "asan" if k % 14 == 3 else "plain"
        if k % 2: out.append(dict(seed=k, kind="seq", mode="error", wal=k % 9 != 1, steps=120 if not THOROUGH else 300, variant=v))
        else: out.append(dict(seed=k, kind="conc", mode="error" if k % 6 == 0 else "block", wal=k % 16 != 2, workers=(0, 1, 3, 0)[k // 2 % 4], ops=60 if not THOROUGH else 150, variant="tsan" if k % 28 == 10 else v))
    return out

if __name__ == "__main__":
    c = Check("C25", "exploration", variants=("plain", "asan", "tsan"))
    one_ = replay_case(sys.argv)
    c.run(fn, [one_] if one_ else cases(), budget=800 if THOROUGH else 150)
    c.finish("one case = one environment with a memory limit and (a) a random program in error mode, SHOW MEMORY compared with the limit and with the partitions after every step, every failed write checked for effects, or "
             "(b) 2-4 writer threads with a refreshing and a sampling thread in error or block mode",
             need=("refused", "accepted_after_refresh", "baseline", "waited", "stalls", "blocked_writers", "reopened", "recovered_beyond", "mmap_failures", "samples", "seen_at_limit"))
