import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *

PAGE = 65536
CAUSES = ("inject", "key", "oversize", "limit", "short", "enospc", "eio", "fsync", "mmap", "trunc", "head")

def batch(r, g, db, n):
    """repeated keys, several partitions, deletes of present and absent events"""
    evs = g.batch(n, db.live(), rehit=.6, delete=.3)
    if r.random() < .5:
        x = r.choice(evs)
        for _ in range(r.randrange(1, 4)):
            evs.insert(r.randrange(len(evs) + 1), (r.choice((0, 0, 1)), x[1], x[2], "h%08x" % r.getrandbits(32)))
    return evs

def bad_event(r, evs, cause):
    e = r.choice(evs) if evs else (0, 5, "", "-")
    if cause == "key": return (0, e[1], "61" * r.choice((256, 257, 300, 511, 512, 600)), "h00")
    return (0, e[1], e[2], "g%d:%d:0" % (r.getrandbits(20), r.choice((PAGE - 4, PAGE, PAGE * 2, 1 << 20))))

def attempt(ctx, r, g, db, cause, n):
    """one failing write; returns True when it really failed"""
    evs = batch(r, g, db, n); m = db.m
    fault = None
    if cause in ("key", "oversize"): evs.insert(r.randrange(len(evs) + 1), bad_event(r, evs, cause))
    elif cause == "inject": db.sql("set error_wal to true")
    elif cause == "short": fault = "1 28 %d 0 1 /wal/" % IP["WRITE"]
    elif cause == "enospc": fault = "1 28 %d %d 0 /wal/" % (IP["WRITE"], r.randrange(2))
    elif cause == "eio": fault = "1 5 %d 0 %d /wal/" % (IP["WRITE"], r.randrange(2))
    elif cause == "fsync": fault = "1 5 %d 0 0 /wal/" % IP["SYNC"]
    elif cause == "mmap": fault = "%d 12 %d 0 0" % (r.choice((1, 1, 2, 3)), IP["MMAP"])
    elif cause == "trunc": fault = "1 28 %d 1 1 /wal/" % (IP["WRITE"] | IP["TRUNC"])
    elif cause == "limit":
        # fill the memory up to the limit, then a batch that needs more pages
        for _ in range(40):
            big = [(0, r.randrange(200), "%02x" % r.randrange(4), "g%d:30000:0" % r.getrandbits(30)) for _ in range(3)]
            ok, t = db.write(big, expect=False)
            if not ok: break
        else: return False
        db.check_scan("after the limit was reached", "failed-write-visible")
        evs = batch(r, g, db, n) + [(0, r.randrange(200), "", "g%d:60000:0" % k) for k in range(3)]
        r.shuffle(evs)
    elif cause == "head":        # new first partition and page
        evs = [(0, 10 ** 9 + r.randrange(10 ** 6), "", "h01") for _ in range(3)] + evs; r.shuffle(evs)
        db.sql("set error_wal to true")
    before = dict(db.model)
    if fault:
        m.ok("ip root " + db.path); m.ok("ip fail " + fault)
    db.note("failing write (%s) %r" % (cause, [(e[0], e[1], e[2][:8]) for e in evs][:12]))
    ok, t = m.cmd(fmt_events(evs))
    if fault:
        fired = int(m.ok("ip fired")); m.ok("ip off")
        if ok and fired and cause not in ("mmap",):
            raise Viol("error-not-reported", "log call failed (%s) but the write returned success" % cause)
    if cause in ("inject", "head"):
        db.sql("set error_wal to false")
        if ok: raise Viol("error-not-reported", "injected log error was not reported")
    if ok:
        if cause in ("key", "oversize"): raise Viol("bad-event-accepted", "batch with a %s event was accepted" % cause)
        ids = [int(x) for x in t.split()]
        db.apply([(f, ids[k], key, v) for k, (f, i, key, v) in enumerate(evs)])
        db.check_scan("batch succeeded (%s)" % cause, "success-incomplete")
        return False
    ctx.add("failed_" + cause); ctx.add("failed_batches"); ctx.see("shapes", (cause, len(evs), len({(e[1], e[2]) for e in evs}), sum(e[0] for e in evs)))
    db.model = before; db.live_cache = None
    return True

def fn(ctx, case):
    r = rng_of(case)
    cause0 = case["cause"]
    interval = r.choice((10, 50, 1000)) if cause0 != "limit" else 1000000
    wal = not (cause0 in ("key", "oversize", "limit", "mmap") and r.random() < .3)
    sets = ["interval to %d" % interval, "mm_page_size to %d" % PAGE, "wal to %s" % ("true" if wal else "false"),
            "wal_rotate_wm to %d" % r.choice((500, 4000, 1 << 20)), "wal_sync_on_write to %s" % ("true" if cause0 == "fsync" or r.random() < .3 else "false"),
            "wal_crc to %s" % r.choice(("true", "false"))]
    if cause0 == "limit": sets += ["mm_limit to true", "mm_limit_wm to %d" % (PAGE * r.choice((3, 6, 12))), "mm_limit_behaviour to 'error'"]
    if r.random() < .3: sets.append("mm_cache to 0")
    db = Db(ctx, r, variant=case.get("variant", "plain"), sets=sets, serial=r.random() < .15); db.wal = wal
    db.start(); ctx.see("configs", "|".join(sets))
    g = Gen(r, interval, ids=r.choice(("shuffle", "cluster", "border")) if cause0 != "limit" else "cluster", limit=r.choice((20, 200)), vals="small", keys=r.choice(("none", "short", "prefix")))
    causes = [cause0] + [c for c in CAUSES if c not in ("limit",) and (wal or c in ("key", "oversize", "mmap"))]
    for rnd in range(case["rounds"]):
        for _ in range(r.randrange(1, 4)):
            ok, _ = db.write(batch(r, g, db, r.choice((1, 5, 40, 600) if cause0 != "limit" else (1, 5))), expect=cause0 != "limit")
        db.check_scan("acknowledged writes", "success-incomplete")
        if r.random() < .4: getattr(db, "op_" + r.choice(("refresh", "refresh_all", "fail_refresh")))()
        elif r.random() < .3 and wal: db.op_rotate()
        k = 0
        for _ in range(r.choice((1, 1, 2, 5))):
            k += attempt(ctx, r, g, db, cause0 if r.random() < .7 else r.choice(causes), r.choice((1, 2, 3, 8, 30, 600)))
            if r.random() < .6: db.check_scan("after a failed write", "failed-write-visible")
        db.check_scan("after failed writes", "failed-write-visible")
        db.check_seeks(4)
        if cause0 == "limit": db.op_refresh_all(); db.check_scan("refresh frees memory", "failed-write-visible")
        # the cause is gone: writes succeed
        db.write(batch(r, g, db, r.choice((1, 10))))
        db.check_scan("write after failures", "write-after-failure")
        x = r.random()
        if x < .4:
            if r.random() < .4: attempt(ctx, r, g, db, r.choice([c for c in causes if c != "trunc" and c != "limit"]), r.choice((1, 4)))
            if not wal: db.op_refresh_all()
            db.reopen(); db.check_scan("reopen after failed writes", "failed-write-after-restart")
        elif x < .8:
            if r.random() < .5: attempt(ctx, r, g, db, r.choice([c for c in causes if c != "trunc" and c != "limit"]), r.choice((1, 4)))
            if not wal: db.op_refresh_all()
            db.kill(); db.start(); ctx.add("kills"); db.check_scan("kill after failed writes", "failed-write-after-restart")
        else: db.op_refresh_all(); db.check_scan("refresh after failed writes", "failed-write-visible")
    db.op_refresh_all(); db.check_scan("end", "failed-write-visible"); db.reopen(); db.check_scan("end, reopened", "failed-write-after-restart")
    ctx.sample = {"cause": cause0, "sets": sets, "trail": db.trail[-8:]}
    db.stop(); db.m.close()

def cases():
    out = []; k = 0
    for rep in range(200 if THOROUGH else 30):
        for c in CAUSES:
            out.append(dict(seed=k, cause=c, rounds=6, variant="asan" if rep % 5 == 4 else "plain")); k += 1
    return out

if __name__ == "__main__":
    c = Check("C04", "fault_enumeration", variants=("plain", "asan"))
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), budget=700 if THOROUGH else 90)
    c.finish("one case = a history of batches of which many fail for a chosen cause at a chosen position; contents are compared with the model after "
             "each failure, after later successes and after restart or kill", need=tuple("failed_" + x for x in CAUSES) + ("kills", "reopens"))
