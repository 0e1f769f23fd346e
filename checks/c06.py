import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *

KEY = "0123456789abcdef0123456789ABCDEF"
LEFT = (".incomplete", ".complete")

def setup(ctx, case):
    r = rng_of(case)
    wal = case["wal"]
    sets = ["interval to %d" % r.choice((10, 100)), "mm_page_size to 65536", "wal to %s" % ("true" if wal else "false"),
            "wal_rotate_wm to %d" % r.choice((300, 3000, 1 << 20)), "wal_crc to %s" % r.choice(("true", "false"))]
    db = Db(ctx, r, sets=sets); db.start()
    ctx.see("configs", "|".join(sets))
    o = ["region_size %d" % r.choice((200, 2000, 131072))]
    if r.random() < .5: o.append("refresh_wm %d" % r.choice((1, 3000)))
    if r.random() < .5: o.append("crc true")
    db.sql("alter storage main set (%s)" % ", ".join(o))
    if case["cloud"]:
        db.sql("create cloud c (type 'mock')")
        db.sql("create storage sc (cloud 'c', cloud_drop_local %s, compression '%s')" % (r.choice(("true", "false")), r.choice(("zstd", "lz4", ""))))
    if case["stor"] > 0: db.sql("create storage s2 (compression '%s')" % r.choice(("zstd", "lz4", "")))
    if case["stor"] > 1: db.sql("create storage s3 (encryption 'aes', encryption_key '%s', region_size 300)" % KEY)
    if case.get("pipe"):
        st = ["main"] + [s for s in db.storages() if s != "main"]
        db.sql("alter pipeline set %s" % ", ".join("%s (partitions %d)" % (s, r.randrange(0, 3)) if s != st[-1] else s for s in st))
    g = Gen(r, 100, ids="shuffle", limit=r.choice((60, 300)), vals=r.choice(("small", "mixed")), keys=r.choice(("none", "short")), maxval=3000)
    for _ in range(r.randrange(1, 4)):
        db.write(g.batch(r.choice((3, 10, 60)), db.live(), rehit=.4, delete=.2))
        for _ in range(r.randrange(0, 3)): maint(db, r, case)
    if not wal: db.op_refresh_all()
    return r, db, g

OPSM = dict(refresh=5, refresh_all=2, refresh_range=2, move=5, move_range=2, checkpoint=1, service=2, rotate=1, gc=1, create=2, cloud=6,
            rebalance=2, fail_refresh=2)

def maint(db, r, case):
    w = dict(OPSM)
    if not case["cloud"]: w.pop("cloud")
    if not case["stor"] and not case["cloud"]: w["move"] = w["move_range"] = 0
    if not case.get("pipe"): w.pop("rebalance")
    if not case["wal"]: w.pop("rotate"); w.pop("gc")
    op = pick(r, w)
    if op == "rebalance": db.sql("rebalance")
    else: getattr(db, "op_" + op)()
    db.ctx.see("ops", op)
    return op

class Rec:
    """records the command texts of an adaptive run"""
    def __init__(self, db):
        self.db, self.out = db, []
        self.s, self.t, self.w = db.sql, db.trysql, db.write
        db.sql = lambda x: (self.out.append(("sql", x)), self.s(x))[1]
        db.trysql = lambda x: (self.out.append(("try", x)), self.t(x))[1]
        db.write = lambda e: (self.out.append(("w", e)), self.w(e))[1]
    def stop(self):
        del self.db.sql, self.db.trysql, self.db.write
        return self.out

def safe_again(db, text):
    """may the interrupted command be repeated in this state?"""
    w = text.lower().split()
    if "on" in w:               # drop of one copy needs the other one
        i = int(w[2])
        p = [p for p in db.parts() if p["min"] <= i <= p["max"]]
        return bool(p) and p[0]["on_cloud"] and p[0]["on_storage"]
    if w[0] == "upload":
        i = int(w[2]); p = [p for p in db.parts() if p["min"] <= i <= p["max"]]
        return bool(p) and p[0]["on_storage"]
    if w[0] in ("refresh", "download", "move") and w[1] == "partition":
        i = int(w[2]); return any(p["min"] <= i <= p["max"] for p in db.parts())
    return True

def unarm_errors(db):
    for n in (1, 2, 3): db.sql("set error_refresh_%d to false" % n)

def fn(ctx, case):
    r, base, g = setup(ctx, case)
    base.stop(); base.m.close(); base.m = None
    d = clone(base, "count"); d.start()
    rec = Rec(d)
    d.m.ok("ip root " + d.path); d.m.ok("ip reset")
    for _ in range(case["ops"]):
        maint(d, r, case)
        if case["wal"] and r.random() < .3: d.write(g.batch(r.choice((1, 5)), d.live(), rehit=.5, delete=.2))
    ops = rec.stop()
    n = int(d.m.ok("ip count %d" % MUTATE))
    d.check_scan("full run"); d.reopen(); d.check_scan("full run reopened"); d.stop(); d.m.close()
    ctx.add("crash_points_total", n)
    pts = [(i, v) for i in range(1, n + 1) for v in (0, 1, 2, 3, 4)]
    r.shuffle(pts)
    if case["points"]: pts = pts[:case["points"]]
    for nth, variant in pts:
        d = clone(base, "w"); d.start()
        arm(d, nth, variant)
        pend = None
        try:
            for op in ops: run_op(d, op)
        except Crashed as c: pend = c.op
        if pend is None: ctx.add("not_reached"); d.m.ok("ip off"); d.stop(); d.m.close(); continue
        chain(ctx, r, d, case, g, pend, "crash at call %d variant %d in %s" % (nth, variant, str(pend)[:160]))
        shutil.rmtree(d.path, ignore_errors=True)
    ctx.sample = {"sets": base.sets, "ops": [o[0] if o[0] == "w" else o[1] for o in ops][:30], "crash_points": n}

def only_cloud(ctx, d, why):
    """what is reported on the cloud can be read from there"""
    for p in d.parts():
        if p["on_cloud"] and p["on_storage"]:
            d.sql("drop partition %d on storage" % p["min"]); ctx.add("read_from_cloud")
    d.check_scan(why + "; files dropped, read from the cloud", "cloud-copy-lost")

def chain(ctx, r, d, case, g, pend, why):
    what = pend[0] if pend[0] == "w" else " ".join(pend[1].split()[:2])
    ctx.add("crashes"); ctx.see("crashed_in", what)
    files = {os.path.splitext(f)[1] for f in d.files() if "wal" not in f}
    for x in files: ctx.see("leftovers", x)
    restart(d, why)
    settle(d, allowed_after(d, pend), why, "changed-by-crash")
    layout(d, ctx)
    unarm_errors(d)
    # the interrupted command runs to completion
    if pend[0] in ("sql", "try") and safe_again(d, pend[1]):
        d.sql(pend[1]); d.check_scan(why + "; repeated", "changed-by-repeat"); ctx.add("repeated")
    unarm_errors(d)
    for rnd in range(case["rounds"]):
        d.m.ok("ip root " + d.path)
        d.m.ok("ip crash %d %d %d" % (r.choice((1, 2, 3, 4, 6, 9, 15)), r.randrange(5), MUTATE))
        rec = Rec(d); p2 = None
        try:
            maint(d, r, case)
            if case["wal"] and r.random() < .4: d.write(g.batch(2, d.live()))
            rec.stop()
        except Dead as e:
            ops = rec.stop()
            if e.rc != CRASHED or any(m in e.err for m in SAN_MARK): raise
            p2 = ops[-1] if ops else ("sql", "show")
        w2 = why + "; round %d %s" % (rnd, str(p2)[:120])
        if p2:
            ctx.add("chained_crashes"); restart(d, w2); settle(d, allowed_after(d, p2), w2, "changed-by-crash")
        else:
            d.m.ok("ip off"); d.check_scan(w2, "changed-by-maintenance")
            if r.random() < .5: d.kill(); d.start(); d.check_scan(w2 + " kill", "changed-by-crash")
        unarm_errors(d)
    if case["cloud"] and r.random() < .6: only_cloud(ctx, d, why)
    # everything can be refreshed, moved and reopened
    d.op_refresh_all(); d.check_scan(why + "; refresh of everything", "changed-by-repeat")
    if r.random() < .5: d.op_move_range(); d.check_scan(why + "; move", "changed-by-repeat")
    if case["wal"]: d.write(g.batch(3, d.live(), rehit=.5, delete=.2))
    else: d.write(g.batch(3, d.live(), rehit=.5, delete=.2)); d.op_refresh_all()
    d.reopen(); d.check_scan(why + "; clean reopen", "changed-by-reopen")
    left = [f for f in d.files() if f.endswith(".incomplete")]
    if left: raise Viol("leftover", "%s: leftover files after recovery: %s" % (why, left[:4]))
    d.stop(); d.m.close()

def cases():
    out = []; q = not THOROUGH
    for k in range(320 if q else 1600):
        out.append(dict(seed=k, wal=k % 4 != 3, cloud=k % 3 == 0, stor=k % 3, pipe=k % 5 == 0 and (k % 3 != 0 or True), ops=(1, 2, 4, 8)[k % 4],
                        points=10 if q else 60, rounds=2))
    return out

if __name__ == "__main__":
    c = Check("C06", "fault_enumeration")
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), budget=800 if THOROUGH else 90)
    c.finish("one case = one program of maintenance commands; the process is killed before or inside chosen file-modifying calls, reopened, compared, "
             "the command repeated and further maintenance with further crashes follows", need=("crashes", "chained_crashes", "repeated", "leftovers", "crashed_in", "read_from_cloud"))
