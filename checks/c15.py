import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *
import c14

KINDS = ("refuse", "reset", "close", "lost", "500", "503", "403", "404", "early", "short", "one", "cut", "cut1", "empty", "full", "more")

def command(w):
    """(text or 'scan'/'seeks', predicate on partitions that must hold after success)"""
    db, r = w.db, w.r
    ps = db.parts()
    if not ps: return None
    def at(m, f): return lambda q: any(p["min"] == m and f(p) for p in q)
    c = r.choice(("upload", "upload", "download", "download", "dc", "dc", "refresh", "refresh", "refresh", "move", "move", "move_range", "refresh_all", "up_all", "down_all", "scan", "scan", "seek", "service"))
    if c == "scan": return "scan", None
    if c == "seek": return "seek", None
    if c == "refresh_all": return "refresh partitions between 0 and %d" % U64, None
    if c == "down_all": return "download partitions between 0 and %d if cloud" % U64, lambda q: all(p["on_storage"] or not p["on_cloud"] for p in q)
    if c == "up_all":
        if not all(p["on_storage"] or p["on_cloud"] for p in ps if p["storage"] in w.stores): return None
        return "upload partitions between 0 and %d if cloud" % U64, lambda q: all(p["on_cloud"] for p in q if p["storage"] in w.stores)
    if c == "move_range": s = r.choice(db.storages()); return "move partitions between 0 and %d into %s" % (U64, s), lambda q: all(p["storage"] == s for p in q)
    ok = {"upload": lambda p: p["on_storage"] and not p["on_cloud"] and p["storage"] in w.stores, "download": lambda p: p["on_cloud"] and not p["on_storage"],
          "dc": lambda p: p["on_cloud"] and p["on_storage"], "refresh": lambda p: p["on_cloud"] or p["storage"] in w.stores, "move": lambda p: True, "service": lambda p: True}[c]
    ps = [p for p in ps if ok(p)]
    if not ps: return None
    p = r.choice(ps); m = p["min"]
    if c == "upload": return "upload partition %d" % m, at(m, lambda p: p["on_cloud"])
    if c == "download": return "download partition %d" % m, at(m, lambda p: p["on_storage"])
    if c == "dc": return "drop partition %d on cloud" % m, at(m, lambda p: not p["on_cloud"] and p["on_storage"])
    if c == "refresh": return "refresh partition %d" % m, at(m, lambda p: p["events_heap"] == 0)
    if c == "service": return "checkpoint", None
    s = r.choice(db.storages()); return "move partition %d into %s" % (m, s), at(m, lambda p: p["storage"] == s)

def arm(w, nth, kind):
    if w.s3: w.s3.arm(nth, kind)
    else:
        if kind == "error": w.db.sql("set error_%s to true" % ("upload", "download")[nth % 2])
        else: w.db.m.ok("ip root " + w.db.path); w.db.m.ok("ip fail %d %d %d 0 %d mock" % (nth, 5 if kind != "nospc" else 28, IP["OPENW"] | IP["OPENR"] | IP["READ"] | IP["WRITE"] | IP["UNLINK"] | IP["SYNC"], 1 if kind == "shortio" else 0))

def disarm(w, kind):
    if w.s3: return w.s3.disarm()
    if kind == "error":
        for x in ("upload", "download"): w.db.sql("set error_%s to false" % x)
        return True
    t = w.db.m.ok("ip fired"); w.db.m.ok("ip off")
    return t.strip() != "0"

def run(w, text, why, may_fail):
    db, ctx = w.db, w.ctx
    if text == "scan":
        ok, t = db.m.cmd("scan -1")
        if ok:
            got = parse_events(t)
            if got != db.sorted(): raise Viol("wrong-data", "%s: %s" % (why, diff(got, db.sorted())))
        elif not may_fail: raise Viol("unreadable", "%s: scan failed: %s; before %s" % (why, t, db.trail[-10:]))
        return ok, t
    if text == "seek":
        for i, k in db.seek_targets(3):
            ok, t = db.m.cmd("scan 6 %d %s" % (i, kx(k)))
            if ok:
                want = [e for e in db.sorted() if e[:2] >= (i, k)][:6]
                if parse_events(t) != want: raise Viol("wrong-data", "%s: seek %s: %s" % (why, (i, k), diff(parse_events(t), want)))
            elif not may_fail: raise Viol("unreadable", "%s: seek failed: %s" % (why, t))
            else: return ok, t
        return True, ""
    if text == "checkpoint":
        db.op_checkpoint()          # in the background: the failure is logged
        return True, ""
    return db.trysql(text)

def fn(ctx, case):
    w = c14.World(ctx, case, "c15", wal=case["wal"]); db, r = w.db, w.r
    if not case.get("bare"): w.write(r.choice((5, 40)))
    kinds = KINDS if w.s3 else ("io", "io", "nospc", "shortio", "error")
    ops = dict(c14.World.OPS, reopen=0, drop=.5)
    if case.get("bare"):        # nothing but the transfer itself guards what is read
        for n in w.stores: db.sql("alter storage %s set (crc false, compression '', encryption '', region_size %d, cloud_drop_local true)" % (n, r.choice((1, 200))))
        kinds = ("full", "full", "more", "one", "cut1", "cut")
        w.write(30)
    if case.get("pieces"):      # file calls of the transfers are done in pieces
        db.pre = ("ip root " + db.path, "ip partial 250 %d" % r.getrandbits(30))
        for x in db.pre: db.m.ok(x)
    for _ in range(case["rounds"]):
        for _ in range(r.randrange(0, 5)): w.step(ops)
        c = command(w)
        if case.get("bare") and r.random() < .6: c = (r.choice(("scan", "seek")), None)
        if c is None: continue
        text, done = c
        kind, nth = r.choice(kinds), r.choice((1, 1, 1, 2, 2, 3, 4, 6))
        before = db.parts(); b4 = {p["min"]: (p["on_storage"], p["on_cloud"]) for p in before}
        arm(w, nth, kind)
        why = "%s at request %d during %s" % (kind, nth, text)
        ok, t = run(w, text, why, True)
        fired = disarm(w, kind)
        db.note("[%s: %s]" % (why, "ok" if ok else t))
        if fired:
            ctx.add("faults"); ctx.see("faulted", "%s %s %s" % (kind, text.split()[0], fired[0] + (" range" if fired[3] else "") if w.s3 else "")); ctx.add("fault_ok" if ok else "fault_error")
        elif not ok: raise Viol("command-error", "%s failed without a fault: %s; before %s" % (text, t, db.trail[-10:]))
        if ok and done and not done(db.parts()): raise Viol("not-done", "%s: reported as done but is not; before %s" % (why, db.trail[-6:]))
        w.look(why, strict=False)
        run(w, "scan", why + "; then", False)
        x = r.random()
        if x < .25:                     # what SHOW reports on the cloud must do without the file
            for p in db.parts():
                if p["on_cloud"] and p["on_storage"]: db.sql("drop partition %d on storage" % p["min"]); ctx.add("relied_on_cloud")
            w.look(why + "; files dropped", strict=False); run(w, "scan", why + "; files dropped", False)
            if db.wal or x < .1:
                if not db.wal: db.op_refresh_all()
                db.reopen(); run(w, "scan", why + "; files dropped, reopened", False)
        elif x < .6:
            if db.wal:
                if x < .4: db.kill(); db.start()
                else: db.reopen()
                w.look(why + "; restart", strict=False); run(w, "scan", why + "; restart", False); ctx.add("restarts_after_fault")
        if not ok and text not in ("scan", "seek", "checkpoint"):
            # again, without the fault (a restart may have made it needless)
            ps = {p["min"]: p for p in db.parts()}
            i = int(text.split()[2]) if text.split()[1] == "partition" else None
            p = ps.get(i)
            if text.startswith("upload partition") and p and not p["on_storage"]: continue
            if "on cloud" in text and p and not p["on_storage"]: continue
            ok, t = db.trysql(text)
            if not ok: raise Viol("retry", "%s: repeating it failed: %s; before %s" % (why, t, db.trail[-10:]))
            ctx.add("retried")
            if done and not done(db.parts()): raise Viol("not-done", "%s: repeated, but not done; before %s" % (why, db.trail[-6:]))
            w.look(why + "; repeated", strict=False); run(w, "scan", why + "; repeated", False)
        if r.random() < .3: w.write(4)
    # schema commands that talk to the cloud
    if w.s3:
        for text in ("create storage kz (cloud 'c')", "alter storage kz set (cloud '')", "alter storage kz set (cloud 'c')", "drop storage kz"):
            kind = r.choice(("refuse", "500", "close", "reset", "403"))
            before = db.sql("show storages")
            w.s3.arm(1, kind); ok, t = db.trysql(text); f = w.s3.disarm()
            if ok and f and kind != "close" and kind != "reset": raise Viol("not-reported", "%s with %s reported success" % (text, kind))
            if not ok:
                if not f: raise Viol("command-error", "%s: %s" % (text, t))
                if db.sql("show storages") != before: raise Viol("schema", "%s failed and changed the storages" % text)
                db.sql(text); ctx.add("retried")
            ctx.add("ddl_faults")
    db.op_refresh_all(); w.look("end", strict=False); run(w, "scan", "end", False)
    db.reopen(fresh=True); run(w, "scan", "end, reopened", False)
    for s in db.storages():
        db.sql("move partitions between 0 and %d into %s" % (U64, s)); run(w, "scan", "all in " + s, False)
    if case.get("pieces"): ctx.add("pieces", int(db.m.ok("ip partials")))
    db.stop(); db.m.close()
    ctx.sample = {"sets": w.sets, "case": case, "trail": db.trail[-10:]}

def cases():
    n = 500 if not THOROUGH else 4000
    return [dict(seed=k, cloud="mock" if k % 4 == 3 else "s3", wal=k % 3 != 2, bare=k % 4 == 1 and k % 3 != 0, pieces=k % 4 == 2, rounds=12 if not THOROUGH else 40, variant="asan" if k % 16 == 6 else "plain") for k in range(n)]

if __name__ == "__main__":
    c = Check("C15", "fault_enumeration", variants=("plain", "asan"))
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), budget=800 if THOROUGH else 120)
    c.finish("one case = a program over cloud storages in which requests fail in turn (connection, HTTP status, lost answer, short, cut or longer body, file errors of the mock); "
             "after each fault all events are read, also after restarts and from the cloud copy alone, and the command is repeated",
             need=("faults", "fault_error", "retried", "relied_on_cloud", "restarts_after_fault", "faulted"))
