import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from conc import *

def mixed(ctx, case):
    c = Conc(ctx, case, "c18", case["variant"], wal=case.get("wal", True)); r, db = c.r, c.db
    w = dict(c.ADMIN); c.wide = True
    if case.get("cloud"): w["cloud"] = 8; w["refresh"] = 10; w["move"] = 8
    if not case.get("drop"): w["drop"] = 0
    if not db.wal: w["gc"] = w["rotate"] = 0
    for rnd in range(case["rounds"]):
        threads = []
        for t in range(case["threads"]):
            l = []
            kind = r.choice(("rw", "rw", "w", "r", "admin", "all"))
            for _ in range(case["n"]):
                x = {"rw": r.choice("wr"), "w": "w", "r": "r", "admin": r.choice("aaawr"), "all": r.choice("wra")}[kind]
                l += c.writer(1) if x == "w" else c.reader(1) if x == "r" else [c.admin(w)]
            threads.append(l)
        d = r.choice((None, (20, 200), (5, 2000), (100, 50)))
        res = c.run(threads, d)
        ops = c.history(threads, res, ("not found", "not exists", "no associated cloud", "file does not exist locally"))
        c.decide(ops, "round %d, delay %s" % (rnd, d))
    db.check_scan("again", "unstable")
    if not db.wal: db.op_refresh_all()
    if r.random() < .5: db.kill(); db.start()
    else: db.reopen(fresh=r.random() < .3)
    db.check_scan("reopen after concurrency", "lost"); ctx.add("reopen_checks")
    db.op_refresh_all(); db.check_scan("refreshed after concurrency", "lost"); db.stop()
    ctx.add("sched_points", 0); db.m.close()
    ctx.sample = {"case": case, "sets": db.sets, "partitions": c.np, "slots": len(c.slots)}

def serial(ctx, case):
    """automatic ids: unique, in real time order, and never lost"""
    r = rng_of(case, "serial")
    I = r.choice((50, 500, 3000000))
    db = Db(ctx, r, case["variant"], ["interval to %d" % I, "mm_page_size to 65536", "wal_crc to true", "wal_rotate_wm to %d" % r.choice((5000, 1 << 20))], workers=r.choice((1, 3)), serial=True, timeout=240)
    db.start(); db.sql("alter storage main set (refresh_wm %d)" % r.choice((1, 2000, 1 << 20)))
    c = Conc.__new__(Conc); c.ctx, c.db, c.r, c.case = ctx, db, r, case
    ver = 0; threads = []
    for t in range(case["threads"]):
        l = []
        for _ in range(case["n"]):
            x = r.random()
            if x < .65:
                evs = []
                for _ in range(r.choice((1, 1, 1, 2, 5)) if I > 1000 else 1):
                    ver += 1; evs.append((0, U64, "", "h%08x" % ver))
                l.append((fmt_events(evs), evs))
            elif x < .9: l.append(("scan -1", None))
            else: l.append((r.choice(("sql checkpoint", "sql show partitions", "sql debug 'wal_create'", "sql debug 'wal_gc'", "sql refresh partitions between 0 and %d" % U64)), None))
        threads.append(l)
    res = c.run(threads, r.choice((None, (20, 200), (5, 1000))))
    by = {}; wr = []
    for th, idx, t0, t1, ok, text in res:
        line, evs = threads[th][idx]
        if not ok: raise Viol("command-error", "%r failed: %s" % (line[:100], text))
        if evs:
            ids = [int(x) for x in text.split()]
            for e, i in zip(evs, ids):
                if i in by: raise Viol("id-twice", "id %d was given twice" % i)
                by[i] = (t0, t1, e[3])
            if any(a >= b for a, b in zip(ids, ids[1:])): raise Viol("id-order", "ids of one batch %s" % ids)
            wr.append((t0, t1, ids[0], ids[-1]))
    # real time order
    wr.sort(key=lambda x: x[1]); best = -1; j = 0
    for t0, t1, a, b in sorted(wr):
        while j < len(wr) and wr[j][1] < t0: best = max(best, wr[j][3]); j += 1
        if a <= best: raise Viol("id-order", "id %d was given after %d had been acknowledged" % (a, best))
    n = 0
    for th, idx, t0, t1, ok, text in res:
        if threads[th][idx][0] != "scan -1": continue
        got = parse_events(text); n += 1
        if [g[0] for g in got] != sorted({g[0] for g in got}): raise Viol("order", "scan")
        m = {g[0]: g[2] for g in got}
        for i, v in m.items():
            if i not in by or by[i][2] != v or by[i][0] > t1: raise Viol("invented", "scan returned id %d value %s" % (i, v))
        for i, (a, b, v) in by.items():
            if b < t0 and i not in m: raise Viol("lost", "id %d acknowledged before the scan began is missing in it" % i)
    ctx.add("serial_scans", n); ctx.add("serial_ids", len(by)); ctx.add("history_ops", len(res))
    db.model = {(i, ""): v for i, (_, _, v) in by.items()}; db.live_cache = None
    db.check_scan("final", "lost"); db.kill(); db.start(); db.check_scan("reopen", "lost"); db.stop(); db.m.close()

def fn(ctx, case):
    (serial if case["mode"] == "serial" else mixed)(ctx, case)

def cases():
    n = 640 if not THOROUGH else 6000
    out = []
    for k in range(n):
        if k % 8 == 7: out.append(dict(seed=k, mode="serial", threads=(2, 4, 8)[k % 3], n=60, variant="plain"))
        else: out.append(dict(seed=k, mode="mixed", threads=(2, 3, 4, 6, 8)[k % 5], n=40 if not THOROUGH else 60, rounds=2, variant="asan" if k % 6 == 5 else "plain", drop=k % 3 == 0, cloud=k % 5 == 2, wal=k % 9 != 4))
    return out

if __name__ == "__main__":
    c = Check("C18", "exploration", variants=("plain", "asan"))
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), procs=4, budget=800 if THOROUGH else 120)
    c.finish("one case = threads writing batches, scanning and running maintenance commands against background workers, with random delays at lock and file operations; the history of every partition is checked "
             "for linearizability (batches and scans as single operations); automatic ids for uniqueness and order",
             need=("overlapping_ops", "wide_batches", "partitions_checked", "atomic_histories", "keys_checked", "reopen_checks", "serial_scans", "dropped"))
