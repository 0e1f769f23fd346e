import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *
import c06

def drop_plan(d, r):
    """(text, ranges) of a drop valid in the present state"""
    ps = d.parts()
    if not ps: return None
    k = r.randrange(len(ps)); p = ps[k]
    if r.random() < .45:
        sel = ps[k:k + r.choice((1, 2, 3, 5))]
        lo, hi = sel[0]["min"], sel[-1]["max"]
        if r.random() < .4:             # bounds inside the gaps around
            a = ps[k - 1]["max"] + 1 if k else 0
            if r.random() < .7: lo = r.randrange(a, lo + 1)
            elif k and ps[k - 1]["min"] < ps[k - 1]["max"]:      # begins within the one before: that one is not selected
                lo = r.randrange(ps[k - 1]["min"] + 1, ps[k - 1]["max"] + 1)
                return "drop partitions between %d and %d" % (lo, sel[-1]["max"]), [(p["min"], p["max"]) for p in sel], True
            if r.random() < .15 and ps[k]["min"] < ps[k]["max"]:                     # within one: nothing is selected
                return "drop partitions between %d and %d" % (ps[k]["min"] + 1, r.randrange(ps[k]["min"] + 1, ps[k]["max"] + 1)), [], False
            j = k + len(sel)
            b = ps[j]["max"] if j < len(ps) else U64
            if j < len(ps) and r.random() < .5: hi = r.randrange(hi, ps[j]["max"])          # ends within the next one: not selected
            elif j >= len(ps): hi = r.choice((U64, hi))
        return "drop partitions between %d and %d" % (lo, hi), [(p["min"], p["max"]) for p in sel]
    i = r.choice((p["min"], p["max"], (p["min"] + p["max"]) // 2))
    return "drop partition %s%d" % (r.choice(("", "if exists ")), i), [(p["min"], p["max"])]

def do_drop(d, r, out=None):
    x = drop_plan(d, r)
    if not x: return
    before = d.parts()
    for p in before:
        for lo, hi in x[1]:
            if p["min"] == lo: d.ctx.see("dropped_states", ("heap" if p["events_heap"] else "") + ("+file" if p["on_storage"] else "") + ("+cloud" if p["on_cloud"] else "") or "empty")
    if out is not None: out.append(("drop", x[0], x[1]))
    Db.sql(d, x[0])
    if len(x) == 3 and x[2]:            # a range that begins within a partition selects nothing at present; the others may or may not be selected
        left = [(p["min"], p["max"]) for p in d.parts()]
        for q in list(x[1]):
            if q in left: x[1].remove(q)
        d.ctx.add("partly_covered")
    elif len(x) == 3: d.ctx.add("within_one")
    for lo, hi in x[1]: d.ctx.add("dropped_events", d.remove_range(lo, hi))
    d.ctx.add("drops")
    got = [(p["min"], p["max"]) for p in d.parts()]
    want = [(p["min"], p["max"]) for p in before if (p["min"], p["max"]) not in x[1]]
    if got != want: raise Viol("drop-selection", "%s: partitions left %s, expected %s" % (x[0], got[:12], want[:12]))
    return x

def settle_drop(d, pend, why):
    """a partition in the middle of a drop: some of its events may be left, everything else is untouched"""
    got = d.scan(); m = {(i, k): v for i, k, v in got}
    if len(m) != len(got): raise Viol("dropped-repeated", why)
    left = {}
    for x, v in d.model.items():
        if any(lo <= x[0] <= hi for lo, hi in pend[2]):
            if x in m:
                if m[x] != v: raise Viol("drop-crash", "%s: event %s of the dropped partition has another value" % (why, x))
                left[x] = v
        else: left[x] = v
    if m != left:
        raise Viol("drop-crash", "%s: %s; before %s" % (why, diff(got, [(i, k, v) for (i, k), v in sorted(left.items())]), d.trail[-12:]))
    n = sum(1 for x in d.model if any(lo <= x[0] <= hi for lo, hi in pend[2])); k = n - (len(d.model) - len(left))
    d.ctx.add("drop_crash_" + ("kept" if k == n else "gone" if k == 0 else "part"))
    d.model = left; d.live_cache = None

def settle_any(d, pend, why):
    if pend and pend[0] == "drop": settle_drop(d, pend, why)
    else: settle(d, allowed_after(d, pend), why, "changed-by-crash")

def history(d, r, g, case, n, out=None):
    for _ in range(n):
        x = r.random()
        if x < .3: do_drop(d, r, out)
        elif x < .6:                    # rewrite ids, dropped ones too
            evs = g.batch(r.choice((1, 3, 12)), d.live(), rehit=.3, delete=.15)
            d.write(evs)
        else: c06.maint(d, r, case)

def fn(ctx, case):
    r, base, g = c06.setup(ctx, case)
    base.stop(); base.m.close(); base.m = None
    d = clone(base, "count"); d.start()
    rec = c06.Rec(d)
    d.m.ok("ip root " + d.path); d.m.ok("ip reset")
    out = rec.out
    do_drop(d, r, out)
    history(d, r, g, case, case["ops"], out)
    n = int(d.m.ok("ip count %d" % MUTATE))
    ops = rec.stop()
    if not case["wal"]: d.op_refresh_all()
    d.check_scan("full run", "drop")
    for k in range(3):
        if k == 1 and case["wal"]: d.kill(); d.start()
        else: d.reopen()
        d.check_scan("full run reopened %d" % k, "dropped-returned")
        history(d, r, g, case, 4)
        d.check_scan("history goes on", "drop")
        if not case["wal"]: d.op_refresh_all()
    d.reopen(); d.check_scan("reopen", "dropped-returned"); d.stop(); d.m.close()
    if not case["wal"]: return
    pts = [(i, v) for i in range(1, n + 1) for v in (0, 1, 2, 3, 4)]
    r.shuffle(pts)
    if case["points"]: pts = pts[:case["points"]]
    for nth, variant in pts:
        d = clone(base, "w"); d.start(); arm(d, nth, variant)
        pend = None
        try:
            for op in ops: run_op(d, op)
        except Crashed as c: pend = c.op
        if pend is None: ctx.add("not_reached"); d.m.ok("ip off"); d.stop(); d.m.close(); continue
        why = "crash at call %d variant %d in %s" % (nth, variant, str(pend)[:160])
        ctx.add("crashes"); ctx.see("crashed_in", pend[0] if pend[0] == "w" else " ".join(pend[1].split()[:2]))
        restart(d, why); settle_any(d, pend, why); c06.unarm_errors(d)
        if pend[0] == "drop":           # again, now to the end
            ps = [(p["min"], p["max"]) for p in d.parts()]
            for lo, hi in pend[2]:
                sel = [p for p in ps if p[0] >= lo and p[1] <= hi]      # (what the log brings back may have other ranges)
                for p in sel: d.sql("drop partition %d" % p[0]); d.remove_range(*p)
            d.check_scan(why + "; dropped again", "drop"); ctx.add("dropped_again")
        b = g.batch(5, d.live(), rehit=.3, delete=.2); d.write(b)
        d.kill(); d.start(); d.check_scan(why + "; kill after more writes", "dropped-returned")
        # a second crash
        arm(d, r.choice((1, 2, 3, 4, 6, 9)), r.randrange(5))
        out = []; rec = c06.Rec(d); rec.out = out
        p2 = None
        try: history_rec(d, r, g, case, 3, out); rec.stop(); d.m.ok("ip off")
        except Dead as e:
            rec.stop()
            if e.rc != CRASHED or any(m in e.err for m in SAN_MARK): raise
            p2 = out[-1] if out else None
            w2 = why + "; then crash in %s" % str(p2)[:120]
            restart(d, w2); settle_any(d, p2, w2); ctx.add("chained_crashes")
        c06.unarm_errors(d)
        d.check_scan(why + "; second round", "drop")
        d.op_refresh_all(); d.op_rotate(); d.op_gc(); d.reopen(); d.check_scan(why + "; refresh and reopen", "dropped-returned")
        d.stop(); d.m.close(); shutil.rmtree(d.path, ignore_errors=True)
    ctx.sample = {"sets": base.sets, "ops": [o[0] if o[0] == "w" else o[1] for o in ops][:20], "crash_points": n}

def history_rec(d, r, g, case, n, out):
    d.sql = lambda x: (out.append(("sql", x)), Db.sql(d, x))[1]
    d.trysql = lambda x: (out.append(("try", x)), Db.trysql(d, x))[1]
    d.write = lambda e: (out.append(("w", e)), Db.write(d, e))[1]
    history(d, r, g, case, n, out)

def interval(ctx, case):
    """drop, another interval, restart (known finding)"""
    r = rng_of(case, "interval")
    db = Db(ctx, r, sets=["interval to 100", "mm_page_size to 65536"]).start()
    db.sets = [s for s in db.sets if not s.startswith("interval")]
    db.write([(0, i, "", "h%02x" % i) for i in range(0, 250, 10)])
    db.sql("drop partition 100"); db.remove_range(100, 199)
    db.write([(0, 150, "", "hff")])
    db.sql("set interval to 7")
    db.kill(); db.start()
    db.check_scan("drop, SET interval, restart", "drop-then-interval")
    db.stop(); db.m.close()

def tail(ctx, case):
    """sessions that end in drops (their records are the last of the log), the next ones write less than was dropped"""
    r, d, g = c06.setup(ctx, case)
    for rnd in range(case["rounds"]):
        gone = []
        for _ in range(r.choice((1, 2, 3, 5))):
            x = do_drop(d, r)
            if x: gone += x[1]
        if r.random() < .6: d.kill(); d.start()
        else: d.reopen()
        d.check_scan("session ended in drops", "dropped-returned")
        for _ in range(r.choice((0, 1, 1, 2, 4))):
            if gone and r.random() < .8:
                lo, hi = r.choice(gone); d.write([(0, r.randint(lo, min(hi, lo + 100)), r.choice(("", "aa")), "h%08x" % r.getrandbits(32))]); ctx.add("written_into_dropped")
            else: d.write(g.batch(r.choice((1, 3)), d.live(), rehit=.3, delete=.1))
        if r.random() < .8:
            for p in d.parts():
                if p["events_heap"] and r.random() < .8: d.sql("refresh partition %d" % p["min"])
        elif r.random() < .5: c06.maint(d, r, case)
        d.kill(); d.start(); d.check_scan("drops at the end of a session, fewer writes, refresh, kill", "lost-by-drop"); ctx.add("tail_rounds")
        if r.random() < .4: history(d, r, g, case, 3)
    d.reopen(); d.check_scan("end", "drop"); d.stop(); d.m.close()

def run_case(ctx, case): {"interval": interval, "tail": tail}.get(case.get("mode"), fn)(ctx, case)

def cases():
    out = [dict(mode="interval", seed=0)]; q = not THOROUGH
    for k in range(240 if q else 1200):
        out.append(dict(seed=k, wal=k % 5 != 4, cloud=k % 3 == 0, stor=k % 3, pipe=False, ops=(1, 2, 4, 8)[k % 4], points=8 if q else 60))
    for k in range(200 if q else 1500): out.append(dict(mode="tail", seed=9000 + k, wal=True, cloud=k % 3 == 0, stor=k % 3, pipe=False, rounds=6))
    return out

if __name__ == "__main__":
    c = Check("C11", "fault_enumeration")
    one = replay_case(sys.argv)
    c.run(run_case, [one] if one else cases(), budget=800 if THOROUGH else 90)
    c.finish("one case = a history of writes, drops of partitions and ranges, rewrites and maintenance; contents compared now, after reopens and after the process "
             "was killed before or inside chosen file-modifying calls", need=("drops", "dropped_events", "crashes", "chained_crashes", "dropped_again", "dropped_states", "tail_rounds", "written_into_dropped"))
