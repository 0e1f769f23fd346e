import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *

def plan(r, g, model_live, n, heavy):
    """writes with log rotation and some maintenance in between"""
    ops = []; live = list(model_live)
    for _ in range(n):
        x = r.random()
        if x < .75 or not heavy:
            b = g.batch(r.choice((1, 1, 2, 4, 12, 40)), live, rehit=.4, delete=.25)
            live += [(e[1], e[2]) for e in b if not e[0] & 1]
            ops.append(("w", b))
        elif x < .83: ops.append(("sql", "debug 'wal_create'"))
        elif x < .88: ops.append(("sql", "debug 'wal_gc'"))
        elif x < .91:
            n = r.choice((1, 1, 2, 3))
            ops += [("sql", "set error_refresh_%d to true" % n), ("try", "refresh partitions between 0 and 18446744073709551615"),
                    ("sql", "set error_refresh_%d to false" % n)]
        elif x < .95: ops.append(("sql", "refresh partitions between 0 and 18446744073709551615"))
        elif x < .98: ops.append(("sql", "service"))
        else: ops.append(("sql", "checkpoint"))
    return ops

def start(ctx, case):
    r = rng_of(case)
    sets = ["interval to %d" % r.choice((10, 100, 100000)), "mm_page_size to 65536", "wal_rotate_wm to %d" % r.choice((300, 3000, 1 << 20)),
            "wal_crc to %s" % r.choice(("true", "false")), "wal_sync_on_write to %s" % r.choice(("true", "false"))]
    db = Db(ctx, r, sets=sets)
    db.start()
    g = Gen(r, 100, ids=r.choice(("shuffle", "dense", "cluster", "border")), vals=r.choice(("small", "mixed")), limit=60,
            keys=r.choice(("none", "short", "prefix")), maxval=6000)
    for _ in range(r.randrange(0, 4)): db.write(g.batch(r.choice((1, 10, 30)), db.live()))
    if r.random() < .5: db.op_refresh_all()
    db.stop(); db.m.close(); db.m = None
    ctx.see("configs", "|".join(sets))
    return r, db, g

def fn(ctx, case):
    r, base, g = start(ctx, case)
    ops = plan(r, g, base.live(), case["ops"], case["heavy"])
    # full run: counts the crash points
    d = clone(base, "count"); d.start()
    d.m.ok("ip root " + d.path); d.m.ok("ip reset")
    for op in ops: run_op(d, op)
    n = int(d.m.ok("ip count %d" % MUTATE))
    d.check_scan("full run"); d.stop(); d.m.close()
    ctx.add("crash_points_total", n)
    pts = [(i, v) for i in range(1, n + 1) for v in (0, 1, 2, 3, 4)]
    r.shuffle(pts)
    if case["points"]: pts = pts[:case["points"]]
    for nth, variant in pts:
        d = clone(base, "w"); d.start()
        arm(d, nth, variant)
        crash_chain(ctx, r, d, ops, nth, variant, g, case["rounds"])
        shutil.rmtree(d.path, ignore_errors=True)
    ctx.sample = {"sets": base.sets, "ops": [o[0] if o[0] == "w" else o[1] for o in ops][:30], "crash_points": n}

def crash_chain(ctx, r, d, ops, nth, variant, g, rounds):
    pend = None
    try:
        for op in ops: run_op(d, op)
    except Crashed as c: pend = c.op
    if pend is None: ctx.add("not_reached"); d.stop(); d.m.close(); return
    ctx.add("crashes"); ctx.see("crashed_in", pend[0] if pend[0] == "w" else pend[1].split()[0])
    ctx.see("points", (nth, variant))
    restart(d, "crash %d/%d in %s" % (nth, variant, str(pend)[:120]))
    settle(d, allowed_after(d, pend), "crash at call %d variant %d in %s" % (nth, variant, str(pend)[:160]), "lost-after-crash")
    # more writes, crashes and reopens follow
    for rnd in range(rounds):
        more = plan(r, g, d.live(), r.randrange(1, 5), True)
        pend = None
        k = r.choice((1, 2, 3, 5, 8, 13, 40))
        arm(d, k, r.randrange(5))
        try:
            for op in more: run_op(d, op)
        except Crashed as c: pend = c.op
        ctx.add("chained_crashes", 1 if pend else 0)
        if pend is None and r.random() < .5:
            d.m.ok("ip off")
            d.kill(); ctx.add("kills")
            d.start()
            settle(d, [d.model], "kill -9 between commands, round %d" % rnd, "lost-after-kill")
        elif pend is None:
            d.m.ok("ip off"); d.reopen(); d.check_scan("reopen in round %d" % rnd, "lost-after-reopen")
        else:
            restart(d, "round %d crash in %s" % (rnd, str(pend)[:120]))
            settle(d, allowed_after(d, pend), "round %d crash in %s (first crash %d/%d)" % (rnd, str(pend)[:160], nth, variant), "lost-after-crash")
    d.write(g.batch(3, d.live())); d.check_scan("write after recovery", "lost-after-crash")
    d.reopen(); d.check_scan("clean reopen after recovery", "lost-after-reopen")
    if r.random() < .5:
        d.op_refresh_all(); d.op_gc(); d.reopen(); d.check_scan("refresh, gc and reopen after recovery", "lost-after-reopen")
    d.stop(); d.m.close()

def threads(ctx, case):
    """several writer threads and background workers, killed at an arbitrary file operation"""
    r = rng_of(case, "par")
    for rep in range(case["reps"]):
        sets = ["interval to %d" % r.choice((20, 1000)), "mm_page_size to 65536", "wal_rotate_wm to %d" % r.choice((400, 4000)),
                "wal_crc to %s" % r.choice(("true", "false"))]
        db = Db(ctx, r, sets=sets, workers=r.choice((0, 2)), sub="t%d" % rep).start()
        db.sql("alter storage main set (refresh_wm %d)" % r.choice((1000, 40 << 20)))
        nt = r.randrange(2, 5); prog = []; batches = {}
        for t in range(nt):
            batches[t] = []
            for j in range(case["n"]):
                # one partition per batch; key space of the thread: value identifies the write
                part = r.randrange(4) * 1000 + t
                evs = []
                for _ in range(r.choice((1, 2, 5))):
                    evs.append((1 if r.random() < .15 else 0, part if r.random() < .3 else (part // 1000) * 1000 + r.randrange(3), "%02x%02x" % (t, r.randrange(6)),
                                "h%02x%06x" % (t, j)))
                if sets[0].endswith("20"): evs = [(f, (part // 1000) * 1000 + r.randrange(3), k, v) for f, i, k, v in evs]
                batches[t].append(evs)
                prog.append("%d %s" % (t, fmt_events(evs)))
        inp, outp = os.path.join(ctx.dir, "in"), os.path.join(ctx.dir, "out")
        open(inp, "w").write("\n".join(prog) + "\n")
        arm(db, r.randrange(1, nt * case["n"] // 2), r.randrange(5))
        died = False
        db.m.ok("ip delay %d 200 %d" % (r.choice((0, 100)), r.getrandbits(30)))
        try:
            ok, t = db.m.cmd("par %s %s 60 live" % (inp, outp))
            if not ok: raise Viol("stuck", t)
        except Dead as e:
            if e.rc != CRASHED or any(m in e.err for m in SAN_MARK): raise
            died = True
        done = {t: 0 for t in range(nt)}; started = {t: 0 for t in range(nt)}
        for l in open(outp):
            p = l.split()
            if len(p) == 3 and p[2] == "start": started[int(p[0])] = int(p[1]) + 1
            elif len(p) >= 6:
                if p[4] != "1": raise Viol("write-error", bytes.fromhex(p[5]).decode("latin1"))
                done[int(p[0])] = int(p[1]) + 1
        if not died:
            try: db.m.ok("ip off")
            except Dead as e:       # a worker thread reached the armed call
                if e.rc != CRASHED or any(m in e.err for m in SAN_MARK): raise
                died = True
        restart(db, "crash under %d threads" % nt)
        got = {(i, k): v for i, k, v in db.scan()}
        full = {}
        for t in range(nt):
            mine = {x: v for x, v in got.items() if x[1].startswith("%02x" % t)}
            m = {}
            for b in batches[t][:done[t]]:
                for f, i, k, v in b:
                    if f & 1: m.pop((i, k), None)
                    else: m[(i, k)] = v
            m2 = dict(m)
            if started[t] > done[t]:
                for f, i, k, v in batches[t][done[t]]:
                    if f & 1: m2.pop((i, k), None)
                    else: m2[(i, k)] = v
            if mine != m and mine != m2:
                raise Viol("lost-after-crash-threads", "thread %d: %d acknowledged batches; %s; in flight %r" % (
                    t, done[t], diff([(i, k, v) for (i, k), v in sorted(mine.items())], [(i, k, v) for (i, k), v in sorted(m.items())]),
                    batches[t][done[t]] if started[t] > done[t] else None))
            full.update(mine)
        if set(got) != set(full): raise Viol("invented", "unexpected %r" % list(set(got) - set(full))[:3])
        ctx.add("thread_crashes" if died else "thread_kills"); ctx.add("thread_acked", sum(done.values()))
        db.model = got; db.reopen(); db.check_scan("reopen", "lost-after-reopen")
        db.stop(); db.m.close()

def huge(ctx, case):
    """a batch around the largest size one log record can describe: refused as a whole, or there after the reopen"""
    r = rng_of(case, "huge")
    db = Db(ctx, r, sets=["interval to 1000000", "wal_rotate_wm to 100000000000", "wal_crc to %s" % r.choice(("true", "false"))], timeout=300).start()
    db.write([(0, 5, "", "h01"), (0, 70000, "aa", "h02")])
    val = 2000000; n = (1 << 31) // val + (2 + r.randrange(40) if case["over"] else -1)
    ok, t = db.m.cmd(fmt_events([(0, 100 + i, "", "g%d:%d:0" % (i, val)) for i in range(n)]))
    ctx.add("huge_batches"); ctx.see("huge_results", ok)
    if not ok: db.check_scan("refused batch of %d events of %d bytes" % (n, val), "failed-write-visible")
    db.note("batch of %d events of %d bytes: %s" % (n, val, ok))
    db.write([(0, 6, "", "h03")]); db.kill(); db.start()
    if not ok: db.check_scan("reopen after a refused batch", "lost-after-kill")
    else:
        got = sum(p["events"] for p in db.js("show partitions"))
        if got != n + 3: raise Viol("lost-after-kill", "batch of %d events of %d bytes acknowledged, %d events after the reopen instead of %d" % (n, val, got, n + 3))
    db.stop(); db.m.close()

def run_case(ctx, case): {"par": threads, "huge": huge}.get(case.get("mode"), fn)(ctx, case)

def cases():
    out = [dict(seed=0, mode="huge", over=True)]; q = not THOROUGH
    if not q: out.append(dict(seed=1, mode="huge", over=False))
    for k in range(180 if q else 900):
        out.append(dict(seed=k, ops=(8, 14, 25)[k % 3], heavy=k % 4 != 0, points=14 if q else 60, rounds=2 + k % 2))
        if k % 6 == 5: out.append(dict(seed=k, mode="par", reps=4, n=25))
    return out

if __name__ == "__main__":
    c = Check("C05")
    one = replay_case(sys.argv)
    c.run(run_case, [one] if one else cases(), budget=800 if THOROUGH else 90)
    c.finish("one case = one program of writes, rotations and refreshes; the process is killed before or inside chosen file-modifying calls, "
             "reopened, compared, and the history continues with further crashes", need=("crashes", "chained_crashes", "thread_crashes", "points"))
