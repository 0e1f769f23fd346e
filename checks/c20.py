import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from conc import *

SOFT = ("not found", "not exists", "no associated cloud", "file does not exist locally")

def walker(c, n):
    """cursors that stay for a while: [(line, meta)]"""
    r, out = c.r, []
    for _ in range(n):
        if r.random() < .15: start = (0, ""); out.append(("co 0 *", ("co", start)))
        else:
            p = r.randrange(c.np); x, k = r.choice(((0, ""), (0, ""), r.choice(c.slots))); start = (c.lo(p) + x, k)
            out.append(("co 0 %d %s" % (start[0], kx(k)), ("co", start)))
        for _ in range(r.choice((1, 3, 6, 12))):
            if r.random() < .6: out.append(("sleep %d" % r.choice((50, 300, 1500)), None))
            out.append(("cw 0 %d" % r.choice((1, 1, 2, 5, 100)), ("cw",)))
        out.append(("cc 0", ("cc",)))
    return out

def collect(c, th, rows, threads, ops):
    """turns the rows of one walking thread into read operations"""
    cur = None
    def close(ended):
        if cur is None: return
        start, ev, entry = cur["start"], cur["ev"], cur["co"]
        i0, k0 = start if start != (0, "") else (c.base, "")
        p = max(c.pid(i0), 0); mine = []; at = entry; idx = cur["idx"]; lo = (i0, k0)
        last = None
        for e, iv in ev:
            if last is not None and (e[0], e[1]) <= last[:2]: raise Viol("order", "cursor of thread %d op %d returned %s after %s" % (th, idx, e[:2], last[:2]))
            if last is None and (e[0], e[1]) < (i0, k0): raise Viol("order", "cursor from %s returned %s" % ((i0, k0), e[:2]))
            q = c.pid(e[0])
            if not 0 <= q < c.np: raise Viol("invented", "cursor returned %s" % (e[:2],))
            while p < q:
                ops[p].append(Op(at[0], at[1], "r", (lo, mine, True), th, idx))
                if mine: at = liv; c.ctx.add("partitions_left")
                p += 1; mine = []; lo = (c.lo(p), "")
            mine.append(e); last = e; liv = iv
        if not ended:
            if mine: ops[p].append(Op(at[0], at[1], "r", (lo, mine, False), th, idx))
        else:
            while p < c.np:
                ops[p].append(Op(at[0], at[1], "r", (lo, mine, True), th, idx))
                if mine: at = liv
                p += 1; mine = []; lo = (c.lo(p), "")
        c.ctx.add("walks"); c.ctx.add("walk_events", len(ev)); c.ctx.add("walks_to_end", int(ended))
        if len({iv for _, iv in ev}) > 1: c.ctx.add("slow_walks")
    ended = False
    for _, idx, t0, t1, ok, text in rows:
        line, meta = threads[th][idx]
        if meta is None: continue
        if not ok: raise Viol("command-error", "%r of thread %d failed: %s" % (line, th, text))
        if meta[0] == "co": cur = dict(start=meta[1], ev=[], co=(t0, t1), idx=idx); ended = False
        elif meta[0] == "cw":
            if text.endswith("end\n") or text == "end": text = text[:text.rindex("end")]; e = True
            else: e = False
            evs = parse_events(text)
            if evs and ended: raise Viol("order", "cursor returned events after its end")
            cur["ev"] += [(x, (t0, t1)) for x in evs]; ended = ended or e
        else: close(ended); cur = None

def mixed(ctx, case):
    c = Conc(ctx, case, "c20", case["variant"], wal=True); r, db = c.r, c.db; c.own = False
    w = dict(c.ADMIN)
    if case["cloud"]: w["cloud"] = 8; w["refresh"] = 10; w["move"] = 8
    if not case["drop"]: w["drop"] = 0
    for rnd in range(case["rounds"]):
        threads, walks = [], set()
        for t in range(case["threads"]):
            l = []
            if t < case["walkers"]: l = walker(c, case["n"] // 8); walks.add(t)
            else:
                kind = r.choice(("w", "w", "admin", "all"))
                for _ in range(case["n"]):
                    x = {"w": "w", "admin": r.choice("aaw"), "all": r.choice("wra")}[kind]
                    l += c.writer(1) if x == "w" else c.reader(1) if x == "r" else [c.admin(w)]
                    if r.random() < .2: l.append(("sleep %d" % r.choice((50, 500)), None))
            threads.append(l)
        d = r.choice((None, (20, 200), (5, 1000)))
        res = c.run(threads, d)
        ops = c.history(threads, [x for x in res if x[0] not in walks], SOFT)
        for t in walks: collect(c, t, sorted((x for x in res if x[0] == t), key=lambda x: x[1]), threads, ops)
        c.decide(ops, "round %d, delay %s, cursors in threads %s" % (rnd, d, sorted(walks)), "cursor-unstable")
    db.kill(); db.start(); db.check_scan("reopen after concurrency", "lost"); ctx.add("reopen_checks"); db.stop(); db.m.close()
    ctx.sample = {"case": case, "partitions": c.np, "slots": len(c.slots)}

def parked(ctx, case):
    """a cursor standing in one partition: others work elsewhere at full speed, wait for it where it stands, and go on when it leaves"""
    c = Conc(ctx, case, "c20p", case["variant"]); r, db = c.r, c.db
    c.np = max(c.np, 3); c.init = {p: {} for p in range(c.np)}
    for p in range(c.np):
        for _ in range(r.randint(1, 3)):
            b = c.batch(p, delete=False); db.m.ok(fmt_events(b))
            for f, i, k, v in b: c.init[p][(i, k)] = v
        if r.random() < .5: db.sql("refresh partition %d" % c.lo(p))
    for rnd in range(case["rounds"]):
        p = r.randrange(c.np); want = sorted((i, k, v) for (i, k), v in c.init[p].items())
        if not want: continue
        if r.random() < .5: k = r.randint(0, len(want) - 1)
        else: k = 0
        start = want[0]
        db.m.ok("co 5 %d %s" % (start[0], kx(start[1])))
        got = parse_events(db.m.ok("cw 5 %d" % k)) if k else []
        others = [q for q in range(c.np) if q != p]
        threads = []
        for t in range(case["threads"]):
            l = []
            for _ in range(case["n"]):
                x = r.choice("wwa"); q = r.choice(others)
                if x == "w": l += c.writer(1, others)
                else:
                    i = c.lo(q)
                    l.append((r.choice(("sql refresh partition %d" % i, "sql move partition %d into %s" % (i, r.choice(c.names)), "sql show partitions", "sql show wal", "sql debug 'wal_gc'", "sql debug 'wal_create'")), None))
            threads.append(l)
        try: res = c.run(threads, r.choice((None, (20, 200))), stall=6)
        except Viol as v:
            if v.key == "stuck": raise Viol("blocked", "threads working on other partitions than the one a cursor stands in do not proceed: %s" % v.detail)
            raise
        ops = c.history(threads, res, SOFT)
        for q in others:
            bad = check(ops[q], c.init[q])
            if bad: raise Viol("not-linearizable", bad)
        rest = parse_events(db.m.ok("cw 5 %d" % (len(want) - k - 1)))   # not leaving the partition yet
        if got + rest != want[:-1]: raise Viol("cursor-unstable", diff(got + rest, want[:-1]))
        last = parse_events(db.m.ok("cr 5"))
        if last != want[-1:]: raise Viol("cursor-unstable", "last event %s, expected %s" % (last, want[-1:]))
        # writers into the partition of the cursor wait for it; it leaves through a bounded sleep in another thread
        db.m.ok("cc 5"); ctx.add("parked"); ctx.add("parked_ops", len(res))
        fin = db.scan()
        for q in range(c.np):
            st = {(i, k): v for i, k, v in fin if c.pid(i) == q}
            now = max([o.t1 for o in ops[q]] + [0]) + 1
            bad = check(ops[q] + [Op(now, now + 1, "r", ((c.lo(q), ""), sorted((i, k, v) for (i, k), v in st.items()), True), 99, 0)], c.init[q])
            if bad: raise Viol("not-linearizable", bad)
            c.init[q] = st
        # one thread stands in p for a while, the others want it
        hold = r.choice((2000, 20000, 60000))
        th = [[("co 0 %d %s" % (start[0], kx(start[1])), ("co", start[:2])), ("sleep %d" % hold, None), ("cw 0 %d" % r.choice((1, 1000)), ("cw",)), ("sleep 1000", None), ("cc 0", ("cc",))]]
        for t in range(r.randint(1, 4)):
            th.append([("sleep 300", None)] + [r.choice((c.writer(1, [p])[0], ("sql refresh partition %d" % c.lo(p), None), ("sql move partition %d into %s" % (c.lo(p), r.choice(c.names)), None), ("sql checkpoint", None))) for _ in range(r.randint(1, 4))])
        res = c.run(th, None)
        ops = c.history(th, [x for x in res if x[0]], SOFT)
        collect(c, 0, sorted((x for x in res if x[0] == 0), key=lambda x: x[1]), th, ops)
        ctx.add("waited", sum(1 for x in res if x[0] and x[3] - x[2] > hold * 500))
        c.decide(ops, "waiting for a cursor", "cursor-unstable")
    db.kill(); db.start(); db.check_scan("reopen", "lost"); ctx.add("reopen_checks"); db.stop(); db.m.close()

def own(ctx, case):
    """a cursor and writes of its own thread in the same partition, while others write there too"""
    c = Conc(ctx, case, "c20o", case["variant"]); r, db = c.r, c.db; c.own = True
    for rnd in range(case["rounds"]):
        threads = []
        for t in range(case["threads"]):
            l = []
            if t < 1:
                for _ in range(case["n"] // 6):
                    p = r.randrange(c.np)
                    l.append(("co 0 %d -" % c.lo(p), ("co", (c.lo(p), ""))))
                    for _ in range(r.randint(1, 4)):
                        if r.random() < .5: l.append(("cw 0 1", ("cw",)))
                        if r.random() < .6: l += c.writer(1, [p])
                    l.append(("cc 0", ("cc",)))
            else:
                for _ in range(case["n"]): l += c.writer(1) if r.random() < .8 else [c.admin(dict(refresh=3, move=1))]
            threads.append(l)
        res = c.run(threads, r.choice((None, (20, 200))))
        ops = c.history(threads, [x for x in res if not threads[x[0]][x[1]][0].startswith("c")], SOFT)
        # a writer holding a cursor in p: between its open and its close nobody else changes p
        for t in range(1):
            rows = sorted((x for x in res if x[0] == t), key=lambda x: x[1]); cur = None
            for _, idx, t0, t1, ok, text in rows:
                line, meta = threads[t][idx]
                if not ok: raise Viol("command-error", "%r: %s" % (line, text))
                if meta and meta[0] == "co": cur = [meta[1], t1, None, {}, []]
                elif meta and meta[0] == "w" and cur: cur[3].update({(i, k): (None if f & 1 else v) for f, i, k, v in meta[2]})
                elif meta and meta[0] == "cw" and cur:
                    for e in parse_events(text.replace("end\n", "")):
                        if c.pid(e[0]) != c.pid(cur[0][0]): continue
                        v = cur[3].get((e[0], e[1]), 0)
                        if v != 0: ctx.add("own_reads")
                        cur[4].append((e, dict(cur[3])))
                elif meta and meta[0] == "cc": cur = None
        c.decide(ops, "writers with an open cursor", "not-linearizable")
    db.kill(); db.start(); db.check_scan("reopen", "lost"); ctx.add("reopen_checks"); db.stop(); db.m.close()

def fn(ctx, case): {"mixed": mixed, "parked": parked, "own": own}[case["mode"]](ctx, case)

def cases():
    n = 720 if not THOROUGH else 4000
    out = []
    for k in range(n):
        v = "asan" if k % 7 == 6 else "plain"
        if k % 6 == 4: out.append(dict(seed=k, mode="parked", threads=(2, 4)[k % 2], n=20, rounds=3, variant=v))
        elif k % 12 == 5: out.append(dict(seed=k, mode="own", threads=(3, 5)[k % 2], n=24, rounds=2, variant=v))
        else: out.append(dict(seed=k, mode="mixed", threads=(3, 4, 6, 8)[k % 4], walkers=(1, 2, 3)[k % 3], n=40, rounds=2, variant=v, drop=k % 3 == 0, cloud=k % 5 == 2))
    return out

if __name__ == "__main__":
    c = Check("C20", "exploration", variants=("plain", "asan"))
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), procs=6, budget=800 if THOROUGH else 150)
    c.finish("one case = threads with slowly walking cursors among threads that write, refresh, move, drop and transfer the same partitions; everything a cursor returned for a partition must equal the partition at one "
             "moment of the command with which the cursor entered it; plus parked cursors with other threads at work in other partitions (must not wait) and in the same one (must go on afterwards)",
             need=("overlapping_ops", "slow_walks", "walks_to_end", "partitions_left", "parked", "waited", "reopen_checks"))
