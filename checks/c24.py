import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import json, re
from crash import *
from c06 import setup, maint, Rec, safe_again, unarm_errors
from schema import Schema

ALL = 8191
KNAME = "openw openr read write sync trunc rename unlink mkdir rmdir opendir mmap close".split()

def site(kind, path):
    """class of a call: kind and kind of file"""
    f = os.path.basename(path)
    if path.endswith(".wal"): c = "wal"
    elif f.startswith("config.json"): c = f
    elif re.match(r"\d{20}", f): c = ("mock" if "/mock/" in path else "part") + f[20:]
    elif f in ("log", "lock", "mmap"): c = f
    else: c = "dir"
    return KNAME[kind] + " " + c

def parse_trace(t):
    out = []
    for l in t.splitlines():
        k, n, p = l.split(" ", 2); out.append((int(k), int(n), p))
    return out

def table(db, op=None):
    return [(p["min"], p["max"], p["storage"], p["on_storage"], p["on_cloud"], p["events"] - p["events_heap"], p["events_heap"]) for p in db.parts()]

def schema_of(db):
    st = {}
    for k, v in db.js("show storages").items(): st[k] = {a: b for a, b in v["config"].items() if a != "uuid" or k == "main"}
    return dict(storages=st, clouds=db.js("show clouds"), pipeline=db.js("show pipeline") or [], config={k: v for k, v in db.js("show config").items() if k not in ("lsn", "ssn", "directory")})

def choose(db, r, g, case):
    """one operation: (kind, text or events, ...)"""
    k = case["op"]
    if k == "w": return ("w", g.batch(r.choice((1, 1, 3, 40, 200)), db.live(), rehit=.4, delete=.2))
    if k in ("scan", "seek", "open", "close", "show"): return (k,)
    if k == "drop":
        ps = db.parts()
        if not ps: return None
        if r.random() < .5: p = r.choice(ps); return ("drop", "drop partition if exists %d" % p["min"], [(p["min"], p["max"])])
        ps = ps[:4]; return ("drop", "drop partitions between %d and %d" % (ps[0]["min"], ps[-1]["max"]), [(p["min"], p["max"]) for p in ps])
    if k == "ddl":
        st = [s for s in db.storages()]
        return ("ddl", r.choice(["create cloud new (type 'mock')", "create storage new", "create storage new (path 'dir', region_size 100)", "create storage new (cloud 'cx', cloud_drop_local true)", "alter storage %s set (region_size 777)" % r.choice(st),
            "alter storage ex set (path 'other')", "alter storage ex set (cloud 'cx')", "alter storage ex rename to ey", "alter cloud cx rename to cy", "drop storage ex", "drop cloud cx", "alter pipeline set ex (partitions 3), main", "alter pipeline set main", "alter pipeline reset",
            "set interval to 77", "set wal_rotate_wm to 12345", "set compression to 'lz4'"]))
    rec = Rec(db)
    for _ in range(20):
        maint(db, r, case)
        o = [x for x in rec.out if x[0] == "sql" and x[1].split()[0] != "set" and "debug" not in x[1] or x[0] == "sql" and "wal_" in x[1]]
        if o and not any(x[0] == "try" for x in rec.out): rec.stop(); return ("sql", o[-1][1])
        del rec.out[:]
    rec.stop(); return None

def attempt(d, op):
    """(ok, text) of the command itself"""
    if op[0] == "w": return d.m.cmd(fmt_events(op[1]))
    if op[0] in ("sql", "ddl", "drop"): return d.m.cmd("sql " + op[1])
    if op[0] == "show": return d.m.cmd("sql show partitions")
    if op[0] == "scan": return d.m.cmd("scan -1")
    if op[0] == "seek":
        x = d.sorted(); e = x[len(x) // 2] if x else (5, "")
        return d.m.cmd("scan 5 %d %s" % (e[0], kx(e[1])))
    if op[0] == "close": return d.m.cmd("free")
    if op[0] == "open": return d.m.cmd("open " + d.path)
    raise Exception(op)

def bring_up(d, op, prelude):
    if op[0] == "open":
        d.m = d.m or d.ctx.mnx(d.variant, env=d.env, timeout=d.timeout)
        d.m.ok("init")
        for s in d.sets: d.m.sql("set " + s)
    else:
        d.start()
        for e in prelude: d.write(e)
        if d.extra: d.sql("create cloud cx (type 'mock')"); d.sql("create storage ex")

def after(model, evs):
    m = dict(model)
    for f, i, k, v in evs:
        if f & 1: m.pop((i, k), None)
        else: m[(i, k)] = v
    return m

BACK = ("service", "checkpoint", "rebalance")

def partial(ctx, case):
    """transfers which stop early or are interrupted by a signal: nothing is to be seen of it"""
    r = rng_of(case, "partial")
    def on(db):
        db.pre = ("ip root " + db.path, "ip partial %d %d" % (case["pm"], r.randrange(1 << 30)))
        for p in db.pre: db.m.ok(p)
    _, db, g = setup(ctx, case); db.variant = case["variant"]
    db.reopen(True); on(db)
    n = 0
    for i in range(case["steps"]):
        x = r.random()
        if x < .4: db.write(g.batch(r.choice((1, 1, 3, 30, 200)), db.live(), rehit=.4, delete=.2))
        elif x < .75: maint(db, r, case)
        elif x < .8: db.check_seeks(4)
        elif x < .86:
            if not db.wal: db.op_refresh_all()
            n += int(db.m.ok("ip partials"))
            db.reopen(r.random() < .5); ctx.add("reopened")
            n -= int(db.m.ok("ip partials"))
        elif x < .9 and db.wal: n += int(db.m.ok("ip partials")); db.kill(); db.start(); ctx.add("killed_after")
        if r.random() < .3: db.check_scan("transfers in parts", "partial-transfer")
    unarm_errors(db)
    db.check_scan("transfers in parts", "partial-transfer"); db.op_refresh_all(); db.check_scan("transfers in parts, refreshed", "partial-transfer")
    n += int(db.m.ok("ip partials"))
    db.pre = (); db.reopen(True); db.check_scan("transfers in parts, reopened", "partial-transfer")
    ctx.add("partial_transfers", n)
    db.stop(); db.m.close()

def fn(ctx, case):
    if case["op"] == "partial": return partial(ctx, case)
    r, base, g = setup(ctx, case)
    base.variant = case["variant"]
    prelude = [g.batch(r.choice((1, 6)), base.live(), rehit=.3, delete=.1) for _ in range(r.choice((0, 1, 2)))] if case["wal"] else []
    if r.random() < .3: base.sql("set wal_rotate_wm to %d" % r.choice((1, 200)))
    base.extra = case["op"] == "ddl"
    sync = case.get("sync")
    base.stop(); base.m.close(); base.m = None
    d = clone(base, "plan"); d.extra = base.extra; d.start()
    for e in prelude: d.write(e)
    if d.extra: d.sql("create cloud cx (type 'mock')"); d.sql("create storage ex")
    op = choose(d, r, g, case); d.stop(); d.m.close()
    if op is None: ctx.add("no_operation"); return
    # dry run
    d = clone(base, "dry"); d.extra = base.extra; bring_up(d, op, prelude)
    before = dict(d.model)
    schema0 = schema_of(d) if op[0] == "ddl" else None
    d.m.ok("ip root " + d.path); d.m.ok("ip reset"); d.m.ok("ip trace 1")
    ok, t = attempt(d, op)
    tr = parse_trace(d.m.ok("ip dump")); d.m.ok("ip trace 0"); d.m.ok("ip off")
    if not ok: ctx.add("refused_op"); d.m.drop(); return
    if op[0] == "close": d.start()
    tab1 = table(d); schema1 = schema_of(d) if op[0] == "ddl" else None
    allowed = [before]
    if op[0] == "w": done = after(before, op[1])
    elif op[0] == "drop": done = {x: v for x, v in before.items() if not any(lo <= x[0] <= hi for lo, hi in op[2])}
    else: done = before
    d.model = dict(done); d.live_cache = None; d.check_scan("without a fault", "plain"); d.stop(); d.m.close()
    # points: every class of call, then others
    pts = list(range(len(tr))); r.shuffle(pts)
    seen = set(); first = []; rest = []
    for i in pts:
        s = site(tr[i][0], tr[i][2]); (rest if s in seen else first).append(i); seen.add(s)
    pts = (first + rest)[:case["points"] or None]
    ctx.add("calls", len(tr))
    late = None
    for i in pts:
        kind, size, path = tr[i]; s = site(kind, path)
        short = kind == 3 and r.random() < .4
        err = r.choice((5, 28, 5, 4, 24) if kind in (0, 8) else (5, 28) if kind in (3, 4, 6) else (5,)) if kind != 11 else 12
        late = one(ctx, case, r, base, op, prelude, i + 1, s, err, short, before, done, tab1, schema0, schema1, g) or late
    ctx.sample = {"op": str(op)[:200], "calls": [site(a, c) for a, b, c in tr][:40]}
    if late: raise late

def one(ctx, case, r, base, op, prelude, nth, s, err, short, before, done, tab1, schema0, schema1, g):
    d = clone(base, "w"); d.extra = base.extra; bring_up(d, op, prelude)
    what = op[0] if op[0] in ("w", "scan", "seek", "open", "close", "show") else " ".join(op[1].split()[:2])
    why = "%s with %s failing (call %d, errno %d%s)" % (str(op[1] if len(op) > 1 else op[0])[:120], s, nth, err, ", short" if short else "")
    d.m.ok("ip root " + d.path); d.m.ok("ip fail %d %d %d 0 %d" % (nth, err, ALL, short))
    ok, t = attempt(d, op)
    fired = int(d.m.ok("ip fired")); d.m.ok("ip off")
    if not fired: ctx.add("not_reached"); d.m.drop(); return
    ctx.add("faults"); ctx.see("sites", what + ": " + s); ctx.add("fault_ok" if ok else "fault_error")
    if not ok and not t.strip(): raise Viol("no-message", why + ": an error without text")
    if op[0] == "open":
        if not ok:
            d.m.ok("free")
            try: d.start()
            except Viol as v: raise Viol("open-after-fault", why + ": next open failed: " + v.detail[:500])
    elif op[0] == "close":
        try: d.start()
        except Viol as v: raise Viol("open-after-fault", why + ": next open failed: " + v.detail[:500])
    # contents right after the fault
    d.note(why); d.model = dict(done if ok else before); d.live_cache = None
    if op[0] == "drop" and not ok: settle(d, allowed_after(d, op), why, "changed-by-fault")
    else: d.check_scan(why + " (%s)" % ("reported as success" if ok else t[:200]), "changed-by-fault")
    if ok and op[0] in ("scan", "seek"):
        got = parse_events(t)
        if op[0] == "scan" and got != d.sorted(): raise Viol("wrong-read", why + ": " + diff(got, d.sorted()))
    late = None
    if op[0] == "ddl":
        now = schema_of(d); want = schema1 if ok else schema0
        if now != want:
            v = Viol("schema-after-fault", "%s: %s; schema differs: %s" % (why, "success" if ok else t[:100], sdiff(want, now)))
            if ok or "config" not in s or now != schema1: raise v
            late = Viol("config-save:" + "-".join(op[1].split()[:2]), v.detail)   # the change is complete, in memory only
    elif ok and op[0] in ("sql", "w", "drop") and what not in BACK:
        if table(d) != tab1: raise Viol("incomplete-success", "%s was reported as success, partitions %s instead of %s" % (why, table(d), tab1))
    # a crash right now must change nothing either
    if r.random() < case.get("kill", .25) and case["wal"]:
        m0 = dict(d.model); d.kill()
        try: d.start()
        except Viol as v: raise Viol("open-after-fault", why + ", killed: " + v.detail[:500])
        d.check_scan(why + ", killed and opened", "changed-by-reopen"); ctx.add("killed_after")
        if op[0] == "ddl":
            now = schema_of(d); want = schema1 if ok else schema0
            if now != want and (ok or "config" not in s or now != schema1): raise Viol("schema-after-fault", "%s, killed: schema differs: %s" % (why, sdiff(want, now)))
    # again, without the fault
    elif late: pass
    elif not ok and op[0] not in ("open", "close"):
        if op[0] == "sql" and not safe_again(d, op[1]): ctx.add("no_repeat")
        else:
            ok2 = False
            for _ in range(r.choice((0, 0, 1, 2)) if op[0] != "ddl" else 0):        # another fault first
                n2 = r.choice((1, 1, 2, 3, r.randrange(1, nth + 3)))
                d.m.ok("ip root " + d.path); d.m.ok("ip fail %d %d %d 0 0" % (n2, r.choice((5, 28)), r.choice((ALL, MUTATE))))
                ok2, t2 = attempt(d, op); f2 = int(d.m.ok("ip fired")); d.m.ok("ip off"); ctx.add("faults_in_a_row", f2)
                why += ", repeated with call %d failing (%s)" % (n2, "ok" if ok2 else t2[:80]); d.note(why)
                if not ok2 and not f2: raise Viol("repeat-fails", why)
                d.model = dict(done if ok2 else d.model); d.live_cache = None
                if op[0] == "drop" and not ok2: settle(d, allowed_after(d, op), why, "changed-by-fault")
                else: d.check_scan(why, "changed-by-fault")
                if ok2 or op[0] == "sql" and not safe_again(d, op[1]): break
            if not ok2 and (op[0] != "sql" or safe_again(d, op[1])): ok2, t2 = attempt(d, op); ctx.add("repeated")
            elif not ok2: ok2 = None; ctx.add("no_repeat")
            if ok2 is False: raise Viol("repeat-fails", "%s failed with %r; again without a fault: %r; partitions %s" % (why, t[:150], t2[:300], table(d)))
            if ok2: d.model = dict(done); d.live_cache = None
            d.check_scan(why + "; repeated", "changed-by-repeat")
            if ok2 is None: pass
            elif op[0] == "ddl":
                now = schema_of(d)
                if now != schema1: raise Viol("schema-after-repeat", "%s, repeated: schema differs: %s" % (why, sdiff(schema1, now)))
            elif op[0] in ("sql", "w", "drop") and what not in BACK and table(d) != tab1: raise Viol("incomplete-repeat", "%s, repeated: partitions %s instead of %s" % (why, table(d), tab1))
    # life goes on
    unarm_errors(d)
    if case["wal"]: d.write(g.batch(r.choice((1, 8)), d.live(), rehit=.4, delete=.2))
    if r.random() < .5: d.op_refresh_all(); d.check_scan(why + "; refreshed", "changed-later")
    if not case["wal"]: d.op_refresh_all()
    if r.random() < .6 or not case["wal"]: d.reopen()
    else: d.kill(); d.start()
    if not case["wal"]: ctx.add("reopened_nowal")
    d.check_scan(why + "; reopened", "changed-by-reopen"); ctx.add("reopened")
    left = [f for f in d.files() if f.endswith((".incomplete", ".complete"))]
    if left:
        d.op_refresh_all(); left = [f for f in d.files() if f.endswith((".incomplete", ".complete"))]
        if left: raise Viol("leftover", "%s; reopened and refreshed, files %s remain" % (why, left))
    if op[0] == "ddl":
        now = schema_of(d)
        if now not in (schema0, schema1): raise Viol("schema-after-reopen", "%s, reopened: schema differs: %s" % (why, sdiff(schema0, now)))
    d.stop(); d.m.close()
    shutil.rmtree(d.path, ignore_errors=True)
    return late

def sdiff(a, b): return str({k: ({x: a[k][x] for x in a[k] if x not in b[k] or a[k][x] != b[k][x]} if isinstance(a[k], dict) else a[k], {x: b[k][x] for x in b[k] if x not in a[k] or a[k][x] != b[k][x]} if isinstance(b[k], dict) else b[k]) for k in a if a[k] != b[k]})[:700]

def cases():
    n = 480 if not THOROUGH else 6000
    ops = ("sql", "w", "sql", "open", "ddl", "sql", "drop", "sql", "scan", "w", "sql", "close", "sql", "seek", "sql", "ddl")
    return [dict(seed=k, op=ops[k % 16], wal=k % 7 != 3, cloud=k % 3 == 0, stor=k % 3, pipe=k % 4 == 1, points=10 if not THOROUGH else 60, variant="asan" if k % 12 == 5 else "plain") for k in range(n)] + [
        dict(seed=10 ** 6 + k, op="partial", pm=(20, 150, 500, 900)[k % 4], wal=k % 5 != 3, cloud=k % 2 == 0, stor=k % 3, pipe=k % 4 == 1, steps=60 if not THOROUGH else 200, variant="asan" if k % 9 == 5 else "plain") for k in range(n // 8)]

if __name__ == "__main__":
    c = Check("C24", "exploration", variants=("plain", "asan"))
    one_ = replay_case(sys.argv)
    c.run(fn, [one_] if one_ else cases(), budget=800 if THOROUGH else 120)
    c.finish("one case = a database state and one operation; its file system calls are listed in a run without faults, then the operation is run again from the same state once for each selected call with that call failing "
             "(EIO, ENOSPC, EINTR, EMFILE, ENOMEM or a short write), checked against the model, repeated without the fault, and reopened; in further cases any transfer is cut short or interrupted at random and nothing may be seen of it",
             need=("faults", "fault_error", "fault_ok", "repeated", "reopened", "killed_after", "partial_transfers"))
