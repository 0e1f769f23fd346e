import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *
import time as tm

# One command (or background job) is stopped inside a file call of its partition and is not let go until other threads have
# finished reading and writing. Whatever waits for it can only be told from what does not by being stuck.
ANY = sum(IP.values()) & ~IP["OPENDIR"]

def setup(ctx, case):
    r = rng_of(case, "c34")
    step = 100
    sets = ["interval to %d" % step, "mm_page_size to 65536", "wal to %s" % ("true" if case["wal"] else "false"), "wal_crc to %s" % r.choice(("true", "false")),
            "wal_sync_on_write to %s" % r.choice(("true", "false")), "wal_rotate_wm to %d" % (1 if case["kind"] in ("rotate", "gc") else 1 << 20)]
    db = Db(ctx, r, case.get("variant", "plain"), sets, workers=case["workers"], workers_upload=0); db.wal = case["wal"]
    db.start()
    if case["cloud"]: db.sql("create cloud c (type 'mock')")
    def opts(local):
        o = ["region_size %d" % r.choice((100, 1000, 131072)), "compression '%s'" % r.choice(("zstd", "lz4", "")), "crc %s" % r.choice(("true", "false")), "sync %s" % r.choice(("true", "false"))]
        if r.random() < .3: o += ["encryption 'aes'", "encryption_key '0123456789abcdef0123456789ABCDEF'"]
        if not local and case["cloud"]: o += ["cloud 'c'", "cloud_drop_local %s" % ("true" if case["dropl"] else "false")]
        return ", ".join(o)
    db.sql("alter storage main set (%s)" % opts(False))
    db.sql("create storage s1 (%s)" % opts(True))
    db.sql("create storage s2 (%s)" % opts(False))
    if case["pipe"]: db.sql("alter pipeline set main (partitions %d), s1" % case["np"])
    g = Gen(r, step, ids="shuffle", limit=case["np"] * step, vals=r.choice(("tiny", "small", "mixed")), keys=r.choice(("none", "short")), maxval=3000)
    for k in range(case["np"]): db.write([(0, k * step + r.randrange(step), "", "h01")])
    for _ in range(r.choice((2, 6))): db.write(g.batch(r.choice((5, 40)), db.live(), delete=.1))
    return r, db, g, step

def fill(db, r, lo, hi, n, keys=("", "aa", "ab")):
    return [(0, r.randrange(lo, hi + 1), r.choice(keys), "h%08x" % r.getrandbits(32)) for _ in range(n)]

class Side:
    """commands of the threads which must not be kept waiting, with the answers they have to give"""
    def __init__(self, db, r, parts, A, same, write, ctx):
        self.db, self.r, self.A, self.same, self.wr, self.ctx = db, r, A, same, write, ctx
        self.parts = parts; self.lines = []; self.want = []
    def span(self):
        ps = [p for p in self.parts if self.same or p["min"] != self.A["min"]]
        return self.r.choice(ps)
    def put(self, text, want): self.lines.append(text); self.want.append(want)
    def events(self, lo, hi): return [(i, k, v) for (i, k), v in sorted(self.db.model.items()) if lo <= i <= hi]
    def step(self):
        r = self.r; x = r.random(); p = self.span(); a = self.A
        what = "same" if p["min"] == a["min"] else "other"
        if x < .4 and self.wr:
            if r.random() < .3 and self.same:
                e = fill(self.db, r, 0, self.parts[-1]["max"], r.choice((2, 10)))
            elif r.random() < .15 and not self.case["pipe"]:
                lo = self.parts[-1]["max"] + 1 + self.new * 100; self.new += 1       # a partition is made
                e = fill(self.db, r, lo, lo + 99, r.choice((1, 5))); self.ctx.add("partitions_made")
            else: e = fill(self.db, r, p["min"], p["max"], r.choice((1, 5, 30)))
            if r.random() < .2: e = [(1, i, k, "-") if r.random() < .5 else (f, i, k, v) for f, i, k, v in e]
            self.put(fmt_events(e), ("w", None)); self.db.apply(e); self.ctx.add("writes_" + what)
        elif x < .5 and self.same:
            self.put("scan -1", ("events", self.events(0, U64))); self.ctx.add("scans_during")
        elif x < .9:
            ev = self.events(p["min"], p["max"])
            if not ev: return
            k = r.randrange(len(ev)); n = len(ev) - k        # the last one is read without going on to the next partition
            s = r.randrange(3); i, key, _ = ev[k]
            self.put("co %d %d %s" % (s, i, kx(key)), ("ok", None))
            if n > 1 and r.random() < .8:
                self.put("cw %d %d" % (s, n - 1), ("events", ev[k:-1])); self.put("cr %d" % s, ("events", ev[-1:]))
            else: self.put("cr %d" % s, ("events", ev[k:k + 1]))
            self.put("cc %d" % s, ("ok", None)); self.ctx.add("reads_" + what)
        elif x < .95: self.put("sql show " + r.choice(("partitions", "storages", "all", "wal", "memory")), ("ok", None)); self.ctx.add("shows")
        elif what == "other" and self.maint: 
            self.put("sql refresh partition %d" % p["min"], ("ok", None)); self.ctx.add("refresh_other")
        else: self.put("sleep 200", ("ok", None))

def run(ctx, case):
    r, db, g, step = setup(ctx, case)
    kind = case["kind"]
    if kind not in ("rotate", "gc") or r.random() < .5:
        for p in db.parts():
            if r.random() < .7 or kind in ("download", "read", "dropl", "dropc"): db.sql("refresh partition %d" % p["min"])
    parts = sorted(db.parts(), key=lambda p: p["min"])
    A = parts[0] if kind == "rebalance" else r.choice(parts)
    lo, hi = A["min"], A["max"]
    name = "%020d" % lo; mask = ANY; same, write, maint, busy = True, True, True, False
    nth = r.choice((1, 1, 2, 3, 4, 5, 6, 8))
    clouded = case["cloud"]
    if kind == "refresh":
        db.write(fill(db, r, lo, hi, 3)); cmd = r.choice(("sql refresh partition %d" % lo, "sql refresh partitions between %d and %d" % (lo, hi)))
    elif kind == "move": cmd = "sql move partition %d into %s" % (lo, "s1" if A["storage"] != "s1" else "s2")
    elif kind == "upload":
        db.sql("alter storage main set (cloud_drop_local false)"); db.write(fill(db, r, lo, hi, 2))
        db.sql("refresh partition %d" % lo); db.trysql("drop partition %d on cloud" % lo); cmd = "sql upload partition %d" % lo
    elif kind == "download":
        db.trysql("upload partition %d" % lo); db.trysql("drop partition %d on storage" % lo); cmd = "sql download partition %d" % lo
    elif kind == "drop": cmd = "sql drop partition %d" % lo; same = False
    elif kind == "dropl": cmd = "sql drop partition %d on storage" % lo; same = False; db.trysql("upload partition %d" % lo); db.trysql("download partition %d" % lo)
    elif kind == "dropc": cmd = "sql drop partition %d on cloud" % lo; same = False; db.trysql("download partition %d" % lo)
    elif kind == "read": cmd = "scan 5 %d -" % lo; mask = IP["READ"]; same = False; nth = r.choice((1, 1, 2))
    elif kind == "seek": cmd = "co 9 %d aa" % (lo + r.randrange(step)); mask = IP["READ"]; same = False; nth = 1
    elif kind == "wal": cmd = fmt_events(e0 := fill(db, r, lo, hi, 4)); name = "/wal/"; mask = IP["WRITE"] | IP["SYNC"]; same, write, maint = False, False, True; nth = 1
    elif kind == "checkpoint":
        db.write(fill(db, r, lo, hi, 3)); cmd = "sql checkpoint"; maint = False
    elif kind == "rebalance":           # one partition more than the first tier may have
        cmd = fmt_events(e0 := fill(db, r, case["np"] * step, case["np"] * step + step - 1, 3)); maint = False
    elif kind in ("rotate", "gc"): name = "/wal/"; mask = IP["OPENW"] | IP["SYNC"] if kind == "rotate" else IP["UNLINK"]; nth = 1; cmd = "sql debug 'wal_create'" if kind == "rotate" else "sql debug 'wal_gc'"; write = kind == "gc"; maint = False
    # what removes the local or cloud copy keeps readers of this very partition out until it is gone
    if clouded and kind in ("refresh", "move", "checkpoint", "rebalance") and same:
        mask &= ~IP["UNLINK"]
    if kind == "gc":
        for _ in range(4): db.write(fill(db, r, lo, hi, 2)); db.sql("debug 'wal_create'")
        for p in db.parts(): db.sql("refresh partition %d" % p["min"])
    parts = sorted(db.parts(), key=lambda p: p["min"])
    if kind == "read": first = [(i, k, v) for (i, k), v in sorted(db.model.items()) if i >= lo][:5]
    if kind in ("wal", "rebalance"): db.apply(e0)
    # ---- the other threads: one which reads and writes, one which only reads
    S = Side(db, r, parts, A, same, write, ctx); S.case, S.new, S.maint = case, 0, maint and not clouded and not case["pipe"]
    S.put("holdwait 1500", ("held", None))
    model0 = dict(db.model)
    cur = kind in ("refresh", "move", "checkpoint") and same and not clouded and r.random() < .5
    n = r.choice((3, 8, 15))
    for k in range(n): S.step()
    if cur:     # a cursor is opened in the partition while it is maintained; the rest goes on when maintenance waits for the cursor
        ev = S.events(lo, hi)
        if ev:
            S.put("co 8 %d %s" % (ev[0][0], kx(ev[0][1])), ("ok", None)); S.put("cr 8", ("events", ev[:1])); S.put("release", ("ok", None)); S.put("sleep %d" % r.choice((0, 2000, 20000)), ("ok", None))
            old = S.same
            S.same, S.maint = False, False
            for k in range(n): S.step()
            S.put("cw 8 %d" % (len(ev) - 1), ("events", ev[:-1])); S.put("cr 8", ("events", ev[-1:])); S.put("cc 8", ("ok", None)); ctx.add("maintenance_waits_for_cursor")
            S.same = old
        else: S.put("release", ("ok", None))
    else: S.put("release", ("ok", None))
    lines = ["0 " + cmd]
    if not case["workers"]:
        if kind == "rebalance": lines += ["0 sql service"] * 6
        lines.append("0 holdover")
    if kind == "seek": lines.append("0 cc 9")
    lines += ["1 " + x for x in S.lines]
    beside = {}         # another reader
    if not write:
        for p in [p for p in parts if p["min"] != lo][:2]:
            ev = [(i, k, v) for (i, k), v in sorted(model0.items()) if p["min"] <= i <= p["max"]]
            if len(ev) > 1: lines += ["2 holdwait 1500", "2 scan %d %d -" % (len(ev) - 1, p["min"])]; beside[len([x for x in lines if x[0] == "2"]) - 1] = ev[:-1]
    inp, outp = os.path.join(ctx.dir, "in"), os.path.join(ctx.dir, "out")
    open(inp, "w").write("\n".join(lines) + "\n")
    db.m.ok("ip root " + db.path); db.m.ok("ip hold %s %d %d" % (name, mask, nth))
    why = "%s held at call %d (%s) of the file of partition %d" % (cmd[:60], nth, name[-30:], lo)
    try: ok, t = db.m.cmd("par %s %s %d" % (inp, outp, 15))
    except Dead as e:
        if e.rc == 78: raise Viol("stuck", "%s: the other threads do not go on: %s" % (why, e))
        raise
    if not ok: raise Viol("stuck", "%s: %s; thread 1 runs %s; before: %s" % (why, t, stuck_at(t, S.lines), db.trail[-8:]))
    db.m.ok("ip hold - 0 0"); db.m.ok("ip off")
    held = None; idx = 0
    for l in open(outp):
        f = l.split(" ", 5); text = bytes.fromhex(f[5].strip()).decode("latin1") if f[5].strip() != "-" else ""
        if f[0] == "0":
            if f[4] != "1": raise Viol("maintenance", "%s: failed: %s; before: %s" % (why, text, db.trail[-8:]))
            if kind == "read" and f[1] == "0" and parse_events(text) != first: raise Viol("read", "%s: %s" % (why, diff(parse_events(text), first)))
        elif f[0] == "2":
            v = beside.get(int(f[1]))
            if f[4] != "1": raise Viol("command-error", "%s: reader: %s" % (why, text))
            if v is not None and parse_events(text) != v: raise Viol("read", "%s: reader: %s" % (why, diff(parse_events(text), v)))
        elif f[0] == "1":
            w, v = S.want[int(f[1])]
            if f[4] != "1": raise Viol("command-error", "%s: %r: %s" % (why, S.lines[int(f[1])][:100], text))
            if w == "held":
                held = text
            elif w == "events" and parse_events(text.replace("end\n", "")) != v:
                raise Viol("read", "%s (%s): %r: %s" % (why, held, S.lines[int(f[1])][:100], diff(parse_events(text.replace("end\n", "")), v)))
            ctx.add("commands")
    if held:
        ctx.add("held"); k, p = held.split(" ", 1)
        ctx.see("held_at", "%s %s %s" % (kind, [n for n, b in IP.items() if b == 1 << int(k)][:1], "".join(c for c in os.path.basename(p) if not c.isdigit()) or "file"))
    else: ctx.add("not_held")
    if kind == "drop":
        for (i, k) in [x for x in db.model if lo <= x[0] <= hi]: del db.model[(i, k)]
        db.live_cache = None
    db.check_scan(why)
    db.check_seeks(4)
    if case["wal"]:
        db.reopen(); db.check_scan(why + " reopened")
    ctx.sample = {"command": cmd[:80], "held": held}
    db.stop(); db.m.close()

def busy(ctx, case):
    """workers: one of them is stopped in its partition, the others do the rest of the work"""
    r = rng_of(case, "c34b"); nw, nu = case["pool"]
    sets = ["interval to 100", "mm_page_size to 65536", "wal to %s" % ("true" if case["wal"] else "false"), "wal_rotate_wm to %d" % r.choice((300, 1 << 20))]
    db = Db(ctx, r, case.get("variant", "plain"), sets, workers=nw, workers_upload=nu); db.wal = case["wal"]; db.start()
    db.sql("create cloud c (type 'mock')"); db.sql("create storage sc (cloud 'c', cloud_drop_local %s, refresh_wm 1)" % r.choice(("true", "false")))
    db.sql("alter storage main set (refresh_wm 1, region_size %d)" % r.choice((100, 131072)))
    n = r.choice((4, 6)); np = [k * 100 for k in range(n)]
    up = nu and (nw == 1 or r.random() < .6)
    for lo in np: db.write(fill(db, r, lo, lo + 99, 3))
    def wait(f, what, secs=20):
        end = tm.time() + secs
        while True:
            x = f()
            if not x: return
            if tm.time() > end: raise Viol("stuck", "%s after %d s; workers %s, %s held; before %s" % (what, secs, case["pool"], held, db.trail[-10:]))
            tm.sleep(.002)
    held = None
    def heap(ms): 
        def f():        # a partition written while it is refreshed is refreshed by the next write
            x = [p for p in db.parts() if p["min"] in ms and p["size_heap"]]
            for p in x: db.write([(0, p["min"] + r.randrange(100), "", "h%04x" % r.randrange(65536))])
            return x
        return f
    wait(heap(np), "not refreshed")
    cl = r.sample(np, r.choice((2, 3))) if up else []
    for lo in cl: db.sql("move partition %d into sc" % lo)
    db.reopen()         # nothing is queued when the workers start again
    A = r.choice(cl) if up else r.choice(np)
    mask = ANY & ~IP["UNLINK"]
    db.m.ok("ip root " + db.path)
    # an upload holds one upload worker; a refresh one of the others
    db.m.ok("ip hold %s %d %d" % ("mock/%020d" % A if up else "%020d" % A, IP["OPENW"] | IP["WRITE"] | IP["SYNC"] if up else mask, r.choice((1, 1, 2, 3)) if not up else 1))
    db.write(fill(db, r, A, A + 99, 2))
    held = db.m.ok("holdwait 4000")
    ctx.add("worker_held" if held else "worker_not_held")
    # (uploads pile up behind the one which is held when it has the only upload worker)
    for lo in cl:
        if lo != A: db.write(fill(db, r, lo, lo + 99, 2))
    rest = [lo for lo in np if lo != A and lo not in cl]
    for rnd in range(r.choice((1, 3))):
        for lo in rest: db.write(fill(db, r, lo, lo + 99, 2))
        wait(heap(rest), "partitions %s wait for a worker which is not theirs" % rest); ctx.add("done_beside", len(rest))
    if up and nu > 1:
        def placed(): return [p["min"] for p in db.parts() if p["min"] in cl and p["min"] != A and not p["on_cloud"]]
        wait(placed, "uploads wait for another one, an upload worker is free"); ctx.add("uploaded_beside")
    if held and up or not up:
        db.write(fill(db, r, A, A + 99, 3)); db.check_scan("while %s" % held)
    db.m.ok("release"); db.m.ok("ip off")
    wait(heap(np), "not refreshed after the release")
    if up:
        def placed(): return [p["min"] for p in db.parts() if p["min"] in cl and not p["on_cloud"]]
        wait(placed, "not uploaded after the release")
    db.check_scan("all done")
    if db.wal: db.reopen(); db.check_scan("all done, reopened")
    db.stop(); db.m.close()
    ctx.sample = {"pool": case["pool"], "held": held}

def stuck_at(t, lines):
    import re
    m = re.search(r"thread 1 at op (\d+)", t)
    return repr(lines[int(m.group(1))][:120]) if m and int(m.group(1)) < len(lines) else None

KINDS = ("refresh", "move", "upload", "download", "drop", "dropl", "dropc", "read", "seek", "wal", "checkpoint", "rebalance", "rotate", "gc")
def cases():
    out = []; n = 0
    per = 300 if THOROUGH else 70
    for k in KINDS:
        for j in range(per if k in ("refresh", "move", "checkpoint", "upload", "download") else per * 2 // 3):
            n += 1; r = __import__("random").Random(SEED * 7919 + n)
            cloud = k in ("upload", "download", "dropl", "dropc") or (k not in ("drop", "read", "seek", "wal", "rotate", "gc") and r.random() < .35)
            w = r.choice((1, 2)) if k in ("checkpoint", "rebalance") else 0
            pipe = k == "rebalance"
            out.append(dict(seed=SEED * 100003 + n, kind=k, wal=k in ("wal", "rotate", "gc") or r.random() < .8, cloud=cloud, dropl=r.random() < .5 and k not in ("upload",), workers=w if k != "rebalance" else r.choice((0, 1)),
                            pipe=pipe, np=r.choice((2, 3, 5)), variant="asan" if n % 7 == 0 else "plain"))
    for j in range(60 if not THOROUGH else 300):
        out.append(dict(seed=SEED * 100003 + 50000 + j, kind="busy", pool=((2, 0), (3, 0), (1, 1), (1, 2), (2, 2))[j % 5], wal=j % 4 != 0, variant="asan" if j % 7 == 0 else "plain"))
    return out

def fn(ctx, case): (busy if case["kind"] == "busy" else run)(ctx, case)

if __name__ == "__main__":
    c = Check("C34", "exploration", variants=("plain", "asan"))
    one_ = replay_case(sys.argv)
    c.run(fn, [one_] if one_ else cases(), budget=800 if THOROUGH else 150)
    c.finish("one case = a random database, then one maintenance command (or worker job, WAL write, WAL rotation, partition read) stopped inside its n-th file call and not let go until another thread has finished a random list of reads, cursor walks, "
             "writes, SHOW commands and refreshes: of any partition where only the service lock may be held, of the other partitions where the partition itself may be locked. A command which waits for the stopped one leaves the run stuck, which is the violation; "
             "every answer given meanwhile, and the contents afterwards and after a reopen, are compared with the model",
             ["what is allowed to wait (exclusive commands: SET, schema, drop of the reference; readers of a partition whose file is being dropped; writers behind a WAL write) is not asked to proceed", "cursor order deadlocks of the application are not generated"], None, need=("held", "reads_same", "reads_other", "writes_same", "writes_other", "worker_held", "done_beside", "uploaded_beside"))
