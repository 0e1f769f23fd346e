import json, struct, sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *
from pfile import Pfile
from c17 import records

EV = struct.Struct("<QBBI")
def parse_log(data, interval):
    """[(lsn, 'w', [id..]) or (lsn, 'd', (min, max))]"""
    out = []
    for a, b in records(data):
        lsn, typ, cnt = struct.unpack_from("<QBI", data, a + 4)
        if typ == 0:
            o, ids = a + 21, []
            for _ in range(cnt):
                i, f, k, n = EV.unpack_from(data, o); ids.append(i); o += EV.size + n
            out.append((lsn, "w", ids))
        else:
            lo = struct.unpack_from("<Q", data, a + 21)[0]
            hi = struct.unpack_from("<Q", data, a + 29)[0] if b - a >= 37 else min(U64, lo + interval - 1)
            out.append((lsn, "d", (lo, hi)))
    return out

class Monitor:
    """follows the log directory and decides whether a removed file was still needed"""
    def __init__(self, db):
        self.db, self.ctx = db, db.ctx
        self.seen = {}          # file id -> records
        self.drops = []         # (lsn, min, max)
        self.gone = set()
        self.interval = json.load(open(os.path.join(db.path, "config.json"))).get("wal_interval") or db.js("show all")["interval"]
    def dir(self):
        d = os.path.join(self.db.path, "wal")
        return sorted(int(f.split(".")[0]) for f in os.listdir(d) if f.endswith(".wal")) if os.path.isdir(d) else []
    def read(self, i):
        return parse_log(open(os.path.join(self.db.path, "wal", "%020d.wal" % i), "rb").read(), self.interval)
    def files_lsn(self):
        """{min: (max, lsn)} of the partitions, lsn from their newest completed file"""
        db = self.db; lsn = {}
        for d, _, fs in os.walk(db.path):
            if d.endswith("/wal"): continue
            for f in fs:
                n, ext = f[:20], f[20:]
                if len(n) == 20 and n.isdigit() and (ext == "" or ext == ".complete" or "/mock/" in d + "/" and "incomplete" not in ext):
                    try: lsn[int(n)] = max(lsn.get(int(n), -1), Pfile(open(os.path.join(d, f), "rb").read()).index["lsn"])
                    except OSError: raise
                    except Exception: pass
        return {p["min"]: (p["max"], lsn.get(p["min"], -1)) for p in db.parts()}
    def look(self, why, shown=True):
        db, ctx = self.db, self.ctx
        now = self.dir()
        removed = [i for i in self.seen if i not in now]
        if removed:
            ctx.add("removed_files", len(removed))
            if now and min(now) < max(removed): raise Viol("order", "%s: removed %s, remaining %s: an older file is left behind" % (why, removed, now))
            # drops logged by now count as well
            for i in now:
                for x in self.read(i):
                    if x[1] == "d" and (x[0],) + x[2] not in self.drops: self.drops.append((x[0],) + x[2])
            fl = self.files_lsn()
            import bisect
            mins = sorted(fl)
            for i in removed:
                for lsn, k, v in self.seen[i]:
                    if k != "w": continue
                    for e in v:
                        p = bisect.bisect_right(mins, e) - 1
                        if p >= 0 and e <= fl[mins[p]][0] and fl[mins[p]][1] >= lsn: ctx.add("covered_by_file"); continue
                        if any(d[0] > lsn and d[1] <= e <= d[2] for d in self.drops): ctx.add("covered_by_drop"); continue
                        raise Viol("needed", "%s: file %d removed, its record lsn %d (id %d) is in no completed partition file (%s) and not dropped (drops %s); before %s" % (why, i, lsn, e, fl.get(mins[p]) if p >= 0 else None, self.drops, db.trail[-14:]))
                del self.seen[i]; self.gone.add(i)
        for i in now:
            if i in self.gone: raise Viol("name-reused", "%s: file %d appeared again" % (why, i))
            new = self.read(i); old = self.seen.get(i, [])
            if new[:len(old)] != old: raise Viol("rewritten", "%s: records of file %d changed" % (why, i))
            self.seen[i] = new
            for x in new[len(old):]:
                ctx.add("records")
                if x[1] == "d": self.drops.append((x[0],) + x[2]); ctx.add("drop_records")
        last = 0
        for i in sorted(self.seen):
            for x in self.seen[i]:
                if x[0] <= last or x[0] < i: raise Viol("lsn-order", "%s: record lsn %d in file %d follows lsn %d" % (why, x[0], i, last))
                last = x[0]
        if shown:
            w = db.js("show wal")
            if w["files"] != len(now) or now and w["lsn_min"] != now[0]: raise Viol("show-wal", "%s: SHOW WAL files %d lsn_min %d, on disk %s; before %s" % (why, w["files"], w["lsn_min"], now[:5], db.trail[-8:]))
            if w["lsn"] < last: raise Viol("show-wal", "%s: SHOW WAL lsn %d, last record %d" % (why, w["lsn"], last))
        ctx.add("looks"); ctx.see("wal_files", min(len(now), 12))
        return now
    def freed(self, why):
        """everything refreshed and the log rotated: one file is left"""
        db = self.db
        db.op_refresh_all()
        if any(p["events_heap"] for p in db.parts()): raise Viol("not-refreshed", "%s: events in memory after refresh" % why)
        self.look(why)
        db.op_rotate(); self.look(why); db.op_gc()
        now = self.look(why)
        if len(now) != 1: raise Viol("kept", "%s: everything is refreshed and the log rotated, but files %s remain; partitions %s; before %s" % (why, now, [(p["min"], p["events"], p["events_heap"]) for p in db.parts()][:6], db.trail[-14:]))
        self.ctx.add("freed")

def seq(ctx, case):
    r = rng_of(case, "c23")
    db = Db(ctx, r, case.get("variant", "plain"), ["interval to %d" % r.choice((5, 50, 3000)), "mm_page_size to %d" % r.choice((32768, 65536)), "wal_crc to %s" % r.choice(("true", "false")), "wal_rotate_wm to %d" % r.choice((1, 300, 3000, 1 << 30))])
    db.start()
    if case["cloud"]:
        db.sql("create cloud c (type 'mock')"); db.sql("create storage kk (cloud 'c', cloud_drop_local %s)" % r.choice(("true", "false")))
        if r.random() < .5: db.sql("alter pipeline set kk")
    else: db.sql("create storage kk")
    if r.random() < .5: db.sql("alter storage main set (refresh_wm %d)" % r.choice((1, 3000)))
    g = Gen(r, 100, ids=r.choice(("dense", "shuffle")), limit=300, keys=r.choice(("none", "short")), maxval=600)
    m = Monitor(db)
    ops = dict(write=20, bad=3, refresh=5, fail_refresh=5, rotate=4, gc=8, service=6, checkpoint=2, drop=2, move=2, cloud=2, reopen=1, kill=1.5, freed=.7, create=1, interval=.5, refresh_range=1, drop_range=.5, gcfail=1)
    if case["cloud"]: ops["cloud"] = 5
    for _ in range(case["steps"]):
        op = pick(r, ops)
        if op == "write":
            for _ in range(r.choice((1, 1, 4))): db.write(g.batch(r.choice((1, 1, 5, 30)), db.live(), rehit=.3, delete=.15)); m.look("write")
        elif op == "bad":
            # a write that fails after some of its events have been applied
            evs = g.batch(r.choice((1, 2, 4)), db.live(), rehit=.5, delete=.2); n = len(evs)
            if r.random() < .5:
                db.sql("set error_wal to true"); ok, t = db.m.cmd(fmt_events(evs)); db.sql("set error_wal to false")
            else:
                ok, t = db.m.cmd(fmt_events(list(evs) + [(0, r.randrange(300), "61" * 256, "h01")]))
            db.note("bad write")
            if ok: raise Viol("bad-write", "a write that must fail succeeded")
            ctx.add("failed_writes")
        elif op == "kill": db.kill(); db.start(); ctx.add("kills")
        elif op == "freed": m.freed("refresh all")
        elif op == "gcfail":
            if r.random() < .5: db.op_rotate(); db.op_refresh_all(); m.look("refresh"); db.write(g.batch(3, db.live())); db.op_rotate()
            db.m.ok("ip root " + db.path); db.m.ok("ip fail %d 5 %d 0 0 /wal/" % (r.choice((1, 1, 2, 3)), IP["UNLINK"])); ok, t = db.trysql("debug 'wal_gc'"); db.m.ok("ip off"); ctx.add("failed_gc", 0 if ok else 1)
        else: getattr(db, "op_" + op)()
        m.look(op); ctx.add("op_" + op)
        if r.random() < .05: db.check_scan(op)
    db.check_scan("end")
    db.kill(); db.start(); db.check_scan("after a crash"); m.look("restart")
    m.freed("end"); db.check_scan("refreshed"); db.kill(); db.start(); db.check_scan("refreshed, crashed")
    db.stop(); db.m.close()
    ctx.sample = {"case": case, "trail": db.trail[-12:]}

def conc(ctx, case):
    """writers, workers, rotation and garbage collection at once, with delays; the process is killed; nothing acknowledged may be missing and the log on disk must explain it"""
    r = rng_of(case, "c23c")
    w = r.choice((0, 1, 3))
    db = Db(ctx, r, case.get("variant", "plain"), ["interval to %d" % r.choice((5, 40)), "mm_page_size to 65536", "wal_crc to true", "wal_rotate_wm to %d" % r.choice((1, 200, 1000))], workers=w, workers_upload=0)
    db.start()
    db.sql("alter storage main set (refresh_wm %d)" % r.choice((1, 500, 1 << 20)))
    nt = r.choice((2, 3, 4))
    allowed = {}
    for life in range(case["lives"]):
        lines, sent = [], {}
        for t in range(nt):
            for k in range(case["ops"]):
                n = r.choice((1, 1, 1, 3))
                p = r.randrange(12)          # one partition of 40 per batch
                evs = []
                for _ in range(n):
                    i = p * 40 + r.randrange(10) * 4 + t
                    evs.append((0, i, "", "h%02x%04x%02x" % (life, k, t)))
                if len({e[1] for e in evs}) < n: evs = evs[:1]
                # all events of a thread have ids of their own (mod 4)
                lines.append("%d %s" % (t, fmt_events(evs))); sent[(t, sum(1 for x in lines if x.startswith("%d w" % t)) - 1)] = evs
        for t in (nt, nt + 1):
            for k in range(case["ops"]):
                lines.append("%d sql %s" % (t, r.choice(("debug 'wal_create'", "debug 'wal_gc'", "debug 'wal_gc'", "refresh partition %d" % (r.randrange(12) * 40), "refresh partitions between 0 and 600", "checkpoint", "service", "service"))))
        f = os.path.join(ctx.dir, "par%d" % life); o = f + ".out"
        open(f, "w").write("\n".join(lines) + "\n")
        if r.random() < .8: db.m.ok("ip root " + db.path); db.m.ok("ip delay %d %d %d" % (r.choice((50, 200, 500)), r.choice((100, 500, 3000)), r.getrandbits(30)))
        crash = r.random() < .6
        try:
            if crash:
                db.m.ok("ip root " + db.path); db.m.ok("ip crash %d 0 %d" % (r.randrange(20, case["ops"] * nt * 2), MUTATE))
            db.m.ok("par %s %s 60 live" % (f, o))
            db.m.ok("ip off"); ctx.add("full_runs")
        except Dead as e:
            if e.rc != CRASHED or any(x in e.err for x in SAN_MARK): raise
            ctx.add("crashes")
        else: crash = False
        # what each thread was told
        acked = {}
        for l in open(o):
            x = l.split()
            if len(x) < 5: continue
            t, k, ok = int(x[0]), int(x[1]), x[4] == "1" or x[4] == "ok"
            if t < nt: acked[(t, k)] = ok
        nacked = sum(acked.values()); ctx.add("acked", nacked)
        # admissible values per id
        for t in range(nt):
            ks = sorted(k for tt, k in sent if tt == t)
            for k in ks:
                ok = acked.get((t, k))
                for _, i, key, v in sent[(t, k)]:
                    if ok: allowed[i] = {v}
                    elif ok is None: allowed[i] = allowed.get(i, {None}) | {v}
                if ok is False: raise Viol("write-error", "a write failed: %s" % (sent[(t, k)],))
                if ok is None: break         # later ones were not started
        if crash or r.random() < .5: db.kill()
        else: db.stop()
        try: db.start()
        except Viol as v: raise Viol("open", "open after %s: %s" % ("crash" if crash else "kill", v.detail[:600]))
        got = {i: v for i, k, v in db.scan()}
        for i, vs in allowed.items():
            if got.get(i) not in vs: raise Viol("lost", "life %d (%s): id %d is %r, acknowledged %s" % (life, "crash" if crash else "end", i, got.get(i), vs))
        for i in got:
            if i not in allowed: raise Viol("made-up", "id %d was never written" % i)
        allowed = {i: {got.get(i)} for i in allowed}
        db.model = {(i, ""): v for i, v in got.items()}; db.live_cache = None
        if w == 0: Monitor(db).look("reopened")
        ctx.add("conc_lives")
    m = Monitor(db)
    if w == 0: m.freed("end of concurrent run")
    db.check_scan("end")
    db.stop(); db.m.close()
    ctx.sample = {"case": case, "workers": w, "threads": nt}

def fn(ctx, case): (conc if case["mode"] == "conc" else seq)(ctx, case)
def cases():
    n = 270 if not THOROUGH else 6000
    return [dict(seed=k, mode="conc" if k % 3 == 2 else "seq", cloud=k % 4 == 1, steps=60 if not THOROUGH else 150, lives=2 if not THOROUGH else 4, ops=60, variant="asan" if k % 20 == 6 else "plain") for k in range(n)]

if __name__ == "__main__":
    c = Check("C23", "exploration", variants=("plain", "asan"))
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), budget=800 if THOROUGH else 120)
    c.finish("one case = a program of writes, failing writes, refreshes (also failing half way), rotations, collections, drops, moves and restarts, with the log directory and partition files parsed by an independent reader after every step: "
             "each record of a removed file must be in a completed partition file or dropped; or concurrent writers, workers and collections with delays and a crash, after which no acknowledged event may be missing",
             need=("removed_files", "covered_by_file", "covered_by_drop", "freed", "failed_writes", "failed_gc", "crashes", "full_runs", "acked", "looks"))
