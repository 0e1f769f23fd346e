import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import bisect, struct
from crash import *
from c06 import setup, maint
from pfile import Pfile

WALREC = struct.Struct("<IQBII")

class Stat:
    """SHOW PARTITIONS, STORAGES, WAL and MEMORY against each other, the files and the contents"""
    def __init__(self, db):
        self.db = db; self.prev = {}; self.lsn = 0; self.pending = set(); self.twice = set()
        self.cloud = any("create cloud" in x for x in db.trail)
    def bad(self, key, why, *a): raise Viol(key, "%s: %s; before %s" % (why, ", ".join(map(str, a))[:1500], self.db.trail[-8:]))
    def wrote(self, evs):
        for f, i, k, v in evs: self.pending.add((i, k))
    def check(self, why, t0=None, exact=True):
        """t0: clock before the last command"""
        db = self.db
        ps = db.parts(); st = db.js("show storages"); mem = db.js("show memory"); wal = db.js("show wal")
        both = db.js("show partitions, storages")
        if [{k: v & U64 if k in ("min", "max") else v for k, v in p.items()} for p in both[0]] != ps or both[1] != st: self.bad("inconsistent", why, "SHOW of two things differs from the two")
        cfg = {n: s["config"] for n, s in st.items()}
        keys = sorted(db.model); ids = [x[0] for x in keys]
        pend = sorted(self.pending); pids = [x[0] for x in pend]
        now = int(time.time() * 1e6) + 1
        last = -1; covered = 0; pcovered = 0; cur = {}
        for p in ps:
            if p["min"] > p["max"] or p["min"] <= last: self.bad("order", why, "partition ranges", p, last)
            last = p["max"]
            for k in ("events", "events_heap", "regions", "size", "size_uncompressed", "size_heap", "refreshes"):
                if not 0 <= p[k] < 1 << 50: self.bad("absurd", why, k, p)
            n = bisect.bisect_right(ids, p["max"]) - bisect.bisect_left(ids, p["min"]); covered += n
            hp = bisect.bisect_right(pids, p["max"]) - bisect.bisect_left(pids, p["min"]); pcovered += hp
            file_events = p["events"] - p["events_heap"]
            if file_events < 0: self.bad("events", why, "more events in memory than events", p)
            if not p["events_heap"] and p["events"] != n: self.bad("events", why, "a flushed partition holds %d events" % n, p)
            if not (p["events"] >= n): self.bad("events", why, "the partition holds %d events" % n, p)
            if exact:
                lo, hi = (hp, hp) if not any(p["min"] <= x <= p["max"] for x in self.twice) else (0, 2 * hp + 2)
                if not lo <= p["events_heap"] <= hi: self.bad("events-heap", why, "%d events were written since the last refresh" % hp, p)
            if p["events_heap"] and not p["size_heap"]: self.bad("size-heap", why, p)
            if p["storage"] not in cfg: self.bad("storage", why, p)
            # files
            d = os.path.join(db.path, cfg[p["storage"]]["path"] or cfg[p["storage"]]["uuid"]); f = os.path.join(d, "%020d" % p["min"]); cl = os.path.join(d, "mock", "%020d" % p["min"])
            if p["on_storage"] and not os.path.exists(f) and os.path.exists(f + ".complete"): f += ".complete"     # left so by a failed refresh, used as it is
            if p["on_storage"] != os.path.exists(f): self.bad("on-storage", why, p, sorted(db.files())[:20])
            if p["on_cloud"] != os.path.exists(f + ".cloud"): self.bad("on-cloud", why, p, sorted(db.files())[:20])
            if p["on_cloud"] and not os.path.exists(cl): self.bad("on-cloud", why, p, sorted(db.files())[:20])
            src = f if p["on_storage"] else cl if p["on_cloud"] else None
            if src:
                data = open(src, "rb").read(); x = Pfile(data).index
                if p["size"] != len(data): self.bad("size", why, "file has %d bytes" % len(data), p)
                for a, b in (("regions", p["regions"]), ("events", file_events), ("refreshes", p["refreshes"]), ("time_create", p["created"]), ("time_refresh", p["refreshed"]), ("size_total_origin", p["size_uncompressed"])):
                    if x[a] != b: self.bad("file-index", why, "%s in the file is %d" % (a, x[a]), p)
                if not cfg[p["storage"]]["compression"] and not x["compression"] and not x["encryption"] and p["size_uncompressed"] != len(data): self.bad("size", why, "uncompressed file of %d bytes" % len(data), p)
                if (p["regions"] == 0) != (file_events == 0): self.bad("regions", why, p)
                db.ctx.add("files_compared")
            elif p["size"] or p["regions"] or file_events or p["refreshes"]: self.bad("no-file", why, "the partition has no file", p)
            if p["refreshes"]:
                if not p["created"] <= p["refreshed"] <= now: self.bad("times", why, now, p)
            o = self.prev.get(p["min"])
            if o and o["max"] == p["max"]:
                if p["refreshes"] < o["refreshes"]: self.bad("refreshes", why, o, p)
                if p["refreshes"] > o["refreshes"]:
                    if t0 and p["refreshed"] < t0: self.bad("times", why, "refreshed by the last command, at %d" % t0, o, p)
                elif o["refreshes"] and p["refreshed"] != o["refreshed"]: self.bad("times", why, o, p)
                if o["refreshes"] and p["created"] != o["created"]: self.bad("times", why, "created", o, p)
            cur[p["min"]] = p
            db.ctx.add("partitions_checked")
        self.prev = cur
        if covered != len(ids): self.bad("coverage", why, "%d of %d events are in a partition" % (covered, len(ids)))
        # one by one
        for p in db.r.sample(ps, min(2, len(ps))):
            if p["min"] >= 1 << 63: continue
            q = db.js("show partition %d" % p["min"])
            q["min"] &= U64; q["max"] &= U64
            if q != p: self.bad("inconsistent", why, "SHOW PARTITION", q, p)
        # storages
        for n, s in st.items():
            l = [p for p in ps if p["storage"] == n]
            want = dict(partitions=len(l), partitions_local=sum(p["on_storage"] for p in l), partitions_cloud=sum(p["on_cloud"] for p in l), min=min([p["min"] for p in l] or [0]), max=max([p["max"] for p in l] or [0]))
            for k in ("regions", "events", "events_heap", "size", "size_uncompressed", "size_heap"): want[k] = sum(p[k] for p in l)
            got = dict(s["stats"]); got["min"] &= U64; got["max"] &= U64
            if got != want: self.bad("storage-sums", why, n, got, want)
            one = db.js("show partitions %s" % n)
            for p in one: p["min"] &= U64; p["max"] &= U64
            if one != l: self.bad("inconsistent", why, "SHOW PARTITIONS %s" % n, one, l)
            if db.js("show storage %s" % n) != s: self.bad("inconsistent", why, "SHOW STORAGE")
            # every partition file belongs to a partition
            d = os.path.join(db.path, s["config"]["path"] or s["config"]["uuid"])
            for f in os.listdir(d) if os.path.isdir(d) else ():
                if f.isdigit() and not any(p["min"] == int(f) and p["on_storage"] for p in l): self.bad("file-without-partition", why, n, f)
            db.ctx.add("storages_checked")
        # memory
        if mem["pages"] != mem["pages_used"] + mem["pages_free"] or mem["pages_used"] * mem["page_size"] != sum(p["size_heap"] for p in ps): self.bad("memory", why, mem, sum(p["size_heap"] for p in ps))
        # log
        w = os.path.join(db.path, "wal")
        fs = sorted(int(f[:-4]) for f in os.listdir(w) if f.endswith(".wal")) if os.path.isdir(w) else []
        if wal["lsn"] < self.lsn: self.bad("lsn", why, "lsn was %d" % self.lsn, wal)
        self.lsn = wal["lsn"]
        if wal["active"] != db.wal: self.bad("wal", why, wal)
        if db.wal:
            if wal["files"] != len(fs) or wal["lsn_min"] != fs[0]: self.bad("wal", why, wal, fs)
            top = 0
            for f in fs:
                data = open(os.path.join(w, "%020d.wal" % f), "rb").read(); o = 0
                while o + 21 <= len(data):
                    crc, lsn, ty, n, size = WALREC.unpack_from(data, o)
                    if size < 21 or o + size > len(data): break
                    if lsn <= top: self.bad("wal", why, "record %d after record %d" % (lsn, top))
                    top = lsn; o += size
            if top > wal["lsn"]: self.bad("lsn", why, "the log holds record %d" % top, wal)
            if top and top != wal["lsn"]: self.bad("lsn", why, "the newest record of the log is %d" % top, wal)
        if db.js("show lsn") != wal["lsn"]: self.bad("lsn", why, "SHOW lsn", wal)
        db.ctx.add("checks")
    def refreshed(self):
        """keys leave the memory of the partitions that were refreshed"""
        ps = self.db.parts()
        for p in ps:
            if p["events_heap"] == 0:
                self.pending = {x for x in self.pending if not p["min"] <= x[0] <= p["max"]}; self.twice = {x for x in self.twice if not p["min"] <= x <= p["max"]}
    def covered(self):
        ps = self.db.parts()
        self.pending = {x for x in self.pending if any(p["min"] <= x[0] <= p["max"] for p in ps)}

def flush(db):
    db.op_refresh_all()

def seq(ctx, case):
    r, db, g = setup(ctx, case)
    st = Stat(db)
    # everything known from here on
    for p in db.parts():
        if p["on_cloud"] and p["events_heap"]: db.sql("download partition %d if cloud" % p["min"]); db.sql("drop partition %d on cloud" % p["min"])
    flush(db); st.check("flushed")
    left = any(p["events_heap"] for p in db.parts())
    st.exact = not left
    for n in range(case["steps"]):
        t0 = int(time.time() * 1e6) - 1
        x = r.random(); why = "step %d" % n; op = None
        if x < .4:
            evs = g.batch(r.choice((1, 3, 10, 60)), db.live(), rehit=.4, delete=.2); st.wrote(evs); db.write(evs); op = "write"
        elif x < .48:
            p = db.op_drop(); op = "drop"
            if p: st.pending = {y for y in st.pending if not p["min"] <= y[0] <= p["max"]}
        elif x < .54:
            op = "bad write"
            evs = g.batch(5, db.live(), rehit=.4, delete=.2); evs.append((0, 5, "aa" * 256, "h00")); ok, t = db.write(evs, expect=False)
            if ok: raise Viol("write-accepted", "a key of 256 bytes")
        elif x < .58 and case["wal"]: db.kill(); db.start(); op = "kill"; st.lsn = min(st.lsn, db.js("show wal")["lsn"]) if db.js("show wal")["lsn"] < st.lsn and not any(f.endswith(".wal") and z for f, z in db.files().items()) else st.lsn
        elif x < .62 and case["wal"]: db.reopen(); op = "reopen"
        else:
            op = maint(db, r, case)
        if op in ("fail_refresh",): st.twice |= {y[0] for y in st.pending}
        db.note(op or "")
        if op not in ("write", "bad write", "drop"):
            st.refreshed()
        st.check("%s (%s)" % (why, op), None if op in ("kill", "reopen") else t0, exact=st.exact)
        if r.random() < .1: db.check_scan(why)
        if r.random() < .05 and not case["cloud"]:
            flush(db); st.refreshed(); st.check(why + " flushed", t0)
            if st.pending: raise Viol("not-flushed", "%s: everything is refreshed, events in memory: %s" % (why, db.parts()))
    ctx.sample = {"partitions": len(db.parts()), "storages": list(db.storages())}
    db.stop(); db.m.close()

def conc(ctx, case):
    """samples while threads work, exact afterwards"""
    r, db, g = setup(ctx, dict(case, cloud=False, pipe=False))
    db.stop(); db.m.close(); db.m = None
    w = r.choice((0, 1, 3)); db.sets[0] = "workers to %d" % w; db.variant = case["variant"]; db.start()
    sts = db.storages(); lines = []; per = [[] for _ in range(3)]
    total = len(db.model); top = 3000
    for t in range(3):
        for n in range(case["ops"]):
            x = r.random()
            if x < .55:
                e = [(int(r.random() < .1), r.randrange(300), "%02x%02x" % (0xa0 + t, r.randrange(30)), "h%04x" % r.randrange(65536)) for _ in range(r.choice((1, 4)))]
                e = [(f, i, k, "-" if f else v) for f, i, k, v in e]; total += len(e)
                lines.append("%d %s" % (t, fmt_events(e))); per[t].append(e)
            else: lines.append("%d %s" % (t, r.choice(("sql refresh partition if exists %d" % r.randrange(300), "sql move partition if exists %d into %s" % (r.randrange(300), r.choice(sts)), "sql checkpoint", "sql service", "sql refresh partitions between 0 and 400", *(("sql debug 'wal_create'", "sql debug 'wal_gc'") if case["wal"] else ())))))
    for k, c in enumerate(("partitions", "storages", "partitions, storages", "wal, memory")): lines.append("%d loop %d sql show %s" % (3 + k, r.choice((50, 400)), c))
    inf, outf = os.path.join(ctx.dir, "in"), os.path.join(ctx.dir, "out")
    open(inf, "w").write("\n".join(lines) + "\n")
    db.m.ok("ip root " + db.path); db.m.ok("ip delay 80 300 %d" % r.getrandbits(30))
    try: ok, t = db.m.cmd("par %s %s 30" % (inf, outf))
    except Dead as e: raise Viol("died", "threads: %s %s" % (e, e.err[-1500:]))
    if not ok: raise Viol("par", t)
    db.m.ok("ip off")
    for l in open(outf):
        f = l.split(" ", 5); text = bytes.fromhex(f[5].strip()).decode("latin1") if f[5].strip() != "-" else ""
        if f[4] != "1": raise Viol("command-error", "thread %s: %s" % (f[0], text[-300:]))
        if int(f[0]) < 3: continue
        lsn = 0
        for x in text.split("\x1e"):
            if not x.strip(): continue
            v = json.loads(x); ctx.add("samples")
            if int(f[0]) == 6:
                if v[0]["lsn"] < lsn: raise Viol("lsn", "lsn %d after %d" % (v[0]["lsn"], lsn))
                lsn = v[0]["lsn"]
                if (case["wal"] and v[0]["files"] < 1) or v[1]["pages"] != v[1]["pages_used"] + v[1]["pages_free"]: raise Viol("absurd", x[:600])
                continue
            ps = v if f[0] == "3" else v[0] if f[0] == "5" else []
            ss = v if f[0] == "4" else v[1] if f[0] == "5" else {}
            last = -1
            for p in ps:
                p["min"] &= U64; p["max"] &= U64
                if p["min"] <= last or p["max"] < p["min"]: raise Viol("order", "while threads work: %s" % ps)
                last = p["max"]
                if not 0 <= p["events_heap"] <= p["events"] <= 3 * total + 10 or not 0 <= p["size"] < 1 << 40 or not 0 <= p["size_heap"] < 1 << 40: raise Viol("absurd", "while threads work: %s" % p)
            for n, s in ss.items():
                s = s["stats"]
                if not 0 <= s["events_heap"] <= s["events"] <= 3 * total + 10 or not 0 <= s["partitions"] <= 400 or s["partitions_local"] > s["partitions"]: raise Viol("absurd", "while threads work: %s %s" % (n, s))
    for t in per:
        for e in t: db.apply(e)
    if w:
        for _ in range(400):
            db.sql("checkpoint"); time.sleep(.005)
            if not any(p["size_heap"] for p in db.parts()): break
    db.op_refresh_all(); st = Stat(db)
    if w: db.reopen()      # background work is over
    st.check("after the threads", exact=False); db.check_scan("after the threads")
    db.stop(); db.m.close()

def fn(ctx, case): (conc if case["kind"] == "conc" else seq)(ctx, case)

def cases():
    n = 240 if not THOROUGH else 4000
    return [dict(seed=k, kind="conc" if k % 6 == 5 else "seq", wal=k % 7 != 3, cloud=k % 3 == 0, stor=k % 3, pipe=k % 4 == 1, steps=50 if not THOROUGH else 120, ops=80, variant="tsan" if k % 36 == 5 else "plain") for k in range(n)]

if __name__ == "__main__":
    c = Check("C28", "exploration", variants=("plain", "tsan"))
    one_ = replay_case(sys.argv)
    c.run(fn, [one_] if one_ else cases(), budget=800 if THOROUGH else 150)
    c.finish("one case = a random program; after every command the output of SHOW PARTITIONS, PARTITION, STORAGES, STORAGE, MEMORY, WAL is compared with each other, with the partition files and their indexes, the log files and their records, and with the model of the contents; "
             "or threads with samplers, compared exactly after they end",
             need=("checks", "partitions_checked", "files_compared", "storages_checked", "samples"))
