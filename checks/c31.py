import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from program import *
import ondisk
from ondisk import pack_part, pack_write, pack_drop, read_dir, Bad
from schema import KEYC

class World:
    def __init__(self, ctx, case):
        self.ctx, self.case = ctx, case
        r = self.r = rng_of(case, "c31")
        self.interval = r.choice((1, 7, 10, 100, 1000, 3000000))
        self.wcrc = r.random() < .6
        ids = r.choice(Gen.IDS)
        if ids in ("dense", "reverse", "shuffle", "wide", "mixed") and self.interval < 100: self.interval = 100
        self.sets = ["interval to %d" % self.interval, "mm_page_size to 65536", "wal to %s" % ("true" if case["wal"] else "false"), "wal_crc to %s" % ("true" if self.wcrc else "false"),
                     "wal_rotate_wm to %d" % r.choice((2000, 50000, 1 << 20)), "wal_sync_on_write to %s" % r.choice(("true", "false"))]
        self.g = Gen(r, self.interval, ids=ids, keys=r.choice(("none", "short", "prefix", "long", "mixed")), vals=r.choice(("tiny", "small", "mixed")), maxval=3000)
        db = self.db = Db(ctx, r, case.get("variant", "plain"), self.sets); db.wal = case["wal"]
        db.start()
        self.keys = {}
        db.sql("create cloud c (type 'mock')")
        for n in ["main", "s1", "s2"][:r.choice((1, 2, 3))]:
            o = ["region_size %d" % r.choice((1, 100, 512, 4096, 131072)), "compression '%s'" % r.choice(("zstd", "lz4", "")), "crc %s" % r.choice(("true", "false"))]
            if r.random() < .35:
                k = self.keys[n] = "".join(r.choice(KEYC) for _ in range(32)); o += ["encryption 'aes'", "encryption_key '%s'" % k]
            if r.random() < .4: o += ["cloud 'c'", "cloud_drop_local %s" % r.choice(("true", "false"))]
            if n != "main" and r.random() < .2: o.append("path 'p_%s'" % n)
            db.sql(("alter storage main set (%s)" if n == "main" else "create storage " + n + " (%s)") % ", ".join(o))
        self.reload()
    def reload(self):
        self.st = {n: s["config"] for n, s in self.db.js("show storages").items()}
        self.kinds = {(c["compression"], bool(c["encryption"]), c["crc"]) for c in self.st.values()}
        self.wal_interval = None
    def conf(self):
        return json.load(open(os.path.join(self.db.path, "config.json")))
    def decode(self, why):
        """what an independent reader finds in the directory of a stopped environment"""
        db, ctx = self.db, self.ctx
        wi = self.wal_interval = self.conf()["wal_interval"]
        try: got, parts, st = read_dir(db.path, self.st, wi, self.wcrc, self.keys, db.wal)
        except Bad as e: raise Viol("format", "%s: %s; before: %s" % (why, e, db.trail[-12:]))
        if got != db.model:
            raise Viol("content", "%s: files hold %s; before: %s" % (why, diff([(i, k, v) for (i, k), v in sorted(got.items())], db.sorted()), db.trail[-14:]))
        ctx.add("decodes"); ctx.add("decoded_events", len(got)); ctx.add("decoded_files", st["files"]); ctx.add("decoded_records", st["records"]); ctx.add("replayed", st["replayed"])
        for x, evs, n, cl in parts.values():
            ctx.see("file_kinds", (x["compression"], x["encryption"], cl, min(x["regions"], 2), n == "main"))
            if cl: ctx.add("decoded_cloud")
            if x["encryption"]: ctx.add("decoded_encrypted")
            if x["regions"] > 1: ctx.add("decoded_regions")
        return parts
    def check(self, why):
        self.db.check_scan(why, key="content"); self.db.check_seeks(4, key="content-seek")
    # ---- random use
    OPS = dict(write=30, bulk=4, refresh=8, refresh_all=3, refresh_range=3, fail_refresh=2, checkpoint=1, service=3, rotate=3, gc=3, create=2, move=4, move_range=1, drop=4, drop_range=1, cloud=6)
    def program(self, steps, budget):
        if not hasattr(self, "p"): self.p = Program(self.ctx, self.r, self.db, self.g, self.OPS, 0)
        self.p.budget += budget
        self.p.run(steps)

def between(w, why):
    """stop or kill, decode, start again, compare"""
    db, r = w.db, w.r
    if not db.wal: db.op_refresh_all()
    kill = r.random() < .4
    if kill: db.kill()
    else: db.stop(); w.ctx.add("stops")
    w.decode(why + (" (killed)" if kill else " (stopped)"))
    return kill

def decode_case(ctx, case):
    w = World(ctx, case); db = w.db
    for n in range(case["rounds"]):
        w.program(case["steps"], 250)
        if w.r.random() < .3: w.check("round %d" % n)
        between(w, "round %d" % n)
        db.start(); w.check("reopened %d" % n)
    db.stop(); w.decode("end")
    db.m.close()

# ---- files written by this program, read by the code under test
def encode_case(ctx, case):
    w = World(ctx, case); db, r, g = w.db, w.r, w.g
    db.stop()
    wi = w.conf()["wal_interval"]; st = w.st
    wal = case["wal"]
    if r.random() < .5:
        # the settings too may be written by another program
        c = w.conf(); l = list(c.items())
        if r.random() < .5: r.shuffle(l)
        with open(os.path.join(db.path, "config.json"), "w") as h: json.dump(dict(l), h, **r.choice((dict(indent=4), dict(separators=(",", ":")), dict(indent="\t"), dict(ensure_ascii=False), dict())))
        ctx.add("encoded_configs")
    # history: batches and drops of what stands at that moment, with increasing lsns
    ids = sorted({g.id() for _ in range(r.choice((3, 20, 60)))})
    parts = []                                       # (lo, hi) not overlapping
    for i in ids:
        k = r.random()
        lo = i - i % w.interval; hi = min(U64, lo + w.interval - 1)
        if k < .2: lo, hi = max(0, i - r.randrange(3 * w.interval)), min(U64, i + r.randrange(5 * w.interval))
        if all(hi < a or lo > b for a, b in parts): parts.append((lo, hi))
    parts.sort()
    def of(i): return next((p for p in parts if p[0] <= i <= p[1]), None)
    def rid():
        a, b = r.choice(parts)
        return r.choice((a, b, a + r.randrange(b - a + 1), a + r.randrange(min(20, b - a + 1)))) if r.random() < .5 else r.choice(ids)
    hist, lsn, model, snap = [], r.choice((0, 0, 5, 1 << 40)), {}, {p: {0: {}} for p in parts}
    first = lsn
    for _ in range(r.choice((5, 30, 80))):
        lsn += r.choice((1, 1, 1, 1, 7))             # a failed write may have used up one
        if wal and r.random() < .08:
            p = r.choice(parts); hist.append((lsn, p))
            for e in [e for e in model if p[0] <= e[0] <= p[1]]: del model[e]
            snap[p][lsn] = {}
            continue
        evs = []
        for _ in range(r.choice((1, 1, 2, 5, 20))):
            i, k = r.choice(list(model)) if model and r.random() < .3 else (min(U64 - 1, rid()), g.key())
            evs.append((0, i, k, g.val()) if r.random() < .8 else (1, i, k, "-"))
        evs = [e for e in evs if of(e[1])]
        if not evs: continue
        hist.append((lsn, evs))
        for f, i, k, v in evs:
            if f: model.pop((i, k), None)
            else: model[i, k] = v
        for p in {of(e[1]) for e in evs}:
            snap[p][lsn] = {e: v for e, v in model.items() if p[0] <= e[0] <= p[1]}
    # files: each partition stands at some point of its history
    last = hist[-1][0] if hist else first
    files, names, flsn = {}, list(st), {}
    gone = {}                                        # last drop of each range
    for l, x in hist:
        if isinstance(x, tuple): gone[x] = l
    for p in parts:
        pts = sorted(snap[p])
        if wal and r.random() < .3: flsn[p] = 0; continue            # never refreshed
        at = r.choice(pts) if wal else pts[-1]
        if not at: flsn[p] = 0; continue
        d = gone.get(p)
        if d is not None and at == d:                # refreshed at a drop does not exist
            flsn[p] = 0; continue
        # the file may have been written later than the last change of it
        nxt = [q for q in pts if q > at]
        # (a file older than a drop is what a crash leaves behind; one written later than another drop of that range was made again)
        top = (nxt[0] - 1) if nxt else last
        l = r.choice((at, at, top))
        flsn[p] = l; files[p] = snap[p][at]
    # a partition made again after a drop: older file content would be wrong only if older than the drop, and then the drop removes it
    t = 1700000000000000
    for p, cont in files.items():
        evs = [(i, k, v) for (i, k), v in sorted(cont.items())]
        regs = []
        while evs:
            n = r.choice((1, 1, 3, 50, 1000))
            while n < len(evs) and evs[n][0] == evs[n - 1][0]: n += 1      # events of one id stand in one region
            regs.append(evs[:n]); evs = evs[n:]
        n = r.choice(names); c = st[n]; d = os.path.join(db.path, c["path"], c["uuid"])
        comp = c["compression"] if r.random() < .7 else r.choice(("", "zstd", "lz4"))     # the option may have been changed since
        key = w.keys.get(n) if r.random() < .8 else None
        t += 1000
        data, ilen = pack_part(p[0], p[1], regs, comp, key, r.random() < .5, flsn[p], t, t + 500, r.randrange(1, 9), lambda: r.randbytes(16), r.choice((1, 3, 19, -5)))
        name = os.path.join(d, "%020d" % p[0]); where = "local"
        if c["cloud"]: where = r.choice(("local", "both", "cloud"))
        def put(f, b):
            with open(f, "wb") as h: h.write(b)
        if where != "local":
            os.makedirs(d + "/mock", exist_ok=True); put(d + "/mock/%020d" % p[0], data); put(name + ".cloud", data[-ilen:])
        if where != "cloud":
            k = r.random()
            if k < .1: put(name + ".complete", data); ctx.add("complete_only") if where == "local" else put(name, data)
            else: put(name, data)
            if k > .9: put(name + ".complete", data if r.random() < .5 else r.randbytes(50))
        if r.random() < .1: put(name + ".incomplete", r.choice((data[:-5], b"", r.randbytes(200))))
        if where == "local" and c["cloud"] and r.random() < .1: put(name + ".cloud.incomplete", data[:20])
        ctx.see("encoded_kinds", (comp, bool(key), where, min(len(regs), 3))); ctx.add("encoded_files"); ctx.add("encoded_events", len(cont))
        ctx.add("encoded_" + where)
    for n in names:
        d = os.path.join(db.path, st[n]["path"], st[n]["uuid"])
        for f in ("readme", "12x", "00000000000000000001.tmp", ".hidden"):
            if r.random() < .1:
                with open(os.path.join(d, f), "wb") as h: h.write(b"what is this")
                ctx.add("unknown_files")
    # log: everything not contained in files, and some of what is
    if wal:
        need_from = last + 1
        for l, x in hist:
            held = all(flsn[of(e[1])] >= l for e in x) if isinstance(x, list) else (flsn[x] > l or not any(isinstance(y, list) and m < l and any(of(e[1]) == x for e in y) for m, y in hist) and x not in files)
            if not held: need_from = l; break
        start = r.choice([l for l, x in hist if l <= need_from] or [need_from]) if r.random() < .6 else need_from
        keep = [(l, x) for l, x in hist if l >= start]
        # the drops of ranges which were refreshed before and have no file any more may go as well, those with an older file may not
        out = [[]]
        for h in keep:
            if out[-1] and r.random() < r.choice((.05, .3)): out.append([])
            out[-1].append(h)
        wd = os.path.join(db.path, "wal")
        for f in os.listdir(wd): os.unlink(os.path.join(wd, f))
        for n, l in enumerate(out):
            name = l[0][0] if l else last + 1
            if n and r.random() < .3: name = r.choice((out[n - 1][-1][0] + 1, name))
            if n == 0: name = r.choice((name, 0, first + 1 if not l else min(name, first + 1)))
            b = b""
            for s, x in l:
                if isinstance(x, list): b += pack_write(s, x, w.wcrc)
                else: b += pack_drop(s, x[0], x[1], w.wcrc, min(U64, x[0] + wi - 1) == x[1] and r.random() < .8); ctx.add("encoded_drops")
            if n == len(out) - 1 and r.random() < .3:
                x = pack_write(last + 1, [(0, parts[0][0], "", g.val())], w.wcrc); b += x[:r.randrange(1, len(x))]; ctx.add("torn_tails")
            with open(os.path.join(wd, "%020d.wal" % name), "wb") as h: h.write(b)
            ctx.add("encoded_records", len(l)); ctx.add("encoded_logs")
        if r.random() < .2 and not ctx.stats.get("torn_tails"):
            with open(os.path.join(wd, "%020d.wal" % (last + r.choice((1, 5)) + 1)), "wb"): ctx.add("empty_logs")
    db.model = model; db.live_cache = None
    db.note("directory written: %d partitions %d files %d records, lsn %d..%d" % (len(parts), len(files), len(hist), first, last))
    db.start()
    w.check("written directory")
    # what SHOW says about them
    sh = {p["min"]: p for p in db.parts()}
    for p in files:
        if p in gone and flsn[p] < gone[p]: continue
        if p[0] not in sh or sh[p[0]]["max"] != p[1]: raise Viol("partition", "file of %s (%s, drops %s): %s" % (p, flsn[p], gone, sh.get(p[0]) or sorted(sh)))
    for n in range(case["rounds"]):
        if n or r.random() < .6: w.program(case["steps"], 150); w.check("used %d" % n)
        between(w, "written, used %d" % n)
        db.start(); w.check("reopened %d" % n)
    db.stop(); db.m.close()

def fn(ctx, case):
    (encode_case if case["kind"] == "encode" else decode_case)(ctx, case)

def cases():
    n = 400 if not THOROUGH else 8000
    return [dict(seed=k, kind="encode" if k % 5 < 3 else "decode", steps=(25 if k % 5 < 3 else 40), rounds=2, wal=k % 7 != 6, variant="asan" if k % 10 == 3 else "plain") for k in range(n)]

if __name__ == "__main__":
    c = Check("C31", "exploration", variants=("plain", "asan"))
    one_ = replay_case(sys.argv)
    c.run(fn, [one_] if one_ else cases(), budget=800 if THOROUGH else 150)
    c.finish("one case = (decode) a random program over storages of several codecs with kills and clean stops; an independent reader of the documented file formats verifies every checksum, size and order in the directory and must find exactly the contents of the model; "
             "or (encode) a directory written by an independent writer (any split in regions, codec, place of copies, split of the log, leftovers of crashes), which the code must open, read back exactly and go on with",
             need=("decodes", "decoded_cloud", "decoded_encrypted", "decoded_regions", "replayed", "encoded_files", "encoded_cloud", "encoded_both", "encoded_records", "encoded_drops", "torn_tails", "complete_only", "unknown_files", "stops"))
