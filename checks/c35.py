import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import bisect, re
from crash import *
from s3 import S3
from ondisk import unpack_part, Bad

KEY = "0123456789abcdef0123456789ABCDEF"
READ, WRITE, MM, OPENW = (IP[n].bit_length() - 1 for n in ("READ", "WRITE", "MMAP", "OPENW"))
RENAME, UNLINK = (IP[n].bit_length() - 1 for n in ("RENAME", "UNLINK"))
CHANGE = {IP[n].bit_length() - 1 for n in ("OPENW", "WRITE", "TRUNC", "RENAME", "UNLINK", "MKDIR", "RMDIR")}

class World:
    def __init__(self, ctx, case):
        self.ctx, self.case = ctx, case; r = self.r = rng_of(case, "c35")
        self.step = r.choice((10, 100))
        sets = ["interval to %d" % self.step, "mm_page_size to 65536", "wal to %s" % ("true" if case["wal"] else "false"), "wal_crc to %s" % r.choice(("true", "false"))]
        db = self.db = Db(ctx, r, case.get("variant", "plain"), sets); self.s3 = None; self.n0 = 0
        db.pre = ("ip root " + db.path, "ip trace 2"); db.start()
        if case["cloud"] == "s3":
            self.s3 = S3(); ctx.cleanups.append(self.s3.close)
            db.sql("create cloud c (type 's3', url '%s', access_key '%s', secret_key '%s')" % (self.s3.url(), self.s3.access, self.s3.secret))
        elif case["cloud"]: db.sql("create cloud c (type 'mock')")
        def opts():
            o = ["region_size %d" % r.choice((1, 100, 300, 2000, 131072)), "compression '%s'" % r.choice(("", "zstd", "lz4")), "crc %s" % r.choice(("true", "false"))]
            if r.random() < .3: o += ["encryption 'aes'", "encryption_key '%s'" % KEY]
            return o
        db.sql("alter storage main set (%s)" % ", ".join(opts()))
        for n in ("s1", "s2"):
            o = opts()
            if case["cloud"]: o += ["cloud 'c'", "cloud_drop_local %s" % r.choice(("true", "false"))]
            db.sql("create storage %s (%s)" % (n, ", ".join(o)))
        self.st = {n: s["config"] for n, s in db.js("show storages").items()}
        self.cfg = dict(self.st)
        self.g = Gen(r, self.step, ids=r.choice(("shuffle", "dense")), limit=r.choice((40, 200)), vals=r.choice(("tiny", "small", "mixed")), keys=r.choice(("none", "short", "mixed")), maxval=3000)
    def dir(self, st): return os.path.join(self.db.path, self.st[st]["path"], self.st[st]["uuid"])
    # ---- calls made by one command
    def begin(self):
        self.db.m.ok("ip trace 2"); self.n0 = len(self.s3.log) if self.s3 else 0
    def end(self):
        calls = []
        for l in self.db.m.ok("ip dump").split("\n"):
            if not l: continue
            k, size, off, path = l.split(" ", 3)
            if int(k) != MM: calls.append((int(k), int(size), int(off), path))
        reqs = self.s3.log[self.n0:] if self.s3 else []
        self.ctx.add("calls", len(calls)); self.ctx.add("requests", len(reqs))
        return calls, reqs
    def watch(self, f, *a):
        self.begin(); x = f(*a); c = self.end()
        return x, c
    # ---- files
    def look(self):
        """{min: partition with its regions and where they are read from}"""
        out = {}
        for p in self.db.parts():
            p = dict(p); d = self.dir(p["storage"]); n = "%020d" % p["min"]; p["spans"] = []; p["src"] = None
            p["local"], p["idx"], p["mock"] = os.path.join(d, n), os.path.join(d, n + ".cloud"), os.path.join(d, "mock", n)
            p["obj"] = "/%s/%s" % (self.st[p["storage"]]["uuid"], n)
            if p["on_storage"] or p["on_cloud"]:
                if p["on_storage"]: p["src"] = "local"; data = open(p["local"], "rb").read()
                elif self.s3: p["src"] = "s3"; data = bytes(self.s3.obj(self.s3.prefix + p["obj"]))
                else: p["src"] = "mock"; data = open(p["mock"], "rb").read()
                x, evs = unpack_part(data, KEY, None, p["spans"])
                p["x"] = x; p["total"] = len(data); p["area"] = x["size_regions"]
                p["spans"] = [(o, n, (a[0], bytes.fromhex(a[1])), (b[0], bytes.fromhex(b[1]))) for o, n, a, b in p["spans"]]
            out[p["min"]] = p
        return out
    def reads(self, parts, calls, reqs):
        """[(min, source, offset, size)] of what was read of partition files and objects"""
        by = {}
        for m, p in parts.items():
            by[p["local"]] = (m, "local"); by[p["mock"]] = (m, "mock"); by[p["idx"]] = (m, "idx")
        out = []
        for k, n, off, path in calls:
            if k != READ: continue
            if path in by: out.append(by[path] + (off, n))
            elif not path.startswith(os.path.join(self.db.path, "wal")) and not path.endswith("config.json"): out.append((None, path, off, n))
        ob = {p["obj"]: m for m, p in parts.items()}
        for method, path, rng, n, st in reqs:
            if method != "GET": continue
            path = path[len(self.s3.prefix):]
            if path not in ob: out.append((None, path, 0, 0)); continue
            a, b = (0, parts[ob[path]].get("total", 0) - 1) if rng is None else map(int, re.fullmatch(r"bytes=(\d+)-(\d+)", rng).groups())
            out.append((ob[path], "s3", a, b - a + 1))
        return out

def note(w, t): w.db.note(t)

class Walk:
    """one cursor, and what it has read so far"""
    def __init__(self, w, parts, keys, key):
        self.w, self.parts, self.keys, self.key = w, parts, keys, key
        self.pos = 0 if key is None else bisect.bisect_left(keys, key); self.got = {}
    def check(self, calls, reqs, what):
        w = self.w; E = self.keys[self.pos] if self.pos < len(self.keys) else None; K = self.key
        for c in calls:
            if c[0] in CHANGE: raise Viol("read-changes", "%s: %s; before %s" % (what, c, w.db.trail[-8:]))
        for m, src, off, n in w.reads(self.parts, calls, reqs):
            why = "%s (start %s, now at %s): read of %s bytes at %s of %s" % (what, K, E, n, off, (m, src))
            if m is None: raise Viol("foreign-read", why)
            p = self.parts[m]; w.ctx.add("reads_" + src); w.ctx.add("bytes_read", n)
            if src != p["src"]: raise Viol("wrong-copy", "%s; %s; before %s" % (why, {k: p[k] for k in ("storage", "on_storage", "on_cloud", "src")}, w.db.trail[-8:]))
            if (E is not None and p["min"] > E[0]) or (K is not None and p["max"] < K[0]):
                raise Viol("other-partition", "%s; partition %d..%d; before %s" % (why, p["min"], p["max"], w.db.trail[-8:]))
            sp = p["spans"]; lo = 0
            if K is not None and p["min"] <= K[0] <= p["max"]:
                lo = max([i for i, s in enumerate(sp) if s[2][0] <= K[0]] or [0])
            hi = len(sp) - 1
            if E is not None: hi = min([i for i, s in enumerate(sp) if s[3] >= E] or [hi])
            i = [i for i, s in enumerate(sp) if s[0] <= off and off + n <= s[0] + s[1]]
            if not i: raise Viol("not-a-region", "%s; regions %s; before %s" % (why, [s[:2] for s in sp][:20], w.db.trail[-8:]))
            i = i[0]
            if not lo <= i <= hi:
                raise Viol("region-not-needed", "%s: region %d (%s), needed are %d to %d of %d; before %s" % (why, i, sp[i], lo, hi, len(sp), w.db.trail[-8:]))
            x = self.got.setdefault((m, i), [0, 0]); x[0] += n; x[1] += 1
            if x[0] > sp[i][1] or (src != "local" and x[1] > 1): raise Viol("read-again", "%s: region %d of %d bytes read again by the same cursor; before %s" % (why, i, sp[i][1], w.db.trail[-8:]))
            w.ctx.add("regions_read"); w.ctx.add("regions_spared", 0)

def cursor(w, parts):
    db, r, ctx = w.db, w.r, w.ctx
    keys = sorted((i, bytes.fromhex(k)) for i, k in db.model)
    tgt = None; y = r.random()
    if y < .3 and keys: tgt = r.choice(keys)
    elif y < .6 and parts:
        p = r.choice(list(parts.values())); sp = p["spans"]
        if sp and r.random() < .6: e = r.choice(r.choice(sp)[2:]); tgt = (e[0] + r.choice((0, 0, 1, -1)), r.choice((b"", e[1], b"\xff")))
        else: tgt = (r.choice((p["min"], p["max"], r.randint(p["min"], p["max"]))), b"")
        if not 0 <= tgt[0] < 1 << 64: tgt = (p["min"], b"")
    elif y < .7: tgt = (r.randrange(0, 4000), b"")
    walk = Walk(w, parts, keys, tgt)
    _, c = w.watch(db.m.ok, "co 0" + ("" if tgt is None else " %d %s" % (tgt[0], kx(tgt[1].hex()))))
    walk.check(*c, "cursor opened"); ctx.add("cursors")
    want = lambda: keys[walk.pos] if walk.pos < len(keys) else None
    n = r.choice((0, 1, 2, 3, 10, 1 << 30))
    while True:
        x, c = w.watch(db.m.cmd, "cr 0"); walk.check(*c, "event read"); e = want()
        got = parse_events(x[1])[0] if x[0] and x[1] and x[1][0].isdigit() else None
        if (got is None) != (e is None) or (e is not None and (got[0], bytes.fromhex(got[1])) != e): raise Viol("contents", "at %s the cursor has %s; before %s" % (e, x, db.trail[-8:]))
        if n == 0 or e is None: break
        n -= 1
        # several steps at once
        s = min(r.choice((1, 1, 2, 7)), len(keys) - walk.pos)
        w.begin()
        for ok, t in db.m.batch(["cn 0"] * s):
            if not ok: raise Viol("next", t)
        walk.pos += s; walk.check(*w.end(), "%d steps" % s); ctx.add("steps", s)
    db.m.ok("cc 0")
    if walk.pos >= len(keys): ctx.add("walked_to_end")
    total = sum(len(p["spans"]) for p in parts.values()); ctx.add("regions_spared", total - len(walk.got))
    if total: ctx.see("region_share", "%d of %d" % (len(walk.got), total))

def small_ops(w, parts):
    db, r, ctx = w.db, w.r, w.ctx
    x = r.random()
    if x < .5:
        evs = w.g.batch(r.choice((1, 5, 30)), db.live(), rehit=.4, delete=.15)
        _, (calls, reqs) = w.watch(db.write, evs); ctx.add("writes")
        bad = [c for c in calls if not c[3].startswith(os.path.join(db.path, "wal"))] + [c for c in calls if c[0] == READ] + list(reqs)
        if bad: raise Viol("write-touches", "a write did %s; before %s" % (bad[:4], db.trail[-8:]))
        if not db.wal and calls: raise Viol("write-touches", "a write without a log did %s" % calls[:4])
    else:
        t = r.choice(("show partitions", "show storages", "show wal", "show memory", "show config", "show clouds", "show pipeline", "show all"))
        (ok, _), (calls, reqs) = w.watch(db.trysql, t); ctx.add("shows", 1 if ok else 0)
        bad = [c for c in calls if c[0] == READ or c[0] in CHANGE] + list(reqs)
        if bad: raise Viol("show-touches", "%s did %s; before %s" % (t, bad[:4], db.trail[-8:]))

def maint(w, parts):
    db, r, ctx = w.db, w.r, w.ctx
    ps = list(parts.values())
    if not ps: return
    p = r.choice(ps); m = p["min"]; cloud = bool(w.s3 or w.case["cloud"])
    kind = pick(r, dict(refresh=6, move=4, upload=3 if cloud else 0, download=3 if cloud else 0, dropl=2 if cloud else 0, dropc=2 if cloud else 0, drop=1))
    if kind == "dropc" and not p["on_storage"]: kind = "download"          # (the last copy)
    if kind == "dropl" and not p["on_cloud"]: kind = "upload"
    text = {"refresh": "refresh partition %d", "move": "move partition %d into " + r.choice(list(w.st)), "upload": "upload partition %d", "download": "download partition %d",
            "dropl": "drop partition %d on storage", "dropc": "drop partition %d on cloud", "drop": "drop partition %d"}[kind] % m
    heap = p["events_heap"]
    (ok, t), (calls, reqs) = w.watch(db.trysql, text)
    if kind == "drop" and ok: db.remove_range(p["min"], p["max"])
    ctx.add("did_" + kind if ok else "refused")
    after = w.look(); q = after.get(m); why = "%s (%s)" % (text, "heap %d, on %s%s%s" % (heap, p["storage"], " local" if p["on_storage"] else "", " cloud" if p["on_cloud"] else ""))
    # only files of this partition, the log for a drop
    num = "%020d" % m
    rd, wr = {}, {}
    for k, n, off, path in calls:
        base = os.path.basename(path).split(".")[0]
        if base != num and k in (READ, WRITE, OPENW) and not (kind == "drop" and path.startswith(os.path.join(db.path, "wal"))) :
            raise Viol("other-file", "%s: call %d of %d bytes on %s; before %s" % (why, k, n, path, db.trail[-8:]))
        if base == num:
            if k == READ: rd[path] = rd.get(path, 0) + n
            if k == WRITE: wr[path] = wr.get(path, 0) + n
    rbytes, wbytes = sum(rd.values()), sum(wr.values())
    gets = [x for x in reqs if x[0] == "GET"]; puts = [x for x in reqs if x[0] == "PUT" and x[1].count("/") > w.s3.prefix.count("/") + 1] if w.s3 else []
    for x in reqs:
        if x[1].count("/") > w.s3.prefix.count("/") + 1 and not x[1].endswith("/" + num): raise Viol("other-object", "%s: %s; before %s" % (why, x, db.trail[-8:]))
    gbytes = sum(b - a + 1 for mm, s, a, n in w.reads(parts, [], gets) for b in [a + n - 1]) if gets else 0
    old, new = p.get("total", 0), q.get("total", 0) if q else 0
    olda = p.get("area", 0); sl = 4 * (130 + max(p["x"]["size"] if p["src"] else 0, q["x"]["size"] if q and q["src"] else 0)) + 64
    up = cloud and q is not None and q["on_cloud"]
    if kind in ("refresh", "move"):
        # the old regions once, and the new file once if it is uploaded; what is only on the cloud is downloaded first
        lim_r, lim_w, lim_g = olda + (new if up else 0) + sl, new * (2 if up and not w.s3 else 1) + sl, 0
        if p["src"] in ("mock", "s3"): lim_w += old; lim_g = old; lim_r += old if p["src"] == "mock" else 0
        # every old region once
        n = [k for k, c in enumerate(calls) if c[0] in (RENAME, UNLINK) and c[3] in (p["local"], p["local"] + ".incomplete")]
        seen = {}
        for mm, src, off, n in w.reads(parts, calls[:n[0]] if n else calls, []):
            if src != p["src"] or src != "local": continue
            i = [i for i, s in enumerate(p["spans"]) if s[0] <= off and off + n <= s[0] + s[1]]
            if i: seen[i[0]] = seen.get(i[0], 0) + n
        for i in list(seen): seen[i] = -(-seen[i] // p["spans"][i][1])
        if any(c > 1 for c in seen.values()): raise Viol("read-again", "%s: regions of the old file were read %s times; before %s" % (why, seen, db.trail[-8:]))
        ctx.add("merged_regions", len(seen))
    elif kind == "upload": lim_r, lim_w, lim_g = old + sl, (old if not w.s3 else 0) + sl, 0
    elif kind == "download": lim_r, lim_w, lim_g = (old if not w.s3 else 0) + sl, old + sl, old
    else: lim_r, lim_w, lim_g = sl, sl, 0
    if rbytes > lim_r: raise Viol("reads-too-much", "%s: read %s, %d bytes in all, at most %d needed (old file %d, new %d); before %s" % (why, rd, rbytes, lim_r, old, new, db.trail[-8:]))
    if wbytes > lim_w: raise Viol("writes-too-much", "%s: wrote %s, %d bytes in all, at most %d needed (old file %d, new %d); before %s" % (why, wr, wbytes, lim_w, old, new, db.trail[-8:]))
    if gbytes > lim_g: raise Viol("fetches-too-much", "%s: fetched %d bytes in %d requests, at most %d needed; before %s" % (why, gbytes, len(gets), lim_g, db.trail[-8:]))
    if len(puts) > 1: raise Viol("uploads-again", "%s: %d uploads: %s; before %s" % (why, len(puts), puts, db.trail[-8:]))
    # the other partitions are what they were
    for x, a in parts.items():
        if x != m and (x not in after or any(a[k] != after[x][k] for k in ("events", "events_heap", "on_storage", "on_cloud", "storage", "size", "refreshes"))):
            raise Viol("other-partition", "%s changed partition %d: %s -> %s" % (why, x, {k: a[k] for k in ("events", "size", "storage")}, after.get(x)))
    ctx.add("bytes_maintenance", rbytes + wbytes + gbytes)

def reopen(w, parts):
    db, ctx = w.db, w.ctx
    n0 = len(w.s3.log) if w.s3 else 0
    if w.r.random() < .5 and db.wal: db.kill(); db.start()
    else:
        if not db.wal: db.op_refresh_all(); parts = w.look()
        n0 = len(w.s3.log) if w.s3 else 0
        db.stop(); db.m.ok("ip trace 2"); db.start(); ctx.add("reopens")
    calls, reqs = w.end(); reqs = w.s3.log[n0:] if w.s3 else []
    if reqs: raise Viol("open-requests", "open sent %s; before %s" % (reqs[:4], db.trail[-8:]))
    for m, src, off, n in w.reads(parts, calls, reqs):
        if m is None: raise Viol("foreign-read", "open read %d bytes of %s" % (n, src))
        p = parts[m]
        if src == "mock" or (src == "local" and p["src"] == "local" and off < p["area"]):
            raise Viol("open-reads-data", "open read %d bytes at %d of %s of partition %d (its regions are the first %s bytes of %s); before %s" % (n, off, src, m, p.get("area"), p.get("total"), db.trail[-8:]))
        ctx.add("index_reads")
    ctx.add("opens")

def fn(ctx, case):
    w = World(ctx, case); db, r = w.db, w.r
    for _ in range(r.choice((2, 5))): db.write(w.g.batch(r.choice((20, 80, 200)), db.live(), rehit=.2, delete=.1))
    for p in db.parts():
        if r.random() < .8: db.sql("refresh partition %d" % p["min"])
        if r.random() < .5: db.sql("move partition %d into %s" % (p["min"], r.choice(("s1", "s2"))))
    for step in range(case["steps"]):
        parts = w.look()
        op = pick(r, dict(cursor=6, small=4, maint=4, reopen=1)); ctx.see("ops", op)
        {"cursor": cursor, "small": small_ops, "maint": maint, "reopen": reopen}[op](w, parts)
        ctx.see("sources", tuple(sorted({p["src"] or "memory" for p in parts.values()})))
    if w.s3 and w.s3.bad: raise Viol("request", w.s3.bad[0])
    db.check_scan("end", "contents"); db.stop(); db.m.close()
    ctx.sample = {"cloud": case["cloud"], "storages": {n: c["region_size"] for n, c in w.st.items()}}

def cases():
    return [dict(seed=k, cloud=(None, "mock", "s3", "mock")[k % 4], wal=k % 3 != 0, steps=40, variant="asan" if k % 9 == 5 else "plain") for k in range(240 if not THOROUGH else 3000)]

if __name__ == "__main__":
    c = Check("C35", "exploration", variants=("plain", "asan"))
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), budget=800 if THOROUGH else 150)
    c.finish("one case = a random database on disk, mock cloud or S3 server; every file call and request of each command is recorded and compared with the regions of the files as read by an independent decoder: cursors only read regions between their start and their position, each once, "
             "from the local copy if there is one; writes and SHOW read and change no partition; opening reads no regions; maintenance reads and writes the files of its partition only, each byte once",
             ["a cursor may read the region before the first one that holds a matching event"], need=("cursors", "reads_local", "reads_mock", "reads_s3", "regions_spared", "walked_to_end", "writes", "shows", "did_refresh", "did_move", "did_upload", "did_download", "merged_regions", "opens", "index_reads"))
