import sys, os, re, hashlib; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *
from schema import Schema, hostile, uuid_of

STARTUP = ("workers", "workers_upload", "serial", "wal", "wal_crc", "mm_page_size", "mm_limit", "mm_limit_wm", "mm_cache", "log", "log_to_file", "sync", "uuid", "mm_limit_behaviour")
READONLY = ("version", "directory", "lsn", "online")

class World:
    """a database with a schema that changes, and a complete picture of its state"""
    def __init__(self, ctx, case):
        self.ctx, self.case = ctx, case
        r = self.r = rng_of(case, "c22")
        self.db = db = Db(ctx, r, case.get("variant", "plain"), ["interval to %d" % r.choice((10, 100)), "mm_page_size to 65536", "wal_crc to true"] + r.choice(([], ["compression to 'zstd'"])))
        db.start()
        self.s = Schema(db, r)
        self.g = Gen(r, 100, ids="dense", keys=r.choice(("none", "short")), maxval=900)
        for n in ("c1", "c2"): self.good("create cloud %s (type 'mock')" % n)
        self.good("create storage a (cloud 'c1', cloud_drop_local false)"); self.good("create storage b (region_size 200)"); self.good("create storage e")
        self.n = 0
    def good(self, text):
        ok, t = self.db.m.cmd("sqlx " + text.encode("latin1").hex()); self.db.note(text)
        if not ok: raise Viol("refused", "%r failed: %s; before %s" % (text, t, self.db.trail[-8:]))
        return t
    def fresh(self, p):
        self.n += 1
        return "%s_%d_%s" % (p, self.n, self.r.choice(("x", "Y", "long" * 10)))
    # ---- state
    def snapshot(self, after_reopen=False):
        db = self.db
        s = dict(clouds=db.js("show clouds"), pipeline=db.js("show pipeline"))
        st = db.js("show storages")
        s["storages"] = {k: v["config"] for k, v in st.items()}
        s["config"] = {k: v for k, v in db.js("show config").items() if k != "ssn"}
        ps = db.parts()
        s["partitions"] = [(p["min"], p["max"], p["storage"], p["on_storage"], p["on_cloud"], p["refreshes"]) + (() if after_reopen else (p["events"], p["events_heap"], p["created"], p["refreshed"])) for p in ps if not after_reopen or p["on_storage"] or p["on_cloud"]]
        s["events"] = db.scan()
        cj = open(os.path.join(db.path, "config.json"), "rb").read()
        s["config.json"] = cj if not after_reopen else b""
        files = {}
        for d, _, fs in os.walk(db.path):
            for f in fs:
                p = os.path.join(d, f); q = os.path.relpath(p, db.path)
                if q in ("log", "config.json") or after_reopen and q.startswith("wal/"): continue
                files[q] = hashlib.sha1(open(p, "rb").read()).hexdigest()[:12]
        s["files"] = files
        if not after_reopen:
            s["wal"] = db.js("show wal"); s["memory"] = {k: v for k, v in db.js("show memory").items() if k != "limit_hits"}
            s["stats"] = {k: v.get("stats") for k, v in st.items()}
        else:
            for k in ("lsn",): s["config"].pop(k, None)
        return s
    def same(self, a, b, why, key):
        for k in a:
            if a[k] != b[k]:
                x, y = a[k], b[k]
                if isinstance(x, dict): d = {q: (x.get(q), y.get(q)) for q in sorted(set(x) | set(y), key=str) if x.get(q) != y.get(q)}
                elif isinstance(x, list): d = ([q for q in x if q not in y][:4], [q for q in y if q not in x][:4])
                else: d = (x[-300:], y[-300:])
                raise Viol(key + "-" + k.replace(".", "-"), "%s: %s changed from/to %s; before %s" % (why, k, str(d)[:900], self.db.trail[-8:]))
    # ---- evolution
    def step(self):
        r, db = self.r, self.db
        x = r.random()
        if x < .3: db.write(self.g.batch(r.choice((1, 5, 30)), live=db.live()))
        elif x < .7: self.s.step()
        elif x < .8: db.op_refresh()
        elif x < .84: db.op_move()
        elif x < .9:
            n = [p["min"] for p in db.parts() if p["storage"] != "main" and p["on_storage"] and not p["on_cloud"]]
            if n: db.trysql("upload partition %d if cloud" % r.choice(n))
        elif x < .93:
            st = {k: v["config"] for k, v in db.js("show storages").items()}
            ns = r.sample(list(st), min(len(st), r.choice((1, 2, 3))))
            self.s.run("alter pipeline set " + ", ".join("%s (partitions %d)" % (n, r.choice((5, 1000))) for n in ns))
        elif x < .95: db.op_rotate()
        else: db.op_refresh_range()
        db.ctx.add("steps")
    # ---- commands that must be refused
    def bad(self):
        r, db = self.r, self.db
        st = {k: v["config"] for k, v in db.js("show storages").items()}
        cl = db.js("show clouds"); pipe = [t["name"] for t in db.js("show pipeline")]; ps = db.parts()
        used = {v["cloud"] for v in st.values() if v["cloud"]}
        full = {p["storage"] for p in ps}; cloudy = {p["storage"] for p in ps if p["on_cloud"]}
        mins = {p["min"] for p in ps}
        def miss(): return r.choice(("nope", self.fresh("q"), "mai", "mainx", "MAIN"))
        def nopart():
            for _ in range(50):
                x = r.choice((0, 1, 5, U64, 1 << 63, r.randrange(2000)) + tuple(m + d for m in list(mins)[:20] for d in (1, -1)))
                if 0 <= x <= U64 and not any(p['min'] <= x <= p['max'] for p in ps): return x
            return None
        free = nopart()
        if free is None: return "drop storage nope", "unknown"
        def sopt(): return r.choice(("", "sync false, ", "region_size 5000, refresh_wm 1, ", "path 'zz', ", "compression 'lz4', compression_level 1, "))
        badopt = lambda: r.choice(("compression 'bad'", "region_size 0", "encryption 'rot13'", "encryption_key 'short'", "bogus 1", "sync 5", "crc 'x'", "region_size 'a'", "refresh_wm true", "compression 5", "uuid 5", "path 1", "cloud nope", "cloud 'missing_cloud'"))
        S, C = list(st), list(cl)
        out = [("create cloud %s (type '%s')" % (self.fresh("c"), r.choice(("bogus", "", "Mock", "mockk"))), "type"),
               ("create cloud %s" % self.fresh("c"), "type"), ("create cloud %s (url 'x')" % self.fresh("c"), "type"),
               ("create cloud %s (type 's3', %s)" % (self.fresh("c"), r.choice(("url 'http://127.0.0.1:1'", "login 'a', password 'b'", "url 'x', login 'a'", "url 'x', password 'a'"))), "s3 option missing"),
               ("create cloud %s (type 'mock', %s)" % (self.fresh("c"), r.choice(("bogus 1", "debug 5", "url 5", "login true", "url"))), "option"),
               ("alter cloud %s set (url 'x')" % miss(), "unknown"), ("alter cloud %s rename to %s" % (miss(), self.fresh("c")), "unknown"), ("drop cloud %s" % miss(), "unknown"),
               ("create storage %s (%scloud 'missing_cloud')" % (self.fresh("s"), sopt().replace("path 'zz', ", "")), "unknown cloud"), ("create storage %s (%s%s)" % (self.fresh("s"), sopt(), badopt()), "option"),
               ("alter storage %s set (sync false)" % miss(), "unknown"), ("alter storage %s rename to %s" % (miss(), self.fresh("s")), "unknown"), ("drop storage %s" % miss(), "unknown"),
               ("drop storage main", "main"), ("drop storage if exists main", "main"), ("alter storage main rename to %s" % self.fresh("m"), "main"),
               ("alter storage %s set (%s%s)" % (r.choice(S), sopt().replace("path 'zz', ", ""), badopt()), "option"), ("alter storage %s set (%suuid '%s')" % (r.choice(S), sopt().replace("path 'zz', ", ""), uuid_of(r)), "uuid"),
               ("alter storage %s set (%scloud 'missing_cloud')" % (r.choice(S), sopt().replace("path 'zz', ", "")), "unknown cloud"),
               ("alter pipeline set %s, %s" % (r.choice(S) + " (partitions 3)", miss()), "unknown"), ("alter pipeline set %s" % miss(), "unknown"), ("alter pipeline set %s (bogus 1)" % r.choice(S), "option"),
               ("alter pipeline set %s (%s true)" % (r.choice(S), r.choice(("size", "events", "partitions", "duration"))), "option"), ("alter pipeline set", "syntax"), ("alter pipeline set %s (partitions 1), %s (events 1)" % ((r.choice(S),) * 2), "duplicate"),
               ("set %s to %s" % (r.choice(STARTUP), r.choice(("0", "1", "true", "false", "'x'"))), "start-up"), ("set %s to %s" % (r.choice(READONLY), r.choice(("1", "true", "'x'"))), "read-only"), ("set bogus_%d to 1" % r.randrange(9), "unknown"),
               ("set interval to %s" % r.choice(("0", "'x'", "true", "", "1 2", "-1", "1.5")), "value"), ("set wal_rotate_wm to %s" % r.choice(("'5'", "true", "x")), "value"), ("set compression to %s" % r.choice(("5", "true", "zstd")), "value"),
               ("create partition %d %d" % (lambda a: (a + 1 + r.randrange(50), a))(r.randrange(3000)), "range"),
               ("%s partition %d" % (r.choice(("drop", "refresh", "download", "upload")), free), "unknown"), ("move partition %d into %s" % (free, r.choice(S)), "unknown"), ("show partition %d" % free, "unknown"),
               ("show %s %s" % (r.choice(("cloud", "storage", "partitions")), r.choice(("nope", "qq_1"))), "unknown"), ("show bogus", "unknown"), ("debug 'bogus'", "unknown"), ("debug wal_gc", "syntax")]
        if ps:
            p = r.choice(ps)
            out += [("move partition %d into %s" % (p["min"], r.choice(("nope", "qq"))), "unknown"), ("move partitions between 0 and %d into nope" % U64, "unknown")]
            q = [x for x in ps if not st[x["storage"]]["cloud"]]
            if q: out += [("%s partition %d" % (r.choice(("upload", "download")), r.choice(q)["min"]), "no cloud")] * 2
            q = [x for x in ps if st[x["storage"]]["cloud"] and not x["on_storage"] and not x["on_cloud"]]
            if q: out += [("upload partition %d" % r.choice(q)["min"], "no file")]
        if len(S) > 1:
            a, b = r.sample(S, 2)
            out += [("alter pipeline set %s (partitions 1), %s (%s 1), %s" % (a, b, r.choice(("partitions", "events", "size", "duration")), a), "duplicate apart"),
                    ("alter pipeline set %s (partitions 1), %s (partitions 1), %s (events 5), %s" % (a, b, r.choice((a, b)), b), "duplicate apart")]
            out += [("alter pipeline set %s, %s" % tuple(r.sample(S, 2)), "no condition"), ("alter storage %s rename to %s" % (r.choice([x for x in S if x != "main"]), r.choice(S)), "duplicate")] * 2
        out += [("create storage %s (sync false)" % r.choice(S), "duplicate"), ("create storage %s" % r.choice(S), "duplicate")]
        if C: out += [("create cloud %s (type 'mock', url 'other')" % r.choice(C), "duplicate"), ("alter cloud %s set (url 'z', type 'mock')" % r.choice(C), "type"), ("alter cloud %s rename to %s" % (r.choice(C), r.choice(C)), "duplicate")]
        for n in used & set(C): out += [("drop cloud %s%s" % (r.choice(("", "if exists ")), n), "in use")] * 2
        for n in full - {"main"}: out.append(("drop storage %s%s" % (r.choice(("", "if exists ")), n), "has partitions"))
        for n in set(pipe) - {"main"}: out.append(("drop storage %s%s" % (r.choice(("", "if exists ")), n), "in pipeline"))
        for n in full: out += [("alter storage %s set (%s%s)" % (n, r.choice(("refresh_wm 77, ", "sync true, ", "")), r.choice(("crc true", "crc false", "path 'np_%d'" % self.n, "encryption 'aes'", "encryption_key '%s'" % ("k" * 32)))), "not empty")]
        for n in cloudy: out += [("alter storage %s set (refresh_wm 78, cloud '%s')" % (n, r.choice(("", "c2")))  if st[n]["cloud"] != "c2" else "alter storage %s set (cloud '')" % n, "partitions on the cloud")] * 3
        # a good command with something behind it
        tails = (" zzz", " zzz 5", " )", " 'unterminated", " 5x", " ;")
        goodones = ["create cloud %s (type 'mock')" % self.fresh("t"), "create storage %s (sync false)" % self.fresh("t"), "alter storage main set (refresh_wm 1234)", "alter pipeline reset", "set interval to 7777", "set wal_rotate_wm to 7777777", "create partition %d %d" % (free, U64), "checkpoint", "service", "rebalance",
                    "drop partitions between 0 and %d" % U64, "refresh partitions between 0 and %d" % U64, "debug 'wal_create'"] + (["drop partition %d" % r.choice(list(mins)), "move partition %d into e" % r.choice(list(mins))] if mins else []) + (["drop storage e"] if "e" in S else []) + (["drop cloud %s" % C[0], "alter cloud %s set (url 'tail')" % C[0], "alter cloud %s rename to %s" % (C[0], self.fresh("t"))] if C else [])
        out += [(r.choice(goodones) + r.choice(tails), "trailing text") for _ in range(4)]
        t = r.choice(goodones).split(" ")
        if len(t) > 3: out += [(" ".join(t[:r.randrange(1, 3)]), "cut"), (t[0] + " " + " ".join(t[2:]), None)]
        return r.choice(out)
    def noop(self):
        r, db = self.r, self.db
        st = {k: v["config"] for k, v in db.js("show storages").items()}; C = list(db.js("show clouds")); ps = db.parts(); mins = {p["min"] for p in ps}
        S = list(st)
        x = next(x for x in iter(lambda: r.choice((1, 7, U64, U64 - 5, r.randrange(5000), r.getrandbits(64))), None) if not any(p["min"] <= x <= p["max"] for p in ps))
        out = ["create storage if not exists %s (%s)" % (r.choice(S), r.choice(("", "sync false, region_size 5", "compression 'lz4'", "uuid '%s'" % uuid_of(r)))), "drop storage if exists nope", "drop cloud if exists nope",
               "alter storage if exists nope set (sync false)", "alter storage if exists nope rename to zz", "alter cloud if exists nope set (url 'x')", "alter cloud if exists nope rename to zz",
               "drop partition if exists %d" % x, "refresh partition if exists %d" % x, "move partition if exists %d into %s" % (x, r.choice(S)), "download partition if exists %d" % x, "upload partition if exists %d" % x]
        if C: out.append("create cloud if not exists %s (type '%s', url 'other')" % (r.choice(C), r.choice(("mock", "s3"))))
        q = [p for p in ps if not st[p["storage"]]["cloud"]]
        if q: out.append("%s partition %d if cloud" % (r.choice(("download", "upload")), r.choice(q)["min"]))
        return r.choice(out)
    def try_bad(self):
        db, ctx = self.db, self.ctx
        text, cause = self.bad()
        if self.r.random() < .3: text = " ".join(w.upper() if w.isalpha() and w in KW else w for w in text.split(" "))
        before = self.snapshot()
        ok, t = db.m.cmd("sqlx " + text.encode("latin1").hex())
        db.note(text + (" -> ok" if ok else " -> " + t[:60]))
        if ok:
            if cause: raise Viol("accepted", "%r (%s) was accepted; before %s" % (text, cause, db.trail[-8:]))
            self.resync(); return
        ctx.add("refused"); ctx.see("causes", "%s: %s" % (" ".join(text.lower().split()[:2])[:24], cause)); ctx.see("errors", re.sub(r"[0-9]+|'[^']*'", "#", t)[:70])
        if not t.strip(): raise Viol("no-text", "%r failed without a message" % text)
        self.same(before, self.snapshot(), "failed %r (%s)" % (text, t[:100]), "failed")
    def try_in_use(self):
        """commands on a partition in which a cursor of this thread stands"""
        db, ctx, r = self.db, self.ctx, self.r
        live = db.live()
        if not live: return
        i, k = r.choice(live); p = [p for p in db.parts() if p["min"] <= i <= p["max"]][0]
        db.m.ok("co 0 %d %s" % (i, kx(k)))
        if db.m.ok("cr 0") == "": pass
        before = self.snapshot()
        text = r.choice(("refresh partition %d", "move partition %d into e", "move partition %d into b", "drop partition %d", "drop partition %d on cloud", "move partition %d into nope")) % p["min"]
        if text.endswith("into %s" % p["storage"]) and not p["on_cloud"]: db.m.ok("cc 0"); return
        ok, t = db.m.cmd("sql " + text); db.note("[cursor] " + text)
        if ok: raise Viol("accepted", "%r was accepted under a cursor of its own; before %s" % (text, db.trail[-8:]))
        if "between" not in text: self.same(before, self.snapshot(), "failed %r (%s)" % (text, t[:100]), "failed")
        ctx.add("refused"); ctx.add("in_use"); ctx.see("causes", " ".join(text.split()[:2]) + ": cursor")
        db.m.ok("cc 0")
    def good_ddl(self, text):
        ok, t = self.db.m.cmd("sqlx " + text.encode("latin1").hex()); self.db.note(text)
        if not ok: raise Viol("must-work", "%r failed: %s; before %s" % (text, t, self.db.trail[-12:]))
        self.ctx.add("free_dropped"); self.resync()
    def free(self):
        """what nothing uses: a failed command holds on to nothing"""
        st = {k: v["config"] for k, v in self.db.js("show storages").items()}; pipe = {t["name"] for t in self.db.js("show pipeline")}; full = {p["storage"] for p in self.db.parts()}
        return ["drop storage " + n for n in st if n != "main" and n not in pipe and n not in full] + ["drop cloud " + n for n in self.db.js("show clouds") if n not in {v["cloud"] for v in st.values()}]
    def try_free(self):
        f = [x for x in self.free() if x not in ("drop storage e", "drop cloud c1", "drop cloud c2")]
        if f: self.good_ddl(self.r.choice(f))
    def drop_all(self):
        db = self.db
        db.sql("drop partitions between 0 and %d" % U64); db.model = {}; db.live_cache = None
        if db.parts(): raise Viol("must-work", "partitions left after drop partitions between 0 and %d: %s" % (U64, db.parts()[:3]))
        if self.r.random() < .7: self.good_ddl("alter pipeline reset")
        else: self.good_ddl("alter pipeline set main")
        for _ in range(50):
            f = self.free()
            if not f: break
            self.good_ddl(self.r.choice(f))
        left = [k for k in db.js("show storages") if k != "main"] + list(db.js("show clouds"))
        if left and left != [db.js("show storages")["main"]["config"]["cloud"]]: raise Viol("must-work", "cannot be dropped: %s" % left)
    def try_noop(self):
        db, ctx = self.db, self.ctx
        text = self.noop(); before = self.snapshot()
        ok, t = db.m.cmd("sqlx " + text.encode("latin1").hex()); db.note(text)
        if not ok: raise Viol("if-exists", "%r failed: %s; before %s" % (text, t, db.trail[-8:]))
        ctx.add("noops"); ctx.see("noop_kinds", " ".join(w for w in text.split()[:5] if w in KW))
        self.same(before, self.snapshot(), "%r, which should have no effect" % text, "noop")
    def resync(self):
        s = self.s; s.storages = {k: v["config"] for k, v in self.db.js("show storages").items()}; s.clouds = self.db.js("show clouds"); s.pipeline = self.db.js("show pipeline")
    def reopen(self):
        db, r = self.db, self.r
        before = self.snapshot(True)
        if r.random() < .3: db.kill(); db.start()
        else: db.reopen(fresh=r.random() < .3)
        self.same(before, self.snapshot(True), "reopen after failed commands", "reopened"); self.ctx.add("reopens")
KW = set("create drop alter storage cloud pipeline set rename to if not exists partition partitions between and into move refresh download upload checkpoint service rebalance show reset debug".split())

def fn(ctx, case):
    w = World(ctx, case); r, db = w.r, w.db
    for _ in range(case["rounds"]):
        for _ in range(r.randrange(0, 4)): w.step()
        for _ in range(r.randrange(1, 6)): r.choice((w.try_bad,) * 8 + (w.try_noop, w.try_noop, w.try_in_use, w.try_free))()
        if r.random() < .1: w.reopen()
    w.reopen(); db.check_scan("end")
    if case["seed"] % 3 == 0: w.drop_all(); db.check_scan("all dropped")
    db.stop(); db.m.close()
    ctx.sample = {"case": case, "trail": db.trail[-10:]}

def before_open(ctx, case):
    """settings before the open: refused ones do not stick"""
    r = rng_of(case, "c22b")
    m = ctx.mnx("plain"); m.ok("init")
    for _ in range(60):
        b = m.js("show config") if False else None
        text = r.choice(("set interval to 0", "set interval to 'x'", "set workers to 'x'", "set wal to 5", "set uuid to 5", "set bogus to 1", "set version to 'x'", "set directory to 'x'", "set online to true", "set mm_page_size to true", "set compression to 5", "set interval to 5 5", "set serial to true zzz", "set mm_page_size",
                         "checkpoint", "create storage x", "service", "drop storage main", "create cloud c (type 'mock')", "alter pipeline reset", "create partition 1 5", "debug 'wal_gc'", "move partition 5 into main", "rebalance", "drop partition 1", "set mm_page_size to 0", "set lsn to 7"))
        before = m.ok("sql show config"); ok, t = m.cmd("sql " + text)
        if ok and text not in ("set mm_page_size to 0", "set lsn to 7"): raise Viol("accepted", "%r was accepted before open" % text)
        if not ok:
            ctx.add("refused")
            if m.ok("sql show config") != before: raise Viol("failed-config", "%r failed before the open and changed the settings" % text)
        elif m.ok("sql show config") != before: m.ok("free"); m.ok("init")
    m.ok("free"); m.close(); ctx.add("before_open")
    ctx.sample = {"case": case}

def run(ctx, case): (before_open if case["mode"] == "before" else fn)(ctx, case)
def cases():
    n = 1000 if not THOROUGH else 8000
    return [dict(seed=k, mode="before" if k % 20 == 19 else "run", rounds=15 if not THOROUGH else 40, variant="asan" if k % 12 == 6 else "plain") for k in range(n)]

if __name__ == "__main__":
    c = Check("C22", "exploration", variants=("plain", "asan"))
    one = replay_case(sys.argv)
    c.run(run, [one] if one else cases(), budget=800 if THOROUGH else 120)
    c.finish("one case = a database with clouds, storages, pipeline, partitions and data in all states, and generated commands that must be refused (unknown, duplicate, in use, invalid, start-up setting, cut or trailing text) or have no effect (IF [NOT] EXISTS); "
             "schema, settings, partitions, events, statistics, log and every file are compared before and after, and again across reopens",
             need=("refused", "noops", "in_use", "reopens", "causes", "before_open", "free_dropped"))
