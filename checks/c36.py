import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from program import *

# what every command does to the catalog, and when it is refused: a reference model next to the real thing
LEVELS = {"": 0, "zstd": 19, "lz4": 12}
TIER = ("partitions", "size", "events", "duration")

class Refused(Exception): pass
def need(c, why):
    if not c: raise Refused(why)

class Cat:
    def __init__(self, ctx, case):
        self.ctx = ctx; r = self.r = rng_of(case, "c36")
        self.iv = r.choice((10, 100, 1000))
        self.conf = {"compression": r.choice(("", "lz4", "zstd", "zstd")), "compression_level": r.choice((0, 1, 5))}
        db = self.db = Db(ctx, r, case["variant"], ["interval to %d" % self.iv, "mm_page_size to 65536", "wal to %s" % r.choice(("true", "true", "false")), "wal_rotate_wm to %d" % r.choice((3000, 1 << 20)),
                                                    "compression to '%s'" % self.conf["compression"], "compression_level to %d" % self.conf["compression_level"]])
        db.start()
        self.defaults = {k: v for k, v in db.js("show storages")["main"]["config"].items() if k not in ("uuid", "name")}
        for k in self.conf: self.defaults.pop(k)
        self.clouds = {}; self.stores = {"main": self.fresh({})}; self.pipe = []
        self.parts = []          # {min max storage local cloud}
        self.heap = {}           # what is only in memory (and may hide what is in the files)
        self.n = 0; self.loose = False; self.last = []
    def fresh(self, o):
        d = dict(self.defaults)
        # nothing is chosen if no default compression is set
        d.update({"compression": "", "compression_level": 0})
        if self.conf["compression"]: d.update(self.conf)
        d.update(o); return d
    # names
    def name(self, pool, new="n"):
        r = self.r
        if pool and r.random() < .8: return r.choice(list(pool))
        self.n += 1; return "%s%d" % (new, self.n)
    def cond(self, text, p=.35): return (" " + text, True) if self.r.random() < p else ("", False)
    def store_opts(self, alter):
        """(options text, values, problem of the text)"""
        r = self.r; o = {}; t = []; bad = None
        def put(k, v, lit=None): o[k] = v; t.append("%s %s" % (k, lit if lit is not None else "'%s'" % v if isinstance(v, str) else str(v).lower()))
        mock = [c for c, m in self.clouds.items() if m["type"] == "mock"]
        if r.random() < (.25 if alter else .5): put("cloud", r.choice(mock) if mock and r.random() < .85 else r.choice(("", "nocloud")))
        if r.random() < .35: put("cloud_drop_local", r.random() < .5)
        if r.random() < .2: put("sync", r.random() < .3)
        if r.random() < .15: put("crc", r.random() < .5)
        if r.random() < .3: put("refresh_wm", r.choice((0, 5000, 1 << 33)))
        if r.random() < .3: put("region_size", r.choice((1, 300, 1 << 17, 1 << 33)))
        if r.random() < .3: put("compression", r.choice(tuple(LEVELS)))
        if r.random() < .3: put("compression_level", r.choice((0, 1, 3)))
        if r.random() < .12: put("path", r.choice(("p1", "p 2")))
        if r.random() < .12: put("encryption", "aes"); t.append("encryption_key '%s'" % "".join(r.choice("abcxyz019") for _ in range(32)))
        if r.random() < .1:
            bad = r.choice(("region_size 0", "compression 'gzip'", "encryption 'rot13'", "encryption_key 'short'", "colour 'red'", "regions 5", "compression_ 'lz4'") + (("uuid '11111111-2222-3333-4444-555555555555'",) if alter else ())); t.append(bad)
        r.shuffle(t)
        return "(%s)" % ", ".join(t) if t else "", o, bad
    def cloud_opts(self, alter):
        r = self.r; o = {}; t = []; bad = None
        if not alter and r.random() < .95: o["type"] = r.choice(("mock", "mock", "mock", "s3", "ftp")); t.append("type '%s'" % o["type"])
        for k, alias in (("url", "url"), ("login", "access_key"), ("password", "secret_key")):
            if r.random() < (.4 if alter else .75): o[k] = r.choice(("", "http://127.0.0.1:1", "it is", "x%d" % self.n, "a" * 70)); t.append("%s '%s'" % (r.choice((k, alias)), o[k]))
        if r.random() < .4: o["debug"] = r.random() < .5; t.append("debug " + str(o["debug"]).lower())
        if r.random() < .08: bad = r.choice(("colour 'red'", "urls 'x'") + (("type 'mock'",) if alter else ())); t.append(bad)
        r.shuffle(t)
        return "(%s)" % ", ".join(t) if t else "", o, bad
    @staticmethod
    def valid_cloud(m):
        need(m["type"] in ("mock", "s3"), "unknown type")
        if m["type"] == "s3": need(m["login"] and m["password"] and m["url"], "s3 without an address or keys")
    # partitions
    def find(self, i):
        for p in self.parts:
            if p["min"] <= i <= p["max"]: return p
    def span(self, lo, hi): return [p for p in self.parts if lo <= p["min"] and p["max"] <= hi]
    def has_cloud(self, p): return self.stores[p["storage"]]["cloud"] != ""
    def gone(self, p):
        """the last file of the partition is removed"""
        lo, hi = p["min"], p["max"]
        for k in [k for k in self.db.model if lo <= k[0] <= hi]: del self.db.model[k]
        for k, v in self.heap.items():
            if lo <= k[0] <= hi and v is not None: self.db.model[k] = v
        self.db.live_cache = None; self.loose = True
    def flush(self, p):
        for k in [k for k in self.heap if p["min"] <= k[0] <= p["max"]]: del self.heap[k]
    def drop(self, p, mask):
        if mask == "all":
            self.parts.remove(p); self.flush(p)
            for k in [k for k in self.db.model if p["min"] <= k[0] <= p["max"]]: del self.db.model[k]
            self.db.live_cache = None; return
        had = p["local"] or p["cloud"]
        p["local" if mask == "storage" else "cloud"] = False
        if had and not p["local"] and not p["cloud"]: self.gone(p)
    def refresh(self, p, to):
        if p["cloud"]: p["local"] = True; p["cloud"] = False
        if to is None or to != p["storage"]:
            p["storage"] = to or p["storage"]; p["local"] = True; self.flush(p)
        if self.has_cloud(p) and p["local"]:
            p["cloud"] = True
            if self.stores[p["storage"]]["cloud_drop_local"]: p["local"] = False
    def upload(self, p, ifc):
        need(self.has_cloud(p) or ifc, "no cloud")
        if not self.has_cloud(p) or p["cloud"]: return
        need(p["local"] or ifc, "no file to upload")
        if p["local"]: p["cloud"] = True
    def download(self, p, ifc):
        need(self.has_cloud(p) or ifc, "no cloud")
        if self.has_cloud(p) and p["cloud"]: p["local"] = True
    def pid(self):
        r = self.r
        if self.parts and r.random() < .85: p = r.choice(self.parts); return r.choice((p["min"], p["min"], p["max"]))
        return r.choice((0, self.iv * r.randrange(60), U64))
    def bounds(self):
        """a range which starts between partitions"""
        r = self.r
        if not self.parts or r.random() < .15: return 0, U64
        a, b = sorted((r.choice(self.parts), r.choice(self.parts)), key=lambda p: p["min"])
        return a["min"], r.choice((b["max"], b["max"], b["min"], b["max"] + 1, max(a["min"], b["max"] - 1)))
    # one command: text and what it does
    def command(self):
        r = self.r; k = pick(r, dict(create_cloud=5, drop_cloud=3, alter_cloud=5, rename_cloud=3, create_storage=7, drop_storage=5, alter_storage=9, rename_storage=4, pipeline=5,
                                     create_partition=3, drop=4, drop_range=2, move=6, move_range=3, refresh=5, refresh_range=2, upload=5, upload_range=3, download=5, download_range=3, set=2))
        self.ctx.see("commands", k)
        return getattr(self, "c_" + k)()
    def c_set(self):
        k = self.r.choice(tuple(self.conf)); v = self.r.choice(("", "lz4", "zstd")) if k == "compression" else self.r.choice((0, 1, 2, 7))
        def ap(): self.conf[k] = v
        return "set %s to %s" % (k, "'%s'" % v if isinstance(v, str) else v), ap
    def c_create_cloud(self):
        t, ine = self.cond("if not exists"); n = self.name(self.clouds if self.r.random() < .3 or len(self.clouds) > 3 else (), "c"); o, m, bad = self.cloud_opts(False)
        def ap():
            need(not bad, bad)
            if n in self.clouds: return need(ine, "exists")
            m2 = {"type": "", "url": "", "login": "", "password": "", "debug": False}; m2.update(m); self.valid_cloud(m2); self.clouds[n] = m2
        return "create cloud%s %s %s" % (t, n, o), ap
    def c_drop_cloud(self):
        t, ife = self.cond("if exists"); n = self.name(self.clouds)
        def ap():
            if n not in self.clouds: return need(ife, "missing")
            need(all(s["cloud"] != n for s in self.stores.values()), "in use"); del self.clouds[n]
        return "drop cloud%s %s" % (t, n), ap
    def c_alter_cloud(self):
        t, ife = self.cond("if exists"); n = self.name(self.clouds); o, m, bad = self.cloud_opts(True)
        def ap():
            need(not bad, bad)
            if n not in self.clouds: return need(ife, "missing")
            m2 = dict(self.clouds[n]); m2.update(m); self.valid_cloud(m2); self.clouds[n] = m2
        return "alter cloud%s %s set %s" % (t, n, o), ap
    def c_rename_cloud(self):
        t, ife = self.cond("if exists"); n = self.name(self.clouds); to = self.name(self.clouds if self.r.random() < .3 else (), "c")
        def ap():
            if n not in self.clouds: return need(ife, "missing")
            need(to not in self.clouds, "exists"); self.clouds[to] = self.clouds.pop(n)
            for s in self.stores.values():
                if s["cloud"] == n: s["cloud"] = to
        return "alter cloud%s %s rename %s%s" % (t, n, self.r.choice(("", "to ")), to), ap
    def c_create_storage(self):
        t, ine = self.cond("if not exists"); n = self.name(self.stores if self.r.random() < .3 or len(self.stores) > 5 else (), "s"); o, m, bad = self.store_opts(False)
        def ap():
            need(not bad, bad)
            if n in self.stores: return need(ine, "exists")
            need(m.get("cloud", "") in ("",) + tuple(self.clouds), "no such cloud"); self.stores[n] = self.fresh(m)
        return "create storage%s %s %s" % (t, n, o), ap
    def c_drop_storage(self):
        t, ife = self.cond("if exists"); n = self.name(self.stores)
        def ap():
            need(n != "main", "main")
            if n not in self.stores: return need(ife, "missing")
            need(all(x[0] != n for x in self.pipe), "in the pipeline"); need(all(p["storage"] != n for p in self.parts), "has partitions"); del self.stores[n]
        return "drop storage%s %s" % (t, n), ap
    def c_alter_storage(self):
        t, ife = self.cond("if exists"); n = self.name(self.stores); o, m, bad = self.store_opts(True)
        def ap():
            need(not bad, bad)
            if n not in self.stores: return need(ife, "missing")
            if any(x in m for x in ("crc", "path", "encryption")): need(all(p["storage"] != n for p in self.parts), "has partitions")
            if "cloud" in m:
                need(not any(p["storage"] == n and p["cloud"] for p in self.parts), "partitions on the cloud"); need(m["cloud"] in ("",) + tuple(self.clouds), "no such cloud")
            self.stores[n].update(m)
        return "alter storage%s %s set %s" % (t, n, o), ap
    def c_rename_storage(self):
        t, ife = self.cond("if exists"); n = self.name(self.stores); to = self.name(self.stores if self.r.random() < .3 else (), "s")
        def ap():
            need(n != "main", "main")
            if n not in self.stores: return need(ife, "missing")
            need(to not in self.stores, "exists"); self.stores[to] = self.stores.pop(n)
            for p in self.parts:
                if p["storage"] == n: p["storage"] = to
            self.pipe = [(to if a == n else a, b) for a, b in self.pipe]
        return "alter storage%s %s rename %s%s" % (t, n, self.r.choice(("", "to ")), to), ap
    def c_pipeline(self):
        r = self.r
        if r.random() < .2:
            def ap0(): self.pipe = []
            return "alter pipeline reset", ap0
        l = []
        for _ in range(r.choice((1, 1, 2, 3))):
            l.append((self.name(self.stores) if r.random() < .95 else "nothing", {f: r.choice((1000, 1 << 33, 10 ** 15)) for f in TIER if r.random() < .4}))
        def ap():
            need(len({a for a, _ in l}) == len(l), "twice"); need(all(b for _, b in l[:-1]), "terminal tier before the last"); need(all(a in self.stores for a, _ in l), "no such storage")
            self.pipe = l
        return "alter pipeline set " + ", ".join(a + (" (%s)" % ", ".join("%s %d" % x for x in b.items()) if b else "") for a, b in l), ap
    def c_create_partition(self):
        r = self.r; lo = r.randrange(60) * self.iv; hi = lo + self.iv * r.choice((1, 1, 2, 3)) - 1
        if r.random() < .1: lo, hi = hi, lo
        def ap():
            need(lo <= hi, "inverted"); at = lo
            head = self.pipe[0][0] if self.pipe else "main"
            for p in sorted(self.parts, key=lambda p: p["min"]) + [{"min": hi + 1, "max": hi + 1}]:
                end = min(p["min"] - 1, hi)
                if p["max"] >= at:
                    if at <= end: self.parts.append({"min": at, "max": end, "storage": head, "local": False, "cloud": False})
                    at = max(at, p["max"] + 1)
                if at > hi: break
        return "create partition %d %d" % (lo, hi), ap
    def one(self, verb, tail, do):
        t, ife = self.cond("if exists"); i = self.pid()
        def ap():
            p = self.find(i)
            if p is None: return need(ife, "missing")
            do(p)
        return "%s partition%s %d%s" % (verb, t, i, tail), ap
    def many(self, verb, tail, do):
        lo, hi = self.bounds()
        def ap():
            for p in sorted(self.span(lo, hi), key=lambda p: p["min"]): do(p)     # up to the first which is refused
        return "%s partitions between %d and %d%s" % (verb, lo, hi, tail), ap
    def on(self):
        m = self.r.choice(("all", "all", "storage", "cloud")); return m, "" if m == "all" else " on " + m
    def c_drop(self): m, t = self.on(); return self.one("drop", t, lambda p: self.drop(p, m))
    def c_drop_range(self):
        m, t = self.on(); return self.many("drop", t, lambda p: self.drop(p, m))
    def c_move(self):
        to = self.name(self.stores); t, ap = self.one("move", " into " + to, lambda p: self.refresh(p, to))
        def ap2(): need(to in self.stores, "no such storage"); ap()
        return t, ap2
    def c_move_range(self):
        to = self.name(self.stores)
        def do(p): need(to in self.stores, "no such storage"); self.refresh(p, to)
        return self.many("move", " into " + to, do)
    def c_refresh(self): return self.one("refresh", "", lambda p: self.refresh(p, None))
    def c_refresh_range(self): return self.many("refresh", "", lambda p: self.refresh(p, None))
    def c_upload(self): t, ifc = self.cond("if cloud", .5); return self.one("upload", t, lambda p: self.upload(p, ifc))
    def c_upload_range(self): t, ifc = self.cond("if cloud", .5); return self.many("upload", t, lambda p: self.upload(p, ifc))
    def c_download(self): t, ifc = self.cond("if cloud", .5); return self.one("download", t, lambda p: self.download(p, ifc))
    def c_download_range(self): t, ifc = self.cond("if cloud", .5); return self.many("download", t, lambda p: self.download(p, ifc))
    # comparison
    def check(self, why):
        db = self.db
        def bad(what, got, want): raise Viol("catalog", "%s: %s: %s, expected %s; the last commands: %s" % (why, what, str(got)[:500], str(want)[:500], self.last))
        got = db.js("show clouds")
        if set(got) != set(self.clouds): bad("clouds", sorted(got), sorted(self.clouds))
        for n, m in self.clouds.items():
            g = got[n]
            for k, v in m.items():
                if g[k] != ("(secret)" if k == "password" else v): bad("cloud %s.%s" % (n, k), g[k], v)
            if g["name"] != n: bad("cloud name", g["name"], n)
        got = db.js("show storages")
        if set(got) != set(self.stores): bad("storages", sorted(got), sorted(self.stores))
        for n, m in self.stores.items():
            g = got[n]["config"]
            for k, v in m.items():
                if g[k] != v: bad("storage %s.%s" % (n, k), g[k], v)
            if g["name"] != n: bad("storage name", g["name"], n)
        got = db.js("show pipeline") or []
        want = [dict(b, name=a) for a, b in self.pipe]
        if [dict({f: -1 for f in TIER}, **w) for w in want] != [dict(g) for g in got]: bad("pipeline", got, want)
        got = [(p["min"], p["max"], p["storage"], p["on_storage"], p["on_cloud"]) for p in db.parts()]
        want = sorted((p["min"], p["max"], p["storage"], p["local"], p["cloud"]) for p in self.parts)
        if got != want: bad("partitions", [x for x in got if x not in want], [x for x in want if x not in got])
        self.ctx.add("catalogs")
        x = self.r.random()
        if x < .15:       # the same, one by one
            s = self.name(self.stores); ok, t = db.trysql("show storage " + s)
            if ok != (s in self.stores): bad("show storage " + s, ok, s in self.stores)
            ok, t = db.trysql("show partitions " + s)
            if ok != (s in self.stores): bad("show partitions " + s, ok, s in self.stores)
            if ok:
                g = [p["min"] for p in db.parts("show partitions " + s)]
                if g != [w[0] for w in want if w[2] == s]: bad("show partitions " + s, g, [w for w in want if w[2] == s])
            c = self.name(self.clouds); ok, t = db.trysql("show cloud " + c)
            if ok != (c in self.clouds): bad("show cloud " + c, ok, c in self.clouds)
            i = self.pid(); ok, t = db.trysql("show partition %d" % i)
            if ok != (self.find(i) is not None): bad("show partition %d" % i, ok, self.find(i))
            self.ctx.add("single_shows")
    def write(self, g):
        db = self.db; evs = g.batch(self.r.choice((1, 4, 20)), db.live(), rehit=.3, delete=.15)
        old = {(p["min"], p["max"]): p for p in self.parts}
        db.write(evs)
        for e in evs: self.heap[(e[1], e[2])] = None if e[0] else db.model.get((e[1], e[2]))
        head = self.pipe[0][0] if self.pipe else "main"
        for p in db.parts():
            if (p["min"], p["max"]) not in old: self.parts.append({"min": p["min"], "max": p["max"], "storage": head, "local": False, "cloud": False}); self.ctx.add("new_partitions")
    def run(self, steps):
        db, r, ctx = self.db, self.r, self.ctx
        g = Gen(r, self.iv, ids="dense", limit=60, keys="short", vals="small", maxval=300); g.base = self.iv * r.randrange(20)
        for n in range(steps):
            x = r.random()
            if x < .13: self.write(g); self.last.append("write")
            elif x < .17:
                # what is not in a file has no place of its own after a restart
                db.sql("refresh partitions between 0 and %d" % U64)
                for p in self.parts: self.refresh(p, None)
                db.reopen(fresh=r.random() < .3); self.last.append("reopen"); ctx.add("reopens")
                if self.loose:     # DROP .. ON is not logged: what it removed may be back, in memory
                    db.sql("refresh partitions between 0 and %d" % U64)
                    for p in self.parts: self.refresh(p, None)
                    db.model = {(i, k): v for i, k, v in db.scan()}; db.live_cache = None
                if r.random() < .5: db.check_scan("reopen")
            else:
                t, ap = self.command(); self.last.append(t)
                ok, err = db.trysql(t)
                try: ap(); want, why = True, ""
                except Refused as e: want, why = False, str(e)
                ctx.add("succeeded" if ok else "refused")
                if not ok: ctx.see("refusals", t.split("between")[0].split()[0] + " " + t.split()[1] + ": " + why)
                if ok != want: raise Viol("outcome", "%r %s%s, expected to be %s; the last commands: %s" % (t, "succeeded" if ok else "failed", "" if ok else ": " + err[:200], "refused: " + why if not want else "executed", self.last))
            del self.last[:-12]
            self.check("step %d" % n)
            if r.random() < .15: db.check_scan("contents after %s" % self.last[-6:])
        db.check_scan("end, after %s" % self.last[-6:]); db.check_seeks(3, limit=3)
        db.stop(); db.m.close()
        ctx.sample = {"clouds": len(self.clouds), "storages": len(self.stores), "partitions": len(self.parts), "last": self.last[-1]}

def fn(ctx, case): Cat(ctx, case).run(case["steps"])

def cases():
    return [dict(seed=k, steps=100 if not THOROUGH else 250, variant="asan" if k % 10 == 3 else "plain") for k in range(300 if not THOROUGH else 6000)]

if __name__ == "__main__":
    c = Check("C36", "exploration", variants=("plain", "asan"))
    one_ = replay_case(sys.argv)
    c.run(fn, [one_] if one_ else cases(), budget=800 if THOROUGH else 90)
    c.finish("one case = a random history of schema and partition commands, with and without IF EXISTS, IF NOT EXISTS and IF CLOUD, on existing and missing objects, with valid and invalid options; "
             "outcome, the whole catalog (clouds, storages and their options, pipeline, partitions and where they are) and the contents compared with a reference model after every command and reopen",
             need=("succeeded", "refused", "catalogs", "reopens", "new_partitions", "single_shows", "scans"))
