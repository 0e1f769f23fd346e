import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *
from s3 import S3
KEYC = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

class World:
    """a database with cloud storages, and what the clouds hold"""
    def __init__(self, ctx, case, salt="c14", sets=None, wal=None):
        self.ctx, self.case = ctx, case
        r = self.r = rng_of(case, salt)
        wal = r.random() < .6 if wal is None else wal
        self.sets = sets or ["interval to %d" % r.choice((10, 100, 1000)), "mm_page_size to 65536", "wal to %s" % ("true" if wal else "false"), "wal_crc to true",
                             "wal_rotate_wm to %d" % r.choice((3000, 1 << 20))]
        self.db = Db(ctx, r, case.get("variant", "plain"), self.sets); self.db.wal = wal
        self.s3 = None; self.kind = case["cloud"]
        db = self.db.start()
        if self.kind == "s3":
            self.s3 = S3("".join(r.choice(KEYC) for _ in range(r.choice((2, 20)))), "".join(r.choice(KEYC + "/+=%") for _ in range(r.choice((1, 40, 100)))))
            ctx.cleanups.append(self.s3.close); self.s3.stale = r.choice((0, 0, 7, 3))
            db.sql("create cloud c (type 's3', url '%s', access_key '%s', secret_key '%s')" % (self.s3.url(), self.s3.access, self.s3.secret))
        else: db.sql("create cloud c (type 'mock')")
        self.stores = []
        for i in range(r.choice((1, 2))):
            o = ["cloud 'c'", "cloud_drop_local %s" % r.choice(("true", "false"))]
            o.append("compression '%s'" % r.choice(("", "zstd", "lz4"))); o.append("region_size %d" % r.choice((1, 200, 2000, 131072)))
            if r.random() < .3: o.append("crc true")
            if r.random() < .3: o.append("encryption 'aes'")
            db.sql("create storage k%d (%s)" % (i, ", ".join(o))); self.stores.append("k%d" % i)
        if r.random() < .5: db.sql("alter pipeline set k0")
        if r.random() < .4: db.sql("alter storage main set (region_size 300)")
        self.g = Gen(r, 100, ids=r.choice(("shuffle", "dense", "border")), limit=r.choice((30, 150)), keys=r.choice(("none", "short", "mixed")), maxval=5000)
    def write(self, n): self.db.write(self.g.batch(n, self.db.live(), rehit=.3, delete=.12))
    def objects(self):
        """{(uuid, min): bytes} of everything in the clouds"""
        if self.s3:
            with self.s3.lock: return {(b, int(o)): d for b, x in self.s3.buckets.items() for o, d in x.items()}
        out = {}
        for n, s in self.db.js("show storages").items():
            d = os.path.join(self.db.path, s["config"]["uuid"], "mock")
            if os.path.isdir(d):
                for f in os.listdir(d): out[(s["config"]["uuid"], int(f))] = open(os.path.join(d, f), "rb").read()
        return out
    def look(self, why, strict=True):
        """cloud objects against files and SHOW"""
        db, ctx = self.db, self.ctx
        if self.s3: self.s3.check(why)
        st = {n: s["config"]["uuid"] for n, s in db.js("show storages").items()}
        ob = self.objects(); want = set()
        for p in db.parts():
            u = st[p["storage"]]; base = os.path.join(db.path, u, "%020d" % p["min"])
            ctx.see("placements", ("file" if p["on_storage"] else "") + ("+cloud" if p["on_cloud"] else "") + ("+heap" if p["events_heap"] else ""))
            # the last rename of a failed refresh is made up later
            base2 = base if os.path.exists(base) or not os.path.exists(base + ".complete") else base + ".complete"
            if p["on_storage"] and not os.path.exists(base2) or not p["on_storage"] and os.path.exists(base): raise Viol("placement", "%s: SHOW says on_storage %s of %s, file exists: %s" % (why, p["on_storage"], p["min"], os.path.exists(base)))
            if p["on_cloud"]:
                want.add((u, p["min"]))
                d = ob.get((u, p["min"]))
                if d is None: raise Viol("cloud-missing", "%s: partition %d is reported on the cloud, no object there; before %s" % (why, p["min"], db.trail[-10:]))
                if not os.path.exists(base + ".cloud"): raise Viol("cloud-file", "%s: no .cloud file of %d; before %s" % (why, p["min"], db.trail[-10:]))
                c = open(base + ".cloud", "rb").read()
                if d[-len(c):] != c: raise Viol("cloud-index", "%s: .cloud file of %d is not the end of the object" % (why, p["min"]))
                if p["on_storage"]:
                    if open(base2, "rb").read() != d: raise Viol("cloud-object", "%s: object of partition %d differs from its file; before %s" % (why, p["min"], db.trail[-10:]))
                    ctx.add("objects_compared")
                if len(d) != p["size"]: raise Viol("cloud-object", "%s: object of partition %d has %d bytes, SHOW says %d" % (why, p["min"], len(d), p["size"]))
        if strict:
            extra = set(ob) - want
            if extra: raise Viol("cloud-orphan", "%s: objects %s belong to no partition on the cloud; before %s" % (why, sorted(extra)[:4], db.trail[-10:]))
        ctx.add("looks")
    OPS = dict(write=6, refresh=4, refresh_range=2, refresh_all=2, upload=5, download=4, dl=4, dc=2, move=6, move_range=2, service=3, checkpoint=1, reopen=2, scan=3, seeks=2,
               droplocal=1, rotate=1, gc=1, drop=1, updown_range=2, fail=1)
    def step(self, ops=None):
        db, r = self.db, self.r
        op = pick(r, ops or self.OPS)
        ps = db.parts()
        if op == "write": self.write(r.choice((1, 3, 15)))
        elif op == "scan": db.check_scan("scan", "cloud")
        elif op == "seeks": db.check_seeks(4, limit=6, key="cloud")
        elif op == "reopen":
            if not db.wal: db.op_refresh_all()
            if r.random() < .4 and db.wal: db.kill(); db.start()
            else: db.reopen(fresh=r.random() < .3)
            db.check_scan("reopen", "cloud")
        elif op == "droplocal": db.sql("alter storage %s set (cloud_drop_local %s)" % (r.choice(self.stores), r.choice(("true", "false"))))
        elif op in ("rotate", "gc"):
            if db.wal: getattr(db, "op_" + op)()
        elif op == "fail": db.op_fail_refresh()
        elif op == "updown_range" and ps:
            a = r.randrange(len(ps)); b = min(len(ps) - 1, a + r.randrange(4))
            t = "%s partitions between %d and %d if cloud" % (r.choice(("upload", "download")), ps[a]["min"], ps[b]["max"])
            if t.startswith("up"): t = t if all(p["on_storage"] or p["on_cloud"] for p in ps[a:b + 1]) else "show all"
            db.sql(t)
        elif op in ("upload", "download", "dl", "dc"):
            ok = {"upload": lambda p: p["on_storage"] and p["storage"] in self.stores, "download": lambda p: p["on_cloud"],
                  "dl": lambda p: p["on_cloud"] and p["on_storage"], "dc": lambda p: p["on_cloud"] and p["on_storage"]}[op]
            ps = [p for p in ps if ok(p)]
            if not ps: return None
            p = r.choice(ps); i = r.choice((p["min"], p["max"]))
            db.sql({"upload": "upload partition %d", "download": "download partition %d", "dl": "drop partition %d on storage", "dc": "drop partition %d on cloud"}[op] % i)
            q = [x for x in db.parts() if x["min"] == p["min"]][0]
            want = {"upload": (True, True), "download": (True, True), "dl": (False, True), "dc": (True, False)}[op]
            if op == "download" or op == "upload": want = (p["on_storage"] or op == "download", True)
            if (q["on_storage"], q["on_cloud"]) != want: raise Viol("placement", "%s left partition %d on storage/cloud %s" % (op, p["min"], (q["on_storage"], q["on_cloud"])))
        elif ps: getattr(db, "op_" + op)()
        self.ctx.see("ops", op); self.ctx.add("op")
        return op

def other_cloud(w):
    """everything is taken off the cloud, the storages get another cloud or none, later the first one again"""
    db, r, ctx = w.db, w.r, w.ctx
    db.sql("download partitions between 0 and %d if cloud" % U64)
    for p in db.parts():
        if p["on_cloud"]: db.sql("drop partition %d on cloud" % p["min"])
    w.look("off the cloud"); db.check_scan("off the cloud", "cloud")
    if any(w.objects()): raise Viol("cloud-orphan", "objects are left after everything was taken off: %s" % list(w.objects())[:4])
    none = r.random() < .5; first = w.cloud; w.gen = getattr(w, "gen", 0) + 1; name = "c%d" % w.gen
    if none:
        for s in w.stores: db.sql("alter storage %s set (cloud '')" % s)
    else:
        s3b = None
        if w.s3:
            s3b = S3("key%d" % w.gen, "secret%d" % w.gen); ctx.cleanups.append(s3b.close)
            db.sql("create cloud %s (type 's3', url '%s', access_key '%s', secret_key '%s')" % (name, s3b.url(), s3b.access, s3b.secret))
        else: db.sql("create cloud %s (type 'mock')" % name)
        for s in w.stores: db.sql("alter storage %s set (cloud '%s')" % (s, name))
    if r.random() < .7: db.sql("drop cloud " + first); w.cloud = None
    mine = [p for p in db.parts() if p["storage"] in w.stores and p["on_storage"]]
    if none:
        for p in mine[:3]:
            for c in ("upload", "download"):
                ok, t = db.trysql("%s partition %d" % (c, p["min"]))
                if ok: raise Viol("no-cloud", "%s of partition %d of a storage without cloud was accepted; before %s" % (c, p["min"], db.trail[-10:]))
        db.op_refresh_all(); w.write(4); db.check_scan("no cloud", "cloud")
        for p in db.parts():
            if p["on_cloud"]: raise Viol("no-cloud", "partition %d is on the cloud, its storage has none" % p["min"])
        ctx.add("cloud_taken_away")
        if w.cloud is None:
            if w.s3: db.sql("create cloud %s (type 's3', url '%s', access_key '%s', secret_key '%s')" % (name, w.s3.url(), w.s3.access, w.s3.secret))
            else: db.sql("create cloud %s (type 'mock')" % name)
            w.cloud = name
        if r.random() < .3 and db.wal: db.reopen()
        for s in w.stores: db.sql("alter storage %s set (cloud '%s')" % (s, w.cloud))
    else:
        if w.s3:
            old = len(w.s3.log)
            for p in mine: db.sql("upload partition %d" % p["min"])
            if len(w.s3.log) != old: raise Viol("wrong-cloud", "requests went to the former cloud: %s" % [str(x) for x in w.s3.log[old:old + 3]])
            w.s3.check("former cloud"); w.s3log = getattr(w, "s3log", []) + w.s3.log; w.s3 = s3b
        else:
            for p in mine: db.sql("upload partition %d" % p["min"])
        if w.cloud and w.cloud != name: db.sql("drop cloud " + w.cloud)
        w.cloud = name; ctx.add("cloud_changed")
    w.look("other cloud"); db.check_scan("other cloud", "cloud")

def fn(ctx, case):
    w = World(ctx, case); db = w.db
    w.cloud = "c"
    w.write(w.r.choice((5, 40)))
    for _ in range(case["steps"]):
        op = w.step() if w.r.random() > .06 else other_cloud(w) or "other cloud"
        w.look("after %s" % op); db.check_scan("after %s" % op, "cloud")
    # every place in turn
    db.op_refresh_all(); db.check_scan("refreshed", "cloud")
    for s in w.stores:
        db.sql("move partitions between 0 and %d into %s" % (U64, s)); w.look("moved"); db.check_scan("moved to %s" % s, "cloud")
        db.sql("upload partitions between 0 and %d" % U64); w.look("uploaded")
        for p in db.parts():
            if p["on_storage"] and p["on_cloud"]: db.sql("drop partition %d on storage" % p["min"])
        w.look("cloud only"); db.check_scan("cloud only", "cloud"); db.check_seeks(8, limit=5, key="cloud"); ctx.add("cloud_only_scans")
        if not db.wal or w.r.random() < .5: db.reopen()
        else: db.kill(); db.start()
        db.check_scan("cloud only, reopened", "cloud"); w.look("reopened")
        w.write(5); db.check_scan("writes on cloud only partitions", "cloud")
        db.sql("download partitions between 0 and %d if cloud" % U64); w.look("downloaded"); db.check_scan("downloaded", "cloud")
        db.op_refresh_all(); w.look("refreshed"); db.check_scan("refreshed", "cloud")
    if w.r.random() < .5:
        db.sql("drop partitions between 0 and %d" % U64); db.model.clear(); db.live_cache = None; w.look("all dropped"); db.check_scan("dropped", "cloud")
        db.sql("alter pipeline reset")
        for s in w.stores: db.sql("drop storage " + s)
        db.sql("drop cloud " + w.cloud)
        if w.s3:
            w.s3.check("drop storage")
            if w.s3.buckets: raise Viol("bucket-left", str(w.s3.buckets))
    db.stop(); db.m.close()
    if w.s3:
        ctx.add("requests", len(w.s3.log)); ctx.add("stale_connections", w.s3.stales // w.s3.stale if w.s3.stale else 0); ctx.add("range_requests", sum(1 for x in w.s3.log if x[2]))
        for x in w.s3.log: ctx.see("request_kinds", "%s %s" % (x[0], "range" if x[2] else "object" if x[1].count("/") > 2 else "bucket"))
    ctx.sample = {"sets": w.sets, "case": case, "requests": [str(x) for x in w.s3.log[:8]] if w.s3 else None}

def cases():
    n = 600 if not THOROUGH else 1500
    return [dict(seed=k, cloud="s3" if k % 2 else "mock", steps=14 if not THOROUGH else 40, variant="asan" if k % 8 == 7 else "plain") for k in range(n)]

if __name__ == "__main__":
    c = Check("C14", "exploration", variants=("plain", "asan"))
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), budget=800 if THOROUGH else 120)
    c.finish("one case = a program over storages with a mock or S3 cloud; after every step all events are compared with the model and all cloud objects with files and SHOW; "
             "the S3 endpoint checks path, date, signature and range of every request", need=("looks", "objects_compared", "cloud_only_scans", "requests", "range_requests", "stale_connections", "cloud_changed", "cloud_taken_away"))
