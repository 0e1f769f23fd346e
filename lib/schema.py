"""Model of clouds, storages, pipeline and online settings, with a generator of schema commands."""
from model import *

KEYC = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
TIER = ("partitions", "size", "events", "duration")

def uuid_of(r):
    h = "%032x" % r.getrandbits(128)
    return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))

def hostile(r, n=None):
    """bytes of a string literal with no quote of its own kind; returned as (literal, bytes as latin1)"""
    q = r.choice("'\"")
    k = r.random()
    n = r.choice((0, 1, 3, 10, 40, 300)) if n is None else n
    if k < .3: s = "".join(r.choice(KEYC + "/:.-_ ") for _ in range(n))
    elif k < .5: s = "".join(chr(r.choice([x for x in range(1, 256) if x not in (0x22, 0x27, 0x5c)])) for _ in range(n))
    elif k < .65: s = "".join(r.choice(("%s", "%n", "%d", "%%", "x", "{", "}", "[", ",", ":", "-- ", "/*")) for _ in range(n))
    elif k < .8: s = "".join(r.choice(("\\n", "\\\\", "\\u0041", "\\t", "a", "\\x")) for _ in range(n // 2))
    elif k < .9: s = "".join(r.choice("\x01\x1f\x7f\n\r\t\b\f\x80\xff") for _ in range(n))
    else: s = "".join(r.choice(("é", "世", "\U0001f600")) for _ in range(n)).encode().decode("latin1")
    if r.random() < .2: s += "'" if q == '"' else '"'
    return q + s + q, s

class Schema:
    def __init__(self, db, r, paths=True):
        self.db, self.r, self.paths = db, r, paths
        self.storages = {k: v["config"] for k, v in db.js("show storages").items()}
        self.clouds, self.pipeline = {}, []
        self.secrets = {}
        self.keys = {}
        self.config = db.js("show config")
        self.n = 0
    def clone(self):
        import copy
        s = Schema.__new__(Schema); s.__dict__.update(self.__dict__)
        for k in ("storages", "clouds", "pipeline", "secrets", "keys", "config"): setattr(s, k, copy.deepcopy(getattr(self, k)))
        return s
    def run(self, text):
        db = self.db
        db.note(text)
        raw = text.encode("latin1")
        ok, t = db.m.cmd("sqlx " + raw.hex())
        db.ctx.add("ddl_ok" if ok else "ddl_failed"); db.ctx.see("ddl_kinds", " ".join(text.split()[:2]).lower() + (" ok" if ok else " err"))
        return ok, t
    # ---- generators: each returns (text, function applying it to a Schema)
    def name(self, kind):
        self.n += 1
        r = self.r
        if r.random() < .15: return r.choice(list(getattr(self, kind)) or ["none"])
        return r.choice(("%s%d", "x_%s_%d", "Z%s%d", "very_long_name_with_many_characters_and_digits_0123456789_%s_%d")) % (kind[0], self.n)
    def some(self, kind):
        k = list(getattr(self, kind))
        return self.r.choice(k) if k and self.r.random() < .92 else "missing_%d" % self.r.randrange(3)
    def b(self): return self.r.choice((("true", True), ("false", False)))
    def cloud_opts(self, create):
        r = self.r; o, m = [], {}
        if create: t = r.choice(("mock", "mock", "mock", "s3")); o.append("type '%s'" % t); m["type"] = t
        for n, f in (("url", "url"), ("login", "login"), ("access_key", "login"), ("password", "password"), ("secret_key", "password")):
            if r.random() < .35 and f not in m:
                l, v = hostile(r); o.append("%s %s" % (n, l)); m[f] = v
        if r.random() < .2: l, v = self.b(); o.append("debug " + l); m["debug"] = v
        if create and r.random() < .5: o.reverse()
        return o, m
    def storage_opts(self, create):
        r = self.r; o, m = [], {}
        def put(n, lit, v): o.append("%s %s" % (n, lit)); m[n] = v
        if create and r.random() < .3: u = uuid_of(r); put("uuid", "'%s'" % u, u)
        if self.paths and r.random() < .15:
            p = r.choice(("", "pa", "p b", "p%sd", "/abs" if r.random() < .5 else "pc"))
            if p == "/abs": p = self.db.path.rstrip("m") + "_abs"
            put("path", "'%s'" % p, p)
        if r.random() < .3:
            c = self.some("clouds") if r.random() < .8 else ""
            put("cloud", "'%s'" % c, c)
        for n in ("cloud_drop_local", "sync", "crc"):
            if r.random() < .25: l, v = self.b(); put(n, l, v)
        if r.random() < .3: v = r.choice((0, 1, 5000, 1 << 30)); put("refresh_wm", str(v), v)
        if r.random() < .4: v = r.choice((1, 100, 5000, 1 << 20)); put("region_size", str(v), v)
        if r.random() < .4: v = r.choice(("zstd", "lz4", "", "bad")) if r.random() < .9 else hostile(r, 3)[1].replace("'", ""); put("compression", "'%s'" % v, v)
        if r.random() < .2: v = r.choice((0, 1, 9, 3)); put("compression_level", str(v), v)
        if r.random() < .2:
            put("encryption", "'aes'", "aes")
            if not create or r.random() < .6: put("encryption_key", '"%s"' % "k", None); k = "".join(r.choice(KEYC + "%{}") for _ in range(32)); o[-1] = 'encryption_key "%s"' % k; m["encryption_key"] = k
        r.shuffle(o)
        return o, m
    def gen(self):
        r = self.r
        x = r.random()
        if x < .14:
            n = self.name("clouds"); o, m = self.cloud_opts(True); i = r.random() < .2
            def ap(s):
                if n in s.clouds: return
                s.clouds[n] = {"name": n, "type": m["type"], "login": m.get("login", ""), "password": "(secret)", "url": m.get("url", ""), "debug": m.get("debug", False)}
                s.secrets[n] = m.get("password", "")
            return "create cloud %s%s (%s)" % ("if not exists " if i else "", n, ", ".join(o)), ap
        if x < .2:
            n = self.some("clouds"); o, m = self.cloud_opts(False); i = r.random() < .2
            def ap(s):
                if n not in s.clouds: return
                for k, v in m.items():
                    if k == "password": s.secrets[n] = v
                    else: s.clouds[n][k] = v
            return "alter cloud %s%s set (%s)" % ("if exists " if i else "", n, ", ".join(o)), ap
        if x < .25:
            n, n2 = self.some("clouds"), self.name("clouds"); i = r.random() < .2
            def ap(s):
                if n not in s.clouds or n == n2: return
                s.clouds = {(n2 if k == n else k): v for k, v in s.clouds.items()}; s.clouds[n2]["name"] = n2
                if n in s.secrets: s.secrets[n2] = s.secrets.pop(n)
                for v in s.storages.values():
                    if v["cloud"] == n: v["cloud"] = n2
            return "alter cloud %s%s rename %s%s" % ("if exists " if i else "", n, r.choice(("to ", "")), n2), ap
        if x < .3:
            n = self.some("clouds"); i = r.random() < .3
            def ap(s): s.clouds.pop(n, None); s.secrets.pop(n, None)
            return "drop cloud %s%s" % ("if exists " if i else "", n), ap
        if x < .48:
            n = self.name("storages"); o, m = self.storage_opts(True); i = r.random() < .2
            def ap(s):
                if n in s.storages: return
                d = {"uuid": None, "name": n, "path": "", "cloud": "", "cloud_drop_local": True, "sync": True, "crc": False, "refresh_wm": 41943040,
                     "region_size": 131072, "compression": s.config["compression"], "compression_level": s.config["compression_level"] if s.config["compression"] else 0, "encryption": ""}
                d.update({k: v for k, v in m.items() if k != "encryption_key"})
                s.storages[n] = d
                if "encryption" in m: s.keys[n] = m.get("encryption_key")
            return "create storage %s%s%s" % ("if not exists " if i else "", n, " (%s)" % ", ".join(o) if o or r.random() < .5 else ""), ap
        if x < .64:
            n = self.some("storages"); o, m = self.storage_opts(False); i = r.random() < .2
            def ap(s):
                if n not in s.storages: return
                s.storages[n].update({k: v for k, v in m.items() if k != "encryption_key"})
                if "encryption_key" in m: s.keys[n] = m["encryption_key"]
            return "alter storage %s%s set (%s)" % ("if exists " if i else "", n, ", ".join(o)), ap
        if x < .7:
            n, n2 = self.some("storages"), self.name("storages"); i = r.random() < .2
            def ap(s):
                if n not in s.storages or n == n2: return
                s.storages = {(n2 if k == n else k): v for k, v in s.storages.items()}; s.storages[n2]["name"] = n2
                if n in s.keys: s.keys[n2] = s.keys.pop(n)
                for t in s.pipeline:
                    if t["name"] == n: t["name"] = n2
            return "alter storage %s%s rename %s%s" % ("if exists " if i else "", n, r.choice(("to ", "")), n2), ap
        if x < .76:
            n = self.some("storages"); i = r.random() < .3
            def ap(s): s.storages.pop(n, None); s.keys.pop(n, None)
            return "drop storage %s%s" % ("if exists " if i else "", n), ap
        if x < .88:
            if r.random() < .25:
                def ap(s): s.pipeline = []
                return "alter pipeline reset", ap
            ts = []
            for _ in range(r.randrange(1, 4)):
                t = dict(name=self.some("storages"))
                for k in TIER:
                    if r.random() < .4: t[k] = r.choice((0, 1, 5, 1000, 1 << 40, (1 << 62)))
                ts.append(t)
            if r.random() < .7:
                for t in ts[:-1]:
                    if len(t) == 1: t["partitions"] = 3
            def ap(s): s.pipeline = [dict(t) for t in ts]
            return "alter pipeline set " + ", ".join(t["name"] + (" (%s)" % ", ".join("%s %d" % (k, v) for k, v in t.items() if k != "name") if len(t) > 1 else "") for t in ts), ap
        n = r.choice(("interval", "wal_rotate_wm", "compression", "compression_level", "mm_limit", "wal", "serial", "workers", "uuid", "log", "version", "lsn_x", "mm_page_size", "wal_crc"))
        if n in ("interval", "wal_rotate_wm", "compression_level", "workers", "mm_page_size"): v = r.choice((0, 1, 100, 1000, 1 << 40)) if n != "compression_level" else r.choice((0, 1, 3)); l = str(v)
        elif n in ("compression", "uuid", "version"):
            v = r.choice(("zstd", "lz4", "")) if n == "compression" else "x"; l = "'%s'" % v
        else: l, v = self.b()
        def ap(s): s.config[n] = v
        return "set %s to %s" % (n, l), ap
    def step(self):
        text, ap = self.gen()
        ok, t = self.run(text)
        if ok: ap(self)
        return ok
    # ---- oracle
    def check(self, why):
        db = self.db
        got = db.js("show clouds")
        if got != self.clouds: self.bad(why, "clouds", got, self.clouds)
        got = {k: v["config"] for k, v in db.js("show storages").items()}
        for k, v in self.storages.items():
            if v["uuid"] is None and k in got:
                v["uuid"] = got[k]["uuid"]
                if sum(1 for x in self.storages.values() if x["uuid"] == v["uuid"]) > 1: raise Viol("uuid", "generated uuid is not unique")
        if got != self.storages: self.bad(why, "storages", got, self.storages)
        got = db.js("show pipeline")
        want = [self.tier(t) for t in self.pipeline]
        if [self.tier(t) for t in got] != want: self.bad(why, "pipeline", got, want)
        got = db.js("show config")
        for k, v in self.config.items():
            if k not in ("lsn", "ssn", "directory", "lsn_x") and got[k] != v: raise Viol("setting", "%s: %s is %r, expected %r; before %s" % (why, k, got[k], v, db.trail[-8:]))
        disk = json.loads(open(os.path.join(db.path, "config.json"), "rb").read().decode("latin1"))
        c = {x["name"]: x for x in disk["clouds"] or []}
        for n, p in self.secrets.items():
            if n not in c or c[n]["password"] != p: raise Viol("secret", "%s: cloud %s password stored as %r, given %r" % (why, n, c.get(n, {}).get("password"), p))
        c = {x["name"]: x for x in disk["storages"] or []}
        for n, p in self.keys.items():
            k = c[n].get("encryption_key") if n in c else None
            if p is None and k: self.keys[n] = p = k
            if k != p: raise Viol("secret", "%s: storage %s key stored as %r, given %r" % (why, n, k, p))
        db.ctx.add("schema_checks")
    def tier(self, t):
        return (t["name"],) + tuple(t.get(k, -1) for k in TIER)
    def bad(self, why, what, got, want):
        for k in (want if isinstance(want, dict) else ()):
            if got.get(k) != want[k]:
                got, want = {k: got.get(k)}, {k: want[k]}; break
        raise Viol("schema-" + what, "%s: %s are %s, expected %s; before %s" % (why, what, json.dumps(got)[:900], json.dumps(want)[:900], self.db.trail[-6:]))
