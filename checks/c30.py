import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from program import *

UNITS = {"us": 1, "microsecond": 1, "microseconds": 1}
def unit(v, *names):
    for n in names: UNITS[n] = v
unit(10 ** 3, "ms", "millisecond", "milliseconds", "kb")
unit(10 ** 6, "sec", "second", "seconds", "mb")
unit(60 * 10 ** 6, "min", "minute", "minutes")
unit(3600 * 10 ** 6, "hr", "hour", "hours")
unit(86400 * 10 ** 6, "day", "days")
unit(7 * 86400 * 10 ** 6, "week", "weeks")
unit(30 * 86400 * 10 ** 6, "month", "months")
unit(360 * 86400 * 10 ** 6, "year", "years")
unit(1 << 10, "kib", "k"); unit(1 << 20, "mib", "m"); unit(1 << 30, "gib", "g"); unit(1 << 40, "tib", "t")
unit(10 ** 9, "gb"); unit(10 ** 12, "tb")
I63 = (1 << 63) - 1

# tokens of a command
def K(t): return [("k", x) for x in t.split()]
def N(t): return [("n", t)]
def I(v): return [("i", v)]
def S(t): return [("s", t)]
def Y(t): return [("y", t)]
def B(v): return [("k", "true" if v else "false")]
def opts(l):
    """( name value, ... )"""
    out = Y("(")
    for n, (name, val) in enumerate(l):
        if n: out += Y(",")
        out += N(name) + val
    return out + Y(")")

def plain(toks):
    return " ".join(("'%s'" % v if "'" not in v else '"%s"' % v) if t == "s" else str(v) for t, v in toks)

def amount(r, v):
    """another way to write a number"""
    fit = [u for u, k in UNITS.items() if v % k == 0 and (v or r.random() < .3)]
    if fit and r.random() < .8:
        u = r.choice(sorted(fit))
        s, u = "0" * r.choice((0, 0, 0, 1, 4)) + str(v // UNITS[u]), case_of(r, u)
        return s + r.choice(("", " ", "  ", "\t", "\n", " # unit\n")) + u
    return "0" * r.choice((0, 0, 1, 3)) + str(v)

def case_of(r, s):
    x = r.random()
    if x < .3: return s
    if x < .5: return s.upper()
    if x < .6: return s.capitalize()
    return "".join(c.upper() if r.random() < .5 else c for c in s)

def gap(r):
    out = ""
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        out += r.choice((" ", " ", "  ", "\t", "\n", "\r\n", "\v", "\f", " \n\t ", "# comment\n", "#\n", "# ' \" ( ) , drop storage main\n", "## \x80\xff é\n".encode().decode("latin1"), " #'\n"))
    return out

def respell(r, toks):
    out = gap(r) if r.random() < .3 else ""
    prev, last = "y", None
    for t, v in toks:
        word = t not in "ys"
        if prev != "y" and word: out += gap(r)              # two words need something between
        elif r.random() < .5: out += gap(r)
        if t == "k": out += v if last in ("all", "config", "set") else case_of(r, v)      # a name can be there
        elif t == "i": out += amount(r, v)
        elif t == "s":
            q = r.choice([q for q in "'\"" if q not in v])
            out += q + v + q
        else: out += v
        prev = "y" if t in "ys" else t; last = v
    if r.random() < .4: out += gap(r) if r.random() < .6 else r.choice((" # the end", "#", "\n# drop storage main"))
    return out

def big(r):
    x = r.random()
    if x < .2: return r.choice((0, 1, 2, 1000, 4096))
    if x < .55:
        u = r.choice(list(UNITS.values())); return u * r.randrange(1, max(2, min(1000, I63 // u)))
    if x < .75: return min(I63, max(0, (1 << r.choice((15, 16, 30, 31, 32, 33, 40, 62, 63))) + r.randrange(-2, 3)))
    if x < .85: return 10 ** r.randrange(19)
    return r.randrange(1 << r.randrange(1, 64))

KEY = "k" * 31
ONLINE = ("interval", "wal_rotate_wm", "compression_level")
TIER = ("partitions", "size", "events", "duration")

class Twin:
    """the same history in two environments: one in the plain spelling, one respelled"""
    def __init__(self, ctx, case):
        self.ctx = ctx; r = self.r = rng_of(case); self.r2 = rng_of(case, "spelling")
        self.interval = r.choice((10, 100, 1000, 60 * 10 ** 6, 3600 * 10 ** 6))
        self.config = {"interval": self.interval, "mm_page_size": r.choice((32768, 65536, 1 << 20)), "mm_cache": big(r), "mm_limit_wm": big(r), "wal_rotate_wm": max(30000, big(r)),
                       "workers": 0, "workers_upload": 0, "compression_level": r.choice((0, 1, 3)), "log": r.random() < .7, "wal_crc": r.random() < .5, "wal_sync_on_write": r.random() < .3, "serial": False, "log_to_file": r.random() < .7}
        sets = list(self.config.items()); r.shuffle(sets)
        self.a, self.b = Db(ctx, r, case["variant"], sub="a"), Db(ctx, r, case["variant"], sub="b")
        clock = "ip clock %d" % (1700000000 * 10 ** 6)
        for db in (self.a, self.b):
            db.sets = []
            pre = [clock]
            for n, v in sets:
                toks = K("set") + N(n) + K("to") + (B(v) if isinstance(v, bool) else I(v))
                pre.append("sqlx " + (plain(toks) if db is self.a else respell(self.r2, toks)).encode("latin1").hex())
            db.pre = pre; db.start()
        self.st = {"main": {}}; self.tiers = None; self.n = 0; self.clouds = []
        self.log = []; self.loose = False
    def both(self, toks, expect=None):
        """runs a command in both; True if it succeeded"""
        p, q = plain(toks), respell(self.r2, toks)
        self.log.append(p[:160]); del self.log[:-8]
        res = [db.m.cmd("sqlx " + t.encode("latin1").hex()) for db, t in ((self.a, p), (self.b, q))]
        self.ctx.add("commands"); self.ctx.see("kinds", " ".join(str(v) for t, v in toks[:2] if t == "k") + (" ok" if res[0][0] else " err"))
        if res[0][0] != res[1][0]: raise Viol("spelling-outcome", "%r: %s; %r: %s" % (p, res[0], q, res[1]))
        if expect is not None and res[0][0] != expect: raise Viol("outcome", "%r: %s" % (p, res[0]))
        return res[0][0]
    def state(self, db):
        def strip(x):
            if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k not in ("uuid", "directory") and not (k == "size" and "size_uncompressed" in x)}
            if isinstance(x, list): return [strip(v) for v in x]
            return x
        return {c: strip(db.js(c)) for c in ("show config", "show storages", "show clouds", "show pipeline", "show partitions", "show wal")}
    def check(self, why):
        x, y = self.state(self.a), self.state(self.b)
        if x != y:
            for c in x:
                if x[c] != y[c]:
                    d = [(k, x[c].get(k), y[c].get(k)) for k in x[c] if x[c].get(k) != y[c].get(k)][:3] if isinstance(x[c], dict) else (x[c], y[c])
                    raise Viol("spelling-state", "%s; %s: %s; after %s" % (why, c, str(d)[:700], self.log))
        for n, v in self.config.items():
            got = x["show config"][n]
            if got != v: raise Viol("setting", "%s: %s is %r, set to %r; after %s" % (why, n, got, v, self.log))
        for n, m in self.st.items():
            c = x["show storages"][n]; c = c.get("config", c)
            for k, v in m.items():
                if c[k] != v: raise Viol("setting", "%s: storage %s: %s is %r, set to %r; after %s" % (why, n, k, c[k], v, self.log))
        if self.tiers is not None:
            got = x["show pipeline"]
            if len(got) != len(self.tiers): raise Viol("setting", "%s: pipeline %s, set to %s" % (why, got, self.tiers))
            for g, (n, m) in zip(got, self.tiers):
                if g["name"] != n or any(g[k] != m.get(k, -1) for k in TIER): raise Viol("setting", "%s: pipeline %s, set to %s" % (why, got, self.tiers))
        self.ctx.add("state_checks")
        return x
    def scan(self, why):
        self.a.check_scan(why + " (plain)"); self.b.check_scan(why + " (respelled)")
    def storage_opts(self, create):
        r = self.r; o, m = [], {}
        for n in ("refresh_wm", "region_size", "compression_level"):
            if r.random() < .5:
                v = big(r)
                if n == "region_size": v = max(1, v)
                if n == "compression_level": v = r.choice((0, 1, 3, 9))
                o.append((n, I(v))); m[n] = v
        for n in ("sync", "crc", "cloud_drop_local"):
            if r.random() < .25: v = r.random() < .5; o.append((n, B(v))); m[n] = v
        if r.random() < .3: v = r.choice(("zstd", "lz4", "")); o.append(("compression", S(v))); m["compression"] = v
        if self.clouds and create and r.random() < .4: o.append(("cloud", S(r.choice(self.clouds)))); m["cloud"] = o[-1][1][0][1]
        if create and r.random() < .2: o += [("encryption", S("aes")), ("encryption_key", S("".join(r.choice("abc#(), ") for _ in range(32))))]; m["encryption"] = "aes"
        r.shuffle(o)
        return o, m
    def rng(self):
        r = self.r
        ps = self.a.parts()
        if not ps or r.random() < .2: return 0, U64
        a, b = r.choice(ps), r.choice(ps)
        lo, hi = min(a["min"], b["min"]), max(a["max"], b["max"]) + 1
        return r.choice((lo, lo, lo + 1, 0)), min(U64, hi)
    def pid(self):
        ps = self.a.parts()
        return self.r.choice(ps)["min"] if ps and self.r.random() < .9 else self.r.randrange(50) * self.interval
    def command(self):
        """(tokens, function applying the success to the model)"""
        r = self.r; iv = self.interval
        x = r.random()
        sto = r.choice(list(self.st))
        ife = K("if exists") if r.random() < .2 else []
        if x < .08:
            n = r.choice(ONLINE); v = dict(interval=max(1, r.choice((iv, big(r)))), wal_rotate_wm=max(30000, big(r)), compression_level=r.choice((0, 1, 5)))[n]
            if n == "interval": v = iv       # partitions keep one width here
            return K("set") + N(n) + K("to") + I(v), lambda: self.config.__setitem__(n, v)
        if x < .18 and len(self.st) < 6:
            self.n += 1; n = r.choice(("s%d", "S_%d", "_x.%d", "b$%d")) % self.n; o, m = self.storage_opts(True)
            return K("create storage") + (K("if not exists") if r.random() < .3 else []) + N(n) + (opts(o) if o or r.random() < .5 else []), lambda: self.st.__setitem__(n, m)
        if x < .33:
            o, m = self.storage_opts(False)
            if not o: o, m = [("refresh_wm", I(1 << 32))], {"refresh_wm": 1 << 32}
            return K("alter storage") + ife + N(sto) + K("set") + opts(o), lambda: self.st[sto].update(m)
        if x < .37 and sto != "main":
            self.n += 1; n = "r%d" % self.n
            def ap():
                self.st[n] = self.st.pop(sto)
                if self.tiers: self.tiers = [(n if a == sto else a, m) for a, m in self.tiers]
            return K("alter storage") + ife + N(sto) + K("rename") + (K("to") if r.random() < .5 else []) + N(n), ap
        if x < .42:
            t = []; toks = K("alter pipeline set")
            names = r.sample(list(self.st), r.randrange(1, len(self.st) + 1))
            for k, n in enumerate(names):
                m = {}
                for f in TIER:
                    if r.random() < .4: m[f] = big(r)
                if not m: m["size"] = 1 << 33       # `name ()` has a grammar of its own
                t.append((n, m)); toks += (Y(",") if k else []) + N(n) + opts([(f, I(v)) for f, v in m.items()])
            return toks, lambda: setattr(self, "tiers", t)
        if x < .44: return K("alter pipeline reset"), lambda: setattr(self, "tiers", None)
        if x < .47 and len(self.clouds) < 2:
            n = "c%d" % len(self.clouds); d = r.random() < .5
            return K("create cloud") + N(n) + opts([("type", S("mock")), ("url", S(r.choice(("", "#x", "it's", "a b")))), ("debug", B(d))]), lambda: self.clouds.append(n)
        if x < .5:
            lo = r.randrange(40) * iv; hi = lo + r.randrange(1, 4) * iv
            return K("create partition") + I(lo) + I(hi), None      # not the grammar: fails everywhere
        if x < .56:
            lo = r.randrange(40) * iv
            return K("create partition") + (K("if not exists") if r.random() < .3 else []) + K("between") + I(lo) + K("and") + I(lo + iv), None
        if x < .60: return K("move partition") + ife + I(self.pid()) + K("into") + N(sto), None
        if x < .64:
            lo, hi = self.rng(); return K("move partitions between") + I(lo) + K("and") + I(hi) + K("into") + N(sto), None
        if x < .70: return K(r.choice(("refresh", "refresh", "download", "upload")) + " partition") + (K(r.choice(("if exists", "if cloud"))) if r.random() < .2 else []) + I(self.pid()), None
        if x < .75:
            lo, hi = self.rng(); return K(r.choice(("refresh", "download", "upload")) + " partitions between") + I(lo) + K("and") + I(hi), None
        if x < .78:
            i = self.pid(); return K("drop partition") + ife + I(i) + (K("on") + r.choice((K("storage"), K("cloud"))) if r.random() < .2 else []), "drop"
        if x < .80:
            lo, hi = self.rng(); return K("drop partitions between") + I(lo) + K("and") + I(hi), "drop"
        if x < .84: return K("checkpoint"), "drop"
        if x < .88: return K("service"), "drop"
        if x < .91: return K("rebalance"), "drop"
        if x < .93 and sto != "main": return K("drop storage") + ife + N(sto), "dropstorage " + sto
        show = [K("memory"), K("wal"), K("clouds"), K("storages"), K("storage") + N(sto), K("partitions"), K("partitions") + N(sto), K("partition") + I(self.pid()), K("pipeline"), K("config"), K("all"), N("interval"), S("wal_crc"), K("config") + N("log")]
        l = r.sample(show, r.randrange(1, 4)); toks = K("show")
        for k, s in enumerate(l): toks += (Y(",") if k else []) + s + (K("debug") if r.random() < .2 else [])
        return toks, None

def overflow(t, r):
    """quantities beyond what can be held are refused, and change nothing"""
    u = r.choice([u for u, k in UNITS.items() if k > 1]); k = UNITS[u]
    x = r.random()
    n = (U64 // k + r.choice((1, 1, 2, 1000))) if x < .5 else r.choice((U64, U64 - r.randrange(1000), 1 << 63, r.randrange(U64 // 2, U64)))
    while n * k <= U64: n += U64 // 2
    n = min(n, U64)
    q = "%d %s" % (n, u)
    if x > .8: q = str(U64 + r.choice((1, 2, 10, 10 ** 6, 10 ** 30)))
    sto = r.choice(list(t.st))
    opt = "alter storage %s set (%s %s)" % (sto, r.choice(("refresh_wm", "region_size", "compression_level")), q)
    if .7 < x <= .8: opt = opt.replace(q, str(r.choice((1 << 63, U64, (1 << 63) + r.randrange(1 << 62)))))
    elif r.random() < .4: opt = r.choice(("set wal_rotate_wm to %s", "set interval to %s", "alter pipeline set main (size %s)", "create partition between 0 and %s", "drop partitions between %s and 1", "move partition %s into main", "refresh partitions between 0 and %s")) % q
    ok, e = t.a.m.cmd("sqlx " + opt.encode().hex())
    t.ctx.add("overflows")
    if ok: raise Viol("overflow-accepted", "%r succeeded" % opt)
    t.check("refused " + opt)

def malformed(t, r):
    toks = list(t.command()[0])
    for _ in range(r.choice((1, 1, 2))):
        k = r.randrange(len(toks)); x = r.random()
        if x < .35: del toks[k]
        elif x < .6: toks.insert(k, r.choice(toks))
        elif x < .8: toks.insert(k, r.choice(K("drop all to if not exists and into on") + Y(")") + Y(",") + Y("-") + Y(";") + I(5) + S("x")))
        else: toks[k] = r.choice(N("nothing") + I(3) + S("") + Y("("))
        if not toks: return None
    return toks

def twin(ctx, case):
    t = Twin(ctx, case); r = t.r; iv = t.interval
    g = Gen(r, iv, ids="wide", limit=60, keys="short", vals="small"); g.base = 0
    for n in range(case["steps"]):
        x = r.random(); why = "step %d" % n
        if x < .15:
            evs = g.batch(r.choice((1, 5, 30)), t.a.live(), rehit=.3, delete=.1)
            t.a.write(evs); t.b.write(evs)
        elif x < .23: overflow(t, r)
        elif x < .30:
            toks = malformed(t, r)
            if toks is None: continue
            p = plain(toks); before = t.state(t.a)
            ok = t.both(toks)
            if ("k", "on") in toks: t.loose = True
            ctx.add("malformed")
            if ok:
                # it meant something after all: the two must agree on what; the model follows them
                a, b = t.state(t.a), t.state(t.b)
                if a != b: raise Viol("spelling-state", "%r: %s" % (p, [(c, a[c], b[c]) for c in a if a[c] != b[c]][:1]))
                resync(t, a); ctx.add("malformed_ok")
            elif any(v in ("drop", "rebalance", "service", "checkpoint") for _, v in toks): sync_contents(t)
            elif t.state(t.a) != before and not any(v in ("refresh", "move", "drop", "upload", "download", "rebalance") for _, v in toks): raise Viol("refused-but-changed", p)
        elif x < .36:
            for db in (t.a, t.b): db.reopen()
            if t.loose: sync_contents(t)     # DROP .. ON is not logged
            ctx.add("reopened")
        else:
            toks, ap = t.command()
            ok = t.both(toks)
            if ("k", "on") in toks: t.loose = True
            if ok and callable(ap):
                # IF [NOT] EXISTS leaves an existing object alone: names are fresh here
                ap()
            elif ok and isinstance(ap, str):
                if ap.startswith("dropstorage"):
                    if ap.split()[1] in t.a.js("show storages"): raise Viol("outcome", "%s" % toks)
                    t.st.pop(ap.split()[1])
            if ap == "drop": sync_contents(t)
            if ok and toks[0][1] == "set": ctx.add("set_ok")
        x = t.check(why)
        if any(v > I63 // 2 for m in t.st.values() for v in m.values() if isinstance(v, int)): ctx.add("huge_settings")
        if r.random() < .1: t.scan(why)
    t.scan("end")
    for db in (t.a, t.b): db.stop(); db.m.close()
    ctx.sample = {"interval": iv, "last": t.log[-1]}

def resync(t, a):
    """after a command that was not meant: take what both agree on"""
    t.config = {k: a["show config"][k] for k in t.config}
    t.interval = t.config["interval"] if t.config["interval"] < 10 ** 12 else t.interval
    t.st = {n: {k: v for k, v in t.st.get(n, {}).items() if (c.get("config", c))[k] == v} for n, c in a["show storages"].items()}
    t.tiers = None
    t.clouds = list(a["show clouds"]) if isinstance(a["show clouds"], dict) else [c["name"] for c in a["show clouds"]]
    sync_contents(t)

def sync_contents(t):
    """drops follow the partition list, which the two agree on"""
    x, y = t.a.scan(), t.b.scan()
    if x != y: raise Viol("spelling-contents", "%s; after %s" % (diff(x, y), t.log))
    for db in (t.a, t.b): db.model = {(i, k): v for i, k, v in x}; db.live_cache = None

def quantity(r, v): return amount(r, v).replace("\n", " ").replace("# unit", "")

def effect(ctx, case):
    """what is set takes effect as the quantity that was written"""
    r = rng_of(case)
    iv = r.choice((1000, 10 ** 6, 3600 * 10 ** 6, 7 * 86400 * 10 ** 6, 720 * 86400 * 10 ** 6, 1 << 32, 5 << 32))
    rot = r.choice((1 << 30, 1 << 32, 5 << 32, 1 << 40, 50000))
    db = Db(ctx, r, case["variant"], sets=["interval to " + quantity(r, iv), "wal_rotate_wm to " + quantity(r, rot), "mm_page_size to 32 kib", "mm_limit to true", "mm_limit_wm to " + quantity(r, r.choice((1 << 32, 3 << 32, 1 << 40, 10 ** 12))), "mm_limit_behaviour to 'error'",
            "mm_cache to " + quantity(r, r.choice((0, 1 << 32, 1 << 36)))])
    db.start()
    for round_ in range(case["steps"]):
        wm = r.choice((0, 1 << 30, 3 << 30, 1 << 32, (1 << 32) + 1, 10 ** 10, 1 << 33, 5 << 32, 1 << 40, I63, 10000, 40 * 1024, 1 << 31, (1 << 31) - 1, 4 * 10 ** 9))
        rs = r.choice((500, 2000, 20000, 128 * 1024, 1 << 30, 1 << 32, 2 << 32, (1 << 32) + 100, 1 << 40, I63))
        db.sql("alter storage main set (refresh_wm %s, region_size %s, compression '')" % (quantity(r, wm), quantity(r, rs)))
        if r.random() < .3: db.reopen()
        base = (round_ * 3 + r.randrange(1, 4)) * iv        # the newest: a newer one would ask for this one's refresh
        evs = [(0, base + n % min(iv, 5000), "%04x" % (n // 5000), "g%d:%d:0" % (r.getrandbits(20), 400)) for n in range(r.choice((5, 50, 300)))]
        for k in range(0, len(evs), 50): db.write(evs[k:k + 50])
        p = [p for p in db.parts() if p["min"] <= base <= p["max"]]
        if len(p) != 1 or p[0]["min"] != base - base % iv or p[0]["max"] + 1 - p[0]["min"] not in (iv, iv + 1): raise Viol("interval", "id %d, interval %d: %s" % (base, iv, p))
        heap = p[0]["events_heap"]; asked = wm and p[0]["size_heap"] > wm
        for _ in range(12): db.sql("service")
        q = [q for q in db.parts() if q["min"] == p[0]["min"]][0]
        if asked and q["events_heap"]: raise Viol("refresh_wm", "%s bytes of memory used, refresh_wm %d: SERVICE did not refresh it" % (p[0]["size_heap"], wm))
        if not asked and q["events_heap"] != heap: raise Viol("refresh_wm", "%s bytes of memory used, refresh_wm %d: SERVICE refreshed it" % (p[0]["size_heap"], wm))
        ctx.add("refreshed_by_size" if asked else "not_refreshed")
        db.sql("refresh partition %d" % base)
        q = [q for q in db.parts() if q["min"] == p[0]["min"]][0]
        # a region is closed when it reaches region_size
        if q["size"] < rs and q["regions"] != 1: raise Viol("region_size", "%d bytes in %d regions, region_size %d" % (q["size"], q["regions"], rs))
        if rs * 4 < q["size"] and not q["size"] / (rs + 1000) <= q["regions"] <= q["size"] / rs + 1: raise Viol("region_size", "%d bytes in %d regions, region_size %d" % (q["size"], q["regions"], rs))
        ctx.add("one_region" if q["regions"] == 1 else "regions")
        w = db.js("show wal")
        if rot >= 1 << 30 and w["files"] != 1 and not db.trail.count("reopen"): raise Viol("wal_rotate_wm", "%s, wal_rotate_wm %d" % (w, rot))
        # nothing reaches limits like these
        big_ = {f: r.choice((1 << 31, 1 << 32, 3 << 32, 10 ** 12, 1 << 40, I63, 4 * 10 ** 9, 2 ** 31 * 3)) for f in TIER[:3] if r.random() < .6}
        if r.random() < .5: big_["duration"] = r.choice((3600 * 10 ** 6, 86400 * 10 ** 6, 720 * 86400 * 10 ** 6, 5 << 32))
        before = sorted(p["min"] for p in db.parts())
        db.sql("alter pipeline set main (%s)" % ", ".join("%s %s" % (k, quantity(r, v)) for k, v in (big_ or {"events": 1 << 32}).items()))
        db.sql("rebalance")
        if sorted(p["min"] for p in db.parts()) != before: raise Viol("tier", "%s: REBALANCE dropped partitions" % big_)
        db.sql("alter pipeline reset")
        n = r.choice((1, 2, 3))
        if len(before) > n and r.random() < .3:
            ps = sorted(db.parts(), key=lambda p: p["min"])
            f, lim = r.choice((("partitions", n), ("events", sum(p["events"] for p in ps[-n:]))))
            db.sql("alter pipeline set main (%s %s)" % (f, quantity(r, lim))); db.sql("rebalance"); db.sql("alter pipeline reset")
            left = sorted(p["min"] for p in db.parts())
            if f == "partitions" and len(left) > n: raise Viol("tier", "partitions %d: %s" % (n, left))
            x = db.scan(); db.model = {(i, k): v for i, k, v in x}; db.live_cache = None; ctx.add("tier_applied")
    db.check_scan("end"); db.stop(); db.m.close()

def fn(ctx, case):
    (twin if case["kind"] == "twin" else effect)(ctx, case)

def cases():
    n = 480 if not THOROUGH else 8000
    return [dict(seed=k, kind="effect" if k % 3 == 2 else "twin", steps=(12 if k % 3 == 2 else 90) * (2 if THOROUGH else 1), variant="asan" if k % 10 == 3 else "plain") for k in range(n)]

if __name__ == "__main__":
    c = Check("C30", "exploration", variants=("plain", "asan"))
    one_ = replay_case(sys.argv)
    c.run(fn, [one_] if one_ else cases(), budget=800 if THOROUGH else 150)
    c.finish("one case = (twin) one random history of settings, schema and partition commands, malformed commands and writes run in two environments, in the plain spelling and respelled (units, case, white space, comments, quotes), "
             "state compared with each other and with what was set after every step; or (effect) settings from 0 to 2^63-1 written in every unit, and what SERVICE, REFRESH, REBALANCE and the log do under them",
             need=("commands", "state_checks", "overflows", "malformed", "malformed_ok", "reopened", "set_ok", "huge_settings", "refreshed_by_size", "not_refreshed", "one_region", "regions", "tier_applied"))
