"""Reference model of the database contents, and a driver of random programs over the real code."""
import os, json, random
from core import *

U64 = (1 << 64) - 1
INC, COMP, CLD, CLDINC = ".incomplete", ".complete", ".cloud", ".cloud.incomplete"

def kx(k): return k if k else "-"

def fmt_events(evs):
    return "w %d %s" % (len(evs), " ".join("%d %d %s %s" % (f, i, kx(k), v) for f, i, k, v in evs))

def parse_events(text):
    out = []
    for l in text.splitlines():
        p = l.split(" ")
        i, k, v = int(p[0]), p[1], p[2]
        if len(p) > 3: v += " " + p[3]
        out.append((i, "" if k == "-" else k, v))
    return out

def diff(got, want, n=4):
    """short description of the first difference of two event lists"""
    got = [(i, k if len(k) < 40 else k[:12] + ".." + k[-24:], v[:40]) for i, k, v in got]
    want = [(i, k if len(k) < 40 else k[:12] + ".." + k[-24:], v[:40]) for i, k, v in want]
    g, w = set(got), set(want)
    miss = [x for x in want if x not in g][:n]
    extra = [x for x in got if x not in w][:n]
    if not miss and not extra:
        if len(got) != len(want): return "repeated events: got %d want %d" % (len(got), len(want))
        for a, b in zip(got, want):
            if a != b: return "order: got %r where %r belongs" % (a, b)
    return "got %d want %d events; missing %r; unexpected %r" % (len(got), len(want), miss, extra)

class Gen:
    """event generator; every pattern comes from the case's seed"""
    IDS = ("dense", "reverse", "shuffle", "cluster", "border", "huge", "edge", "mixed", "wide")
    KEYS = ("none", "short", "prefix", "long", "mixed")
    VALS = ("tiny", "small", "mixed", "big")
    def __init__(self, rng, interval=1000, ids=None, keys=None, vals=None, limit=None, maxval=60000):
        r = self.r = rng
        self.interval = interval
        self.ids = ids or r.choice(self.IDS)
        self.keys = keys or r.choice(self.KEYS)
        self.vals = vals or r.choice(self.VALS)
        self.n = 0
        self.span = limit or r.choice((50, 400, 3000))
        self.top = r.choice((10 ** 6, 3, 5000)) * interval
        self.base = r.choice((0, 0, r.randrange(0, 50) * interval, (1 << 31) - interval * 2, (1 << 32) - interval,
                              (1 << 63) - interval * 3))
        self.perm = None
        self.maxval = maxval
    def id(self):
        r = self.r; self.n += 1
        p = self.ids
        if p == "mixed": p = r.choice(("dense", "border", "edge", "shuffle", "cluster"))
        if p == "dense": return self.base + self.n
        if p == "reverse": return self.base + max(0, 100000 - self.n)
        if p == "shuffle": return self.base + r.randrange(self.span)
        if p == "wide": return self.base + r.randrange(self.span) * max(1, self.interval // 7)
        if p == "cluster": return self.base + r.randrange(5)
        if p == "border":
            x = self.base + r.randrange(8) * self.interval + r.choice((-2, -1, 0, 1, 2, self.interval // 2))
            return max(0, x)
        if p == "huge": return r.randrange(U64 - 1)
        e = r.choice((0, 1 << 31, 1 << 32, 1 << 62, 1 << 63, U64 - 1 - 8))
        return min(U64 - 1, max(0, e + r.randrange(-8, 9)))
    def key(self):
        r = self.r; p = self.keys
        if p == "mixed": p = r.choice(("none", "short", "prefix", "long"))
        if p == "none": return ""
        if p == "short": return "%02x" % r.randrange(256) if r.random() < .8 else "%04x" % r.randrange(65536)
        if p == "prefix": return ("6162" * r.randrange(1, 9)) + r.choice(("", "00", "01", "ff", "7f80"))
        n = r.choice((255, 254, 128, 127, 64, 200))
        return ("%02x" % r.randrange(256)) + "aa" * (n - 2) + "%02x" % r.randrange(4)
    def val(self):
        r = self.r; p = self.vals
        if p == "mixed": p = r.choice(("tiny", "small", "small", "big"))
        x = r.random()
        if x < .06: return "-"
        if p == "tiny": return "h%08x" % r.getrandbits(32)
        if p == "small": return "h" + "".join("%02x" % r.randrange(256) for _ in range(r.randrange(1, 65)))
        n = r.choice((65, 100, 1000, 4096, 5000, self.maxval)) if r.random() < .5 else r.randrange(65, 3000)
        return "g%d:%d:%d" % (r.getrandbits(31), min(n, self.maxval), r.randrange(3))
    def event(self, live=None, rehit=.25, delete=.15):
        r = self.r
        if live and r.random() < rehit:
            i, k = live[r.randrange(len(live))]
        else:
            i, k = self.id(), self.key()
        if r.random() < delete: return (1, i, k, "-" if r.random() < .7 else self.val())
        return (0, i, k, self.val())
    def batch(self, n, live=None, **kw):
        evs = [self.event(live, **kw) for _ in range(n)]
        if n > 1 and self.r.random() < .2:              # the same key several times in a batch
            for _ in range(self.r.randrange(1, 4)):
                a = self.r.choice(evs)
                b = self.event(live, **kw)
                evs.insert(self.r.randrange(len(evs) + 1), (b[0], a[1], a[2], b[3]))
        return evs

class Db:
    def __init__(self, ctx, rng, variant="plain", sets=(), sub="db", workers=0, workers_upload=0, serial=False, env=None,
                 timeout=120):
        self.ctx, self.r, self.variant = ctx, rng, variant
        self.path = os.path.join(ctx.dir, sub)
        self.sets = ["workers to %d" % workers, "workers_upload to %d" % workers_upload,
                     "serial to %s" % ("true" if serial else "false")] + list(sets)
        self.model = {}
        self.wal = not any(s == "wal to false" for s in sets)
        self.m = None
        self.env = env
        self.timeout = timeout
        self.pre = ()
        self.trail = []         # recent operations, for messages
        self.live_cache = None
    # ---- life cycle
    def start(self, pre=()):
        if self.m is None:
            self.m = self.ctx.mnx(self.variant, env=self.env, timeout=self.timeout)
        self.m.ok("init")
        for s in self.sets: self.m.sql("set " + s)
        for p in pre or self.pre: self.m.ok(p)
        ok, t = self.m.cmd("open " + self.path)
        if not ok: raise Viol("open", "open failed: %s; before: %s" % (t, self.trail[-12:]))
        return self
    def stop(self):
        self.m.ok("free")
    def reopen(self, fresh=False):
        self.note("reopen")
        self.stop()
        if fresh:
            self.m.close(); self.m = None
        self.start()
        self.ctx.add("reopens")
    def kill(self):
        self.m.drop(); self.m = None
    def note(self, s):
        self.trail.append(s[:200])
        if len(self.trail) > 60: del self.trail[:20]
    # ---- commands
    def sql(self, text):
        self.note(text)
        ok, t = self.m.cmd("sql " + text)
        if not ok: raise Viol("command-error", "%r failed: %s; before: %s" % (text, t, self.trail[-12:]))
        return t
    def trysql(self, text):
        self.note(text)
        return self.m.cmd("sql " + text)
    def js(self, text):
        ok, t = self.m.cmd("sql " + text)
        if not ok: raise Viol("command-error", "%r failed: %s" % (text, t))
        try:
            return json.loads(t)
        except ValueError:
            raise Viol("show-json", "%r is not valid JSON: %r" % (text, t[:400]))
    def parts(self, what="show partitions"):
        ps = self.js(what)
        for p in ps:
            p["min"] &= U64; p["max"] &= U64
        return ps
    # ---- model
    def apply(self, evs):
        m = self.model
        for f, i, k, v in evs:
            if f & 1: m.pop((i, k), None)
            else: m[(i, k)] = v
        self.live_cache = None
    def live(self):
        if self.live_cache is None: self.live_cache = list(self.model)
        return self.live_cache
    def sorted(self):
        return [(i, k, v) for (i, k), v in sorted(self.model.items())]
    def write(self, evs, expect=True):
        self.note("w %d events %s.." % (len(evs), [(e[0], e[1], e[2][:8]) for e in evs[:2]]))
        ok, t = self.m.cmd(fmt_events(evs))
        if not ok:
            if expect: raise Viol("write-error", "write of %d events failed: %s; %s" % (len(evs), t, evs[:3]))
            return False, t
        ids = [int(x) for x in t.split()]
        evs = [(f, ids[n], k, v) for n, (f, i, k, v) in enumerate(evs)]
        self.apply(evs)
        self.ctx.add("writes"); self.ctx.add("events", len(evs))
        return True, evs
    def write_many(self, batches):
        """pipelined writes"""
        rep = self.m.batch([fmt_events(b) for b in batches])
        for b, (ok, t) in zip(batches, rep):
            if not ok: raise Viol("write-error", "write failed: %s; %s" % (t, b[:3]))
            ids = [int(x) for x in t.split()]
            self.apply([(f, ids[n], k, v) for n, (f, i, k, v) in enumerate(b)])
        self.note("%d writes" % len(batches))
        self.ctx.add("writes", len(batches)); self.ctx.add("events", sum(map(len, batches)))
    def remove_range(self, lo, hi):
        gone = [x for x in self.model if lo <= x[0] <= hi]
        for x in gone: del self.model[x]
        self.live_cache = None
        return len(gone)
    # ---- oracles
    def scan(self):
        ok, t = self.m.cmd("scan -1")
        if not ok: raise Viol("scan-error", "scan failed: %s; before: %s" % (t, self.trail[-12:]))
        return parse_events(t)
    def check_scan(self, why="", key="scan"):
        got, want = self.scan(), self.sorted()
        self.ctx.add("scans"); self.ctx.add("scanned", len(got))
        if got != want:
            raise Viol(key, "%s: %s; before: %s" % (why, diff(got, want), self.trail[-14:]))
    def seek_targets(self, n):
        r = self.r; live = self.live(); out = []
        for _ in range(n):
            x = r.random()
            if live and x < .75:
                i, k = live[r.randrange(len(live))]
                y = r.random()
                if y < .3: pass
                elif y < .45: i = min(U64, i + 1)
                elif y < .6: i = max(0, i - 1)
                elif y < .7: k = ""
                elif y < .8: k = (k + "00")[:510]
                elif y < .9: k = k[:-2]
                else: k = "ff" * 255
            else:
                i = r.choice((0, U64, r.getrandbits(64), r.getrandbits(20), 1 << 63, 1 << 32)); k = r.choice(("", "00", "ff" * 255))
            out.append((i, k))
        return out
    def check_seeks(self, n=10, limit=None, key="seek"):
        import bisect
        want = self.sorted()
        ks = [(w[0], w[1]) for w in want]
        t = self.seek_targets(n)
        lim = limit or 25
        rep = self.m.batch(["scan %d %d %s" % (lim, i, kx(k)) for i, k in t])
        for (i, k), (ok, text) in zip(t, rep):
            if not ok: raise Viol("seek-error", "cursor at (%d,%s) failed: %s; before %s" % (i, k[:16], text, self.trail[-12:]))
            got = parse_events(text)
            p = bisect.bisect_left(ks, (i, k))
            w = want[p:p + lim] if lim >= 0 else want[p:]
            if got != w:
                raise Viol(key, "seek (%d,%s): %s; first got %r want %r; before: %s" % (
                    i, k[:16], diff(got, w), got[:2], w[:2], self.trail[-12:]))
            self.ctx.add("seeks")
            if p == len(ks): self.ctx.add("seeks_past_end")
            elif ks[p] == (i, k): self.ctx.add("seeks_exact")
            else: self.ctx.add("seeks_gap")
    # ---- maintenance operations
    def storages(self): return list(self.js("show storages"))
    def some_part(self):
        ps = self.parts()
        return self.r.choice(ps) if ps else None
    def some_range(self):
        ps = self.parts()
        if not ps: return None
        a = self.r.randrange(len(ps)); b = min(len(ps) - 1, a + self.r.randrange(0, 5))
        return ps[a:b + 1]
    def op_refresh(self):
        p = self.some_part()
        if p:
            i = self.r.choice((p["min"], p["max"], (p["min"] + p["max"]) // 2))
            self.sql("refresh partition %d" % i)
    def op_fail_refresh(self):
        """a refresh that fails at one of the built-in injection points, the partition keeps two memtables afterwards"""
        p = self.some_part()
        if not p: return
        n = self.r.choice((1, 1, 1, 2, 3))
        self.sql("set error_refresh_%d to true" % n)
        ok, _ = self.trysql("refresh partition %d" % p["min"])
        self.sql("set error_refresh_%d to false" % n)
        self.ctx.add("failed_refreshes", 0 if ok else 1)
    def op_refresh_all(self):
        self.sql("refresh partitions between 0 and 18446744073709551615")
    def op_refresh_range(self):
        ps = self.some_range()
        if ps:
            self.sql("refresh partitions between %d and %d" % (ps[0]["min"], ps[-1]["max"]))
    def op_move(self):
        p = self.some_part(); s = self.r.choice(self.storages())
        if p: self.sql("move partition %d into %s" % (p["min"], s))
    def op_move_range(self):
        ps = self.some_range(); s = self.r.choice(self.storages())
        if ps:
            self.sql("move partitions between %d and %d into %s" % (ps[0]["min"], ps[-1]["max"], s))
    def op_checkpoint(self):
        self.sql("checkpoint"); self.op_service_all()
    def op_service(self): self.sql("service")
    def op_service_all(self):
        for _ in range(4): self.sql("service")
    def op_rotate(self): self.sql("debug 'wal_create'")
    def op_gc(self): self.sql("debug 'wal_gc'")
    def op_create(self):
        r = self.r; live = self.live()
        a = live[r.randrange(len(live))][0] if live and r.random() < .7 else r.randrange(1 << 40)
        a = max(0, a + r.randrange(-5000, 5000)); b = a + r.choice((0, 1, 10, 1000, 100000))
        if b > U64: return
        self.sql("create partition %d %d" % (a, b) if r.random() < .7 or a > U64 - (1 << 41) else "create partition %d" % a)
    def op_interval(self):
        self.sql("set interval to %d" % self.r.choice((1, 7, 10, 100, 1000, 3000000, 1 << 40)))
    def op_drop(self):
        p = self.some_part()
        if p:
            self.sql("drop partition %s%d" % (self.r.choice(("", "if exists ")), p["min"]))
            n = self.remove_range(p["min"], p["max"])
            self.ctx.add("dropped_events", n); self.ctx.add("drops")
            return p
    def op_drop_range(self):
        ps = self.some_range()
        if ps:
            self.sql("drop partitions between %d and %d" % (ps[0]["min"], ps[-1]["max"]))
            for p in ps: self.ctx.add("dropped_events", self.remove_range(p["min"], p["max"]))
            self.ctx.add("drops")
    def op_cloud(self):
        p = self.some_part(); r = self.r
        if p:
            c = r.choice(("upload", "download", "dl", "dc"))
            if c == "upload" and p["on_storage"]: self.sql("upload partition %d if cloud" % p["min"])
            elif c == "download": self.sql("download partition %d if cloud" % p["min"])
            elif c == "dl" and p["on_cloud"] and p["on_storage"]: self.sql("drop partition %d on storage" % p["min"])
            elif c == "dc" and p["on_cloud"] and p["on_storage"]: self.sql("drop partition %d on cloud" % p["min"])
            self.ctx.add("cloud_ops")
    def op_reopen(self): self.reopen()
    def op_reopen_fresh(self): self.reopen(fresh=True)
    def files(self):
        out = {}
        for d, _, fs in os.walk(self.path):
            for f in fs: out[os.path.relpath(os.path.join(d, f), self.path)] = os.path.getsize(os.path.join(d, f))
        return out

def pick(r, weights):
    k = list(weights); return r.choices(k, [weights[x] for x in k])[0]

def layout(db, ctx):
    """records which physical layouts were present (memory only, file only, both, cloud)"""
    for p in db.parts():
        a = ("heap" if p["events_heap"] > 0 else "") + ("+file" if p["on_storage"] else "") + ("+cloud" if p["on_cloud"] else "")
        ctx.see("layouts", (a or "empty") + (">1region" if p["regions"] > 1 else ""))
