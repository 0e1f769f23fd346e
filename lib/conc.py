"""Threaded workloads, their histories, and a linearizability checker.

A partition is one object: its state is the set of its events. A batch of writes, a drop, and what one scan saw of the
partition are its operations."""
from program import *

class Op:
    __slots__ = ("t0", "t1", "kind", "arg", "th", "idx")
    def __init__(self, t0, t1, kind, arg, th, idx): self.t0, self.t1, self.kind, self.arg, self.th, self.idx = t0, t1, kind, arg, th, idx
    def __repr__(self): return "[thread %d op %d %s %s %.3f..%.3f ms]" % (self.th, self.idx, self.kind, str(self.arg)[:160], self.t0 / 1e6, self.t1 / 1e6)

def apply(state, op):
    """state: dict; returns the new state (or None when a read does not match)"""
    if op.kind == "w":
        s = dict(state)
        for f, i, k, v in op.arg:
            if f & 1: s.pop((i, k), None)
            else: s[(i, k)] = v
        return s
    if op.kind == "drop": return {}
    lo, evs, complete = op.arg
    want = sorted(((i, k, v) for (i, k), v in state.items() if (i, k) >= lo))
    if (want == evs) if complete else (want[:len(evs)] == evs): return state
    return None

def check(ops, init, limit=400000, resets=()):
    """None when the history has a legal order, otherwise a description; raises Inconclusive when too hard"""
    ops = sorted(ops, key=lambda o: (o.t0, o.t1))
    n = len(ops)
    hist_max = [0]
    seen = set(); steps = 0
    # stack of (lo, done beyond lo, state)
    best = (0, init, 0)
    stack = [(0, frozenset(), init)]
    while stack:
        lo, done, st = stack.pop()
        # reads that match now can always be taken now
        while True:
            while lo < n and lo in done: done = done - {lo}; lo += 1
            if lo >= n: return None
            m = min(ops[i].t1 for i in range(lo, n) if i not in done and ops[i].t0 <= ops[lo].t1 or i == lo)
            cand = []
            for i in range(lo, n):
                if ops[i].t0 > m: break
                if i not in done: cand.append(i)
            took = [i for i in cand if ops[i].kind == "r" and apply(st, ops[i]) is not None]
            if not took: break
            done = done | set(took)
        key = (lo, done, frozenset(st.items()))
        if key in seen: continue
        seen.add(key); steps += 1
        if steps > limit: raise Inconclusive("history too concurrent")
        k = lo + len(done)
        if k > best[2]: best = (lo, st, k, [ops[i] for i in cand])
        for i in sorted((i for i in cand if ops[i].kind != "r"), key=lambda i: -ops[i].t1):
            stack.append((lo, done | {i}, apply(st, ops[i])))
        if st and resets:
            t = ops[max(done) if done else lo - 1].t0 if done or lo else 0
            if any(max(t, a) <= min(m, b) for a, b in resets): stack.append((lo, done, {}))
    return "no legal order after %d of %d operations; state then %s; next %s" % (best[2], n, sorted(best[1].items())[:8], best[3][:6] if len(best) > 3 else ops[:3])

def by_key(ops, keys):
    """the history of every key on its own: a drop removes the events of a partition one part after the other, so it may
    take effect more than once (but at least once) while it runs"""
    out = {}
    for k in keys:
        l = []
        for o in ops:
            if o.kind == "w":
                e = [e for e in o.arg if (e[1], e[2]) == k]
                if e: l.append(Op(o.t0, o.t1, "w", e[-1:], o.th, o.idx))
            elif o.kind == "drop": l.append(o)
            else:
                lo, evs, complete = o.arg
                if k < lo or not complete and (not evs or k > evs[-1][:2]): continue
                l.append(Op(o.t0, o.t1, "r", (k, [e for e in evs if e[:2] == k], True), o.th, o.idx))
        out[k] = l
    return out

class Conc:
    """one database with background workers and a few small partitions"""
    I = 32
    wide = False        # batches of several partitions (no thread may write while it holds a cursor)
    def __init__(self, ctx, case, salt, variant="plain", workers=None, sets=(), wal=True):
        self.ctx, self.case = ctx, case
        r = self.r = rng_of(case, salt)
        self.base = r.choice((0, 1 << 20, 1 << 40)) // self.I * self.I
        w = r.choice((1, 2, 3)) if workers is None else workers
        s = ["interval to %d" % self.I, "mm_page_size to 65536", "wal to %s" % ("true" if wal else "false"), "wal_crc to true", "wal_rotate_wm to %d" % r.choice((2000, 20000, 1 << 20))] + list(sets)
        db = self.db = Db(ctx, r, variant, s, workers=w, workers_upload=r.choice((0, 1)) if w else 0, timeout=240)
        db.start()
        self.np = r.choice((1, 2, 3, 5))
        self.names = ["main"]
        wm = r.choice((1, 1, 300, 3000, 1 << 20))
        o = "refresh_wm %d, region_size %d" % (wm, r.choice((1, 200, 131072)))
        db.sql("alter storage main set (%s)" % o)
        self.cloud = case.get("cloud")
        if self.cloud: db.sql("create cloud c (type 'mock')")
        for n in ("sa", "sb"):
            if r.random() < .6:
                db.sql("create storage %s (%s%s)" % (n, o, ", cloud 'c', cloud_drop_local %s" % r.choice(("true", "false")) if self.cloud else "")); self.names.append(n)
        if len(self.names) > 1 and r.random() < .6:
            ns = r.sample(self.names, r.randint(1, len(self.names)))
            db.sql("alter pipeline set " + ", ".join("%s (partitions %d)" % (n, r.choice((0, 1, 2))) if n != ns[-1] else n for n in ns))
        self.ver = 0
        self.slots = [(x, k) for x in range(0, self.I, r.choice((1, 3, 7))) for k in r.choice((("",), ("", "61", "62ff")))][:r.choice((1, 3, 8, 20))]
        self.init = {p: {} for p in range(self.np)}
        self.cmds = []          # per thread list of (line, meta)
    def pid(self, i): return (i - self.base) // self.I
    def lo(self, p): return self.base + p * self.I
    def batch(self, p, n=None, delete=None):
        r = self.r; self.ver += 1
        sl = list(self.slots)
        if n is None: n = r.choice((1, 1, 2, len(sl), len(sl)))
        sl = sl if n >= len(sl) else r.sample(sl, n)
        if r.random() < .3: r.shuffle(sl)
        d = r.random() < .15 if delete is None else delete
        evs = []
        for x, k in sl:
            if d and r.random() < .8: evs.append((1, self.lo(p) + x, k, "-"))
            else: evs.append((0, self.lo(p) + x, k, ("h%08x%02x" % (self.ver, len(evs))) if r.random() < .9 else "g%d:%d:2" % (self.ver, r.choice((100, 800)))))
        return evs
    ADMIN = dict(refresh=6, refresh_range=2, move=4, checkpoint=2, rebalance=2, gc=2, rotate=2, service=4, show=2, drop=2, create=1, cloud=0, alter=1, fail=0)
    def admin(self, weights=None):
        """(line, meta)"""
        r = self.r; p = r.randrange(self.np); i = self.lo(p)
        op = pick(r, weights or self.ADMIN)
        self.ctx.see("admin", op)
        last = self.lo(self.np) - 1
        if op == "refresh": return "sql refresh partition %d" % i, None
        if op == "refresh_range": return "sql refresh partitions between %d and %d" % (self.base, last), None
        if op == "move":
            if r.random() < .3: return "sql move partitions between %d and %d into %s" % (self.base, last, r.choice(self.names)), None
            return "sql move partition %d into %s" % (i, r.choice(self.names)), None
        if op == "drop": return "sql drop partition if exists %d" % i, ("drop", p)
        if op == "create": return "sql create partition %d %d" % (i, i + self.I - 1), None
        if op == "gc": return "sql debug 'wal_gc'", None
        if op == "rotate": return "sql debug 'wal_create'", None
        if op == "alter": return "sql alter storage %s set (refresh_wm %d)" % (r.choice(self.names), r.choice((1, 500, 100000))), None
        if op == "show": return "sql " + r.choice(("show partitions", "show storages", "show memory", "show wal", "show all", "show partition %d" % i)), None
        if op == "cloud": return "sql " + r.choice(("upload partition %d if cloud", "download partition %d if cloud")) % i, None
        return "sql " + op, None
    def writer(self, n, parts=None):
        out = []
        for _ in range(n):
            p = self.r.choice(parts or range(self.np)); e = self.batch(p)
            if self.wide and parts is None and self.np > 1 and self.r.random() < .2:
                # a batch of several partitions, in any order
                e = e + [x for q in self.r.sample(range(self.np), self.r.randint(1, self.np)) if q != p for x in self.batch(q)]
                if self.r.random() < .6: self.r.shuffle(e)
                e = e[:40]       # (the race detector follows at most 64 held locks of a thread)
                if len({self.pid(x[1]) for x in e}) > 1: self.ctx.add("wide_batches")
            out.append((fmt_events(e), ("w", p, e)))
        return out
    def reader(self, n):
        r, out = self.r, []
        for _ in range(n):
            p = r.randrange(self.np)
            x, k = r.choice(((0, ""), r.choice(self.slots)))
            lim = r.choice((1, 2, len(self.slots), len(self.slots) + 2, -1))
            out.append(("scan %d %d %s" % (lim, self.lo(p) + x, kx(k)), ("scan", lim, self.lo(p) + x, k)))
        return out
    # ------------------------------------------------------------ running
    def run(self, threads, delay=None, stall=8, live=False):
        """threads: list of [(line, meta)]; returns [(thread, idx, t0, t1, ok, text)]"""
        ctx, db, r = self.ctx, self.db, self.r
        fi, fo = os.path.join(ctx.dir, "in"), os.path.join(ctx.dir, "out")
        with open(fi, "w") as f:
            for t, cmds in enumerate(threads):
                for line, _ in cmds: f.write("%d %s\n" % (t, line))
        if delay: db.m.ok("ip delay %d %d %d" % (delay + (r.getrandbits(31),)))
        else: db.m.ok("ip delay 0 0 0")
        try: ok, t = db.m.cmd("par %s %s %d%s" % (fi, fo, stall, " live" if live else ""))
        except Dead as e:
            if e.rc == 78: raise Viol("stuck", "no progress: %s" % e.err[-600:])
            raise
        if not ok:
            if "STUCK" in t: raise Viol("stuck", t[:1500])
            raise Exception(t)
        db.m.ok("ip delay 0 0 0")
        out = []
        for l in open(fo):
            a = l.split()
            if len(a) != 6: continue
            out.append((int(a[0]), int(a[1]), int(a[2]), int(a[3]), a[4] == "1", "" if a[5] == "-" else bytes.fromhex(a[5]).decode("latin1")))
        ctx.add("threads", len(threads)); ctx.add("commands", len(out))
        return out
    def split_scan(self, meta, text, t0, t1, th, idx, ops):
        """what one scan saw of each partition"""
        _, lim, i0, k0 = meta
        evs = parse_events(text)
        for a, b in zip(evs, evs[1:]):
            if (a[0], a[1]) >= (b[0], b[1]): raise Viol("order", "scan returned %s before %s" % (a[:2], b[:2]))
        if evs and (evs[0][0], evs[0][1]) < (i0, k0): raise Viol("order", "scan from %s returned %s" % ((i0, k0), evs[0][:2]))
        if lim >= 0 and len(evs) > lim: raise Viol("order", "limit")
        cut = lim >= 0 and len(evs) >= lim
        end = self.pid(evs[-1][0]) if evs else self.np
        for p in range(self.pid(i0), self.np):
            mine = [e for e in evs if self.pid(e[0]) == p]
            if cut and p > end: break
            lo = (i0, k0) if p == self.pid(i0) else (self.lo(p), "")
            ops[p].append(Op(t0, t1, "r", (lo, mine, not (cut and p == end)), th, idx))
        for e in evs:
            if not 0 <= self.pid(e[0]) < self.np: raise Viol("invented", "scan returned %s" % (e[:2],))
        self.ctx.add("scan_partitions", len({self.pid(e[0]) for e in evs}))
    def history(self, threads, res, may_fail=()):
        ops = {p: [] for p in range(self.np)}
        for th, idx, t0, t1, ok, text in res:
            line, meta = threads[th][idx]
            if not ok:
                if line.startswith("sql") and any(m in text for m in may_fail): self.ctx.add("refused"); continue
                raise Viol("command-error", "%r of thread %d failed: %s" % (line[:200], th, text))
            if meta is None: continue
            if meta[0] == "w":
                for p in {self.pid(e[1]) for e in meta[2]}: ops[p].append(Op(t0, t1, "w", [e for e in meta[2] if self.pid(e[1]) == p], th, idx))
            elif meta[0] == "drop": ops[meta[1]].append(Op(t0, t1, "drop", None, th, idx)); self.ctx.add("dropped")
            elif meta[0] == "scan": self.split_scan(meta, text, t0, t1, th, idx, ops)
        return ops
    def decide(self, ops, what="", key="not-linearizable"):
        """checks every partition; the final scan becomes part of the history"""
        ctx, db = self.ctx, self.db
        now = max([o.t1 for l in ops.values() for o in l] + [0]) + 1
        fin = db.scan()
        self.split_scan(("scan", -1, self.base, ""), "".join("%d %s %s\n" % (i, kx(k), v) for i, k, v in fin), now, now + 1, 99, 0, ops)
        for p, l in ops.items():
            over = 0; end = 0
            for o in sorted(l, key=lambda o: o.t0):
                if o.t0 < end: over += 1
                end = max(end, o.t1)
            ctx.add("overlapping_ops", over); ctx.add("history_ops", len(l))
            if any(o.kind == "drop" for o in l):
                ks = set(self.init[p]) | {(e[1], e[2]) for o in l if o.kind == "w" for e in o.arg} | {e[:2] for o in l if o.kind == "r" for e in o.arg[1]}
                bad = None
                for k, kl in by_key(l, ks).items():
                    bad = check(kl, {x: v for x, v in self.init[p].items() if x == k}, resets=[(o.t0, o.t1) for o in kl if o.kind == "drop"])
                    ctx.add("keys_checked")
                    if bad: bad = "key %s: %s" % (k, bad); break
            else: bad = check(l, self.init[p]); ctx.add("atomic_histories")
            if bad: raise Viol(key, "partition %d of %d, slots %d %s: %s" % (p, self.np, len(self.slots), what, bad))
            self.init[p] = {(i, k): v for i, k, v in fin if self.pid(i) == p}
            ctx.see("histories", hash(tuple((o.th, o.idx) for o in sorted(l, key=lambda o: o.t0))))
        ctx.add("partitions_checked", len(ops))
        db.model = {(i, k): v for i, k, v in fin}; db.live_cache = None
        return fin
