import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from program import *

class Env:
    """one environment of a shared process, with the interface of Mnx"""
    def __init__(self, shared, k): self.s, self.k = shared, k
    def batch(self, lines, timeout=None):
        if self.s.cur != self.k: self.s.m.cmd("env %d" % self.k); self.s.cur = self.k
        return self.s.m.batch(lines, timeout)
    def cmd(self, line, timeout=None): return self.batch([line], timeout)[0]
    def ok(self, line):
        ok, t = self.cmd(line)
        if not ok: raise Viol("unexpected-error", "environment %d: %r failed: %s" % (self.k, line[:300], t))
        return t
    def sql(self, text): return self.ok("sql " + text)
    def js(self, text): return json.loads(self.sql(text))
class Shared:
    def __init__(self, ctx, variant): self.m, self.cur = ctx.mnx(variant), -1

OPS = dict(write=30, bulk=4, scan=3, seek=6, refresh=5, refresh_all=2, refresh_range=2, fail_refresh=2, checkpoint=1, service=3, rotate=2, gc=2, create=2, move=3, move_range=1, drop=3, drop_range=1, cloud=3, interval=1, reopen=1.5)

class One:
    """an environment with settings, schema, program and model of its own"""
    def __init__(self, ctx, r, shared, k, sub, variant, case):
        self.ctx, self.r, self.k, self.shared = ctx, r, k, shared
        serial = r.random() < .2
        interval, page, sets = config(r)
        ids = r.choice(("dense", "shuffle", "border", "cluster", "wide"))
        if interval < 100: interval = 100; sets[0] = "interval to 100"
        self.serial = serial
        g = Gen(r, interval, ids=ids, vals=r.choice(("tiny", "small", "mixed")), maxval=3000)
        self.w = r.choice((0, 0, 2)) if case["workers"] else 0
        self.limit = r.random() < .15
        if self.limit: sets += ["mm_limit to true", "mm_limit_wm to %d" % (400 * page), "mm_limit_behaviour to 'error'"]
        db = self.db = Db(ctx, r, variant, sets, sub=sub, workers=self.w, workers_upload=1 if self.w else 0); db.wal = "wal to true" in sets
        db.m = Env(shared, k); db.start()
        ops = dict(OPS)
        if self.w: ops.update(fail_refresh=0, refresh=0, move=0, move_range=0, drop_range=0, drop=0, cloud=0, refresh_range=0)     # (a partition taken by the workers; drops of waiting ones)
        self.cloud = r.random() < .4
        if self.cloud: db.sql("create cloud c%d (type 'mock')" % k)
        tune_main(r, db)
        for n in range(r.choice((0, 1, 2))):
            db.sql("create storage e%ds%d (compression '%s'%s%s)" % (k, n, r.choice(("zstd", "lz4", "")), ", cloud 'c%d'" % k if self.cloud and r.random() < .6 else "", ", encryption 'aes', encryption_key '%s'" % ("%032d" % (k * 10 + n)) if r.random() < .3 else ""))
        self.p = Program(ctx, r, db, g, ops, case["budget"])
        self.cur = {}           # slot -> events still to come
        self.live = True
        self.uuid = db.js("show config")["uuid"] if "uuid" in db.js("show config") else None
    def slot(self, j): return self.k * 6 + j
    def cursor_open(self):
        r, db = self.r, self.db
        j = r.randrange(3)
        if j in self.cur: return self.cursor_read()
        want = db.sorted()
        if r.random() < .5 or not want: db.m.ok("co %d" % self.slot(j))
        else:
            (i, k), = db.seek_targets(1); db.m.ok("co %d %d %s" % (self.slot(j), i, kx(k)))
            want = [e for e in want if (e[0], e[1]) >= (i, k)]
        self.cur[j] = want; self.ctx.add("cursors")
    def cursor_read(self):
        r, db, ctx = self.r, self.db, self.ctx
        if not self.cur: return
        j = r.choice(list(self.cur)); want = self.cur[j]
        for _ in range(r.choice((1, 1, 5, 40))):
            x = r.random()
            if x < .45:
                ok, t = db.m.cmd("cr %d" % self.slot(j))
                got = parse_events(t) if t != "end" else []
                if not ok or got != want[:1]: raise Viol("cursor-read", "environment %d: read gives %s, %s is next; %s" % (self.k, t[:200], want[:1], db.trail[-8:]))
                ctx.add("reads" if got else "reads_at_end")
            elif x < .9:
                ok, t = db.m.cmd("cn %d" % self.slot(j))
                del want[:1]
                if not ok or t != ("1" if want else "0"): raise Viol("cursor-next", "environment %d: next gives %s %s, %d events are left; %s" % (self.k, ok, t, len(want), db.trail[-8:]))
                ctx.add("nexts" if want else "nexts_at_end")
            else:
                n = r.choice((1, 10)); ok, t = db.m.cmd("cw %d %d" % (self.slot(j), n))
                end = t.endswith("end\n"); got = parse_events(t[:-4] if end else t)
                if not ok or got != want[:n]: raise Viol("cursor-read", "environment %d: walk %s; %s" % (self.k, diff(got, want[:n]), db.trail[-8:]))
                del want[:n]
                if end != (not want): raise Viol("cursor-end", "environment %d: end %s with %d events left" % (self.k, end, len(want)))
        if r.random() < .25: self.cursor_close(j)
    def cursor_close(self, j):
        self.db.m.ok("cc %d" % self.slot(j)); del self.cur[j]
    def error(self):
        """the text of an error is that of the failed call"""
        r, db = self.r, self.db; n = "nm%d_%d" % (self.k, r.getrandbits(40)); i = r.randrange(1 << 60, 1 << 61)
        text, need = r.choice((("refresh partition %d" % i, str(i)), ("show storage " + n, n)) if self.cur else (("drop storage " + n, n), ("refresh partition %d" % i, str(i)), ("move partition %d into main" % i, str(i)), ("alter cloud %s set (login 'x')" % n, n), ("set %s to 1" % n, n), ("show storage " + n, n), ("drop partition %d" % i, str(i)), ("alter pipeline set " + n, n)))
        ok, t = db.m.cmd("sql " + text)
        if ok or need not in t: raise Viol("error-text", "environment %d: %r gives %s %r" % (self.k, text, ok, t))
        self.ctx.add("error_texts")
    def serial_write(self):
        pass
    def still(self, why):
        """schema and settings seen from outside its own commands"""
        db = self.db
        c = {k: v for k, v in db.js("show config").items() if k not in ("lsn", "ssn")}
        return dict(config=c, storages={k: v["config"] for k, v in db.js("show storages").items()}, clouds=db.js("show clouds"), memory=None if self.w else db.js("show memory"), parts=None if self.w else db.parts(), wal=None if self.w else db.js("show wal"))
    def check(self, why):
        self.db.check_scan("environment %d, %s" % (self.k, why), key="content")
    def close(self, clean=True):
        for j in list(self.cur): self.cursor_close(j)
        if not self.db.wal: self.db.op_refresh_all()
        self.db.stop(); self.live = False

def mix(ctx, case):
    r = rng_of(case, "c32"); v = case.get("variant", "plain")
    sh = Shared(ctx, v); envs = []; n = [0]
    def new(k):
        n[0] += 1
        e = One(ctx, r, sh, k, "db%d" % n[0], v, case); envs.append(e); ctx.add("environments"); return e
    for k in range(case["envs"]): new(k)
    ids = [e.db.js("show config").get("uuid") for e in envs]
    if None not in ids and len(set(ids)) != len(ids): raise Viol("uuid", "environments of the same identity %s" % ids)
    for step in range(case["steps"]):
        e = r.choice(envs); x = r.random()
        watch = [f for f in envs if f is not e] if r.random() < .25 else []
        before = [f.still("before") for f in watch]
        if e.cur:
            if x < .6: e.cursor_read()
            elif x < .7: e.cursor_open()
            elif x < .8: e.error()
            elif x < .9: e.check("with open cursors")
            else:
                for j in list(e.cur): e.cursor_close(j)
        elif x < .72: e.p.step()
        elif x < .86: e.cursor_open()
        elif x < .93: e.error()
        elif x < .96: e.check("step %d" % step)
        else:
            # another one in its place, the first one's directory is opened again later
            e.close(); k = e.k; ctx.add("closed_among")
            if r.random() < .5: e.db.start(); e.live = True; e.check("reopened among others")
            else: envs.remove(e); new(k)
        for f, b in zip(watch, before):
            a = f.still("after"); ctx.add("watched")
            if a != b:
                d = [(k, a[k], b[k]) for k in a if a[k] != b[k]]
                raise Viol("other-changed", "environment %d changed by an operation of environment %d: %s; %s" % (f.k, e.k, str(d)[:700], e.db.trail[-4:]))
    r.shuffle(envs)
    for e in envs:
        for j in list(e.cur): e.cursor_close(j)
        e.check("end")
    for e in list(envs):
        e.close(); envs.remove(e)
        for f in envs: f.check("another one closed")
    sh.m.close()

def threads(ctx, case):
    """every thread works on all environments, with ids of its own; what it reads back of them is certain"""
    r = rng_of(case, "c32t"); v = case.get("variant", "plain")
    sh = Shared(ctx, v); m = sh.m; ne, nt = case["envs"], case["threads"]
    model = [{} for _ in range(ne)]
    sers = []
    for e in range(ne):
        m.ok("env %d" % e); m.ok("init")
        for s in ("workers to %d" % r.choice((0, 1, 2)), "workers_upload to 0", "interval to %d" % r.choice((100, 1000)), "mm_page_size to 65536", "wal_rotate_wm to %d" % r.choice((2000, 1 << 20)), "wal to %s" % r.choice(("true", "false"))): m.sql("set " + s)
        m.ok("open %s/db%d" % (ctx.dir, e)); m.sql("alter storage main set (refresh_wm %d, compression '%s')" % (r.choice((1, 100000)), r.choice(("zstd", "lz4", ""))))
    for rnd in range(case["rounds"]):
        lines, want = [], []
        for t in range(nt):
            for n in range(case["n"]):
                e = r.randrange(ne); pre = ["env %d" % e]
                x = r.random()
                mine = [k for k in model[e] if k[0] // 100 % nt == t]
                if x < .5 or not mine:
                    evs = []
                    for _ in range(r.choice((1, 1, 4))):
                        i, k = r.choice(mine) if mine and r.random() < .4 else (1000 * 0 + r.randrange(3) * 100 * nt + t * 100 + r.randrange(100), "")
                        evs.append((0, i, k, "h%02x%02x%08x" % (e, t, r.getrandbits(32))) if r.random() < .85 else (1, i, k, "-"))
                    evs = [y for y in evs if y[1] // 100 == evs[0][1] // 100]         # (of one partition)
                    for f, i, k, val in evs:
                        if f: model[e].pop((i, k), None)
                        else: model[e][i, k] = val
                    pre.append(fmt_events(evs)); w = (None,)
                    want_ = (None,)
                elif x < .8:
                    i, k = r.choice(mine); pre.append("scan 1 %d %s" % (i, kx(k))); want_ = ("event", i, k, model[e][i, k])
                elif x < .93:
                    nm = "nm%d_%d_%d" % (e, t, r.getrandbits(40)); pre.append("sql drop storage " + nm); want_ = ("error", nm)
                else: pre.append("sql " + r.choice(("show memory", "show all", "show wal", "service", "checkpoint"))); want_ = (None,)
                for l in pre[:-1]: lines.append("%d %s" % (t, l)); want.append((t, None))
                lines.append("%d %s" % (t, pre[-1])); want.append((t, want_, pre[-1], e))
        f, o = ctx.dir + "/in", ctx.dir + "/out"
        with open(f, "w") as h: h.write("\n".join(lines) + "\n")
        if r.random() < .6: m.ok("ip root " + ctx.dir); m.ok("ip delay %d %d %d" % (r.choice((20, 100)), r.choice((50, 500)), r.getrandbits(30)))
        ok, t_ = m.cmd("par %s %s 30" % (f, o)); m.ok("ip off")
        if not ok: raise Viol("stuck", t_)
        per = {}
        for w in want: per.setdefault(w[0], []).append(w)
        for l in open(o):
            th, idx, t0, t1, okk, hx = (l.rstrip("\n").split(" ") + [""])[:6]
            w = per[int(th)][int(idx)]
            if w[1] is None: continue
            text = bytes.fromhex(hx).decode("latin1") if hx not in ("", "-") else ""; okk = int(okk)
            if w[1][0] == "error":
                if okk or w[1][1] not in text: raise Viol("error-text", "thread %s: %s gives %r" % (th, w[2], text))
                ctx.add("error_texts_threads")
            elif not okk: raise Viol("command", "thread %s, environment %d: %s: %s" % (th, w[3], w[2][:200], text))
            elif w[1][0] == "event":
                got = parse_events(text)
                if got != [w[1][1:]]: raise Viol("content-thread", "thread %s, environment %d: %s gives %s, written %s" % (th, w[3], w[2], got, w[1][1:]))
                ctx.add("reads_threads")
            else: ctx.add("calls_threads")
        for e in range(ne):
            m.ok("env %d" % e); got = parse_events(m.ok("scan -1")); w = [(i, k, v_) for (i, k), v_ in sorted(model[e].items())]
            if got != w: raise Viol("content-thread", "environment %d after round %d: %s" % (e, rnd, diff(got, w)))
        ctx.add("rounds_threads")
    l = list(range(ne)); r.shuffle(l)
    for e in l: m.ok("env %d" % e); m.ok("free")
    m.close()

def fn(ctx, case):
    (threads if case["kind"] == "threads" else mix)(ctx, case)

def cases():
    n = 240 if not THOROUGH else 5000
    return [dict(seed=k, kind="threads" if k % 4 == 3 else "mix", steps=150, envs=2 + k % 3, threads=2 + k % 4, n=40, rounds=2, budget=400, workers=k % 3 == 1, variant="asan" if k % 8 == 5 or k % 16 == 3 else "plain") for k in range(n)]

if __name__ == "__main__":
    c = Check("C32", "exploration", variants=("plain", "asan"))
    one_ = replay_case(sys.argv)
    c.run(fn, [one_] if one_ else cases(), budget=800 if THOROUGH else 150)
    c.finish("one case = (mix) several environments of one process, opened, used, closed and reopened in any order, with cursors of all of them open at once, hostile calls and wrong uses in between; after each step the contents, settings and error text of "
             "the environment used, and in between of all others, are compared with models of their own; or (threads) several threads working on all environments at once, each reading back what it wrote and each provoking errors of its own text",
             need=("environments", "cursors", "reads", "reads_at_end", "nexts", "nexts_at_end", "error_texts", "watched", "closed_among", "rounds_threads", "reads_threads", "error_texts_threads", "calls_threads"))
