import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import hashlib
from crash import *
from c06 import maint

IN_USE = "in use"

def snap(path, mtime=True):
    out = {}
    for d, ds, fs in os.walk(path):
        for n in ds: out[os.path.relpath(os.path.join(d, n), path)] = "dir"
        for n in fs:
            if n == "log": continue
            p = os.path.join(d, n)
            try: st = os.stat(p); out[os.path.relpath(p, path)] = (st.st_size, st.st_mtime_ns if mtime else 0, st.st_ino, hashlib.sha1(open(p, "rb").read()).hexdigest())
            except FileNotFoundError: out[os.path.relpath(p, path)] = "gone"
    return out

def setup(ctx, case, name="db"):
    r = rng_of(case)
    db = Db(ctx, r, case["variant"], sets=["interval to %d" % r.choice((10, 100)), "mm_page_size to 65536", "wal_rotate_wm to %d" % r.choice((500, 1 << 20)), "log_to_file to %s" % r.choice(("true", "false"))], sub=name, workers=case.get("workers", 0))
    db.timeout = 60
    db.start()
    if r.random() < .5: db.sql("create storage s2")
    if r.random() < .3: db.sql("create cloud c (type 'mock')"); db.sql("create storage sc (cloud 'c')")
    g = Gen(r, 100, ids="shuffle", limit=r.choice((60, 300)), vals="small", keys="short")
    return r, db, g

def spelling(ctx, r, db):
    x = r.randrange(6)
    if x == 0: return db.path + "/"
    if x == 1: return os.path.dirname(db.path) + "/./" + os.path.basename(db.path)
    if x == 2: return os.path.dirname(db.path) + "//" + os.path.basename(db.path)
    if x == 3:
        l = os.path.join(ctx.dir, "link")
        if not os.path.lexists(l): os.symlink(db.path, l)
        return l
    if x == 4: return db.path + "/../" + os.path.basename(db.path)
    return db.path

class Intruder:
    """a second process, or a second environment of the first one"""
    def __init__(self, ctx, case, db, kind, env=1):
        self.ctx, self.db, self.kind, self.env = ctx, db, kind, env
        self.m = db.m if kind == "env" else ctx.mnx(case["variant"], timeout=60)
        self.live = False
    def cmd(self, x):
        if self.kind == "env": self.m.ok("env %d" % self.env)
        try: return self.m.cmd(x)
        finally:
            if self.kind == "env": self.m.ok("env 0")
    def prepare(self):
        if not self.live:
            ok, t = self.cmd("init"); self.live = True
            if not ok: raise Viol("init", t)
            for s in self.db.sets: self.cmd("sql set " + s)
    def refused(self, path, why):
        self.prepare()
        s0 = snap(self.db.path); ok, t = self.cmd("open " + path); s1 = snap(self.db.path)
        if ok: raise Viol("second-open", "%s: %s opened %s which is open already" % (why, "another environment" if self.kind == "env" else "another process", path))
        if not t.strip(): raise Viol("no-message", why)
        if s0 != s1: raise Viol("files-changed", "%s: the refused open changed %s" % (why, sorted(set(s0.items()) ^ set(s1.items()), key=str)[:6]))
        self.ctx.add("refused"); self.ctx.add("refused_" + self.kind)
    def free(self):
        if self.live: self.cmd("free"); self.live = False
    def open(self, path, why):
        self.prepare()
        ok, t = self.cmd("open " + path)
        if not ok: raise Viol("not-released", "%s: open failed: %s" % (why, t))
        self.ctx.add("released_opens")
    def contents(self, why):
        ok, t = self.cmd("scan -1")
        got, want = parse_events(t) if ok else t, self.db.sorted()
        if got != want: raise Viol("contents", "%s: %s" % (why, diff(got, want) if ok else t))

def intrude(ctx, case):
    """refused openers between (and after) the operations of the first"""
    r, db, g = setup(ctx, dict(case, workers=0))
    uuid = db.js("show config")["uuid"]
    b = Intruder(ctx, case, db, case["kind2"])
    for n in range(case["steps"]):
        if r.random() < .6: db.write(g.batch(r.choice((1, 5, 20)), db.live(), rehit=.4, delete=.2))
        else: maint(db, r, dict(case, wal=True, cloud="c" if "sc" in db.storages() else False, stor=1))
        if r.random() < .5:
            cursor = r.random() < .3
            if cursor: db.m.cmd("co 0 *")
            b.refused(spelling(ctx, r, db), "step %d" % n)
            if cursor: db.m.cmd("cc 0")
            if r.random() < .3: b.free()
            if r.random() < .2: db.check_scan("after a refused open", "disturbed")
            if r.random() < .15:      # the intruder may use another directory, and try again later
                o = os.path.join(ctx.dir, "other%d" % n); b.free(); b.open(o, "another directory"); b.cmd("w 1 0 5 - h01")
                if b.cmd("scan -1")[1].strip() != "5 - h01": raise Viol("other-directory", b.cmd("scan -1")[1][:200])
                b.free(); ctx.add("other_directories")
    db.check_scan("after refused opens", "disturbed")
    p = spelling(ctx, r, db)
    if r.random() < .6 and case["kind2"] == "proc":
        b.refused(p, "before the end") if r.random() < .7 else None      # retry on the same environment, or a new one
        if r.random() < .6: db.stop(); how = "closed"
        else: db.kill(); how = "killed"
    else: db.stop(); how = "closed"
    if case["kind2"] == "env" and how == "killed": return
    b.open(p, "the first one was " + how); b.contents("the first one was " + how)
    u = json.loads(b.cmd("sql show config")[1])["uuid"]
    if u != uuid: raise Viol("identity", "uuid %s became %s" % (uuid, u))
    # roles change
    if how == "closed":
        a2 = Intruder(ctx, case, db, "proc"); a2.m = db.m if case["kind2"] == "proc" else ctx.mnx(case["variant"], timeout=60)
        a2.refused(spelling(ctx, r, db), "roles changed")
        if case["kind2"] == "proc" and r.random() < .5: b.m.drop()
        else: b.free()
        a2.open(db.path, "roles changed twice"); a2.contents("roles changed twice"); a2.free()

def during(ctx, case):
    """refused openers while the threads of the first are at work"""
    r, db, g = setup(ctx, case)
    for _ in range(3): db.write(g.batch(10, db.live(), rehit=.4, delete=.2))
    nth = 3; lines = []; per = []
    for t in range(nth):
        evs = []
        for n in range(case["ops"]):
            x = r.random()
            if x < .6:
                e = [(0, r.randrange(300), "%02x%02x" % (0xa0 + t, r.randrange(40)), "h%04x" % r.randrange(65536)) for _ in range(r.choice((1, 3)))]
                lines.append("%d %s" % (t, fmt_events(e))); evs.append(e)
            else:
                lines.append("%d %s" % (t, r.choice(("sql refresh partition if exists %d" % r.randrange(300), "scan 10", "sql checkpoint", "sql service", "sql set wal_rotate_wm to 700", "sql show partitions", "sql debug 'wal_gc'"))))
        per.append(evs)
    inf, outf = os.path.join(ctx.dir, "in"), os.path.join(ctx.dir, "out")
    open(inf, "w").write("\n".join(lines) + "\n")
    bs = [Intruder(ctx, case, db, "proc") for _ in range(2)]
    for b in bs: b.prepare()
    db.m.ok("ip root " + db.path); db.m.ok("ip delay 100 500 %d" % r.getrandbits(30))
    db.m.post("par %s %s 30" % (inf, outf))
    n = 0
    while not db.m.ready():
        ok, t = bs[n % 2].cmd("open " + spelling(ctx, r, db)); n += 1
        if ok: raise Viol("second-open", "while the threads of the first process work, attempt %d succeeded" % n)
        if r.random() < .3: bs[n % 2].free(); bs[n % 2].prepare()
    ok, t = db.m.wait(); ctx.add("attempts_during_work", n); ctx.add("refused", n)
    if not ok: raise Viol("disturbed", "threads of the first process: %s" % t)
    db.m.ok("ip off")
    for l in open(outf):
        f = l.split(" ", 5)
        if f[4] != "1": raise Viol("disturbed", "operation of the first process failed: %s: %s" % (lines[0], bytes.fromhex(f[5].strip())))
    for evs in per:
        for e in evs: db.apply(e)
    db.check_scan("after refused opens during work", "disturbed")
    if r.random() < .5: db.kill()
    else: db.stop()
    bs[0].open(db.path, "first one ended"); bs[0].contents("first one ended"); bs[0].free()

def race(ctx, case):
    """several openers at the same time"""
    r, db, g = setup(ctx, case)
    db.write(g.batch(20, db.live(), rehit=.2, delete=0)); db.op_refresh() if r.random() < .5 else None
    db.stop(); db.m.close(); db.m = None
    n = r.choice((2, 3, 5)); ms = [ctx.mnx(case["variant"], timeout=60) for _ in range(n)]
    for m in ms: m.ok("init")
    fresh = None
    for rnd in range(case["rounds"]):
        new = r.random() < .4
        path = os.path.join(ctx.dir, "new%d" % rnd) if new else db.path
        if r.random() < .5:
            for m in ms: m.ok("ip root " + path); m.ok("ip delay 200 2000 %d" % r.getrandbits(30))
        order = list(ms); r.shuffle(order)
        for m in order: m.post("open " + path)
        rep = [m.wait() for m in order]
        win = [m for m, (ok, t) in zip(order, rep) if ok]
        if len(win) != 1: raise Viol("race", "%d of %d simultaneous opens of %s directory succeeded: %s" % (len(win), n, "a new" if new else "an existing", rep))
        ctx.add("races"); ctx.add("races_new" if new else "races_old")
        w = win[0]
        for m in ms: m.ok("ip off")
        want = [] if new else db.sorted()
        got = parse_events(w.ok("scan -1"))
        if got != want: raise Viol("contents", "after the race: %s" % diff(got, want))
        e = [(0, r.randrange(300), "%04x" % r.randrange(65536), "h01")]
        w.ok(fmt_events(e))
        if not new: db.apply(e)
        for m in ms:
            if m is w: continue
            if r.random() < .5: m.ok("free"); m.ok("init")
            ok, t = m.cmd("open " + path)
            if ok: raise Viol("second-open", "loser of the race opened the directory")
        # the winner ends
        if r.random() < .4:
            ms.remove(w); w.drop(); x = ctx.mnx(case["variant"], timeout=60); x.ok("init"); ms.append(x)
        else: w.ok("free"); w.ok("init")
        m = r.choice(ms); ok, t = m.cmd("open " + path)
        if not ok: raise Viol("not-released", "after the winner ended: %s" % t)
        got = parse_events(m.ok("scan -1")); want = e if new else None
        if new and [x for x in got] != [(e[0][1], e[0][2], e[0][3])]: raise Viol("contents", "after the race: %s" % got[:5])
        if not new and got != db.sorted(): raise Viol("contents", "after the race: %s" % diff(got, db.sorted()))
        m.ok("free"); m.ok("init")
    # environments of one process
    m = ms[0]
    for rnd in range(3):
        inf, outf = os.path.join(ctx.dir, "in"), os.path.join(ctx.dir, "out")
        k = 4; path = db.path if rnd else os.path.join(ctx.dir, "envs")
        for i in range(1, k + 1): m.ok("env %d" % i); m.ok("init")
        open(inf, "w").write("".join("%d env %d\n%d open %s\n" % (i, i + 1, i, path) for i in range(k)))
        m.ok("par %s %s 30" % (inf, outf))
        res = [l.split() for l in open(outf)]; win = [int(f[0]) for f in res if f[1] == "1" and f[4] == "1"]
        if len(win) != 1: raise Viol("race", "%d of %d environments of one process opened %s: %s" % (len(win), k, path, [f[:5] + [bytes.fromhex(f[5])] for f in res if f[5] != "-"]))
        m.ok("env %d" % (win[0] + 1)); got = parse_events(m.ok("scan -1")); want = db.sorted() if rnd else []
        if got != want: raise Viol("contents", diff(got, want))
        for i in range(1, k + 1): m.ok("env %d" % i); m.ok("free")
        m.ok("env 0"); ctx.add("env_races")

MUT = {0, 3, 5, 6, 7, 8, 9}     # openw write trunc rename unlink mkdir rmdir

def closing(ctx, case):
    """another process waits for the first one to close, or to open"""
    r, db, g = setup(ctx, case)
    for _ in range(4): db.write(g.batch(10, db.live(), rehit=.4, delete=.2))
    if case["workers"]: db.sql("checkpoint")
    tf = os.path.join(ctx.dir, "trace")
    b = Intruder(ctx, case, db, "proc"); b.prepare()
    db.m.ok("ip root " + db.path); db.m.ok("ip tracefile " + tf)
    db.m.ok("ip stall %s 8191 %d" % (r.choice((".wal", "0000", "/", db.path)), r.choice((2, 8, 20))))
    db.m.post("free"); n = 0
    while True:
        ok, t = b.cmd("open " + db.path); t1 = time.clock_gettime_ns(time.CLOCK_MONOTONIC); n += 1
        if ok: break
        if n > 20000: raise Viol("not-released", "%d attempts" % n)
    early = not db.m.ready()
    ok, t = db.m.wait(); ctx.add("polls_while_closing", n); ctx.add("released_opens")
    if early: ctx.add("opened_before_free_returned")
    for l in open(tf) if os.path.exists(tf) else []:
        f = l.split(" ", 2)
        if int(f[0]) > t1 and int(f[1]) in MUT: raise Viol("released-early", "the closing process changed %s (call kind %s) %.3f ms after another process had opened the directory" % (f[2].strip(), f[1], (int(f[0]) - t1) / 1e6))
    b.contents("closed by the first")
    b.free(); db.m.ok("ip off"); db.m.drop(); db.m = None
    # slow opening
    a, c = Intruder(ctx, case, db, "proc"), Intruder(ctx, case, db, "proc")
    a.prepare(); c.prepare(); a.m.ok("ip root " + db.path); a.m.ok("ip stall / 8191 3"); a.m.post("open " + db.path); n = 0; got = 0
    while not a.m.ready():
        ok, t = c.cmd("open " + db.path); n += 1
        if ok: got = 1; break
    ok, t = a.m.wait(); ctx.add("polls_while_opening", n)
    if ok + got != 1:
        raise Viol("second-open" if ok else "race", "slow open: %s; another process opened: %d" % (t or "succeeded", got))
    (a if ok else c).contents("after a slow open")

def child(ctx, case):
    """a program started by the application lives longer than the environment"""
    r, db, g = setup(ctx, case)
    db.write(g.batch(10, db.live(), rehit=.4, delete=.2)); db.op_refresh()
    pid = int(db.m.ok("spawn 60"))
    try:
        b = Intruder(ctx, case, db, "proc"); b.refused(db.path, "before")
        if r.random() < .5: db.stop()
        else: db.kill()
        b.open(db.path, "ended, a program it had started still runs"); b.contents("ended"); ctx.add("children")
    finally:
        try: os.kill(pid, 9)
        except OSError: pass

def failing(ctx, case):
    """an open that fails after the lock was taken"""
    r, db, g = setup(ctx, case)
    db.write(g.batch(30, db.live(), rehit=.4, delete=.2)); db.op_refresh_all(); db.write(g.batch(10, db.live(), rehit=.4, delete=.2))
    db.stop()
    m = db.m; m.ok("init")
    for s in db.sets: m.sql("set " + s)
    m.ok("ip root " + db.path); m.ok("ip fail %d 5 %d 0 0" % (r.randrange(1, 14), 8191 & ~1024))
    ok, t = m.cmd("open " + db.path)
    fired = int(m.ok("ip fired")); m.ok("ip off")
    if not ok:
        ctx.add("failed_opens"); m.ok("free")
        b = Intruder(ctx, case, db, "proc"); b.open(db.path, "after a failed open (%s) and monotone_free" % t[:100]); b.contents("after a failed open"); b.free()
    else: db.check_scan("open with a fault", "contents"); db.stop()
    # refused opens take no descriptors
    db.start(); b = Intruder(ctx, case, db, "proc"); b.refused(db.path, "x"); n0 = int(b.m.ok("fds"))
    for _ in range(20): b.refused(spelling(ctx, r, db), "again")
    n1 = int(b.m.ok("fds"))
    if n1 > n0 + 2: raise Viol("descriptors", "20 refused opens of the same environment: %d descriptors became %d" % (n0, n1))
    db.stop(); b.open(db.path, "retried"); b.contents("retried"); b.free()
    b = Intruder(ctx, case, db, "proc"); b.open(db.path, "third"); b.free()

def fn(ctx, case):
    dict(intrude=intrude, during=during, race=race, closing=closing, child=child, failing=failing)[case["kind"]](ctx, case)

def cases():
    n = 160 if not THOROUGH else 3000
    kinds = ("intrude", "race", "during", "closing", "intrude", "failing", "race", "closing", "intrude", "during", "child", "race")
    return [dict(seed=k, kind=kinds[k % 12], kind2="env" if k % 3 == 1 else "proc", workers=(0, 2)[k // 12 % 2], steps=25, rounds=6, ops=60, variant="asan" if k % 25 == 7 else "plain") for k in range(n)]

if __name__ == "__main__":
    c = Check("C26", "exploration", variants=("plain", "asan"))
    one_ = replay_case(sys.argv)
    c.run(fn, [one_] if one_ else cases(), budget=800 if THOROUGH else 150)
    c.finish("one case = one schedule of several processes (or environments of a process) and one directory: refused openers between and during the work of the holder with the files compared byte for byte, simultaneous opens, polling openers while the holder closes or opens slowly with its file modifications timestamped, holders that die, fail to open or leave a child behind",
             need=("refused", "refused_env", "refused_proc", "released_opens", "attempts_during_work", "races_new", "races_old", "env_races", "polls_while_closing", "polls_while_opening", "children", "failed_opens", "other_directories"))
