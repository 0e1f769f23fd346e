import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *
from schema import Schema

class Here(Schema):
    """same oracle, on another database"""
    def on(self, db):
        s = self.clone(); s.__class__ = Here; s.db = db
        return s

def setup(ctx, case):
    r = rng_of(case)
    db = Db(ctx, r, sets=["interval to 100", "mm_page_size to 65536", "wal_rotate_wm to %d" % r.choice((500, 1 << 20)), "wal to %s" % ("true" if case["seed"] % 8 else "false")])
    db.variant = case["variant"]
    db.start()
    s = Here(db, r)
    g = Gen(r, 100, ids="shuffle", limit=300, vals="small", keys="short")
    for _ in range(r.randrange(0, 9)):
        x = r.random()
        if x < .6: gen_step(s)
        else:
            db.write(g.batch(r.choice((1, 6, 20)), db.live(), rehit=.4, delete=.2))
            if r.random() < .6:
                st = r.choice(list(s.storages)); ps = db.parts()
                p = r.choice(ps)
                ok, t = db.trysql("move partition %d into %s" % (p["min"], st)) if r.random() < .5 else db.trysql("refresh partition %d" % p["min"])
                if not ok and "cloud" not in t and "compression" not in t and "encryption" not in t and "curl" not in t.lower() and "http" not in t.lower(): raise Viol("setup", t)
    if "%" in case.get("word", ""): linked(s, r, case["word"])
    if not db.wal: flush(db)
    s.check("setup")
    return r, db, s, g

def linked(s, r, word):
    """the schema has something which the command must change along"""
    def do(text, ap):
        ok, t = s.run(text)
        if ok: ap(s)
        return ok
    def add(x): 
        while True:
            text, ap = s.gen()
            if text.startswith(x) and "if not" not in text and "_abs" not in text and "type 's3'" not in text and do(text, ap): return
    if word == "alter storage %s rename":
        for _ in range(r.randrange(1, 3)): add("create storage")
        st = [x for x in s.storages]; r.shuffle(st)
        ts = [dict(name=n, partitions=r.randrange(1, 4)) for n in st[:r.randrange(2, 5)]]
        if not any(t["name"] != "main" for t in ts): return
        def ap(s): s.pipeline = [dict(t) for t in ts]
        if not do("alter pipeline set " + ", ".join("%s (partitions %d)" % (t["name"], t["partitions"]) for t in ts), ap): raise Viol("setup", "pipeline")
    else:
        add("create cloud")
        for _ in range(r.randrange(1, 4)):
            n = "l%d" % s.n; add("create storage")
        c = r.choice(list(s.clouds))
        for n in r.sample(list(s.storages), min(len(s.storages), 3)):
            def ap(s): s.storages[n]["cloud"] = c
            do("alter storage %s set (cloud '%s')" % (n, c), ap)

def flush(db):
    ok, t = db.trysql("refresh partitions between 0 and 18446744073709551615")
    if not ok: raise Inconclusive("storage cannot be written: " + t)

def gen_step(s):
    while True:
        text, ap = s.gen()
        if "_abs" in text or "type 's3'" in text: continue
        break
    ok, t = s.run(text)
    if ok: ap(s)
    return ok

def fits(s, text, word):
    w = text.split()
    if "%" not in word: return w[0] == word
    if "rename" not in w or w[1] != word.split()[1] or "if" in w: return False
    return w[2] in [t["name"] for t in s.pipeline] if w[1] == "storage" else w[2] in [x["cloud"] for x in s.storages.values()]

def ddl(ctx, case):
    r, base, s, g = setup(ctx, case)
    # a command that succeeds
    base.stop(); base.m.close(); base.m = None
    for _ in range(30):
        while True:
            text, ap = s.gen()
            if "_abs" not in text and "type 's3'" not in text and fits(s, text, case["word"]): break
        d = clone(base, "dry"); d.start(); t = s.on(d)
        d.m.ok("ip root " + d.path); d.m.ok("ip reset")
        ok, _ = t.run(text)
        n = int(d.m.ok("ip count %d" % MUTATE)); w = int(d.m.ok("ip count %d" % IP["write"])) if "write" in IP else 0
        d.m.ok("ip off")
        if ok:
            ap(t); t.check("%r without a crash" % text)
        d.stop(); d.m.close()
        if ok and n: break
    else: ctx.add("no_command"); return
    word = " ".join(text.split()[:2]).lower(); ctx.see("commands", " ".join(x for x in text.split() if x in ('create', 'alter', 'drop', 'storage', 'cloud', 'pipeline', 'set', 'rename', 'reset')))
    base.note(text)
    point(ctx, r, base, s, text, ap, n + 50, 0, n, g)       # ends after the reply
    pts = [(k, 0) for k in range(1, n + 1)] + [(k, v) for k in range(1, n + 1) for v in (1, 2, 3, 4)]
    if len(pts) > case["points"]: pts = pts[:n][:case["points"]] + r.sample(pts[n:], max(0, min(len(pts) - n, case["points"] - n)))
    for k, v in pts: point(ctx, r, base, s, text, ap, k, v, n, g)
    ctx.sample = {"command": text[:200], "calls": n}

def which(s, ap, d, why, key):
    """the schema is the one before the command or the one after it"""
    a = s.on(d)
    try: a.check(why); return a, False
    except Viol as x: before = x
    b = s.on(d); ap(b)
    try: b.check(why); return b, True
    except Viol as x: raise Viol(key, "%s: neither the schema before (%s: %s) nor the one after (%s: %s)" % (why, before.key, before.detail[:700], x.key, x.detail[:700]))

def point(ctx, r, base, s, text, ap, k, v, n, g):
    d = clone(base, "p"); d.start()
    if d.wal and r.random() < .4: d.write(g.batch(r.choice((1, 5)), d.live(), rehit=.4, delete=.2))
    arm(d, k, v)
    why = "%r died at call %d of %d (variant %d)" % (text[:200], k, n, v)
    try: ok, t = s.on(d).run(text); died = False
    except Dead as e:
        if e.rc != CRASHED or any(m in e.err for m in SAN_MARK): raise
        died = True
    ctx.add("crashes" if died else "survived")
    if r.random() < .25:      # dies again while it is opened
        d.kill(); d.m = d.ctx.mnx(d.variant, env=d.env, timeout=d.timeout); d.m.ok("init")
        for x in d.sets: d.m.sql("set " + x)
        arm(d, r.randrange(1, 6), r.randrange(5))
        try: d.m.cmd("open " + d.path); ctx.add("second_survived")
        except Dead as e:
            if e.rc != CRASHED: raise
            ctx.add("second_crashes")
    restart(d, why)
    q, done = which(s, ap, d, why, "neither")
    ctx.add("schema_after" if done else "schema_before")
    if not died and ok and not done:        # the same schema before and after?
        b = s.on(d); ap(b)
        try: b.check(why); q, done = b, True
        except Viol: pass
    if not died and done != ok: raise Viol("lost", why + ": %s, but the schema is the one from %s the command" % ("finished" if ok else "refused (%s)" % t, "after" if done else "before"))
    d.check_scan(why, "events")
    # the same command again, or something else
    if not done and (died or ok) and r.random() < .6:
        ok, t = q.run(text)
        if not ok and "is not empty" in t: ctx.add("not_empty")     # events arrived before the crash
        elif not ok: raise Viol("not-repeatable", "%s; the command again: %s; files %s" % (why, t, sorted(d.files())[:20]))
        else: ap(q); q.check(why + "; repeated"); ctx.add("repeated")
    else:
        q.n += 100
        gen_step(q); q.check(why + "; another command")
    if d.wal: d.write(g.batch(3, d.live(), rehit=.4, delete=.2))
    q2 = q.on(d)
    if r.random() < .5: d.reopen()
    else: restart(d, why)
    q2.check(why + "; opened again"); d.check_scan(why + "; opened again", "events")
    left = [f for f in d.files() if f.startswith("config.json.") ]
    ctx.add("leftover_config", len(left))
    d.stop(); d.m.close(); shutil.rmtree(d.path, ignore_errors=True)

def boot(ctx, case):
    """dies during the first open of a directory"""
    r = rng_of(case)
    sets = ["interval to %d" % r.choice((10, 77)), "wal to %s" % r.choice(("true", "true", "false")), "log_to_file to %s" % r.choice(("true", "false"))]
    d = Db(ctx, r, case["variant"], sets=sets, sub="dry")
    d.start(pre=("ip root " + d.path, "ip reset")); n = int(d.m.ok("ip count %d" % MUTATE)); d.m.ok("ip off"); d.stop(); d.m.close()
    ctx.add("boot_calls", n)
    pts = [(k, v) for k in range(1, n + 1) for v in range(5)]
    for k, v in r.sample(pts, min(len(pts), case["points"])):
        d = Db(ctx, r, case["variant"], sets=sets, sub="boot%d_%d" % (k, v))
        why = "first open died at call %d of %d (variant %d)" % (k, n, v)
        try: d.start(pre=("ip root " + d.path, "ip crash %d %d %d" % (k, v, MUTATE))); ctx.add("survived")
        except Dead as e:
            if e.rc != CRASHED: raise
            ctx.add("boot_crashes")
        if r.random() < .3:
            d.kill()
            try: d.start(pre=("ip root " + d.path, "ip crash %d %d %d" % (r.randrange(1, n + 1), v, MUTATE)))
            except Dead as e:
                if e.rc != CRASHED: raise
        restart(d, why)
        got = d.js("show config")
        if got["interval"] != int(sets[0].split()[-1]) or got["wal"] != (sets[1].endswith("true")): raise Viol("settings", "%s: %s" % (why, got))
        d.check_scan(why, "events"); u = got["uuid"]
        d.write([(0, 5, "aa", "h01"), (0, 500, "", "h02")])
        Here(d, r).run("create storage s5"); d.sql("move partition 5 into s5")
        if not d.wal: d.op_refresh_all()
        d.reopen()
        if d.js("show config")["uuid"] != u: raise Viol("identity", why)
        if "s5" not in d.storages(): raise Viol("lost", why + ": created storage is missing")
        d.check_scan(why, "events")
        d.stop(); d.m.close()

def fn(ctx, case): (boot if case["kind"] == "boot" else ddl)(ctx, case)

WORDS = ("create", "alter", "alter storage %s rename", "drop", "create", "set", "alter", "create", "alter", "drop", "create", "alter", "alter cloud %s rename", "drop", "create", "set", "alter storage %s rename", "create", "alter", "drop")

def cases():
    n = 300 if not THOROUGH else 5000
    return [dict(seed=k, kind="boot" if k % 15 == 9 else "ddl", word=WORDS[k % 20], points=14 if not THOROUGH else 80, variant="asan" if k % 20 == 6 else "plain") for k in range(n)]

if __name__ == "__main__":
    c = Check("C27", "exploration", variants=("plain", "asan"))
    one_ = replay_case(sys.argv)
    c.run(fn, [one_] if one_ else cases(), budget=800 if THOROUGH else 150)
    c.finish("one case = a random schema with data and one command that succeeds; the process is ended at every (sampled) file-modifying call of the command (before the call, or in the middle of a write), reopened, and clouds, storages, pipeline, settings, secrets and events are compared with the model from before and after; "
             "the same for the first open of a directory",
             need=("crashes", "schema_before", "schema_after", "repeated", "boot_crashes"))
