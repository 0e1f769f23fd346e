import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from program import *

COMP = ("", "zstd", "lz4"); LEVELS = {"": (0,), "zstd": (0, 1, 3, 9, 19), "lz4": (0, 1, 9, 12)}
KEYC = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/%{}"

def options(r, db, case, full, empty=True):
    """option list and what they are, for the evidence"""
    o, seen = [], []
    def put(n, lit): o.append("%s %s" % (n, lit))
    c = r.choice(COMP) if full is None else full["comp"]
    if full is not None or r.random() < .6: put("compression", "'%s'" % c); seen.append(c or "none")
    if r.random() < .6: l = r.choice(LEVELS[c]); put("compression_level", l); seen.append("l%d" % l)
    if full is not None or r.random() < .7: v = full["region"] if full else r.choice((1, 64, 300, 4096, 131072, 1 << 30)); put("region_size", v); seen.append("r%d" % v)
    if r.random() < .4: put("sync", r.choice(("true", "false")))
    if r.random() < .4: put("refresh_wm", r.choice((0, 1, 5000, 1 << 20)))
    if empty:
        if (full["enc"] if full else r.random() < .4):
            put("encryption", "'aes'"); seen.append("aes")
            if full is None or r.random() < .7: put("encryption_key", "'%s'" % "".join(r.choice(KEYC) for _ in range(32)))
        if full["crc"] if full else r.random() < .4: put("crc", "true"); seen.append("crc")
        if r.random() < .3:
            n = r.choice(("p1", "p 2", "abs", "%s")); put("path", "'%s'" % (db.path + "_abs" if n == "abs" else n)); seen.append("path:" + n)
    r.shuffle(o)
    return o, seen

def values(r, g, page):
    """hostile contents and sizes"""
    x = r.random()
    if x < .25: return g.val()
    if x < .35: return "h" + r.choice(("00", "ff", "28b52ffd", "04224d18", "0000", "80")) * r.randrange(1, 16)
    n = r.choice((1, 15, 16, 17, 31, 32, 33, 63, 64))
    if x < .5: return "h" + "".join("%02x" % r.randrange(256) for _ in range(n))
    n = r.choice((65, 127, 128, 255, 256, 4095, 4096, 4097, 16383, 65535, 65536, 131072, 131073)) + r.choice((0, 0, -1, 1))
    if x < .58: n = page - r.randrange(1, 700)
    n = max(65, min(n, page - 1))
    return "g%d:%d:%d" % (r.getrandbits(31), n, r.randrange(3))

def fn(ctx, case):
    r = rng_of(case, "c12")
    page = r.choice((65536, 65536, 1 << 20, 2 << 20))
    interval = r.choice((1, 10, 1000))
    sets = ["interval to %d" % interval, "mm_page_size to %d" % page, "wal to %s" % r.choice(("true", "false")), "compression to '%s'" % r.choice(COMP),
            "wal_rotate_wm to %d" % r.choice((3000, 1000000))]
    db = Db(ctx, r, case["variant"], sets); db.wal = "wal to true" in sets
    db.start()
    opts = {}
    n = 0
    def create(full=None):
        nonlocal n
        n += 1; o, seen = options(r, db, case, full)
        name = "s%d" % n
        db.sql("create storage %s (%s)" % (name, ", ".join(o)) if o else "create storage " + name)
        opts[name] = o; ctx.see("options", " ".join(sorted(seen)))
        return name
    def alter(name):
        st = db.js("show storages")[name]["stats"]
        o, seen = options(r, db, case, None, st["partitions"] == 0 and name not in [t["name"] for t in db.js("show pipeline")])
        if o: db.sql("alter storage %s set (%s)" % (name, ", ".join(o))); ctx.add("alters"); ctx.see("options", " ".join(sorted(seen)))
    first = create(case["full"])
    if r.random() < .5: create()
    alter("main")
    g = Gen(r, interval, ids=r.choice(("shuffle", "dense", "cluster", "border")), limit=r.choice((20, 100)), maxval=page - 1000)
    budget = 40 << 20
    def write(k):
        nonlocal budget
        evs = []
        for _ in range(k):
            f, i, key, v = g.event(db.live(), rehit=.35, delete=.12)
            if f == 0: v = values(r, g, page)
            if v[0] == "g":
                s = int(v.split(":")[1])
                if s > 5000 and (budget < 0 or r.random() < .5): v = "g%s" % v.split("g")[1].split(":")[0] + ":300:%d" % r.randrange(3)
                else: budget -= s; ctx.see("value_sizes", s)
            evs.append((f, i, key, v))
        ok, _ = db.write(evs, expect=False)
        if not ok:
            ctx.add("refused")
            if all(e[3][0] != "g" or int(e[3].split(":")[1]) < page - 800 for e in evs): raise Viol("write-refused", "%s" % evs[:2])
    write(r.choice((3, 30)))
    db.op_refresh_all()
    for s in ([first] + db.storages())[:3]:
        db.sql("move partitions between 0 and %d into %s" % (U64, s)); db.check_scan("all in %s (%s)" % (s, opts.get(s)), "storage")
    db.reopen(); db.check_scan("reopen", "storage")
    for _ in range(case["steps"]):
        op = pick(r, dict(write=8, refresh=4, refresh_range=2, refresh_all=1, move=6, move_range=3, alter=5, tryalter=3, create=1, droprec=1, service=2, reopen=2, scan=3, seeks=3, fail_refresh=1, gc=1))
        if op == "write": write(r.choice((1, 3, 12)))
        elif op == "alter": alter(r.choice(db.storages()))
        elif op == "tryalter":      # refused or not: the contents stay
            s = r.choice(db.storages()); o, seen = options(r, db, case, None, True)
            if r.random() < .7: o = [r.choice([x for x in o if x.split()[0] in ("crc", "encryption", "encryption_key")] + ["path 'q%d'" % n, "path '%s_abs'" % db.path, "crc true", "crc false"])]
            if any(x.startswith("encryption '") for x in o) and not any(x.startswith("encryption_key") for x in o): o.append("encryption_key '%s'" % ("K%d" % n).ljust(32, "x"))   # without a key nothing can be stored
            if o:
                ok, t = db.trysql("alter storage %s set (%s)" % (s, ", ".join(o))); ctx.add("alters_accepted" if ok else "alters_refused")
                if r.random() < .3: db.check_scan("alter", "storage")
        elif op == "create":
            if n < 6: create()
        elif op == "droprec":
            e = [k for k, v in db.js("show storages").items() if v["stats"]["partitions"] == 0 and k != "main"]
            if e: db.sql("drop storage " + e[0]); o, seen = options(r, db, case, None); db.sql("create storage %s%s" % (e[0], " (%s)" % ", ".join(o) if o else ""))
        elif op == "reopen":
            if not db.wal: db.op_refresh_all()
            db.reopen(fresh=r.random() < .3); db.check_scan("reopen", "storage")
        elif op == "scan": db.check_scan("scan", "storage")
        elif op == "seeks": db.check_seeks(4, limit=5, key="storage")
        else: getattr(db, "op_" + op)()
        ctx.see("ops", op)
    db.op_refresh_all(); db.check_scan("all refreshed", "storage")
    for s in db.storages():
        db.sql("move partitions between 0 and %d into %s" % (U64, s)); db.check_scan("all in %s at the end" % s, "storage"); ctx.add("whole_moves")
    db.reopen(); db.check_scan("last reopen", "storage"); db.check_seeks(6, limit=4, key="storage")
    layout(db, ctx)
    db.stop(); db.m.close()
    ctx.sample = {"sets": sets, "options": opts, "events": len(db.model)}

def cases():
    out = []; k = 0
    for rep in range(3 if not THOROUGH else 30):
        for comp in COMP:
            for region in (1, 300, 4096, 131072):
                for enc in (False, True):
                    for crc in (False, True):
                        out.append(dict(seed=k, full=dict(comp=comp, region=region, enc=enc, crc=crc), steps=25 if not THOROUGH else 60,
                                        variant="asan" if k % 4 == 0 else "plain")); k += 1
    return out

if __name__ == "__main__":
    c = Check("C12", "exploration", variants=("plain", "asan"))
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), budget=800 if THOROUGH else 90)
    c.finish("one case = a combination of compression, region size, encryption and checksum with generated further options; values of boundary sizes and hostile "
             "contents; every scan compared with the model while partitions move and options are altered", need=("alters", "alters_refused", "scans", "whole_moves", "options", "value_sizes"))
