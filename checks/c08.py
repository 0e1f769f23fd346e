import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *
from schema import *

PART = ("min", "max", "events", "regions", "size", "size_uncompressed", "created", "refreshed", "refreshes", "on_storage", "on_cloud", "storage")

def snap(db):
    cfg = db.js("show config")
    for x in ("lsn", "ssn", "directory"): cfg.pop(x)
    st = db.js("show storages")
    return {"config": cfg, "clouds": db.js("show clouds"), "storages": {k: v["config"] for k, v in st.items()}, "pipeline": db.js("show pipeline"),
            "order": list(st)}

def psnap(db): return [{k: p[k] for k in PART} for p in db.parts() if p["on_storage"] or p["on_cloud"]]

def disk(db):
    t = open(os.path.join(db.path, "config.json"), "rb").read().decode("latin1")
    try: return json.loads(t)
    except ValueError as e: raise Viol("config-json", "config.json is not valid JSON: %s" % e)

def same(a, b, why, key):
    if a == b: return
    for k in a:
        if a[k] != b.get(k): raise Viol(key, "%s: %s: %s became %s" % (why, k, json.dumps(a[k])[:600], json.dumps(b.get(k))[:600]))
    raise Viol(key, "%s: %s / %s" % (why, str(a)[:300], str(b)[:300]))

def fn(ctx, case):
    r = rng_of(case)
    interval = r.choice((7, 100, 1000))
    sets = ["interval to %d" % interval, "mm_page_size to %d" % r.choice((65536, 1 << 20)), "wal_crc to %s" % r.choice(("true", "false")),
            "wal_sync_on_write to %s" % r.choice(("true", "false")), "wal_sync_on_rotate to %s" % r.choice(("true", "false")),
            "mm_limit to %s" % r.choice(("true", "false")), "mm_limit_wm to %d" % r.choice((1 << 30, 1 << 34)), "mm_cache to %d" % r.choice((0, 1, 1 << 30)),
            "mm_limit_behaviour to '%s'" % r.choice(("block", "error")), "compression to '%s'" % r.choice(("zstd", "lz4", "")),
            "compression_level to %d" % r.choice((0, 1, 5)), "wal_rotate_wm to %d" % r.choice((500, 1 << 20))]
    r.shuffle(sets); sets = [s for s in sets if s.startswith(("interval", "mm_page")) or r.random() < .6]
    if r.random() < .4: sets.append("uuid to '%s'" % uuid_of(r))
    db = Db(ctx, r, sets=sets).start()
    ctx.see("configs", "|".join(sorted(sets)))
    cfg = db.js("show config")
    for s in db.sets:
        n, v = s.split(" to ")
        v = {"true": True, "false": False}.get(v, v.strip("'"))
        if str(cfg[n]) != str(v): raise Viol("start-setting", "set %s before open, SHOW says %r" % (s, cfg[n]))
    sch = Schema(db, r)
    db.sets = []                                # from now on only the stored configuration counts
    g = Gen(r, interval, ids="shuffle", limit=300, vals="small", keys="short")
    for step in range(case["steps"]):
        x = r.random()
        if x < .55: sch.step()
        elif x < .75: db.write(g.batch(r.choice((1, 5, 30)), db.live(), rehit=.4, delete=.2))
        elif x < .82: db.op_refresh()
        elif x < .88:
            ok, t = db.trysql("move partition %d into %s" % ((db.some_part() or {"min": 0})["min"], r.choice(list(sch.storages))))
            ctx.add("moves", 1 if ok else 0)
        elif x < .92:
            p = db.some_part()
            if p: db.trysql("upload partition %d if cloud" % p["min"])
        else: reopen(ctx, r, db, sch, interval)
        sch.check("step %d" % step)
    reopen(ctx, r, db, sch, interval)
    reopen(ctx, r, db, sch, interval)
    db.stop(); db.m.close()
    ctx.sample = {"sets": sets, "clouds": list(sch.clouds), "storages": list(sch.storages), "pipeline": len(sch.pipeline)}

def reopen(ctx, r, db, sch, interval):
    c = db.m
    ok, _ = db.trysql("refresh partitions between 0 and 18446744073709551615") if r.random() < .6 else (0, 0)
    a, pa = snap(db), psnap(db); ca = disk(db)
    mode = r.choice(("same", "fresh", "moved", "same"))
    if any(v["path"].startswith("/") for v in sch.storages.values()) and mode == "moved": mode = "fresh"
    db.note("reopen " + mode)
    db.stop()
    if mode != "same": db.m.close(); db.m = None
    if mode == "moved":
        n = db.path + "m"; os.rename(db.path, n); db.path = n
    db.start()
    ctx.add("reopens"); ctx.see("reopen_modes", mode)
    same(a, snap(db), "reopen (%s); before %s" % (mode, db.trail[-12:]), "schema-changed")
    cb = disk(db)
    for x in (ca, cb):
        for y in ("ssn", "lsn"): x.pop(y, None)
    same(ca, cb, "config.json over a reopen", "config-file-changed")
    pb = {p["min"]: p for p in psnap(db)}
    for p in pa:
        q = pb.get(p["min"])
        if q != p: raise Viol("partition-changed", "reopen (%s): partition %s became %s; before %s" % (mode, p, q, db.trail[-12:]))
    if len(pa) != len(pb): raise Viol("partition-changed", "reopen (%s): %d partitions with files, %d before" % (mode, len(pb), len(pa)))
    db.check_scan("reopen " + mode, "events-changed")
    sch.check("reopen " + mode)
    ctx.add("partitions_compared", len(pa)); ctx.add("storages_compared", len(sch.storages)); ctx.add("clouds_compared", len(sch.clouds))

def cases():
    q = not THOROUGH
    return [dict(seed=k, steps=(20, 50, 100)[k % 3]) for k in range(1600 if q else 4000)]

if __name__ == "__main__":
    c = Check("C08")
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), budget=800 if THOROUGH else 90)
    c.finish("one case = a random history of schema commands, settings, writes and moves with reopens (same process, new process, moved directory); "
             "SHOW output, config.json, partitions and events compared over every reopen and with a model of the commands given",
             need=("reopens", "partitions_compared", "storages_compared", "clouds_compared", "ddl_ok", "ddl_failed"))
