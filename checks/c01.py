import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from program import *

def fn(ctx, case):
    r, db, g = make(ctx, case)
    db.start()
    tune_main(r, db)
    if r.random() < .4:
        db.sql("create storage s2 (%s)" % r.choice(("", "region_size 300", "compression 'lz4'", "crc true")))
        ops = dict(OPS, move=4, move_range=1)
    else: ops = dict(OPS)
    if r.random() < .25: ops["drop"] = 1
    p = Program(ctx, r, db, g, ops, budget=case["n"])
    last = []
    def after(op):
        # every maintenance operation is followed by a full comparison
        if op not in ("write", "scan", "seek") and (op != "bulk" or r.random() < .5):
            layout(db, ctx); db.check_scan("after " + op)
    p.run(case["steps"], after)
    db.check_scan("end")
    db.op_refresh_all(); layout(db, ctx); db.check_scan("after refresh of everything"); db.check_seeks(10)
    db.reopen(); db.check_scan("after reopen")
    ctx.add("live_at_end", len(db.model))
    ctx.see("final_sizes", len(db.model))
    ctx.sample = {"ids": g.ids, "keys": g.keys, "vals": g.vals, "sets": db.sets, "trail": db.trail[-8:], "events_live": len(db.model)}
    ctx.add("nontrivial", 1 if len(db.model) > 5 else 0)
    db.stop(); db.m.close()

def serial(ctx, case):
    """automatic ids"""
    r = rng_of(case, "serial")
    db = Db(ctx, r, sets=["interval to %d" % r.choice((10, 100, 1000)), "mm_page_size to 65536"], serial=True)
    db.start()
    g = Gen(r, 100, vals="small", keys=r.choice(("none", "short")))
    for _ in range(case["steps"]):
        n = r.choice((1, 3, 30, 200))
        db.write([(0, U64, g.key(), g.val()) for _ in range(n)])
        if r.random() < .2: getattr(db, "op_" + r.choice(("refresh", "refresh_all", "reopen", "service", "checkpoint")))()
        if r.random() < .4: db.check_scan("serial")
        if r.random() < .4: db.check_seeks(5)
    db.check_scan("end"); db.reopen(); db.check_scan("reopen")
    ctx.add("nontrivial", 1)
    db.stop(); db.m.close()

def bigmem(ctx, case):
    """many events in the memory of one partition"""
    r = rng_of(case, "bigmem")
    wal = r.random() < .3
    db = Db(ctx, r, sets=["interval to %d" % (1 << 40), "mm_page_size to %d" % r.choice((65536, 1 << 20)), "wal to %s" % ("true" if wal else "false")]); db.wal = wal
    db.start()
    n = case["n"]; span = r.choice((n, n * 3, 1 << 39)); base = r.choice((0, 1 << 40)); kind = r.choice(("random", "random", "down", "up", "blocks", "spread"))
    def ids():
        if kind == "down": yield from range(n, 0, -1)
        elif kind == "up": yield from range(n)
        elif kind == "spread":          # halves of halves: every page is split again and again
            w = 1 << (n.bit_length() + 1)
            for i in range(n): yield int(bin(i + 1)[2:].zfill(w.bit_length() - 1)[::-1], 2)
        elif kind == "blocks":
            while True:
                a = r.randrange(span)
                for i in range(r.choice((5, 100, 600))): yield (a + i * r.choice((1, -1))) % span
        else:
            while True: yield r.randrange(span)
    it = ids(); used = 0; k = r.choice(("none", "none", "short"))
    g = Gen(r, 100, vals="small", keys=k)
    for x in it:
        batch = []
        for _ in range(r.choice((1, 10, 300, 2000))):
            batch.append((1 if r.random() < .05 else 0, base + x, g.key() if k != "none" else "", "h%04x" % r.getrandbits(16)))
            try: x = next(it)
            except StopIteration: break
        db.write(batch); used += len(batch)
        if r.random() < .03: db.check_seeks(20, limit=3)
        if used >= n: break
    db.check_scan("in memory"); db.check_seeks(60, limit=30); layout(db, ctx)
    ctx.add("big_memory_scans"); ctx.see("big_orders", kind)
    if wal: db.kill(); db.start(); db.check_scan("log replayed"); db.check_seeks(20, limit=5)
    db.op_refresh_all(); db.check_scan("refreshed"); db.check_seeks(60, limit=30)
    db.write(g.batch(5, db.live())); db.check_seeks(20, limit=10); ctx.add("nontrivial", 1)
    ctx.sample = {"sets": db.sets, "kind": kind, "events": len(db.model)}
    db.stop(); db.m.close()

def run_case(ctx, case): {"serial": serial, "bigmem": bigmem}.get(case.get("mode"), fn)(ctx, case)

def cases():
    out = []
    k = 0
    n = 60 if THOROUGH else 10
    for rep in range(4 * n):
        for ids in Gen.IDS:
            big = rep % 4 == 3 and ids not in ("huge", "edge")
            out.append(dict(seed=k, ids=ids, n=(6000 if big else 1500) if ids not in ("huge", "edge") else 160, steps=70, keys=Gen.KEYS[k % 5]))
            k += 1
    for i in range(6 * n): out.append(dict(seed=k, mode="serial", steps=25)); k += 1
    return [dict(seed=k + i, mode="bigmem", n=(15000, 40000)[i % 2]) for i in range(4 * n)] + out

if __name__ == "__main__":
    c = Check("C01", "exploration")
    one = replay_case(sys.argv)
    c.run(run_case, [one] if one else cases(), budget=600 if THOROUGH else 75)
    c.finish("one case = one random program against the reference model (distinct seed, id/key/value pattern and settings); "
             "counted when more than 5 events were live at the end",
             need=("scans", "seeks", "op_refresh", "reopens", "layouts", "big_memory_scans"))
