import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *
import c06, c11
from s3 import S3

ALL = MUTATE + IP["SYNC"]

def seed_shadow(path, shadow):
    """everything found at the start is on disk"""
    shutil.rmtree(shadow, ignore_errors=True); os.makedirs(shadow)
    for dp, _, fs in os.walk(path):
        for f in fs:
            p = os.path.join(dp, f)
            if p == os.path.join(path, "log"): continue
            shutil.copyfile(p, os.path.join(shadow, str(os.stat(p).st_ino)))

def lose(ctx, r, path, shadow, mode=None):
    """keeps of every file what had been synced, sometimes also a part of the rest"""
    mode = mode or r.choice(("strict", "strict", "mixed"))
    ch = []
    for dp, _, fs in os.walk(path):
        for f in fs:
            p = os.path.join(dp, f)
            if p == os.path.join(path, "log"): continue
            cur = open(p, "rb").read()
            try: syn = open(os.path.join(shadow, str(os.stat(p).st_ino)), "rb").read()
            except FileNotFoundError: syn = b""
            if cur == syn: continue
            new = syn
            if mode == "mixed":
                x = r.random()
                if x < .3: new = cur
                elif x < .6 and cur.startswith(syn): new = cur[:r.randrange(len(syn), len(cur) + 1)]
            open(p, "wb").write(new)
            ch.append("%s %d->%d" % (os.path.relpath(p, path), len(cur), len(new)))
            ctx.see("lost_files", "wal" if "wal/" in p else "config" if "config" in p else "cloud" if "mock" in p else os.path.splitext(p)[1] or "partition")
    ctx.add("power_losses"); ctx.add("files_cut", len(ch))
    return ch

def begin(d, shadow):
    seed_shadow(d.path, shadow)
    pre = ["ip root " + d.path, "ip shadow " + shadow]
    d.start(pre)

def fn(ctx, case):
    r = rng_of(case)
    wal = case["wal"]
    sets = ["interval to %d" % r.choice((10, 100)), "mm_page_size to 65536", "wal to %s" % ("true" if wal else "false"),
            "wal_rotate_wm to %d" % r.choice((300, 3000, 1 << 20)), "wal_crc to %s" % r.choice(("true", "false")), "wal_sync_on_write to true",
            "wal_sync_on_rotate to %s" % r.choice(("true", "false"))]
    d = Db(ctx, r, sets=sets, sub="p")
    ctx.see("configs", "|".join(sets))
    shadow = os.path.join(ctx.dir, "shadow"); os.makedirs(d.path)
    begin(d, shadow)
    o = ["region_size %d" % r.choice((200, 2000, 131072)), "sync true"]
    if r.random() < .5: o.append("crc true")
    d.sql("alter storage main set (%s)" % ", ".join(o))
    if case["cloud"]:
        if case["cloud"] == "s3":
            s3 = S3("AK", "SK"); ctx.cleanups.append(s3.close)
            d.sql("create cloud c (type 's3', url '%s', access_key 'AK', secret_key 'SK')" % s3.url())
        else: d.sql("create cloud c (type 'mock')")
        if r.random() < .6: d.sql("alter storage main set (cloud 'c', cloud_drop_local %s)" % r.choice(("true", "false")))
        d.sql("create storage sc (cloud 'c', cloud_drop_local %s, compression '%s')" % (r.choice(("true", "false")), r.choice(("zstd", "lz4", ""))))
    if case["stor"]: d.sql("create storage s2 (compression '%s', sync true)" % r.choice(("zstd", "lz4", "")))
    g = Gen(r, 100, ids="shuffle", limit=r.choice((60, 300)), vals=r.choice(("small", "mixed")), keys=r.choice(("none", "short")), maxval=3000)
    flushed = dict()        # without the log: contents of the files
    stor = set(d.storages())
    for rnd in range(case["rounds"]):
        if r.random() < .8: d.m.ok("ip crash %d %d %d" % (r.choice((1, 2, 3, 4, 5, 7, 10, 14, 20, 30, 45)), r.randrange(5), ALL))
        pend = None; crashed = False; snaps = []
        rec = c06.Rec(d)
        try:
            for _ in range(r.randrange(1, 7)):
                if wal:
                    x = r.random()
                    if x < .55: d.write(g.batch(r.choice((1, 2, 5, 20)), d.live(), rehit=.4, delete=.2))
                    elif x < .68:
                        if d.live(): c11.do_drop(d, r, rec.out); ctx.add("drops_done")
                    else: c06.maint(d, r, case)
                else:
                    d.write(g.batch(r.choice((1, 2, 5, 20)), d.live(), rehit=.4, delete=.2))
                    if r.random() < .5: d.op_refresh_all(); flushed = dict(d.model); snaps = []
                    elif r.random() < .5: snaps.append(dict(d.model)); d.op_fail_refresh()
                if r.random() < .1: d.sql("set wal_rotate_wm to %d" % r.choice((300, 3000)))
            ops = rec.stop()
        except Dead as e:
            ops = rec.stop(); crashed = True
            if e.rc != CRASHED or any(m in e.err for m in SAN_MARK): raise
            pend = ops[-1] if ops else ("sql", "show")
        d.kill()
        ch = lose(ctx, r, d.path, shadow)
        why = "power loss %s; cut %s" % ("in %s" % str(pend)[:160] if crashed else "when idle", ch[:6])
        ctx.add("in_call" if crashed else "idle")
        try: begin(d, shadow)
        except Viol as v: raise Viol("open-after-power-loss", "%s: %s; files %s" % (why, v.detail[:1200], sorted(d.files().items())[:30]))
        if set(d.storages()) != stor: raise Viol("schema-lost", "%s: storages %s, had %s" % (why, sorted(d.storages()), sorted(stor)))
        if wal:
            if pend and pend[0] == "drop": c11.settle_drop(d, pend, why)
            else: settle(d, allowed_after(d, pend), why, "lost-after-power-loss")
        else:
            # each partition holds what was flushed last or what the interrupted refresh was writing
            got = {(i, k): v for i, k, v in d.scan()}
            iv = int(sets[0].split()[-1])
            cand = [flushed, d.model] + snaps + (allowed_after(d, pend) if pend and pend[0] == "w" else [])
            for p in {x[0] // iv for c in cand + [got] for x in c}:
                part = {x: v for x, v in got.items() if x[0] // iv == p}
                if not any(part == {x: v for x, v in c.items() if x[0] // iv == p} for c in cand):
                    w = {x: v for x, v in flushed.items() if x[0] // iv == p}
                    raise Viol("lost-after-power-loss", "%s: partition %d: %s; before %s" % (
                        why, p * iv, diff([(i, k, v) for (i, k), v in sorted(part.items())], [(i, k, v) for (i, k), v in sorted(w.items())]), d.trail[-12:]))
            d.model = got; d.live_cache = None; flushed = dict(got)
            ctx.add("flushed_checked")
        layout(d, ctx)
        c06.unarm_errors(d)
    d.op_refresh_all(); d.check_scan("after refresh of everything", "lost-after-power-loss")
    d.kill(); lose(ctx, r, d.path, shadow); begin(d, shadow)
    d.check_scan("power loss after refresh of everything", "lost-after-power-loss")
    d.m.ok("ip shadow "); d.stop(); d.m.close()
    ctx.sample = {"sets": sets, "rounds": case["rounds"], "last_ops": d.trail[-10:]}

def rotate(ctx, case):
    """the log is synced when it is rotated only: what was written before the last rotation survives, and every partition is in a state it once had"""
    r = rng_of(case, "rot")
    sets = ["interval to %d" % r.choice((10, 100)), "mm_page_size to 65536", "wal to true", "wal_rotate_wm to %d" % r.choice((300, 3000, 1 << 20)), "wal_crc to true",
            "wal_sync_on_write to false", "wal_sync_on_rotate to true"]
    d = Db(ctx, r, sets=sets, sub="p"); iv = int(sets[0].split()[-1])
    ctx.see("configs", "|".join(sets))
    shadow = os.path.join(ctx.dir, "shadow"); os.makedirs(d.path)
    begin(d, shadow)
    d.sql("alter storage main set (region_size %d, sync true%s)" % (r.choice((200, 2000, 131072)), r.choice(("", ", crc true", ", refresh_wm 1"))))
    g = Gen(r, 100, ids="shuffle", limit=r.choice((60, 300)), vals="small", keys="short")
    def part(m, p): return {x: v for x, v in m.items() if x[0] // iv == p}
    for rnd in range(case["rounds"]):
        if r.random() < .7: d.m.ok("ip crash %d %d %d" % (r.choice((1, 2, 3, 5, 7, 10, 14, 20, 30)), r.randrange(5), ALL))
        hist = [dict(d.model)]; safe = 0; files = {}; pend = None
        rec = c06.Rec(d)
        try:
            for _ in range(r.randrange(2, 14)):
                x = r.random()
                if x < .7: d.write(g.batch(r.choice((1, 2, 5, 20)), d.live(), rehit=.4, delete=.2)); hist.append(dict(d.model))
                elif x < .82: d.op_rotate(); safe = len(hist) - 1; ctx.add("rotations")
                elif x < .9:
                    p = d.some_part()
                    if p: d.sql("refresh partition %d" % p["min"]); files[p["min"] // iv] = len(hist) - 1
                else: d.op_service()
            rec.stop()
        except Dead as e:
            ops = rec.stop()
            if e.rc != CRASHED or any(m in e.err for m in SAN_MARK): raise
            pend = ops[-1] if ops else ("sql", "show")
            if pend[0] == "w": hist.append(allowed_after(d, pend)[1])
        d.kill()
        ch = lose(ctx, r, d.path, shadow, r.choice(("strict", "mixed")))
        why = "power loss %s, synced on rotation only; cut %s" % ("in %s" % str(pend)[:160] if pend else "when idle", ch[:6])
        ctx.add("in_call" if pend else "idle")
        try: begin(d, shadow)
        except Viol as v: raise Viol("open-after-power-loss", "%s: %s; files %s" % (why, v.detail[:1200], sorted(d.files().items())[:30]))
        got = {(i, k): v for i, k, v in d.scan()}
        for p in {x[0] // iv for h in hist + [got] for x in h}:
            since = max(safe, files.get(p, 0)); have = part(got, p)
            if not any(have == part(h, p) for h in hist[since:]):
                w = part(hist[since], p)
                raise Viol("lost-after-rotation", "%s: partition %d is in none of the %d states since its last rotation or refresh; against the first: %s; before %s" % (
                    why, p * iv, len(hist) - since, diff([(i, k, v) for (i, k), v in sorted(have.items())], [(i, k, v) for (i, k), v in sorted(w.items())]), d.trail[-14:]))
            ctx.add("states_matched")
        d.model = got; d.live_cache = None
        ctx.add("rotate_kept" if got == hist[-1] else "rotate_lost_tail")
    d.m.ok("ip shadow "); d.reopen(); d.check_scan("clean reopen", "lost-after-power-loss"); d.stop(); d.m.close()
    ctx.sample = {"sets": sets, "rounds": case["rounds"], "last_ops": d.trail[-10:]}

def run(ctx, case): (rotate if case.get("mode") == "rotate" else fn)(ctx, case)

def cases():
    q = not THOROUGH
    return [dict(seed=k, mode="rotate", rounds=12 if q else 40) for k in range(120 if q else 800)] + [dict(seed=k, wal=k % 4 != 3, cloud=("mock" if k % 2 else "s3") if k % 3 == 0 and k % 4 != 3 else None, stor=1 if k % 2 else 0, rounds=12 if q else 40) for k in range(400 if q else 3000)]

if __name__ == "__main__":
    c = Check("C07", "fault_enumeration")
    one = replay_case(sys.argv)
    c.run(run, [one] if one else cases(), budget=800 if THOROUGH else 90)
    c.finish("one case = a history with many power losses: the process is stopped at or inside a file-modifying call, every file is reduced to the bytes "
             "that had been synced (sometimes with a part of the rest), the directory reopened and compared",
             assumptions=["file creations, renames and removals are durable in the order they were made; only file contents need a sync"],
             need=("power_losses", "files_cut", "in_call", "idle", "flushed_checked", "lost_files", "drops_done", "rotations", "rotate_lost_tail"))
