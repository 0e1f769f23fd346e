import re, sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *
from pfile import *

def records(data):
    """[(start, end)] of the complete records of a log file"""
    out, o = [], 0
    while o + 21 <= len(data):
        n = struct.unpack_from("<I", data, o + 17)[0]
        if n < 21 or o + n > len(data): break
        out.append((o, o + n)); o += n
    return out

def build_base(ctx, case):
    r = rng_of(case, "c17")
    sets = ["interval to %d" % r.choice((10, 100)), "mm_page_size to 65536", "wal true".replace("wal", "wal to"), "wal_crc to true", "compression to '%s'" % r.choice(("", "zstd"))]
    db = Db(ctx, r, case["variant"], sets=sets); db.wal = True; db.timeout = 60
    db.start()
    if case["cloud"]: db.sql("create cloud c (type 'mock')")
    o = ["crc true", "compression '%s'" % case["comp"], "region_size %d" % r.choice((1, 200, 1000, 131072))]
    if case["enc"]: o += ["encryption 'aes'"]
    if case["cloud"]: o += ["cloud 'c'", "cloud_drop_local %s" % r.choice(("true", "false"))]
    db.sql("create storage kk (%s)" % ", ".join(o)); db.sql("alter storage main set (crc true, region_size 300)")
    db.sql("alter pipeline set kk")
    g = Gen(r, 100, ids=r.choice(("shuffle", "dense")), limit=40, keys=r.choice(("none", "short", "mixed")), maxval=300)
    for _ in range(r.choice((2, 4))):
        db.write(g.batch(r.choice((3, 15)), db.live(), rehit=.3, delete=.1))
        if r.random() < .7: db.op_refresh_range()
        if r.random() < .3: db.op_rotate()
        if r.random() < .3: db.op_move()
        if case["cloud"] and r.random() < .5: db.op_cloud()
    if not case["log"]:
        db.op_refresh_all(); db.op_rotate(); db.op_gc()
    else:
        for _ in range(r.choice((1, 2, 3))):
            for _ in range(r.choice((1, 4))): db.write(g.batch(r.choice((1, 3, 10)), db.live(), rehit=.4, delete=.2))
            if r.random() < .6: db.op_rotate()
            if r.random() < .3:
                p = db.some_part()
                if p and len(db.parts()) > 2: db.op_drop()
            if r.random() < .4: db.op_refresh_range()
    db.check_scan("base"); layout(db, ctx); db.stop()
    return r, db

class Dmg:
    def __init__(self, db): self.db, self.ctx = db, db.ctx
    def one(self, x):
        m = self.db.m; ok, t = m.cmd("co 0 %d %s" % (x[0], kx(x[1])))
        if not ok: return ok, t
        r = m.cmd("cr 0"); m.ok("cc 0")
        return r
    def attempt(self, why, f, refresh):
        """open, read everything, report anything that is neither an error nor the right data"""
        db, ctx = self.db, self.ctx
        db.m.ok("init")
        for s in db.sets: db.m.sql("set " + s)
        try:
            ok, t = db.m.cmd("open " + db.path)
            if not ok:
                ctx.add("open_errors"); ctx.see("errors", "".join(c for c in t if c.isalpha() or c == " ").replace(db.path, "")[:60]); return False
            ok, t = db.m.cmd("scan -1")
            if not ok: ctx.add("read_errors"); ctx.see("errors", "".join(c for c in t if c.isalpha() or c == " ")[:60])
            else:
                got = parse_events(t); want = db.sorted()
                if got != want: raise Viol("misread", "%s: read as success: %s" % (why, diff(got, want)))
                ctx.add("harmless")
            # positioned reads never return anything else either
            import bisect
            want = db.sorted(); ks = [(x[0], x[1]) for x in want]
            for i, k in db.seek_targets(3):
                ok2, t = db.m.cmd("scan 4 %d %s" % (i, kx(k)))
                if not ok2: continue
                got = parse_events(t); p = bisect.bisect_left(ks, (i, k)); w = want[p:p + 4]
                if got != w: raise Viol("misread", "%s: read at (%d,%s) as success: %s" % (why, i, k[:10], diff(got, w)))
            m = re.search(r"/(\d{20})(\.cloud)?$", f)
            if m and not f.startswith("wal/"):
                # the other partitions are as readable and writable as before
                rng = [(p["min"], p["max"]) for p in db.parts() if p["min"] == int(m[1])]
                out = [x for x in want if not rng or not rng[0][0] <= x[0] <= rng[0][1]] if rng else []
                for x in db.r.sample(out, min(3, len(out))):
                    ok2, t = self.one(x)
                    if not ok2 or parse_events(t) != [x]: raise Viol("collateral", "%s: event %s of another partition: %s %s" % (why, x[:2], ok2, t[:300]))
                    ctx.add("others_read")
                    if not ok: ctx.add("others_read_after_error")
                if out and db.r.random() < .2:
                    x = db.r.choice(out); db.write([(0, x[0], x[1], x[2])])
                    ok2, t = self.one(x)
                    if not ok2 or parse_events(t) != [x]: raise Viol("collateral", "%s: event %s of another partition after a write: %s %s" % (why, x[:2], ok2, t[:300]))
                    ctx.add("others_written")
            if refresh and refresh.startswith("drop"):
                # the damaged partition can be given up, which brings back everything else
                ok2, t = db.trysql(refresh)
                if not ok2: raise Viol("collateral", "%s: %s failed: %s" % (why, refresh, t))
                ok2, t = db.m.cmd("scan -1")
                if not ok2 or parse_events(t) != out: raise Viol("collateral", "%s: after %s: %s" % (why, refresh, diff(parse_events(t), out) if ok2 else t))
                ctx.add("given_up" if not ok else "dropped_harmless"); return True
            if refresh:
                # a refresh must not write what it could not read
                ok2, t = db.trysql(refresh); ctx.add("refresh_failed" if not ok2 else "refresh_done")
                ok3, t = db.m.cmd("scan -1")
                if ok3 and parse_events(t) != db.sorted(): raise Viol("misread", "%s: wrong data after %s (%s): %s" % (why, refresh, "done" if ok2 else "failed", diff(parse_events(t), db.sorted())))
                if ok2 and not ok and ok3 is False and False: pass
                return True
            return False
        finally:
            try: db.m.ok("free")
            except (Dead, Hang, BrokenPipeError): pass

def fn(ctx, case):
    r, db = build_base(ctx, case)
    files = {f: open(os.path.join(db.path, f), "rb").read() for f in db.files()}
    targets = [f for f in files if f.startswith("wal/")] if case["log"] else [f for f in files if re.search(r"/\d{20}(\.cloud)?$", f) and not f.startswith("wal/") and files[f]]
    if not targets: db.m.close(); ctx.stats["nontrivial"] = 0; return
    newest = max([f for f in files if f.startswith("wal/")], default=None)
    # candidate changes
    todo = []
    for f in targets:
        d = files[f]
        if f.startswith("wal/"):
            for a, b in records(d):
                skip = set(range(a + 17, a + 21)) if f == newest else set()
                for o in range(a, b):
                    if o not in skip: todo.append((f, "byte", o))
                todo.append((f, "burst", a, b, f == newest)); todo.append((f, "burst", a, b, f == newest))
        else:
            for o in range(len(d)): todo.append((f, "byte", o)); todo.append((f, "trunc", o))
            for _ in range(20): todo.append((f, r.choice(("zeros", "noise", "delete", "insert", "append", "swap"))))
    total = len(todo)
    # the fields of the trailer, the headers and the ends more often than the rest
    if not THOROUGH and len(todo) > case["n"]:
        hot = [t for t in todo if not t[0].startswith("wal/") and t[1] == "byte" and t[2] >= len(files[t[0]]) - TRAILER and r.random() < .25]
        todo = hot + r.sample(todo, max(20, case["n"] - len(hot)))
    dm = Dmg(db); i = 0
    for t in todo:
        f, kind = t[0], t[1]; d = bytearray(files[f]); p = os.path.join(db.path, f)
        if kind == "byte": d[t[2]] ^= r.choice((255, 1, 2, 4, 8, 16, 32, 64, 128, r.randrange(1, 256)))
        elif kind == "trunc": del d[t[2]:]
        elif kind == "burst":
            a, b = t[2], t[3]
            spots = [o for o in range(a, b) if not (t[4] and a + 17 <= o < a + 21)]
            for o in r.sample(spots, min(len(spots), r.choice((2, 4, 30)))): d[o] = r.randrange(256)
        else:
            a = r.randrange(len(d)); b = min(len(d), a + r.choice((1, 4, 16, 200)))
            if kind == "zeros": d[a:b] = bytes(b - a)
            elif kind == "noise": d[a:b] = bytes(r.randrange(256) for _ in range(b - a))
            elif kind == "delete": del d[a:b]
            elif kind == "insert": d[a:a] = bytes(r.randrange(256) for _ in range(b - a))
            elif kind == "append": d += bytes(r.randrange(256) for _ in range(b - a))
            else:
                h = (len(d)) // 2; d = d[h:] + d[:h]
        if bytes(d) == files[f]: continue
        i += 1
        open(p, "wb").write(d)
        ctx.see("changes", kind + (" log" if f.startswith("wal/") else " cloud" if "cloud" in f or "mock" in f else " file"))
        what = "%s of %s at %s (size %d, %s, %s%s)" % (kind, f, t[2:4], len(files[f]), case["comp"] or "plain", "aes" if case["enc"] else "", " asan" if case["variant"] == "asan" else "")
        refresh = None
        if not f.startswith("wal/") and r.random() < .15:
            m = int(re.search(r"(\d{20})", f)[1]); refresh = "refresh partition %d" % m
            if r.random() < .2: refresh = "drop partition %d" % m
            elif r.random() < .3: refresh = "move partition %d into %s" % (m, r.choice(("main", "kk")))
        try: dirty = dm.attempt(what, f, refresh)
        except (Dead, Hang) as e: raise
        ctx.add("changed_files")
        if dirty or not os.path.exists(p) or i % 50 == 0:
            # nothing else was harmed
            cur = {x: open(os.path.join(db.path, x), "rb").read() for x in db.files()}
            if not dirty:
                open(p, "wb").write(files[f]); db.start(); db.check_scan("after repair of " + what, "collateral"); db.stop(); ctx.add("repaired_scans")
            for x in set(cur) | set(files):
                q = os.path.join(db.path, x)
                if x not in files:
                    if os.path.exists(q): os.unlink(q)
                elif not os.path.exists(q) or open(q, "rb").read() != files[x]: open(q, "wb").write(files[x])
        else: open(p, "wb").write(files[f])
        # opening alone adds new log files
        for x in db.files():
            if x not in files: os.unlink(os.path.join(db.path, x))
            elif x.startswith("wal/") or x == "config.json":
                q = os.path.join(db.path, x)
                if os.path.getsize(q) != len(files[x]): open(q, "wb").write(files[x])
    db.start(); db.check_scan("restored", "collateral"); db.stop(); db.m.close()
    ctx.add("candidates", total)
    ctx.sample = {"case": case, "files": {f: len(files[f]) for f in targets[:6]}, "candidates": total}

def cases():
    out = []
    for k in range(80 if not THOROUGH else 400):
        out.append(dict(seed=k, log=k % 4 == 0, comp=("", "zstd", "lz4")[k % 3], enc=k % 5 == 1, cloud=k % 7 == 3, n=1200, variant="asan" if k % 2 else "plain"))
    return out

if __name__ == "__main__":
    c = Check("C17", "exploration", variants=("plain", "asan"))
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), budget=800 if THOROUGH else 100)
    c.finish("one case = a database of small files; bytes of its partition files or log records are changed, cut, moved (quick: a sample, thorough: every byte and every length), it is opened and read: "
             "an error or exactly the stored events, in half of the cases under AddressSanitizer", need=("given_up", "others_read_after_error", "changed_files", "open_errors", "read_errors", "harmless", "repaired_scans", "refresh_failed"))
