import sys, os, re; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from program import *
import schema

WORDS = """true false us ms sec min hour day week month year kb kib k mb m gb g tb t set reset to show all config checkpoint service create storage storages
partition partitions if not exists drop pipeline alter rename move between and into refresh rebalance on cloud clouds download upload verbose debug wal memory""".split()
VARS = """version uuid directory log log_to_file log_to_stdout mm_page_size mm_limit mm_limit_wm mm_limit_behaviour mm_cache wal wal_rotate_wm wal_sync_on_rotate
wal_sync_on_write wal_crc serial interval compression compression_level workers workers_upload sync ssn lsn online error_wal error_refresh_1 error_upload error_download""".split()
OPTS = "uuid path cloud cloud_drop_local sync crc refresh_wm region_size compression compression_level encryption encryption_key type url login password access_key secret_key debug name partitions size events duration".split()
NUMS = "0 1 2 7 31 32 33 100 127 128 255 256 4096 65535 65536 1000000 2147483647 2147483648 4294967295 4294967296 9223372036854775807 9223372036854775808 18446744073709551614 18446744073709551615 18446744073709551616 99999999999999999999999 007 1.5 1e5 1e400 0.0 1e 1.".split()
NAMES = "main a b c1 c2 nope _x x.y x$ A MAIN Main".split() + ["n" * 100, "n" * 3000]

def literal(r):
    if r.random() < .3: return schema.hostile(r)[0]
    q = r.choice("'\"")
    return q + r.choice(("", "a", "mock", "s3", "zstd", "lz4", "aes", "main", "c1", "http://127.0.0.1:1", "k" * 32, "k" * 31, "k" * 33, "error", "block", "pa", "true", "1", "wal_create", "wal_gc", "wal_read", "memory_gc", schema.uuid_of(r), "x" * 5000)) + q

def val(r): return r.choice((r.choice(NUMS), r.choice(NUMS), literal(r), literal(r), "true", "false", r.choice(NAMES), "-1", r.choice(NUMS) + " " + r.choice(WORDS[:22])))
def num(r, c=.85): return r.choice(NUMS[:26]) if r.random() < c else val(r)
def name(r): return r.choice(NAMES) if r.random() < .9 else literal(r)
def opts(r, ns=OPTS): return "(" + ", ".join("%s %s" % (r.choice(ns), val(r)) for _ in range(r.choice((0, 1, 1, 2, 3, 8)))) + ")"
def ife(r): return r.choice(("", "", " if exists", " if not exists"))
def tiers(r): return ", ".join("%s%s" % (r.choice(("main", "a", "b", name(r))), r.choice(("", " " + opts(r, ["partitions", "size", "events", "duration", "x"]), " ()", " (partitions 1)"))) for _ in range(r.choice((1, 2, 2, 3, 6))))

def command(r, drops):
    t = [lambda: "show %s%s%s" % (r.choice(("all", "config", "clouds", "cloud " + name(r), "storages", "storage " + name(r), "partitions", "partitions " + name(r), "partition " + num(r), "wal", "memory", "pipeline", r.choice(VARS), name(r))), r.choice(("", "", " debug", " verbose")), ""),
         lambda: "set %s to %s" % (r.choice([v for v in VARS if not v.startswith("error_")] if r.random() < .97 else VARS), val(r)),
         lambda: "debug %s" % literal(r), lambda: r.choice(("checkpoint", "service", "rebalance")),
         lambda: "create cloud%s %s %s" % (ife(r), name(r), opts(r, "type url login password access_key secret_key debug bad".split())), lambda: "create cloud if not exists %s (type 'mock')" % r.choice(("c1", "c2", "c3")),
         lambda: "alter cloud%s %s set %s" % (ife(r), name(r), opts(r, "type url login password debug".split())), lambda: "alter cloud%s %s rename%s %s" % (ife(r), name(r), r.choice((" to", "")), name(r)), lambda: "drop cloud%s %s" % (ife(r), name(r)),
         lambda: "create storage%s %s %s" % (ife(r), name(r), opts(r, OPTS[:12])), lambda: "create storage if not exists %s (compression '%s', region_size %s)" % (r.choice("ab"), r.choice(("zstd", "lz4", "")), r.choice(NUMS[:25])),
         lambda: "alter storage%s %s set %s" % (ife(r), name(r), opts(r, OPTS[:12])), lambda: "alter storage main set (refresh_wm %s, region_size %s)" % (r.choice(NUMS[:25]), r.choice(NUMS[:25])),
         lambda: "alter storage%s %s rename%s %s" % (ife(r), name(r), r.choice((" to", "")), name(r)), lambda: "drop storage%s %s" % (ife(r), name(r)),
         lambda: "alter pipeline set " + tiers(r), lambda: "alter pipeline set main (%s %s), a" % (r.choice(schema.TIER), num(r)), lambda: "alter pipeline reset",
         lambda: "create partition%s %s %s" % (ife(r), num(r), num(r) if r.random() < .6 else ""),
         lambda: "%s partition%s %s%s" % (r.choice(("refresh", "download", "upload")), ife(r), num(r), r.choice(("", " if cloud"))),
         lambda: "%s partitions between %s and %s%s" % (r.choice(("refresh", "download", "upload")), num(r), num(r), r.choice(("", " if cloud"))),
         lambda: "move partition%s %s into %s" % (ife(r), num(r), name(r)), lambda: "move partitions between %s and %s into %s" % (num(r), num(r), name(r))]
    if drops: t += [lambda: "drop partition%s %s%s" % (ife(r), num(r), r.choice(("", " on storage", " on cloud", " on x"))), lambda: "drop partitions between %s and %s%s" % (num(r), num(r), r.choice(("", " on storage", " on cloud")))]
    return r.choice(t)()

def mutate(r, s):
    for _ in range(r.choice((1, 1, 2, 4, 8))):
        x = r.random()
        if x < .45:
            w = s.split(" "); k = r.randrange(len(w)); y = r.randrange(6)
            if y == 0: del w[k]
            elif y == 1: w.insert(k, r.choice(WORDS + OPTS))
            elif y == 2: w[k] = r.choice(WORDS + OPTS + VARS)
            elif y == 3: w[k] = val(r)
            elif y == 4: w.insert(k, w[r.randrange(len(w))])
            else: w[k] = w[k] + r.choice("(),;*#'\"._-+$@!%^&=<>[]{}|\\~`:?")
            s = " ".join(w)
        elif s:
            k = r.randrange(len(s)); y = r.randrange(6)
            if y == 0: s = s[:k]
            elif y == 1: s = s[:k] + chr(r.randrange(1, 256)) + s[k:]
            elif y == 2: s = s[:k] + chr(r.randrange(1, 256)) + s[k + 1:]
            elif y == 3: s = s[:k] + s[k + r.randrange(1, 10):]
            elif y == 4: s = s[:k] + r.choice(("\n", "\t", "#", "# c\n", "'", '"', "(", ")", ",", "'" * 3, "\xff\xfe")) + s[k:]
            else: s = s[:k] + s[k:k + 20] * r.choice((2, 3, 40)) + s[k:]
    return s

def safe(s):
    """nothing outside the scratch directory"""
    l = s.lower()
    if "path" in l: s = s.replace("/", "_").replace("..", "_")
    if "wal_gc" in l: pass
    return s.replace("\0", "").replace("\n\n", "\n")

def send(ctx, m, s):
    ok, t = m.cmd("sqlx " + s.encode("latin1", "replace").hex())
    ctx.add("commands"); ctx.add("accepted" if ok else "rejected")
    ctx.see("heads", " ".join(s.lower().split()[:2])[:30] + (" ok" if ok else " err"))
    if not ok:
        if not t or t.startswith("(no error"): raise Viol("no-error-text", "%r failed without an error message" % s[:300])
        ctx.see("errors", re.sub(r"[0-9]+|'[^']*'", "#", t)[:60])
    return ok, t

def commands(ctx, case, before_open=False):
    r = rng_of(case, "c21")
    m = ctx.mnx("asan", leaks=LEAKS, timeout=90)
    for life in range(case["lives"]):
        d = os.path.join(ctx.dir, "db%d" % (life if r.random() < .5 else 0))
        m.ok("init")
        # settings before the environment is open
        for _ in range(r.choice((0, 5, 20)) if not before_open else case["n"]):
            s = "set %s to %s" % (r.choice(VARS), val(r)) if r.random() < .6 else command(r, True)
            if r.random() < .4: s = mutate(r, s)
            send(ctx, m, safe(s))
        if before_open and r.random() < .5:
            m.cmd("w 1 0 5 - h01"); m.cmd("scan -1"); m.cmd("co 0 1 -"); m.cmd("cr 0"); m.cmd("cn 0"); m.cmd("cc 0"); ctx.add("not_open_calls")
        for s in ("workers to %d" % r.choice((0, 0, 1, 2)), "workers_upload to 0", "mm_limit_behaviour to 'error'") + (("mm_page_size to %d" % r.choice((4096, 65536, 2097152)), "mm_limit to false", "interval to %d" % r.choice((1, 10, 100, 3000000)), "wal to true", "wal_crc to true") if r.random() < .8 else ()): m.cmd("sql set " + s)
        ok, t = m.cmd("open " + d)
        ctx.add("opened" if ok else "open_refused")
        if not ok: m.ok("free"); continue
        for s in ("create cloud if not exists c1 (type 'mock')", "create storage if not exists a", "create storage if not exists b (cloud 'c1')"): m.cmd("sql " + s)
        ids = [int(x) for x in NUMS[:25] if x.isdigit() and int(x) < 1 << 64]
        for k in range(case["n"]):
            x = r.random()
            if x < .12: m.cmd("w %d %s" % (1, "%d %d %s h%02x" % (r.choice((0, 0, 0, 1)), r.choice(ids), r.choice(("-", "61")), k % 256))); ctx.add("writes")
            elif x < .14: m.cmd("scan %d" % r.choice((-1, 5))); ctx.add("scans")
            else:
                s = command(r, True)
                if r.random() < .45: s = mutate(r, s)
                send(ctx, m, safe(s))
        m.cmd("sql alter storage main set (region_size 1000, refresh_wm 1000000)")
        m.cmd("scan -1"); ctx.add("lives")
        if r.random() < .2: m.cmd("open " + d); ctx.add("opened_twice")
        m.ok("free")
    m.close(); ctx.add("clean_exits")
    ctx.sample = {"case": case, "last": s[:200]}

def api(ctx, case):
    """events of every shape, cursors in every order, calls before open and after failures"""
    r = rng_of(case, "c21api")
    sets = []
    ps = r.choice((256, 4096, 65536, 2097152))
    db = Db(ctx, r, "asan", ["mm_page_size to %d" % ps, "interval to %d" % r.choice((1, 7, 100, 1 << 63, U64)), "wal_crc to %s" % r.choice(("true", "false")), "wal to %s" % r.choice(("true", "true", "false")),
        "compression to '%s'" % r.choice(("", "zstd", "lz4"))] + (["mm_limit to true", "mm_limit_wm to %d" % (ps * r.choice((1, 3, 100))), "mm_limit_behaviour to 'error'"] if r.random() < .3 else []), serial=r.random() < .2, workers=r.choice((0, 0, 1)), timeout=90)
    m = db.m = ctx.mnx("asan", leaks=LEAKS, timeout=90)
    if r.random() < .3:
        m.ok("init")
        for c in r.sample(["cw 2 1", "w 1 0 1 - h01", "scan -1", "co 0 5 -", "co 1 *", "cr 0", "cn 1", "cc 0", "cc 1", "sql show all", "sql checkpoint", "sql service", "w 0"], 8): m.cmd(c)
        m.cmd("cc 0"); m.cmd("cc 1")
        ctx.add("not_open_calls"); m.ok("free")
    m.ok("init")
    for s in db.sets: m.cmd("sql set " + s)
    if r.random() < .15:
        ok, t = m.cmd("open " + r.choice((ctx.dir + "/missing/dir/x", ctx.dir + "/" + "x" * 300, "")))
        ctx.add("open_refused"); m.ok("free"); m.ok("init")
        for s in db.sets: m.cmd("sql set " + s)
    m.ok("open " + db.path)
    def key(): return r.choice(("-", "-", "00", "61", "ff" * 255, "ff" * 256, "00" * 1000, "61" * r.randrange(1, 300), "%x" % r.getrandbits(64) + "0" * (len("%x" % r.getrandbits(64)) % 2)))
    def ev():
        k = key(); k = k if k == "-" or len(k) % 2 == 0 else k + "0"
        n = r.choice((0, 0, 1, 16, 64, ps - 300, ps - 40, ps - 21, ps - 1, ps, ps + 1, 2 * ps, 3000, 1 << 20))
        v = "-" if n <= 0 else "h" + "%02x" % r.getrandbits(8) * n if n <= 64 else "g%d:%d:%d" % (r.getrandbits(16), n, r.randrange(3))
        return "%d %d %s %s" % (r.choice((0, 0, 0, 0, 1, 1, 2, 3, -1, 255, 256, 1 << 30, 2147483647, -2147483648)), r.choice((0, 1, 5, 6, 7, 8, U64, U64 - 1, 1 << 63, (1 << 63) - 1, r.getrandbits(64), r.randrange(50))), k, v)
    slots = [None] * 6; opened = 0
    for _ in range(case["n"]):
        x = r.random()
        if x < .35:
            n = r.choice((1, 1, 1, 0, 2, 5, 40, 600))
            ok, t = m.cmd("w %d %s" % (n, " ".join(ev() for _ in range(n)))); ctx.add("writes"); ctx.add("write_ok" if ok else "write_refused")
            if not ok: ctx.see("errors", re.sub(r"[0-9]+", "#", t)[:60])
        elif x < .45: m.cmd("co %d %d %s" % (r.randrange(6), r.choice((0, 1, 5, U64, r.getrandbits(64), r.randrange(50))), key()) if r.random() < .8 else "co %d *" % r.randrange(6)); ctx.add("cursors")
        elif x < .75: m.cmd("%s %d" % (r.choice(("cr", "cr", "cn", "cn", "cn", "cc")), r.randrange(6)))
        elif x < .8: m.cmd("cw %d %d" % (r.randrange(6), r.choice((1, 10, 1000))))
        elif x < .85: m.cmd("scan %d %d %s" % (r.choice((-1, 0, 3)), r.choice((0, 5, U64, 1 << 63)), key()))
        elif x < .96:
            # commands a cursor of this thread does not stand in the way of (a refresh of its partition is refused)
            m.cmd("sql " + r.choice(("show all", "show partitions", "show memory", "show wal", "debug 'wal_create'", "debug 'wal_gc'", "debug 'memory_gc'", "show partition 5", "refresh partitions between 0 and %d" % r.choice((9, U64)), "refresh partition %d" % r.choice((0, 5, U64)))))
        elif x < .99:
            for s in range(6): m.cmd("cc %d" % s)
            m.cmd("sql " + r.choice(("checkpoint", "refresh partitions between 0 and %d" % r.choice((9, U64)), "refresh partition %d" % r.choice((0, 5, U64)), "drop partitions between 0 and %d" % r.choice((10, U64)), "service", "alter storage main set (refresh_wm 1, region_size 1)", "alter storage main set (refresh_wm 100000000, region_size 100000)")))
            if r.random() < .5:
                for _ in range(5): m.cmd("sql service")
        else:
            for s in range(6): m.cmd("cc %d" % s)
            m.ok("free"); m.ok("init")
            for s in db.sets: m.cmd("sql set " + s)
            m.ok("open " + db.path); ctx.add("reopens")
    for s in range(6): m.cmd("cc %d" % s)
    m.cmd("scan -1"); m.ok("free"); m.close(); ctx.add("clean_exits")
    ctx.sample = {"case": case, "sets": db.sets}

def probe(ctx, case):
    """a leak check of a trivial session; tells whether the leak detector works here"""
    m = ctx.mnx("asan", leaks=True); m.ok("init"); m.ok("free"); m.close()

LEAKS = True
def fn(ctx, case):
    {"commands": commands, "api": api, "probe": probe, "before": lambda c, k: commands(c, k, True)}[case["mode"]](ctx, case)

def cases():
    n = 120 if not THOROUGH else 3000
    return [dict(seed=k, mode=("commands", "commands", "api", "before", "api")[k % 5], lives=3, n=400 if k % 5 < 2 else 300) for k in range(n)]

if __name__ == "__main__":
    c = Check("C21", "exploration", variants=("asan",))
    one = replay_case(sys.argv)
    from core import _run_one
    p = _run_one((probe, dict(seed=0, mode="probe"), 0))
    if p["status"] != "ok" and "LeakSanitizer has encountered a fatal" in p["detail"]: LEAKS = False
    c.run(fn, [one] if one else cases(), procs=8, budget=800 if THOROUGH else 150)
    c.finish("one case = generated and mutated command texts (grammar of every command, hostile literals, byte changes), or events and cursors of every shape in any order, against the library built with AddressSanitizer, "
             "UndefinedBehaviorSanitizer and LeakSanitizer (leak detection %s); any report, abnormal end, hang or error without text is a violation" % ("on" if LEAKS else "not available here"),
             need=("commands", "accepted", "rejected", "writes", "cursors", "clean_exits", "not_open_calls", "write_ok", "write_refused"))
