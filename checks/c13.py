import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from crash import *
from pfile import *
KEYC = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

def newkey(r): return "".join(r.choice(KEYC) for _ in range(32))

class Mon:
    """watches every file of the encrypted storages"""
    def __init__(self, db, keys):
        self.db, self.keys, self.ivs, self.blocks, self.seen = db, keys, {}, {}, set()
        self.tokens = set()
    def token(self, s):
        if len(s) >= 24: self.tokens.add(bytes.fromhex(s[:24])); self.tokens.add(bytes.fromhex(s[-24:]))
    def look(self, why):
        db, ctx = self.db, self.db.ctx
        st = db.js("show storages")
        for name, key in self.keys.items():
            root = os.path.join(db.path, st[name]["config"]["uuid"])
            for d, _, fs in os.walk(root):
                for f in fs:
                    p = os.path.join(d, f)
                    data = open(p, "rb").read()
                    h = hashlib.sha1(data).digest()
                    if h in self.seen: continue
                    self.seen.add(h); ctx.add("files_searched"); ctx.see("file_kinds", f.partition(".")[2] + (" mock" if "mock" in d else ""))
                    for t in self.tokens:
                        if t in data: raise Viol("plaintext", "%s: %s of encrypted storage %s holds bytes of an event at %d; before %s" % (why, f, name, data.find(t), db.trail[-8:]))
                    ctx.add("tokens_searched", len(self.tokens))
                    if len(data) < TRAILER or f.endswith(".incomplete"): continue
                    try: pf = Pfile(data)
                    except ValueError: continue
                    if not pf.index["size"]: continue
                    if f.endswith(".cloud"): spans = [(0, len(data) - TRAILER)]
                    else:
                        try: spans = pf.encrypted_spans(key)
                        except ValueError as e: raise Viol("not-encrypted", "%s: %s of storage %s is not encrypted with its key: %s" % (why, f, name, e))
                    for a, b in spans:
                        if b - a < 32: raise Viol("not-encrypted", "%s: %s block %d..%d" % (why, f, a, b))
                        iv = data[a:a + 12]; body = hashlib.sha1(data[a:b]).digest()
                        if f.endswith(".cloud"): continue
                        if self.ivs.setdefault((key, iv), body) != body:
                            raise Viol("iv-reuse", "%s: %s uses initialisation vector %s of another block again" % (why, f, iv.hex()))
                        ctx.add("ivs")
                        # equal cipher text blocks betray a repeated key stream
                        for o in range(a + 32, min(b, a + 32 + 512) - 15, 16):
                            x = self.blocks.setdefault((key, data[o:o + 16]), body)
                            if x != body: raise Viol("keystream", "%s: %s repeats cipher text of another block" % (why, f))

def fn(ctx, case):
    r = rng_of(case, "c13")
    sets = ["interval to %d" % r.choice((10, 100, 1000)), "mm_page_size to 65536", "wal to %s" % r.choice(("true", "false"))]
    db = Db(ctx, r, case["variant"], sets=sets); db.wal = "wal to true" in sets
    db.start()
    keys = {}
    cloud = case["cloud"]
    if cloud: db.sql("create cloud c (type 'mock')")
    same = newkey(r)
    for i in range(case["stores"]):
        k = same if r.random() < .4 else newkey(r)
        o = ["encryption 'aes'", "encryption_key '%s'" % k, "compression '%s'" % case["comp"], "region_size %d" % r.choice((1, 200, 2000, 131072))]
        if r.random() < .4: o.append("crc true")
        if cloud: o.append("cloud 'c'"); o.append("cloud_drop_local %s" % r.choice(("true", "false")))
        db.sql("create storage e%d (%s)" % (i, ", ".join(o))); keys["e%d" % i] = k
    db.sql("alter pipeline set e0")
    mon = Mon(db, keys)
    g = Gen(r, 100, ids=r.choice(("shuffle", "dense")), limit=60)
    def val():
        x = r.random()
        if x < .5: v = "%032x" % r.getrandbits(128)
        elif x < .7: v = ("%02x" % r.randrange(256)) * r.randrange(16, 65)
        elif x < .9: v = ("%08x" % r.getrandbits(32)) * r.randrange(4, 17)
        else: return "g%d:%d:%d" % (r.getrandbits(31), r.choice((100, 1000, 5000)), r.randrange(3))
        if len(set(bytes.fromhex(v))) > 3: mon.token(v)
        else: mon.token(v) if v[:2] not in ("00",) else None
        return "h" + v
    def write(n):
        evs = []
        for _ in range(n):
            f, i, k, _ = g.event(db.live(), rehit=.3, delete=.1)
            if k not in [x[1] for x in db.live()[:1]] and r.random() < .5: k = "%032x" % r.getrandbits(128); mon.token(k)
            evs.append((f, i, k, val() if not f else "-"))
        db.write(evs)
    write(r.choice((5, 40)))
    for _ in range(case["steps"]):
        op = pick(r, dict(write=4, refresh=3, refresh_all=4, refresh_range=2, move=3, fail_refresh=3, reopen=2, cloud=4 if cloud else 0, move_plain=1, move_back=2))
        if op == "write": write(r.choice((1, 5)))
        elif op == "reopen":
            if not db.wal: db.op_refresh_all()
            db.reopen(fresh=r.random() < .5)
        elif op == "move":
            p = db.some_part()
            if p: db.sql("move partition %d into %s" % (p["min"], r.choice(list(keys))))
        elif op == "move_plain":
            p = db.some_part()
            if p: db.sql("move partition %d into main" % p["min"])
        elif op == "move_back": db.sql("move partitions between 0 and %d into %s" % (U64, r.choice(list(keys))))
        else: getattr(db, "op_" + op)()
        ctx.see("ops", op); mon.look("after " + op)
        db.check_scan("after " + op)
    # the same data again and again: no initialisation vector twice, also over restarts
    for k in range(3):
        db.op_refresh_all(); mon.look("refreshed again"); db.sql("move partitions between 0 and %d into e0" % U64); mon.look("moved again")
        if k == 1: db.reopen(fresh=True)
    db.op_rotate() if db.wal else None
    db.op_refresh_all(); db.stop()
    if not db.model: db.m.close(); return
    base = db
    # wrong keys
    conf = os.path.join(db.path, "config.json"); good = open(conf).read()
    k = keys["e0"]
    wrong = [newkey(r), k[:-1] + ("a" if k[-1] != "a" else "b"), ("a" if k[0] != "a" else "b") + k[1:], k[:16] + k[16:].swapcase() if k[16:].swapcase() != k[16:] else newkey(r), k[:31], k + "x", ""]
    def attempt(d, why, key):
        ok, t = d.m.cmd("init")
        for s in d.sets: d.m.sql("set " + s)
        ok, t = d.m.cmd("open " + d.path)
        if ok: ok, t = d.m.cmd("scan -1")
        d.m.ok("free")
        ctx.add("rejected" if not ok else "read")
        if ok: raise Viol(key, "%s: data was returned (%d events)" % (why, len(t.splitlines())))
        ctx.see("errors", "".join(c for c in t[:60] if not c.isdigit())[:40])
    encs = {p: f for p, f in base.files().items()}
    for w in wrong:
        d = clone(base, "k"); d.m = base.m
        j = good.replace('"%s"' % k, '"%s"' % w)
        if j == good: raise Exception("key not in config.json")
        open(os.path.join(d.path, "config.json"), "w").write(j)
        attempt(d, "key %r instead of %r" % (w, k), "wrong-key")
        ctx.add("wrong_keys")
    base.start(); base.check_scan("right key again"); uu = {n: base.js("show storages")[n]["config"]["uuid"] for n in keys}; base.stop()
    # changed bytes
    files = [(n, f) for n in keys for f in base.files() if f.startswith(uu[n] + "/") and f.rsplit("/", 1)[1].isdigit() and not f.startswith("mock")]
    onlycloud = [x for x in files if "/mock/" in x[1]]
    local = [x for x in files if "/mock/" not in x[1]]
    names = {os.path.basename(f) for n, f in local}
    targets = local + [x for x in onlycloud if os.path.basename(x[1]) not in names]
    if not targets: base.m.close(); return
    kind = None
    for _ in range(case["tampers"]):
        n, f = r.choice(targets)
        p = os.path.join(base.path, f); data = open(p, "rb").read()
        pf = Pfile(data)
        if not pf.index["size"]: continue
        kind = kind or crc_kind(pf)
        a, b = r.choice(pf.encrypted_spans(keys[n]))
        lo = r.choice((a + 16, a + 32, a)) if b - a > 33 else a + 16
        how = r.choice(("bit", "byte", "burst", "zerotag", "tail", "shift"))
        was = bytes(pf.data)
        if how == "bit": o = r.randrange(lo, b); o = o if not a + 12 <= o < a + 16 else a + 16; pf.data[o] ^= 1 << r.randrange(8)
        elif how == "byte": o = r.randrange(lo, b); o = o if not a + 12 <= o < a + 16 else a + 16; pf.data[o] = (pf.data[o] + r.randrange(1, 256)) & 255
        elif how == "burst":
            o = r.randrange(a + 16, b); e = min(b, o + r.randrange(1, 40)); pf.data[o:e] = bytes(r.randrange(256) for _ in range(e - o))
        elif how == "zerotag": pf.data[a + 16:a + 32] = bytes(16)
        elif how == "tail": pf.data[b - 1] ^= 0x80
        else: pf.data[a + 32:b] = pf.data[a + 33:b] + pf.data[a + 32:a + 33]
        if bytes(pf.data) == was: continue
        fix_crc(pf, kind)
        d = clone(base, "t"); d.m = base.m
        open(os.path.join(d.path, f), "wb").write(pf.data)
        if "/mock/" in f:               # the local copy of the index too
            q = os.path.join(d.path, uu[n], os.path.basename(f) + ".cloud")
            if os.path.exists(q) and a == pf.index_span()[0]: open(q, "wb").write(pf.data[pf.index_span()[0]:])
        attempt(d, "%s of %s (block %d..%d of %d, %s)" % (how, f, a, b, len(pf.data), "index" if a == pf.index_span()[0] else "region"), "tamper")
        ctx.add("tampered"); ctx.see("tamper_kinds", how + (" index" if a == pf.index_span()[0] else " region") + (" cloud" if "/mock/" in f else ""))
    base.m.close()
    ctx.sample = {"sets": sets, "case": case, "tokens": len(mon.tokens), "ivs": len(mon.ivs)}

def cases():
    out = []
    for k in range(600 if not THOROUGH else 1500):
        out.append(dict(seed=k, comp=("zstd", "", "lz4")[k % 3], stores=1 + k % 2, cloud=k % 4 == 3, steps=10 if not THOROUGH else 25, tampers=14 if not THOROUGH else 60,
                        variant="asan" if k % 8 == 0 else "plain"))
    return out

if __name__ == "__main__":
    c = Check("C13", "exploration", variants=("plain", "asan"))
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), budget=800 if THOROUGH else 90)
    c.finish("one case = a program over encrypted storages; every file version is searched for event bytes and its initialisation vectors collected; then the directory is "
             "read with wrong keys and with changed encrypted bytes (unkeyed checksums recomputed)", need=("ivs", "tokens_searched", "rejected", "wrong_keys", "tampered"))
