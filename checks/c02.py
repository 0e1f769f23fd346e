import sys, os, bisect; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from program import *

def probes(r, db, n):
    """keys before, at and after events; borders of partitions, regions and the whole key space"""
    out = set()
    s = db.sorted()
    def around(i, k):
        out.add((i, k)); out.add((i, "")); out.add((i, "ff" * 255)); out.add((i, (k + "00")[:510]))
        if k: out.add((i, k[:-2]))
        if k and k[-2:] != "00": out.add((i, k[:-2] + "%02x" % (int(k[-2:], 16) - 1)))
        if i: out.add((i - 1, k)); out.add((i - 1, "ff" * 255))
        if i < U64: out.add((i + 1, "")); out.add((i + 1, k))
    for x in ([0, 1, 507, 508, 509, 510, 1016, 1017] + [-1, -2]):
        if -len(s) <= x < len(s): around(s[x][0], s[x][1])
    for p in db.parts():
        for i in (p["min"], p["max"]): around(i, "")
        lo = bisect.bisect_left(s, (p["min"],)); hi = bisect.bisect_right(s, (p["max"], "g"))
        if lo < hi: around(*s[lo][:2]); around(*s[hi - 1][:2])
    for i in (0, 1, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, U64 - 1, U64): around(i, "")
    for d in db.deleted[-40:]: around(*d)
    dense = list(out)
    for _ in range(n):
        if s: around(*r.choice(s)[:2])
    out = list(out); r.shuffle(out)
    return (dense if len(dense) < n else r.sample(dense, n)) + out[:n]

def check(ctx, r, db, n, why):
    want = db.sorted(); ks = [(w[0], w[1]) for w in want]
    pr = probes(r, db, n)
    lims = [(-1 if r.random() < .03 else r.choice((1, 3, 12, 40))) for _ in pr]
    rep = db.m.batch(["scan %d %d %s" % (l, i, kx(k)) for l, (i, k) in zip(lims, pr)])
    for l, (i, k), (ok, t) in zip(lims, pr, rep):
        if not ok: raise Viol("seek-error", "%s: cursor (%d,%s): %s" % (why, i, k[:20], t))
        got = parse_events(t); p = bisect.bisect_left(ks, (i, k))
        w = want[p:] if l < 0 else want[p:p + l]
        if got != w:
            raise Viol("seek", "%s: seek (%d,%s) limit %d: %s; first %r, want %r; before %s" % (
                why, i, k[:20], l, diff(got, w), got[:2], w[:2], db.trail[-8:]))
        ctx.add("seeks"); ctx.add("seeks_" + ("past_end" if p == len(ks) else "exact" if ks[p] == (i, k) else "gap"))
        if w and w[0][0] != i: ctx.add("seeks_other_id")

def fn(ctx, case):
    r, db, g = make(ctx, case, limit=case.get("span"))
    db.start(); tune_main(r, db)
    db.deleted = []
    p = Program(ctx, r, db, g, dict(OPS, seek=0, scan=0, create=3, refresh=8, reopen=.7, reopen_fresh=0, drop=.7), budget=case["n"])
    for i in range(case["steps"]):
        before = set(db.model)
        op = p.step()
        db.deleted += [x for x in before if x not in db.model][:20]
        if i % 3 == 2: check(ctx, r, db, case["probes"], "after " + op); layout(db, ctx)
    check(ctx, r, db, case["probes"] * 3, "end")
    db.op_refresh_all(); check(ctx, r, db, case["probes"] * 3, "end, all in files")
    db.write_many([p.batch(3) for _ in range(20)])
    check(ctx, r, db, case["probes"], "end, overlaid")
    ctx.add("nontrivial", 1 if len(db.model) > 5 else 0)
    ctx.sample = {"ids": g.ids, "keys": g.keys, "sets": db.sets, "live": len(db.model), "trail": db.trail[-6:]}
    db.stop(); db.m.close()

def cases():
    out = []; k = 0
    for rep in range(150 if THOROUGH else 32):
        for ids in Gen.IDS:
            for keys in ("none", "prefix", "mixed", "long") if rep % 4 == 0 else (Gen.KEYS[k % 5],):
                out.append(dict(seed=k, ids=ids, keys=keys, n=150 if ids in ("huge", "edge") else (400, 2500, 5000)[rep % 3],
                                steps=30, probes=40, span=(None, 600, 40)[rep % 3])); k += 1
    return out

if __name__ == "__main__":
    c = Check("C02")
    one = replay_case(sys.argv)
    c.run(fn, [one] if one else cases(), budget=700 if THOROUGH else 80)
    c.finish("one case = one random database history; seeks at, before and after events, at partition, page and region borders and at "
             "deleted keys are compared with the model's suffix", need=("seeks_past_end", "seeks_exact", "seeks_gap", "layouts"))
