"""Crash and fault enumeration on top of the model."""
import shutil
from program import *

IP = dict(OPENW=1, OPENR=2, READ=4, WRITE=8, SYNC=16, TRUNC=32, RENAME=64, UNLINK=128, MKDIR=256, RMDIR=512, OPENDIR=1024,
          MMAP=2048, CLOSE=4096)
MUTATE = 1 + 8 + 32 + 64 + 128 + 256 + 512
CRASHED = 77

class Crashed(Exception):
    def __init__(self, op): self.op = op

def clone(db, sub, ctx=None):
    """a new Db on a copy of the directory, with a copy of the model"""
    d = Db(ctx or db.ctx, db.r, db.variant, sub=sub)
    d.sets = list(db.sets); d.wal = db.wal; d.model = dict(db.model); d.trail = list(db.trail[-10:])
    d.timeout = db.timeout
    shutil.rmtree(d.path, ignore_errors=True)
    shutil.copytree(db.path, d.path, symlinks=True)
    return d

def run_op(db, op):
    """op: ('w', events) | ('sql', text[, ok_to_fail]) | ('drop', text, [(min,max)..]); raises Crashed when the process died as told"""
    try:
        if op[0] == "w": db.write(op[1])
        elif op[0] == "sql":
            db.sql(op[1])
        elif op[0] == "try":
            db.trysql(op[1])
        elif op[0] == "drop":
            db.sql(op[1])
            for lo, hi in op[2]: db.remove_range(lo, hi)
        elif op[0] == "free":
            db.stop(); db.start()
        elif op[0] == "scan":
            db.check_scan("scan")
    except Dead as e:
        if e.rc == CRASHED and not any(m in e.err for m in SAN_MARK): raise Crashed(op)
        raise

def arm(db, nth, variant, mask=MUTATE, sub=""):
    db.m.ok("ip root " + db.path)
    db.m.ok(("ip crash %d %d %d %s" % (nth, variant, mask, sub)).strip())

def count_calls(db, ops, mask=MUTATE):
    db.m.ok("ip root " + db.path)
    db.m.ok("ip reset")
    for op in ops: run_op(db, op)
    return int(db.m.ok("ip count %d" % mask))

def allowed_after(db, op):
    """list of admissible contents (dicts) after a crash during op"""
    base = db.model
    if op is None or op[0] in ("sql", "try", "free", "scan"): return [base]
    if op[0] == "w":
        m = dict(base)
        for f, i, k, v in op[1]:
            if f & 1: m.pop((i, k), None)
            else: m[(i, k)] = v
        return [base, m]
    if op[0] == "drop":
        out = [base]
        rs = op[2]
        if len(rs) > 6: raise Inconclusive("too many partitions in one drop")
        for bits in range(1, 1 << len(rs)):
            gone = [rs[i] for i in range(len(rs)) if bits >> i & 1]
            out.append({x: v for x, v in base.items() if not any(lo <= x[0] <= hi for lo, hi in gone)})
        return out
    raise Exception(op)

def settle(db, allowed, why, key):
    """contents after the reopen must be one of the allowed ones; the model follows"""
    got = db.scan()
    d = {(i, k): v for i, k, v in got}
    if len(d) != len(got): raise Viol(key + "-repeated", "%s: repeated events; before %s" % (why, db.trail[-12:]))
    if got != sorted(got, key=lambda e: (e[0], e[1])): raise Viol(key + "-order", "%s: not in order" % why)
    for m in allowed:
        if d == m:
            db.model = dict(m); db.live_cache = None
            db.ctx.add("outcome_before" if m is allowed[0] else "outcome_after")
            return
    want = [(i, k, v) for (i, k), v in sorted(allowed[0].items())]
    w2 = [(i, k, v) for (i, k), v in sorted(allowed[-1].items())]
    raise Viol(key, "%s: contents match none of %d allowed states; against the first: %s; against the last: %s; before %s" % (
        why, len(allowed), diff(got, want), diff(got, w2), db.trail[-12:]))

def restart(db, why, key="open-after-crash"):
    db.kill()
    try:
        db.start()
    except Viol as v:
        raise Viol(key, "%s: %s; files %s" % (why, v.detail[:1500], sorted(db.files().items())[:30]))
