#!/usr/bin/env python3
"""Validates planted bugs and runs checks against them, in a private mount namespace with a scratch copy at /repo.
  seed.py check <id>..          build, stable tests, demo with and without the patch
  seed.py catch <id> [check..]  run the checks (default: of the bug's property) against the bug
"""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def ns(copy, script, **k):
    return subprocess.run(["unshare", "-m", "bash", "-c", "mount --make-rprivate / && mount --bind %s /repo && cd /repo && %s" % (copy, script)], **k)
def base():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("passed", "stable", "pass"):
        if k in b: return set(b[k])
def mk():
    d = tempfile.mkdtemp(prefix="seedcopy", dir="/dev/shm")
    subprocess.check_call(["cp", "-a", "/repo/.", d]); return d
def original(sid):
    """lines of the original repository the patch changes, and the other ones"""
    import re
    own = set(); o = n = 0; f = None; w = {}
    for l in open(os.path.join(V, "seeded", sid, "patch.diff")):
        l = l.rstrip("\n")
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"): at = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"): w.setdefault(f, []).append(at); at += 1
        elif l.startswith(" "): at += 1
    for f, ls in w.items():
        b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        root = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout[:7]
        for i in ls:
            if b[i - 1].lstrip("^").startswith(root): o += 1
            else: n += 1
    return o, n
def check(sid):
    o, n = original(sid)
    if n or not o: print(sid, "changes %d lines of the original and %d others" % (o, n))
    sd = os.path.join(V, "seeded", sid); d = mk(); out = {}
    try:
        subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."])
        r = ns(d, "git apply %s/patch.diff" % sd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return "APPLY " + r.stdout
        r = ns(d, "bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/out.json" % d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try: o = json.load(open(d + "/out.json"))
        except Exception: return "BUILD " + r.stdout[-1500:]
        p = next(set(o[k]) for k in ("passed", "stable", "pass") if k in o)
        miss = base() - p
        if miss: return "TESTS fail: %s" % sorted(miss)[:8]
        r = ns(d, "bash %s/demo.sh" % sd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0: return "DEMO passes with patch: " + r.stdout[-500:]
        w = r.stdout[-200:]
        ns(d, "git apply -R %s/patch.diff && bash /opt/vp/build.sh >/dev/null" % sd)
        r = ns(d, "bash %s/demo.sh" % sd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return "DEMO fails without patch: " + r.stdout[-800:]
        return "OK (%s)" % w.strip()[-150:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
def catch(sid, checks):
    sd = os.path.join(V, "seeded", sid); d = mk()
    checks = checks or [json.load(open(sd + "/meta.json"))["property"]]
    try:
        ns(d, "git checkout -q -- . && git apply %s/patch.diff" % sd)
        for c in checks:
            r = ns(d, "cd %s && VERIF_TIER=%s VERIF_SEED=%s timeout 1500 python3 checks/%s.py" % (V, os.environ.get("VERIF_TIER", "quick"), os.environ.get("VERIF_SEED", "1"), c.lower()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(sid, c, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, len(v), [l for l in r.stdout.splitlines() if not l.startswith("VIOL")][-3:] if not v else "", flush=True)
            if v or r.returncode not in (0, 1): print("   ", r.stdout[-700:].replace("\n", "\n    "))
    finally:
        shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    ids = sys.argv[2:]
    if sys.argv[1] == "check":
        for i in ids or sorted(os.listdir(V + "/seeded")): print(i, check(i), flush=True)
    elif sys.argv[1] == "catch": catch(ids[0], ids[1:])
    elif sys.argv[1] == "all":
        for i in sorted(os.listdir(V + "/seeded")): catch(i, [])
