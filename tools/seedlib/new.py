"""new(id, prop, [(file, old, new)], demo, needs, breaks)"""
import os, subprocess, json, shutil, tempfile
def new(sid, prop, edits, demo, needs, breaks, shim=None):
    V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sd = V + "/seeded/" + sid; os.makedirs(sd, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="sdwt", dir="/dev/shm")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt + "/w", "HEAD"])
        for f, a, b in edits:
            p = wt + "/w/monotone/" + f; s = open(p).read()
            assert s.count(a) == 1, (sid, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        d = subprocess.run(["git", "-C", wt + "/w", "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(sd + "/patch.diff", "w").write(d)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt + "/w"]); shutil.rmtree(wt, True)
    shutil.copy(V + "/tools/seedlib/mono.py", sd); shutil.copy(V + "/tools/seedlib/demo.sh", sd)
    open(sd + "/demo.py", "w").write("from mono import *\n" + demo)
    if shim: open(sd + "/shim.c", "w").write("/* wrappers around system calls of the library (demonstration only) */\n#define _GNU_SOURCE\n#include <dlfcn.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <errno.h>\n#include <unistd.h>\n" + shim)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(sd + "/meta.json", "w"), indent=1)
