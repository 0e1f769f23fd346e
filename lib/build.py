"""Builds the executor from the current working tree of /repo (never from a copy)."""
import os, sys, glob, hashlib, subprocess, fcntl, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
BASE = ["-g", "-Wno-everything"] if False else ["-g", "-w", "-fPIC", "-pthread"]
VARIANTS = {
    "plain": ["-O0"],
    "asan": ["-O0", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,nonnull-attribute,returns-nonnull-attribute",
             "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}
WRAP = """open open64 openat creat close read pread pread64 write pwrite pwrite64 writev pwritev fsync fdatasync
sync_file_range ftruncate ftruncate64 truncate rename unlink remove mkdir rmdir opendir mmap
pthread_mutex_lock pthread_mutex_unlock pthread_cond_wait pthread_cond_broadcast pthread_cond_signal
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_spin_lock pthread_spin_unlock clock_gettime""".split()
INC = ["runtime", "runtime/runtime", "runtime/lib", "runtime/config", "cloud", "cloud/cloud", "cloud/s3",
       "engine", "engine/io", "engine/storage", "engine/wal", "engine/engine", "main", "main/command",
       "main/main", "main/api"]
LIBS = ["-lm", "-lpthread", "-lcurl", "-lssl", "-lcrypto", "-lzstd", "-llz4"]

class BuildError(Exception):
    pass

def sources():
    root = os.path.join(REPO, "monotone")
    return sorted(glob.glob(root + "/**/*.c", recursive=True))

def _hash(variant, extra):
    h = hashlib.sha256()
    h.update(repr((variant, VARIANTS[variant], WRAP, extra, 2)).encode())
    root = os.path.join(REPO, "monotone")
    files = sorted(glob.glob(root + "/**/*.[ch]", recursive=True)) + \
            sorted(glob.glob(os.path.join(VERIF, "harness", "*.[ch]")))
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

def build(variant="plain", main="mnx"):
    os.makedirs(OUT, exist_ok=True)
    d = os.path.join(OUT, "%s-%s" % (variant, _hash(variant, main)))
    exe = os.path.join(d, main)
    with open(os.path.join(OUT, "lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        # only the newest few builds are kept
        old = sorted(glob.glob(os.path.join(OUT, variant + "-*")), key=os.path.getmtime)
        for o in old[:-2]:
            shutil.rmtree(o, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix=variant + ".tmp", dir=OUT)
        try:
            flags = BASE + VARIANTS[variant]
            inc = ["-I" + os.path.join(REPO, "monotone", i) for i in INC] + ["-I" + os.path.join(VERIF, "harness")]
            jobs = []
            for s in sources():
                jobs.append((s, os.path.join(tmp, os.path.relpath(s, REPO).replace("/", "_") + ".o"), []))
            for s in (main + ".c", "ipose.c"):
                # the interposed calls must neither be reported nor order anything for the race detector
                jobs.append((os.path.join(VERIF, "harness", s), os.path.join(tmp, s + ".o"),
                             ["-fno-sanitize=thread"] if s == "ipose.c" and variant == "tsan" else []))
            def cc(j):
                s, o, e = j
                r = subprocess.run(["gcc", "-c", s, "-o", o] + flags + inc + e, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                return r.returncode, s, r.stdout
            with ThreadPoolExecutor(8) as ex:
                for rc, s, out in ex.map(cc, jobs):
                    if rc:
                        raise BuildError("%s\n%s" % (s, out))
            ld = ["gcc"] + flags + ["-o", os.path.join(tmp, main)] + [j[1] for j in jobs] + \
                 ["-Wl," + ",".join("--wrap=" + w for w in WRAP)] + LIBS
            r = subprocess.run(ld, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError("link\n" + r.stdout)
            for j in jobs:
                os.unlink(j[1])
            shutil.rmtree(d, ignore_errors=True)
            os.rename(tmp, d)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return exe

if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build(v))
