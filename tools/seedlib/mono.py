"""Small ctypes wrapper around the library built in the current directory (demonstrations only)."""
import ctypes as C, os, sys, json, subprocess, tempfile, shutil, atexit, threading
DIR = tempfile.mkdtemp(prefix="mndemo")
atexit.register(shutil.rmtree, DIR, True)
LIB = os.path.join(os.getcwd(), "_build", "libmonotone.so")
shim = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim.c")
if os.path.exists(shim):                # calls of the library go through the wrappers in it
    subprocess.check_call(["gcc", "-shared", "-fPIC", "-w", "-o", DIR + "/shim.so", shim, "-Wl,--no-as-needed", LIB, "-Wl,-rpath," + os.path.dirname(LIB), "-ldl"])
    LIB = DIR + "/shim.so"
LIB = C.CDLL(LIB, mode=os.RTLD_LOCAL | os.RTLD_DEEPBIND | os.RTLD_NOW)
class Ev(C.Structure):
    _fields_ = [("flags", C.c_int), ("id", C.c_uint64), ("key", C.c_void_p), ("key_size", C.c_size_t),
                ("value", C.c_void_p), ("value_size", C.c_size_t)]
for n in ("monotone_init", "monotone_cursor"): getattr(LIB, n).restype = C.c_void_p
LIB.monotone_error.restype = C.c_char_p
LIB.monotone_error.argtypes = [C.c_void_p]; LIB.monotone_free.argtypes = [C.c_void_p]
LIB.monotone_open.argtypes = [C.c_void_p, C.c_char_p]
LIB.monotone_execute.argtypes = [C.c_void_p, C.c_char_p, C.POINTER(C.c_void_p)]
LIB.monotone_write.argtypes = [C.c_void_p, C.POINTER(Ev), C.c_int]
LIB.monotone_cursor.argtypes = [C.c_void_p, C.c_char_p, C.POINTER(Ev)]
LIB.monotone_read.argtypes = [C.c_void_p, C.POINTER(Ev)]; LIB.monotone_next.argtypes = [C.c_void_p]
free = C.CDLL(None).free; free.argtypes = [C.c_void_p]
def child(f):
    """runs f in another process, returns its exit code"""
    pid = os.fork()
    if pid == 0:
        try: f()
        except BaseException as e: sys.stderr.write("child: %r\n" % (e,)); os._exit(99)
        os._exit(0)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
def within(secs, what, f):
    """f must end within that time"""
    t = threading.Thread(target=f, daemon=True); t.start(); t.join(secs)
    if t.is_alive(): print("FAIL %s: not done after %d s" % (what, secs), flush=True); shutil.rmtree(DIR, True); os._exit(1)
class Error(Exception): pass
def evs(list):
    """[(id, key, value)] or [(id, key, value, flags)]"""
    a = (Ev * len(list))()
    keep = []
    for i, e in enumerate(list):
        k, v = C.create_string_buffer(e[1], max(1, len(e[1]))), C.create_string_buffer(e[2], max(1, len(e[2])))
        keep += [k, v]
        a[i] = Ev(e[3] if len(e) > 3 else 0, e[0], C.cast(k, C.c_void_p) if e[1] else None, len(e[1]),
                  C.cast(v, C.c_void_p) if e[2] else None, len(e[2]))
    return a, keep
class Cursor:
    def __init__(self, m, key=None):
        self.m = m; a = None
        if key is not None: a, self.keep = evs([(key[0], key[1], b"")])
        self.h = LIB.monotone_cursor(m.h, None, a)
        if not self.h: raise Error(m.error())
    def read(self):
        e = Ev(); rc = LIB.monotone_read(self.h, C.byref(e))
        if rc < 0: raise Error(self.m.error())
        if rc == 0: return None
        return e.id, C.string_at(e.key, e.key_size) if e.key_size else b"", C.string_at(e.value, e.value_size) if e.value_size else b""
    def next(self):
        rc = LIB.monotone_next(self.h)
        if rc < 0: raise Error(self.m.error())
        return rc
    def close(self): LIB.monotone_free(self.h)
class M:
    def __init__(self, sets=(), sub="db", workers=0, open=True):
        self.h = LIB.monotone_init(); self.path = os.path.join(DIR, sub)
        for s in ["workers to %d" % workers, "workers_upload to 0", "serial to false", "log_to_stdout to false"] + list(sets): self.sql("set " + s)
        if open: self.open()
    def open(self):
        if LIB.monotone_open(self.h, self.path.encode()): 
            e = self.error(); LIB.monotone_free(self.h); raise Error("open: " + e)
    def error(self): return (LIB.monotone_error(self.h) or b"").decode()
    def sql(self, t):
        r = C.c_void_p()
        if LIB.monotone_execute(self.h, t.encode(), C.byref(r)): raise Error("%s: %s" % (t, self.error()))
        if r.value:
            s = C.string_at(r.value).decode(); free(r); return s
    def js(self, t): return json.loads(self.sql(t))
    def write(self, *list):
        a, keep = evs(list)
        if LIB.monotone_write(self.h, a, len(list)): raise Error("write: " + self.error())
        return [a[i].id for i in range(len(list))]
    def scan(self, key=None, limit=None):
        c = Cursor(self, key); out = []
        try:
            while limit is None or len(out) < limit:
                e = c.read()
                if e is not None: out.append(e)
                if e is None and not c.next(): break
                elif e is not None and not c.next(): break
        finally: c.close()
        return out
    def close(self): LIB.monotone_free(self.h); self.h = None
    def refresh(self): self.sql("refresh partitions between 0 and 18446744073709551615")
def expect(what, got, want):
    if got != want:
        print("FAIL %s: got %r want %r" % (what, got if len(repr(got)) < 500 else repr(got)[:500], want if len(repr(want)) < 500 else repr(want)[:500])); sys.exit(1)
