"""A small S3 endpoint on the loopback: checks every request, keeps objects in memory, fails on command."""
import socket, threading, hmac, hashlib, base64, re, struct, time, email.utils
from core import Viol

class S3:
    def __init__(self, access="AK", secret="SK"):
        self.access, self.secret = access, secret
        self.buckets, self.log, self.bad = {}, [], []
        self.lock = threading.RLock()
        self.fault = None           # (countdown, kind)
        self.fired = None
        self.stale, self.stales = 0, 0    # every n-th request on a reused connection meets a closed one
        self.prefix = "/base"       # path part of the configured url
        self.conns = set(); self.used = set(); self.alive = True; self.port = 0
        self.listen()
    def listen(self):
        s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        for _ in range(100):
            try: s.bind(("127.0.0.1", self.port)); break
            except OSError:
                time.sleep(.02)
        else: raise Exception("port busy")
        s.listen(64); self.port = s.getsockname()[1]; self.sock = s
        threading.Thread(target=self.accept, args=(s,), daemon=True).start()
    def url(self): return "http://127.0.0.1:%d%s" % (self.port, self.prefix)
    def down(self):
        """connections are refused from now on"""
        with self.lock:
            s, self.sock = self.sock, None
            if s:
                try: s.shutdown(socket.SHUT_RDWR)
                except OSError: pass
                s.close()
            for c in list(self.conns):
                try: c.shutdown(socket.SHUT_RDWR)
                except OSError: pass
    def up(self):
        if self.sock is None: self.listen()
    def close(self):
        self.alive = False; self.down()
    def accept(self, s):
        while self.alive:
            try: c, _ = s.accept()
            except OSError: return
            with self.lock: self.conns.add(c)
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()
    def serve(self, c):
        try:
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            f = c.makefile("rb"); c_used = self.used
            while self.one(c, f): c_used.add(c)
        except (OSError, ValueError): pass
        finally:
            with self.lock: self.conns.discard(c); self.used.discard(c)
            try: c.close()
            except OSError: pass
    def arm(self, nth, kind, method=None):
        with self.lock: self.fault = [nth, kind, method]; self.fired = None
    def disarm(self):
        with self.lock: self.fault = None
        self.up()
        time.sleep(.002)        # closed connections are seen as closed
        return self.fired
    def complain(self, text, req):
        self.bad.append("%s: %s" % (text, req))
    # ------------------------------------------------------------ one request
    def one(self, c, f):
        line = f.readline(65536)
        if not line: return False
        try: method, path, ver = line.decode("latin1").split()
        except ValueError: self.complain("request line", line); return False
        h = {}
        while True:
            l = f.readline(65536)
            if l in (b"\r\n", b"\n"): break
            if not l: return False
            k, _, v = l.decode("latin1").partition(":"); k = k.strip().lower()
            if k in h and h[k] != v.strip(): self.complain("header repeated", (method, path, k))
            h[k] = v.strip()
        n = int(h.get("content-length", "0") or 0)
        with self.lock:
            kind = None
            if self.stale and c in self.used and not self.fault:
                self.stales += 1
                if self.stales % self.stale == 0: kind = "close"
            if self.fault and (self.fault[2] in (None, method)):
                self.fault[0] -= 1
                if self.fault[0] == 0: kind = self.fault[1]; self.fault = None; self.fired = (method, path, kind, h.get("range"))
        if kind == "refuse": self.down(); return False
        if kind == "reset":
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); c.close(); return False
        if h.get("expect", "").lower() == "100-continue" and kind is None: c.sendall(b"HTTP/1.1 100 Continue\r\n\r\n")
        if kind == "early": n = 0       # answers before the body arrived
        body = b""
        while len(body) < n:
            d = f.read(n - len(body))
            if not d: return False
            body += d
        if kind == "close": return False
        if kind and kind.isdigit(): return self.reply(c, int(kind), b"<Error/>")
        if kind == "early": self.reply(c, 503, b"<Error/>"); return False
        st, out, extra = self.handle(method, path, h, body)
        with self.lock: self.log.append((method, path, h.get("range"), len(body), st))
        if kind == "lost": return False
        if kind == "short":
            self.head(c, st, len(out), extra); c.sendall(out[:len(out) // 2]); return False
        if kind == "one":
            self.head(c, st, len(out), extra); c.sendall(out[:-1]); return False
        if kind == "cut": return self.reply(c, st, out[:len(out) // 2], extra)
        if kind == "cut1": return self.reply(c, st, out[:-1], extra)
        if kind == "empty": return self.reply(c, st, b"", extra)
        if kind == "full" and h.get("range"):
            return self.reply(c, 200, self.obj(path) or b"", [])
        if kind == "more": return self.reply(c, st, out + b"x" * 7, extra)
        return self.reply(c, st, out, extra)
    def obj(self, path):
        b, _, o = path[len(self.prefix) + 1:].partition("/")
        with self.lock: return self.buckets.get(b, {}).get(o)
    def head(self, c, st, n, extra=()):
        c.sendall(("HTTP/1.1 %d X\r\nContent-Length: %d\r\n%s\r\n" % (st, n, "".join(x + "\r\n" for x in extra))).encode())
    def reply(self, c, st, body, extra=()):
        if st == 204: c.sendall(b"HTTP/1.1 204 X\r\n\r\n"); return True
        self.head(c, st, len(body), extra)
        if body: c.sendall(body)
        return True
    def handle(self, method, path, h, body):
        req = "%s %s %s" % (method, path, {k: v for k, v in h.items() if k in ("range", "date", "authorization", "content-type", "content-length")})
        if not path.startswith(self.prefix + "/"): self.complain("path outside of the configured url", req); return 404, b"", []
        res = path[len(self.prefix):]
        m = re.fullmatch(r"/([0-9a-f]{8}(?:-[0-9a-f]{4}){3}-[0-9a-f]{12})(?:/(\d{20}))?", res)
        if not m: self.complain("malformed resource", req); return 400, b"", []
        b, o = m.groups()
        # signature, computed from what was received
        want = "AWS %s:%s" % (self.access, base64.b64encode(hmac.new(self.secret.encode("latin1"), ("%s\n\n%s\n%s\n%s" % (
            method, h.get("content-type", ""), h.get("date", ""), res)).encode("latin1"), hashlib.sha1).digest()).decode())
        if h.get("authorization") != want: self.complain("wrong signature (expected %s)" % want, req); return 403, b"", []
        try:
            t = email.utils.parsedate_to_datetime(h.get("date", "")).timestamp()
            if not re.fullmatch(r"(Mon|Tue|Wed|Thu|Fri|Sat|Sun), \d\d \w{3} \d{4} \d\d:\d\d:\d\d GMT", h["date"]) or abs(t - time.time()) > 600: raise ValueError
        except (ValueError, TypeError, KeyError): self.complain("malformed or old date", req); return 403, b"", []
        if "host" not in h: self.complain("no host", req)
        if method not in ("GET", "PUT", "DELETE"): self.complain("method", req); return 405, b"", []
        if method == "PUT" and "content-length" not in h: self.complain("PUT without content-length", req); return 411, b"", []
        with self.lock:
            B = self.buckets
            if o is None:
                if method == "PUT": B.setdefault(b, {}); return 200, b"", []
                if method == "DELETE":
                    if b not in B: return 404, b"", []
                    if B[b]: return 409, b"<Error/>", []
                    del B[b]; return 204, b"", []
                return 200, b"", []
            if b not in B: return 404, b"<NoSuchBucket/>", []
            if method == "PUT": B[b][o] = body; return 200, b"", []
            if method == "DELETE": B[b].pop(o, None); return 204, b"", []
            d = B[b].get(o)
            if d is None: return 404, b"<NoSuchKey/>", []
            r = h.get("range")
            if r is None: return 200, d, []
            m = re.fullmatch(r"bytes=(\d+)-(\d+)", r)
            if not m: self.complain("malformed range", req); return 416, b"", []
            x, y = int(m[1]), int(m[2])
            if x > y or y >= len(d): self.complain("range outside of the object of %d bytes" % len(d), req)
            if x >= len(d): return 416, b"", []
            y = min(y, len(d) - 1)
            return 206, d[x:y + 1], ["Content-Range: bytes %d-%d/%d" % (x, y, len(d))]
    def check(self, why):
        if self.bad: raise Viol("s3-request", "%s: %s" % (why, self.bad[:3]))
