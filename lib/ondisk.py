"""The on-disk format, read and written independently of the code under test: partition files, cloud files, log files."""
import ctypes, os, struct, zlib
from pfile import IDX, IDXF, REG, REGF, TRAILER, _crc, aes_decrypt, decompress, _c, _z, _l
MAGIC = 0x20849615
RGN = struct.Struct("<II16x"); EVT = struct.Struct("<QBBI"); WREC = struct.Struct("<IQBII")
def crc(data, init=0): return _crc(data, init, 0)

_T8 = None
class Bad(Exception): pass
def need(x, *a):
    if not x: raise Bad(" ".join(str(y) for y in a))

# ---- values, as in harness/mnx.c
M64 = (1 << 64) - 1
_cache = {}
def gen(n, seed, kind):
    k = (n, seed, kind)
    if k in _cache: return _cache[k]
    x = (seed * 0x9E3779B97F4A7C15 + 0x1234567) & M64; out = []
    for i in range(0, n, 8):
        x ^= (x << 13) & M64; x ^= x >> 7; x ^= (x << 17) & M64
        v = x
        if kind == 1: v = (0x6161616161616161 + (seed & 15)) if (i // 64) & 1 else 0
        if kind == 2: v = x & 0x0303030303030303
        out.append(v)
    d = bytearray(struct.pack("<%dQ" % len(out), *out)[:n])
    d[:16] = struct.pack("<3sBII4x", b"GnV", kind, seed, n)
    if len(_cache) > 20000: _cache.clear()
    _cache[k] = bytes(d)
    return _cache[k]
def to_bytes(v):
    if v == "-": return b""
    if v[0] == "h": return bytes.fromhex(v[1:])
    s, n, k = v[1:].split(":"); return gen(int(n), int(s), int(k))
def of_bytes(d):
    if not d: return "-"
    if len(d) <= 64: return "h" + d.hex()
    if d[:3] == b"GnV" and d[3] < 3:
        seed, n = struct.unpack_from("<II", d, 4)
        if n == len(d) and gen(n, seed, d[3]) == d: return "g%d:%d:%d" % (seed, n, d[3])
    return "BAD:%d:%s" % (len(d), d[:40].hex())

# ---- codecs
for n in ("ZSTD_compress", "ZSTD_compressBound"): getattr(_z, n).restype = ctypes.c_size_t
for n in ("LZ4F_compressFrame", "LZ4F_compressFrameBound"): getattr(_l, n).restype = ctypes.c_size_t
NONE, ZSTD, LZ4 = None, None, None
def compress(kind, d, level=1):
    if kind == "zstd":
        n = _z.ZSTD_compressBound(ctypes.c_size_t(len(d))); out = ctypes.create_string_buffer(n)
        n = _z.ZSTD_compress(out, ctypes.c_size_t(n), d, ctypes.c_size_t(len(d)), level)
        return out.raw[:n]
    n = _l.LZ4F_compressFrameBound(ctypes.c_size_t(len(d)), None); out = ctypes.create_string_buffer(n)
    n = _l.LZ4F_compressFrame(out, ctypes.c_size_t(n), d, ctypes.c_size_t(len(d)), None)
    return out.raw[:n]
def encrypt(key, d, iv):
    ctx = ctypes.c_void_p(_c.EVP_CIPHER_CTX_new())
    try:
        _c.EVP_EncryptInit_ex(ctx, ctypes.c_void_p(_c.EVP_aes_256_gcm()), None, key.encode(), iv)
        out = ctypes.create_string_buffer(len(d) + 32); n = ctypes.c_int(0); m = ctypes.c_int(0)
        _c.EVP_EncryptUpdate(ctx, out, ctypes.byref(n), d, len(d))
        fin = ctypes.create_string_buffer(32); _c.EVP_EncryptFinal_ex(ctx, fin, ctypes.byref(m))
        tag = ctypes.create_string_buffer(16); _c.EVP_CIPHER_CTX_ctrl(ctx, 0x10, 16, tag)
        return iv + tag.raw + out.raw[:n.value]
    finally: _c.EVP_CIPHER_CTX_free(ctx)
COMP = {"": 0, "zstd": 1, "lz4": 2}
NAME = {v: k for k, v in COMP.items()}

# ---- partition files
def enc_event(f, i, k, v):
    kb, vb = bytes.fromhex(k), to_bytes(v)
    return EVT.pack(i, f, len(kb), len(kb) + len(vb)) + kb + vb

def pack_part(lo, hi, regions, comp="", key=None, rcrc=False, lsn=0, t0=0, t1=0, refreshes=0, ivs=None, level=1):
    """regions: lists of (id, key, value); bytes of the file, length of its index part"""
    def stored(d):
        if comp: d = compress(comp, d, level)
        if key: d = encrypt(key, d, ivs())
        return d
    body, index, events, origin = b"", b"", 0, 0
    for l in regions:
        evs = [enc_event(0, *e) for e in l]; off, pos = [], 0
        for e in evs: off.append(pos); pos += len(e)
        raw = struct.pack("<%dI" % len(off), *off) + b"".join(evs)
        raw = RGN.pack(RGN.size + len(raw), len(l)) + raw
        d = stored(raw)
        index += REG.pack(len(body), crc(d) if rcrc else 0, l[0][0], l[-1][0], len(d), len(raw), len(l))
        body += d; events += len(l); origin += len(raw)
    payload = stored(index) if index or comp or key else b""
    h = [0, crc(payload), MAGIC, 0, lo, hi, len(payload), len(index), len(body), origin, len(body) + len(payload) + TRAILER, origin + len(index) + TRAILER, len(regions), events, t0, t1, refreshes, lsn, COMP[comp], 1 if key else 0]
    h[0] = crc(IDX.pack(*h)[4:])
    return body + payload + IDX.pack(*h), len(payload) + TRAILER

def unpack_part(data, key=None, remote=None, spans=None):
    """index dict and [(id, key, value)], everything about the file verified; remote: data is the index of that file"""
    need(len(data) >= TRAILER, "short file")
    x = dict(zip(IDXF, IDX.unpack(data[-TRAILER:])))
    need(x["magic"] == MAGIC and x["version"] == 0, "magic or version", x)
    need(x["crc"] == crc(data[-TRAILER + 4:]), "index crc", x)
    need(data[-16:] == bytes(16), "reserved")
    full = data if remote is None else remote
    need(len(full) == x["size_total"] == x["size_regions"] + x["size"] + TRAILER, "size_total", len(full), x)
    if remote is not None:
        need(len(data) == x["size"] + TRAILER, "size of the cloud file", len(data), x)
        need(remote[-len(data):] == data, "the cloud file is not the tail of the object")
    payload = data[len(data) - TRAILER - x["size"]:len(data) - TRAILER]
    need(x["crc_data"] == crc(payload), "index data crc", x)
    need(x["compression"] in NAME and x["encryption"] in (0, 1), "codec", x)
    def plain(d, n):
        if x["encryption"]: d = aes_decrypt(key, d)
        if x["compression"]:
            m = d[:4]
            need(m == {"zstd": b"\x28\xb5\x2f\xfd", "lz4": b"\x04\x22\x4d\x18"}[NAME[x["compression"]]], "compression frame", m, x)
            d = decompress(x["compression"], d, n)
        need(len(d) == n, "size_origin", len(d), n)
        return d
    out, pos, origin = [], 0, 0
    if spans is None: spans = []
    ix = plain(payload, x["size_origin"]) if payload else b""
    need(len(ix) == x["regions"] * REG.size, "regions", x)
    for n in range(x["regions"]):
        r = dict(zip(REGF, REG.unpack(ix[n * REG.size:(n + 1) * REG.size])))
        need(r["offset"] == pos, "region offset", r, pos)
        d = full[pos:pos + r["size"]]; pos += r["size"]; origin += r["size_origin"]
        need(r["crc"] in (0, crc(d)), "region crc", r)
        d = plain(d, r["size_origin"])
        size, count = RGN.unpack(d[:RGN.size])
        need(size == len(d) and count == r["events"] > 0, "region header", size, count, r)
        need(d[8:24] == bytes(16), "region reserved")
        base = RGN.size + 4 * count; at = 0; l = []
        for o in struct.unpack_from("<%dI" % count, d, RGN.size):
            need(o == at, "event offset", o, at)
            i, f, ks, ds = EVT.unpack_from(d, base + o)
            need(f == 0 and ks <= ds and base + o + EVT.size + ds <= len(d), "event", i, f, ks, ds)
            b = d[base + o + EVT.size:base + o + EVT.size + ds]
            l.append((i, b[:ks].hex(), of_bytes(b[ks:]))); at = o + EVT.size + ds
        need(base + at == len(d), "bytes after the last event")
        need(r["min"] == l[0][0] and r["max"] == l[-1][0], "region range", r, l[0][:2], l[-1][:2])
        need(not out or out[-1][0] < l[0][0], "events of one id in two regions", l[0][:2])
        out += l; spans.append((r["offset"], r["size"], l[0][:2], l[-1][:2]))
    need(pos == x["size_regions"] and origin == x["size_regions_origin"] and x["events"] == len(out) and x["size_total_origin"] == origin + x["size_origin"] + TRAILER, "totals", x)
    return x, out

# ---- log files
def pack_write(lsn, evs, wcrc):
    body = b"".join(enc_event(*e) for e in evs)
    h = struct.pack("<QBII", lsn, 0, len(evs), WREC.size + len(body))
    return struct.pack("<I", crc(h, crc(body)) if wcrc else 0) + h + body
def pack_drop(lsn, lo, hi, wcrc, short):
    body = struct.pack("<Q", lo) + (b"" if short else struct.pack("<Q", hi))
    h = struct.pack("<QBII", lsn, 1, 0, WREC.size + len(body))
    return struct.pack("<I", crc(h, crc(body)) if wcrc else 0) + h + body
def unpack_log(data, wcrc, last):
    """[(lsn, events) or (lsn, (lo, hi or None))]"""
    out, pos = [], 0
    while pos + WREC.size <= len(data):
        c, lsn, type_, count, size = WREC.unpack_from(data, pos)
        need(size >= WREC.size, "record size", pos, size)
        if pos + size > len(data): break
        body = data[pos + WREC.size:pos + size]
        if wcrc: need(c == crc(data[pos + 4:pos + WREC.size], crc(body)), "record crc", lsn)
        if type_ == 1:
            need(count == 0 and len(body) in (8, 16), "drop record", lsn, count, len(body))
            out.append((lsn, struct.unpack("<QQ", body) if len(body) == 16 else (struct.unpack("<Q", body)[0], None)))
        else:
            need(type_ == 0, "record type", type_)
            evs, p = [], 0
            while p < len(body):
                i, f, ks, ds = EVT.unpack_from(body, p); b = body[p + EVT.size:p + EVT.size + ds]; p += EVT.size + ds
                need(len(b) == ds and ks <= ds and f in (0, 1), "record event", lsn, i, f, ks, ds)
                evs.append((f, i, b[:ks].hex(), of_bytes(b[ks:])))
            need(len(evs) == count > 0, "record count", lsn, count, len(evs))
            out.append((lsn, evs))
        pos += size
    need(last or pos == len(data), "a torn record in the middle of the log", pos, len(data))
    return out

def read_dir(path, storages, wal_interval, wcrc, keys, wal=True):
    """contents of a database directory: ({(id,key): value}, partitions, statistics)"""
    parts = {}
    dirs = {name: os.path.join(path, c["path"], c["uuid"]) for name, c in storages.items()}
    lists = {name: os.listdir(d) for name, d in dirs.items()}
    stand = {f for fs in lists.values() for f in fs if f.isdigit()}
    for name, d in dirs.items():
        fs = lists[name]
        for f in fs:
            # (.complete replaces a file which was removed already)
            if f.endswith(".complete"):
                if f[:-9] in stand: continue
            elif not f.isdigit() and not (f.endswith(".cloud") and f[:-6].isdigit()): continue
            i = int(f.split(".")[0]); need(len(f.split(".")[0]) == 20, "file name", f)
            if f.endswith(".cloud") and "%020d" % i in fs: continue
            data = open(os.path.join(d, f), "rb").read()
            remote = open(os.path.join(d, "mock", "%020d" % i), "rb").read() if f.endswith(".cloud") else None
            try: x, evs = unpack_part(data, keys.get(name), remote)
            except (Bad, ValueError, struct.error, KeyError) as e: raise Bad("%s: %s: %r" % (name, f, e))
            need(x["min"] == i, "name of", f, x)
            need(i not in parts, "partition is on two storages", f)
            need(all(x["min"] <= e[0] <= x["max"] for e in evs), "events outside the partition", f, x)
            need(all(a[:2] < b[:2] for a, b in zip(evs, evs[1:])), "order of the events", f)
            parts[i] = (x, evs, name, remote is not None)
    recs, last = [], 0
    if wal:
        fs = sorted(os.listdir(os.path.join(path, "wal")))
        for n, f in enumerate(fs):
            need(len(f) == 24 and f.endswith(".wal"), "log file name", f)
            l = unpack_log(open(os.path.join(path, "wal", f), "rb").read(), wcrc, n == len(fs) - 1)
            for lsn, x in l:
                need(lsn > last, "lsn", lsn, "after", last); need(lsn >= int(f[:20]), "lsn below the file's", f, lsn); last = lsn
            if n + 1 < len(fs): need(last < int(fs[n + 1][:20]), "lsn", last, "in the file before", fs[n + 1])
            recs += l
    starts = sorted(parts); mem = {}; used = 0
    import bisect
    def of(i):
        n = bisect.bisect_right(starts, i) - 1
        return starts[n] if n >= 0 and i <= parts[starts[n]][0]["max"] else None
    for lsn, x in recs:
        if isinstance(x, list):
            for f, i, k, v in x:
                p = of(i)
                if p is not None and parts[p][0]["lsn"] >= lsn: continue
                mem[i, k] = None if f & 1 else v; used += 1
        else:
            lo, hi = x
            if hi is None: hi = min(M64, lo + wal_interval - 1)
            for e in [e for e in mem if lo <= e[0] <= hi]: del mem[e]
            if lo in parts and parts[lo][0]["max"] == hi and 0 < parts[lo][0]["lsn"] < lsn: del parts[lo]; starts.remove(lo)
    out = {}
    for x, evs, n, c in parts.values():
        for i, k, v in evs: out[i, k] = v
    for e, v in mem.items():
        if v is None: out.pop(e, None)
        else: out[e] = v
    return out, parts, dict(records=len(recs), replayed=used, files=len(parts), lsn=max([last] + [p[0]["lsn"] for p in parts.values()]))
