"""Partition file format, read and rewritten independently of the code under test."""
import ctypes, struct, zlib
IDX = struct.Struct("<IIIIQQIIQQQQIQQQIQBB16x")
IDXF = "crc crc_data magic version min max size size_origin size_regions size_regions_origin size_total size_total_origin regions events time_create time_refresh refreshes lsn compression encryption".split()
REG = struct.Struct("<IIQQIII16x")
REGF = "offset crc min max size size_origin events".split()
TRAILER = IDX.size
assert TRAILER == 130 and REG.size == 52

def crc32c_table():
    t = []
    for i in range(256):
        c = i
        for _ in range(8): c = (c >> 1) ^ (0x82f63b78 if c & 1 else 0)
        t.append(c)
    return t
_T = crc32c_table()
def _crc(data, init, fin):
    c = init
    for b in data: c = _T[(c ^ b) & 255] ^ (c >> 8)
    return c ^ fin

class Pfile:
    def __init__(self, data, key=None):
        self.data = bytearray(data)
        self.index = dict(zip(IDXF, IDX.unpack(data[-TRAILER:])))
        if self.index["magic"] != 0x20849615: raise ValueError("magic")
    def index_span(self):
        n = len(self.data) - TRAILER
        return n - self.index["size"], n
    def encrypted_spans(self, key):
        """[(start,end)] of each encrypted block (regions, then the index)"""
        a, b = self.index_span()
        if not self.index["size"]: return []
        d = aes_decrypt(key, bytes(self.data[a:b]))
        if self.index["compression"]: d = decompress(self.index["compression"], d, self.index["size_origin"])
        out = []
        for i in range(self.index["regions"]):
            r = dict(zip(REGF, REG.unpack(d[i * REG.size:(i + 1) * REG.size])))
            out.append((r["offset"], r["offset"] + r["size"]))
        self.region_crc = any(REG.unpack(d[i * REG.size:(i + 1) * REG.size])[1] for i in range(self.index["regions"]))
        return out + [(a, b)]

_c = ctypes.CDLL("libcrypto.so.3")
for n in ("EVP_CIPHER_CTX_new", "EVP_aes_256_gcm"): getattr(_c, n).restype = ctypes.c_void_p
def aes_decrypt(key, blob):
    iv, tag, d = blob[:16], blob[16:32], blob[32:]
    ctx = ctypes.c_void_p(_c.EVP_CIPHER_CTX_new())
    try:
        if not _c.EVP_DecryptInit_ex(ctx, ctypes.c_void_p(_c.EVP_aes_256_gcm()), None, key.encode(), iv): raise ValueError("init")
        out = ctypes.create_string_buffer(len(d) + 32); n = ctypes.c_int(0)
        if not _c.EVP_DecryptUpdate(ctx, out, ctypes.byref(n), d, len(d)): raise ValueError("update")
        _c.EVP_CIPHER_CTX_ctrl(ctx, 0x11, 16, tag)
        m = ctypes.c_int(0); fin = ctypes.create_string_buffer(32)
        if _c.EVP_DecryptFinal_ex(ctx, fin, ctypes.byref(m)) <= 0: raise ValueError("tag does not verify")
        return out.raw[:n.value]
    finally: _c.EVP_CIPHER_CTX_free(ctx)

_z = ctypes.CDLL("libzstd.so.1"); _l = ctypes.CDLL("liblz4.so.1"); _z.ZSTD_decompress.restype = ctypes.c_size_t
_l.LZ4F_createDecompressionContext.restype = ctypes.c_size_t; _l.LZ4F_decompress.restype = ctypes.c_size_t
def decompress(kind, d, size):
    out = ctypes.create_string_buffer(size)
    if d[:4] == b"\x28\xb5\x2f\xfd":
        n = _z.ZSTD_decompress(out, ctypes.c_size_t(size), d, ctypes.c_size_t(len(d)))
        if n != size: raise ValueError("zstd")
        return out.raw
    if d[:4] == b"\x04\x22\x4d\x18":
        ctx = ctypes.c_void_p(); _l.LZ4F_createDecompressionContext(ctypes.byref(ctx), 100)
        a = ctypes.c_size_t(size); b = ctypes.c_size_t(len(d))
        _l.LZ4F_decompress(ctx, out, ctypes.byref(a), d, ctypes.byref(b), None); _l.LZ4F_freeDecompressionContext(ctx)
        if a.value != size: raise ValueError("lz4f")
        return out.raw
    n = _l.LZ4_decompress_safe(d, out, len(d), size)
    if n != size: raise ValueError("lz4 %d" % n)
    return out.raw

def crc_kind(pf):
    """(init, xor) matching a good file"""
    for i, f in ((0, 0), (0xffffffff, 0xffffffff), (0, 0xffffffff), (0xffffffff, 0)):
        if _crc(bytes(pf.data[-TRAILER + 4:]), i, f) == pf.index["crc"]: return i, f
    raise ValueError("crc kind")

def fix_crc(pf, kind):
    """recomputes the unkeyed checksums of the index after a change"""
    a, b = pf.index_span()
    struct.pack_into("<I", pf.data, len(pf.data) - TRAILER + 4, _crc(bytes(pf.data[a:b]), *kind))
    struct.pack_into("<I", pf.data, len(pf.data) - TRAILER, _crc(bytes(pf.data[-TRAILER + 4:]), *kind))
