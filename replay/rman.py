"""builder of release manifests (RMAN), independent of the code under test"""
import random, struct, zlib
import pyzstd

class Buf:
    """body with records laid out anywhere"""
    def __init__(self, r):
        self.b, self.r = bytearray(), r
    def pad(self):
        if self.r.random() < .3: self.b += bytes(self.r.randrange(256) for _ in range(self.r.randrange(1, 6)))
    def add(self, data):
        p = len(self.b)
        self.b += data
        return p
    def patch(self, at, target):
        struct.pack_into("<l", self.b, at, target - at)

VT_DIRS = ["directory_id", "parent_id", "name"]
VT_FILE = ["file_id", "directory_id", "file_size", "name", "flags", None, None, "chunks", None, "link", None, None, None]
SIZES = {"directory_id": "Q", "parent_id": "Q", "file_id": "Q", "file_size": "L", "flags": "Q", "bundle_id": "Q", "chunk_id": "Q", "compressed_size": "L", "uncompressed_size": "L"}

def record(b, names, values, extra=0):
    """field table; values: name -> int, str or callable(buf) -> position, None for absent. returns entry position"""
    r = b.r
    present = [i for i, n in enumerate(names) if n is not None and values.get(n) is not None]
    count = max([i + 1 for i in present], default=0)
    count = r.choice([count, count, len(names), len(names) + extra])
    b.pad()
    entry = b.add(b"\0" * 4)
    offs, fix = [0] * count, []
    order = list(present)
    r.shuffle(order)
    for i in range(count):
        if i < len(names) and names[i] is None and r.random() < .3: order.append(i)
    for i in order:
        b.pad()
        v = values.get(names[i]) if names[i] else 0
        if names[i] is None: p = b.add(b"\7\7\7\7")
        elif names[i] in SIZES: p = b.add(struct.pack("<" + SIZES[names[i]], v))
        else:
            p = b.add(b"\0" * 4)
            fix.append((p, v))
        offs[i] = p - entry
    end = len(b.b)
    b.pad()
    vt = b.add(struct.pack("<HH", 4 + 2 * count + r.choice([0, 0, 1]) * 0, end - entry) + struct.pack("<%dH" % count, *offs))
    struct.pack_into("<l", b.b, entry, entry - vt)
    for p, v in fix:
        b.pad()
        if isinstance(v, str):
            d = v.encode("utf-8")
            t = b.add(struct.pack("<L", len(d)) + d)
        else: t = v(b)
        b.patch(p, t)
    return entry

def table(b, entries):
    """entries: callables(buf) -> position"""
    t = b.add(struct.pack("<l", len(entries)) + b"\0" * (4 * len(entries)))
    for i, e in enumerate(entries):
        p = e(b)
        b.patch(t + 4 + 4 * i, p)
    return t

def body(spec, seed):
    """spec: dict(bundles=[(id, [(chunk id, size, target size)])], flags=[(id, text)], files=[dict(name, link, flags, dir, size, chunks)], dirs=[(id, parent, name)])"""
    r = random.Random(seed)
    b = Buf(r)
    n = r.choice([0, 4, 7])
    b.add(struct.pack("<l", n) + bytes(r.randrange(256) for _ in range(n)))
    base = b.add(b"\0" * 24)
    def bundle(x):
        bid, chunks = x
        mk = lambda c: lambda b: record(b, ["chunk_id", "compressed_size", "uncompressed_size"], dict(chunk_id=c[0], compressed_size=c[1], uncompressed_size=c[2]))
        return lambda b: record(b, ["bundle_id", "chunks_offset"], dict(bundle_id=bid, chunks_offset=lambda b: table(b, [mk(c) for c in chunks])))
    def flag(x):
        def f(b):
            b.pad()
            d = x[1].encode()
            p = b.add(b"\1\2\3\4" + b"\5\6\7" + bytes([x[0]]) + b"\0" * 4)
            b.pad()
            t = b.add(struct.pack("<L", len(d)) + d)
            b.patch(p + 8, t)
            return p
        return f
    def file(x):
        def chunks(b): return b.add(struct.pack("<L", len(x["chunks"])) + struct.pack("<%dQ" % len(x["chunks"]), *x["chunks"]))
        return lambda b: record(b, VT_FILE, dict(file_id=x.get("id", 1), directory_id=x["dir"], file_size=x["size"], name=x["name"], flags=x["flags"], chunks=chunks, link=x["link"]), extra=2)
    def directory(x): return lambda b: record(b, VT_DIRS, dict(directory_id=x[0], parent_id=x[1], name=x[2]), extra=1)
    for i, t in enumerate([[bundle(x) for x in spec["bundles"]], [flag(x) for x in spec["flags"]], [file(x) for x in spec["files"]], [directory(x) for x in spec["dirs"]], [], []]):
        b.pad()
        p = table(b, t)
        b.patch(base + 4 * i, p)
    return bytes(b.b)

def manifest(spec, seed, magic=b"RMAN", version=(2, 0)):
    raw = body(spec, seed)
    z = pyzstd.compress(raw)
    return magic + struct.pack("<BB", *version) + struct.pack("<HLLQL", 1 << 9 | (seed % 2), 28, len(z), seed, len(raw)) + z + (b"signature" if seed % 3 == 0 else b"")
