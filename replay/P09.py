"""archives with entries of every storage type (raw, gzip, redirection, zstd, subchunked with and without table), intact or with a subchunk cut, altered or mistabled, read, extracted and read through the archive"""
from lib import *
import os, struct, io
from wadlib import *
import cdtb.wad as W
from cdtb.wad import MalformedSubchunkError

def content(rng):
    return rng.choice([b"", b"\0", b"abc", rng.randbytes(rng.choice([1, 5, 40, 300])), b"a" * rng.choice([3, 200, 5000])])

def generate(rng, hints):
    t = rng.choice([0, 1, 2, 3, 4, 4, 4, 4, 4, rng.randrange(5, 16)])
    chunks = [(content(rng), rng.choice(["raw", "z", "z"])) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]) if t == 4 else 1)]
    damage = rng.choice([None, None, None, "cut", "flip", "hash", "short", "swap"]) if t == 4 else rng.choice([None, None, "cut"])
    return (t, chunks, rng.choice([0, 1, 3, 700, 70000]), damage, rng.randrange(8), rng.random() < .8, rng.choice([0, 7]), rng.choice(["header", "wad", "extract"]), rng.choice([0, 3, 4]))

def smaller(case):
    t, chunks, first, damage, which, toc, off, how, minor = case
    if first: yield (t, chunks, 0, damage, which, toc, off, how, minor)
    for c in drop_one(chunks):
        if c: yield (t, c, first, damage, which, toc, off, how, minor)

def build(t, chunks, first, damage, which, off):
    """stored bytes, table, expected content or 'malformed' """
    if t == 4:
        parts, table, expect = [], [b"\xaa" * 16] * first, b""
        bad = False
        for i, (c, how) in enumerate(chunks):
            z = c if how == "raw" else pyzstd.compress(c)
            if how == "z" and len(z) == len(c): how, z = "raw", c
            parts.append(z)
            table.append(struct.pack("<IIQ", len(z), len(c), xxh3_64_intdigest(z)))
        w = which % len(parts) if parts else 0
        if parts and damage == "flip" and parts[w]:
            b = bytearray(parts[w]); b[which * 7 % len(b)] ^= 1 << which; parts[w] = bytes(b); bad = True
        if parts and damage == "hash":
            t0 = bytearray(table[first + w]); t0[8 + which] ^= 1; table[first + w] = bytes(t0); bad = True
        if len(parts) > 1 and damage == "swap" and parts[0] != parts[1]:
            before = b"".join(parts); parts[0], parts[1] = parts[1], parts[0]; bad = b"".join(parts) != before
        stored = b"".join(parts)
        if parts and damage == "cut" and stored:
            stored = stored[:-1 - which % len(stored)]; bad = True
        return stored, b"".join(table) + b"\xbb" * 16, "malformed" if bad else b"".join(c for c, _ in chunks)
    c = chunks[0][0]
    if t == 0: return c, b"", c
    if t == 1: s = gzip.compress(c, mtime=0)
    elif t == 2: s = struct.pack("<L", len(c[:9])) + b"xxxxxxxxx"[:len(c[:9])]
    else: s = pyzstd.compress(c)
    if damage == "cut" and t in (1, 3): return s[:-1 - which % max(1, min(7, len(s) - 1))], b"", "error"
    return s, b"", None if t == 2 else c if t < 5 else "value"

def check(case, tmp):
    t, chunks, first, damage, which, toc, off, how, minor = case
    stored, table, want = build(t, chunks, first, damage, which, off)
    size = len(stored)
    body, plus = stored, b"TRAILING"
    if t == 4 and not toc:
        # one zstd frame, or something else
        whole = b"".join(c for c, _ in chunks)
        stored = pyzstd.compress(whole); want = whole
        if damage: stored = stored[:-1 - which % max(1, min(4, len(stored) - 1))]; want = "malformed"
        size = len(stored); table = None
    if not toc: table = None
    n = len(chunks) if t == 4 else 0
    typ = t | (n << 4)
    es = [dict(path_hash=5, offset=0, csize=size, size=0, type=typ, dup=0, sub=first, checksum=9)]
    if table is not None: es.append(dict(path_hash=6, offset=0, csize=len(table), size=len(table), type=0, dup=0, sub=0, checksum=1))
    base = 272 + 32 * len(es) + off
    es[0]["offset"] = base
    if table is not None: es[1]["offset"] = base + size + len(plus)
    if minor < 4 and first > 65535: first_ok = False
    else: first_ok = True
    data = wad(3, es, minor) + b"P" * off + stored + plus + (table or b"")
    p = os.path.join(tmp, "x.wad.client")
    with open(p, "wb") as f: f.write(data)
    if t == 4 and table is not None and not first_ok: return
    w = W.Wad(p, {5: "d/f.bin", 6: "x.subchunktoc"} if table is not None else {5: "d/f.bin"})
    if table is not None: same(w.subchunk_toc, table, "subchunk table")
    else: same(w.subchunk_toc, None, "subchunk table")
    f5 = w.files[0]
    out = os.path.join(tmp, "out", "f")
    with open(p, "rb") as f:
        f.seek(which)
        if how == "header": o = outcome(f5.read_data, f, w.subchunk_toc)
        elif how == "wad": o = outcome(w.read_file_data, f, f5)
        else: o = outcome(f5.extract, f, out, w.subchunk_toc)
    if how == "extract":
        left = open(out, "rb").read() if os.path.exists(out) else None
        if isinstance(want, bytes):
            same(o[:2], ("ok", None), "extract"); same(left, want, "extracted file")
        else:
            same(left, None, "no file written")
            if want in ("malformed", None): same(o[:2], ("ok", None), "extract")
            else: same(o[0], "exc", "extract")
            if want == "value": same(o[1], "ValueError", "unsupported type")
        return
    if isinstance(want, bytes) or want is None: same(o[:2], ("ok", want), "data")
    elif want == "malformed" and how == "wad": same(o[:2], ("ok", None), "malformed entry through the archive")
    elif want == "malformed": same(o[:2], ("exc", "MalformedSubchunkError"), "malformed entry")
    elif want == "value": same(o[:2], ("exc", "ValueError"), "unsupported type")
    else: same(o[0], "exc", "damaged entry")
