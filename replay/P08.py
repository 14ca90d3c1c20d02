"""archives of versions 0-5 with 0-6 random directory entries (boundary values included), complete or truncated, right or wrong magic codes, random header bytes"""
from lib import *
import os, struct
from wadlib import *
import cdtb.wad as W

def num(rng, bits):
    return rng.choice([0, 1, 2 ** bits - 1, 2 ** (bits - 1), rng.randrange(2 ** bits), rng.randrange(2 ** bits), rng.randrange(256)])

def generate(rng, hints):
    major = rng.choice([1, 2, 3, 3, 3, 3, rng.choice([0, 4, 5, 255])])
    minor = rng.choice([0, 1, 2, 3, 4, 4, 5, 255])
    n = rng.choice([0, 1, 2, 3, 6])
    es = [dict(path_hash=num(rng, 64), offset=num(rng, 32), csize=num(rng, 32), size=num(rng, 32), type=num(rng, 32) if major == 1 else num(rng, 8), dup=rng.choice([0, 1, 1, 255, 2]),
               sub=num(rng, 24), checksum=num(rng, 64)) for _ in range(n)]
    cut = rng.choice([None] * 3 + [0, 1, 2, rng.randrange(60), rng.randrange(400)])
    magic = rng.choice([b"RW"] * 8 + [b"RX", b"WR", b"\0\0", b"rw"])
    return (major, minor, es, cut, magic, rng.choice([0, 0, 5]), rbytes(rng, 264))

def smaller(case):
    major, minor, es, cut, magic, pad, head = case
    for e in drop_one(es): yield (major, minor, e, cut, magic, pad, head)
    if any(head): yield (major, minor, es, cut, magic, pad, bytes(264))

def check(case, tmp):
    major, minor, es, cut, magic, pad, head = case
    data = wad(major, es, minor, magic=magic, pad=pad, header=head)
    if cut is not None: data = data[:max(0, len(data) - cut)]
    p = os.path.join(tmp, "x.wad")
    with open(p, "wb") as f: f.write(data)
    o = outcome(W.Wad, p, {})
    full = {1: 8, 2: 100, 3: 268}.get(major, 0) + 4 + len(es) * entry_size(major)
    full = {1: 8 + 4, 2: 104, 3: 272}.get(major, 4) + len(es) * entry_size(major)
    if len(data) >= 4 and (magic != b"RW" or major not in (1, 2, 3)):
        same(o[:2], ("exc", "ValueError"), "wrong magic code or version")
        return
    # the entry count is at the end of the header
    if len(data) < full - 0:
        same(o[0], "exc", "truncated archive")
        return
    same(o[0], "ok", f"complete archive {short(o)}")
    w = o[1]
    same(w.version, (major, minor), "version")
    same(len(w.files), len(es), "number of files")
    for i, (f, e) in enumerate(zip(w.files, es)):
        want = dict(path_hash=e["path_hash"], offset=e["offset"], compressed_size=e["csize"], size=e["size"], type=e["type"] & 15, subchunk_count=e["type"] >> 4 & 15)
        if major == 1: want.update(duplicate=False, first_subchunk_index=None, sha256=None)
        elif major == 2 or minor < 4: want.update(duplicate=e["dup"] != 0, first_subchunk_index=e["sub"] & 0xffff, sha256=e["checksum"])
        else: want.update(duplicate=False, first_subchunk_index=e["sub"], sha256=e["checksum"])
        same({k: getattr(f, k) for k in want}, want, f"entry {i}")
