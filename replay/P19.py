"""random textures of all pixel formats (and unknown ones) with and without mipmaps, dimensions 1 to 300 and at the 16-bit limits, complete or too short, right or wrong magic codes"""
from lib import *
import struct
import cdtb.export as X

FORMATS = {0x0a: (b"DXT1", None, 4, 8), 0x0c: (b"DXT5", None, 4, 16), 0x0d: (b"DX10", 99, 4, 16), 0x0e: (b"DX10", 84, 4, 16),
           0x14: (None, None, 1, 4), 0x15: (b"DX10", 13, 1, 8)}

def levels(fmt, w, h):
    """sizes of the images, largest first"""
    _, _, bs, per = FORMATS[fmt]
    out = []
    while True:
        out.append(per * -(-w // bs) * -(-h // bs))
        if w == 1 and h == 1: return out
        w, h = max(1, w // 2), max(1, h // 2)

def dim(rng, hints):
    return rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, rng.randrange(1, 40), rng.randrange(1, 300), rng.choice([256, 257, 512, 1000])])

def generate(rng, hints):
    fmt = rng.choice(list(FORMATS) * 3 + [0, 1, 0x0b, 0x13, 0x16, 0xff, rng.randrange(256)])
    w, h = dim(rng, hints), dim(rng, hints)
    if rng.random() < .05: w = rng.choice([65535, 32768, 40000])
    elif rng.random() < .05: h = rng.choice([65535, 32768, 40000])
    if w > 1000: h = rng.choice([1, 2, 3, 4, 5])
    if h > 1000: w = rng.choice([1, 2, 3, 4, 5])
    mips = rng.choice([0, 1, 1, rng.choice([2, 255])])
    magic = rng.choice([b"TEX\0"] * 12 + [b"TEX\1", b"TEX ", b"DDS ", b"XTEX"])
    return (fmt, w, h, mips, magic, rng.choice([None] * 10 + [rng.randrange(14)]), rng.randrange(256), rng.randrange(256), rng.randrange(256), rng.randrange(10 ** 6), rng.choice([0, 0, 1, 5]))

def smaller(case):
    fmt, w, h, mips, magic, cut, x, y, z, seed, more = case
    if x or y or z: yield (fmt, w, h, mips, magic, cut, 0, 0, 0, seed, more)
    for a in {1, w // 2, w - 1} - {0, w}: yield (fmt, a, h, mips, magic, cut, x, y, z, seed, more)
    for a in {1, h // 2, h - 1} - {0, h}: yield (fmt, w, a, mips, magic, cut, x, y, z, seed, more)

def check(case, tmp):
    fmt, w, h, mips, magic, cut, x, y, z, seed, more = case
    import random
    r = random.Random(seed)
    if fmt in FORMATS and mips:
        ls = levels(fmt, w, h)
        pixels = b"".join(r.randbytes(n) for n in reversed(ls))     # the smallest level comes first
        if more and len(ls) > 2: pixels = pixels[sum(ls[more:]) if sum(ls[more:]) < len(pixels) - ls[0] else 0:]
        want = pixels[len(pixels) - ls[0]:]
    else: want = pixels = r.randbytes(r.randrange(200))
    data = struct.pack("<4sHHBBBB", magic, w, h, x, fmt, y, mips) + pixels
    if cut is not None: data, want = data[:cut], data[12:cut]
    o = outcome(X.TexConverter.tex_to_dds, data)
    bad = len(data) < 12 or magic != b"TEX\0" or fmt not in FORMATS
    if bad:
        same(o[:2], ("exc", "FileConversionError"), "refused data")
        return
    if fmt == 0x15 and mips:
        same(o[:2], ("exc", "FileConversionError"), "format without mipmap support")
        return
    if cut is not None and mips: return
    same(o[0], "ok", f"supported texture {short(o)}")
    dds = o[1]
    fourcc, dxgi, _, _ = FORMATS[fmt]
    hd = b"DDS " + struct.pack("<7L44x", 124, 0x1007, h, w, 0, 0, 0)
    if fourcc: hd += struct.pack("<LL4s20x", 32, 4, fourcc)
    else: hd += struct.pack("<8L", 32, 0x41, 0, 32, 0xff0000, 0xff00, 0xff, 0xff000000)
    hd += struct.pack("<L16x", 0x1000)
    assert len(hd) == 128
    if dxgi is not None: hd += struct.pack("<5L", dxgi, 3, 0, 1, 1)
    same(dds[:len(hd)], hd, "DDS header")
    same(dds[len(hd):] == want, True, f"pixels ({len(dds) - len(hd)} bytes, {len(want)} expected)")
