"""P19: TexConverter.tex_to_dds on arbitrary data."""
from pyvc.contract import *

# pixel format code -> (fourcc or None, DXGI format of the extended header, block edge, bytes per block)
FORMATS = {0x0a: (b"DXT1", None, 4, 8), 0x0c: (b"DXT5", None, 4, 16), 0x0d: (b"DX10", 99, 4, 16), 0x0e: (b"DX10", 84, 4, 16),
           0x14: (None, None, 1, 4), 0x15: (b"DX10", 13, 1, 8)}
NO_MIPMAPS = {0x15}      # only supported without mipmaps


def u32(v): return list(int(v).to_bytes(4, "little"))


def header(fmt, width, height):
    """expected header: bytes, or (value, index) for the 4 bytes of a number"""
    fourcc, dxgi, _, _ = FORMATS[fmt]
    num = lambda v: [(v, i) for i in range(4)]
    out = list(b"DDS ") + u32(124) + u32(0x1007) + num(height) + num(width) + [0] * 56
    if fourcc: out += u32(32) + u32(4) + list(fourcc) + [0] * 20
    else: out += u32(32) + u32(0x41) + u32(0) + u32(32) + u32(0xff0000) + u32(0xff00) + u32(0xff) + u32(0xff000000)
    out += u32(0x1000) + [0] * 16
    if dxgi is not None: out += u32(dxgi) + u32(3) + u32(0) + u32(1) + u32(1)
    return out


def run(E, only):
    """only: the format of this goal, None for all others"""
    E.byte_axioms()
    D = symbytes(E, "data")
    E.fact(M.byte_at(E, D, 9) == only if only is not None else And(*[M.byte_at(E, D, 9) != f for f in FORMATS]))
    st, v = call(E, func(E, "export.TexConverter.tex_to_dds"), D)
    b = lambda i: M.byte_at(E, D, i)
    le2 = lambda p: M.le(E, D.base, z3.IntVal(p), 2)
    magic = And(D.n >= 12, *[b(i) == x for i, x in enumerate(b"TEX\0")])
    width, height, fmt, mips = le2(4), le2(6), b(9), b(11) != 0
    supported = Or(*[And(fmt == f, Or(Not(mips), B(f not in NO_MIPMAPS))) for f in FORMATS])
    if st == "exc":
        E.prove(Not(And(magic, supported)), "a texture of a supported format is converted")
        E.prove(B(is_exc(E, v, E.cls("export.FileConversionError"))), "other data is refused with a conversion error")
        E.cover("refused")
        return
    E.prove(magic, "data that is too short or has a wrong magic code is refused")
    E.prove(supported, "unsupported formats are refused")
    if only is None: return
    f = only
    _, _, bs, per = FORMATS[f]
    r = bytes_term(E, v)
    want = header(f, width, height)
    k = len(want)
    conc = [(i, w) for i, w in enumerate(want) if isinstance(w, int)]
    E.prove(blen(r) >= k, "the header is complete")
    E.prove(z3.Not(z3.Or(*[bat(r, i) != w for i, w in conc])), "the header describes the texture's pixel format")
    for nm, val in (("height", height), ("width", width)):
        at = [i for i, w in enumerate(want) if isinstance(w, tuple) and w[0] is val]
        E.prove(z3.Sum([bat(r, i) * 256 ** q for q, i in enumerate(at)]) == val, f"the header has the texture's {nm}")
    size = per * ((width + bs - 1) / bs) * ((height + bs - 1) / bs)
    j = E.const("j", IntS)
    E.fact(j >= 0)
    if E.branch(mips, "mipmaps"):
        E.fact(And(width > 0, height > 0))
        E.fact(And((width + bs - 1) / bs >= 1, (height + bs - 1) / bs >= 1))
        E.fact(size >= per)
        E.fact(size <= D.n)
        E.prove(blen(r) == k + size, "the pixels of the largest level follow the header")
        E.fact(j < size)
        E.prove(bat(r, k + j) == bat(D.base, D.n - size + j), "the pixels are the last bytes of the data")
        E.cover(f"{f:x} with mipmaps")
    else:
        E.prove(blen(r) == k + D.n - 12, "all data after the TEX header follows the header")
        E.fact(j < D.n - 12)
        E.prove(bat(r, k + j) == bat(D.base, 12 + j), "the pixels are the data after the TEX header")
        E.cover(f"{f:x} without mipmaps")


def goal(f):
    covers = ["refused"] + ([] if f is None else [f"{f:x} without mipmaps"] + ([] if f in NO_MIPMAPS else [f"{f:x} with mipmaps"]))
    return Goal(f"tex_to_dds ({'other formats' if f is None else hex(f)})", lambda E: run(E, f), covers=covers)


GOALS = [goal(f) for f in FORMATS] + [goal(None)]
ASSUMPTIONS = ["for textures with mipmaps: width and height are not zero and the data holds the largest level",
               "termination of the loop counting mipmap levels is not shown (its result is not used)"]
