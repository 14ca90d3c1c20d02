"""P08: Wad.parse_headers on an archive with arbitrary content D."""
from pyvc.contract import *

# layout of one directory entry: (field, offset, size) per version; the format description, not the code
V1 = dict(size=24, header=8, path_hash=(0, 8), offset=(8, 4), compressed_size=(12, 4), usize=(16, 4), type=(20, 4))
V2 = dict(size=32, header=100, path_hash=(0, 8), offset=(8, 4), compressed_size=(12, 4), usize=(16, 4), type=(20, 1), dup=(21, 1), sub=(22, 2), checksum=(24, 8))
V3 = dict(V2, header=268)
V34 = dict(V3, dup=None, subhi=(21, 1))


def spec(E, D, base, L):
    r = lambda f: M.le(E, D.base, base + L[f][0], L[f][1])
    t = r("type")
    out = dict(path_hash=r("path_hash"), offset=r("offset"), compressed_size=r("compressed_size"), size=r("usize"),
               type=t % 16, subchunk_count=(t / 16) % 16)
    out["duplicate"] = (r("dup") != 0) if L.get("dup") else False
    out["first_subchunk_index"] = None if "sub" not in L else r("sub") + 65536 * r("subhi") if "subhi" in L else r("sub")
    out["sha256"] = r("checksum") if "checksum" in L else None
    return out


def setup(E):
    def invariant(ctx):
        for lab, f, w in int_comps(ctx):
            if w == "int": ctx.cand(f"{lab} within the archive", lambda k, r, f=f: f(r) <= E.D.n)
    E.invariants.append(invariant)


def run(E):
    path = E.const("path", StrS)
    D = SB(fcall("fs_content", path, ret=ByteS), z3.IntVal(0), None)
    D.n = blen(D.base)
    E.D = D
    E.fact(D.n >= 0)
    E.fact(fcall("fs_readable", path, ret=BoolS))
    wad = obj(E, "wad.Wad", path=path, version=None, files=None)
    b = lambda i: M.byte_at(E, D, i)
    magic_ok = And(D.n >= 4, b(0) == ord("R"), b(1) == ord("W"))
    major, minor = b(2), b(3)
    st, v = call(E, E.getattr(wad, "parse_headers"))
    cases = [("1", major == 1, V1), ("2", major == 2, V2), ("3.0-3.3", And(major == 3, minor <= 3), V3), ("3.4", And(major == 3, minor >= 4), V34)]
    known = Or(major == 1, major == 2, major == 3)
    if st == "exc":
        if E.debug: print("exception", v)
        val = B(is_exc(E, v, "ValueError"))
        E.prove(Or(D.n < 4, magic_ok, val), "a wrong magic code is a ValueError")
        E.prove(Or(Not(magic_ok), known, val), "another major version is a ValueError")
        for nm, c, L in cases:
            n = M.le(E, D.base, z3.IntVal(L["header"]), 4)
            E.prove(Not(And(magic_ok, c, D.n >= L["header"] + 4, D.n >= L["header"] + 4 + n * L["size"])), f"a complete archive of version {nm} is accepted")
        E.cover("refused")
        return
    E.prove(And(magic_ok, known), "accepted archives have the magic code and a known version")
    ver = E.getattr(wad, "version")
    E.prove(And(I(ver[0]) == major, I(ver[1]) == minor), "the version is the header's")
    which = E.choose("version", [(nm, c) for nm, c, L in cases])
    nm, _, L = cases[which]
    E.cover("version " + nm)
    n = M.le(E, D.base, z3.IntVal(L["header"]), 4)
    E.prove(And(D.n >= L["header"] + 4, D.n >= L["header"] + 4 + n * L["size"]), "a truncated directory is refused")
    files = E.getattr(wad, "files")
    E.prove(I(M.length(E, files)) == n, f"one file per directory entry ({nm})")
    i = E.const("i", IntS)
    E.fact(And(i >= 0, i < n))
    f = M.getitem(E, files, i)
    want = spec(E, D, L["header"] + 4 + i * L["size"], L)
    for fld, w in want.items():
        got = E.getattr(f, fld)
        E.prove(same_value(E, got, w), f"{fld} ({nm})")


GOALS = [Goal("parse_headers", run, setup, covers=["refused", "version 1", "version 2", "version 3.0-3.3", "version 3.4"])]
