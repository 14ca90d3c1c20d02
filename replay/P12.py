"""BIN objects with 0-6 fields over a few name hashes (duplicates included), looked up and assigned by name in any letter case, by number and by hashed values; names up to 40 ASCII characters hashed; the hash is compared with an independent FNV-1a"""
from lib import *
import pathlib
import cdtb.hashes, cdtb.binfile as bf
from cdtb.hashes import HashFile

NAMES = ["mName", "mname", "SPELL", "x", "", "Champion/Records", "a_b.c"]

def fnv(s):
    h = 2166136261
    for c in s:
        o = ord(c)
        if 65 <= o <= 90: o += 32
        h = ((h ^ o) * 16777619) & 0xffffffff
    return h

def generate(rng, hints):
    if rng.random() < .15:
        return ("hash", "".join(chr(rng.randrange(128)) for _ in range(rng.randrange(40))))
    if rng.random() < .2:
        hs = [rng.choice([0, 1, fnv("x"), rng.randrange(2 ** 32)]) for _ in range(2)]
        cs = [rng.choice(["BinHashValue", "BinEntryPath", "BinFieldName", "BinTypeName", "BinPathValue"]) for _ in range(2)]
        return ("values", hs, cs, rng.choice([[], hs, hs[:1]]))
    fields = [rng.choice(NAMES) for _ in range(rng.randrange(7))]
    n = rng.choice(NAMES)
    how = rng.choice(["name", "number", "BinFieldName", "BinHashValue", "BinEntryPath"])
    ops = [rng.choice(["get", "set"]) for _ in range(rng.randrange(1, 4))]
    return ("fields", rng.choice(["BinEntry", "BinStruct", "BinEmbedded"]), fields, [(op, rng.choice(NAMES), how) for op in ops], rng.choice([[], NAMES[:2], NAMES]))

def smaller(case):
    if case[0] == "fields":
        for f in drop_one(case[2]): yield case[:2] + (f,) + case[3:]
        for f in drop_one(case[3]):
            if f: yield case[:3] + (f,) + case[4:]

def key(n, how):
    if how == "name": return n
    if how == "number": return fnv(n)
    return getattr(bf, how)(fnv(n))

def setknown(names):
    t = {fnv(x): x for x in names}
    for x in ("binentries", "binhashes", "binfields", "bintypes", "binpaths"):
        getattr(bf, "hashfile_" + x).hashes = dict(t)

def check(case, tmp):
    if case[0] == "hash":
        setknown([])
        same(bf.compute_binhash(case[1]), fnv(case[1]), "hash of a name")
        return
    if case[0] == "values":
        setknown([])
        _, hs, cs, known = case
        for x in ("binentries", "binhashes", "binfields", "bintypes", "binpaths"): getattr(bf, "hashfile_" + x).hashes = {h: "name" for h in known}
        a, b = [getattr(bf, c)(h) for c, h in zip(cs, hs)]
        same((a == b, b == a, a != b), (hs[0] == hs[1], hs[0] == hs[1], hs[0] != hs[1]), "comparison of hashed values")
        if hs[0] == hs[1]: same(hash(a), hash(b), "hashes of equal hashed values")
        return
    _, cls, names, ops, known = case
    setknown(known)
    fields = [bf.BinField(fnv(n), bf.BinType.U32, i) for i, n in enumerate(names)]
    C = getattr(bf, cls)
    o = C(1, 2, list(fields)) if cls == "BinEntry" else C(2, list(fields))
    for step, (op, n, how) in enumerate(ops):
        k = key(n, how)
        hit = [f for f in fields if f.name.h == fnv(n)]
        if op == "get":
            got = outcome(o.__getitem__, k)
            if hit: need(got[0] == "ok" and got[1] is hit[0], f"lookup of {n}: not the first field with the hash")
            else: same(got[:2], ("exc", "KeyError"), f"lookup of the absent {n}")
            same(k in o, bool(hit), f"membership of {n}")
            d = object()
            need(o.get(k, d) is (hit[0] if hit else d), f"lookup of {n} with default")
            need(o.get(k) is (hit[0] if hit else None), f"lookup of {n} with default None")
            need(o.getv(k, d) is (hit[0].value if hit else d) or hit and o.getv(k, d) == hit[0].value, f"value of {n} with default")
            if n == "mName" and not hit: need(o.getv(k) is None, "value without default")
        else:
            new = bf.BinField(fnv(n), bf.BinType.U32, 100 + step)
            o[k] = new
            if hit: fields[next(i for i, f in enumerate(fields) if f is hit[0])] = new
            else: fields.append(new)
        need(len(o.fields) == len(fields) and all(x is y for x, y in zip(o.fields, fields)), f"fields after {op} of {n}: {[f.value for f in o.fields]}, expected {[f.value for f in fields]}")
        same([(f.name.h, f.value) for f in o.fields], [(f.name.h, f.value) for f in fields], "content of the fields")
