"""archives with 0-8 files, hash lists with paths of every shape (directories, dots, no extension, 1-300 characters, extensions up to 233), guessed extensions; resolve, name, sanitize, sanitize again"""
from lib import *
import os
from wadlib import *
import cdtb.wad as W

def name(rng):
    n = rng.choice([1, 2, 5, 100, 226, 227, 228, 231, 232, 233, 234, 240, 243, 244, 245, 246, 248, 249, 250, 251, 260, 300])
    base = "".join(rng.choice("abcXYZ_-0 é") for _ in range(n))
    ext = rng.choice(["", ".bin", ".tex", ".a.b", ".", ".wad.client", "." + "e" * rng.choice([1, 20, 100, 231, 232])])
    d = rng.choice(["", "a/", "assets/characters.x/", "/", "a/b.c/d/", "x" * 255 + "/"])
    pre = rng.choice(["", "", "", "."])
    return d + pre + base + ext

def generate(rng, hints):
    n = rng.choice([0, 1, 2, 3, 8])
    files = [(rng.choice([0, 1, 2**64 - 1, rng.randrange(2**64), rng.randrange(2**20)]), rng.choice([None, None, "", "png", "luabin64", "json"])) for _ in range(n)]
    files = list({h: e for h, e in files}.items())
    known = {h: name(rng) for h, e in files if rng.random() < .6}
    if rng.random() < .5: known[rng.randrange(2**64)] = "other/path.txt"
    return (files, known, rng.choice(["unknown", "", "a/b", "u n"]), rng.choice([3, 3, 1]))

def smaller(case):
    files, known, d, v = case
    for f in drop_one(files): yield (f, known, d, v)
    for h in known: yield (files, {k: x for k, x in known.items() if k != h}, d, v)

def check(case, tmp):
    files, known, d, v = case
    p = os.path.join(tmp, "x.wad.client")
    with open(p, "wb") as f:
        f.write(wad(v, [dict(path_hash=h, offset=0, csize=0, size=0, type=0, dup=0, sub=0, checksum=0) for h, _ in files], 0))
    w = W.Wad(p, dict(known))
    same([f.path for f in w.files], [known.get(h) for h, _ in files], "paths from the hash list")
    same([f.ext for f in w.files], [os.path.splitext(known[h])[1][1:] if h in known else None for h, _ in files], "extensions of known paths")
    # extensions are then guessed when there is none
    for f, (h, e) in zip(w.files, files):
        if not f.ext: f.ext = e
    exts = [f.ext for f in w.files]
    w2 = W.Wad(p, dict(known))
    for f, e in zip(w2.files, exts): f.ext = e
    w2.set_unknown_paths(d)
    want = [known.get(h) or (f"{d}/{format(h, '016x')}" + (f".{e}" if e else "")) for (h, _), e in zip(files, exts)]
    same([f.path for f in w2.files], want, "names of unknown files")
    w.sanitize_paths()
    once = [f.path for f in w.files]
    for f, (h, _), e in zip(w.files, files, exts):
        if h not in known or not known[h]:
            same(f.path, known.get(h), "a file without path is not sanitized")
            continue
        orig = known[h]
        x = os.path.splitext(orig)[1]
        full = orig if x else orig + ".cdtb" + (f".{e}" if e else "")
        x = x or ".cdtb" + (f".{e}" if e else "")
        if len(x) > 233: continue
        dn, bn = os.path.split(full)
        if len(bn) < 250:
            same(f.path, full, "short name")
        else:
            gd, gb = os.path.split(f.path)
            need(len(gb) <= 250, f"sanitized base name has {len(gb)} characters")
            same(gd, dn, "directory of a shortened name")
            need(gb.endswith(f".{h:016x}{x}"), f"hash and extension of a shortened name: {gb[-60:]}")
            stem = gb[:-len(f".{h:016x}{x}")]
            need(bn.startswith(stem) and len(stem) == 250 - 17 - len(x), "shortened name")
    w.sanitize_paths()
    for a, f, (h, _) in zip(once, w.files, files):
        if h in known and os.path.splitext(known[h])[1] and len(os.path.splitext(known[h])[1]) <= 233 and len(os.path.splitext(known[h])[1]) < 233:
            same(f.path, a, "sanitizing twice")
