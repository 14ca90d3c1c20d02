"""random manifests (bundles with any number of chunks, flags up to bit 63, nested directories, links, absent fields and shortened field tables, unused fields, gaps between records), read from a path or from an open file, with right and wrong magic codes, versions and lengths"""
from lib import *
import os, io, json, random, struct
import rman
from cdtb.patcher import PatcherManifest

NAMES = ["a.txt", "b", "c.wad.client", "", "é.bin", "x" * 40, "a/b"]

def generate(rng, hints):
    nb = rng.choice([0, 1, 2, 3])
    ids = rng.sample(range(1, 60), 40)
    if rng.random() < .5: ids = [i if rng.random() < .5 else rng.randrange(2 ** 64) for i in ids]
    bundles = []
    for b in range(nb):
        bundles.append((rng.choice([b, rng.randrange(2 ** 64)]), [(ids.pop(), rng.choice([0, 1, 100, 2 ** 32 - 1, rng.randrange(2 ** 20)]), rng.randrange(2 ** 32)) for _ in range(rng.choice([0, 1, 2, 4]))]))
    cids = [c[0] for b in bundles for c in b[1]]
    nd = rng.choice([0, 1, 2, 4])
    dids = rng.sample([0] + list(range(1, 9)), nd)
    dirs = [(d, rng.choice([None] + dids[:i]), rng.choice(["d", "data", "x y", f"d{i}"])) for i, d in enumerate(dids)]
    rng.shuffle(dirs)
    bits = rng.sample(range(64), 6)
    files = []
    for i in range(rng.choice([0, 1, 2, 4])):
        mask = rng.choice([None, 0, 1 << bits[0], sum(1 << b for b in rng.sample(bits, 3))])
        files.append((rng.choice(NAMES), rng.choice([None, None, "", "to"]), mask, rng.choice([None] + dids), rng.choice([None, 0, 7, 2 ** 32 - 1]), [rng.choice(cids) for _ in range(rng.choice([0, 1, 3]))] if cids else []))
    flags = [(b + 1, rng.choice(["en_US", "windows", "é", ""]) + str(b)) for b in bits]
    rng.shuffle(flags)
    magic = rng.choice(["RMAN"] * 12 + ["RMAM", "rman", "NAMR"])
    version = rng.choice([(2, 0)] * 8 + [(2, 1)] * 6 + [(2, 2), (1, 0), (0, 2), (3, 0), (20, 0)])
    return (bundles, flags, dirs, files, magic, version, rng.choice(["path", "bytes", "file", "offset"]), rng.randrange(10 ** 6))

def smaller(case):
    bundles, flags, dirs, files, *rest = case
    for f in drop_one(files): yield (bundles, flags, dirs, f, *rest)
    used = {c for f in files for c in f[5]}
    for i, b in enumerate(bundles):
        for c in drop_one(b[1]):
            if used <= {x[0] for j, y in enumerate(bundles) for x in (c if j == i else y[1])}: yield (bundles[:i] + [(b[0], c)] + bundles[i + 1:], flags, dirs, files, *rest)
    for i, f in enumerate(files):
        if f[5]: yield (bundles, flags, dirs, files[:i] + [f[:5] + (f[5][:-1],)] + files[i + 1:], *rest)

def check(case, tmp):
    bundles, flags, dirs, files, magic, version, how, seed = case
    spec = dict(bundles=bundles, flags=flags, dirs=dirs, files=[dict(name=n, link=l, flags=m, dir=d, size=s, chunks=c) for n, l, m, d, s, c in files])
    raw = rman.manifest(spec, seed, magic.encode(), version)
    if how == "path":
        p = tmp + "/x.manifest"
        open(p, "wb").write(raw)
        src = p
    elif how == "file":
        open(tmp + "/y", "wb").write(raw)
        src = open(tmp + "/y", "rb")
    else: src = io.BytesIO(raw)
    o = outcome(PatcherManifest, src)
    if magic != "RMAN" or version not in ((2, 0), (2, 1)):
        need(o[0] == "exc", f"magic {magic} version {version} is accepted")
        same(o[1], "ValueError", f"error for magic {magic} version {version}")
        return
    if o[0] == "exc": raise o[2]
    m = o[1]
    same([b.bundle_id for b in m.bundles], [b[0] for b in bundles], "bundles")
    for b, w in zip(m.bundles, bundles):
        off, want = 0, []
        for c in w[1]:
            want.append((c[0], off, c[1], c[2]))
            off += c[1]
        same([(c.chunk_id, c.offset, c.size, c.target_size) for c in b.chunks], want, "chunks (id, offset, size, target size)")
        need(all(c.bundle is b for c in b.chunks), "a chunk belongs to another bundle")
    every = {c.chunk_id: c for b in m.bundles for c in b.chunks}
    same(m.flags, dict(flags), "flags")
    byid = {d[0]: d for d in dirs}
    want = {}
    for n, l, mask, d, s, c in files:
        while d is not None: n, d = byid[d][2] + "/" + n, byid[d][1]
        want[n] = (l, s, [dict(flags)[i + 1] for i in range(64) if mask >> i & 1] if mask else None, c)
    same(sorted(m.files), sorted(want), "paths of the files")
    for n, (l, s, fl, c) in want.items():
        f = m.files[n]
        same((f.name, f.link, f.size), (n, l, s), f"name, link and size of {n}")
        need(f.link is None or l is not None, "link")
        same(f.flags if f.flags is None else sorted(f.flags), fl if fl is None else sorted(fl), f"flags of {n}")
        same([x.chunk_id for x in f.chunks], c, f"chunks of {n}")
        need(all(x is every[x.chunk_id] for x in f.chunks), f"chunks of {n} are not those of the bundles")
