"""pairs of exports with plain files and archives in common, other stored files, checksums equal, different or unknown; filters by path; output directories holding files, links (to files, directories, nothing) and directories that are to be kept or not"""
from lib import *
import os
from cdtb.export import Exporter

PATHS = ["a", "b/c", "b/d", "x/y/z", "é"]
SHA = [None, b"\1" * 8, b"\2" * 8, b"\3" * 8]

class WF:
    def __init__(self, h, sha, path): self.path_hash, self.sha256, self.path, self.type = h, sha, path, 0

class W:
    def __init__(self, path, files): self.path, self.files = path, files

def wad(rng):
    return (rng.choice("pqr"), [(h, rng.randrange(4), rng.choice([None, f"f{h}", f"g{h}"])) for h in rng.sample(range(1, 9), rng.choice([0, 1, 2, 4]))])

def export(rng):
    return ([(p, rng.choice("stu")) for p in rng.sample(PATHS, rng.randrange(0, 5))], [(p,) + wad(rng) for p in rng.sample(PATHS, rng.randrange(0, 4))])

NAMES = ["a", "b", "c.txt", "d"]
def tree(rng, depth=0):
    out = []
    for n in rng.sample(NAMES, rng.choice([0, 1, 2, 3, 4])):
        k = rng.choice(["file", "file", "link", "dirlink", "broken", "dir", "dir"])
        if k == "dir": out.append((n, "dir", tree(rng, depth + 1) if depth < 3 else []))
        else: out.append((n, k, None))
    return out

def walk(t, base=""):
    for n, k, sub in t:
        yield base + n, k
        if k == "dir": yield from walk(sub, base + n + "/")

def generate(rng, hints):
    what = rng.choice(["compare", "compare", "filter", "clean"])
    if what == "compare":
        a = export(rng)
        return (what, a, export(rng) if rng.random() < .8 else a, None)
    if what == "filter":
        return (what, export(rng), rng.sample(PATHS + [None] + [f"f{h}" for h in range(1, 9)], rng.randrange(0, 12)), None)
    t = tree(rng)
    ps = [p for p, _ in walk(t)] + ["a", "q", "a/b", "d/d/d/d"]
    return (what, t, rng.sample(ps, rng.randrange(len(ps) + 1)), rng.sample(ps, rng.randrange(len(ps) + 1)))

def smaller(case):
    what, a, b, c = case
    if what == "compare":
        for i in range(2):
            for x in drop_one(a[i]): yield (what, (x, a[1]) if i == 0 else (a[0], x), b, c)
            for x in drop_one(b[i]): yield (what, a, (x, b[1]) if i == 0 else (b[0], x), c)
    if what == "filter":
        for i in range(2):
            for x in drop_one(a[i]): yield (what, (x, a[1]) if i == 0 else (a[0], x), b, c)
    if what == "clean":
        for x in drop_one(a): yield (what, x, b, c)
        for x in drop_one(b): yield (what, a, x, c)
        for x in drop_one(c): yield (what, a, b, x)

def build(tmp, data):
    e = Exporter(os.path.join(tmp, "out"))
    e.plain_files = dict(data[0])
    e.wads = {p: W(s, [WF(h, SHA[i], q) for h, i, q in fs]) for p, s, fs in data[1]}
    return e

def shot(e): return (list(e.plain_files.items()), [(p, w.path, [(f.path_hash, f.sha256, f.path) for f in w.files]) for p, w in e.wads.items()])

def check(case, tmp):
    what, a, b, c = case
    if what == "compare":
        x, y = build(tmp, a), build(tmp, b)
        before = shot(y)
        wfs = {p: {f.path_hash: f for f in w.files} for p, w in x.wads.items()}
        x.filter_exporter(y)
        same(shot(y), before, "the previous export")
        other = dict(b[0])
        want_p = [(p, s) for p, s in a[0] if other.get(p) != s]
        ow = {p: (s, {h: SHA[i] for h, i, _ in fs}) for p, s, fs in b[1]}
        want_w = []
        for p, s, fs in a[1]:
            if p in ow:
                if ow[p][0] == s: continue
                fs = [f for f in fs if f[0] not in ow[p][1] or SHA[f[1]] is None or SHA[f[1]] != ow[p][1][f[0]]]
                if not fs: continue
            want_w.append((p, s, [(h, SHA[i], q) for h, i, q in fs]))
        got = shot(x)
        same(sorted(got[0]), sorted(want_p), "plain files to export")
        same(sorted(got[1], key=lambda t: t[0]), sorted(want_w, key=lambda t: t[0]), "archives to export")
        for p, w in x.wads.items(): need(all(f is wfs[p][f.path_hash] for f in w.files), "archive files are those of the export")
    elif what == "filter":
        e = build(tmp, a)
        keep = set(b)
        e.filter_export_paths(lambda p: p in keep)
        want = ([(p, s) for p, s in a[0] if p in keep], [(p, s, [(h, SHA[i], q) for h, i, q in fs if q in keep]) for p, s, fs in a[1]])
        got = shot(e)
        same(sorted(got[0]), sorted(want[0]), "plain files")
        same(sorted(got[1], key=lambda t: t[0]), sorted((w for w in want[1] if w[2]), key=lambda t: t[0]), "archives")
    else:
        out = os.path.join(tmp, "out")
        other = os.path.join(tmp, "other")
        os.makedirs(other); os.mkdir(out)
        for d in (other, tmp): open(os.path.join(d, "outside.txt"), "w").close()
        def make(t, base):
            for n, k, sub in t:
                p = os.path.join(base, n)
                if k == "file": open(p, "w").close()
                elif k == "link": os.symlink(os.path.join(other, "outside.txt"), p)
                elif k == "dirlink": os.symlink(other, p)
                elif k == "broken": os.symlink("nowhere", p)
                else: os.mkdir(p); make(sub, p)
        make(a, out)
        kf, ks = set(b), set(c)
        want = []
        def kept(t, base=""):
            for n, k, sub in t:
                p = base + n
                if k == "dir":
                    if p in kf: want.extend(q for q, kk in walk(sub, p + "/") if kk != "dir")
                    else: kept(sub, p + "/")
                elif k == "file":
                    if p in kf: want.append(p)
                elif p in ks: want.append(p)
        kept(a)
        e = Exporter(out)
        e.clean_output_dir(kf if case.__repr__().__len__() % 2 else list(kf), ks)
        left = []
        for base, ds, fs in os.walk(out):
            for n in ds + fs:
                p = os.path.join(base, n)
                if os.path.islink(p) or not os.path.isdir(p): left.append(os.path.relpath(p, out))
        same(sorted(left), sorted(want), "files and links left")
        same(sorted(os.listdir(other)), ["outside.txt"], "what links point to is kept")
        need(os.path.exists(os.path.join(tmp, "outside.txt")), "files outside of the output directory are kept")
