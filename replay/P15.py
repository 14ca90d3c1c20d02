"""releases with random manifests (shared chunks and bundles, links, languages, absent flags), with and without shared storage, over directories where files are missing, complete, cut short or stale; downloads over a recording HTTP session"""
from lib import *
import os, json, random, types
import pyzstd
import rman
import cdtb.patcher as P

NAMES = ["a.txt", "b.txt", "c", "dir/a.txt", "dir/sub/d.bin", "système.txt", "A.TXT"]
IDS = [0x1, 0x2, 0x12, 0x21, 0x11, 0x22]
FLAGS = ["en_US", "fr_FR", "windows", "de_DE", "a_b", "x_1y2", "EN_gb", "macos"]

def generate(rng, hints):
    if rng.random() < .05:
        # two files whose chunk identifiers read the same when run together
        seed = 3 * rng.randrange(10 ** 5)
        ids = random.Random(seed).sample(IDS, 6)
        a, b = rng.choice([1, 2]), rng.choice([1, 2])
        lists = [[a, b], [a * 16 + b]] if (a, b) != (2, 2) else [[1, 1, 2], [0x11, 2]]
        fs = [(nm, None, None, [ids.index(x) if x in ids else 0 for x in l], "missing") for nm, l in zip(rng.sample(NAMES, 2), lists)]
        return ([rbytes(rng, 5) for _ in range(6)], [rng.randrange(3) for _ in range(6)], fs, True, True, "extract", False, seed)
    nch = rng.randrange(1, 7)
    chunks = [rbytes(rng, rng.choice([0, 1, 5, 40])) for _ in range(nch)]
    split = [rng.randrange(3) for _ in range(nch)]
    files = []
    for nm in rng.sample(NAMES, rng.randrange(1, 6)):
        fl = rng.choice([None, None] + [rng.sample(range(len(FLAGS)), rng.randrange(1, 4)) for _ in range(4)])
        link = rng.choice([None, None, None, None, "target"])
        files.append((nm, fl, link, [rng.randrange(nch) for _ in range(rng.choice([0, 1, 2, 3]))], rng.choice(["missing"] * 3 + ["same", "short", "stale", "dangling", "otherlink", "samelink"])))
    langs = rng.choice([True, False, "en_US", "EN_us", "FR_FR", ["fr_fr", "DE_de"], [], ["en_US"], "windows", ["x_1y2", "none"]])
    return (chunks, split, files, langs, rng.choice([True, False]), rng.choice(["extract", "extract", "file", "ids", "download"]), rng.choice([None, True, False]), rng.randrange(10 ** 6))

def smaller(case):
    chunks, split, files, *rest = case
    for f in drop_one(files):
        if f: yield (chunks, split, f, *rest)
    for i in range(len(chunks)):
        if len(chunks[i]) > 1: yield (chunks[:i] + [chunks[i][:1]] + chunks[i + 1:], split, files, *rest)
    for i, f in enumerate(files):
        for c in drop_one(f[3]): yield (chunks, split, files[:i] + [f[:3] + (c,) + f[4:]] + files[i + 1:], *rest)

def selected(langs, f):
    flags = None if f[1] is None else [FLAGS[i] for i in f[1]]
    if langs is True: return True
    if langs is False: return flags is None or not any(len(x) == 5 and "_" in x for x in flags)
    want = [langs] if isinstance(langs, str) else langs
    return flags is not None and any(x.lower() == w.lower() for x in flags for w in want)

def check(case, tmp):
    chunks, split, files, langs, links, op, flag, seed = case
    r = random.Random(seed)
    root = os.path.join(tmp, "st")
    cids = [r.randrange(2 ** 64) for _ in chunks] if seed % 3 else random.Random(seed).sample(IDS, len(chunks))
    bids = [r.randrange(2 ** 64) for _ in range(3)]
    packed = [pyzstd.compress(c) for c in chunks]
    bundles = [(bids[b], [(cids[i], len(packed[i]), len(chunks[i])) for i in range(len(chunks)) if split[i] == b]) for b in range(3)]
    spec = dict(bundles=bundles, flags=[(i + 1, t) for i, t in enumerate(FLAGS)], dirs=[(5, None, "dir"), (6, 5, "sub")], files=[])
    for nm, fl, link, ch, _ in files:
        *d, base = nm.split("/")
        spec["files"].append(dict(name=base, link=link, flags=None if fl is None else sum(1 << i for i in fl), dir={0: None, 1: 5, 2: 6}[len(d)], size=sum(len(chunks[i]) for i in ch), chunks=[cids[i] for i in ch]))
    url = "https://lol.dyn.riotcdn.net/channels/public/releases/00000000000000AB.manifest"
    os.makedirs(root + "/channels/public/releases")
    os.makedirs(root + "/channels/public/bundles")
    open(root + "/channels/public/releases/00000000000000AB.manifest", "wb").write(rman.manifest(spec, seed))
    data = {"%016X" % bids[b]: b"".join(packed[i] for i in range(len(chunks)) if split[i] == b) for b in range(3)}
    rel = root + "/cdtb/releases/live/7"
    os.makedirs(rel)
    json.dump({"game_patch_url": url}, open(rel + "/release.json", "w"))
    st = P.PatcherStorage(root, "live")
    st.use_extract_symlinks = links
    got = []
    class S:
        def get(self, u, **k):
            name = os.path.basename(u)
            need(u == f"https://lol.dyn.riotcdn.net/channels/public/bundles/{name}", f"unexpected request {u}")
            got.append(name[:-7])
            return types.SimpleNamespace(content=data[name[:-7]], raise_for_status=lambda: None)
    st.s = S()
    content = {f[0]: b"".join(chunks[i] for i in f[3]) for f in files}
    # the storage as it is before
    shared, out = root + "/cdtb/files", rel + "/files"
    other = tmp + "/elsewhere"
    open(other, "wb").write(b"untouched")
    for nm, fl, link, ch, state in files:
        p = f"{out}/{nm}"
        os.makedirs(os.path.dirname(p), exist_ok=True)
        c = content[nm]
        if state == "same": open(p, "wb").write(c)
        elif state == "short": open(p, "wb").write(c[:len(c) // 2] + b"!")
        elif state == "stale": open(p, "wb").write(bytes(x ^ 255 for x in c))
        elif links and state == "dangling": os.symlink("nowhere", p)
        elif links and state == "otherlink": os.symlink(os.path.relpath(other, os.path.dirname(p)), p)
        elif links and state == "samelink":
            open(tmp + "/same" + str(len(nm)), "wb").write(c)
            os.symlink(tmp + "/same" + str(len(nm)), p)
    before = {}
    for f in files:
        p = f"{out}/{f[0]}"
        before[f[0]] = (os.path.islink(p), open(p, "rb").read() if os.path.isfile(p) else None)
    there = lambda f: before[f[0]][1] is not None and len(before[f[0]][1]) == len(content[f[0]])
    wanted = [f for f in files if selected(langs, f) and not f[2]]
    el = P.PatcherRelease(st, 7).element("game")
    if op in ("ids", "download"):
        skip = op == "download" if flag is None else flag
        use = [f for f in wanted if not (skip and there(f))]
        want = {bids[split[i]] for f in use for i in f[3]}
        kw = {} if flag is None else {"skip_extracted": flag}
        if op == "ids":
            v = el.bundle_ids(langs=langs, **kw)
            same(set(v), want, "needed bundles")
            same(got, [], "requests")
        else:
            have = set(r.sample(sorted(want), r.randrange(len(want) + 1)))
            for b in have: open(f"{root}/channels/public/bundles/{b:016X}.bundle", "wb").write(data["%016X" % b])
            el.download_bundles(langs=langs, **kw)
            same(sorted(got), sorted("%016X" % b for b in want - have), "bundles requested")
            same({f: open(f"{root}/channels/public/bundles/{f}", "rb").read() for f in os.listdir(root + "/channels/public/bundles")}, {f"{b:016X}.bundle": data["%016X" % b] for b in want}, "bundles stored")
        return
    for k, v in data.items(): open(f"{root}/channels/public/bundles/{k}.bundle", "wb").write(v)
    same({f.name for f in el.manif.filter_files(langs)}, {f[0] for f in files if selected(langs, f)}, f"files selected by {langs!r}")
    over = bool(flag)
    kw = {} if flag is None else {"overwrite": flag}
    if op == "extract": done = wanted; el.extract(langs=langs, **kw)
    else:
        done = [files[0]]
        same(bool(el.is_extracted_file(el.manif.files[files[0][0]])), there(files[0]), "is the file extracted")
        el.extract_file(el.manif.files[files[0][0]], **kw)
    written = [f for f in done if over or not there(f)]
    same(got, [], "requests made by an extraction")
    places = {}
    for f in files:
        p = f"{out}/{f[0]}"
        if f in written:
            need(os.path.isfile(p), f"{f[0]} was not extracted")
            same(open(p, "rb").read(), content[f[0]], f"content of {f[0]}")
            same(os.path.islink(p), links, f"{f[0]} is a link")
            if links:
                t = os.readlink(p)
                need(not os.path.isabs(t), f"{f[0]} is a link to the absolute path {t}")
                real = os.path.realpath(p)
                need(os.path.dirname(real) == os.path.realpath(shared), f"{f[0]} links outside of the shared files: {real}")
                key = tuple(cids[i] for i in f[3])
                same(places.setdefault(key, real), real, "place of the same chunks")
                need(all(v != real or k == key for k, v in places.items()), "different chunks share a place")
        else:
            same((os.path.islink(p), open(p, "rb").read() if os.path.isfile(p) else None), before[f[0]], f"{f[0]}, which is not to be extracted")
    same(open(other, "rb").read(), b"untouched", "an unrelated file")
    extra = {os.path.relpath(os.path.join(d, x), out) for d, _, xs in os.walk(out) for x in xs} - {f[0] for f in files}
    same(extra, set(), "other extracted files")
    if links: same({os.path.join(os.path.realpath(shared), x) for x in (os.listdir(shared) if os.path.isdir(shared) else [])}, set(places.values()), "shared files")
