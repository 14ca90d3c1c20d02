"""package manifests with up to 8 files in 3 packages, in any order, with and without gaps, empty and compressed (zlib, gzip) files; any subset asked for, any files already on disk; packages served in random chunks"""
from lib import *
import gzip, os, zlib
from cdtb.rads import BinPackageFile, RadsProject, RadsProjectVersion, RadsStorage, RadsVersion

class Resp:
    def __init__(self, content, chunks=()): self.content, self.chunks = content, chunks
    def raise_for_status(self): pass
    def iter_content(self, *a, **k): return iter(self.chunks)
    def __enter__(self): return self
    def __exit__(self, *a): pass

class Session:
    def __init__(self, bodies): self.bodies, self.asked = bodies, []
    def get(self, url, **kw):
        self.asked.append(url)
        if url not in self.bodies: raise Bad(f"unexpected request {url}")
        b = self.bodies[url]
        return Resp(b"".join(b) if isinstance(b, list) else b, b if isinstance(b, list) else [b])

def squeeze(data, how):
    if how == 2: return gzip.compress(data, mtime=0)
    return zlib.compress(data, 9 if how == 1 else 0)

def generate(rng, hints):
    if rng.random() < .3:
        line = ",".join(rng.choice(["/a/b", "/x.compressed", "/.compressed", "/é/c.txt", "/acompressed", "/a.compressed.x", "//d", "/BIN 1"]) if i == 0 else
                        rng.choice(["BIN_0x00000001", "", "p q"]) if i == 1 else str(rng.choice([0, 1, 7, 2 ** 31, 2 ** 40])) for i in range(4)) + "," + rng.choice(["0", "22", ""]) + rng.choice(["", "\n"])
        return ("line", line)
    files, names = [], rng.sample(["a.txt", "d/b", "d/e/c.bin", "releases/é", "x", "y/z", "q.compressed.txt", "w"], rng.choice([1, 2, 3, 5, 8]))
    for n in names:
        how = rng.choice([0, 0, 0, 1, 2, 3])
        files.append((n, rng.choice("PQR"), rng.choice([0, 0, 1, 3]), rbytes(rng, rng.choice([0, 0, 1, 5, 40, 300])), how, rng.randrange(1 << 30)))
    asked = None if rng.random() < .5 else rng.sample(names, rng.randrange(len(names) + 1))
    there = [n for n in names if rng.random() < .25]
    return ("extract", files, asked, there, rng.randrange(1 << 30), rng.choice([1, 7, 50, 10 ** 6]))

def smaller(case):
    if case[0] == "line": return
    w, files, asked, there, seed, size = case
    for i in range(len(files)):
        n = files[i][0]
        yield (w, files[:i] + files[i + 1:], None if asked is None else [x for x in asked if x != n], [x for x in there if x != n], seed, size)
    if size != 10 ** 6: yield (w, files, asked, there, seed, 10 ** 6)
    if there: yield (w, files, asked, [], seed, size)
    if asked is not None: yield (w, files, None, there, seed, size)
    for i, f in enumerate(files):
        if f[4]: yield (w, files[:i] + [f[:4] + (0,) + f[5:]] + files[i + 1:], asked, there, seed, size)
        if f[3]: yield (w, files[:i] + [f[:3] + (f[3][:len(f[3]) // 2],) + f[4:]] + files[i + 1:], asked, there, seed, size)

def check(case, tmp):
    if case[0] == "line":
        path, package, offset, size, typ = case[1].split(",")
        p = BinPackageFile(case[1])
        same((p.path, p.package, p.offset, p.size), (path[1:], package, int(offset), int(size)), "package file")
        comp = path.endswith(".compressed")
        same((bool(p.compressed), p.extract_path), (comp, path[1:-11] if comp and len(path) > 11 else path[1:]), "compression")
        return
    w, files, asked, there, seed, size = case
    bodies, lines, where = {}, [], {}
    ver = "projects/proj/releases/0.0.1.2"
    base = "http://server/"
    pk = {}
    for n, p, gap, data, how, order in files:
        body = pk.setdefault(p, bytearray())
        body += b"#" * gap
        stored = data if how == 0 else squeeze(data, how)
        path = f"{ver}/files/{n}"
        lines.append((order, f"/{path}{'.compressed' if how else ''},{p},{len(body)},{len(stored)},{22 if how else 0}\n"))
        body += stored
        where[n] = (path, p)
    lines.sort()
    rng = random.Random(seed)
    urls = {}
    for p, body in pk.items():
        cs, i = [], 0
        body = bytes(body) + b"$" * rng.choice([0, 3])
        while i < len(body):
            k = rng.randint(1, size)
            cs.append(body[i:i + k])
            i += k
        urls[p] = f"{base}{ver}/packages/files/{p}"
        bodies[urls[p]] = cs
    murl = f"{base}{ver}/packages/files/packagemanifest"
    bodies[murl] = ("PKG1\n" + "".join(l for _, l in lines)).encode()
    st = RadsStorage(tmp, base)
    st.s = Session(bodies)
    for n in there:
        fp = os.path.join(tmp, where[n][0])
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        with open(fp, "wb") as f: f.write(b"already there")
    pv = RadsProjectVersion(RadsProject(st, "proj"), RadsVersion("0.0.1.2"))
    r = outcome(pv.extract) if asked is None else outcome(pv.extract, [where[n][0] for n in asked])
    need(r[0] == "ok", f"extraction fails with {r[1:]}")
    got = {}
    for d, _, fs in os.walk(tmp):
        for f in fs:
            with open(os.path.join(d, f), "rb") as h: got[os.path.relpath(os.path.join(d, f), tmp)] = h.read()
    got.pop(f"{ver}/packagemanifest", None)
    want, needed = {}, set()
    for n, p, gap, data, how, order in files:
        if n in there: want[where[n][0]] = b"already there"
        elif asked is None or n in asked:
            want[where[n][0]] = data
            needed.add(urls[p])
    same(sorted(got), sorted(want), "files on disk")
    for k in want: same(got[k], want[k], f"content of {k}")
    same(sorted(u for u in st.s.asked if u != murl), sorted(needed), "requested packages")
    need(st.s.asked.count(murl) <= 1, "package manifest requested more than once")
