"""random meshes of versions 0, 1, 2 and 4 with vertex types 0 to 2, with submesh ranges inside, across and outside of the vertex and index lists, complete or truncated, right or wrong magic codes; OBJ text of every object"""
from lib import *
import struct, io
from cdtb.sknfile import SknFile

def generate(rng, hints):
    major = rng.choice([0, 1, 2, 2, 4, 4, 4])
    vt = rng.choice([0, 1, 2])
    nv = rng.choice([0, 1, 2, 3, 5, rng.randrange(12)])
    ni = 3 * rng.choice([0, 1, 2, 3, rng.randrange(6)])
    subs = []
    pos, ipos = 0, 0
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        if rng.random() < .7:
            k, m = rng.randrange(nv - pos + 1) if nv >= pos else 0, 3 * rng.randrange((ni - ipos) // 3 + 1) if ni >= ipos else 0
            s = (pos, k, ipos, m)
            pos += k; ipos += m
        else: s = (rng.randrange(nv + 3), rng.randrange(nv + 3), rng.randrange(ni + 3), 3 * rng.randrange(4))
        subs.append((rng.choice(["", "a", "Base_Mesh", "é", "n" * 63, "n" * 64, "x\0trash"]), s))
    magic = rng.choice([b"\x33\x22\x11\x00"] * 10 + [b"\x33\x22\x11\x01", b"\0\x11\x22\x33"])
    return (major, rng.choice([0, 1]), vt, nv, ni, subs, magic, rng.choice([None] * 6 + [rng.random()]), rng.randrange(10 ** 6))

def smaller(case):
    major, minor, vt, nv, ni, subs, magic, cut, seed = case
    for s in drop_one(subs): yield (major, minor, vt, nv, ni, s, magic, cut, seed)
    for k in {0, nv // 2, nv - 1}:
        if 0 <= k < nv: yield (major, minor, vt, k, ni, subs, magic, cut, seed)
    for k in {0, ni - 3}:
        if 0 <= k < ni: yield (major, minor, vt, nv, k, subs, magic, cut, seed)

def check(case, tmp):
    major, minor, vt, nv, ni, subs, magic, cut, seed = case
    import random
    r = random.Random(seed)
    fl = lambda n: tuple(r.randrange(-1000, 1000) / 8 for _ in range(n))
    bt = lambda n: tuple(r.randrange(256) for _ in range(n))
    verts = []
    for _ in range(nv):
        v = {"position": fl(3), "bone_indices": bt(4), "weight": fl(4), "normal": fl(3), "uv": fl(2), "color": None, "tangent": None}
        if major == 4 and vt >= 1: v["color"] = bt(4)
        if major == 4 and vt == 2: v["tangent"] = fl(4)
        verts.append(v)
    hi = nv if r.random() < .7 else 65535
    idx = [r.randrange(max(1, hi + 1)) if r.random() < .9 else r.choice([0, 65535]) for _ in range(ni)]
    d = magic + struct.pack("<HH", major, minor)
    if major:
        d += struct.pack("<I", len(subs))
        for name, (a, b, c, e) in subs:
            raw = name.encode()[:64]
            raw += b"\0" * (64 - len(raw))
            d += raw + struct.pack("<4I", a, b, c, e)
    if major == 4: d += struct.pack("<I", 7)
    d += struct.pack("<II", ni, nv)
    if major == 4: d += struct.pack("<II", 52 + 4 * (vt >= 1) + 16 * (vt == 2), vt) + struct.pack("<10f", *fl(10))
    d += struct.pack("<%dH" % ni, *idx)
    for v in verts:
        d += struct.pack("<3f4B4f3f2f", *v["position"], *v["bone_indices"], *v["weight"], *v["normal"], *v["uv"])
        if v["color"]: d += struct.pack("<4B", *v["color"])
        if v["tangent"]: d += struct.pack("<4f", *v["tangent"])
    if cut is not None: d = d[:int(cut * len(d))]
    if r.random() < .5: o = outcome(SknFile, io.BytesIO(d))
    else:
        p = tmp + "/m.skn"
        with open(p, "wb") as f: f.write(d)
        o = outcome(SknFile, p)
    if magic != b"\x33\x22\x11\x00" or len(d) < 4:
        same(o[:2], ("exc", "ValueError"), "wrong magic code")
        return
    if cut is not None and int(cut * len(d)) >= 0 and cut < 1:
        same(o[0], "exc", "truncated data")
        return
    same(o[0], "ok", f"complete mesh {short(o)}")
    es = o[1].entries
    if major == 0: want = [("Unknown", 0, nv, 0, ni)]
    else: want = [(n.encode()[:64].split(b"\0")[0].decode(), *s) for n, s in subs]
    same(len(es), len(want), "number of objects")
    for e, (name, a, b, c, k) in zip(es, want):
        same(e["name"], name, "name")
        vs = verts[a:a + b]
        same(len(e["vertices"]), len(vs), "number of vertices")
        for x, y in zip(e["vertices"], vs):
            for key in y: same(x[key], y[key], f"vertex {key}")
        raw = idx[c:c + k]
        same(len(e["indices"]), len(raw), "number of indices")
        for x, y in zip(e["indices"], raw):
            if y >= a: same(x, y - a + 1, "index")
        if len(e["indices"]) % 3: continue
        lines = o[1].to_obj(e).splitlines()
        vl = [l.split() for l in lines if l.split()[0] != "f"]
        exp = []
        for v in vs: exp += [["v", *map(str, v["position"])], ["vt", *map(str, v["uv"])], ["vn", *map(str, v["normal"])]]
        same(vl, exp, "OBJ vertex lines")
        fl_ = [l.split() for l in lines if l.split()[0] == "f"]
        same(lines[len(exp):], [" ".join(x) for x in fl_], "OBJ face lines come after the vertices")
        got = [[[q for q in t.split("/") if q] for t in l[1:]] for l in fl_]
        ix = e["indices"]
        same(got, [[[str(i)] * 3 for i in ix[j:j + 3]] for j in range(0, len(ix), 3)], "OBJ face lines")
