"""random hash lists of widths 8 and 16 (other widths too) with paths holding spaces, non-ASCII text, hexadecimal-looking and empty text: save, file content, reload, cached loads, changes after loading, missing files"""
from lib import *
from cdtb.hashes import HashFile

TEXT = ["", " ", "a", "b/c.bin", "a b", "a  b ", " lead", "00ff 00ff", "deadbeef x", "ünï/cödé.txt", "x\ty", "zz\x0bq", "\u2028p", "assets/x.dds", "a:b", "A", "Z", "0", "#", "data/final.bin"]

def text(rng):
    return rng.choice(TEXT) if rng.random() < .6 else "".join(rng.choice("ab/._- AZ09") for _ in range(rng.randrange(12)))

def generate(rng, hints):
    w = rng.choice([16, 16, 8, 8, 1, 4, 32])
    big = [0, 1, 0xf, 0x10, 255, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, rng.randrange(2 ** 64), rng.randrange(2 ** 32), rng.randrange(1 << 20)]
    m = {rng.choice(big): text(rng) for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))}
    m2 = {rng.choice(big): text(rng) for _ in range(rng.choice([0, 1, 2, 3]))}
    return (w, list(m.items()), list(m2.items()), rng.random() < .3)

def smaller(case):
    w, a, b, d = case
    for x in drop_one(a): yield (w, x, b, d)
    for x in drop_one(b): yield (w, a, x, d)
    for i, (h, s) in enumerate(a):
        if s: yield (w, a[:i] + [(h, s[1:])] + a[i + 1:], b, d)

def check(case, tmp):
    w, a, b, default = case
    a, b = dict(a), dict(b)
    p = tmp + "/hashes.txt"
    mk = lambda: HashFile(p) if w == 16 and default else HashFile(p, w)
    hf = mk()
    same(outcome(hf.load)[:2], ("exc", "FileNotFoundError"), "loading a missing file")
    same(outcome(hf.load, force=True)[:2], ("exc", "FileNotFoundError"), "loading a missing file")
    hf.hashes = dict(a)
    hf.save()
    same(hf.hashes, a, "list after saving it")
    with open(p, "rb") as f: raw = f.read()
    lines = raw.decode().split("\n")
    same(lines[-1], "", "end of the file")
    want = ["%0*x %s" % (w, h, s) for h, s in a.items()]
    same(sorted(lines[:-1]), sorted(want), "lines of the file")
    ss = [l.split(" ", 1)[1] for l in lines[:-1]]
    same(ss, sorted(ss), "order of the lines")
    other = mk()
    same(dict(other.load()), a, "first load")
    same(other.hashes is other.load(), True, "loaded mapping is kept")
    same(dict(hf.load(force=True)), a, "forced reload")
    # changes are kept by loads that are not forced, and written by the next save
    hf.load().update(b)
    both = {**a, **b}
    same(dict(hf.load()), both, "load without reload after a change")
    same(dict(other.load()), a, "other list object")
    hf.save()
    same(dict(other.load()), a, "load without reload")
    same(dict(other.load(force=True)), both, "forced reload after another save")
    hf.hashes = dict(b)
    hf.save()
    same(dict(mk().load()), b, "load after replacing the list")
    hf.hashes = {}
    hf.save()
    same(dict(mk().load()), {}, "load of an empty list")
    same(dict(hf.load()), {}, "an empty list counts as loaded")
    with open(p, "w") as f: f.write("%0*x x\n" % (w, 7))
    same(dict(hf.load()), {}, "an empty list is not read again")
    import os
    os.remove(p)
    same(dict(hf.load()), {}, "load without reload of a removed file")
    same(outcome(hf.load, force=True)[:2], ("exc", "FileNotFoundError"), "forced reload of a removed file")
