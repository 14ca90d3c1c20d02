"""pairs of versions from dotted text (leading zeros, equal prefixes, 1-5 components, signs and spaces int() accepts) and from tuples; patch versions, 'main', invalid texts"""
from lib import *
from cdtb.storage import BaseVersion, PatchVersion

def nums(rng):
    return tuple(rng.choice([0, 1, 2, 9, 10, 11, 14, 99, 100, 10 ** 12, rng.randrange(30)]) for _ in range(rng.choice([1, 2, 2, 2, 3, 4, 5])))

def arg(rng, t):
    if rng.random() < .4: return t
    return ".".join(rng.choice(["%d", "%d", "%d", "0%d", "00%d", "+%d"]) % x for x in t)

def generate(rng, hints):
    a = nums(rng)
    b = rng.choice([nums(rng), a, a[:-1] or a, a + (0,), a[:-1] + (a[-1] + 1,), a[:-1] + (a[-1] * 10,), a[1:] + a[:1]])
    if rng.random() < .1: return ("bad", rng.choice(["", (), ".", "1.", ".1", "a", "1.a", "1..2", "1.2.x", "x.1"]), rng.choice([BaseVersion, PatchVersion]).__name__)
    return ("pair", a, arg(rng, a), b, arg(rng, b), rng.choice(["BaseVersion", "BaseVersion", "PatchVersion"]))

def check(case, tmp):
    if case[0] == "bad":
        o = outcome(globals()[case[2]], case[1])
        same(o[:2], ("exc", "ValueError"), "text that is no version")
        return
    _, ta, a, tb, b, cls = case
    C = globals()[cls]
    oa, ob = outcome(C, a), outcome(C, b)
    main = PatchVersion("main")
    if cls == "PatchVersion":
        for t, o in ((ta, oa), (tb, ob)):
            if len(t) < 2:
                same(o[:2], ("exc", "AssertionError"), "patch version of one number")
            else:
                same(o[0], "ok", "patch version")
                same(o[1].as_int(), 100 * t[0] + t[1], "integer form")
                need(o[1] != main and main != o[1] and not o[1] == main and not main == o[1], "equal to main")
        if len(ta) < 2 or len(tb) < 2: return
        ta, tb = ta[:2], tb[:2]
        need(main == PatchVersion("main") and hash(main) == hash(PatchVersion("main")) and main == "main" and main.as_int() == 9999, "the PBE version")
    same((oa[0], ob[0]), ("ok", "ok"), "construction")
    x, y = oa[1], ob[1]
    for p, tp, q, tq in ((x, ta, y, tb), (y, tb, x, ta)):
        same((p < q, p <= q, p > q, p >= q, p == q, p != q), (tp < tq, tp <= tq, tp > tq, tp >= tq, tp == tq, tp != tq), f"operators on {tp} and {tq}")
        if tp == tq: same(hash(p), hash(q), "hashes of equal versions")
        text = ".".join(map(str, tp))
        need(p == tp and p == text and str(p) == text and not p != text, f"{p!r} equals {tp} and {text}")
        need((p == tq) == (tp == tq) and (p == ".".join(map(str, tq))) == (tp == tq), f"{p!r} and {tq}")
