"""random histories of check, is_known, check_iter (lists, generators), check_text_list, check_basenames, substitution and saving on the three guesser classes, from random known lists and hash sets, with candidates that match known, unknown and foreign hashes"""
from lib import *
import cdtb.hashes as H
from cdtb.hashes import HashFile, HashGuesser, LcuHashGuesser, GameHashGuesser
from xxhash import xxh64_intdigest as xxh
import io, contextlib

POOL = [f"{d}/{n}{e}" for d in ("a", "b/c", "assets/characters/ahri", "data") for n in ("x", "y1", "ahri_base", "z-0", "en_us") for e in (".bin", ".dds", "")]
POOL += ["", "x", "é.txt", "A/X.bin"]
OPS = ["check", "is_known", "check_iter", "check_gen", "text", "basenames", "subst_basenames", "subst_ext", "numbers", "save", "known_again"]

def generate(rng, hints):
    pool = rng.sample(POOL, rng.randrange(1, len(POOL)))
    known = rng.sample(pool, rng.randrange(len(pool) + 1))
    if rng.random() < .5: known = known[:6]
    given = rng.sample(pool, rng.randrange(len(pool) + 1))
    extra = [rng.randrange(2 ** 64) for _ in range(rng.randrange(3))]
    # known entries that are not the real hash of their path, and hashes given as sets or lists with repetitions
    odd = {rng.randrange(2 ** 64): "odd path", xxh(rng.choice(pool)): "other name"} if rng.random() < .3 else {}
    ops = []
    for _ in range(rng.randrange(1, 7)):
        op = rng.choice(OPS)
        if op in ("check", "is_known"): arg = rng.choice(pool if rng.random() < .8 else POOL)
        elif op in ("check_iter", "check_gen", "text", "basenames"):
            arg = [rng.choice(pool) for _ in range(rng.randrange(6))]
            if rng.random() < .3: arg = arg * 2
        else: arg = None
        ops.append((op, arg))
    return (rng.randrange(3), known, sorted(odd.items()), given, extra, rng.choice([set, list, tuple]).__name__, ops)

def smaller(case):
    c, known, odd, given, extra, t, ops = case
    for x in drop_one(ops): yield (c, known, odd, given, extra, t, x)
    for x in drop_one(known): yield (c, x, odd, given, extra, t, ops)
    for x in drop_one(given): yield (c, known, odd, x, extra, t, ops)
    for x in drop_one(odd): yield (c, known, x, given, extra, t, ops)
    for x in drop_one(extra): yield (c, known, odd, given, x, t, ops)

def check(case, tmp):
    c, known, odd, given, extra, t, ops = case
    known0 = {xxh(p): p for p in known}
    known0.update(odd)
    hashes = [xxh(p) for p in given] + extra
    hf = HashFile(tmp + "/h.txt")
    hf.hashes = dict(known0)
    hf.save()
    hf = HashFile(tmp + "/h.txt")
    gv = {"set": set, "list": list, "tuple": tuple}[t](hashes)
    with contextlib.redirect_stdout(io.StringIO()):
        if c == 0: g = HashGuesser(hf, gv)
        elif c == 1:
            H.hashfile_lcu = hf
            g = LcuHashGuesser(gv)
        else:
            H.hashfile_game = hf
            g = GameHashGuesser(gv)
        same(dict(g.known), known0, "known hashes at first")
        same(set(g.unknown), set(hashes) - set(known0), "unknown hashes at first")
        same(g.known is hf.load(), True, "known hashes are those of the hash file")
        u0 = set(g.unknown)
        tried = set()
        known, unknown = dict(known0), set(u0)
        for op, arg in ops:
            new = []
            exact = True
            if op == "check": g.check(arg); new = [arg]
            elif op == "is_known":
                before = xxh(arg) in known or xxh(arg) in unknown
                same(bool(g.is_known(arg)), before, "is_known")
                new = [arg]
            elif op == "check_iter": g.check_iter(arg); new = arg
            elif op == "check_gen": g.check_iter(p for p in arg); new = arg
            elif op == "text":
                g.check_text_list("  ".join(arg) + "\n")
                new = " ".join(arg).split()
            elif op == "basenames":
                dirs = list(g.directory_list())
                names = [p.rsplit("/", 1)[-1] for p in arg]
                g.check_basenames(names)
                new = [f"{d}/{n}" for d in dirs for n in names]
            elif op == "subst_basenames": g.substitute_basenames(); exact = False
            elif op == "subst_ext": g.substitute_extensions(); exact = False
            elif op == "numbers": g._substitute_numbers(list(g.known.values()), 3); exact = False
            elif op == "save": g.save(); same(HashFile(tmp + "/h.txt").load(), dict(g.known), "saved list")
            elif op == "known_again":
                same(outcome(g.check_iter, "abc")[:2], ("exc", "TypeError"), "text instead of a sequence")
            if exact:
                for p in new:
                    if xxh(p) in unknown:
                        unknown.discard(xxh(p))
                        known[xxh(p)] = p
                same(dict(g.known), known, f"known hashes after {op} {arg}")
                same(set(g.unknown), unknown, f"unknown hashes after {op} {arg}")
            else:
                for h, p in known.items():
                    same(g.known.get(h), p, f"entry already known after {op}")
                for h, p in g.known.items():
                    if h not in known:
                        same(xxh(p), h, f"hash of the path recorded by {op}")
                        same(h in unknown, True, f"recorded hash was unknown before {op}")
                same(set(g.unknown), unknown - set(g.known), f"unknown hashes after {op}")
                known, unknown = dict(g.known), set(g.unknown)
