"""P10: naming of WAD files, over an archive with an arbitrary list of distinct entries."""
from pyvc.contract import *
from contracts.P09 import symbolic_files, file_field

SANITIZE_LIMIT = 250
spl0 = lambda x: fcall("path_splitext_0", x, ret=StrS)
spl1 = lambda x: fcall("path_splitext_1", x, ret=StrS)
sv = z3.StringVal
bare = lambda p: z3.SubString(spl1(p), 1, z3.Length(spl1(p)))      # extension without its dot


def hex16(E, h): return M.hexstr(E, h, 16)


def setup(E):
    def invariant(ctx):
        S_ = getattr(E, "spec", None)
        if not S_: return
        for field, spec in S_.items():
            for ci in (0, 1):
                key = (E.heap.uid, f"WadFileHeader.{field}.{ci}")
                if key not in ctx.info.mods: continue
                def done(k, r, key=key, spec=spec, ci=ci):
                    j = z3.Int("j!")
                    ref = z3.Select(E.refs, j)
                    t = z3.Select(r(key)[0], ref)
                    body = t == spec(j)[ci] if ci == 0 else Or(spec(j)[0], t == spec(j)[1])
                    return forall([j], Implies(And(j >= 0, j < k), body), [ref])
                def rest(k, r, key=key, e=ctx.entry[key]):
                    j = z3.Int("j!")
                    ref = z3.Select(E.refs, j)
                    return forall([j], Implies(And(j >= k, j < E.n), z3.Select(r(key)[0], ref) == z3.Select(e, ref)), [ref])
                ctx.cand(f"{field}.{ci} done", done)
                ctx.cand(f"{field}.{ci} rest", rest)
    E.invariants.append(invariant)


def start(E, **wad):
    files, n, refs, c = symbolic_files(E)
    E.n, E.refs = n, refs
    w = obj(E, "wad.Wad", path=E.const("wadpath", StrS), version=(3, 4), files=files, subchunk_toc=None, **wad)
    H0 = {}
    for f in ("path", "ext", "path_hash"):
        for ci in (0, 1):
            if f == "path_hash" and ci: continue
            file_field(E, c, z3.IntVal(1), f)
            H0[f, ci] = E.heap.slots[f"WadFileHeader.{f}.{ci}"]
    old = lambda j, f, ci=0: z3.Select(H0[f, ci], z3.Select(refs, j))
    a = z3.Int("a!")
    E.fact(forall([a], And(old(a, "path_hash") >= 0, old(a, "path_hash") < 2 ** 64), [z3.Select(refs, a)]))
    return w, n, refs, c, old


def result(E, c, refs, i, f):
    v = file_field(E, c, z3.Select(refs, i), f)
    return (v.isnone, v.val)


def others_kept(E, before, fields):
    for key in E.heap.slots:
        if key.startswith("WadFileHeader.") and key.split(".")[1] not in fields and key in before:
            E.prove(E.heap.slots[key] == before[key], f"{key} is left as it was")


def run_resolve(E):
    w, n, refs, c, old = start(E)
    dom, vals = E.const("known", z3.ArraySort(IntS, BoolS)), E.const("paths", z3.ArraySort(IntS, StrS))
    hashes = DictCell(E, SMap(INT, STR, dom, [vals]))
    known = lambda j: z3.Select(dom, old(j, "path_hash"))
    path = lambda j: z3.Select(vals, old(j, "path_hash"))
    E.spec = {"path": lambda j: (And(Not(known(j)), old(j, "path", 0)), z3.If(known(j), path(j), old(j, "path", 1))),
              "ext": lambda j: (And(Not(known(j)), old(j, "ext", 0)), z3.If(known(j), bare(path(j)), old(j, "ext", 1)))}
    default = E.choose("hash list", [("given", None), ("default", None)])
    if default:
        def dh(E, a, k):
            E.prove(eq(E, a[0], w.slots["path"]), "the default hash list is the one of the archive")
            class HF:
                def attr(self, E, name): return bi("load", lambda *a, **k: hashes)
            return HF()
        E.contracts["hashes.default_hashfile"] = dh
    before = dict(E.heap.slots)
    st, v = call(E, E.getattr(w, "resolve_paths"), None if default else hashes)
    E.prove(B(st == "ok"), "no error")
    i = E.const("i", IntS)
    E.fact(And(i >= 0, i < n))
    pn, pv = result(E, c, refs, i, "path")
    en, ev = result(E, c, refs, i, "ext")
    E.prove(Implies(known(i), And(Not(pn), pv == path(i))), "a known hash gives exactly its path")
    E.prove(Implies(known(i), And(Not(en), ev == bare(path(i)))), "the extension is the path's")
    E.prove(Implies(Not(known(i)), And(pn == old(i, "path", 0), Or(pn, pv == old(i, "path", 1)))), "an unknown hash leaves the path as it was")
    E.prove(Implies(Not(known(i)), And(en == old(i, "ext", 0), Or(en, ev == old(i, "ext", 1)))), "an unknown hash leaves the extension as it was")
    others_kept(E, before, ("path", "ext"))
    E.cover("resolved")


def run_unknown(E):
    w, n, refs, c, old = start(E)
    d = E.const("directory", StrS)
    unnamed = lambda j: Or(old(j, "path", 0), old(j, "path", 1) == sv(""))
    has_ext = lambda j: And(Not(old(j, "ext", 0)), old(j, "ext", 1) != sv(""))
    name = lambda j: z3.Concat(d, sv("/"), hex16(E, old(j, "path_hash")))
    new = lambda j: z3.If(has_ext(j), z3.Concat(d, sv("/"), hex16(E, old(j, "path_hash")), sv("."), old(j, "ext", 1)), name(j))
    E.spec = {"path": lambda j: (B(False), z3.If(unnamed(j), new(j), old(j, "path", 1)))}
    before = dict(E.heap.slots)
    st, v = call(E, E.getattr(w, "set_unknown_paths"), d)
    E.prove(B(st == "ok"), "no error")
    i, i2 = E.const("i", IntS), E.const("i2", IntS)
    E.fact(And(i >= 0, i < n))
    pn, pv = result(E, c, refs, i, "path")
    E.prove(Implies(Not(unnamed(i)), And(Not(pn), pv == old(i, "path", 1))), "named files keep their name")
    E.prove(Implies(unnamed(i), And(Not(pn), pv == new(i))), "an unnamed file gets <directory>/<hash as 16 hexadecimal digits>[.<guessed extension>]")
    E.fact(And(i2 >= 0, i2 < n, old(i, "path_hash") != old(i2, "path_hash"), unnamed(i), unnamed(i2)))
    for k in (i, i2): hex16(E, old(k, "path_hash"))
    x, y = hex16(E, old(i, "path_hash")), hex16(E, old(i2, "path_hash"))
    E.prove(x != y, "distinct hashes have distinct digits")
    E.prove(And(z3.Length(x) == 16, z3.Length(y) == 16), "16 digits")
    E.prove(new(i) != new(i2), "distinct files get distinct names")
    others_kept(E, before, ("path",))
    E.cover("named")


def run_sanitize(E):
    w, n, refs, c, old = start(E)
    base, dirn = (lambda x: fcall("path_basename", x, ret=StrS)), (lambda x: fcall("path_dirname", x, ret=StrS))
    join = lambda a, b: fcall("path_join", a, b, ret=StrS)
    skip = lambda j: Or(old(j, "path", 0), old(j, "path", 1) == sv(""))
    P = lambda j: old(j, "path", 1)
    guessed = lambda j: And(Not(old(j, "ext", 0)), old(j, "ext", 1) != sv(""))
    e = lambda j: z3.If(spl1(P(j)) != sv(""), spl1(P(j)), z3.If(guessed(j), z3.Concat(sv(".cdtb."), old(j, "ext", 1)), sv(".cdtb")))
    P1 = lambda j: z3.If(spl1(P(j)) != sv(""), P(j), z3.Concat(P(j), e(j)))
    room = lambda j: z3.Length(e(j)) <= SANITIZE_LIMIT - 17
    long = lambda j: z3.Length(base(P1(j))) >= SANITIZE_LIMIT
    short_name = lambda j: z3.Concat(z3.SubString(base(P1(j)), 0, SANITIZE_LIMIT - 17 - z3.Length(e(j))), sv("."), hex16(E, old(j, "path_hash")), e(j))
    new = lambda j: z3.If(long(j), join(dirn(P1(j)), short_name(j)), P1(j))
    a = z3.Int("a!")
    E.fact(forall([a], room(a), [z3.Select(refs, a)]))
    E.spec = {"path": lambda j: (old(j, "path", 0), z3.If(skip(j), P(j), new(j)))}
    before = dict(E.heap.slots)
    st, v = call(E, E.getattr(w, "sanitize_paths"))
    E.prove(B(st == "ok"), "no error")
    i = E.const("i", IntS)
    E.fact(And(i >= 0, i < n, room(i)))
    pn, pv = result(E, c, refs, i, "path")
    E.prove(pn == old(i, "path", 0), "files without path keep none")
    E.fact(Not(skip(i)))
    case = E.choose("case", [("short with extension", And(spl1(P(i)) != sv(""), Not(long(i)))), ("short without extension", And(spl1(P(i)) == sv(""), Not(long(i)))), ("long", long(i))])
    if case == 0: E.prove(pv == P(i), "a short name with an extension is unchanged")
    if case == 1: E.prove(pv == z3.Concat(P(i), e(i)), "a short name without extension gets .cdtb and the guessed extension")
    if case == 2:
        E.prove(pv == join(dirn(P1(i)), short_name(i)), "a long name keeps directory and extension and gets the hash")
        h = hex16(E, old(i, "path_hash"))
        E.prove(z3.Length(h) == 16, "16 digits")
        E.prove(z3.Length(z3.SubString(base(P1(i)), 0, SANITIZE_LIMIT - 17 - z3.Length(e(i)))) == SANITIZE_LIMIT - 17 - z3.Length(e(i)), "length of what is kept")
        E.prove(z3.Length(short_name(i)) <= SANITIZE_LIMIT, "a shortened name has at most 250 characters")
    others_kept(E, before, ("path",))
    E.cover(["short", "no extension", "long"][case])


GOALS = [Goal("resolve_paths", run_resolve, setup, covers=["resolved"]), Goal("set_unknown_paths", run_unknown, setup, covers=["named"]),
         Goal("sanitize_paths", run_sanitize, setup, covers=["short", "no extension", "long"])]
ASSUMPTIONS = ["extensions leave room for the hash (at most 233 characters)", "os.path.split/splitext/join are the functions of their arguments that the library documents"]
