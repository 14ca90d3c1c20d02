"""P14: release manifests, decoded from arbitrary data."""
from pyvc.contract import *

u = lambda E, p, n: M.le(E, E.D.base, I(p), n)


def s32(E, p):
    x = u(E, p, 4)
    return z3.If(x >= 2 ** 31, x - 2 ** 32, x)


class Rec:
    """the record (flat table of optional fields) at position p"""
    def __init__(self, E, p):
        self.E, self.p = E, I(p)
        self.vt = self.p - s32(E, p)
        self.count = (u(E, self.vt, 2) - 4) / 2
    def off(self, i): return u(self.E, self.vt + 4 + 2 * i, 2)
    def has(self, i): return And(I(i) < self.count, self.off(i) != 0)
    def pos(self, i): return self.p + self.off(i)
    def num(self, i, size): return u(self.E, self.pos(i), size)
    def target(self, i): return self.pos(i) + s32(self.E, self.pos(i))
    def text(self, i): return text_at(self.E, self.target(i))
    def whole(self, i):
        """the text of field i lies within the data"""
        return And(self.target(i) >= 0, self.target(i) + 4 + u(self.E, self.target(i), 4) <= self.E.D.n)


def text_at(E, p): return fcall("decode_utf-8", bsl(E.D.base, p + 4, u(E, p, 4)), ret=StrS)


def parser(E, pos):
    f = FileV(E, E.D)
    f.slots["pos"] = pos
    return f, E.call(E.cls("tools.BinaryParser"), [f])


def start(E):
    E.byte_axioms()
    E.D = symbytes(E)
    E.ref = E.const("p", IntS)
    E.fact(E.ref >= 0)
    return parser(E, E.ref)


def field(E, x, present, value, what):
    """x is the value of the field if it is present, else None"""
    n = is_none(E, x)
    E.prove(n == Not(present), f"{what}: absent exactly when the record does not have it")
    if not E.entails(n): E.prove(Implies(present, eq(E, x, value)), f"{what} is the stored one")


def run_directory(E):
    f, bp = start(E)
    r = Rec(E, E.ref)
    E.fact(Implies(r.has(2), r.whole(2)))
    st, v = call(E, E.getattr(E.cls("patcher.PatcherManifest"), "_parse_directory"), bp)
    if st == "exc": return E.cover("refused")
    name, did, parent = M.unpack_n(E, v, 3)
    field(E, did, r.has(0), r.num(0, 8), "directory identifier")
    field(E, parent, r.has(1), r.num(1, 8), "parent directory")
    field(E, name, r.has(2), r.text(2), "directory name")
    E.cover("decoded")


def run_flag(E):
    f, bp = start(E)
    p = E.ref
    t = p + 8 + s32(E, p + 8)
    E.fact(And(t >= 0, t + 4 + u(E, t, 4) <= E.D.n))
    st, v = call(E, E.getattr(E.cls("patcher.PatcherManifest"), "_parse_flag"), bp)
    if st == "exc": return E.cover("refused")
    a, b = M.unpack_n(E, v, 2)
    E.prove(I(a) == M.byte_at(E, E.D, p + 7), "number of the flag")
    E.prove(S(b) == text_at(E, t), "text of the flag")
    E.cover("decoded")


FILE = {"directory": 1, "size": 2, "name": 3, "flags": 4, "chunks": 7, "link": 9}


def run_file_entry(E, pattern):
    """pattern: which of the first four fields are present"""
    E.range_limit, E.unpack_ground = 16, 13
    f, bp = start(E)
    r = Rec(E, E.ref)
    for i, b in enumerate(pattern): E.fact(r.has(i) if b else Not(r.has(i)))
    for i in (3, 9): E.fact(Implies(r.has(i), r.whole(i)))
    E.fact(r.has(7))        # files have a list of chunks
    st, v = call(E, E.getattr(E.cls("patcher.PatcherManifest"), "_parse_file_entry"), bp)
    if st == "exc": return E.cover("refused")
    name, link, flags, did, size, chunks = M.unpack_n(E, v, 6)
    field(E, name, r.has(3), r.text(3), "file name")
    field(E, link, r.has(9), r.text(9), "link")
    field(E, did, r.has(1), r.num(1, 8), "directory of the file")
    field(E, size, r.has(2), r.num(2, 4), "size of the file")
    t = r.target(7)
    E.prove(I(M.length(E, chunks)) == u(E, t, 4), "number of chunks")
    j = E.const("j", IntS)
    E.fact(And(j >= 0, j < u(E, t, 4)))
    E.prove(I(M.getitem(E, chunks, j)) == u(E, t + 4 + 8 * j, 8), "chunks are listed in order")
    mask = r.num(4, 8)
    some = And(r.has(4), mask != 0)
    none = is_none(E, flags)
    E.prove(none == Not(some), "no flags exactly when the mask is absent or zero")
    if not E.entails(none):
        x = E.const("x", IntS)
        E.prove(B(M.contains(E, flags, x)) == And(x >= 1, x <= 64, fcall("bit", mask, x - 1, ret=BoolS)), "bit i of the mask selects flag i + 1")
        E.cover("flags")
    else: E.cover("no flags")
    E.cover("decoded")


GOALS = [Goal("directory", run_directory, covers=["refused", "decoded"]), Goal("flag", run_flag, covers=["refused", "decoded"])]
for i in range(8):
    pat = [bool(i >> b & 1) for b in range(3)]
    GOALS.append(Goal("file entry, fields " + ("".join(str(k) for k in range(3) if pat[k]) or "none") + " of 0 to 2", lambda E, pat=pat: run_file_entry(E, pat), covers=["refused", "decoded", "flags", "no flags"]))


# ---------------------------------------------------------------- tables of fields

HAS = lambda p, i: fcall("rec_has", I(p), I(i), ret=BoolS)
NUM = lambda p, i: fcall("rec_num", I(p), I(i))      # number in field i, or the position it points to
SHAPES = {"chunk": ("<Q", "<L", "<L"), "bundle": ("<Q", "offset")}


def run_table(E, shape):
    """the table of fields of chunks and bundles"""
    f, bp = start(E)
    r = Rec(E, E.ref)
    E.unpack_ground = 3
    fmts = SHAPES[shape]
    st, v = call(E, E.getattr(E.cls("patcher.PatcherManifest"), "_parse_field_table"), bp, tuple((f"f{i}", x) for i, x in enumerate(fmts)))
    if st == "exc": return E.cover("refused")
    for i, x in enumerate(fmts): field(E, M.getitem(E, v, f"f{i}"), r.has(i), r.target(i) if x == "offset" else r.num(i, 8 if x == "<Q" else 4), f"field {i}")
    E.prove(I(M.length(E, v)) == len(fmts), "no other field")
    E.cover("decoded")


GOALS += [Goal(f"fields of a {k}", lambda E, k=k: run_table(E, k), covers=["refused", "decoded"]) for k in SHAPES]


def table_contract(E, args, kwargs):
    """what the goals above prove of _parse_field_table"""
    if kwargs or len(args) < 2 or not isinstance(args[-1], tuple): return NotImplemented
    items = [M.unpack_n(E, x, 2) for x in args[-1] if isinstance(x, tuple)]
    if len(items) != len(args[-1]) or tuple(b for _, b in items) not in SHAPES.values(): return NotImplemented
    f = E.getattr(args[-2], "f")
    p = f.slots["pos"]
    if not E.branch(fcall("rec_ok", I(p), ret=BoolS), "record"): E.py_raise("struct.error")
    f.set("pos", E.const("pos", IntS))
    return DictCell(E, CMap([(k, NUM(p, i) if E.branch(HAS(p, i), "field") else None) for i, (k, x) in enumerate(items)]))


# ---------------------------------------------------------------- bundles

OFF = z3.Function("offset_in_bundle", IntS, IntS)


def setup_bundle(E):
    E.contracts["patcher.PatcherManifest._parse_field_table"] = table_contract
    E.heap_classes.add("PatcherBundle")
    E.live_lists.add(("PatcherBundle", "chunks"))
    def number(E, o, v):
        if is_intlike(v): return v
        if E.mode != "infer": E.prove(B(False), "chunks have an identifier, an offset and sizes")
        return 0
    for f in ("chunk_id", "offset", "size", "target_size"):
        E.class_fields[("PatcherChunk", f)] = INT
        E.field_hooks[("PatcherChunk", f)] = number
    def inv(ctx):
        X = E.X
        ctx.unfold_with(lambda k: [OFF(z3.IntVal(0)) == 0, OFF(k + 1) == OFF(k) + X.size(k), Implies(k >= 1, OFF(k) == OFF(k - 1) + X.size(k - 1))] + X.wf(k))
        j = z3.Int("j!")
        upto = lambda k, t, v: forall([j], Implies(And(j >= 0, j < k), t == v), [t])
        for key, kind, e in ctx.slots():
            if not isinstance(kind, Raw): continue
            if kind.sort == z3.ArraySort(IntS, IntS):
                for name, f in (("identifiers", X.cid), ("offsets", OFF), ("sizes", X.size), ("target sizes", X.target), ("bundles", lambda j: X.base)):
                    ctx.cand(f"{key[1]}: {name} so far", lambda k, r, key=key, f=f: forall([j], Implies(And(j > X.base, j <= X.base + k), r(key)[0][j] == f(j - X.base - 1)), [r(key)[0][j]]))
                ctx.cand(f"{key[1]}: number of chunks", lambda k, r, key=key: r(key)[0][X.base] == k)
            elif kind.sort == z3.ArraySort(IntS, z3.ArraySort(IntS, IntS)):
                ctx.cand(f"{key[1]}: chunks so far", lambda k, r, key=key: upto(k, r(key)[0][X.base][j], X.base + 1 + j))
    E.invariants.append(inv)


class Bundle:
    def __init__(self, E):
        self.E = E
        E.fact(And(HAS(E.ref, 0), HAS(E.ref, 1)))
        self.t = NUM(E.ref, 1)
        self.n = s32(E, self.t)
        self.base = E.heap.slots["alloc"]
    def rec(self, j): return self.t + 4 + 4 * j + s32(self.E, self.t + 4 + 4 * j)
    def cid(self, j): return NUM(self.rec(j), 0)
    def size(self, j): return NUM(self.rec(j), 1)
    def target(self, j): return NUM(self.rec(j), 2)
    def wf(self, j): return [Implies(And(j >= 0, j < self.n), And(*[HAS(self.rec(j), i) for i in range(3)]))]


def run_bundle(E):
    f, bp = start(E)
    E.unpack_ground = 3
    E.class_fields[("PatcherBundle", "chunks")] = SeqK(ObjK(E.cls("patcher.PatcherChunk")))
    X = E.X = Bundle(E)
    st, v = call(E, E.getattr(E.cls("patcher.PatcherManifest"), "_parse_bundle"), bp)
    if st == "exc": return E.cover("refused")
    E.prove(I(E.getattr(v, "bundle_id")) == NUM(E.ref, 0), "identifier of the bundle")
    chunks = E.getattr(v, "chunks")
    n = z3.If(X.n > 0, X.n, 0)
    E.prove(I(M.length(E, chunks)) == n, "every chunk is listed")
    j = E.const("j", IntS)
    E.fact(And(j >= 0, j < n))
    c = M.getitem(E, chunks, j)
    for w in X.wf(j): E.fact(w)
    for name, f in (("chunk_id", X.cid), ("offset", OFF), ("size", X.size), ("target_size", X.target)): E.prove(eq(E, E.getattr(c, name), f(j)), f"{name} of a chunk")
    E.prove(B(E.identical(E.getattr(c, "bundle"), v)), "chunks know their bundle")
    E.cover("bundle")


GOALS.append(Goal("bundle", run_bundle, setup_bundle, covers=["refused", "bundle"]))


# ---------------------------------------------------------------- header

def run_header(E):
    """magic code, version and the place of the body, from a path or from an open file"""
    E.byte_axioms()
    D = E.D = symbytes(E)
    f = FileV(E, D)
    b = lambda i: M.byte_at(E, D, i)
    magic = And(D.n >= 4, *[b(i) == x for i, x in enumerate(b"RMAN")])
    version = And(b(4) == 2, Or(b(5) == 0, b(5) == 1))
    seen = []
    def body(E, args, kwargs):
        seen.append(args[1])
        return None
    E.contracts["patcher.PatcherManifest.parse_body"] = body
    how = E.choose("source", [("file object", None), ("path", None)])
    if how == 0: src = f
    else:
        src = E.const("path", StrS)
        class OneFS:
            faults = False
            def open(self, E, p, mode, kw):
                E.prove(And(S(p) == src, B(mode == "rb")), "the given file is opened for reading")
                return f
            def pred(self, E, name, p): return E.const("pred", BoolS)
        E.fs = OneFS()
    st, v = call(E, E.cls("patcher.PatcherManifest"), src)
    length = u(E, 12, 4)
    z = bsl(D.base, 28, z3.If(28 + length <= D.n, length, D.n - 28))
    if st == "exc":
        E.prove(Or(D.n < 6, And(magic, version), B(is_exc(E, v, "ValueError"))), "a wrong magic code or an unsupported version is a ValueError")
        good = And(magic, version, D.n >= 28, u(E, 6, 2) / 512 % 2 == 1, u(E, 8, 4) == 28, fcall("ok_pyzstd.decompress", z, ret=BoolS))
        E.prove(Not(good), "a manifest is parsed")
        E.cover("refused")
        return
    E.prove(And(magic, version), "wrong magic codes and unsupported versions are refused")
    E.prove(B(len(seen) == 1), "the body is parsed once")
    g = seen[0]
    E.prove(And(bytes_term(E, g.data) == fcall("f_pyzstd.decompress", z, ret=ByteS), I(g.slots["pos"]) == 0), "the body is the decompressed data that follows the header")
    E.cover("parsed")


GOALS.append(Goal("header", run_header, covers=["refused", "parsed"]))


# ---------------------------------------------------------------- tables of the body

FLAG, DIR, FILEK = Tup(INT, STR), Tup(STR, INT, Opt(INT)), Tup(STR, Opt(STR), Opt(SeqK(INT)), Opt(INT), Opt(INT), SeqK(INT))
def entry(kind, name, p): return [fcall(f"{name}{i}", I(p), ret=s) for i, s in enumerate(kind.sorts())]
JOIN = z3.Function("joined", StrS, StrS, StrS)
PATH = z3.Function("full_path", StrS, BoolS, IntS, StrS)        # name, no directory, directory
FT = z3.Function("text_of_flag", IntS, StrS)
DN, DR, DP = z3.Function("name_of_directory", IntS, StrS), z3.Function("is_root", IntS, BoolS), z3.Function("parent", IntS, IntS)
CH = z3.Function("chunk_with_identifier", IntS, IntS)
BREF = z3.Function("bundle_at", IntS, IntS)


class Body:
    def __init__(self, E):
        self.E = E
        n = u(E, 0, 4)
        self.at = 4 + z3.If(n >= 2 ** 31, n - 2 ** 32, n)
        self.tables = [E.const(f"table{i}", IntS) for i in range(4)]
        for i, t in enumerate(self.tables): E.fact(t == self.at + 4 * i + s32(E, self.at + 4 * i))
        self.n = [E.const(f"count{i}", IntS) for i in range(4)]
        for i, t in enumerate(self.tables): E.fact(self.n[i] == z3.If(s32(E, t) > 0, s32(E, t), 0))
        self.J, self.I, self.base = E.const("J", IntS), E.const("I", IntS), E.heap.slots["alloc"]
        E.fact(And(self.J >= 0, self.J < self.n[2], self.I >= 0))
        self.H = {k: E.heap.slots[k] for f in (("PatcherBundle", "chunks"), ("PatcherChunk", "chunk_id")) for k in E.heap_slots(*f, E.field_kind(*f))}
        self.file = self.row(2, self.J)
        self.path = self.path_of(self.J)
    def pos(self, i, j): return self.tables[i] + 4 + 4 * j + s32(self.E, self.tables[i] + 4 + 4 * j)
    def row(self, i, j): return entry([None, FLAG, FILEK, DIR][i], ["", "flag", "file", "dir"][i], self.pos(i, j))
    def path_of(self, j):
        t = self.row(2, j)
        return PATH(t[0], t[6], t[7])
    def rules(self, k):
        """identifiers are distinct; every file has its own path"""
        a, b, c = self.row(1, k), self.row(3, k), self.path_of(k)
        return [Implies(And(k >= 0, k < self.n[1]), FT(a[0]) == a[1]),
                Implies(And(k >= 0, k < self.n[3]), And(DN(b[1]) == b[0], DR(b[1]) == b[2], Implies(Not(b[2]), DP(b[1]) == b[3]))),
                Implies(And(k >= 0, k < self.n[2], k != self.J), c != self.path)]


def setup_body(E):
    E.class_fields[("PatcherChunk", "chunk_id")] = INT
    E.class_fields[("PatcherFile", "name")] = STR
    E.class_fields[("PatcherFile", "size")] = Opt(INT)
    E.class_fields[("PatcherFile", "link")] = Opt(STR)
    E.class_fields[("PatcherFile", "flags")] = Opt(SeqK(STR))
    def parsed(name, kind, make):
        def h(E, args, kwargs):
            if kwargs or len(args) not in (1, 2): return NotImplemented      # bound to the class or not
            f = E.getattr(args[-1], "f")
            p = f.slots["pos"]
            if not E.branch(fcall(f"{name}_ok", I(p), ret=BoolS), name): E.py_raise("struct.error")
            f.set("pos", E.const("pos", IntS))
            return make(E, p)
        return h
    unpack = lambda kind, name: lambda E, p: kind.unpack(E, entry(kind, name, p))
    E.contracts["patcher.PatcherManifest._parse_flag"] = parsed("flag", FLAG, unpack(FLAG, "flag"))
    E.contracts["patcher.PatcherManifest._parse_directory"] = parsed("dir", DIR, unpack(DIR, "dir"))
    E.contracts["patcher.PatcherManifest._parse_file_entry"] = parsed("file", FILEK, unpack(FILEK, "file"))
    E.contracts["patcher.PatcherManifest._parse_bundle"] = parsed("bundle", None, lambda E, p: SObj(E.cls("patcher.PatcherBundle"), BREF(I(p))))
    def hook(out):
        if len(out) == 3 and out[1] == "/" and is_z(out[0]) and is_z(out[2]): return JOIN(out[0], out[2])
    E.concat_hook = hook
    def inv(ctx):
        X = E.X
        x = z3.Int("x!")
        ctx.unfold_with(X.rules)
        known = lambda k, d, t: forall([x], Implies(d[x], t), [d[x]])
        for key, kind, e in ctx.slots():
            nm = f"{key[0]}{key[1]}"
            if isinstance(kind, MapK) and kind.kk == INT:
                if kind.vk == STR: ctx.cand(nm + ": texts of the flags", lambda k, r, key=key: known(k, r(key)[0], r(key)[1][x] == FT(x)))
                elif isinstance(kind.vk, ObjK): ctx.cand(nm + ": chunks by identifier", lambda k, r, key=key: known(k, r(key)[0], r(key)[1][x] == CH(x)))
                elif isinstance(kind.vk, Tup) and len(kind.vk.ks) == 2:
                    ctx.cand(nm + ": directories", lambda k, r, key=key: known(k, r(key)[0], And(r(key)[1][x] == DN(x), r(key)[2][x] == DR(x), Implies(Not(DR(x)), r(key)[3][x] == DP(x)))))
            if isinstance(kind, MapK) and kind.kk == STR and isinstance(kind.vk, ObjK):
                def cand(k, r, key=key, i=None):
                    def now(f): return r((E.heap.uid, f))[0] if (E.heap.uid, f) in ctx.info.mods else E.heap.slots[f]
                    o = r(key)[1][X.path]
                    what = [r(key)[0][X.path], o >= X.base, o < now("alloc")] if i is None else [file_is(X, o, lambda f: now(f"PatcherFile.{f}"))[i]]
                    return Implies(k > X.J, And(*what))
                ctx.cand(nm + ": a file under its path", cand)
                for i in range(9): ctx.cand(nm + f": the file under its path {i}", lambda k, r, i=i, cand=cand: cand(k, r, i=i))
            if kind == STR:
                for key2, kind2, e2 in ctx.slots():
                    if kind2 == Opt(INT):
                        ctx.cand(f"{nm}{key2}: path", lambda k, r, a=key, b=key2, e=e, e2=e2: PATH(r(a)[0], r(b)[0], r(b)[1]) == PATH(ctx.info.entry[a][0], ctx.info.entry[b][0], ctx.info.entry[b][1]))
    E.invariants.append(inv)


def file_is(X, o, h):
    """the object o is the file J"""
    t = X.file
    link, flags, size, chunks = t[1:3], t[3:6], t[8:10], t[10:12]
    return [h("name.0")[o] == X.path, h("size.0")[o] == size[0], Implies(Not(size[0]), h("size.1")[o] == size[1]),
            h("link.0")[o] == link[0], Implies(Not(link[0]), h("link.1")[o] == link[1]),
            h("flags.0")[o] == flags[0], Implies(Not(flags[0]), And(h("flags.1")[o] == flags[1], Implies(X.I < flags[1], h("flags.2")[o][X.I] == FT(flags[2][X.I])))),
            h("chunks.0")[o] == chunks[0], Implies(X.I < chunks[0], h("chunks.1")[o][X.I] == CH(chunks[1][X.I]))]


def run_body(E):
    E.byte_axioms()
    D = E.D = symbytes(E)
    for c in ("PatcherBundle", "PatcherFile"): E.class_fields[(c, "chunks")] = SeqK(ObjK(E.cls("patcher.PatcherChunk")))
    self = E.call(E.cls("patcher.PatcherManifest"), [])
    for f in ("name", "size", "link", "flags", "chunks"): list(E.heap_slots("PatcherFile", f, E.field_kind("PatcherFile", f)))
    X = E.X = Body(E)
    j, b, c = z3.Ints("j! b! c!")
    s, r = z3.Const("s!", StrS), z3.Bool("r!")
    E.axiom(forall([s, j], PATH(s, True, j) == s, [PATH(s, True, j)]))
    E.axiom(forall([s, j], PATH(s, False, j) == PATH(JOIN(DN(j), s), DR(j), DP(j)), [mpat(PATH(s, False, j), DN(j))]))
    rr = X.H["PatcherBundle.chunks.1"][BREF(b)][c]      # identifiers of chunks are distinct (positions without bundle do not matter)
    E.fact(forall([b, c], Implies(And(c >= 0, c < X.H["PatcherBundle.chunks.0"][BREF(b)]), CH(X.H["PatcherChunk.chunk_id.0"][rr]) == rr), [rr]))
    for w in X.rules(X.J): E.fact(w)
    st, v = call(E, E.getattr(self, "parse_body"), FileV(E, D))
    if st == "exc": return E.cover("refused")
    n = E.getattr(self, "bundles")
    E.prove(I(M.length(E, n)) == X.n[0], "every bundle is listed")
    i = E.const("i", IntS)
    E.fact(And(i >= 0, i < X.n[0]))
    E.prove(M.getitem(E, n, i).ref == BREF(X.pos(0, i)), "bundles are in listed order")
    files = E.getattr(self, "files")
    E.prove(B(M.contains(E, files, X.path)), "every file is found under its full path")
    o = M.getitem(E, files, X.path)
    h = lambda f: E.heap.slots[f"PatcherFile.{f}"]
    for t, what in zip(file_is(X, o.ref, h), ["path", "size", "size", "link", "link", "flags", "flags", "number of chunks", "chunks in listed order"]): E.prove(t, "a file has its " + what)
    E.cover("file")


GOALS.append(Goal("body", run_body, setup_body, covers=["refused", "file"]))

ASSUMPTIONS = ["P14: chunk identifiers, flag numbers and directory identifiers are each distinct within a manifest, and every file has its own path"]
