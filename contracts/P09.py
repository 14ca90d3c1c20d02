"""P09: reading and extracting one WAD entry: arbitrary header fields, archive bytes D and subchunk table."""
from pyvc.contract import *
from pyvc.fs import FS

zok = lambda t: fcall("ok_pyzstd.decompress", t, ret=BoolS)
zout = lambda t: fcall("f_pyzstd.decompress", t, ret=ByteS)
gok = lambda t: fcall("ok_gzip.decompress", t, ret=BoolS)
gout = lambda t: fcall("f_gzip.decompress", t, ret=ByteS)
xxh3 = lambda t: fcall("f_xxhash.xxh3_64_intdigest", t)
OFF = z3.Function("subchunk_offset", IntS, IntS)
CAT = z3.Function("subchunk_concat", IntS, ByteS)


class Entry:
    """arbitrary entry, archive file and table"""
    def __init__(self, E, toc="any"):
        self.E = E
        E.byte_axioms()
        self.D = D = symbytes(E, "archive")
        self.offset, self.csize = E.const("offset", IntS), E.const("csize", IntS)
        E.fact(And(self.offset >= 0, self.csize >= 0))
        self.type, self.count, self.first = E.const("type", IntS), E.const("subchunk_count", IntS), E.const("first", IntS)
        E.fact(And(self.type >= 0, self.type < 16, self.count >= 0, self.count < 16, self.first >= 0))
        size = E.const("size", IntS)
        self.path = E.const("path", StrS)
        self.header = obj(E, "wad.WadFileHeader", path_hash=E.const("path_hash", IntS), offset=self.offset, size=size, subchunk_count=self.count, type=self.type,
                          compressed_size=self.csize, duplicate=E.const("dup", BoolS), first_subchunk_index=self.first, sha256=E.const("sha", IntS),
                          path=self.path, ext=None)
        left = D.n - self.offset
        self.n = z3.If(left <= 0, 0, z3.If(left <= self.csize, left, self.csize))
        self.data = bsl(D.base, self.offset, self.n)
        E.fact(Implies(self.n == 0, self.data == bempty))
        E.fact(Implies(And(self.offset == 0, self.n == D.n), self.data == D.base))
        has = E.choose("table", [("no", None), ("yes", None)])
        self.toc = symbytes(E, "toc") if has else None
        if has:
            E.fact(And(OFF(0) == 0, CAT(0) == bempty))

    def unfold(self, j):
        return [OFF(j + 1) == OFF(j) + self.cs(j), CAT(j + 1) == bcat(CAT(j), self.content(j))]
    def cs(self, j): return M.le(self.E, self.toc.base, 16 * (self.first + j), 4)
    def us(self, j): return M.le(self.E, self.toc.base, 16 * (self.first + j) + 4, 4)
    def sum(self, j): return M.le(self.E, self.toc.base, 16 * (self.first + j) + 8, 8)
    def chunk(self, j): return bsl(self.D.base, self.offset + OFF(j), self.cs(j))
    def intact(self, j): return And(OFF(j) + self.cs(j) <= self.n, xxh3(self.chunk(j)) == self.sum(j))
    def content(self, j): return z3.If(self.cs(j) == self.us(j), self.chunk(j), zout(self.chunk(j)))
    def listed(self, j): return 16 * (self.first + j) + 16 <= self.toc.n
    def readable(self, j): return Or(self.cs(j) == self.us(j), zok(self.chunk(j)))
    def all(self, P, upto=None):
        j = z3.Int("j!")
        return forall([j], Implies(And(j >= 0, j < (self.count if upto is None else upto)), P(j)), [OFF(j)])


def setup(E):
    def invariant(ctx):
        X = getattr(E, "X", None)
        if X is None or X.toc is None: return
        ctx.unfold_with(lambda k: X.unfold(k) + [OFF(k) >= 0])
        for lab, f, w in int_comps(ctx):
            if w == "int":
                ctx.cand(f"{lab} is the offset in the entry", lambda k, r, f=f: f(r) == OFF(k))
                ctx.cand(f"{lab} is the offset in the archive", lambda k, r, f=f: f(r) == X.offset + OFF(k))
                ctx.cand(f"{lab} is the index in the table", lambda k, r, f=f: f(r) == X.first + k)
        for key, kind, e in ctx.slots():
            if kind == INT or kind == NAT:
                e0 = ctx.info.entry[key][0]
                if E.try_prove(e0 == 0): ctx.define(key, 0, "offset in the entry", lambda k: OFF(k))
            if isinstance(kind, SeqK) and kind.k == BYTES:
                def elems(k, r, key=key):
                    j = z3.Int("j!")
                    a = r(key)[1]
                    return forall([j], Implies(And(j >= 0, j < k), z3.Select(a, j) == X.content(j)), [z3.Select(a, j)])
                ctx.cand(f"{key} holds the contents", elems)
            if kind == BYTES: ctx.cand(f"{key} is the concatenation", lambda k, r, key=key: r(key)[0] == CAT(k))
        ctx.cand("the chunks so far are intact", lambda k, r: X.all(lambda j: And(X.intact(j), X.listed(j), X.readable(j)), k))
        ctx.cand("the chunks so far are within the entry", lambda k, r: And(OFF(k) >= 0, Or(k == 0, OFF(k) <= X.n)))
    E.invariants.append(invariant)


def malformed(E, v): return isinstance(v, ExcV) and E.is_subclass(v.cls, E.cls("wad.MalformedSubchunkError"))


def content_ok(E, X, res, what):
    """the value returned by a successful read"""
    t = X.type
    E.prove(Or(t == 0, t == 1, t == 2, t == 3, t == 4), what + ": other types are refused")
    if E.resolve(res) is None:
        E.prove(t == 2, what + ": only redirections have no content")
        E.cover("redirection")
        return None
    E.prove(t != 2, what + ": redirections have no content")
    b = bytes_term(E, res)
    which = E.choose("type", [("0", t == 0), ("1", t == 1), ("3", t == 3), ("4", t == 4)])
    if which == 0: E.prove(b == X.data, what + ": type 0 is returned as stored")
    if which == 1: E.prove(And(gok(X.data), b == gout(X.data)), what + ": type 1 is gunzipped")
    if which == 2: E.prove(And(zok(X.data), b == zout(X.data)), what + ": type 3 is decompressed")
    if which == 3 and X.toc is None: E.prove(And(zok(X.data), b == zout(X.data)), what + ": type 4 without table is decompressed as a whole")
    if which == 3 and X.toc is not None:
        E.prove(X.all(X.listed), what + ": every subchunk is in the table")
        E.prove(X.all(X.intact), what + ": cut or corrupted subchunks are refused")
        E.prove(X.all(X.readable), what + ": every compressed subchunk was decompressed")
        ja = joined(E, b)
        if ja:
            a, n = ja
            E.prove(n == X.count, what + ": all subchunks are there")
            induct(E, what + ": concatenation", X.count, lambda k: fcall("bjoin", a, k, ret=ByteS) == CAT(k),
                   lambda k: X.unfold(k) + [fcall("bjoin", a, k + 1, ret=ByteS) == bcat(fcall("bjoin", a, k, ret=ByteS), z3.Select(a, k))])
        E.prove(b == CAT(X.count), what + ": type 4 is the concatenation of the subchunks")
    E.cover(["type 0", "type 1", "type 3", "type 4"][which] + (" with table" if X.toc is not None and which == 3 else ""))
    return b


def read_failed(E, X, v, what):
    t = X.type
    if malformed(E, v):
        E.prove(t == 4, what + ": only subchunked entries are malformed")
        if X.toc is None: E.prove(Not(zok(X.data)), what + ": malformed without table means that decompression failed")
        else: E.prove(Not(X.all(X.intact)), what + ": malformed means that a subchunk is cut or corrupted")
        E.cover("malformed" + (" with table" if X.toc is not None else ""))
        return
    if X.toc is None:
        E.prove(t != 4, what + ": any failure to decompress a subchunked entry makes it malformed")
    else:
        E.prove(Implies(t == 4, Not(X.all(lambda j: And(X.listed(j), X.readable(j))))), what + ": other errors only for a bad table or undecodable chunk")
    E.prove(t != 0, what + ": stored data is always returned")
    E.prove(Implies(t == 1, Not(gok(X.data))), what + ": valid gzip data is returned")
    E.prove(Implies(t == 3, Not(zok(X.data))), what + ": valid zstd data is returned")
    E.prove(Implies(t > 4, B(is_exc(E, v, "ValueError"))), what + ": other types are refused with ValueError")
    E.cover("error")


def run_read(E):
    X = E.X = Entry(E)
    f = FileV(E, X.D)
    f.slots["pos"] = E.const("anywhere", IntS)
    E.fact(f.slots["pos"] >= 0)
    st, v = call(E, E.getattr(X.header, "read_data"), f, X.toc)
    if st == "ok": content_ok(E, X, v, "read_data")
    else: read_failed(E, X, v, "read_data")


def read_contract(E, X):
    """read_data replaced by the contract proved by the first goal"""
    def h(E, args, kwargs):
        names = ["self", "f", "subchunk_toc"]
        got = dict(zip(names, args), **kwargs)
        if set(got) - set(names): return NotImplemented
        fv = E.resolve(got["f"])
        if got["self"] is not X.header or not (isinstance(fv, FileV) and fv.data is X.D): return NotImplemented
        toc = E.resolve(got.get("subchunk_toc"))
        E.prove(B(toc is X.toc), "the entry is read with the subchunk table of its archive")
        fv.set("pos", E.const("pos_after", IntS))
        E.fact(fv.slots["pos"] >= 0)
        t = X.type
        corrupt = Not(zok(X.data)) if X.toc is None else Not(X.all(X.intact))
        unusable = B(False) if X.toc is None else Not(X.all(lambda j: And(X.listed(j), X.readable(j))))
        whole = [("0", t == 0, X.data), ("1", And(t == 1, gok(X.data)), gout(X.data)), ("3", And(t == 3, zok(X.data)), zout(X.data))]
        if X.toc is None: whole.append(("4", And(t == 4, zok(X.data)), zout(X.data)))
        else: whole.append(("4", And(t == 4, X.all(X.listed), X.all(X.intact), X.all(X.readable)), CAT(X.count)))
        i = E.choose("read_data", [(n, c) for n, c, _ in whole] + [("none", t == 2), ("malformed", And(t == 4, corrupt)),
             ("error", And(t != 0, Implies(t == 1, Not(gok(X.data))), Implies(t == 3, Not(zok(X.data))), Implies(t == 4, unusable)))])
        if i < 4:
            r = whole[i][2]
            E.fact(blen(r) >= 0)
            return SB(r, z3.IntVal(0), blen(r))
        if i == 4: return None
        if i == 5: raise PyRaise(E.call(E.cls("wad.MalformedSubchunkError"), [SB(X.data, z3.IntVal(0), X.n)]))
        e = SymExc("error of read_data", base="Exception")
        e.tests["MalformedSubchunkError"] = False
        E.fact(Implies(t > 4, B(True)))
        if E.choose("type", [("4 or less", t <= 4), ("more", t > 4)]) == 1: E.py_raise("ValueError", "unsupported file type")
        raise PyRaise(e)
    E.contracts["wad.WadFileHeader.read_data"] = h


def run_archive_reader(E):
    """Wad.read_file_data: as read_data with the archive's table, None for malformed entries"""
    X = E.X = Entry(E)
    f = FileV(E, X.D)
    read_contract(E, X)
    wad = obj(E, "wad.Wad", path=E.const("wadpath", StrS), version=(3, 4), files=None, subchunk_toc=X.toc)
    st, v = call(E, E.getattr(wad, "read_file_data"), f, X.header)
    if st == "exc":
        E.prove(B(not malformed(E, v)), "read_file_data: malformed entries are not an error")
        read_failed(E, X, v, "read_file_data")
        return
    if E.resolve(v) is None:
        bad = X.type == 4
        if X.toc is not None: bad = And(bad, Not(X.all(X.intact)))
        else: bad = And(bad, Not(zok(X.data)))
        E.prove(Or(X.type == 2, bad), "read_file_data: None only for redirections and malformed entries")
        E.cover("none")
        return
    content_ok(E, X, v, "read_file_data")


def run_extract(E):
    E.fs = FS(E, faults=False)
    X = E.X = Entry(E)
    f = FileV(E, X.D)
    read_contract(E, X)
    p = E.const("output", StrS)
    before = dict(E.fs.slots)
    which = E.choose("writing", [("works", None), ("fails", None)])
    if which == 1:
        err = SymExc("OSError of the file system", base="OSError")
        def bad(E_, path, mode, kw): raise PyRaise(err)
        E.fs.open = bad
    d = fcall("path_dirname", p, ret=StrS)
    E.fact(And(Not(E.fs.at("dirs", p)), E.fs.at("kind", p) != 2, E.fs.at("kind", d) == 0, d != p))
    st, v = call(E, E.getattr(X.header, "extract"), f, p, X.toc)
    q = E.const("other", StrS)
    E.fact(q != p)
    for s in ("kind", "data", "text", "link"):
        E.prove(z3.Select(E.fs.slots[s], q) == z3.Select(before[s], q), f"extract: no other path is touched ({s})")
    untouched = And(*[E.fs.slots[s] == before[s] for s in ("kind", "data", "text", "link")])
    if st == "exc":
        if which == 1 and v is err: return
        E.prove(B(not malformed(E, v)), "extract: malformed entries are not an error")
        E.prove(untouched, "extract: nothing is written when reading fails")
        read_failed(E, X, v, "extract")
        return
    if which == 1: return
    written = And(E.fs.at("kind", p) == 1)
    t = X.type
    bad = t == 4
    if X.toc is not None: bad = And(bad, Not(X.all(X.intact)))
    else: bad = And(bad, Not(zok(X.data)))
    if E.fs.slots["kind"].eq(before["kind"]) and E.fs.slots["data"].eq(before["data"]):
        E.prove(Or(t == 2, bad), "extract: only redirections and malformed entries are skipped")
        E.cover("skipped")
        return
    E.prove(E.fs.at("kind", p) == 1, "extract: the file is written")
    t = E.fs.at("data", p)
    b = z3.simplify(t)
    content_ok(E, X, SB(b, z3.IntVal(0), blen(b)), "extract")


def symbolic_files(E, n=None):
    """arbitrary list of distinct entries: (list cell, length, array of references)"""
    c = E.cls("wad.WadFileHeader")
    n = E.const("files", IntS) if n is None else n
    refs = E.const("refs", z3.ArraySort(IntS, IntS))
    a, b = z3.Ints("a! b!")
    E.fact(n >= 0)
    E.fact(forall([a], And(z3.Select(refs, a) >= 1, z3.Select(refs, a) < z3.Int("alloc0")), [z3.Select(refs, a)]))
    E.fact(forall([a, b], Implies(And(a >= 0, b >= 0, a < n, b < n, a != b), z3.Select(refs, a) != z3.Select(refs, b)), [mpat(z3.Select(refs, a), z3.Select(refs, b))]))
    for f, k in (("path_hash", INT), ("offset", INT), ("size", INT), ("compressed_size", INT), ("type", INT), ("subchunk_count", INT), ("duplicate", BOOL),
                 ("first_subchunk_index", Opt(INT)), ("sha256", Opt(INT)), ("path", Opt(STR)), ("ext", Opt(STR))):
        E.class_fields[("WadFileHeader", f)] = k
    return ListCell(E, SSeq(ObjK(c), n, [refs])), n, refs, c


def file_field(E, c, ref, name):
    return E.getattr(SObj(c, ref), name)


def setup_toc(E):
    def invariant(ctx):
        T = E.T
        ctx.cand("no table so far", lambda k, r: T["none_before"](k))
    E.invariants.append(invariant)


def run_toc(E):
    files, n, refs, c = symbolic_files(E)
    def is_table(j):
        v = file_field(E, c, z3.Select(refs, j), "path")
        return And(Not(v.isnone), z3.SuffixOf(z3.StringVal(".subchunktoc"), v.val))
    def none_before(k):
        j = z3.Int("j!")
        return forall([j], Implies(And(j >= 0, j < k), Not(is_table(j))), [z3.Select(refs, j)])
    E.T = {"none_before": none_before}
    reads = []
    def h(E, args, kwargs):
        x = E.resolve(args[0])
        reads.append(x)
        if E.choose("read", [("data", None), ("error", None), ("malformed", None)]): raise PyRaise(SymExc("error of read_data", base="Exception"))
        t = fcall("entry_content", E.ref_of(x), ret=ByteS)
        E.fact(blen(t) >= 0)
        return SB(t, z3.IntVal(0), blen(t))
    E.contracts["wad.WadFileHeader.read_data"] = h
    path = E.const("wadpath", StrS)
    E.fact(fcall("fs_readable", path, ret=BoolS))
    wad = obj(E, "wad.Wad", path=path, version=(3, 4), files=files)
    i = E.const("i", IntS)
    st, v = call(E, E.getattr(wad, "load_subchunk_toc"))
    if st == "exc":
        E.prove(B(len(reads) == 1), "an error comes from reading the table")
        return
    toc = E.resolve(E.getattr(wad, "subchunk_toc"))
    if toc is None:
        E.prove(And(B(not reads), none_before(n)), "no table only when no file is one")
        E.cover("none")
        return
    E.fact(And(i >= 0, i < n, is_table(i), none_before(i)))      # the first table
    E.prove(bytes_term(E, toc) == fcall("entry_content", z3.Select(refs, i), ret=ByteS), "the table is the content of the first .subchunktoc file")
    E.cover("table")


READ = ["type 0", "type 1", "type 3", "type 4", "type 4 with table", "redirection", "malformed", "malformed with table", "error"]
GOALS = [Goal("read_data", run_read, setup, covers=READ, cfg={"try_both": True}),
         Goal("read_file_data", run_archive_reader, setup, covers=["none", "type 0", "type 4 with table", "error"]),
         Goal("extract", run_extract, setup, covers=["skipped", "type 0", "type 4 with table", "error"]),
         Goal("load_subchunk_toc", run_toc, setup_toc, covers=["none", "table"])]
