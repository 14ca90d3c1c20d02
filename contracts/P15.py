"""P15: patcher downloads, over manifests with arbitrary files, chunks and bundles."""
from pyvc.contract import *
from pyvc.fs import FS

II = z3.ArraySort(IntS, IntS)


def reset(E):
    E.frames.append(E.new_frame(E.module("tools"), None, "caller", set()))


def declare(E):
    """arbitrary heap of manifest files, chunks and bundles"""
    F, C, Bu = (E.cls("patcher." + c) for c in ("PatcherFile", "PatcherChunk", "PatcherBundle"))
    for c, f, k in ((F, "name", STR), (F, "size", INT), (F, "link", Opt(STR)), (F, "flags", Opt(SeqK(STR))), (F, "chunks", SeqK(ObjK(C))),
                    (C, "chunk_id", INT), (C, "bundle", ObjK(Bu)), (C, "offset", INT), (C, "size", INT), (C, "target_size", INT), (Bu, "bundle_id", INT)):
        E.class_fields[(c.name, f)] = k
    a = z3.Int("a!")
    h = lambda c, f, r: E.heap_get(SObj(c, r), f)
    class D: pass
    D.F, D.C, D.Bu = F, C, Bu
    D.field = staticmethod(lambda c, ref, f: E.getattr(SObj(c, ref), f))
    r = E.const("any", IntS)
    D.field(F, r, "chunks"); D.field(F, r, "name"); D.field(F, r, "link"); D.field(F, r, "size"); D.field(C, r, "chunk_id"); D.field(C, r, "bundle"); D.field(Bu, r, "bundle_id")
    sl = E.heap.slots
    D.nchunks = staticmethod(lambda ref, a=sl["PatcherFile.chunks.0"]: z3.Select(a, ref))
    D.chunks = staticmethod(lambda ref, a=sl["PatcherFile.chunks.1"]: z3.Select(a, ref))
    D.name = staticmethod(lambda ref, a=sl["PatcherFile.name.0"]: z3.Select(a, ref))
    D.size = staticmethod(lambda ref, a=sl["PatcherFile.size.0"]: z3.Select(a, ref))
    D.linked = staticmethod(lambda ref, a=sl["PatcherFile.link.0"], b=sl["PatcherFile.link.1"]: And(Not(z3.Select(a, ref)), z3.Select(b, ref) != S("")))
    D.cid = staticmethod(lambda ref, a=sl["PatcherChunk.chunk_id.0"]: z3.Select(a, ref))
    D.bid = staticmethod(lambda ref, a=sl["PatcherChunk.bundle.0"], b=sl["PatcherBundle.bundle_id.0"]: z3.Select(b, z3.Select(a, ref)))
    E.D = D
    return D


def file(E, D, ref=None):
    ref = E.const("file", IntS) if ref is None else ref
    E.fact(D.nchunks(ref) >= 0)
    return SObj(D.F, ref), ref


# ---------------------------------------------------------------- language filter

def run_langs(E):
    D = declare(E)
    o, ref = file(E, D)
    which = E.choose("langs", [("False", None), ("True", None), ("text", None), ("list", None)])
    flags = E.getattr(o, "flags")
    none = B(E.identical(flags, None))
    n = E.const("langs", IntS)
    L = E.const("L", z3.ArraySort(IntS, StrS))
    E.fact(And(n >= 0, n < 4)) if False else E.fact(n >= 0)
    low = lambda s: S(M.str_method(E, s, "lower", [], {})) if hasattr(M, "str_method") else fcall("str_lower", S(s), ret=StrS)
    one = E.const("lang", StrS)
    arg = [False, True, one, ListCell(E, SSeq(STR, n, [L]))][which]
    st, p = call(E, func(E, "patcher.PatcherFile.langs_predicate"), arg)
    E.prove(B(st == "ok"), "a filter is built from False, True, a language or a list of languages")
    if st != "ok": return
    st, v = call(E, p, o)
    E.prove(B(st == "ok"), "the filter is defined for every file")
    if st != "ok": return
    v = B(E.truth(v))
    if which == 1:
        E.prove(v, "True selects all files")
        E.cover("True")
        return
    if E.branch(none, "no flags"):
        E.prove(v == B(which == 0), "files without flags are selected by False, and not by languages")
        E.cover("no flags")
        return
    E.opt_known(flags) if hasattr(E, "opt_known") else None
    fs = E.resolve(flags)
    m, A = I(M.seq_len(E, fs)), fs.arrs[0] if isinstance(fs, SSeq) else fs.v.arrs[0]
    j, i = z3.Int("j!"), z3.Int("i!")
    if which == 0:
        lang = lambda t: And(z3.Length(t) == 5, z3.Contains(t, S("_")))
        E.prove(v == Not(z3.Exists([j], And(j >= 0, j < m, lang(A[j])))), "False selects the files without language flag (five characters, one being '_')")
        E.cover("False")
        return
    x = E.const("x", IntS)
    y = E.const("y", IntS)
    lw = lambda t: fcall("str_lower", t, ret=StrS)
    if which == 2:
        E.prove(Implies(And(x >= 0, x < m, lw(A[x]) == lw(one)), v), "a file flagged with the language is selected, whatever the case")
        E.prove(Implies(v, z3.Exists([j], And(j >= 0, j < m, lw(A[j]) == lw(one)))), "only files flagged with the language are selected")
        E.cover("language")
        return
    E.prove(Implies(And(x >= 0, x < m, y >= 0, y < n, lw(A[x]) == lw(L[y])), v), "a file flagged with one of the languages is selected, whatever the case")
    E.prove(Implies(v, z3.Exists([i, j], And(i >= 0, i < m, j >= 0, j < n, lw(A[i]) == lw(L[j])))), "only files flagged with one of the languages are selected")
    E.cover("languages")


# ---------------------------------------------------------------- content of a file

HEX = z3.Function("ids_text", IntS, ByteS)
DATA = z3.Function("assembled", IntS, ByteS)
CD = z3.Function("chunk_data", IntS, ByteS)


def setup_fold(E):
    def inv(ctx):
        X = E.X
        ctx.unfold_with(lambda k: X.step(k))
        for key, kind in ctx.info.mods.items():
            if kind == BYTES or isinstance(kind, Raw) and kind.sort == ByteS: ctx.define(key, 0, "all chunks so far", lambda k: X.G(k))
        if hasattr(E.fs, "uid") if E.fs else False:
            key = (E.fs.uid, "data")
            if key in ctx.info.mods:
                for nm, p in X.paths.items():
                    ctx.cand(f"{nm} holds the chunks so far", lambda k, r, p=p: z3.Select(r(key)[0], p) == X.G(k))
                def frame(k, r, e=ctx.entry[key]):
                    q = z3.String("q!")
                    return forall([q], Or(*[q == p for p in X.paths.values()], z3.Select(r(key)[0], q) == z3.Select(e, q)), [z3.Select(r(key)[0], q)])
                ctx.cand("data frame", frame)
                for nm, p in X.paths.items():
                    ctx.cand(f"{nm} data kept", lambda k, r, p=p, e=ctx.entry[key]: z3.Select(r(key)[0], p) == z3.Select(e, p))
            key2 = (E.fs.uid, "kind")
            if key2 in ctx.info.mods: ctx.cand("kind kept", lambda k, r, e=ctx.entry[key2]: r(key2)[0] == e)
    E.invariants.append(inv)


def run_hexdigest(E):
    E.byte_axioms()
    D = declare(E)
    o, ref = file(E, D)
    class X: pass
    E.X = X
    X.G, X.paths = HEX, {}
    def step(k):
        c = D.cid(z3.Select(D.chunks(ref), k))
        return [HEX(k + 1) == bcat(HEX(k), fcall("encode_utf8", M.hexstr(E, c, 16, True), ret=ByteS))]
    X.step = step
    E.fact(HEX(0) == bempty)
    j = z3.Int("j!")
    E.fact(forall([j], And(D.cid(z3.Select(D.chunks(ref), j)) >= 0), [z3.Select(D.chunks(ref), j)]))
    st, v = call(E, E.getattr(o, "hexdigest"))
    E.prove(B(st == "ok"), "no error")
    if st != "ok": return
    content = v.arg(0) if is_z(v) and z3.is_app(v) and v.decl().name() == "hexdigest_sha1" else None
    if content is not None and z3.is_app(content) and content.decl().name() == "bjoin":      # the digest of the joined identifiers
        a = content.arg(0)
        induct(E, "joined identifiers", D.nchunks(ref), lambda k: M.bjoin(E, a, k) == HEX(k), lambda k: step(k) + [z3.Select(a, k) == z3.Select(a, k)])
    E.prove(S(v) == fcall("hexdigest_sha1", HEX(D.nchunks(ref)), ret=StrS), "the digest is the SHA-1 of the chunk identifiers, in order, as 16 hexadecimal digits each")
    E.cover("digest")


def storage(E, **kw):
    return obj(E, "patcher.PatcherStorage", path=E.const("root", StrS), url="https://cdn/", patchline="live", clientconfig_data=None, s=None, **kw)


def run_load_chunk(E):
    E.byte_axioms()
    D = declare(E)
    s = storage(E, use_extract_symlinks=E.const("links", BoolS))
    ref = E.const("chunk", IntS)
    o = SObj(D.C, ref)
    off, size = I(E.getattr(o, "offset")), I(E.getattr(o, "size"))
    E.fact(And(off >= 0, size >= 0, D.bid(ref) >= 0, D.bid(ref) < 2 ** 64))
    opened = []
    content = symbytes(E, "bundle")
    class OneBundle:
        faults = False
        def open(self, E, p, mode, kw):
            E.prove(S(p) == fcall("path_join", s.slots["path"], z3.Concat(S("channels/public/bundles/"), S(M.hexstr(E, D.bid(ref), 16, True)), S(".bundle")), ret=StrS), "the bundle of the chunk is read")
            E.prove(B(mode == "rb"), "bundles are read as they are")
            opened.append(1)
            return FileV(E, content)
    E.fs = OneBundle()
    E.fact(off + size <= content.n)
    st, v = call(E, E.getattr(s, "load_chunk"), o)
    raw = bsl(content.base, off, size)
    ok = fcall("ok_pyzstd.decompress", raw, ret=BoolS)
    if st != "ok":
        E.prove(Not(ok), "a chunk that can be decompressed is no error")
        E.cover("failed")
        return
    E.prove(And(ok, E.bseq(E.resolve(v)) == fcall("f_pyzstd.decompress", raw, ret=ByteS)), "a chunk is the decompressed data of its range in its bundle")
    E.cover("loaded")


def run_extract(E):
    E.byte_axioms()
    reset(E)
    D = declare(E)
    o, ref = file(E, D)
    links = E.choose("symbolic links", [("used", None), ("not used", None)]) == 0
    s = storage(E, use_extract_symlinks=links)
    out = E.const("output", StrS)
    HD = E.const("digest", StrS)
    E.contracts["patcher.PatcherFile.hexdigest"] = lambda E, a, k: (E.prove(B(isinstance(a[0], SObj) and a[0].ref.eq(ref)), "the digest is the one of the file"), HD)[1]
    real = fcall("path_join", s.slots["path"], z3.Concat(S("cdtb/files/"), HD), ret=StrS) if links else out
    E.fs = F = FS(E)
    E.fact(Not(F.at("dirs", out)))
    E.fact(Not(F.at("dirs", real)))
    E.fact(Or(F.at("kind", real) == 0, F.at("kind", real) == 1))
    E.fact(Or(F.at("kind", out) == 0, F.at("kind", out) == 1, F.at("kind", out) == 2))
    ds = [fcall("path_dirname", x, ret=StrS) for x in (out, real)]
    for d in ds: E.fact(And(F.at("kind", d) == 0, d != out, d != real))
    if links: E.fact(out != real)
    before = dict(F.slots)
    class X: pass
    E.X = X
    X.G = DATA
    X.paths = {"output": out, "content": real} if links else {"output": out}
    X.step = lambda k: [DATA(k + 1) == bcat(DATA(k), CD(z3.Select(D.chunks(ref), k)))]
    E.fact(DATA(0) == bempty)
    def lc(E, a, k):
        if k or len(a) != 2 or not isinstance(E.resolve(a[1]), SObj): return NotImplemented
        t = CD(E.resolve(a[1]).ref)
        E.fact(blen(t) >= 0)
        return SB(t, z3.IntVal(0), blen(t))
    E.contracts["patcher.PatcherStorage.load_chunk"] = lc
    st, v = call(E, E.getattr(s, "extract_file"), o, out)
    E.prove(B(st == "ok"), "extracting from available chunks is no error")
    if st != "ok": return
    n = D.nchunks(ref)
    have = z3.Select(before["kind"], real) == 1
    if links:
        E.prove(F.at("kind", out) == 2, "the name becomes a symbolic link")
        E.prove(F.at("link", out) == fcall("path_relpath", real, ds[0], ret=StrS), "the link is the relative path of the shared content from its own directory")
        E.prove(F.at("kind", real) == 1, "the shared content is a file, at the place given by the digest of the chunk identifiers")
        E.prove(F.at("data", real) == z3.If(have, z3.Select(before["data"], real), DATA(n)), "the shared content is the chunks in order, unless it is there already")
    else:
        E.prove(F.at("kind", out) == 1, "the name is a plain file")
        E.prove(F.at("data", out) == DATA(n), "the file is the concatenation of its chunks in order, whatever was there before")
    q = E.const("other", StrS)
    E.fact(And(q != out, q != real))
    for x in ("kind", "data", "text", "link"): E.prove(z3.Select(F.slots[x], q) == z3.Select(before[x], q), f"no other path is touched ({x})")
    E.cover("links" if links else "plain")


# ---------------------------------------------------------------- elements

def element(E, D, **kw):
    s = storage(E, use_extract_symlinks=E.const("links", BoolS))
    rel = obj(E, "patcher.PatcherRelease", storage=s, version=E.const("version", IntS), storage_dir=E.const("dir", StrS), data=None)
    return obj(E, "patcher.PatcherReleaseElement", release=rel, name="game", manif_url=None, **kw), rel, s


def run_one(E):
    """element.extract_file, is_extracted_file and extract_path"""
    E.byte_axioms()
    reset(E)
    D = declare(E)
    o, ref = file(E, D)
    el, rel, s = element(E, D, _manif=None)
    out = z3.Concat(rel.slots["storage_dir"], S("/files/"), D.name(ref))
    st, p = call(E, E.getattr(el, "extract_path"), o)
    E.prove(B(st == "ok"), "no error")
    E.prove(S(p) == out, "a file is extracted under its own name")
    class Probe:
        faults = False
        def pred(self, E, name, p):
            E.prove(And(S(p) == out, B(name == "isfile")), "what is looked at is the file itself")
            return E.X["isfile"]
        def size(self, E, p):
            E.prove(S(p) == out, "what is measured is the file itself")
            return E.X["size"]
    E.X = {"isfile": E.const("isfile", BoolS), "size": E.const("disksize", IntS)}
    E.fs = Probe()
    st, v = call(E, E.getattr(el, "is_extracted_file"), o)
    E.prove(B(st == "ok"), "no error")
    there = And(E.X["isfile"], E.X["size"] == D.size(ref))
    E.prove(B(E.truth(v)) == there, "a file is already extracted when it is there with the right size")
    calls = []
    def ef(E, a, k):
        E.prove(And(B(E.resolve(a[1]).ref.eq(ref)), S(a[2] if len(a) > 2 else k["output"]) == out), "the file itself is extracted, to its own path")
        calls.append(1)
        return None
    E.contracts["patcher.PatcherStorage.extract_file"] = ef
    ow = E.choose("overwrite", [("no", None), ("yes", None), ("default", None)])
    st, v = call(E, E.getattr(el, "extract_file"), o, **({} if ow == 2 else {"overwrite": ow == 1}))
    E.prove(B(st == "ok"), "no error")
    E.prove(B(len(calls) == 1) == (B(True) if ow == 1 else Not(there)), "a file is extracted exactly when overwriting is requested or it is not there with the right size")
    E.prove(B(len(calls) <= 1), "a file is extracted once")
    E.cover("extracted" if calls else "skipped")


SEL = z3.Function("selected", IntS, BoolS)
EXT = z3.Function("extracted", IntS, BoolS)
USED = z3.Function("used_bundle", IntS, BoolS)


def with_manifest(E, skip):
    D = declare(E)
    dom, vals = E.const("names", z3.ArraySort(StrS, BoolS)), E.const("files", z3.ArraySort(StrS, IntS))
    files = DictCell(E, SMap(STR, ObjK(D.F), dom, [vals]))
    man = obj(E, "patcher.PatcherManifest", files=files, bundles=None, chunks=None, flags=None)
    el, rel, s = element(E, D, _manif=man)
    langs = E.const("langs", AnyS)
    def lp(E, a, k):
        x = E.resolve(a[-1] if a else k["langs"])
        E.prove(B(isinstance(x, Opq) and x.t.eq(langs)), "files are filtered by the given languages")
        return BuiltinV("predicate", lambda E, a, k: SEL(E.resolve(a[0]).ref))
    E.contracts["patcher.PatcherFile.langs_predicate"] = lp
    E.contracts["patcher.PatcherReleaseElement.is_extracted_file"] = lambda E, a, k: EXT(E.resolve(a[1]).ref)
    D.wanted = lambda ref: And(SEL(ref), Not(D.linked(ref)))
    D.dom, D.vals = dom, vals
    a = z3.Int("a!")
    E.fact(forall([a], D.nchunks(a) >= 0, [D.nchunks(a)]))
    x = E.const("X", StrS)
    E.fact(z3.Select(dom, x))
    D.x, D.xref = x, z3.Select(vals, x)
    return D, el, rel, s, Opq(langs)


def seq_of(ctx):
    it = ctx.iterable
    v = it.v if isinstance(it, ListCell) else it
    return v if isinstance(v, SSeq) else None


def setup_extract_all(E):
    E.no_exists_frames = E.sort_is_permutation = True
    def inv(ctx):
        G = E.G
        key = (G.uid, "done")
        if key not in ctx.info.mods: return
        q = seq_of(ctx)
        j = z3.Int("j!")
        if q is not None and isinstance(q.kind, ObjK):
            ctx.cand("files so far are extracted", lambda k, r: forall([j], Implies(And(j >= 0, j < k, E.D.wanted(q.arrs[0][j])), r(key)[0][q.arrs[0][j]]), [q.arrs[0][j]]))
        else:
            ctx.cand("files so far are extracted (by name)", lambda k, r: B(True))
        e = ctx.info.entry[key][0]
        ctx.cand("extracted files stay so", lambda k, r: forall([j], Implies(e[j], r(key)[0][j]), [r(key)[0][j]]))
    E.invariants.append(inv)


def run_all(E):
    D, el, rel, s, langs = with_manifest(E, False)
    E.G = G = Cell(E, "ghost", done=z3.K(IntS, z3.BoolVal(False)))
    ow = E.const("overwrite", BoolS)
    d = E.choose("overwrite", [("given", None), ("default", None)])
    def ef(E, a, k):
        f = E.resolve(a[1])
        E.prove(D.wanted(f.ref), "only selected files that are no links are extracted")
        o = a[2] if len(a) > 2 else k.get("overwrite", False)
        E.prove(B(E.truth(o)) == (B(False) if d else ow), "overwriting is as requested")
        G.set("done", z3.Store(G.slots["done"], f.ref, z3.BoolVal(True)))
        return None
    E.contracts["patcher.PatcherReleaseElement.extract_file"] = ef
    st, v = call(E, E.getattr(el, "extract"), langs=langs, **({} if d else {"overwrite": ow}))
    E.prove(B(st == "ok"), "no error")
    if st != "ok": return
    E.prove(Implies(D.wanted(D.xref), z3.Select(G.slots["done"], D.xref)), "every selected file that is no link is extracted")
    E.cover("extracted")


def setup_bundles(E):
    def inv(ctx):
        q = seq_of(ctx)
        D = E.D
        i, j, b = z3.Int("i!"), z3.Int("j!"), z3.Int("b!")
        for key, kind in ctx.info.mods.items():
            if not isinstance(kind, SetK): continue
            e = ctx.info.entry[key][0]
            ctx.cand(f"{key} ids are used", lambda k, r, key=key: forall([b], Implies(r(key)[0][b], USED(b)), [r(key)[0][b]]))
            ctx.cand(f"{key} ids stay", lambda k, r, key=key, e=e: forall([b], Implies(e[b], r(key)[0][b]), [r(key)[0][b]]))
            if q is None or not isinstance(q.kind, ObjK): continue
            A = q.arrs[0]
            if q.kind.cls is D.F:
                ctx.cand(f"{key} files so far", lambda k, r, key=key: forall([j, i], Implies(And(j >= 0, j < k, D.needed(A[j]), i >= 0, i < D.nchunks(A[j])), r(key)[0][D.bid(z3.Select(D.chunks(A[j]), i))]), [z3.Select(D.chunks(A[j]), i)]))
            elif q.kind.cls is D.C:
                ctx.cand(f"{key} chunks so far", lambda k, r, key=key: forall([i], Implies(And(i >= 0, i < k), r(key)[0][D.bid(A[i])]), [A[i]]))
    E.invariants.append(inv)


def run_bundles(E):
    D, el, rel, s, langs = with_manifest(E, True)
    which = E.choose("skip extracted", [("no", None), ("yes", None), ("default", None)])
    D.needed = lambda ref: And(D.wanted(ref), Not(EXT(ref))) if which == 1 else D.wanted(ref)
    j = z3.Int("j!")
    f = z3.String("f!")
    c = z3.Select(D.chunks(z3.Select(D.vals, f)), j)
    E.fact(forall([f, j], Implies(And(z3.Select(D.dom, f), D.needed(z3.Select(D.vals, f)), j >= 0, j < D.nchunks(z3.Select(D.vals, f))), USED(D.bid(c))), [c]))
    st, v = call(E, E.getattr(el, "bundle_ids"), langs=langs, **([{"skip_extracted": False}, {"skip_extracted": True}, {}][which]))
    E.prove(B(st == "ok"), "no error")
    if st != "ok": return
    v = E.resolve(v)
    E.prove(B(isinstance(v, SetCell)), "the identifiers are a set")
    i, b = E.const("i", IntS), E.const("b", IntS)
    if isinstance(v.v, SSetV): has = lambda b: z3.Select(v.v.mem, b)
    else: has = lambda b: B(M.contains(E, v, b))
    E.fact(And(i >= 0, i < D.nchunks(D.xref)))
    E.prove(Implies(D.needed(D.xref), has(D.bid(z3.Select(D.chunks(D.xref), i)))), "every bundle holding a chunk of a needed file is listed")
    E.prove(Implies(has(b), USED(b)), "only bundles holding a chunk of a needed file are listed")
    E.cover(["all", "not extracted", "default"][which])


def run_download(E):
    D = declare(E)
    el, rel, s = element(E, D, _manif=None)
    ids = E.const("ids", z3.ArraySort(IntS, BoolS))
    langs = Opq(E.const("langs", AnyS))
    skip = E.choose("skip extracted", [("no", None), ("yes", None), ("default", None)])
    def bids(E, a, k):
        E.prove(B(k.get("langs", a[1] if len(a) > 1 else None) is langs), "the languages are the requested ones")
        x = k.get("skip_extracted", a[2] if len(a) > 2 else False)
        E.prove(B(x is (skip != 0)), "extracted files are skipped as requested, and by default")
        return SetCell(E, SSetV(INT, ids))
    E.contracts["patcher.PatcherReleaseElement.bundle_ids"] = bids
    E.G = G = Cell(E, "ghost", done=z3.K(IntS, z3.BoolVal(False)))
    E.D.wanted = lambda x: B(True)
    def db(E, a, k):
        E.prove(z3.Select(ids, I(a[1])), "only needed bundles are downloaded")
        G.set("done", z3.Store(G.slots["done"], I(a[1]), z3.BoolVal(True)))
        return E.const("bundle_path", StrS)
    E.contracts["patcher.PatcherStorage.download_bundle"] = db
    st, v = call(E, E.getattr(el, "download_bundles"), langs=langs, **([{"skip_extracted": False}, {"skip_extracted": True}, {}][skip]))
    E.prove(B(st == "ok"), "no error")
    if st != "ok": return
    b = E.const("b", IntS)
    E.prove(Implies(z3.Select(ids, b), z3.Select(G.slots["done"], b)), "every needed bundle is downloaded")
    E.cover("downloaded")


def setup_download(E):
    E.no_exists_frames = E.sort_is_permutation = True
    def inv(ctx):
        key = (E.G.uid, "done")
        if key not in ctx.info.mods: return
        q = seq_of(ctx)
        j = z3.Int("j!")
        if q is not None and q.kind in (INT, NAT):
            ctx.cand("bundles so far are downloaded", lambda k, r: forall([j], Implies(And(j >= 0, j < k), r(key)[0][q.arrs[0][j]]), [q.arrs[0][j]]))
    E.invariants.append(inv)


def run_bundle(E):
    s = storage(E, use_extract_symlinks=E.const("links", BoolS))
    b = E.const("bundle", IntS)
    E.fact(And(b >= 0, b < 2 ** 64))
    want = z3.Concat(S("channels/public/bundles/"), S(M.hexstr(E, b, 16, True)), S(".bundle"))
    calls = []
    def dl(E, a, k):
        p = k.get("path", a[2] if len(a) > 2 else None)
        E.prove(And(S(a[1]) == want, B(p is None) if p is None else S(p) == want), "the bundle is requested under its identifier and stored under the same path")
        calls.append(1)
    E.contracts["storage.Storage.download"] = dl
    st, v = call(E, E.getattr(s, "download_bundle"), b)
    E.prove(B(st == "ok" and len(calls) == 1), "one download")
    if st == "ok": E.prove(S(v) == want, "the path of the bundle is returned")
    E.cover("requested")


GOALS = [Goal("language filter", run_langs, covers=["True", "no flags", "False", "language", "languages"]),
         Goal("content digest", run_hexdigest, setup_fold, covers=["digest"]),
         Goal("loading a chunk", run_load_chunk, covers=["loaded", "failed"]),
         Goal("assembling a file", run_extract, setup_fold, covers=["links", "plain"]),
         Goal("extracting a single file", run_one, covers=["extracted", "skipped"]),
         Goal("extracting an element", run_all, setup_extract_all, covers=["extracted"]),
         Goal("needed bundles", run_bundles, setup_bundles, covers=["all", "not extracted", "default"]),
         Goal("downloading bundles", run_download, setup_download, covers=["downloaded"]),
         Goal("downloading a bundle", run_bundle, covers=["requested"])]
ASSUMPTIONS = ["chunk data is a function of the chunk while a file is assembled", "the paths involved are no directories, and parent paths are no files"]
