"""P04: RADS package files, over manifests with any number of files in any number of packages."""
from pyvc.contract import *

SA, IA, BA = z3.ArraySort(IntS, StrS), z3.ArraySort(IntS, IntS), z3.ArraySort(StrS, BoolS)
FIELDS = (("path", STR), ("package", STR), ("offset", INT), ("size", INT), ("compressed", BOOL), ("extract_path", STR))


# ---------------------------------------------------------------- lines of a package manifest

def run_line(E):
    parts = [E.const(f"part{i}", StrS) for i in range(5)]
    path, package, offset, size, typ = parts
    line = E.const("line", StrS)
    E.fact(z3.Length(path) >= 1)
    E.split_hook = lambda E, s, sep, maxsplit: ListCell(E, CSeq(parts)) if s.eq(line) and sep == "," and maxsplit in (-1, 4) else None
    c = E.cls("rads.BinPackageFile")
    num = lambda s: fcall("int_of10", s)
    st, v = call(E, c, line)
    if st == "exc":
        E.prove(Not(And(fcall("int_ok10", offset, ret=BoolS), fcall("int_ok10", size, ret=BoolS))), "a line with two numbers is accepted")
        return E.cover("refused")
    rest = z3.SubString(path, 1, z3.Length(path) - 1)
    comp = z3.SuffixOf(S(".compressed"), rest)
    E.prove(S(E.getattr(v, "path")) == rest, "path without its leading slash")
    E.prove(S(E.getattr(v, "package")) == package, "package")
    E.prove(And(I(E.getattr(v, "offset")) == num(offset), I(E.getattr(v, "size")) == num(size)), "offset and size")
    E.prove(B(E.truth(E.getattr(v, "compressed"))) == comp, "compressed exactly when the path ends with .compressed")
    E.prove(Implies(Not(comp), S(E.getattr(v, "extract_path")) == rest), "extracted under its path")
    E.prove(Implies(comp, z3.Concat(S(E.getattr(v, "extract_path")), S(".compressed")) == rest), "extracted without its .compressed suffix")
    E.cover("line")


# ---------------------------------------------------------------- files of a project version

def declare(E):
    C = E.cls("rads.BinPackageFile")
    for f, k in FIELDS: E.class_fields[(C.name, f)] = k
    r = E.const("any", IntS)
    for f, _ in FIELDS: E.getattr(SObj(C, r), f)
    class D: pass
    D.C = C
    for f, _ in FIELDS:
        a = E.heap.slots[f"{C.name}.{f}.0"]
        setattr(D, f, staticmethod(lambda ref, a=a: z3.Select(a, ref)))
    return D


FS_, INV = z3.Function("fspath_of", StrS, StrS), z3.Function("relative_path", StrS, StrS)

def fspath(E, args, kwargs):
    x = z3.String("x!")
    E.axiom(forall([x], INV(FS_(x)) == x, [FS_(x)]))
    return FS_(S(args[1]))


def setup_files(E):
    def inv(ctx):
        X = E.X
        ctx.unfold_with(lambda k: [Implies(And(k >= 0, k < X.n), X.at(X.D.extract_path(X.R[k])) == k)])
        for key, kind, entry in ctx.slots():
            if isinstance(kind, MapK) and kind.kk == STR and isinstance(kind.vk, ObjK):
                x = z3.String("x!")
                ctx.cand(f"{key} files so far", lambda k, r, key=key: forall([x], r(key)[0][x] == And(X.at(x) >= 0, X.at(x) < k, X.D.extract_path(X.R[X.at(x)]) == x), [r(key)[0][x]]))
                ctx.cand(f"{key} are those", lambda k, r, key=key: forall([x], Implies(r(key)[0][x], r(key)[1][x] == X.R[X.at(x)]), [r(key)[1][x]]))
    E.invariants.append(inv)


def run_files(E):
    """the files of a manifest (with distinct extracted paths) by their extracted path"""
    D = declare(E)
    class X: pass
    E.X, X.D = X, D
    X.at = z3.Function("index_of_path", StrS, IntS)
    n, R = E.const("n", IntS), E.const("R", IA)
    X.n, X.R = n, R
    i, j = E.const("i", IntS), z3.Int("j!")
    E.fact(And(n >= 0, i >= 0, i < n))
    E.fact(forall([j], Implies(And(j >= 0, j < n), X.at(D.extract_path(R[j])) == j), [R[j]]))
    asked, read = [], []
    path = E.const("path", StrS)
    def download(E, a, k):
        asked.append([S(x) for x in a[1:3]])
        return None
    def manifest(E, a, k):
        read.append(S(a[-1]))
        return ListCell(E, SSeq(ObjK(D.C), n, [R]))
    E.contracts["storage.Storage.download"] = download
    E.contracts["storage.Storage.fspath"] = fspath
    E.contracts["rads.BinPackageFile.from_package_manifest"] = manifest
    st = obj(E, "rads.RadsStorage", path=E.const("base", StrS))
    pv = obj(E, "rads.RadsProjectVersion", path=path, project=obj(E, "rads.RadsProject", storage=st), _package_files=None)
    get = E.getattr(pv, "_get_package_files")
    s, v = call(E, get)
    E.prove(B(s == "ok"), "files are listed")
    if s != "ok": return
    E.prove(B(len(asked) == 1), "one download")
    url, rel = asked[0]
    E.prove(url == z3.Concat(path, S("/packages/files/packagemanifest")), "the package manifest of the version is downloaded")
    E.prove(And(B(len(read) == 1), *[x == FS_(rel) for x in read]), "the downloaded file is read")
    m = v.v
    if isinstance(m, CMap): m = E.to_smap(m, STR, ObjK(D.C))
    p, y = D.extract_path(R[i]), E.const("y", StrS)
    E.prove(And(m.dom[p], m.vals[0][p] == R[i]), "a listed file is found under its extracted path")
    E.prove(Implies(m.dom[y], And(X.at(y) >= 0, X.at(y) < n, D.extract_path(R[X.at(y)]) == y)), "only listed files are found")
    s, w = call(E, get)
    E.prove(B(s == "ok" and len(asked) == 1 and len(read) == 1), "the package manifest is requested and read once")
    E.prove(B(E.identical(v, w)), "the same files are given again")
    E.cover("files")


def run_manifest(E):
    """lines of the manifest after the first one"""
    n, L, j = E.const("n", IntS), E.const("L", SA), z3.Int("j!")
    F = z3.Function("file_of_line", StrS, IntS)
    C = E.cls("rads.BinPackageFile")
    E.fact(n >= 1)
    path = E.const("path", StrS)
    E.contracts["rads.BinPackageFile"] = lambda E, a, k: SObj(C, F(S(a[0])))
    class Lines(Cell):
        """open text file of n lines"""
        def attr(self, E, name):
            if name == "readline":
                def readline():
                    p = self.slots["pos"]
                    if not E.branch(I(p) < n, "line"): return ""
                    self.set("pos", M.add(p, 1))
                    return L[I(p)]
                return bi(name, readline)
            if name == "readlines":
                def readlines():
                    v = self.iter_view(E)
                    a = E.const("rest", SA)
                    E.fact(forall([j], a[j] == v.get(j), [a[j]]))
                    return ListCell(E, SSeq(STR, v.n, [a]))
                return bi(name, readlines)
            raise Unsupported("file." + name)
        def context(self, E): return (lambda: self), (lambda exc: None)
        def iter_view(self, E):
            p = I(self.slots["pos"])
            self.set("pos", n)
            return SeqView(n - p, lambda k: L[p + I(k)])
    class OneFS:
        faults = False
        def open(self, E, p, mode, kw):
            E.prove(S(p) == path, "the given manifest is read")
            return Lines(E, "lines", pos=0)
        def pred(self, E, name, p): raise Unsupported(name)
    E.fs = OneFS()
    E.G = G = Cell(E, "ghost", n=z3.IntVal(0))
    E.frames.append(E.new_frame(E.module("tools"), None, "caller", set()))
    def each(x):
        x = E.resolve(x)
        g = I(G.slots["n"])
        E.prove(And(g < n - 1, x.ref == F(L[g + 1])), "files are given in the order of the lines, from the second one")
        G.set("n", M.add(G.slots["n"], 1))
    magic = z3.PrefixOf(S("PKG1"), L[0])
    try:
        E.iterate(E.call(E.getattr(C, "from_package_manifest"), [path], {}), each)
    except PyRaise as e:
        E.prove(Not(magic), "a manifest with its magic line is read")
        return E.cover("refused")
    E.prove(magic, "other files are refused")
    E.prove(I(G.slots["n"]) == n - 1, "every line gives a file")
    E.cover("read")


def setup_manifest(E):
    def inv(ctx):
        for lab, f, w in int_comps(ctx):
            if w == "int":
                ctx.cand(f"{lab} files so far", lambda k, r, f=f: f(r) == k)
                ctx.cand(f"{lab} lines so far", lambda k, r, f=f: f(r) == k + 1)
    E.invariants.append(inv)


# ---------------------------------------------------------------- extraction

PB = z3.Function("content_of_package", StrS, ByteS)
NEED, DISK = z3.Function("package_with_a_file_to_extract", StrS, BoolS), z3.Function("on_disk", StrS, BoolS)
POS = z3.Function("files_to_extract_before", IntS, IntS)
IXL = z3.Function("index_in_request", StrS, IntS)
INFL = z3.Function("piece_inflated", IntS, IntS, IntS, ByteS)


class Inflated:
    """what a decompressor gives for n bytes of a package from position a"""
    def __init__(self, z, base, a, n): self.z, self.base, self.a, self.n = z, base, a, n


class Inflater(Cell):
    def __init__(self, E):
        super().__init__(E, "inflater", to=z3.IntVal(-1))
    def attr(self, E, name):
        if name == "decompress":
            def dec(data):
                b = M.as_sb(E, E.resolve(data)) if isinstance(E.resolve(data), bytes) else E.resolve(data)
                if not isinstance(b, SB): raise Unsupported("decompress")
                to = I(self.slots["to"])
                E.prove(Implies(I(b.n) > 0, Or(to == -1, to == I(b.start))), "a decompressor is given consecutive data")
                self.set("to", z3.If(I(b.n) > 0, I(b.start) + I(b.n), to))
                return Inflated(self, b.base, I(b.start), I(b.n))
            return bi(name, dec)
        if name == "flush": return bi(name, lambda *a: Inflated(self, None, z3.IntVal(0), z3.IntVal(0)))
        raise Unsupported("decompressor." + name)


class Out(Cell):
    """file being written: pieces of the package, from the offset of the file on"""
    def __init__(self, E, X, p):
        self.ref = X.val(INV(p))
        self.X = X
        super().__init__(E, "out", to=X.D.offset(self.ref))
        self.z = None
    def attr(self, E, name):
        if name != "write": raise Unsupported("file." + name)
        D = self.X.D
        def write(data):
            b = E.resolve(data)
            if isinstance(b, bytes) and not b: return 0
            infl = isinstance(b, Inflated)
            if not infl and not isinstance(b, SB): raise Unsupported(f"write {b!r}")
            to, a, n = I(self.slots["to"]), I(b.a if infl else b.start), I(b.n)
            if b.base is not None:
                E.prove(Implies(n > 0, b.base == PB(D.package(self.ref))), "files are written from their own package")
            E.prove(Implies(n > 0, to == a), "consecutive pieces of the package are written, from the offset of the file")
            E.prove(Implies(n > 0, D.compressed(self.ref) == B(infl)), "exactly the compressed files are inflated")
            self.set("to", z3.If(n > 0, a + n, to))
            return None
        return bi(name, write)


class Reader(Cell):
    """streaming reader by its contract (P03)"""
    def __init__(self, E, X, q):
        self.X, self.q = X, q
        super().__init__(E, "reader", pos=z3.IntVal(0))
    def context(self, E): return (lambda: self), (lambda exc: None)
    def attr(self, E, name):
        pos = I(self.slots["pos"])
        def skip_to(p):
            E.prove(I(p) >= pos, "the package is read forwards")
            self.set("pos", I(p))
        def skip(n):
            E.prove(I(n) >= 0, "the package is read forwards")
            self.set("pos", pos + I(n))
        def copy(w, n):
            n = I(n)
            E.prove(n >= 0, "copied size")
            c = z3.Function(E.fresh_name("cut"), IntS, IntS)
            m = E.const("pieces", IntS)
            E.fact(And(m >= 0, c(0) == 0, c(m) == n))
            old, self.X.copying = getattr(self.X, "copying", None), (pos, c)
            def piece(k):
                E.fact(And(c(I(k)) < c(I(k) + 1), c(I(k)) >= 0, c(I(k) + 1) <= n))
                E.call(w, [SB(PB(self.q), pos + c(I(k)), c(I(k) + 1) - c(I(k)))])
            E.frames.append(E.new_frame(E.module("tools"), None, "copy", set()))
            E.symbolic_loop(None, m, lambda k: k, None, body=piece)
            E.frames.pop()
            self.X.copying = old
            self.set("pos", pos + n)
        f = {"skip_to": skip_to, "skip": skip, "copy": copy}.get(name)
        if name == "pos": return pos
        if f is None: raise Unsupported("reader." + name)
        return bi(name, f)


class Writing:
    def __init__(self, X, p): self.X, self.p = X, p
    def context(self, E):
        X, p = self.X, self.p
        x = INV(p)
        E.prove(p == FS_(x), "files are written under the storage")
        E.prove(X.wanted(x), "only files that are asked for and not on disk are written")
        out = Out(E, X, p)
        def leave(exc):
            if exc is not None: return None
            E.prove(I(out.slots["to"]) == X.D.offset(out.ref) + X.D.size(out.ref), "the whole range of the file is written")
            X.G.set("done", z3.Store(X.G.slots["done"], out.ref, z3.BoolVal(True)))
            return None
        return (lambda: out), leave


def setup_extract(E):
    E.live_map_lists = True
    E.no_exists_frames = True
    def inv(ctx):
        X, D = E.X, E.X.D
        i, q, x = z3.Int("i!"), z3.String("q!"), z3.String("x!")
        it = ctx.iterable
        s = it.v if isinstance(it, ListCell) else it
        arr = s.arrs[0] if isinstance(s, SSeq) and isinstance(s.kind, ObjK) else None
        ctx.unfold_with(lambda k: X.step(k))
        for lab, f, w in int_comps(ctx):
            if w == "seqlen":
                ctx.cand(f"{lab} kept so far", lambda k, r, f=f: f(r) == POS(k))
        for key, kind, entry in ctx.slots():
            if kind == INT and X_copying(X):
                pos, c = X.copying
                if key[0][0] == "out": ctx.cand(f"{key} copied so far", lambda k, r, key=key: r(key)[0] == pos + c(k))
                if key[0][0] == "inflater": ctx.cand(f"{key} fed so far", lambda k, r, key=key: r(key)[0] == z3.If(k == 0, z3.IntVal(-1), pos + c(k)))
        for key, kind, entry in ctx.slots():
            if isinstance(kind, Raw) and key[1] == "pos" or kind == INT and key[0][0] == "reader":
                if arr is not None:
                    ctx.cand(f"{key} after the last file", lambda k, r, key=key: r(key)[0] == z3.If(k == 0, z3.IntVal(0), D.offset(arr[k - 1]) + D.size(arr[k - 1])))
            if isinstance(kind, SeqK) and isinstance(kind.k, ObjK):
                n, a = (lambda r, key=key: r(key)[0]), (lambda r, key=key: r(key)[1])
                ctx.cand(f"{key} are to be extracted", lambda k, r: forall([i], Implies(And(i >= 0, i < n(r)), And(X.W(a(r)[i]), X.order(a(r)[i]) < k, POS(X.order(a(r)[i])) == i)), [a(r)[i]]))
                ctx.cand(f"{key} has the representative", lambda k, r: Implies(X.ix < k, And(POS(X.ix) >= 0, POS(X.ix) < n(r), a(r)[POS(X.ix)] == X.ref)))
            if isinstance(kind, MapK) and kind.kk == STR and isinstance(kind.vk, SeqK) and isinstance(kind.vk.k, ObjK):
                d, n, a = ((lambda r, key=key, c=c: r(key)[c]) for c in range(3))
                order, ix = X.position(arr)
                cnt = X.counter(arr)
                if arr is not None: ctx.cand(f"{key} grouped files", lambda k, r: forall([i], Implies(And(i >= 0, i < I(s.n)), And(X.W(arr[i]), order(arr[i]) == i)), [arr[i]]))
                if arr is not None: ctx.cand(f"{key} grouped representative", lambda k, r: And(ix >= 0, ix < I(s.n), arr[ix] == X.ref))
                ctx.unfold_with(lambda k, cnt=cnt, arr=arr: X.count_step(cnt, arr, k))
                ctx.cand(f"{key} number of files", lambda k, r: forall([q], Implies(d(r)[q], And(n(r)[q] == cnt(q, k), n(r)[q] > 0, NEED(q))), [d(r)[q]]))
                ctx.cand(f"{key} other packages", lambda k, r: forall([q], Implies(Not(d(r)[q]), cnt(q, k) == 0), [d(r)[q]]))
                ctx.cand(f"{key} files of the package", lambda k, r: forall([q, i], Implies(And(d(r)[q], i >= 0, i < n(r)[q]), And(X.W(a(r)[q][i]), D.package(a(r)[q][i]) == q, order(a(r)[q][i]) < k, cnt(q, order(a(r)[q][i])) == i)), [a(r)[q][i]]))
                ctx.cand(f"{key} has the representative", lambda k, r: Implies(ix < k, And(d(r)[X.pkg], cnt(X.pkg, ix) >= 0, cnt(X.pkg, ix) < n(r)[X.pkg], a(r)[X.pkg][cnt(X.pkg, ix)] == X.ref)))
            if key == (X.G.uid, "done"):
                e = ctx.info.entry[key][0]
                if arr is not None: ctx.cand("files so far are extracted", lambda k, r, key=key: forall([i], Implies(And(i >= 0, i < k), r(key)[0][arr[i]]), [arr[i]]))
                ctx.cand("extracted files stay so", lambda k, r, key=key: Implies(e[X.ref], r(key)[0][X.ref]))
                for j, en in enumerate(E.enums.values()):
                    if arr is None and en[1].sort().range() == StrS:
                        ctx.cand(f"packages so far are extracted {j}", lambda k, r, key=key, ix=en[2], dom=en[3]: Implies(And(dom[X.pkg], ix(X.pkg) < k), r(key)[0][X.ref]))
            if key == (X.G.uid, "asked"):
                for j, en in enumerate(E.enums.values()):
                    if en[1].sort().range() == StrS:
                        ctx.cand(f"packages so far {j}", lambda k, r, key=key, ix=en[2], dom=en[3]: forall([q], Implies(r(key)[0][q], And(dom[q], ix(q) < k)), [r(key)[0][q]]))
    E.invariants.append(inv)


def X_copying(X): return getattr(X, "copying", None) is not None


def run_extract(E, subset):
    D = declare(E)
    class X: pass
    E.X, X.D = X, D
    dom, vals = E.const("listed", BA), E.const("file", z3.ArraySort(StrS, IntS))
    X.val = lambda x: vals[x]
    x, i, j, a, b = z3.String("x!"), z3.Int("i!"), z3.Int("j!"), z3.Int("a!"), z3.Int("b!")
    E.fact(forall([x], Implies(dom[x], And(D.extract_path(vals[x]) == x, D.offset(vals[x]) >= 0, D.size(vals[x]) >= 0)), [vals[x]]))
    m = SMap(STR, ObjK(D.C), dom, [vals])
    if subset:
        n, L = E.const("asked", IntS), E.const("L", SA)
        E.fact(n >= 0)
        E.fact(forall([i], Implies(And(i >= 0, i < n), And(dom[L[i]], IXL(L[i]) == i)), [L[i]]))
        req = lambda x: And(IXL(x) >= 0, IXL(x) < n, L[IXL(x)] == x)
        keys, index = L, IXL
    else:
        n, keys, index = M.enum_of(E, m)
        req = lambda x: z3.BoolVal(True)
    X.n = n
    X.wanted = lambda x: And(dom[x], req(x), Not(DISK(x)))
    X.W = lambda r: And(X.wanted(D.extract_path(r)), vals[D.extract_path(r)] == r)
    X.order = lambda r: index(D.extract_path(r))
    X.at = lambda k: vals[keys[k]]
    X.step = lambda k: [POS(z3.IntVal(0)) == 0, Implies(k >= 0, And(POS(k) >= 0, POS(k + 1) == POS(k) + z3.If(DISK(keys[k]), 0, 1)))]
    def position(arr):
        """(index of a file in the grouped files, that of the representative)"""
        if arr is None: return X.order, X.ix
        f = E.filtered.get(arr.get_id())
        if f is None: return (lambda r: POS(X.order(r))), POS(X.ix)
        return (lambda r: f[2][X.order(r)]), f[2][X.ix]
    X.position = position
    counters = {}
    def counter(arr):
        key = None if arr is None else arr.get_id()
        if key not in counters:
            counters[key] = (z3.Function(f"files_of_package_before_{len(counters)}", StrS, IntS, IntS), arr)
            q = z3.String("q!")
            E.axiom(forall([q], counters[key][0](q, z3.IntVal(0)) == 0, [counters[key][0](q, z3.IntVal(0))]))
        return counters[key][0]
    X.counter = counter
    def count_step(cnt, arr, k):
        q = z3.String("q!")
        f = X.at(k) if arr is None else arr[k]
        c = And(D.package(f) == q, Not(DISK(D.extract_path(f))))
        return [forall([q], Implies(k >= 0, And(cnt(q, k) >= 0, cnt(q, k + 1) == cnt(q, k) + z3.If(c, 1, 0))), [cnt(q, k), cnt(q, k + 1)])]
    X.count_step = count_step
    # files of a package do not overlap
    E.fact(forall([a, b], Implies(And(X.W(a), X.W(b), a != b, D.package(a) == D.package(b)), Or(D.offset(a) + D.size(a) <= D.offset(b), D.offset(b) + D.size(b) <= D.offset(a))), [mpat(D.offset(a), D.offset(b))]))
    E.fact(forall([x], Implies(X.wanted(x), NEED(D.package(vals[x]))), [vals[x]]))
    xp = E.const("xp", StrS)
    E.fact(X.wanted(xp))
    X.ref, X.ix = vals[xp], index(xp)
    X.pkg = D.package(X.ref)
    X.G = Cell(E, "ghost", done=z3.K(IntS, z3.BoolVal(False)), asked=z3.K(StrS, z3.BoolVal(False)))
    path = E.const("path", StrS)
    E.contracts["storage.Storage.fspath"] = fspath
    E.contracts["rads.RadsProjectVersion._get_package_files"] = lambda E, a, k: DictCell(E, m)
    E.contracts["tools.write_file_or_remove"] = lambda E, a, k: Writing(X, S(a[0])) if len(a) == 1 and k.get("binary", True) is True else NotImplemented
    URLP = z3.Function("url_of_package", StrS, StrS)
    PKGU = z3.Function("package_of_url", StrS, StrS)
    def stream(E, a, k):
        u = S(a[1])
        q = package_of(u, path)
        if q is None: E.prove(B(False), "packages are requested under the packages of the version")
        E.prove(NEED(q), "only packages with files to extract are requested")
        E.prove(Not(X.G.slots["asked"][q]), "a package is requested once")
        X.G.set("asked", z3.Store(X.G.slots["asked"], q, z3.BoolVal(True)))
        return Reader(E, X, q)
    E.contracts["storage.Storage.stream"] = stream
    class Disk:
        faults = False
        def pred(self, E, name, p):
            if name not in ("isfile", "exists", "lexists"): raise Unsupported(name)
            p = S(p)
            E.prove(p == FS_(INV(p)), "files are looked for under the storage")
            return DISK(INV(p))
        def open(self, E, p, mode, kw): raise Unsupported("open")
    E.fs = Disk()
    def inflater(E, a, k):
        E.prove(B(len(a) == 1 and not k and a[0] == 47), "zlib and gzip data are both inflated")
        return Inflater(E)
    E.externals["zlib.decompressobj"] = inflater
    st = obj(E, "rads.RadsStorage", path=E.const("base", StrS))
    pv = obj(E, "rads.RadsProjectVersion", path=path, project=obj(E, "rads.RadsProject", storage=st))
    r, v = call(E, E.getattr(pv, "extract"), *([ListCell(E, SSeq(STR, n, [L]))] if subset else []))
    E.prove(B(r == "ok"), "no error")
    if r != "ok": return
    E.prove(X.G.slots["done"][X.ref], "every file asked for that is not on disk is extracted")
    E.cover("extracted")


def package_of(u, path):
    """q when u is path + '/packages/files/' + q"""
    parts = []
    def flat(t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in t.children(): flat(c)
        elif parts and z3.is_string_value(t) and z3.is_string_value(parts[-1]): parts[-1] = S(parts[-1].as_string() + t.as_string())
        else: parts.append(t)
    flat(u)
    if len(parts) == 3 and parts[0].eq(path) and z3.is_string_value(parts[1]) and parts[1].as_string() == "/packages/files/": return parts[2]
    return None


GOALS = [Goal("line", run_line, covers=["line", "refused"]),
         Goal("manifest", run_manifest, setup_manifest, covers=["read", "refused"]),
         Goal("files", run_files, setup_files, covers=["files"]),
         Goal("extraction of all files", lambda E: run_extract(E, False), setup_extract, covers=["extracted"], cfg={"no_generalize": ("ghost",)}),
         Goal("extraction of a subset", lambda E: run_extract(E, True), setup_extract, covers=["extracted"], cfg={"no_generalize": ("ghost",)})]
ASSUMPTIONS = ["the extracted paths of a manifest are distinct, its entries do not overlap and lie within their package; requested paths are listed, each once",
               "streams, guarded writers and Storage.fspath by contract (P03, P05); fspath is injective",
               "zlib.decompressobj(MAX_WBITS|32) gives the inflated data of the zlib or gzip stream it is fed, piece by piece; str.split(',') gives five parts; int(text) is uninterpreted"]
