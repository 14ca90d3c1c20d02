"""P16: differential exports, filters and cleaning, over exports with any files and archives."""
from pyvc.contract import *

IB, SBm, SS_, II = z3.ArraySort(IntS, BoolS), z3.ArraySort(StrS, BoolS), z3.ArraySort(StrS, StrS), z3.ArraySort(IntS, IntS)
SI = z3.ArraySort(StrS, IntS)
OWNER, NAMED = z3.Function("export_of_archive", IntS, IntS), z3.Function("export_path_of_archive", IntS, StrS)


def declare(E):
    W, F = E.cls("wad.Wad"), E.cls("wad.WadFileHeader")
    for c, f, k in ((W, "path", STR), (W, "files", SeqK(ObjK(F))), (F, "path_hash", INT), (F, "sha256", Opt(STR)), (F, "path", Opt(STR))): E.class_fields[(c.name, f)] = k
    r = E.const("any", IntS)
    for f in ("path", "files"): E.getattr(SObj(W, r), f)
    for f in ("path_hash", "sha256", "path"): E.getattr(SObj(F, r), f)
    sl = dict(E.heap.slots)
    class X: pass
    E.X = X
    X.W, X.F = W, F
    get = lambda key: staticmethod(lambda r, a=sl[key]: z3.Select(a, r))
    X.wpath, X.n, X.files = get("Wad.path.0"), get("Wad.files.0"), get("Wad.files.1")
    X.hash, X.nosha, X.sha = get("WadFileHeader.path_hash.0"), get("WadFileHeader.sha256.0"), get("WadFileHeader.sha256.1")
    X.nopath, X.path = get("WadFileHeader.path.0"), get("WadFileHeader.path.1")
    X.arrs = [sl["Wad.files.0"], sl["Wad.files.1"]]
    q = z3.Int("q!")
    E.fact(forall([q], X.n(q) >= 0, [X.n(q)]))
    return X


def export(E, X, name, which):
    """an export: plain files and archives, each archive an object of its own"""
    x = z3.String("x!")
    class e: pass
    e.pd, e.pv = E.const(name + "_plain", SBm), E.const(name + "_stored", SS_)
    e.wd, e.wv = E.const(name + "_archives", SBm), E.const(name + "_archive", SI)
    E.fact(forall([x], Implies(e.wd[x], And(OWNER(e.wv[x]) == which, NAMED(e.wv[x]) == x)), [e.wd[x], e.wv[x]]))
    e.plain = DictCell(E, SMap(STR, STR, e.pd, [e.pv]))
    e.wads = DictCell(E, SMap(STR, ObjK(X.W), e.wd, [e.wv]))
    e.obj = obj(E, "export.Exporter", plain_files=e.plain, wads=e.wads, output=E.const(name + "_output", StrS))
    return e


def final(E, e):
    """plain files and archives after the call"""
    p, w = E.getattr(e.obj, "plain_files").v, E.getattr(e.obj, "wads").v
    if isinstance(p, CMap): p = E.to_smap(p, STR, STR)
    if isinstance(w, CMap): w = E.to_smap(w, STR, ObjK(E.X.W))
    return p, w


# ---------------------------------------------------------------- comparison with another export

def keep(X, i):
    """file i of the archive is to be kept: its hash is not in the other archive, or with another checksum, or has none"""
    f = X.files(X.S)[i]
    return Or(Not(X.inother(X.hash(f))), X.nosha(f), X.osha(X.hash(f), f))


def lists(E, X, read):
    """(length, array) of the files of the archive under consideration in a state"""
    out = []
    for c in range(2):
        key = ("$heap", f"Wad.files.{c}")
        out.append(z3.Select(read(c), X.S))
    return out


class Index:
    def __init__(self, enum): self.n, self.keys, self.at = enum
    def __call__(self, x): return self.at(x)


def setup_compare(E):
    def inv(ctx):
        X = E.X
        x = z3.String("x!")
        ctx.unfold_with(lambda k: [Implies(And(X.other_has_arch, k < X.oarch.n), (X.oarch(X.A) == k) == (X.oarch.keys[k] == X.A)), Or(X.oarch(X.A) < k, X.oarch(X.A) == k, X.oarch(X.A) > k)])
        hk = [(E.heap.uid, f"Wad.files.{c}") for c in range(2)]
        heap = all(k in ctx.info.mods for k in hk)
        for key, kind, entry in ctx.slots():
            if not isinstance(kind, MapK) or kind.kk != STR: continue
            D = lambda r, key=key: r(key)[0]
            en = ctx.info.entry[key]
            for nm, oi, drop in (("plain", X.oplain, X.same_plain), ("archives", X.oarch, None)):
                if nm == "plain" and kind.vk == STR:
                    ctx.cand(f"{key} plain file under consideration", lambda k, r, oi=oi, D=D, en=en: D(r)[X.P] == And(en[0][X.P], Not(And(X.other_has_plain, oi(X.P) < k, X.same_plain))))
                if nm == "archives" and isinstance(kind.vk, ObjK):
                    seen = lambda k, oi=oi: And(X.other_has_arch, oi(X.A) < k)
                    ctx.cand(f"{key} archive not seen yet", lambda k, r, seen=seen, D=D, en=en: Implies(Not(seen(k)), D(r)[X.A] == en[0][X.A]))
                    ctx.cand(f"{key} same archive", lambda k, r, seen=seen, D=D: Implies(And(seen(k), X.same_arch), Not(D(r)[X.A])))
                    ctx.cand(f"{key} archives only", lambda k, r, D=D, en=en: forall([x], Implies(D(r)[x], en[0][x]), [D(r)[x]]))
                    if heap:
                        N = lambda r: z3.Select(r(hk[0])[0], X.S)
                        ctx.cand(f"{key} emptied", lambda k, r, seen=seen, D=D, en=en: Implies(And(seen(k), en[0][X.A], Not(X.same_arch)), D(r)[X.A] == (N(r) > 0)))
            if kind.vk == STR: ctx.cand(f"{key} values", lambda k, r, key=key, en=en: r(key)[1] == en[1])
            if isinstance(kind.vk, ObjK): ctx.cand(f"{key} objects", lambda k, r, key=key, en=en: r(key)[1] == en[1])
        if heap:
            q, i = z3.Int("q!"), z3.Int("i!")
            N, L = (lambda r: z3.Select(r(hk[0])[0], X.S)), (lambda r: z3.Select(r(hk[1])[0], X.S))
            seen = lambda k: And(X.other_has_arch, X.has_arch, X.oarch(X.A) < k, Not(X.same_arch))
            ctx.cand("other archives are not changed", lambda k, r: forall([q], Implies(OWNER(q) != 1, And(z3.Select(r(hk[0])[0], q) == X.n(q), z3.Select(r(hk[1])[0], q) == X.files(q))), [z3.Select(r(hk[0])[0], q), z3.Select(r(hk[1])[0], q)]))
            ctx.cand("files until seen", lambda k, r: Implies(And(X.has_arch, Not(seen(k))), And(N(r) == X.n(X.S), L(r) == X.files(X.S))))
            ctx.cand("kept file", lambda k, r: Implies(And(seen(k), keep(X, X.I)), z3.Exists([q], And(q >= 0, q < N(r), L(r)[q] == X.files(X.S)[X.I]))))
            ctx.cand("only kept files", lambda k, r: Implies(And(seen(k), X.J < N(r)), z3.Exists([i], And(i >= 0, i < X.n(X.S), L(r)[X.J] == X.files(X.S)[i], keep(X, i)))))
            ctx.cand("size", lambda k, r: N(r) >= 0)
    E.invariants.append(inv)


def run_compare(E):
    X = declare(E)
    a, b = export(E, X, "new", 1), export(E, X, "old", 2)
    X.P, X.A, X.I, X.J = E.const("P", StrS), E.const("A", StrS), E.const("I", IntS), E.const("J", IntS)
    X.S, X.O = a.wv[X.A], b.wv[X.A]
    X.has_arch, X.other_has_arch, X.other_has_plain = a.wd[X.A], b.wd[X.A], b.pd[X.P]
    X.same_plain = And(a.pd[X.P], a.pv[X.P] == b.pv[X.P])
    X.same_arch = And(a.wd[X.A], X.wpath(X.S) == X.wpath(X.O))
    E.fact(And(X.I >= 0, X.I < X.n(X.S), X.J >= 0))
    # what the other archive has: files of distinct hashes
    AT = z3.Function("index_of_hash", IntS, IntS)
    i, h = z3.Ints("i! h!")
    of = X.files(X.O)
    E.fact(forall([i], Implies(And(i >= 0, i < X.n(X.O)), AT(X.hash(of[i])) == i), [of[i]]))
    X.inother = lambda h: And(AT(h) >= 0, AT(h) < X.n(X.O), X.hash(of[AT(h)]) == h)
    X.osha = lambda h, f: Or(X.nosha(of[AT(h)]), X.sha(of[AT(h)]) != X.sha(f))
    X.oplain = M.enum_of(E, b.plain.v)[2]
    X.oarch = Index(M.enum_of(E, b.wads.v))
    st, r = call(E, E.getattr(a.obj, "filter_exporter"), b.obj)
    E.prove(B(st == "ok"), "exports can be compared")
    if st != "ok": return
    p, w = final(E, a)
    E.prove(p.dom[X.P] == And(a.pd[X.P], Not(And(b.pd[X.P], a.pv[X.P] == b.pv[X.P]))), "a plain file is dropped exactly when both exports take it from the same stored file")
    E.prove(Implies(p.dom[X.P], p.vals[0][X.P] == a.pv[X.P]), "kept plain files do not change")
    N, L = (z3.Select(E.heap.slots[f"Wad.files.{c}"], X.S) for c in range(2))
    both = And(a.wd[X.A], b.wd[X.A])
    E.prove(Implies(And(both, X.wpath(X.S) == X.wpath(X.O)), Not(w.dom[X.A])), "an archive is dropped when both exports take it from the same stored archive")
    E.prove(Implies(And(a.wd[X.A], Not(b.wd[X.A])), And(w.dom[X.A], N == X.n(X.S), L == X.files(X.S))), "an archive that the other export does not have is kept whole")
    E.prove(Implies(w.dom[X.A], And(a.wd[X.A], w.vals[0][X.A] == X.S)), "no archive is added or replaced")
    diff = And(both, X.wpath(X.S) != X.wpath(X.O))
    q = z3.Int("q!")
    E.prove(Implies(And(diff, keep(X, X.I)), z3.Exists([q], And(q >= 0, q < N, L[q] == X.files(X.S)[X.I]))), "new and modified files, and files without checksum, are kept")
    E.prove(Implies(And(diff, keep(X, X.I)), w.dom[X.A]), "the archive of a kept file is kept")
    E.prove(Implies(And(diff, X.J < N), z3.Exists([i], And(i >= 0, i < X.n(X.S), L[X.J] == X.files(X.S)[i], keep(X, i)))), "only those files are kept")
    E.prove(Implies(diff, w.dom[X.A] == (N > 0)), "an archive left empty disappears")
    p2, w2 = final(E, b)
    E.prove(And(p2.dom == b.pd, p2.vals[0] == b.pv, w2.dom == b.wd, w2.vals[0] == b.wv), "the other export does not change")
    E.cover("compared")


# ---------------------------------------------------------------- filter by path

WANTED = z3.Function("wanted_path", StrS, BoolS)


def wanted(X, f): return z3.If(X.nopath(f), X.wanted_unknown, WANTED(X.path(f)))


def setup_filter(E):
    def inv(ctx):
        X = E.X
        q, i, j, x = z3.Int("q!"), z3.Int("i!"), z3.Int("j!"), z3.String("x!")
        hk = [(E.heap.uid, f"Wad.files.{c}") for c in range(2)]
        heap = all(k in ctx.info.mods for k in hk)
        first = heap
        ctx.unfold_with(lambda k: [Or(X.ix(X.A) < k, X.ix(X.A) == k, X.ix(X.A) > k), Implies(And(X.has, k < X.ix.n), (X.ix(X.A) == k) == (X.ix.keys[k] == X.A))])
        for key, kind, entry in ctx.slots():
            if isinstance(kind, SeqK) and kind.k == STR:
                n, L = (lambda r, key=key: r(key)[0]), (lambda r, key=key: r(key)[1])
                ctx.cand(f"{key} in order", lambda k, r, n=n, L=L: forall([i, j], Implies(And(i >= 0, i < j, j < n(r)), X.ix(L(r)[i]) < X.ix(L(r)[j])), [mpat(L(r)[i], L(r)[j])]))
                ctx.cand(f"{key} of the export", lambda k, r, n=n, L=L: forall([i], Implies(And(i >= 0, i < n(r)), And(X.dom[L(r)[i]], X.ix(L(r)[i]) < k)), [L(r)[i]]))
                if heap:
                    N = lambda r: z3.Select(r(hk[0])[0], X.S)
                    ctx.cand(f"{key} emptied", lambda k, r, n=n, L=L: Implies(And(X.has, X.ix(X.A) < k), z3.Exists([i], And(i >= 0, i < n(r), L(r)[i] == X.A)) == (N(r) == 0)))
            if isinstance(kind, MapK) and isinstance(kind.vk, ObjK) and not heap:
                D, en = (lambda r, key=key: r(key)[0]), ctx.info.entry[key]
                ctx.cand(f"{key} objects", lambda k, r, key=key, en=en: r(key)[1] == en[1])
                it = getattr(ctx.iterable, "v", None)
                if isinstance(it, SSeq) and it.kind == STR:
                    e = lambda j, it=it: it.arrs[0][j]
                    ctx.cand(f"{key} still there", lambda k, r, D=D: forall([j], Implies(And(j >= k, j < ctx.n), D(r)[e(j)]), [e(j)]))
                    ctx.cand(f"{key} removed", lambda k, r, D=D, en=en: D(r)[X.A] == And(en[0][X.A], Not(z3.Exists([j], And(j >= 0, j < k, e(j) == X.A)))))
        if heap:
            N, L = (lambda r: z3.Select(r(hk[0])[0], X.S)), (lambda r: z3.Select(r(hk[1])[0], X.S))
            seen = lambda k: And(X.has, X.ix(X.A) < k)
            ctx.cand("files until seen", lambda k, r: Implies(Not(seen(k)), And(N(r) == X.n(X.S), L(r) == X.files(X.S))))
            ctx.cand("kept file", lambda k, r: Implies(And(seen(k), wanted(X, X.files(X.S)[X.I])), z3.Exists([q], And(q >= 0, q < N(r), L(r)[q] == X.files(X.S)[X.I]))))
            ctx.cand("only kept files", lambda k, r: Implies(And(seen(k), X.J < N(r)), z3.Exists([i], And(i >= 0, i < X.n(X.S), L(r)[X.J] == X.files(X.S)[i], wanted(X, X.files(X.S)[i])))))
            ctx.cand("size", lambda k, r: N(r) >= 0)
    E.invariants.append(inv)


def run_filter(E):
    X = declare(E)
    a = export(E, X, "new", 1)
    X.P, X.A, X.I, X.J = E.const("P", StrS), E.const("A", StrS), E.const("I", IntS), E.const("J", IntS)
    X.S, X.has, X.dom = a.wv[X.A], a.wd[X.A], a.wd
    X.wanted_unknown = E.const("wanted_unknown", BoolS)
    E.fact(And(X.has, X.I >= 0, X.I < X.n(X.S), X.J >= 0))
    X.ix = Index(M.enum_of(E, a.wads.v))
    def predicate(E, args, kw):
        p = E.resolve(args[0])
        if p is None: return X.wanted_unknown
        if isinstance(p, SOpt): return z3.If(B(p.isnone), X.wanted_unknown, WANTED(E.sterm(p.val) if hasattr(E, "sterm") else p.val))
        return WANTED(p)
    st, r = call(E, E.getattr(a.obj, "filter_export_paths"), BuiltinV("predicate", predicate))
    E.prove(B(st == "ok"), "exports can be filtered")
    if st != "ok": return
    p, w = final(E, a)
    E.prove(p.dom[X.P] == And(a.pd[X.P], WANTED(X.P)), "exactly the plain files with a wanted path are kept")
    E.prove(Implies(p.dom[X.P], p.vals[0][X.P] == a.pv[X.P]), "kept plain files do not change")
    N, L = (z3.Select(E.heap.slots[f"Wad.files.{c}"], X.S) for c in range(2))
    q, i = z3.Int("q!"), z3.Int("i!")
    E.prove(Implies(w.dom[X.A], w.vals[0][X.A] == X.S), "archives are not replaced")
    E.prove(Implies(wanted(X, X.files(X.S)[X.I]), z3.Exists([q], And(q >= 0, q < N, L[q] == X.files(X.S)[X.I]))), "files with a wanted path are kept, and files of unknown path when these are wanted")
    E.prove(Implies(X.J < N, z3.Exists([i], And(i >= 0, i < X.n(X.S), L[X.J] == X.files(X.S)[i], wanted(X, X.files(X.S)[i])))), "only those files are kept")
    E.prove(w.dom[X.A] == (N > 0), "exactly the archives left empty disappear")
    E.cover("filtered")


# ---------------------------------------------------------------- cleaning the output

JOIN, PATH_OF, DIR = z3.Function("output_path", StrS, StrS, StrS), z3.Function("export_path_of", StrS, StrS), z3.Function("parent_of", StrS, StrS)
LINK, ISDIR = z3.Function("is_link", StrS, BoolS), z3.Function("is_directory", StrS, BoolS)
PARENT = z3.Function("parent_of_removed", StrS, BoolS)


def setup_clean(E):
    def inv(ctx):
        X = E.X
        i, j, x = z3.Int("i!"), z3.Int("j!"), z3.String("x!")
        g = lambda name: (X.G.uid, name)
        mods = ctx.info.mods
        it = getattr(ctx.iterable, "v", None)
        lists = [(key, kind) for key, kind, en in ctx.slots() if isinstance(kind, SeqK) and kind.k == STR]
        some = lambda n, L, v: z3.Exists([j], And(j >= 0, j < n, L[j] == v))
        for what, test in (("file", X.file), ("tree", X.tree)):
            for key, kind in lists:
                n, L = (lambda r, key=key: r(key)[0]), (lambda r, key=key: r(key)[1])
                ctx.cand(f"{key} {what}s only", lambda k, r, n=n, L=L, test=test: forall([j], Implies(And(j >= 0, j < n(r)), test(L(r)[j])), [L(r)[j]]))
                ctx.cand(f"{key} every {what}", lambda k, r, n=n, L=L, test=test: Implies(And(X.I < k, test(X.full)), some(n(r), L(r), X.full)))
            key = g(what)
            if key in mods and isinstance(it, SSeq) and it.kind == STR:
                R = lambda r, key=key: r(key)[0]
                ctx.cand(f"removed {what}s only", lambda k, r, R=R, test=test: forall([x], Implies(R(r)[x], test(x)), [R(r)[x]]))
                ctx.cand(f"removed every {what}", lambda k, r, R=R: Implies(z3.Exists([j], And(j >= 0, j < k, it.arrs[0][j] == X.full)), R(r)[X.full]))
        for key, kind, en in ctx.slots():
            if isinstance(kind, SetK) and kind.k == STR:
                D = lambda r, key=key: r(key)[0]
                ctx.cand(f"{key} parents only", lambda k, r, D=D: forall([x], Implies(D(r)[x], PARENT(x)), [D(r)[x]]))
                e0 = ctx.info.entry[key]
                ctx.cand(f"{key} parents stay", lambda k, r, D=D, e0=e0: forall([x], Implies(e0[0][x], D(r)[x]), [D(r)[x], e0[0][x]]))
                if isinstance(it, SSeq): ctx.cand(f"{key} every parent", lambda k, r, D=D: Implies(z3.Exists([j], And(j >= 0, j < k, it.arrs[0][j] == X.full)), D(r)[DIR(X.full)]))
        key = g("parents")
        if key in mods:
            R = lambda r: r(key)[0]
            ctx.cand("emptied parents only", lambda k, r: forall([x], Implies(R(r)[x], PARENT(x)), [R(r)[x]]))
            if isinstance(it, SSetV):
                d, ix = DIR(X.full), M.enum_of(E, it)[2]
                ctx.cand("every emptied parent", lambda k, r: Implies(And(it.mem[d], ix(d) < k), R(r)[d]))
    E.invariants.append(inv)


def run_clean(E):
    class X: pass
    E.X = X
    out, kept, links = E.const("output", StrS), E.const("kept_files", SBm), E.const("kept_symlinks", SBm)
    n, W = E.const("listed", IntS), E.const("listing", z3.ArraySort(IntS, StrS))
    x, i = z3.String("x!"), z3.Int("i!")
    X.G = Cell(E, "ghost", file=z3.K(StrS, z3.BoolVal(False)), tree=z3.K(StrS, z3.BoolVal(False)), parents=z3.K(StrS, z3.BoolVal(False)))
    X.I = E.const("I", IntS)
    X.full = JOIN(out, W[X.I])
    E.fact(And(n >= 0, X.I >= 0, X.I < n))
    E.fact(forall([x], PATH_OF(JOIN(out, x)) == x, [JOIN(out, x)]))
    ours = lambda f: f == JOIN(out, PATH_OF(f))
    X.file = lambda f: And(ours(f), z3.If(LINK(f), Not(links[PATH_OF(f)]), And(Not(kept[PATH_OF(f)]), Not(ISDIR(f)))))
    X.tree = lambda f: And(ours(f), Not(LINK(f)), Not(kept[PATH_OF(f)]), ISDIR(f))
    E.fact(forall([x], Implies(Or(X.file(x), X.tree(x)), PARENT(DIR(x))), [DIR(x)]))
    def ghost(name):
        def h(E, args, kw):
            E.prove(B(len(args) == 1 and not kw), f"{name}: plain removal")
            X.G.set(name, z3.Store(X.G.slots[name], S(args[0]), z3.BoolVal(True)))
            if name == "parents" and E.choose("removedirs", [("empty", None), ("not empty", None)]) == 1: E.py_raise("OSError", "not empty")
            return None
        return h
    E.externals["os.remove"], E.externals["shutil.rmtree"], E.externals["os.removedirs"] = ghost("file"), ghost("tree"), ghost("parents")
    E.externals["os.path.join"] = lambda E, a, k: JOIN(S(a[0]), S(a[1]))
    E.externals["os.path.dirname"] = lambda E, a, k: DIR(S(a[0]))
    E.externals["os.path.islink"] = lambda E, a, k: LINK(S(a[0]))
    E.externals["os.path.isdir"] = lambda E, a, k: ISDIR(S(a[0]))
    def listing(E, args, kw):
        a = list(args[1:]) + list(kw.values())
        E.prove(B(len(a) == 1 and a[0] is X.kept), "kept directories are not searched")
        return ListCell(E, SSeq(STR, n, [W]))
    E.contracts["export.Exporter.walk_output_dir"] = listing
    X.kept, X.links = SetCell(E, SSetV(STR, kept)), SetCell(E, SSetV(STR, links))
    e = obj(E, "export.Exporter", output=out)
    st, r = call(E, E.getattr(e, "clean_output_dir"), X.kept, X.links)
    E.prove(B(st == "ok"), "an output directory can be cleaned")
    if st != "ok": return
    g = X.G.slots
    E.prove(Implies(X.file(X.full), g["file"][X.full]), "files that are not kept and links that are not kept links are removed")
    E.prove(Implies(X.tree(X.full), g["tree"][X.full]), "directories that are not kept are removed")
    q = E.const("Q", StrS)
    E.prove(Implies(g["file"][q], X.file(q)), "no other file or link is removed")
    E.prove(Implies(g["tree"][q], X.tree(q)), "no other directory is removed")
    E.prove(Implies(g["parents"][q], PARENT(q)), "only parents of removed files and directories are considered for removal")
    E.prove(Implies(Or(X.file(X.full), X.tree(X.full)), g["parents"][DIR(X.full)]), "their parents are removed, unless not empty")
    E.cover("cleaned")


GOALS = [Goal("comparing exports", run_compare, setup_compare, covers=["compared"], cfg={"try_both": True}),
         Goal("filtering by path", run_filter, setup_filter, covers=["filtered"], cfg={"try_both": True}),
         Goal("cleaning the output", run_clean, setup_clean, covers=["cleaned"], cfg={"try_both": True})]
ASSUMPTIONS = ["every archive of an export is an object of its own", "the files of an archive have distinct path hashes",
               "the path predicate given to filter_export_paths is a function of the path",
               "a path in the output directory is made of the output directory and the export path, which it determines (os.path.join, os.path.dirname)",
               "os.remove and shutil.rmtree succeed; os.removedirs removes a directory only when it is empty",
               "files, links and directories do not change while the output is listed"]
BOUNDED = ["Exporter.walk_output_dir: listing a real directory tree is only tested (generated trees of up to 4 levels)"]
