"""P02: patches and patch elements, over storages generating any sequence of elements."""
from pyvc.contract import *

II = z3.ArraySort(IntS, IntS)
NUM = z3.Function("number_of_version", IntS, IntS)                # versions are compared by a number (P01)
FP = z3.Function("first_named", IntS, StrS, IntS)                 # first position from a given one of an element with a given name
PVER, PHAS = z3.Function("version_of_patch", IntS, IntS), z3.Function("patch_has", IntS, IntS, BoolS)
SEL = z3.Function("is_element_of", IntS, IntS, BoolS)
EL = z3.Function("element_of_solution_version", IntS, IntS)


def declare(E):
    PE, V = E.cls("storage.PatchElement"), E.cls("storage.PatchVersion")
    E.class_fields[("PatchElement", "name")] = STR
    E.class_fields[("PatchElement", "version")] = ObjK(V)
    r = E.const("any", IntS)
    for f in ("name", "version"): E.getattr(SObj(PE, r), f)
    sl = E.heap.slots
    class X: pass
    E.X = X
    X.PE, X.V = PE, V
    X.name = staticmethod(lambda r, a=sl["PatchElement.name.0"]: z3.Select(a, r))
    X.ver = staticmethod(lambda r, a=sl["PatchElement.version.0"]: z3.Select(a, r))
    def ref(x):
        x = E.resolve(x)
        return x.ref if isinstance(x, SObj) and x.cls.name == "PatchVersion" else None
    def cmp(f):
        def h(E, a, k):
            x, y = ref(a[0]), ref(a[1])
            return NotImplemented if x is None or y is None else f(x, y)
        return h
    for n, f in (("__eq__", lambda x, y: x == y), ("__ne__", lambda x, y: x != y), ("__lt__", lambda x, y: NUM(x) < NUM(y)), ("__le__", lambda x, y: NUM(x) <= NUM(y)),
                 ("__gt__", lambda x, y: NUM(x) > NUM(y)), ("__ge__", lambda x, y: NUM(x) >= NUM(y)), ("__hash__", None)):
        E.contracts["storage.BaseVersion." + n] = cmp(f) if f else (lambda E, a, k: ref(a[0]))
    return X


def sequence(E, X):
    X.n, X.A = E.const("elements", IntS), E.const("E", II)
    E.fact(X.n >= 0)
    stored = E.const("stored", BoolS)
    def elements(E, args, kwargs):
        a = dict(zip(("self", "stored"), args), **kwargs)
        E.prove(eq(E, a.get("stored", False), stored), "'stored' is passed on")
        return ListCell(E, SSeq(ObjK(X.PE), X.n, [X.A]))
    E.contracts["storage.Storage.patch_elements"] = elements
    return stored


# ---------------------------------------------------------------- listing

def setup_patches(E):
    def groupby(E, a, k):
        """runs of equal keys: start of run g, number of runs"""
        X = E.X
        view = M.iter_view(E, a[0])
        key = k.get("key", a[1] if len(a) > 1 else None)
        if isinstance(view, (tuple, list)) or key is None: raise Unsupported("groupby")
        j, g = z3.Int("j!"), z3.Int("g!")
        p = E.pure_map(view.n, lambda kk: ("val", E.call(key, [view.get(kk)])))
        if p is None or len(p.kind.sorts()) != 1: raise Unsupported("groupby key")
        K = lambda t: p.terms(t)[0]
        X.runs, X.start, X.run = E.const("runs", IntS), E.const("start", II), E.const("run", II)
        S_, R, n = X.start, X.run, view.n
        E.fact(And(X.runs >= 0, (X.runs == 0) == (n == 0), S_[0] == 0, S_[X.runs] == n))
        E.fact(forall([g], Implies(And(g >= 0, g < X.runs), And(S_[g] >= 0, S_[g] < S_[g + 1], S_[g + 1] <= n)), [S_[g]]))
        E.fact(forall([g], Implies(And(g >= 1, g < X.runs), K(S_[g]) != K(S_[g] - 1)), [S_[g]]))
        E.fact(forall([g, j], Implies(And(g >= 0, g < X.runs, j >= S_[g], j < S_[g + 1]), K(j) == K(S_[g])), [mpat(S_[g], X.A[j])]))
        def get(i):
            l = ListCell(E, SSeq(ObjK(X.PE), S_[I(i) + 1] - S_[I(i)], [M.shift_arr(E, X.A, S_[I(i)])]))
            l.start = X.at = S_[I(i)]
            return (p.value(S_[I(i)]), l)
        return SeqView(X.runs, get)
    E.externals["itertools.groupby"] = groupby
    def create(E, args, kwargs):
        X = E.X
        l = args[-1]
        s = M.as_seq(E, l)
        if isinstance(s, CSeq): s = E.to_sseq(s, ObjK(X.PE))
        a, e = s.arrs[0], z3.Int("e!")
        j = E.const("j", IntS)
        if hasattr(X, "at"):
            first = FP(X.at, X.name(X.A[X.at])) == X.at
            E.prove(first, "the first element of a run is the first one of its name")
            E.fact(first)
        E.prove(I(s.n) > 0, "patches have at least one element")
        v = X.ver(a[0])
        E.prove(Implies(And(j >= 0, j < I(s.n)), X.ver(a[j]) == v), "the elements of a patch have the same version")
        r = E.const("patch", IntS)
        E.fact(PVER(r) == v)
        E.fact(forall([e], PHAS(r, e) == B(M.contains(E, ListCell(E, s), SObj(X.PE, e))), [PHAS(r, e)]))
        return SObj(E.cls("storage.Patch"), r)
    E.contracts["storage.Patch._create"] = create
    def inv(ctx):
        X = E.X
        x, e = z3.String("x!"), z3.Int("e!")
        for key, kind, entry in ctx.slots():
            if isinstance(kind, MapK) and kind.kk == STR and isinstance(kind.vk, ObjK) and hasattr(ctx.iterable, "start"):
                D, V = (lambda r, key=key: r(key)[0]), (lambda r, key=key: r(key)[1])
                G = ctx.iterable.start
                ctx.cand(f"{key} names so far", lambda k, r: forall([x], D(r)[x] == (FP(G, x) < G + k), [D(r)[x], FP(G, x)]))
                ctx.cand(f"{key} first elements", lambda k, r: forall([x], Implies(D(r)[x], V(r)[x] == X.A[FP(G, x)]), [V(r)[x]]))
            if isinstance(kind, SeqK) and isinstance(kind.k, ObjK) and kind.k.cls.name == "Patch":
                P = lambda r, key=key: r(key)[1][X.G]
                ctx.cand(f"{key} one patch per run", lambda k, r, key=key: r(key)[0] == k)
                ctx.cand(f"{key} version", lambda k, r: Implies(X.G < k, PVER(P(r)) == X.ver(X.A[X.start[X.G]])))
                ctx.cand(f"{key} element", lambda k, r: Implies(And(X.G < k, FP(X.start[X.G], X.x) < X.start[X.G + 1]), PHAS(P(r), X.A[FP(X.start[X.G], X.x)])))
                ctx.cand(f"{key} no other", lambda k, r: Implies(And(X.G < k, PHAS(P(r), X.e)), And(FP(X.start[X.G], X.name(X.e)) < X.start[X.G + 1], X.e == X.A[FP(X.start[X.G], X.name(X.e))])))
    E.invariants.append(inv)


def run_patches(E):
    X = declare(E)
    stored = sequence(E, X)
    X.G, X.x, X.e = E.const("G", IntS), E.const("x", StrS), E.const("e", IntS)
    s, i, x = z3.Int("s!"), z3.Int("i!"), z3.String("x!")
    E.fact(forall([s, x], And(FP(s, x) >= s, Implies(FP(s, x) < X.n, X.name(X.A[FP(s, x)]) == x)), [FP(s, x)]))
    E.fact(forall([s, i], Implies(And(s <= i, i < X.n), FP(s, X.name(X.A[i])) <= i), [FP(s, X.name(X.A[i]))]))
    E.fact(And(X.G >= 0))
    st = obj(E, "storage.Storage", path=E.const("path", StrS))
    out = E.call(E.getattr(st, "patches"), [], {"stored": stored})
    l = M.as_seq(E, out)
    if isinstance(l, CSeq): l = E.to_sseq(l, ObjK(E.cls("storage.Patch")))
    E.prove(I(l.n) == X.runs, "one patch per run of equal versions")
    E.fact(X.G < X.runs)
    P, S_ = l.arrs[0][X.G], X.start
    E.prove(PVER(P) == X.ver(X.A[S_[X.G]]), "patches come in the order of the runs, with their versions")
    E.prove(Implies(FP(S_[X.G], X.x) < S_[X.G + 1], PHAS(P, X.A[FP(S_[X.G], X.x)])), "a patch holds the first element of every name of its run")
    E.prove(Implies(PHAS(P, X.e), And(FP(S_[X.G], X.name(X.e)) < S_[X.G + 1], X.e == X.A[FP(S_[X.G], X.name(X.e))])), "a patch holds nothing else")
    E.cover("listed")


# ---------------------------------------------------------------- lookups

def setup_lookup(E):
    def inv(ctx):
        X, j = E.X, z3.Int("j!")
        ctx.cand("no match so far", lambda k, r: forall([j], Implies(And(j >= 0, j < k), Not(X.match(j))), [X.A[j]]))
    E.invariants.append(inv)


def run_lookup(E, what):
    X = declare(E)
    stored = sequence(E, X)
    st = obj(E, "storage.Storage", path=E.const("path", StrS))
    P = E.cls("storage.Patch")
    E.class_fields[("Patch", "version")] = ObjK(X.V)
    v = E.const("version", IntS)
    none = E.choose("version", [("given", None), ("none", None)]) == 1
    name = E.const("name", StrS)
    if what == "patch":
        E.getattr(SObj(P, v), "version")
        pv = E.heap.slots["Patch.version.0"]
        def patches(E, args, kwargs):
            a = dict(zip(("self", "stored"), args), **kwargs)
            E.prove(eq(E, a.get("stored", False), stored), "'stored' is passed on")
            return M.b_iter(E, [ListCell(E, SSeq(ObjK(P), X.n, [X.A]))], {})
        E.contracts["storage.Storage.patches"] = patches
        X.match = lambda j: z3.BoolVal(True) if none else z3.Select(pv, X.A[j]) == v
        r = call(E, E.getattr(st, "patch"), None if none else SObj(X.V, v), stored=stored)
    else:
        X.match = lambda j: And(X.name(X.A[j]) == name, *([] if none else [X.ver(X.A[j]) == v]))
        r = call(E, E.getattr(st, "patch_element"), name, None if none else SObj(X.V, v), stored=stored)
    E.prove(B(r[0] == "ok"), "a lookup does not fail")
    if r[0] != "ok": return
    got = E.resolve(r[1])
    j, i = z3.Int("j!"), E.const("i", IntS)
    if got is None:
        E.prove(Implies(And(i >= 0, i < X.n), Not(X.match(i))), "None is returned only when nothing matches")
        return E.cover("nothing")
    w = E.const("w", IntS)
    E.prove(z3.Exists([j], And(j >= 0, j < X.n, X.A[j] == got.ref, X.match(j), forall([i], Implies(And(i >= 0, i < j), Not(X.match(i))), [X.A[i]]))), "the first match is returned")
    E.cover("found")


def run_create(E):
    X = declare(E)
    P = E.cls("storage.Patch")
    n, A = E.const("n", IntS), E.const("A", II)
    E.fact(n >= 0)
    l = ListCell(E, SSeq(ObjK(X.PE), n, [A]))
    st, p = call(E, E.getattr(P, "_create"), l)
    i, j = z3.Ints("i! j!")
    if st == "exc":
        E.prove(B(is_exc(E, p, "ValueError")), "elements of different versions are refused with ValueError")
        E.prove(Or(n == 0, z3.Exists([i], And(i >= 0, i < n, X.ver(A[i]) != X.ver(A[0])))), "elements of one version make a patch")
        return E.cover("refused")
    q = E.const("q", IntS)
    E.prove(n > 0, "a patch has at least one element")
    E.fact(And(q >= 0, q < n))
    E.prove(E.getattr(p, "version").ref == X.ver(A[q]), "the version of a patch is that of its elements")
    E.prove(B(E.identical(E.getattr(p, "elements"), l)), "the elements of a patch are those given")
    E.cover("created")


# ---------------------------------------------------------------- merging the solutions of a RADS storage

SOLS = ["league_client_sln", "lol_game_client_sln"]
NONE = z3.Function("has_no_patch_version", IntS, BoolS)
PVR = z3.Function("patch_version_of", IntS, IntS)
IX = z3.Function("position_in_solution", IntS, IntS)


def setup_merge(E):
    def iters(it): E.X.iters.append(it)
    E.lazy_generators = iters
    def inv(ctx):
        X = E.X
        for key, kind in ctx.info.mods.items():
            if kind is None: continue
            lab = f"{key[0]}{key[1]}"
        pos = {}
        for q, it in enumerate(X.iters): pos[q] = (it.uid, "pos")
        cur = {}
        for key, kind, entry in ctx.slots():
            if key[1] == "cur" and isinstance(kind, Opt): cur[key[0]] = key
        cur = [cur[k] for k in sorted(cur, key=str)]
        if len(cur) != 2 or len(X.iters) != 2 or any(p not in ctx.info.mods for p in pos.values()): return
        g = (X.ghost.uid, "count"), (X.ghost.uid, "some"), (X.ghost.uid, "last"), (X.ghost.uid, "sorted"), (X.ghost.uid, "known")
        for q in range(2):
            it = X.iters[q]
            K = it.kept
            cond = lambda r, q=q: r(cur[q])[0]
            P = lambda r, q=q: r(pos[q])[0]
            done = lambda r, q=q: P(r, q) - z3.If(cond(r, q), 0, 1)
            el = lambda t, K=K: K.terms(t)[0]
            ctx.cand(f"position {q}", lambda k, r, P=P, K=K, done=done: And(done(r) >= 0, P(r) <= K.m))
            ctx.cand(f"peeked {q}", lambda k, r, P=P, cond=cond, el=el, q=q: Or(cond(r), r(cur[q])[1] == el(P(r) - 1)))
            ctx.cand(f"rest of {q} is not higher", lambda k, r, P=P, K=K, done=done, el=el: Implies(And(r(g[1])[0], done(r) < K.m), r(g[2])[0] >= NUM(X.ver(el(done(r))))))
            if q == X.q: ctx.cand("count", lambda k, r, done=done: r(g[0])[0] == z3.If(X.kept < done(r), 1, 0))
        ctx.cand("sorted", lambda k, r: r(g[3])[0])
        ctx.cand("elements only", lambda k, r: r(g[4])[0])
    E.invariants.append(inv)


def run_merge(E):
    X = declare(E)
    SV, RE, PEr = E.cls("rads.RadsSolutionVersion"), E.cls("rads.RadsPatchElement"), None
    X.iters = []
    X.n = [E.const(f"versions{q}", IntS) for q in range(2)]
    X.L = [E.const(f"V{q}", II) for q in range(2)]
    i, j = z3.Ints("i! j!")
    for q in range(2):
        L, n = X.L[q], X.n[q]
        E.fact(n >= 0)
        E.fact(forall([i], Implies(And(i >= 0, i < n), IX(L[i]) == 2 * i + q), [L[i]]))
        E.fact(forall([i, j], Implies(And(i >= 0, i < j, j < n, Not(NONE(L[i])), Not(NONE(L[j]))), NUM(PVR(L[i])) >= NUM(PVR(L[j]))), [mpat(L[i], L[j])]))
    E.class_fields[("RadsPatchElement", "version")] = ObjK(X.V)
    E.getattr(SObj(RE, X.n[0]), "version")
    hv = E.heap.slots["RadsPatchElement.version.0"]
    X.ver = lambda r: z3.Select(hv, r)
    e = z3.Int("e!")
    E.fact(forall([e], And(X.ver(EL(e)) == PVR(e), fcall("solution_version_of", EL(e)) == e), [EL(e)]))
    storage = obj(E, "rads.RadsStorage", path=E.const("path", StrS), url=E.const("url", StrS))
    stored = E.const("stored", BoolS)
    def versions(E, args, kwargs):
        a = dict(zip(("self", "stored"), args), **kwargs)
        E.prove(eq(E, a.get("stored", False), stored), "'stored' is passed on")
        name = E.getattr(a["self"], "name")
        E.prove(B(name in SOLS and E.getattr(a["self"], "storage") is storage), "the client and game solutions of the storage are used")
        if name not in SOLS: raise PathEnd()
        q = SOLS.index(name)
        return ListCell(E, SSeq(ObjK(SV), X.n[q], [X.L[q]]))
    E.contracts["rads.RadsSolution.versions"] = versions
    def patch_version(E, args, kwargs):
        r = args[0].ref
        return None if E.branch(NONE(r), "no patch version") else SObj(X.V, PVR(r))
    E.contracts["rads.RadsSolutionVersion.patch_version"] = patch_version
    def element(E, args, kwargs):
        a = dict(zip(("sv",), args), **kwargs)
        if not isinstance(a.get("sv"), SObj): return NotImplemented
        if E.branch(NONE(a["sv"].ref), "no patch version"): E.py_raise("ValueError")
        return SObj(RE, EL(a["sv"].ref))
    E.contracts["rads.RadsPatchElement"] = element
    X.q = E.choose("solution", [("client", None), ("game", None)])
    X.J = E.const("J", IntS)                       # any solution version of it that has a patch version
    E.fact(And(X.J >= 0, X.J < X.n[X.q], Not(NONE(X.L[X.q][X.J]))))
    G = X.ghost = Cell(E, "ghost", count=z3.IntVal(0), some=z3.BoolVal(False), last=z3.IntVal(0), sorted=z3.BoolVal(True), known=z3.BoolVal(True))
    mine = EL(X.L[X.q][X.J])
    known = lambda r: z3.Exists([i], Or(*[And(i >= 0, i < X.n[q], Not(NONE(X.L[q][i])), r == EL(X.L[q][i])) for q in range(2)]))
    ISE = z3.Function("is_element", IntS, BoolS)
    for q in range(2): E.fact(forall([i], Implies(And(i >= 0, i < X.n[q], Not(NONE(X.L[q][i]))), ISE(EL(X.L[q][i]))), [X.L[q][i]]))
    def each(x):
        x = E.resolve(x)
        r = x.ref
        G.set("count", G.get("count") + z3.If(r == mine, 1, 0))
        G.set("known", And(G.get("known"), ISE(r)))
        G.set("sorted", And(G.get("sorted"), Implies(G.get("some"), G.get("last") >= NUM(X.ver(r)))))
        G.set("last", NUM(X.ver(r)))
        G.set("some", z3.BoolVal(True))
    class Kept: pass
    # the position of the solution version among those that have a patch version is known once the iterators are made
    old = E.lazy_generators
    def made(it):
        if len(X.iters) >= 2: X.iters.clear()
        X.iters.append(it)
        if len(X.iters) - 1 == X.q: X.kept = it.kept.pos[X.J] if hasattr(it.kept, "pos") else X.J
    E.lazy_generators = made
    E.iterate(E.call(E.getattr(storage, "patch_elements"), [], {"stored": stored}), each)
    E.prove(G.get("count") == 1, "every solution version with a patch version gives exactly one element")
    E.prove(G.get("known"), "nothing else is generated")
    E.prove(G.get("sorted"), "no element is followed by one with a higher version")
    E.cover("merged")


def run_element(E):
    X = declare(E)
    which = E.choose("solution", [(n, None) for n in SOLS + ["another one"]])
    name = (SOLS + ["another_sln"])[which]
    none = E.choose("version", [("some", None), ("none", None)]) == 1
    v = SObj(X.V, E.const("v", IntS))
    E.contracts["rads.RadsSolutionVersion.patch_version"] = lambda E, a, k: None if none else v
    sv = obj(E, "rads.RadsSolutionVersion", solution=obj(E, "rads.RadsSolution", name=name), version=Opq(E.const("v", AnyS)), path="")
    E.contracts["rads.RadsSolutionVersion.__str__"] = lambda E, a, k: "sv"
    st, e = call(E, E.cls("rads.RadsPatchElement"), sv)
    if st == "exc":
        E.prove(B(which == 2 or none), "a solution version with a patch version is an element")
        return E.cover("refused")
    E.prove(B(not none and which < 2), "elements have a version")
    E.prove(And(B(E.getattr(e, "name") == ["client", "game"][which]), E.getattr(e, "version").ref == v.ref, B(E.identical(E.getattr(e, "solution_version"), sv))), "name, version and solution version of an element")
    E.cover("element")


GOALS = [Goal("listing patches", run_patches, setup_patches, covers=["listed"]),
         Goal("making a patch", run_create, covers=["created", "refused"]),
         Goal("patch lookup", lambda E: run_lookup(E, "patch"), setup_lookup, covers=["found", "nothing"]),
         Goal("patch element lookup", lambda E: run_lookup(E, "element"), setup_lookup, covers=["found", "nothing"]),
         Goal("RADS elements", run_merge, setup_merge, covers=["merged"]),
         Goal("RADS element", run_element, covers=["element", "refused"])]
ASSUMPTIONS = ["versions of one storage are compared by a number, equal ones being one value (P01)", "the solution versions of a storage are distinct, and each solution lists its patch versions from the highest",
               "itertools.groupby cuts a sequence into its maximal runs of equal keys"]
