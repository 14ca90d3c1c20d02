"""P23: solution manifests with any number of projects and languages."""
from pyvc.contract import *

PV = z3.Function("project_version", StrS, StrS, IntS)            # name, text of the version
SA, IA = z3.ArraySort(IntS, StrS), z3.ArraySort(IntS, IntS)
LANG = z3.Function("language_of", StrS, IntS)
RC = z3.Function("required_before", IntS, IntS)
LP = z3.Function("line_of_language", IntS, IntS)
NI, LI = z3.Function("project_named", StrS, IntS), z3.Function("index_of_language", IntS, IntS)
NM, VR, LE = z3.Function("name", IntS, StrS), z3.Function("version_text", IntS, StrS), z3.Function("language", IntS, IntS)
ok = lambda name, x: fcall(name, x, ret=BoolS)


def setup_common(E):
    """constructors by their contracts (proved by the goals 'constructor ...'; a version's text by P01)"""
    def version(E, args, kwargs):
        if kwargs or len(args) != 1 or not is_strlike(args[0]): return NotImplemented
        if not E.branch(ok("valid_version", S(args[0])), "version"): E.py_raise("ValueError")
        return Obj(E, E.cls("rads.RadsVersion"), s=S(args[0]))
    def project(E, args, kwargs):
        a = dict(zip(("storage", "name"), args), **kwargs)
        if set(a) != {"storage", "name"} or not is_strlike(a["name"]): return NotImplemented
        E.prove(B(E.identical(a["storage"], E.X.storage)), "project versions belong to the storage of the solution")
        return Obj(E, E.cls("rads.RadsProject"), storage=a["storage"], name=S(a["name"]))
    def pversion(E, args, kwargs):
        a = dict(zip(("project", "version"), args), **kwargs)
        if set(a) != {"project", "version"} or not isinstance(a["project"], Obj) or not isinstance(a["version"], Obj): return NotImplemented
        return SObj(E.cls("rads.RadsProjectVersion"), PV(a["project"].slots["name"], a["version"].slots["s"]))
    def language(E, args, kwargs):
        if kwargs or len(args) != 1: return NotImplemented
        x = E.resolve(args[0])
        if isinstance(x, EnumVal): return x
        if not is_strlike(x): return NotImplemented
        if not E.branch(ok("is_language", S(x)), "language"): E.py_raise("ValueError")
        E.fact(LANG(S(x)) >= 0)
        return EnumVal(E.cls("data.Language"), LANG(S(x)))
    E.contracts["rads.RadsVersion"] = version
    E.contracts["rads.RadsProject"] = project
    E.contracts["rads.RadsProjectVersion"] = pversion
    E.contracts["data.Language"] = language


class Manifest:
    """the lines of a manifest of np projects and nl languages; facts of a well-formed one"""
    def __init__(self, E):
        self.E = E
        self.n, self.L = E.const("nlines", IntS), E.const("lines", SA)
        self.num = lambda i: fcall("int_of10", self.L[i])
        self.np, self.nl, self.ls = (E.const(x, IntS) for x in ("projects", "languages", "languages_at"))
        E.fact(And(self.n >= 6, self.np == self.num(4), self.np >= 0, self.ls == 5 + 4 * self.np, self.nl == self.num(self.ls), self.nl >= 0))
        for i in (z3.IntVal(4), self.ls): E.fact(ok("int_ok10", self.L[i]))
        E.fact(And(LP(0) == self.ls + 1, self.ls < self.n, RC(0) == 0))
        self.J, self.Q, self.R = (E.const(x, IntS) for x in ("J", "Q", "R"))       # a language, one of its projects, a required project
        self.end = LP(self.nl)
    def name(self, j): return self.L[5 + 4 * j]
    def vers(self, j): return self.L[6 + 4 * j]
    def unk(self, j): return self.num(7 + 4 * j)
    def lang(self, j): return LANG(self.L[LP(j)])
    def nd(self, j): return self.num(LP(j) + 2)
    def dep(self, j, q): return self.L[LP(j) + 3 + q]
    def pv(self, name): return PV(name, VR(NI(name)))
    def project(self, j):
        """project j is well-formed, its name is its own"""
        L = self.L
        return [Implies(And(j >= 0, j < self.np), And(8 + 4 * j < self.n, ok("int_ok10", L[7 + 4 * j]), ok("int_ok10", L[8 + 4 * j]), Or(self.unk(j) == 0, self.unk(j) == 10), self.num(8 + 4 * j) == 0,
                    ok("valid_version", self.vers(j)), NM(j) == self.name(j), VR(j) == self.vers(j), NI(self.name(j)) == j)),
                RC(j + 1) == RC(j) + z3.If(self.unk(j) == 0, 1, 0)]
    def language(self, j):
        q = z3.Int("q!")
        L, i = self.L, LP(j)
        return [Implies(And(j >= 0, j < self.nl), And(i >= 0, i + 3 + self.nd(j) <= self.n, ok("int_ok10", L[i + 1]), self.num(i + 1) == 0, ok("int_ok10", L[i + 2]), self.nd(j) >= 0,
                    ok("is_language", L[i]), LE(j) == self.lang(j), LE(j) >= 0, LI(self.lang(j)) == j, LP(j + 1) == i + 3 + self.nd(j))),
                Implies(And(j >= 0, j < self.nl), forall([q], Implies(And(q >= 0, q < self.nd(j)), And(NI(L[i + 3 + q]) >= 0, NI(L[i + 3 + q]) < self.np, NM(NI(L[i + 3 + q])) == L[i + 3 + q])), [L[i + 3 + q]]))]


def setup_parse(E):
    setup_common(E)
    def inv(ctx):
        X = E.X
        j, x, e = z3.Int("j!"), z3.String("x!"), z3.Int("e!")
        for lab, f, w in int_comps(ctx):
            if w == "int":
                ctx.cand(f"{lab} line of the project", lambda k, r, f=f: f(r) == 5 + 4 * k)
                ctx.cand(f"{lab} line of the language", lambda k, r, f=f: f(r) == LP(k))
            if w == "seqlen": ctx.cand(f"{lab} required so far", lambda k, r, f=f: f(r) == RC(k))
        for key, kind, entry in ctx.slots():
            if isinstance(kind, SeqK):
                el = {STR: NM(X.R)}.get(kind.k) if kind.k == STR else X.pv(NM(X.R)) if isinstance(kind.k, ObjK) else None
                if el is not None:
                    ctx.cand(f"{key} required", lambda k, r, key=key, el=el: Implies(And(X.R < k, X.unk(X.R) == 0), And(RC(X.R) >= 0, RC(X.R) < RC(k), r(key)[1][RC(X.R)] == el)))
                if kind.k == STR:
                    ctx.cand(f"{key} names of projects", lambda k, r, key=key: forall([j], Implies(And(j >= 0, j < r(key)[0]), And(NI(r(key)[1][j]) >= 0, NI(r(key)[1][j]) < k, NM(NI(r(key)[1][j])) == r(key)[1][j])), [r(key)[1][j]]))
            if isinstance(kind, MapK) and kind.kk == STR:
                ctx.cand(f"{key} projects so far", lambda k, r, key=key: forall([x], r(key)[0][x] == And(NI(x) >= 0, NI(x) < k, NM(NI(x)) == x), [r(key)[0][x]]))
                if isinstance(kind.vk, ObjK):
                    ctx.cand(f"{key} versions so far", lambda k, r, key=key: forall([x], Implies(r(key)[0][x], r(key)[1][x] == X.pv(x)), [r(key)[1][x]]))
            if isinstance(kind, MapK) and isinstance(kind.kk, EnumK) and isinstance(kind.vk, SeqK) and isinstance(kind.vk.k, ObjK):
                D, N, A = ((lambda r, key=key, i=i: r(key)[i]) for i in range(3))
                ctx.cand(f"{key} languages so far", lambda k, r, D=D: forall([e], Implies(e >= 0, D(r)[e] == And(LI(e) >= 0, LI(e) < k, LE(LI(e)) == e)), [D(r)[e]]))
                ctx.cand(f"{key} no other", lambda k, r, D=D, en=ctx.info.entry[key]: D(r)[-1] == en[0][-1])
                ctx.cand(f"{key} number of projects", lambda k, r, N=N: Implies(X.J < k, N(r)[LE(X.J)] == X.nd(X.J)))
                ctx.cand(f"{key} projects", lambda k, r, A=A: Implies(And(X.J < k, X.Q < X.nd(X.J)), A(r)[LE(X.J)][X.Q] == X.pv(X.dep(X.J, X.Q))))
        ctx.unfold_with(lambda k: X.project(k) + X.language(k))
    E.invariants.append(inv)


def run_parse(E, what):
    X = E.X = Manifest(E)
    E.fact(And(X.J >= 0, X.J < X.nl, X.Q >= 0, X.Q < X.nd(X.J), X.R >= 0, X.R < X.np, X.unk(X.R) == 0))
    for w in X.language(X.J) + X.project(X.R) + X.project(z3.IntVal(0)) + X.language(z3.IntVal(0)): E.fact(w)
    j = z3.Int("j!")
    for w in X.project(j)[:1]: E.fact(forall([j], w, [NM(j)]))
    for w in X.language(j)[:1]: E.fact(forall([j], w, [LE(j)]))
    path, sname, vtext, base = (E.const(x, StrS) for x in ("path", "solution", "version", "base"))
    sub = fcall("concat", path, ret=StrS)
    full = lambda p: fcall("fspath", S(p), ret=StrS)
    asked = []
    X.storage = st = obj(E, "rads.RadsStorage", path=base)
    def download(E, args, kwargs):
        asked.append([S(a) for a in args[1:3]])
        if not E.branch(E.const("download", BoolS), "download"): E.py_raise("IOError")
        return None
    E.contracts["storage.Storage.download"] = download
    E.contracts["storage.Storage.fspath"] = lambda E, a, k: full(a[1])
    sol = obj(E, "rads.RadsSolution", storage=st, name=sname, path=E.const("spath", StrS))
    ver = Obj(E, E.cls("rads.RadsVersion"), s=vtext)
    sv = obj(E, "rads.RadsSolutionVersion", solution=sol, version=ver, path=path)
    text = E.const("text", StrS)
    opened = []
    class OneFS:
        faults = False
        def open(self, E, p, mode, kw):
            opened.append((p, mode))
            return FileV(E, text)
        def pred(self, E, name, p): return E.const("pred", BoolS)
    E.fs = OneFS()
    E.str_hooks = {}
    def splitlines(E, s):
        if not s.eq(text): raise Unsupported("lines of another text")
        return ListCell(E, SSeq(STR, X.n, [X.L]))
    E.str_hooks["splitlines"] = splitlines
    st_, v = call(E, E.getattr(sv, "dependencies"))
    head = And(X.L[0] == S("RADS Solution Manifest"), X.L[1] == S("1.0.0.0"), X.L[2] == sname, vtext == X.L[3])
    if st_ == "exc":
        if is_exc(E, v, "IOError"): return E.cover("no manifest")
        if E.debug: print("EXC", v)
        E.prove(Not(head), "a well-formed manifest is parsed")
        return E.cover("refused")
    E.prove(head, "wrong magic lines, formats, names and versions are refused")
    want = z3.Concat(path, S("/solutionmanifest"))
    E.prove(And(B(len(asked) == 1), *[a == want for x in asked for a in x]), "the manifest of this version is downloaded to its own path")
    E.prove(And(B(len(opened) == 1), *[S(p) == full(want) for p, _ in opened]), "the downloaded manifest is read")
    m = v.v
    if isinstance(m, CMap): m = E.to_smap(m, OptEnumK(E.cls("data.Language")), SeqK(ObjK(E.cls("rads.RadsProjectVersion"))))
    D, N, A = m.dom, m.vals[0], m.vals[1]
    e = E.const("e", IntS)
    E.prove(D[LE(X.J)], "every listed language has an entry")
    E.prove(Implies(And(e >= 0, D[e]), And(LI(e) >= 0, LI(e) < X.nl, LE(LI(e)) == e)), "only listed languages have one")
    E.prove(N[LE(X.J)] == X.nd(X.J), "a language has as many projects as are listed for it")
    E.prove(A[LE(X.J)][X.Q] == X.pv(X.dep(X.J, X.Q)), "the projects of a language are those listed, in order, with their versions")
    E.prove(And(D[-1], N[-1] == RC(X.np)), "the language-independent entry has as many projects as are required")
    E.prove(A[-1][RC(X.R)] == X.pv(NM(X.R)), "required projects are listed in order, with their versions")
    E.cover("parsed")


def run_construct(E):
    st = obj(E, "rads.RadsStorage", path=E.const("base", StrS))
    name, ver = E.const("name", StrS), E.const("version", StrS)
    s1, p = call(E, E.cls("rads.RadsProject"), st, name)
    E.prove(B(s1 == "ok"), "a project is made of a storage and a name")
    v = Obj(E, E.cls("rads.RadsVersion"), s=ver, t=Opq(E.const("t", AnyS)))
    s2, pv = call(E, E.cls("rads.RadsProjectVersion"), p, v)
    E.prove(B(s2 == "ok"), "a project version is made of a project and a version")
    E.prove(And(B(E.identical(E.getattr(p, "storage"), st)), S(E.getattr(p, "name")) == name, S(E.getattr(p, "path")) == z3.Concat(S("projects/"), name, S("/releases"))), "fields of a project")
    E.prove(And(B(E.identical(E.getattr(pv, "project"), p)), B(E.identical(E.getattr(pv, "version"), v)), S(E.getattr(pv, "path")) == z3.Concat(S("projects/"), name, S("/releases/"), ver)), "fields of a project version")
    name2, ver2 = E.const("name2", StrS), E.const("version2", StrS)
    q = E.call(E.cls("rads.RadsProjectVersion"), [E.call(E.cls("rads.RadsProject"), [st, name2], {}), Obj(E, E.cls("rads.RadsVersion"), s=ver2, t=Opq(E.const("t2", AnyS)))], {})
    same = And(name == name2, ver == ver2)
    E.prove(eq(E, pv, q) == same, "project versions are equal exactly when their names and versions are")
    E.prove(Implies(same, eq(E, M.b_hash(E, [pv], {}), M.b_hash(E, [q], {}))), "equal project versions hash alike")
    E.cover("made")


IN = z3.Function("in_a_selected_entry", IntS, BoolS)         # any predicate that holds of the projects of the selected entries

def setup_projects(E):
    setup_common(E)
    def inv(ctx):
        X = E.X
        q, r_ = z3.Int("q!"), z3.Int("r!")
        it = ctx.iterable
        for key, kind, entry in ctx.slots():
            mem = None
            if isinstance(kind, SetK) and isinstance(kind.k, ObjK): mem = lambda r, key=key: r(key)[0]
            if mem is None: continue
            en = ctx.info.entry[key][0]
            ctx.cand(f"{key} only selected", lambda k, r: forall([r_], Implies(mem(r)[r_], IN(r_)), [mem(r)[r_]]))
            ctx.cand(f"{key} grows", lambda k, r: forall([r_], Implies(en[r_], mem(r)[r_]), [en[r_]]))
            ctx.cand(f"{key} given entries so far", lambda k, r: Implies(X.x < k, mem(r)[X.val]))
            s = it.v if isinstance(it, ListCell) else it
            if isinstance(s, SSeq) and isinstance(s.kind, ObjK): ctx.cand(f"{key} this entry so far", lambda k, r, a=s.arrs[0]: forall([q], Implies(And(q >= 0, q < k), mem(r)[a[q]]), [a[q]]))
            if X.idx is not None: ctx.cand(f"{key} entries so far", lambda k, r: Implies(X.idx(X.x) < k, mem(r)[X.val]))
    E.invariants.append(inv)


def run_projects(E):
    LC, PC = E.cls("data.Language"), E.cls("rads.RadsProjectVersion")
    D, N, A = E.const("D", z3.ArraySort(IntS, BoolS)), E.const("N", IA), E.const("A", z3.ArraySort(IntS, IA))
    e, q = z3.Int("e!"), z3.Int("q!")
    E.fact(And(D[-1], forall([e], N[e] >= 0, [N[e]]), forall([e], Implies(D[e], e >= -1), [D[e]])))
    E.contracts["rads.RadsSolutionVersion.dependencies"] = lambda E, a, k: DictCell(E, SMap(OptEnumK(LC), SeqK(ObjK(PC)), D, [N, A]))
    E.contracts["rads.RadsProjectVersion.__eq__"] = lambda E, a, k: a[0].ref == a[1].ref if isinstance(a[1], SObj) else NotImplemented
    sv = obj(E, "rads.RadsSolutionVersion", path=E.const("path", StrS))
    class X: idx = None
    E.X = X
    how = E.choose("langs", [(x, None) for x in ("default", "False", "True", "language", "names", "languages")])
    n, l, L, LI_ = E.const("n", IntS), E.const("l", IntS), E.const("L", SA), E.const("LI", IA)
    E.fact(And(n >= 0, l >= 0))
    if how == 5: E.fact(forall([q], LI_[q] >= 0, [LI_[q]]))
    arg = [None, False, True, EnumVal(LC, l), ListCell(E, SSeq(STR, n, [L])), ListCell(E, SSeq(EnumK(LC), n, [LI_]))][how]
    J = (lambda i: LANG(L[i])) if how == 4 else (lambda i: LI_[i])
    x, y, i, j = (E.const(c, IntS) for c in ("x", "y", "i", "j"))
    X.x, X.y = x, y
    if how in (0, 2):
        E.fact(And(D[x], y >= 0, y < N[x])); X.val = A[x][y]
        E.fact(forall([e, q], Implies(And(D[e], q >= 0, q < N[e]), IN(A[e][q])), [A[e][q]]))
        X.idx = M.enum_of(E, SMap(OptEnumK(LC), SeqK(ObjK(PC)), D, [N, A]))[2]
    elif how > 3:
        E.fact(And(x >= 0, x < n, y >= 0, y < N[J(x)])); X.val = A[J(x)][y]
        E.fact(forall([e, q], Implies(And(e >= 0, e < n, q >= 0, q < N[J(e)]), IN(A[J(e)][q])), [A[J(e)][q]]))
    st, v = call(E, E.getattr(sv, "projects"), *([] if how == 0 else [arg]))
    if st == "exc":
        i = z3.Int("i!")
        E.prove({3: Not(D[l]), 4: z3.Exists([i], And(i >= 0, i < n, Or(Not(ok("is_language", L[i])), Not(D[J(i)])))), 5: z3.Exists([i], And(i >= 0, i < n, Not(D[J(i)])))}.get(how, z3.BoolVal(False)), "only languages that are not listed are refused")
        return E.cover("refused")
    if how in (1, 3):
        k = z3.IntVal(-1) if how == 1 else l
        E.prove(D[k], "the language is listed")
        j = E.const("j", IntS)
        E.prove(I(M.length(E, v)) == N[k], "number of projects")
        E.prove(Implies(And(j >= 0, j < N[k]), M.getitem(E, v, j).ref == A[k][j]) if E.branch(And(j >= 0, j < N[k]), "index") else z3.BoolVal(True), "the projects of the entry")
        return E.cover("one entry")
    s = M.as_seq(E, v)
    if isinstance(s, CSeq): s = E.to_sseq(s, ObjK(PC))
    E.fact(And(i >= 0, i < I(s.n), j >= 0, j < I(s.n)))
    E.prove(B(M.contains(E, ListCell(E, s), SObj(PC, X.val))), "every project of the selected entries is returned")
    E.prove(IN(s.arrs[0][i]), "only projects of the selected entries are returned")
    E.prove(Implies(i != j, s.arrs[0][i] != s.arrs[0][j]), "no project is returned twice")
    E.cover("union")


GOALS = [Goal("constructors", run_construct, covers=["made"]),
         Goal("parse", lambda E: run_parse(E, None), setup_parse, covers=["refused", "no manifest", "parsed"]),
         Goal("projects", run_projects, setup_projects, covers=["refused", "one entry", "union"])]
ASSUMPTIONS = ["the names of the projects, and the languages, of a manifest are distinct, and languages list projects of the manifest", "project versions are values determined by name and version text (goal constructors)",
               "Storage.download and fspath by contract (P05)", "str.splitlines gives an arbitrary list of lines; int(text) is uninterpreted"]
