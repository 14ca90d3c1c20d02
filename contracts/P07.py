"""P07: hash guessing, from arbitrary known and unknown hashes and for arbitrary sequences of candidate paths."""
from pyvc.contract import *

IB, IS_ = z3.ArraySort(IntS, BoolS), z3.ArraySort(IntS, StrS)
XXH = z3.Function("xxh64", StrS, IntS)


def setup(E):
    def digest(E, a, k):
        x = E.resolve(a[0])
        if len(a) != 1 or k: raise Unsupported("hash with a seed")
        if not M.is_strlike(x): E.py_raise("TypeError", "digest")
        t = XXH(S(x))
        E.fact(And(t >= 0, t < 2 ** 64))
        return t
    E.global_overrides["hashes.xxh64_intdigest"] = lambda E: BuiltinV("xxh64", digest)
    def inv(ctx):
        X = E.X
        kd, ku = (X.known.uid, "v"), (X.unknown.uid, "v")
        h, j = z3.Int("h!"), z3.Int("j!")
        if kd in ctx.info.mods:
            D = lambda r: r(kd)[0]
            V = lambda r: r(kd)[1]
            ctx.cand("known entries stay", lambda k, r: forall([h], Implies(X.dom[h], And(D(r)[h], V(r)[h] == X.vals[h])), [D(r)[h], X.dom[h]]))
            ctx.cand("new entries are true", lambda k, r: forall([h], Implies(And(D(r)[h], Not(X.dom[h])), And(X.unk[h], XXH(V(r)[h]) == h)), [D(r)[h]]))
            ctx.cand("tried candidates are recorded", lambda k, r: forall([j], Implies(And(j >= 0, j < k, X.unk[XXH(X.cands[j])]), D(r)[XXH(X.cands[j])]), [X.cands[j]]))
        if ku in ctx.info.mods:
            U = lambda r: r(ku)[0]
            ctx.cand("unknown are those not yet known", lambda k, r: forall([h], U(r)[h] == And(X.unk[h], Not(D(r)[h])), [U(r)[h], X.unk[h]]))
    E.invariants.append(inv)


class State:
    def __init__(self, E):
        self.dom, self.vals, self.unk = E.const("known", IB), E.const("paths", IS_), E.const("unknown", IB)
        h = z3.Int("h!")
        E.fact(forall([h], Implies(self.unk[h], Not(self.dom[h])), [self.unk[h], self.dom[h]]))
        self.known = DictCell(E, SMap(INT, STR, self.dom, [self.vals]))
        self.unknown = SetCell(E, SSetV(INT, self.unk))
        self.cands = E.const("candidates", IS_)
        self.n = E.const("n", IntS)
        E.fact(self.n >= 0)
        self.obj = obj(E, "hashes.HashGuesser", known=self.known, unknown=self.unknown, hashfile=None, wads=None)
        E.X = self

    def check(self, E, tried, what):
        """tried(h): some candidate tried has this hash"""
        o = self.obj
        k, u = E.getattr(o, "known"), E.getattr(o, "unknown")
        E.prove(B(k is self.known), f"{what}: the list of known hashes is the one of the hash file")
        h = E.const("h", IntS)
        D, V, U = k.v.dom, k.v.vals[0], u.v.mem
        E.prove(Implies(self.dom[h], And(D[h], V[h] == self.vals[h])), f"{what}: entries already known are never changed or removed")
        E.prove(Implies(And(D[h], Not(self.dom[h])), self.unk[h]), f"{what}: only unknown hashes are added")
        E.prove(Implies(And(D[h], Not(self.dom[h])), XXH(V[h]) == h), f"{what}: an added path has the hash it is recorded under")
        tried(h, D)
        E.prove(U[h] == And(self.unk[h], Not(D[h])), f"{what}: a hash leaves the unknown ones exactly when it is recorded")


def single(name):
    def run(E):
        X = State(E)
        p = E.const("path", StrS)
        st, v = call(E, E.getattr(X.obj, name), p)
        E.prove(B(st == "ok"), f"{name} is no error")
        if st != "ok": return
        def tried(h, D):
            E.prove(Implies(X.unk[XXH(p)], D[XXH(p)]), f"{name}: a candidate whose hash is unknown is recorded")
            E.prove(Implies(And(D[h], Not(X.dom[h])), And(h == XXH(p), E.getattr(X.obj, "known").v.vals[0][h] == p)), f"{name}: nothing else is recorded")
        X.check(E, tried, name)
        if name == "is_known": E.prove(B(E.truth(v)) == Or(X.dom[XXH(p)], X.unk[XXH(p)]), "a path is known when its hash is known or has just been found")
        E.cover("checked")
    return run


def run_iter(E):
    X = State(E)
    which = E.choose("candidates", [("list", None), ("generator", None), ("text", None), ("one text", None)])
    if which == 3:
        st, v = call(E, E.getattr(X.obj, "check_iter"), E.const("path", StrS))
        E.prove(B(st == "exc" and is_exc(E, v, "TypeError")), "a text instead of a sequence of texts is refused")
        E.prove(And(B(X.known.v.dom.eq(X.dom)), B(X.unknown.v.mem.eq(X.unk))), "a refused text changes nothing")
        E.cover("refused")
        return
    if which < 2:
        seq = ListCell(E, SSeq(STR, X.n, [X.cands]))
        arg = seq if which == 0 else M.IterCell(E, seq) if hasattr(M, "IterCell") else seq
        st, v = call(E, E.getattr(X.obj, "check_iter"), arg)
    else:
        t = E.const("text", StrS)
        E.split_hook = lambda E, z, sep, m: ListCell(E, SSeq(STR, X.n, [X.cands])) if z.eq(t) and sep is None and m == -1 else None
        j = z3.Int("j!")
        E.fact(forall([j], Implies(And(j >= 0, j < X.n), X.cands[j] != S("")), [X.cands[j]]))      # what split() gives
        st, v = call(E, E.getattr(X.obj, "check_text_list"), t)
    E.prove(B(st == "ok"), "trying candidates is no error")
    if st != "ok": return
    j = E.const("j", IntS)
    E.fact(And(j >= 0, j < X.n))
    X.check(E, lambda h, D: E.prove(Implies(X.unk[XXH(X.cands[j])], D[XXH(X.cands[j])]), "every tried candidate whose hash is unknown is recorded"), "candidates")
    E.cover(["list", "generator", "text"][which])


def run_init(E):
    dom, vals = E.const("known", IB), E.const("paths", IS_)
    known = DictCell(E, SMap(INT, STR, dom, [vals]))
    loads = []
    class HF:
        def attr(self, E, name):
            if name == "load": return bi("load", lambda *a, **k: (loads.append(1), known)[1])
            raise Unsupported("hashfile." + name)
    n, H = E.const("n", IntS), E.const("hashes", z3.ArraySort(IntS, IntS))
    E.fact(n >= 0)
    given = E.const("given", IB)
    which = E.choose("hashes", [("set", None), ("list", None)])
    if which == 0: hashes, has = SetCell(E, SSetV(INT, given)), lambda h: given[h]
    else:
        hashes = ListCell(E, SSeq(INT, n, [H]))
        j = z3.Int("j!")
        has = lambda h: z3.Exists([j], And(j >= 0, j < n, H[j] == h))
    sub = E.choose("class", [("HashGuesser", None), ("LcuHashGuesser", None), ("GameHashGuesser", None)])
    if sub == 0: st, g = call(E, E.cls("hashes.HashGuesser"), HF(), hashes)
    else:
        E.global_overrides["hashes.hashfile_" + ["", "lcu", "game"][sub]] = lambda E: HF_
        HF_ = HF()
        st, g = call(E, E.cls("hashes." + ["", "LcuHashGuesser", "GameHashGuesser"][sub]), hashes)
    E.prove(B(st == "ok"), "building a guesser is no error")
    if st != "ok": return
    E.prove(B(E.resolve(E.getattr(g, "known")) is known), "the known hashes are those of the hash file")
    E.prove(And(known.v.dom == dom, known.v.vals[0] == vals), "building a guesser changes no known hash")
    u = E.getattr(g, "unknown")
    h = E.const("h", IntS)
    mem = u.v.mem if isinstance(u.v, SSetV) else None
    if which == 1: E.fact(fcall("at", h, ret=BoolS))
    E.prove(Implies(mem[h], And(has(h), Not(dom[h]))), "unknown hashes are given and not known")
    if which == 0: E.prove(Implies(And(given[h], Not(dom[h])), mem[h]), "given hashes that are not known are unknown")
    else:
        i = E.const("i", IntS)
        E.fact(And(i >= 0, i < n))
        E.prove(Implies(Not(dom[H[i]]), mem[H[i]]), "given hashes that are not known are unknown")
    if which == 0: E.prove(B(E.resolve(E.getattr(g, "unknown")) is not None) , "unknown hashes are a set")
    E.cover("initialised")


MUTATORS = {"add", "remove", "discard", "pop", "popitem", "update", "clear", "setdefault", "difference_update", "intersection_update", "symmetric_difference_update"}

def writers():
    """functions of the guesser classes that change the known or unknown hashes through an attribute"""
    import ast
    from pyvc.interp import Module
    def state(t):
        while isinstance(t, (ast.Subscript, ast.Starred)): t = t.value
        return isinstance(t, ast.Attribute) and t.attr in ("known", "unknown")
    out = set()
    for c in Module.load("hashes").body:
        if not isinstance(c, ast.ClassDef): continue
        for f in c.body:
            if not isinstance(f, ast.FunctionDef): continue
            for n in ast.walk(f):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)) else []
                ts = [x for t in ts for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])]
                if any(state(t) for t in ts) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and state(n.func.value):
                    out.add(f"hashes.{c.name}.{f.name}")
    return out


def run_owner(E):
    """the functions that change the two sets are those verified above"""
    X = State(E)
    p = E.const("path", StrS)
    E.fact(X.unk[XXH(p)])
    for name in ("check", "is_known", "check_iter"):
        X.obj.set("known", DictCell(E, SMap(INT, STR, X.dom, [X.vals])))
        X.obj.set("unknown", SetCell(E, SSetV(INT, X.unk)))
        call(E, E.getattr(X.obj, name), ListCell(E, CSeq([p])) if name == "check_iter" else p)
    class HF:
        def attr(self, E, name): return bi(name, lambda *a, **k: X.known)
    call(E, E.cls("hashes.HashGuesser"), HF(), X.unknown)
    for w in sorted(writers()): E.prove(B(w in E.functions), f"{w} changes the known or unknown hashes and is under contract")
    E.cover("owners")


GOALS = [Goal("check", single("check"), setup, covers=["checked"]), Goal("is_known", single("is_known"), setup, covers=["checked"]),
         Goal("sequences of candidates", run_iter, setup, covers=["list", "generator", "text", "refused"]),
         Goal("initial state", run_init, lambda E: E.global_overrides.update({"hashes.default_hash_dir": lambda E: M.DirV("hashes")}), covers=["initialised"]),
         Goal("no other function changes the sets", run_owner, setup, covers=["owners"])]
BOUNDED = []
ASSUMPTIONS = ["the two sets are changed only through the guesser's attributes (scanned syntactically), not through other names"]
