"""P13: translation tables, decoded from arbitrary data."""
from pyvc.contract import *

IB, IS_ = z3.ArraySort(IntS, BoolS), z3.ArraySort(IntS, StrS)
HV, IV, ENDV, IDX = (z3.Function(n, IntS, IntS) for n in ("key_of", "offset_of", "end_of", "index_of_key"))
u = lambda E, p, n: M.le(E, E.D.base, I(p), n)


def globals_(E):
    E.global_overrides["hashes.default_hash_dir"] = lambda E: M.DirV("hashes")
    E.global_overrides["rstfile.default_hash_dir"] = lambda E: M.DirV("hashes")


def setup_parse(E):
    globals_(E)
    def inv(ctx):
        X = E.X
        for key, kind, e in ctx.slots():
            if isinstance(kind, MapK) and kind.vk == STR:
                D, V = (lambda r, key=key: r(key)[0]), (lambda r, key=key: r(key)[1])
                j, x = z3.Int("j!"), z3.Int("x!")
                ctx.cand("texts so far", lambda k, r: forall([j], Implies(And(j >= 0, j < k), And(D(r)[HV(j)], V(r)[HV(j)] == X.text(j))), [HV(j)]))
                ctx.cand("keys so far", lambda k, r: forall([x], Implies(D(r)[x], And(IDX(x) >= 0, IDX(x) < k, HV(IDX(x)) == x)), [D(r)[x]]))
        for lab, f, w in int_comps(ctx):
            if w == "int" and lab.endswith(".pos"): ctx.cand(f"{lab} within the file", lambda k, r, f=f: f(r) <= E.D.n)
        ctx.unfold_with(lambda k: [HV(k) == X.h(k), IV(k) == X.i(k)] + X.wf(k))
    E.invariants.append(inv)


class Table:
    def __init__(self, E, version, new):
        self.E, self.version = E, version
        D = E.D
        b = lambda p: M.byte_at(E, D, p)
        self.magic = And(D.n >= 4, *[b(i) == x for i, x in enumerate(b"RST")])
        self.bits = 40 if version < 4 else 38 if new else 39
        self.q0 = z3.IntVal(4)
        self.font = None
        if version == 2:
            self.font = b(4) != 0
            self.q0 = z3.If(self.font, 9 + u(E, 5, 4), 5)
        if E.font:
            E.fact(self.font); self.q0 = 9 + u(E, 5, 4); self.has_font = True
        else:
            self.has_font = False
            if version == 2: E.fact(Not(self.font)); self.q0 = z3.IntVal(5)
        self.count = u(E, self.q0, 4)
        self.q = self.q0 + 4
        self.q1 = self.q + 8 * self.count
        self.start = self.q1 + (1 if version < 5 else 0)
        self.trenc = z3.BoolVal(False)
        if version < 5: self.trenc = b(self.q1) != 0
    def v(self, j): return u(self.E, self.q + 8 * j, 8)
    def h(self, j): return self.v(j) % 2 ** self.bits
    def i(self, j): return self.v(j) / 2 ** self.bits
    def block(self, j): return And(self.trenc, bat(self.E.D.base, self.start + IV(j)) == 0xff)
    def size(self, j): return u(self.E, self.start + IV(j) + 1, 2)
    def text(self, j):
        E = self.E
        d = lambda t: fcall("decode_utf-8_replace", t, ret=StrS)
        p = self.start + IV(j)
        return z3.If(self.block(j), d(fcall("b64encode", bsl(E.D.base, p + 3, self.size(j)), ret=ByteS)), d(bsl(E.D.base, p, ENDV(j) - p)))
    def wf(self, j):
        """entry j is well-formed: its block or its zero byte lies within the data (ENDV: position of that byte)"""
        D = self.E.D
        p = self.start + IV(j)
        t = z3.Int("t!")
        ok = And(j >= 0, j < self.count)
        return [Implies(ok, And(p < D.n, IV(j) >= 0, IDX(HV(j)) == j, z3.If(self.block(j), p + 3 + self.size(j) <= D.n, And(ENDV(j) >= p, ENDV(j) < D.n, bat(D.base, ENDV(j)) == 0)))),
                Implies(And(ok, Not(self.block(j))), forall([t], Implies(And(t >= p, t < ENDV(j)), bat(D.base, t) != 0), [bat(D.base, t)]))]


def run_parse(E, version, new, font=False):
    E.byte_axioms()
    E.font = font
    D = E.D = symbytes(E)
    gv = E.const("game_version", IntS)
    E.fact(gv >= 1502 if new else gv < 1502)
    magic = And(D.n >= 4, *[M.byte_at(E, D, i) == x for i, x in enumerate(b"RST")])
    ver = M.byte_at(E, D, 3)
    if version is None: E.fact(And(ver != 2, ver != 3, ver != 4, ver != 5))
    else: E.fact(ver == version)
    if version is not None:
        X = E.X = Table(E, version, new)
        j = z3.Int("j!")
        E.fact(forall([j], And(HV(j) == X.h(j), IV(j) == X.i(j)), [HV(j)]))
        for w in X.wf(j): E.fact(forall([j], w, [HV(j)]))
    else:
        E.invariants.clear()
    f = FileV(E, D)
    how = E.choose("source", [("file object", None), ("path", None)])
    if how == 0: src = f
    else:
        src = E.const("path", StrS)
        class OneFS:
            faults = False
            def open(self, E, p, mode, kw):
                E.prove(And(S(p) == src, B(mode == "rb")), "the given file is opened for reading")
                return f
            def pred(self, E, name, p): return E.const("pred", BoolS)
        E.fs = OneFS()
    st, t = call(E, E.cls("rstfile.RstFile"), src, gv)
    if st == "exc":
        if version is None:
            E.prove(Or(D.n < 4, B(is_exc(E, t, "ValueError"))), "a wrong magic code or version is a ValueError")
        else:
            E.prove(Or(magic, D.n < 4, B(is_exc(E, t, "ValueError"))), "a wrong magic code is a ValueError")
            need = X.start
            E.prove(Or(Not(magic), D.n < need, B(version == 2 and is_exc(E, t, "UnicodeDecodeError"))), "a complete table is decoded")
        E.cover("refused")
        return
    E.prove(B(version is not None), "an unsupported version is refused")
    E.prove(magic, "a wrong magic code is refused")
    if version is None: return
    E.prove(X.start <= D.n, "truncated data is an error")
    E.prove(eq(E, E.getattr(t, "version"), version), "the version is the stored one")
    E.prove(eq(E, E.getattr(t, "hash_bits"), X.bits), "hash width of the version")
    fc = E.getattr(t, "font_config")
    if X.has_font: E.prove(eq(E, fc, fcall("decode_utf-8", bsl(D.base, 9, u(E, 5, 4)), ret=StrS)), "the font configuration is the stored one")
    else: E.prove(is_none(E, fc), "no font configuration")
    es = E.getattr(t, "entries")
    m = es.v
    if isinstance(m, CMap): m = E.to_smap(m, INT, STR)
    j, x = E.const("j", IntS), E.const("x", IntS)
    E.fact(And(j >= 0, j < X.count, HV(j) == X.h(j)))
    E.prove(m.dom[HV(j)], "every stored key has a text")
    E.prove(m.vals[0][HV(j)] == X.text(j), "the text of a key is the one at its offset")
    E.prove(Implies(m.dom[x], And(IDX(x) >= 0, IDX(x) < X.count, HV(IDX(x)) == x)), "no other key has a text")
    E.cover("decoded")


KINDS = ["text", "number", "other"]

def run_lookup(E):
    bits = [38, 39, 40][E.choose("bits", [(str(b), None) for b in (38, 39, 40)])]
    gv = E.const("game_version", IntS)
    dom, vals = E.const("keys", IB), E.const("texts", IS_)
    es = DictCell(E, SMap(INT, STR, dom, [vals]))
    o = obj(E, "rstfile.RstFile", entries=es, hash_bits=bits, game_version=gv, version=5, font_config=None)
    kind = E.choose("key", [(k, None) for k in KINDS])
    if kind == 0:
        key = E.const("key", StrS)
        low = fcall("encode_utf8", fcall("str_lower", key, ret=StrS), ret=ByteS)
        full = z3.If(gv >= 1415, fcall("f_xxhash.xxh3_64_intdigest", low), fcall("f_xxhash.xxh64_intdigest", low))
    elif kind == 1: key = full = E.const("key", IntS)
    else: key = None
    if key is not None:
        h = full % 2 ** bits
        has = dom[h]
    else: has = z3.BoolVal(False)
    d = E.const("default", StrS)
    op = E.choose("operation", [("[]", None), ("in", None), ("get", None), ("get without default", None)])
    if op == 0: st, v = call(E, E.getattr(o, "__getitem__"), key)
    if op == 1: st, v = call(E, E.getattr(o, "__contains__"), key)
    if op == 2: st, v = call(E, E.getattr(o, "get"), key, d)
    if op == 3: st, v = call(E, E.getattr(o, "get"), key)
    E.prove(And(E.getattr(o, "entries").v.dom == dom, E.getattr(o, "entries").v.vals[0] == vals), "lookups change nothing")
    what = ["lookup", "membership", "lookup with default", "lookup without default"][op]
    if st == "exc":
        E.prove(And(B(op == 0 and is_exc(E, v, "KeyError")), Not(has)), what + " fails only for an absent key, with KeyError")
        E.cover("missing")
        return
    if op == 1: E.prove(B(E.truth(v)) == has, "a key is a member exactly when its hash has a text")
    else:
        if op == 0: E.prove(has, "looking up an absent key is an error")
        absent = eq(E, v, d) if op == 2 else is_none(E, v)
        if E.branch(has, "has"): E.prove(And(Not(is_none(E, v)), eq(E, v, vals[h])), what + " gives the text of the hash")
        elif op: E.prove(absent, what + " gives the default for an absent key")
    E.cover(what + " by " + KINDS[kind])


GOALS = []
def add(name, version, new, font=False):
    GOALS.append(Goal(name, lambda E: run_parse(E, version, new, font), setup_parse, covers=["refused"] + (["decoded"] if version else [])))
for v in (2, 3, 4, 5):
    for new in (False, True):
        game = ", game 15.2 or later" if new else ", earlier games"
        add(f"version {v}" + game, v, new)
        if v == 2: add("version 2 with font configuration" + game, v, new, True)
add("other versions", None, True)
GOALS.append(Goal("lookups", run_lookup, globals_, covers=["missing"] + [f"{a} by {k}" for a in ("lookup", "membership", "lookup with default") for k in KINDS if (a, k) != ("lookup", "other")]))
ASSUMPTIONS = ["tables hold distinct keys, and texts that end within the data", "b64encode is a function of its input"]
