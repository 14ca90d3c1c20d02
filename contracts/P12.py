"""P12: fields of BIN objects, over an arbitrary list of fields with arbitrary name hashes."""
from pyvc.contract import *

FNV = z3.Function("fnv1a", ByteS, IntS, IntS)      # hash of the first k bytes
binhash = lambda s: fcall("binhash", s)


def fnv_step(E, b, k):
    x = M.int_op(E, "xor", FNV(b, k), bat(b, k))
    return FNV(b, k + 1) == (x * 0x01000193) % 2 ** 32


def setup_hash(E):
    def invariant(ctx):
        b = E.lowered
        ctx.unfold_with(lambda k: [fnv_step(E, b, k)])
        for key, kind, e in ctx.slots():
            if kind in (INT, NAT): ctx.define(key, 0, "hash of the bytes so far", lambda k: FNV(b, k))
    E.invariants.append(invariant)


def run_hash(E):
    s = E.const("name", StrS)
    E.fact(M.is_ascii(E, s))
    E.byte_axioms()
    E.lowered = b = M.blower(E, fcall("encode_utf8", s, ret=ByteS))
    E.fact(FNV(b, 0) == 0x811c9dc5)
    st, v = call(E, func(E, "binfile.compute_binhash"), s)
    E.prove(B(st == "ok"), "ASCII names have a hash")
    if st != "ok": return
    E.prove(I(v) == FNV(b, blen(b)), "the hash is the 32-bit FNV-1a hash of the lowercased text")
    E.cover("hash")


def setup_values(E):
    E.global_overrides["hashes.default_hash_dir"] = lambda E: M.DirV("hashes")


def run_values(E):
    """hashed values compare by their hashes"""
    classes = ["BinHashValue", "BinEntryPath", "BinFieldName", "BinTypeName", "BinPathValue"]
    def load(E, a, k):
        d = DictCell(E, SMap(INT, STR, E.const("known", z3.ArraySort(IntS, BoolS)), [E.const("names", z3.ArraySort(IntS, StrS))]))
        return d
    E.contracts["hashes.HashFile.load"] = load
    ca, cb = [classes[E.choose("class", [(c, None) for c in classes])] for _ in range(2)]
    h, g = E.const("h", IntS), E.const("g", IntS)
    a, b = E.call(E.cls("binfile." + ca), [h]), E.call(E.cls("binfile." + cb), [g])
    E.prove(eq(E, E.getattr(a, "h"), h), "a hashed value has the hash it is built from")
    import ast
    E.prove(eq(E, a, b) == (h == g), "hashed values are equal exactly when their hashes are")
    E.prove(B(M.compare(E, ast.NotEq(), a, b)) == (h != g), "and differ exactly when their hashes do")
    E.prove(Implies(h == g, I(M.b_hash(E, [a], {})) == I(M.b_hash(E, [b], {}))), "equal hashed values hash alike")
    E.cover("compared")


CLASSES = ["BinEntry", "BinStruct", "BinEmbedded"]


class Fields:
    def __init__(self, E):
        self.E = E
        F, N = E.cls("binfile.BinField"), E.cls("binfile.BinFieldName")
        E.class_fields[("BinField", "name")] = ObjK(N)
        E.class_fields[("BinFieldName", "h")] = INT
        E.class_fields[("BinFieldName", "s")] = Opt(STR)
        E.class_fields[("BinField", "value")] = ANY
        E.class_fields[("BinField", "type")] = INT
        self.F = F
        self.n, self.refs = E.const("fields", IntS), E.const("refs", z3.ArraySort(IntS, IntS))
        E.fact(self.n >= 0)
        r = E.const("some", IntS)
        v = E.getattr(E.getattr(SObj(F, r), "name"), "h")
        E.getattr(SObj(F, r), "value")
        self.heap = dict(E.heap.slots)
        c = CLASSES[E.choose("class", [(x, None) for x in CLASSES])]
        self.o = obj(E, "binfile." + c, fields=ListCell(E, SSeq(ObjK(F), self.n, [self.refs])), type=None, path=None)
        which = E.choose("key", [("name", None), ("number", None), ("hashed name", None)])
        if which == 0:
            self.key = E.const("name", StrS)
            E.fact(M.is_ascii(E, self.key))
            self.hash = binhash(self.key)
        elif which == 1:
            self.key = self.hash = E.const("number", IntS)
        else:
            kc = ["BinFieldName", "BinHashValue"][E.choose("key class", [("same", None), ("other", None)])]
            self.hash = E.const("hash", IntS)
            self.key = obj(E, "binfile." + kc, h=self.hash, s=E.fresh(Opt(STR), "s"))
        self.kind = ["name", "number", "hashed"][which]
        def ch(E, a, k):
            if len(a) != 1: return NotImplemented
            x = E.resolve(a[0])
            if not M.is_strlike(x): return NotImplemented
            if not E.branch(M.is_ascii(E, S(x)), "ascii"): E.py_raise("UnicodeEncodeError")
            return binhash(S(x))
        E.contracts["binfile.compute_binhash"] = ch
        E.contracts["binfile._to_python_type"] = lambda E, a, k: Opq(fcall("python_value", E.box(E.resolve(a[0])), ret=AnyS))

    def h(self, j):
        name = z3.Select(self.heap["BinField.name.0"], z3.Select(self.refs, j))
        return z3.Select(self.heap["BinFieldName.h.0"], name)
    def hit(self, j): return self.h(j) == self.hash
    def none_before(self, k):
        j = z3.Int("j!")
        return forall([j], Implies(And(j >= 0, j < k), Not(self.hit(j))), [z3.Select(self.refs, j)])
    def cases(self):
        """the first field with the hash, or None"""
        if self.E.choose("exists", [("yes", None), ("no", None)]) == 0:
            f = self.E.const("first", IntS)
            self.E.fact(And(f >= 0, f < self.n, self.hit(f), self.none_before(f)))
            return f
        self.E.fact(self.none_before(self.n))
        return None
    def unchanged(self, what):
        E = self.E
        now = E.getattr(self.o, "fields").v
        E.prove(And(I(M.seq_len(E, now)) == self.n, B(isinstance(now, SSeq) and now.arrs[0].eq(self.refs))), what + " changes no field list")
        self.heap_kept(what)
    def heap_kept(self, what):
        for k, t in self.heap.items():
            if k != "alloc": self.E.prove(self.E.heap.slots[k] == t, f"{what} leaves {k} as it was")


def setup(E):
    E.invariants.append(lambda ctx: ctx.cand("no field with the hash so far", lambda k, r: E.X.none_before(k)))


def run_get(E):
    X = E.X = Fields(E)
    d = Opq(E.const("default", AnyS))
    op = E.choose("operation", [("[]", None), ("in", None), ("get", None), ("getv", None), ("get without default", None)])
    if op == 0: st, v = call(E, E.getattr(X.o, "__getitem__"), X.key)
    if op == 1: st, v = call(E, E.getattr(X.o, "__contains__"), X.key)
    if op == 2: st, v = call(E, E.getattr(X.o, "get"), X.key, d)
    if op == 3: st, v = call(E, E.getattr(X.o, "getv"), X.key, d)
    if op == 4: st, v = call(E, E.getattr(X.o, "get"), X.key)
    f = X.cases()
    what = ["lookup", "membership", "lookup with default", "value lookup with default", "lookup without default"][op]
    if st == "exc":
        E.prove(B(op == 0 and f is None and is_exc(E, v, "KeyError")), what + " fails only for an absent field, with KeyError")
        E.cover("missing")
        return
    v = E.resolve(v)
    if op == 0: E.prove(B(f is not None), "looking up an absent field is an error")
    if op == 1:
        E.prove(B(E.truth(v)) == B(f is not None), "a field is a member exactly when there is one with the hash")
    elif f is None:
        E.prove(eq(E, v, d) if op in (2, 3) else B(v is None), what + " gives the default for an absent field")
    elif op == 3:
        E.prove(eq(E, v, Opq(fcall("python_value", z3.Select(X.heap["BinField.value.0"], z3.Select(X.refs, f)), ret=AnyS))), what + " gives the value of the first field with the hash")
    else:
        E.prove(And(B(isinstance(v, SObj)), v.ref == z3.Select(X.refs, f)) if isinstance(v, SObj) else B(False), what + " gives the first field with the hash")
    X.unchanged(what)
    E.cover(what + " by " + X.kind)


def run_set(E):
    X = E.X = Fields(E)
    new = E.const("new", IntS)
    st, _ = call(E, E.getattr(X.o, "__setitem__"), X.key, SObj(X.F, new))
    E.prove(B(st == "ok"), "assigning a field is no error")
    if st != "ok": return
    f = X.cases()
    lst = E.getattr(X.o, "fields")
    now = lst.v
    n, arr = now.n, now.arrs[0]
    i = E.const("i", IntS)
    E.fact(And(i >= 0, i < X.n))
    if f is None:
        E.prove(n == X.n + 1, "a new field is appended")
        E.prove(z3.Select(arr, X.n) == new, "the appended field is the assigned one")
        E.prove(z3.Select(arr, i) == z3.Select(X.refs, i), "the fields before it are unchanged")
    else:
        E.prove(n == X.n, "replacing a field keeps their number")
        E.prove(z3.Select(arr, f) == new, "the first field with the hash is replaced")
        E.prove(Implies(i != f, z3.Select(arr, i) == z3.Select(X.refs, i)), "the other fields are unchanged")
    X.heap_kept("assignment")
    E.cover("replaced" if f is not None else "appended")


GOALS = [Goal("compute_binhash", run_hash, setup_hash, covers=["hash"]), Goal("hashed values", run_values, setup_values, covers=["compared"]),
         Goal("lookup", run_get, setup, covers=["missing"] + [f"{a} by {b}" for a in ("lookup", "membership", "lookup with default", "value lookup with default") for b in ("name", "number", "hashed")]),
         Goal("assignment", run_set, setup, covers=["replaced", "appended"])]
ASSUMPTIONS = ["names are ASCII, as the code requires", "value conversion of getv (_to_python_type) is taken as a function of the value"]
