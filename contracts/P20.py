"""P20: skin meshes, decoded from arbitrary data."""
from pyvc.contract import *

# vertex attributes: (key, offset, count, code, size of one)
BASE = [("position", 0, 3, "f", 4), ("bone_indices", 12, 4, "B", 1), ("weight", 16, 4, "f", 4), ("normal", 32, 3, "f", 4), ("uv", 44, 2, "f", 4)]
COLOR, TANGENT = ("color", 52, 4, "B", 1), ("tangent", 56, 4, "f", 4)
u = lambda E, p, n: M.le(E, E.D.base, I(p), n)


def attrs(vt):
    """attributes stored for a vertex type (None: no type), and the size of a vertex"""
    if vt is None or vt == 0: return BASE, 52
    if vt == 2: return BASE + [COLOR, TANGENT], 72
    return BASE + [COLOR], 56


def item(E, p, code, size):
    if code == "f": return Opq(fcall("float_f", E.D.base, I(p), ret=AnyS), "float")
    return u(E, p, size)


def check_vertex(E, v, p, vt, what):
    have, _ = attrs(vt)
    for key, off, n, code, size in have:
        x = E.resolve(M.getitem(E, v, key))
        E.prove(B(isinstance(x, tuple) and len(x) == n), f"{what}: {key} has {n} values")
        for i in range(n): E.prove(eq(E, x[i], item(E, p + off + i * size, code, size)), f"{what}: {key}")
    for key in ("color", "tangent"):
        if key not in [a[0] for a in have]: E.prove(is_none(E, M.getitem(E, v, key)), f"{what}: no {key}")


def parser(E, pos):
    f = FileV(E, E.D)
    f.slots["pos"] = pos
    return f, E.call(E.cls("tools.BinaryParser"), [f])


def run_object(E):
    """one submesh description, at any position"""
    E.byte_axioms()
    E.D = symbytes(E)
    p = E.const("p", IntS)
    E.fact(p >= 0)
    f, bp = parser(E, p)
    self = obj(E, "sknfile.SknFile", major=E.const("major", IntS), minor=E.const("minor", IntS))
    st, v = call(E, E.getattr(self, "read_object"), bp)
    if st == "exc":
        E.prove(Or(p + 80 > E.D.n, B(is_exc(E, v, "UnicodeDecodeError"))), "a complete description is decoded")
        E.cover("refused")
        return
    E.prove(p + 80 <= E.D.n, "a truncated description is an error")
    E.prove(f.slots["pos"] == p + 80, "a description takes 80 bytes")
    for i, key in enumerate(("start_vertex", "vertex_count", "start_index", "index_count")):
        E.prove(eq(E, M.getitem(E, v, key), u(E, p + 64 + 4 * i, 4)), key)
    z = M.bytes_find(E, SB(E.D.base, p, 64), b"\0")
    name = bsl(E.D.base, p, z3.If(I(z) < 0, 64, I(z)))
    E.prove(S(M.getitem(E, v, "name")) == fcall("decode_utf-8", name, ret=StrS), "the name is the text up to the first zero byte")
    E.cover("decoded")


def run_vertex(E):
    """one vertex, at any position, for each vertex type"""
    E.byte_axioms()
    E.D = symbytes(E)
    p = E.const("p", IntS)
    E.fact(p >= 0)
    f, bp = parser(E, p)
    i = E.choose("vertex type", [("none", None), ("0", None), ("1", None), ("2", None), ("other", None)])
    vt = [None, 0, 1, 2, 3][i]
    self = obj(E, "sknfile.SknFile", major=4 if i else E.const("major", IntS), minor=1)
    if i == 4:
        t = E.const("vertex_type", IntS)
        E.fact(t > 2)
        self.slots["vertex_type"] = t
    elif i: self.slots["vertex_type"] = vt
    st, v = call(E, E.getattr(self, "read_vertex"), bp)
    size = attrs(vt)[1]
    if st == "exc":
        E.prove(p + size > E.D.n, "a complete vertex is decoded")
        E.cover("refused")
        return
    E.prove(p + size <= E.D.n, "a truncated vertex is an error")
    E.prove(f.slots["pos"] == p + size, "a vertex takes the bytes of its type")
    check_vertex(E, v, p, vt, "vertex")
    E.cover(f"vertex type {vt}")


def vertex_at(p): return fcall("vertex_at", I(p), ret=AnyS)


def setup_file(E):
    """read_object and read_vertex replaced by what the goals above prove of them"""
    def rv(E, args, kwargs):
        if kwargs or len(args) != 2: return NotImplemented
        self, bp = args
        f = E.getattr(bp, "f")
        p, size = f.slots["pos"], E.X["vsize"]
        try: vt = E.getattr(self, "vertex_type")
        except PyRaise: vt = None
        want = E.X["vt"]
        E.prove(B(vt is None) if want is None else B(False) if vt is None else And(I(vt) >= 1, I(vt) != 2) if want == 1 else I(vt) == want, "vertices are read with the vertex type of the mesh")
        if not E.branch(p + size <= E.D.n, "vertex"): E.py_raise("struct.error")
        f.set("pos", p + size)
        return Opq(vertex_at(p))
    def ro(E, args, kwargs):
        if kwargs or len(args) != 2: return NotImplemented
        f = E.getattr(args[1], "f")
        p = f.slots["pos"]
        if not E.branch(p + 80 <= E.D.n, "object"): E.py_raise("struct.error")
        if not E.branch(fcall("name_ok", p, ret=BoolS), "name"): E.py_raise("UnicodeDecodeError")
        f.set("pos", p + 80)
        d = DictCell(E, CMap([("name", fcall("name_at", p, ret=StrS))] + [(k, u(E, p + 64 + 4 * i, 4)) for i, k in enumerate(KEYS)]))
        return d
    E.contracts["sknfile.SknFile.read_vertex"] = rv
    E.contracts["sknfile.SknFile.read_object"] = ro
    def inv(ctx):
        for lab, f, w in int_comps(ctx):
            if w == "int" and lab.endswith(".pos"): ctx.cand(f"{lab} within the file", lambda k, r, f=f: f(r) <= E.D.n)
    E.invariants.append(inv)

KEYS = ("start_vertex", "vertex_count", "start_index", "index_count")


def run_file(E, variant):
    major0 = variant == 0
    E.byte_axioms()
    D = E.D = symbytes(E)
    b = lambda i: M.byte_at(E, D, i)
    magic = And(D.n >= 4, *[b(i) == x for i, x in enumerate(b"\x33\x22\x11\x00")])
    major = u(E, 4, 2)
    E.fact(major == 0 if major0 else major != 0)
    count = u(E, 8, 4)
    E.X = {"vt": None, "vsize": 52}
    if major0:
        ic, vc, pi = u(E, 8, 4), u(E, 12, 4), z3.IntVal(16)
        header = 16
    else:
        q = 12 + 80 * count
        E.fact(major == 4 if variant >= 2 else major != 4)
        if variant >= 2:
            ic, vc, t = u(E, q + 4, 4), u(E, q + 8, 4), u(E, q + 16, 4)
            header = pi = q + 60
            i = variant - 2
            E.fact([t == 0, And(t >= 1, t != 2), t == 2][i])
            E.X = {"vt": i, "vsize": attrs(i)[1]}
        else:
            ic, vc = u(E, q, 4), u(E, q + 4, 4)
            header = pi = q + 8
    pv = pi + 2 * ic
    total = pv + E.X["vsize"] * vc
    E.X.update(pi=pi, pv=pv, ic=ic, vc=vc, base=E.heap.slots["alloc"])
    n = z3.IntVal(1) if major0 else count
    entries = {}
    def spec_vertices(start, cnt, seq, what):
        lo = z3.If(start < vc, start, vc)
        hi = z3.If(start + cnt < vc, start + cnt, vc)
        m = z3.If(hi > lo, hi - lo, 0)
        seq = seq.v if isinstance(seq, ListCell) else seq
        E.prove(I(M.seq_len(E, seq)) == m, f"{what}: number of vertices")
        j = E.const("j", IntS)
        ok = And(j >= 0, j < m)
        x = M.seq_get(E, seq, j) if isinstance(seq, SSeq) else None
        if x is not None: E.prove(Implies(ok, E.box(x) == vertex_at(pv + E.X["vsize"] * (start + j))), f"{what}: vertices are those of its range")
    def spec_indices(start, cnt, first, seq, what):
        lo = z3.If(start < ic, start, ic)
        hi = z3.If(start + cnt < ic, start + cnt, ic)
        m = z3.If(hi > lo, hi - lo, 0)
        seq = seq.v if isinstance(seq, ListCell) else seq
        E.prove(I(M.seq_len(E, seq)) == m, f"{what}: number of indices")
        j = E.const("j", IntS)
        raw = u(E, pi + 2 * (start + j), 2)
        if isinstance(seq, SSeq): E.prove(Implies(And(j >= 0, j < m, raw >= first), I(M.seq_get(E, seq, j)) == raw - first + 1), f"{what}: indices are those of its range, 1 being the first vertex")
    def hook(key):
        def h(E, o, v):
            if E.mode == "infer": return 0
            i = o.ref - E.X["base"]
            d = lambda k: u(E, 12 + 80 * i + 64 + 4 * KEYS.index(k), 4)
            E.prove(And(i >= 0, i < n), "objects get their vertices and indices")
            if key == "vertices": spec_vertices(d("start_vertex"), d("vertex_count"), v, "object")
            else: spec_indices(d("start_index"), d("index_count"), d("start_vertex"), v, "object")
            return 0
        return h
    if not major0:
        E.field_hooks = {("dict", "vertices"): hook("vertices"), ("dict", "indices"): hook("indices")}
    f = FileV(E, D)
    st, v = call(E, E.cls("sknfile.SknFile"), f)
    if st == "exc":
        names = B(is_exc(E, v, "UnicodeDecodeError"))
        E.prove(Or(magic, D.n < 4, B(is_exc(E, v, "ValueError"))), "a wrong magic code is a ValueError")
        E.prove(Or(Not(magic), D.n < 8, D.n < header, D.n < total, names), "a complete mesh is decoded")
        E.cover("refused")
        return
    E.prove(magic, "a wrong magic code is refused")
    E.prove(And(D.n >= header, D.n >= total), "truncated data is an error")
    es = E.getattr(v, "entries")
    E.prove(I(M.length(E, es)) == n, "one object per listed submesh")
    if major0:
        e = M.getitem(E, es, 0)
        E.prove(eq(E, M.getitem(E, e, "name"), "Unknown"), "a mesh of version 0 is a single object")
        spec_vertices(z3.IntVal(0), vc, M.getitem(E, e, "vertices"), "version 0")
        spec_indices(z3.IntVal(0), ic, z3.IntVal(0), M.getitem(E, e, "indices"), "version 0")
        E.cover("version 0")
        return
    i = E.const("i", IntS)
    E.fact(And(i >= 0, i < n))
    e = M.getitem(E, es, i)
    E.prove(B(M.is_rec(e)) if not M.is_rec(e) else e.ref == E.X["base"] + i, "objects are in listed order")
    for k in ("name", "vertices", "indices"):
        E.prove(B(M.rec_has(E, e, k)), f"every object has its {k}")
        E.fact(B(M.rec_has(E, e, k)))
    E.prove(S(M.getitem(E, e, "name")) == fcall("name_at", 12 + 80 * i, ret=StrS), "objects have their name")
    E.cover("objects")


GOALS = [Goal("read_object", run_object, covers=["refused", "decoded"]),
         Goal("read_vertex", run_vertex, covers=["refused"] + [f"vertex type {t}" for t in (None, 0, 1, 2, 3)]),
         Goal("version 0", lambda E: run_file(E, 0), setup_file, covers=["refused", "version 0"])]
for i, nm in enumerate(["versions without vertex types", "version 4, vertex type 0", "version 4, vertex type 1 or unknown", "version 4, vertex type 2"]):
    GOALS.append(Goal(nm, lambda E, i=i: run_file(E, i + 1), setup_file, covers=["refused", "objects"]))


# ---------------------------------------------------------------- OBJ text

VT = z3.Function("vertex_text", IntS, StrS)      # text of the first k vertices
FT = [z3.Function(f"face_text{i}", IntS, StrS) for i in range(2)]      # text of the first k faces; the second corner may be followed by a slash


class Obj_:
    def __init__(self, E):
        self.c = c = RecCls([a[0] for a in BASE] + ["color", "tangent"])
        for key, n in (("position", 3), ("uv", 2), ("normal", 3)): E.class_fields[(c.name, key)] = Tup(*[ANY] * n)
        self.n, self.refs = E.const("vertices", IntS), E.const("refs", z3.ArraySort(IntS, IntS))
        self.m, self.idx = E.const("indices", IntS), E.const("idx", z3.ArraySort(IntS, IntS))
        E.fact(And(self.n >= 0, self.m >= 0))
    def parts(self, E, j, key):
        o = SObj(self.c, z3.Select(self.refs, j))
        return [S(M.to_str(E, x)) for x in E.heap_get(o, key)]
    def vertex(self, E, j):
        p, uv, nm = [self.parts(E, j, k) for k in ("position", "uv", "normal")]
        return z3.Concat(S("v "), p[0], S(" "), p[1], S(" "), p[2], S("\nvt "), uv[0], S(" "), uv[1], S("\nvn "), nm[0], S(" "), nm[1], S(" "), nm[2], S("\n"))
    def face(self, E, k, slash):
        a, b, c = [S(M.to_str(E, z3.Select(self.idx, 3 * k + i))) for i in range(3)]
        f = lambda x, s: z3.Concat(x, S("/"), x, S("/"), x, S(s))
        return z3.Concat(S("f "), f(a, " "), f(b, "/ " if slash else " "), f(c, "\n"))


def setup_obj(E):
    def inv(ctx):
        X = E.X
        for s in range(2):
            ctx.unfold_with(lambda k, s=s: [FT[s](z3.IntVal(0)) == S(""), FT[s](k + 1) == z3.Concat(FT[s](k), X.face(E, k, s))])
        ctx.unfold_with(lambda k: [VT(z3.IntVal(0)) == S(""), VT(k + 1) == z3.Concat(VT(k), X.vertex(E, k))])
        ctx.cand("complete triples", lambda k, r: 3 * k <= X.m)
        for key, kind, e in ctx.slots():
            if isinstance(kind, SeqK) and kind.k == STR:      # texts to be joined
                text = lambda r, key=key: M.joined_text(r(key)[1], r(key)[0])
                ctx.cand("texts of the vertices so far", lambda k, r: text(r) == VT(k))
                for s in range(2): ctx.cand(f"texts of the faces so far ({s})", lambda k, r, s=s: text(r) == z3.Concat(VT(X.n), FT[s](k)))
            if kind != STR: continue
            ctx.define(key, 0, "text of the vertices so far", lambda k: VT(k))
            for s in range(2): ctx.cand(f"text of the faces so far ({s})", lambda k, r, key=key, s=s: r(key)[0] == z3.Concat(VT(X.n), FT[s](k)))
    E.invariants.append(inv)


def run_obj(E):
    X = E.X = Obj_(E)
    E.track_join = True
    x = z3.Const("x!", z3.ArraySort(IntS, StrS))
    E.axiom(forall([x], M.joined_text(x, 0) == S(""), [M.joined_text(x, 0)]))
    E.fact(And(VT(z3.IntVal(0)) == S(""), *[t(z3.IntVal(0)) == S("") for t in FT]))
    entry = DictCell(E, CMap([("name", "x"), ("vertices", ListCell(E, SSeq(RecK(X.c), X.n, [X.refs]))), ("indices", ListCell(E, SSeq(INT, X.m, [X.idx])))]))
    self = obj(E, "sknfile.SknFile", major=4, minor=1)
    st, v = call(E, E.getattr(self, "to_obj"), entry)
    if st == "exc":
        E.prove(And(B(is_exc(E, v, "ValueError")), X.m % 3 != 0), "the text fails only when the indices are not triples")
        E.cover("not triples")
        return
    E.prove(X.m % 3 == 0, "incomplete triples are not dropped")
    E.prove(z3.Not(z3.And(*[S(v) != z3.Concat(VT(X.n), t(X.m / 3)) for t in FT])), "one v, vt and vn line per vertex, then one f line per index triple, in order")
    E.cover("text")


GOALS.append(Goal("to_obj", run_obj, setup_obj, covers=["text", "not triples"]))
