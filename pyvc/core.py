"""Path exploration, solver access, symbolic values, kinds and mutable cells."""
import time
import z3
z3.set_param("warning", False)

# --------------------------------------------------------------------------- control

class Unsupported(Exception):
    """The construct is outside what the generator models: the proof is undecided, never passed."""

class PathEnd(Exception):
    """This path is finished (loop back-edge reached, or infeasible)."""

class Restart(Exception):
    """Loop information changed: explore again from scratch."""

class PureFail(Exception):
    """An expression cannot be summarised without side effects."""

class PyRaise(Exception):
    """A Python exception of the interpreted program."""
    def __init__(self, exc):
        self.exc = exc

class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value

class BreakSig(Exception):
    pass

class ContinueSig(Exception):
    pass


# --------------------------------------------------------------------------- sorts

IntS, BoolS, StrS = z3.IntSort(), z3.BoolSort(), z3.StringSort()
ByteS = z3.DeclareSort("Bytes")   # bytes: uninterpreted, with length, index, slice and concatenation
blen = z3.Function("blen", ByteS, IntS)
bat = z3.Function("bat", ByteS, IntS, IntS)
bsl = z3.Function("bslice", ByteS, IntS, IntS, ByteS)
bcat = z3.Function("bcat", ByteS, ByteS, ByteS)
bempty = z3.Const("bempty", ByteS)
AnyS = z3.DeclareSort("Any")    # opaque Python values

def I(v):
    return z3.IntVal(v) if isinstance(v, int) else v

def S(v):
    return z3.StringVal(v) if isinstance(v, str) else v

def is_z(v):
    return isinstance(v, z3.ExprRef)

def is_zint(v):
    return isinstance(v, z3.ArithRef)

def is_zbool(v):
    return isinstance(v, z3.BoolRef)

def is_zstr(v):
    return isinstance(v, z3.SeqRef) and v.sort() == StrS

def is_intlike(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or is_zint(v)

def is_strlike(v):
    return isinstance(v, str) or is_zstr(v)

def And(*xs):
    xs = [x for x in xs if not (x is True)]
    if any(x is False for x in xs):
        return z3.BoolVal(False)
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)

def Or(*xs):
    xs = [x for x in xs if not (x is False)]
    if any(x is True for x in xs):
        return z3.BoolVal(True)
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(*xs)

def Not(x):
    if isinstance(x, bool):
        return z3.BoolVal(not x)
    return z3.Not(x)

def Implies(a, b):
    return Or(Not(a), b)

def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x

_hasq_cache = {}
def has_quant(e):
    key = e.get_id()
    hit = _hasq_cache.get(key)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    if z3.is_quantifier(e):
        r = True
    else:
        r = any(has_quant(c) for c in e.children())
    _hasq_cache[key] = (e, r)
    return r

def skolem(goal):
    """the goal for arbitrary values of its outer variables, reads of updated arrays resolved"""
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [z3.Const(f"sk!{i}!{goal.var_name(i)}", goal.var_sort(i)) for i in range(goal.num_vars())]
        return skolem(z3.substitute_vars(goal.body(), *reversed(vs)))
    return z3.simplify(goal, expand_select_store=True)

def hoist(goal):
    """closed array terms that are used under a quantifier, made constants of their own: (goal, definitions)"""
    found, seen, closed = [], set(), {}
    def is_closed(t):
        k = t.get_id()
        if k not in closed: closed[k] = False if z3.is_var(t) or z3.is_quantifier(t) else all(is_closed(c) for c in t.children())
        return closed[k]
    def inner(t):
        if t.get_id() in seen: return
        seen.add(t.get_id())
        if z3.is_quantifier(t): return inner(t.body())
        if not z3.is_app(t): return
        if z3.is_array(t) and t.num_args() > 0 and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE, z3.Z3_OP_SELECT) and is_closed(t):
            found.append(t)
            return
        for c in t.children(): inner(c)
    def outer(t, vis):
        if t.get_id() in vis: return
        vis.add(t.get_id())
        if z3.is_quantifier(t): return inner(t.body())
        for c in t.children(): outer(c, vis)
    outer(goal, set())
    if not found: return goal, []
    pairs = [(t, z3.Const(f"hoist!{i}", t.sort())) for i, t in enumerate(found)]
    return z3.substitute(goal, *pairs), [c == t for t, c in pairs]

_pattern_terms = []
def mpat(*terms):
    """multi-pattern; its terms are kept, z3 does not"""
    _pattern_terms.append(terms)
    return z3.MultiPattern(*terms)

def forall(vs, body, patterns=()):
    """quantifier with triggers; triggers that z3 refuses are left out"""
    try:
        return z3.ForAll(vs, body, patterns=list(patterns))
    except z3.Z3Exception:
        ok = []
        for p in patterns:
            try:
                z3.ForAll(vs, body, patterns=[p])
                ok.append(p)
            except z3.Z3Exception: pass
        return z3.ForAll(vs, body, patterns=ok)

def fcall(name, *args, ret=IntS):
    """Uninterpreted function application (declared on the fly from its argument sorts)"""
    args = [z3.IntVal(a) if isinstance(a, int) and not isinstance(a, bool) else z3.BoolVal(a) if isinstance(a, bool)
            else z3.StringVal(a) if isinstance(a, str) else a for a in args]
    f = z3.Function(name, *[a.sort() for a in args], ret)
    return f(*args)


# --------------------------------------------------------------------------- values

class Undef:
    def __repr__(self):
        return "<undef>"
UNDEF = Undef()

class SB:
    """bytes: the slice [start, start+n) of a z3 sequence of ints"""
    __slots__ = ("base", "start", "n")
    def __init__(self, base, start, n):
        self.base, self.start, self.n = base, start, n
    def __repr__(self):
        return f"SB({self.base},{self.start},{self.n})"

class SOpt:
    """None or a value"""
    __slots__ = ("isnone", "val")
    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val

class SSeq:
    """immutable sequence of symbolic length; arrs are z3 arrays Int -> sort, one per flattened component"""
    __slots__ = ("kind", "n", "arrs", "tup")
    def __init__(self, kind, n, arrs, tup=False):
        self.kind, self.n, self.arrs, self.tup = kind, n, list(arrs), tup
    def __repr__(self):
        return f"SSeq({self.kind},{self.n},{self.arrs})"

class CSeq:
    """immutable sequence of known length"""
    __slots__ = ("items",)
    def __init__(self, items):
        self.items = tuple(items)
    def __repr__(self):
        return f"CSeq{self.items}"

class SeqView:
    """lazy sequence: length and element function (used for iteration only)"""
    def __init__(self, n, get, pure_src=None):
        self.n, self.get = n, get

class SMap:
    """immutable mapping: dom array and value arrays"""
    __slots__ = ("kk", "vk", "dom", "vals")
    def __init__(self, kk, vk, dom, vals):
        self.kk, self.vk, self.dom, self.vals = kk, vk, dom, list(vals)

class CMap:
    """mapping with syntactically known keys (insertion ordered)"""
    __slots__ = ("items",)
    def __init__(self, items):
        self.items = tuple(items)

class SSetV:
    """immutable set: membership array over the flattened element (single component)"""
    __slots__ = ("kind", "mem")
    def __init__(self, kind, mem):
        self.kind, self.mem = kind, mem

class CSetV:
    """set given by the list of its (possibly symbolic) elements"""
    __slots__ = ("items",)
    def __init__(self, items):
        self.items = tuple(items)

class Opq:
    """opaque value"""
    __slots__ = ("t", "pytype")
    def __init__(self, t, pytype=None):
        self.t, self.pytype = t, pytype
    def __repr__(self):
        return f"Opq({self.t})"

class EnumVal:
    __slots__ = ("cls", "t")
    def __init__(self, cls, t):
        self.cls, self.t = cls, t

class Cell:
    """mutable storage: named slots holding immutable values or references to cells"""
    def __init__(self, E, tag, **slots):
        self.E = E
        self.uid = E.new_uid(tag)
        self.birth = E.tick()
        self.slots = dict(slots)
        E.cells[self.uid] = self
    def get(self, slot):
        return self.slots[slot]
    def set(self, slot, v):
        self.E.write(self, slot, v)

class ListCell(Cell):
    def __init__(self, E, v, tag="list"):
        super().__init__(E, tag, v=v)
    @property
    def v(self):
        return self.slots["v"]

class HeapList(ListCell):
    """the list held by a field of a heap object"""
    def __init__(self, E, o, field):
        self.E, self.o, self.field, self.uid, self.birth = E, o, field, ("heaplist", field), 0
        self.slots = {}
    @property
    def v(self): return self.E.heap_get(self.o, self.field)
    def set(self, slot, v): self.E.heap_set(self.o, self.field, v)

class DictCell(Cell):
    def __init__(self, E, v, tag="dict", default=None):
        super().__init__(E, tag, v=v)
        self.default = default
    @property
    def v(self):
        return self.slots["v"]

class MapList(ListCell):
    """the list that a dictionary holds for a key"""
    def __init__(self, E, d, key):
        self.E, self.d, self.key, self.uid, self.birth = E, d, key, ("maplist",) + (d.uid,), 0
        self.slots = {}
    @property
    def v(self): return self.E.models.dict_find(self.E, self.d, self.key)[1]
    def set(self, slot, v): self.E.models.setitem(self.E, self.d, self.key, v)

class SetCell(Cell):
    def __init__(self, E, v, tag="set"):
        super().__init__(E, tag, v=v)
    @property
    def v(self):
        return self.slots["v"]

class Obj(Cell):
    """object with known identity"""
    def __init__(self, E, cls, tag=None, **fields):
        super().__init__(E, tag or f"obj:{getattr(cls, 'name', cls)}", **fields)
        self.cls = cls
        self.ref = None      # set when published to the symbolic heap
    def __repr__(self):
        return f"<Obj {self.uid}>"

class SObj:
    """object known by a symbolic reference; its fields live in the heap arrays of its class"""
    __slots__ = ("cls", "ref")
    def __init__(self, cls, ref):
        self.cls, self.ref = cls, ref
    def __repr__(self):
        return f"<SObj {self.cls} {self.ref}>"


# --------------------------------------------------------------------------- kinds

class Kind:
    """How values of one type are flattened to z3 terms"""
    def sorts(self):
        raise NotImplementedError
    def pack(self, E, v):
        raise NotImplementedError
    def unpack(self, E, ts):
        raise NotImplementedError
    def wf(self, E, ts):
        """facts that hold of every flattened value of this kind"""
        return []
    def __eq__(self, o):
        return repr(self) == repr(o)
    def __hash__(self):
        return hash(repr(self))

class KindMismatch(Exception):
    pass

class _Int(Kind):
    def __repr__(self): return "int"
    def sorts(self): return [IntS]
    def pack(self, E, v):
        if is_zbool(v):
            return [z3.If(v, z3.IntVal(1), z3.IntVal(0))]
        if not is_intlike(v):
            raise KindMismatch(f"{v!r} is not an int")
        return [I(v)]
    def unpack(self, E, ts): return ts[0]

class _Nat(_Int):
    """non-negative int"""
    def __repr__(self): return "nat"
    def wf(self, E, ts): return [ts[0] >= 0]

class _Bool(Kind):
    def __repr__(self): return "bool"
    def sorts(self): return [BoolS]
    def pack(self, E, v):
        if isinstance(v, bool): return [z3.BoolVal(v)]
        if not is_zbool(v): raise KindMismatch(f"{v!r} is not a bool")
        return [v]
    def unpack(self, E, ts): return ts[0]

class _Str(Kind):
    def __repr__(self): return "str"
    def sorts(self): return [StrS]
    def pack(self, E, v):
        if not is_strlike(v): raise KindMismatch(f"{v!r} is not a str")
        return [S(v)]
    def unpack(self, E, ts): return ts[0]

class _Bytes(Kind):
    def __repr__(self): return "bytes"
    def sorts(self): return [ByteS]
    def pack(self, E, v):
        if not isinstance(v, (bytes, SB)): raise KindMismatch(f"{v!r} is not bytes")
        return [E.bseq(v)]
    def unpack(self, E, ts): return SB(ts[0], z3.IntVal(0), blen(ts[0]))
    def wf(self, E, ts): return [blen(ts[0]) >= 0]

class View(Kind):
    """bytes known to be a slice of one fixed sequence"""
    def __init__(self, base):
        self.base = base
    def __repr__(self): return f"view({self.base.sexpr()})"
    def sorts(self): return [IntS, IntS]
    def pack(self, E, v):
        if isinstance(v, bytes) and v == b"":
            return [z3.IntVal(0), z3.IntVal(0)]
        if not isinstance(v, SB) or not v.base.eq(self.base): raise KindMismatch(f"{v!r} is not a slice of {self.base}")
        return [I(v.start), I(v.n)]
    def unpack(self, E, ts): return SB(self.base, ts[0], ts[1])
    def wf(self, E, ts): return [ts[1] >= 0]

class _EmptyB(Kind):
    """the empty byte string: a slice of anything"""
    def __repr__(self): return "emptybytes"
    def sorts(self): return []
    def pack(self, E, v):
        if isinstance(v, bytes) and not v: return []
        raise KindMismatch("not the empty byte string")
    def unpack(self, E, ts): return b""

class _Any(Kind):
    def __repr__(self): return "any"
    def sorts(self): return [AnyS]
    def pack(self, E, v): return [E.box(v)]
    def unpack(self, E, ts): return Opq(ts[0])

class _None(Kind):
    def __repr__(self): return "none"
    def sorts(self): return []
    def pack(self, E, v):
        if v is not None: raise KindMismatch("not None")
        return []
    def unpack(self, E, ts): return None

class Opt(Kind):
    def __init__(self, k): self.k = k
    def __repr__(self): return f"opt({self.k})"
    def sorts(self): return [BoolS] + self.k.sorts()
    def pack(self, E, v):
        if v is None:
            return [z3.BoolVal(True)] + [default_of(s) for s in self.k.sorts()]
        if isinstance(v, SOpt):
            return [B(v.isnone)] + self.k.pack(E, v.val)
        return [z3.BoolVal(False)] + self.k.pack(E, v)
    def unpack(self, E, ts):
        if z3.is_true(ts[0]): return None
        if z3.is_false(ts[0]): return self.k.unpack(E, ts[1:])
        return SOpt(ts[0], self.k.unpack(E, ts[1:]))
    def wf(self, E, ts):
        w = self.k.wf(E, ts[1:])
        return [Implies(Not(ts[0]), x) for x in w]

class Tup(Kind):
    def __init__(self, *ks): self.ks = ks
    def __repr__(self): return f"tup({','.join(map(repr, self.ks))})"
    def sorts(self): return [s for k in self.ks for s in k.sorts()]
    def pack(self, E, v):
        if not isinstance(v, tuple) or len(v) != len(self.ks): raise KindMismatch(f"{v!r} is not a {len(self.ks)}-tuple")
        return [t for k, x in zip(self.ks, v) for t in k.pack(E, x)]
    def unpack(self, E, ts):
        out, i = [], 0
        for k in self.ks:
            n = len(k.sorts())
            out.append(k.unpack(E, ts[i:i + n])); i += n
        return tuple(out)
    def wf(self, E, ts):
        out, i = [], 0
        for k in self.ks:
            n = len(k.sorts())
            out += k.wf(E, ts[i:i + n]); i += n
        return out

class ObjK(Kind):
    """reference to an object of a class"""
    def __init__(self, cls): self.cls = cls
    def __repr__(self): return f"obj({self.cls})"
    def sorts(self): return [IntS]
    def pack(self, E, v):
        if isinstance(v, SObj): return [v.ref]
        if isinstance(v, Obj): return [E.publish(v, self.cls)]
        raise KindMismatch(f"{v!r} is not an object")
    def unpack(self, E, ts): return SObj(self.cls, ts[0])

class RecCls:
    """dictionaries with constant keys, kept as objects of the symbolic heap once they are in a symbolic collection"""
    enum = None
    def __init__(self, keys):
        self.keys = list(keys)
        self.name = "dict(" + ",".join(sorted(self.keys)) + ")"
    def __repr__(self): return self.name

class RecK(ObjK):
    def pack(self, E, v):
        if isinstance(v, SObj): return [v.ref]
        if isinstance(v, DictCell): return [E.publish_rec(v, self.cls)]
        raise KindMismatch(f"{v!r} is not a record")

class EnumK(Kind):
    def __init__(self, cls): self.cls = cls
    def __repr__(self): return f"enum({self.cls})"
    def sorts(self): return [IntS]
    def pack(self, E, v):
        if isinstance(v, EnumVal): return [I(v.t)]
        raise KindMismatch(f"{v!r} is not an enum value")
    def unpack(self, E, ts): return EnumVal(self.cls, ts[0])
    def wf(self, E, ts): return [ts[0] >= 0]

class OptEnumK(EnumK):
    """enum value or None, as a dictionary key"""
    def __repr__(self): return f"optenum({self.cls})"
    def pack(self, E, v):
        if v is None: return [z3.IntVal(-1)]
        if isinstance(v, SOpt): return [z3.If(B(v.isnone), -1, I(v.val.t))]
        return super().pack(E, v)
    def unpack(self, E, ts):
        t = z3.simplify(ts[0])
        if z3.is_int_value(t): return None if t.as_long() < 0 else EnumVal(self.cls, t.as_long())
        return SOpt(ts[0] < 0, EnumVal(self.cls, ts[0]))
    def wf(self, E, ts): return [ts[0] >= -1]

class SeqK(Kind):
    """immutable snapshot of a sequence, or the current content of a list"""
    def __init__(self, k, tup=False): self.k, self.tup = k, tup
    def __repr__(self): return f"{'tupseq' if self.tup else 'seq'}({self.k})"
    def sorts(self): return [IntS] + [z3.ArraySort(IntS, s) for s in self.k.sorts()]
    def pack(self, E, v):
        if isinstance(v, ListCell): v = v.v
        if isinstance(v, tuple): v = CSeq(v)
        if isinstance(v, CSeq): v = E.to_sseq(v, self.k)
        if isinstance(v, SSeq):
            if v.kind != self.k:
                raise KindMismatch(f"sequence of {v.kind}, expected {self.k}")
            return [I(v.n)] + v.arrs
        raise KindMismatch(f"{v!r} is not a sequence")
    def unpack(self, E, ts):
        return SSeq(self.k, ts[0], ts[1:], tup=self.tup)
    def wf(self, E, ts): return [ts[0] >= 0]

class MapK(Kind):
    def __init__(self, kk, vk): self.kk, self.vk = kk, vk
    def __repr__(self): return f"map({self.kk},{self.vk})"
    def sorts(self):
        ks, = self.kk.sorts()
        return [z3.ArraySort(ks, BoolS)] + [z3.ArraySort(ks, s) for s in self.vk.sorts()]
    def pack(self, E, v):
        if isinstance(v, DictCell): v = v.v
        if isinstance(v, CMap): v = E.to_smap(v, self.kk, self.vk)
        if isinstance(v, SMap):
            if v.kk != self.kk or v.vk != self.vk: raise KindMismatch("map kinds differ")
            return [v.dom] + v.vals
        raise KindMismatch(f"{v!r} is not a map")
    def unpack(self, E, ts): return SMap(self.kk, self.vk, ts[0], ts[1:])

class SetK(Kind):
    def __init__(self, k): self.k = k
    def __repr__(self): return f"set({self.k})"
    def sorts(self):
        ks, = self.k.sorts()
        return [z3.ArraySort(ks, BoolS)]
    def pack(self, E, v):
        if isinstance(v, SetCell): v = v.v
        if isinstance(v, CSetV): v = E.to_sset(v, self.k)
        if isinstance(v, SSetV):
            if v.kind != self.k: raise KindMismatch("set kinds differ")
            return [v.mem]
        raise KindMismatch(f"{v!r} is not a set")
    def unpack(self, E, ts): return SSetV(self.k, ts[0])

INT, NAT, BOOL, STR, BYTES, ANY, NONE = _Int(), _Nat(), _Bool(), _Str(), _Bytes(), _Any(), _None()
EMPTYB = _EmptyB()

def default_of(s):
    if s == IntS: return z3.IntVal(0)
    if s == BoolS: return z3.BoolVal(False)
    if s == StrS: return z3.StringVal("")
    if s == ByteS: return bempty
    if isinstance(s, z3.ArraySortRef):
        return z3.K(s.domain(), default_of(s.range()))
    return z3.Const(f"dflt_{s.name()}", s)


# --------------------------------------------------------------------------- engine base: facts, choices, proofs

class Dec:
    __slots__ = ("tag", "feas", "cur")
    def __init__(self, tag, feas):
        self.tag, self.feas, self.cur = tag, feas, 0

def has_text(t, seen=None):
    """does a formula use string operations?"""
    seen = set() if seen is None else seen
    if t.get_id() in seen: return False
    seen.add(t.get_id())
    if z3.is_quantifier(t): return has_text(t.body(), seen)
    if not z3.is_app(t): return False
    if t.decl().kind() in TEXT_OPS: return True
    return any(has_text(c, seen) for c in t.children())
TEXT_OPS = {z3.Z3_OP_SEQ_CONCAT, z3.Z3_OP_SEQ_CONTAINS, z3.Z3_OP_SEQ_INDEX, z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX, z3.Z3_OP_SEQ_IN_RE, z3.Z3_OP_SEQ_REPLACE,
            z3.Z3_OP_SEQ_LAST_INDEX, z3.Z3_OP_SEQ_AT}

class Obligation:
    def __init__(self, name, status, where, ms, backend, detail=None):
        self.name, self.status, self.where, self.ms, self.backend, self.detail = name, status, where, ms, backend, detail

class Config:
    feas_rlimit = 400_000
    entail_rlimit = 300_000
    inv_rlimit = 3_000_000
    no_generalize = ()      # tags of the cells whose arrays get no invariants but those of the contract
    try_both = False
    prove_rlimit = 40_000_000
    # the deterministic limits above decide; the clock only stops what would run away
    feas_ms = 6000
    entail_ms = 5000
    inv_ms = 12000
    prove_ms = 60000
    max_bad = 5
    max_paths = 4000
    max_sub_paths = 600

class Base:
    def __init__(self, cfg=None):
        self.cfg = cfg or Config()
        self.obligations = []
        self.assumed = set()        # names of trusted models used
        self.functions = set()      # repository functions whose body was interpreted
        self.paths = 0
        self.solver_ms = 0.0
        self.queries = 0
        self.deadline = None
        self.mode = "prove"
        self.debug = False
        self.track_join = False
        self.filtered = {}        # array of a filtered list -> index of its elements in the source, and of the source's in it
        self.class_fields = {}      # (class, field) -> Kind, for objects in symbolic collections
        self.ob_cache = set()
        self.covers = {}
        self.loop_cache = {}

    # ---- exploration

    def explore(self, run):
        """Run `run(self)` along every feasible path, generating proof obligations"""
        for _ in range(30):
            self.obligations, self.ob_cache, self.covers, self.loop_cache = [], set(), {}, {}
            self.trail, self.npaths = [], 0
            try:
                while True:
                    self.npaths += 1
                    if self.npaths > self.cfg.max_paths:
                        raise Unsupported("too many paths")
                    self.begin_path()
                    try:
                        run(self)
                    except PathEnd:
                        pass
                    except Unsupported as e:
                        # outside the verifier's reach, unless the facts of the path are contradictory
                        if isinstance(e, Restart) or not self.try_prove(z3.BoolVal(False)): raise
                    self.paths += 1
                    if not self._backtrack():
                        return
            except Restart:
                continue
        raise Unsupported("kind inference does not converge")

    def _backtrack(self):
        while self.trail:
            d = self.trail[-1]
            if d.cur + 1 < len(d.feas):
                d.cur += 1
                return True
            self.trail.pop()
        return False

    def begin_path(self):
        self.pos = 0
        self.base_key = ()
        self.facts = []
        self.fact_ids = {}
        self.qf = z3.Solver()
        self.qf.set("rlimit", self.cfg.feas_rlimit)
        self.qf.set("timeout", self.cfg.feas_ms)
        self.qf.set("random_seed", 1)
        self.names = {}
        self.cells = {}
        self.ncells = 0
        self.const_birth = {}
        self.clock = 0
        self.write_logs = []
        self.conds = []
        self.obn = 0
        self.nloops = 0
        self.nsub = 0
        self.frozen = set()
        self.axioms_done = set()
        self.seq_apps = []
        self.axiom_ids = {}
        self.exc_stack = []
        self.mode = "prove"
        self.begin_hook()

    def begin_hook(self):
        pass

    def snapshot(self):
        return (len(self.facts), dict(self.names), {u: dict(c.slots) for u, c in self.cells.items()}, self.ncells, self.clock,
                len(self.conds), self.obn, self.nloops, self.nsub, set(self.frozen), set(self.axioms_done), list(self.exc_stack), len(self.seq_apps))

    def restore(self, s):
        nf, self.names, cells, self.ncells, self.clock, nc, self.obn, self.nloops, self.nsub, self.frozen, self.axioms_done, self.exc_stack = \
            s[0], dict(s[1]), s[2], s[3], s[4], s[5], s[6], s[7], s[8], set(s[9]), set(s[10]), list(s[11])
        kept = [f for f in self.facts[nf:] if f.get_id() in self.axiom_ids]     # general laws stay: their terms may have left the branch
        for f in self.facts[nf:]:
            self.fact_ids.pop(f.get_id(), None)
        del self.facts[nf:]
        for f in kept: self.fact(f)
        del self.seq_apps[s[12]:]
        del self.conds[nc:]
        for u in [u for u in self.cells if u not in cells]:
            del self.cells[u]
        for u, sl in cells.items():
            self.cells[u].slots = dict(sl)

    def sub_explore(self, fn, infer=True):
        """Run fn along every path from the present state; the state is restored after each. Returns fn's results."""
        saved = (self.trail, self.pos, self.base_key, self.mode)
        self.base_key = self.path_key() + ("sub", self.nsub)
        self.nsub += 1
        self.trail, out, n = [], [], 0
        if infer:
            self.mode = "infer"
        try:
            while True:
                n += 1
                if n > self.cfg.max_sub_paths:
                    raise Unsupported("too many paths in a loop body")
                snap = self.snapshot()
                self.qf.push()
                self.pos = 0
                try:
                    out.append(fn())
                except PathEnd:
                    pass
                except Unsupported as e:
                    if isinstance(e, Restart) or not self.try_prove(z3.BoolVal(False)): raise
                finally:
                    self.restore(snap)
                    self.qf.pop()
                if not self._backtrack():
                    return out
        finally:
            self.trail, self.pos, self.base_key, self.mode = saved

    def tick(self):
        self.clock += 1
        return self.clock

    def new_uid(self, tag):
        self.ncells += 1
        return (tag, self.ncells)

    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return f"{base}!{n}"

    def const(self, name, sort):
        return z3.Const(self.fresh_name(name), sort)

    def fresh(self, kind, name="v"):
        ts = [self.const(name, s) for s in kind.sorts()]
        for w in kind.wf(self, ts):
            self.fact(w)
        return kind.unpack(self, ts)

    def axiom(self, f):
        """closed universally valid formula"""
        self.axiom_ids[f.get_id()] = f
        self.fact(f)

    def fact(self, f):
        if f is True or (is_z(f) and z3.is_true(f)):
            return
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if f.get_id() in self.fact_ids:
            return
        self.fact_ids[f.get_id()] = f
        self.facts.append(f)
        if z3.is_and(f):
            for c in f.children():
                if not has_quant(c):
                    self.qf.add(c)
        elif not has_quant(f):
            self.qf.add(f)

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the proof exhausted")

    def _qf_check(self, f):
        self.check_deadline()
        t = time.time()
        self.qf.push()
        self.qf.add(f)
        r = self.qf.check()
        self.qf.pop()
        self.solver_ms += (time.time() - t) * 1000
        self.queries += 1
        return r

    def feasible(self, c):
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self._qf_check(c) != z3.unsat

    def entails(self, c):
        """cheap check whether the quantifier-free facts imply c"""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self._qf_check(z3.Not(c)) == z3.unsat

    def choose(self, tag, opts):
        """nondeterministic choice among (label, condition or None); explores every feasible one"""
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.tag != tag:
                raise Unsupported(f"nondeterministic exploration: {d.tag} / {tag}")
        else:
            feas = [i for i, (_, c) in enumerate(opts) if c is None or self.feasible(c)]
            if not feas:
                raise PathEnd()
            d = Dec(tag, feas)
            self.trail.append(d)
        i = d.feas[d.cur]
        self.pos += 1
        c = opts[i][1]
        if c is not None:
            self.fact(c)
            self.conds.append(c)
        return i

    def branch(self, c, tag="if"):
        """Python truth of a z3 condition, forking when undetermined"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.choose(tag, [("T", c), ("F", z3.Not(c))]) == 0

    # ---- proofs

    def _solve(self, facts, goal, rlimit, ms, mbqi=False, simple=True, seed=1, fresh=False):
        self.check_deadline()
        ctx = z3.Context() if fresh else None         # a context of its own: the search does not depend on what was built before
        s = z3.SimpleSolver(ctx=ctx) if simple else z3.Solver(ctx=ctx)      # the latter rewrites array definitions away, and triggers with them
        s.set("rlimit", rlimit)
        s.set("timeout", ms)
        s.set("random_seed", seed)
        s.set("smt.mbqi", mbqi)
        if seed > 1: facts = [f for f in facts if not z3.is_quantifier(f)] + [f for f in reversed(facts) if z3.is_quantifier(f)]
        g, defs = hoist(skolem(goal))
        for f in list(facts) + defs + [z3.Not(g)]:
            s.add(f.translate(ctx) if fresh else f)
        t = time.time()
        r = s.check()
        dt = (time.time() - t) * 1000
        self.solver_ms += dt
        self.queries += 1
        return r, s, dt

    def path_key(self):
        return self.base_key + tuple(d.feas[d.cur] for d in self.trail[:self.pos])

    def try_prove(self, goal, rlimit=None, ms=None):
        """is the goal implied by the facts of the path? (used for invariant candidates)"""
        goal = B(goal)
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        if not has_quant(goal) and self._qf_check(z3.Not(goal)) == z3.unsat: return True
        if self.nquant == 0 and not has_quant(goal): return False
        r, s, dt = self._solve(self.facts, goal, rlimit or self.cfg.inv_rlimit, ms or self.cfg.inv_ms)
        if r == z3.unknown and self.cfg.try_both: r, s, dt = self._solve(self.facts, goal, rlimit or self.cfg.inv_rlimit, ms or self.cfg.inv_ms, simple=False)
        return r == z3.unsat

    @property
    def nquant(self):
        return sum(1 for f in self.facts if has_quant(f))

    def prove(self, goal, name, where=""):
        """proof obligation"""
        if self.mode == "infer":
            return
        self.obn += 1
        key = (self.path_key(), self.obn, name)
        if key in self.ob_cache:
            return
        goal = B(goal)
        parts = self._split(goal)
        for i, g in enumerate(parts):
            nm = name if len(parts) == 1 else f"{name}.{i}"
            ob = self._discharge(g, nm, where)
            self.obligations.append(ob)
        self.ob_cache.add(key)

    def lemma(self, goal, name):
        """proof obligation that needs none of the facts of the path; a fact afterwards"""
        facts, self.facts = self.facts, []
        try:
            self.prove(goal, name)
        finally:
            self.facts = facts
        self.fact(B(goal))

    def _split(self, goal):
        if z3.is_and(goal):
            out = []
            for c in goal.children():
                out += self._split(c)
            return out
        return [goal]

    def _discharge(self, goal, name, where):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return Obligation(name, "proved", where, 0.0, "simplifier")
        nbad = sum(1 for o in self.obligations if o.status != "proved")
        if nbad >= self.cfg.max_bad: raise Unsupported("further obligations not attempted after the failures above")
        ms = self.cfg.prove_ms if nbad == 0 else self.cfg.prove_ms // 4
        dt, r = 0, z3.unknown
        text = has_text(goal)
        short = [(simple, 8, seed, 1) for seed in (1, 2, 3, 4) for simple in (True, False)]      # whether a quantified goal is found provable is partly luck
        stages = [(True, 10), (False, 10), "cvc5"] + short + [(True, 1), (False, 1)] if text else [(True, 10), (False, 2)] + short + [(True, 1), (False, 1), "cvc5"]
        for st in stages:
            if st == "cvc5":
                ok, d = self._cvc5(goal)
                dt += d
                if ok: return Obligation(name, "proved", where, dt, "cvc5")
                continue
            r, s, d = self._solve(self.facts, goal, self.cfg.prove_rlimit // st[1], ms // st[1], simple=st[0], seed=st[2] if len(st) > 2 else 1, fresh=len(st) > 3)
            dt += d
            if r != z3.unknown: break
        if r == z3.unknown:
            r2, s2, d = self._solve(self.facts, goal, self.cfg.prove_rlimit // 4, ms // 4, True)
            dt += d
            if r2 != z3.unknown: r, s = r2, s2
        if r == z3.unsat:
            return Obligation(name, "proved", where, dt, "z3")
        why = s.reason_unknown() if r == z3.unknown else "counterexample"
        model = None
        if r == z3.sat:
            m = s.model()
            model = {str(d): str(m[d])[:300] for d in list(m.decls())[:60]}
        if self.debug:
            print("FAILED", name, why, "\n  goal:", goal, "\n  facts:")
            for f in self.facts:
                print("    ", str(f).replace("\n", " ")[:400])
            print("  model:", model)
        return Obligation(name, "failed" if r == z3.sat else "unknown", where, dt, "z3",
                          {"goal": str(goal)[:1500], "reason": why, "model": model,
                           "path": [str(f)[:300] for f in self.facts[-12:]]})

    def _cvc5(self, goal):
        try:
            import cvc5
        except ImportError:
            return False, 0.0
        t = time.time()
        try:
            s = z3.Solver()
            for f in self.facts:
                s.add(f)
            s.add(z3.Not(goal))
            txt = "(set-logic ALL)\n" + s.to_smt2()
            if "lambda" in txt or "as-array" in txt:
                return False, 0.0
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption("tlimit-per", "10000")
            slv.setOption("strings-exp", "true")
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
            sm = p.getSymbolManager()
            res = ""
            while True:
                c = p.nextCommand()
                if c.isNull(): break
                res += str(c.invoke(slv, sm))
            dt = (time.time() - t) * 1000
            self.solver_ms += dt
            return res.strip().endswith("unsat"), dt
        except Exception:
            return False, (time.time() - t) * 1000

    def cover(self, name):
        """this point must be reachable on some path (vacuity guard)"""
        if self.mode == "infer":
            return
        if self.covers.get(name) == "sat":
            return
        r, s, dt = self._solve(self.facts, z3.BoolVal(False), 3_000_000, 3000)
        if r == z3.unsat:
            self.covers.setdefault(name, "unsat")
        else:
            self.covers[name] = "sat"

    # ---- cells

    def write(self, cell, slot, v):
        if cell.uid in self.frozen:
            raise Unsupported(f"a collection stored by value is modified afterwards: {cell.uid}")
        for birth, log in self.write_logs:
            if cell.birth <= birth:
                log[(cell.uid, slot)] = True
        cell.slots[slot] = v

    # ---- bytes helpers

    def byte_axioms(self):
        if "bytes" in self.axioms_done: return
        self.axioms_done.add("bytes")
        b, c, d = z3.Consts("b! c! d!", ByteS)
        s, n, s2, n2, i = z3.Ints("s! n! s2! n2! i!")
        ok = And(s >= 0, n >= 0, s + n <= blen(b))
        A = lambda vs, f, *p: self.axiom(z3.ForAll(vs, f, patterns=list(p)))
        self.fact(blen(bempty) == 0)
        A([b], blen(b) >= 0, blen(b))
        A([b, s, n], Implies(ok, blen(bsl(b, s, n)) == n), bsl(b, s, n))
        A([b, s, n, i], Implies(And(ok, i >= 0, i < n), bat(bsl(b, s, n), i) == bat(b, s + i)), bat(bsl(b, s, n), i))
        A([b, s, n], Implies(And(s == 0, n == blen(b)), bsl(b, s, n) == b), bsl(b, s, n))
        A([b, s, n, s2, n2], Implies(And(ok, s2 >= 0, n2 >= 0, s2 + n2 <= n), bsl(bsl(b, s, n), s2, n2) == bsl(b, s + s2, n2)), bsl(bsl(b, s, n), s2, n2))
        A([b, i], And(bat(b, i) >= 0, bat(b, i) < 256), bat(b, i))
        A([b, s, n], Implies(n == 0, bsl(b, s, n) == bempty), bsl(b, s, n))
        A([b, c], blen(bcat(b, c)) == blen(b) + blen(c), bcat(b, c))
        A([b, c], And(Implies(blen(b) == 0, bcat(b, c) == c), Implies(blen(c) == 0, bcat(b, c) == b)), bcat(b, c))
        A([b, c, d], bcat(b, bcat(c, d)) == bcat(bcat(b, c), d), bcat(b, bcat(c, d)))
        A([b, c, i], bat(bcat(b, c), i) == z3.If(i < blen(b), bat(b, i), bat(c, i - blen(b))), bat(bcat(b, c), i))
        A([b, c, s, n], And(Implies(And(s >= 0, n >= 0, s + n <= blen(b)), bsl(bcat(b, c), s, n) == bsl(b, s, n)),
                            Implies(And(s >= blen(b), n >= 0, s + n <= blen(b) + blen(c)), bsl(bcat(b, c), s, n) == bsl(c, s - blen(b), n))), bsl(bcat(b, c), s, n))
        A([b, s, n, s2, n2], Implies(And(ok, s2 == s + n, n2 >= 0, s2 + n2 <= blen(b)), bcat(bsl(b, s, n), bsl(b, s2, n2)) == bsl(b, s, n + n2)), bcat(bsl(b, s, n), bsl(b, s2, n2)))
        A([c, b, s, n, s2, n2], Implies(And(ok, s2 == s + n, n2 >= 0, s2 + n2 <= blen(b)), bcat(bcat(c, bsl(b, s, n)), bsl(b, s2, n2)) == bcat(c, bsl(b, s, n + n2))), bcat(bcat(c, bsl(b, s, n)), bsl(b, s2, n2)))

    def bseq(self, v):
        self.byte_axioms()
        if isinstance(v, bytes):
            if not v: return bempty
            c = z3.Const("lit_" + v.hex(), ByteS)
            self.fact(blen(c) == len(v))
            if len(v) <= 64:
                for i, x in enumerate(v): self.fact(bat(c, i) == x)
            return c
        if isinstance(v, SB):
            st, n = z3.simplify(I(v.start)), z3.simplify(I(v.n))
            if z3.is_int_value(st) and st.as_long() == 0 and n.eq(z3.simplify(blen(v.base))): return v.base
            if z3.is_int_value(n) and n.as_long() == 0: return bempty
            return bsl(v.base, st, n)
        raise Unsupported(f"not bytes: {v!r}")
