"""Meaning of Python's builtin types and of the library functions the repository calls (the trusted models)."""
import ast
import re
import struct as _struct
import z3
from .core import *
from .values import *
from .loops import join_kind, join_key, BOT, Raw

ALIASES = {"xxhash.xxh64_intdigest": "xxhash.xxh64_intdigest"}
MODULES = {"os", "os.path", "sys", "re", "struct", "json", "shutil", "logging", "io", "itertools", "errno", "gzip", "zlib", "hashlib", "time",
           "requests", "requests.exceptions", "pyzstd", "glob", "math", "functools", "datetime", "signal", "collections", "base64", "PIL.Image", "PIL", "ujson",
           "hachoir", "hachoir.parser", "hachoir.metadata", "typing", "enum", "copy", "operator", "string", "multiprocessing", "multiprocessing.pool"}
CONSTANTS = {"errno.EINVAL": 22, "errno.ENAMETOOLONG": 36, "zlib.MAX_WBITS": 15, "os.name": "posix", "os.sep": "/", "re.VERBOSE": 64, "re.I": 2,
             "re.IGNORECASE": 2, "typing.List": TypeV("list"), "typing.Tuple": TypeV("tuple"), "typing.Dict": TypeV("dict"), "typing.Union": TypeV("Union"),
             "typing.Optional": TypeV("Optional"), "typing.Generator": TypeV("Generator"), "typing.Iterable": TypeV("Iterable")}
EXTERNALS = {}
BUILTINS = {}


def ext(*names):
    def deco(f):
        for n in names: EXTERNALS[n] = f
        return f
    return deco

def builtin(*names):
    def deco(f):
        for n in names: BUILTINS[n] = BuiltinV(n, f)
        return f
    return deco

for _t in ("int", "str", "bytes", "bool", "list", "tuple", "dict", "set", "frozenset", "float", "object", "type", "bytearray"):
    BUILTINS[_t] = TypeV(_t)
BUILTINS["NotImplemented"] = type("NI", (), {"__repr__": lambda s: "NotImplemented"})()
NOTIMPL = BUILTINS["NotImplemented"]


def begin(E):
    E.fmt_parts = {}
    E.enums = {}
    E.fs = None

# --------------------------------------------------------------------------- small helpers

class MapView:
    def __init__(self, what, d): self.what, self.d = what, d

class RangeV:
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi

class ZipV:
    def __init__(self, views): self.views = views

class DirV:
    """a pathlib path that is only extended and passed on"""
    def __init__(self, text): self.text = text
    def binop_(self, E, name, b):
        if name != "truediv" or not is_strlike(b): raise Unsupported("operation on a path")
        return DirV(conc(z3.Concat(S(self.text), S("/"), S(b))))

class LoggerV:
    pass

class FileV(Cell):
    """open binary file for reading: a view of its content and a position"""
    def __init__(self, E, data, pos=0):
        super().__init__(E, "file", pos=pos)
        self.data = data

def conc(t):
    """concrete int of a term, or the term"""
    if is_z(t):
        t = z3.simplify(t)
        if z3.is_int_value(t): return t.as_long()
    return t

def imin(E, a, b):
    if isinstance(a, int) and isinstance(b, int): return min(a, b)
    if E.entails(I(a) <= I(b)): return a
    if E.entails(I(b) <= I(a)): return b
    return z3.If(I(a) <= I(b), I(a), I(b))

def imax(E, a, b):
    if isinstance(a, int) and isinstance(b, int): return max(a, b)
    if E.entails(I(a) >= I(b)): return a
    if E.entails(I(b) >= I(a)): return b
    return z3.If(I(a) >= I(b), I(a), I(b))

def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    return conc(I(a) + I(b))

def sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    return conc(I(a) - I(b))

def fresh_any(E, name="any"):
    return Opq(E.const(name, AnyS))

def slice_bounds(E, sl, n):
    """(start, stop-start) of s[sl] for a sequence of length n, clamped as Python does"""
    if sl.step is not None: raise Unsupported("slice step")
    def norm(x, default):
        if x is None: return default
        x = E.to_int(x)
        if not is_intlike(x): E.py_raise("TypeError", "slice index")
        if isinstance(x, int):
            if x < 0: return imax(E, add(n, x), 0)
            return imin(E, x, n)
        if E.entails(x >= 0): return imin(E, x, n)
        if E.branch(x < 0, "neg-slice"): return imax(E, add(n, x), 0)
        return imin(E, x, n)
    lo = norm(sl.start, 0)
    hi = norm(sl.stop, n)
    if lo == 0 and isinstance(lo, int): return lo, hi
    ln = imax(E, sub(hi, lo), 0)
    return lo, ln

def sb_slice(E, v, sl):
    lo, ln = slice_bounds(E, sl, v.n)
    return SB(v.base, add(v.start, lo), ln)

def byte_at(E, v, i):
    """i-th byte of an SB (in range)"""
    t = bat(v.base, I(add(v.start, i)))
    E.fact(And(t >= 0, t < 256))
    return t

def le(E, base, pos, n):
    """unsigned little-endian integer of n bytes"""
    pos = z3.simplify(I(pos))
    if n == 1:
        t = bat(base, pos)
        E.fact(And(t >= 0, t < 256))
        return t
    f = z3.Function(f"le{n}", ByteS, IntS, IntS)
    key = f"le{n}"
    if key not in E.axioms_done:
        E.axioms_done.add(key)
        b, p, s, m = z3.Const("b!", ByteS), z3.Int("p!"), z3.Int("s!"), z3.Int("m!")
        E.axiom(z3.ForAll([b, p], And(f(b, p) >= 0, f(b, p) < 2 ** (8 * n)), patterns=[f(b, p)]))
        E.axiom(z3.ForAll([b, s, m, p], Implies(And(p >= 0, p + n <= m, s >= 0, s + m <= blen(b)), f(bsl(b, s, m), p) == f(b, s + p)), patterns=[f(bsl(b, s, m), p)]))
    t = f(base, pos)
    E.fact(And(t >= 0, t < 2 ** (8 * n)))
    return t

def bytes_eq(E, a, b):
    if isinstance(a, bytes) and isinstance(b, bytes): return a == b
    if isinstance(a, bytes): a, b = b, a
    if isinstance(b, bytes):
        return And(I(a.n) == len(b), *[byte_at(E, a, i) == x for i, x in enumerate(b)])
    if a.base.eq(b.base) and z3.simplify(I(a.start)).eq(z3.simplify(I(b.start))):
        return I(a.n) == I(b.n)
    return E.bseq(a) == E.bseq(b)

def as_sb(E, v):
    if isinstance(v, SB): return v
    return SB(E.bseq(v), 0, len(v))

# --------------------------------------------------------------------------- struct

FMT = re.compile(r"(\d*)([xcbB?hHiIlLqQnNefdsp])")
SIZES = {"x": 1, "c": 1, "b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8, "s": 1, "e": 2}

def parse_fmt(fmt):
    if isinstance(fmt, bytes): fmt = fmt.decode()
    order = "@"
    if fmt and fmt[0] in "<>=!@":
        order, fmt = fmt[0], fmt[1:]
    items, pos = [], 0
    toks = FMT.findall(fmt)
    if "".join(a + b for a, b in toks) != fmt.replace(" ", ""): raise Unsupported(f"struct format {fmt}")
    if order == "@":
        if any(c in "hHiIlLqQnNefd" for _, c in toks): raise Unsupported("native struct format")
        order = "<"
    if order not in "<>": raise Unsupported("struct byte order")
    for cnt, c in toks:
        k = int(cnt) if cnt else 1
        if c == "s":
            items.append(("s", pos, k)); pos += k
        elif c == "x":
            pos += k
        else:
            for _ in range(k):
                items.append((c, pos, SIZES[c])); pos += SIZES[c]
    return order, items, pos

def fmt_symbolic(E, fmt):
    """(prefix, count term, code) of a format such as f'<{n}Q'"""
    parts = E.fmt_parts.get(fmt.get_id()) if is_z(fmt) else None
    if parts is None: raise Unsupported("symbolic struct format")
    parts = [p for p in parts if p != ""]
    if len(parts) == 3 and parts[0] in ("<", "") and isinstance(parts[1], tuple) and isinstance(parts[2], str) and len(parts[2]) == 1:
        return parts[1][1], parts[2]
    raise Unsupported("symbolic struct format")

@ext("struct.calcsize")
def struct_calcsize(E, a, k):
    fmt = a[0]
    if isinstance(fmt, (str, bytes)): return parse_fmt(fmt)[2]
    cnt, code = fmt_symbolic(E, fmt)
    if E.branch(cnt < 0, "negative-count"): E.py_raise("struct.error")
    return cnt * SIZES[code]

def decode_item(E, sb, code, off, size, order="<"):
    pos = add(sb.start, off)
    if order == ">" and size > 1:
        u = fcall(f"be{size}", sb.base, I(pos))
        E.fact(And(u >= 0, u < 2 ** (8 * size)))
    elif code == "s": return SB(sb.base, pos, size)
    elif code == "c": return SB(sb.base, pos, 1)
    elif code in "fde": return Opq(fcall(f"float_{code}", sb.base, I(pos), ret=AnyS), "float")
    else: u = le(E, sb.base, pos, size)
    if code == "?": return u != 0
    if code in "bhilq":
        return z3.If(u >= 2 ** (8 * size - 1), u - 2 ** (8 * size), u)
    return u

@ext("struct.unpack")
def struct_unpack(E, a, k):
    fmt, data = a
    data = E.resolve(data)
    if not isinstance(fmt, (str, bytes)):
        cnt, code = fmt_symbolic(E, fmt)
        sb = as_sb(E, data)
        if cnt is not None and E.branch(cnt < 0, "negative-count"): E.py_raise("struct.error")
        if not E.branch(I(sb.n) == cnt * SIZES[code], "struct-size"): E.py_raise("struct.error")
        arr = E.const("unpacked", z3.ArraySort(IntS, IntS))
        j = z3.Int("j!")
        item = decode_item(E, sb, code, z3.IntVal(0), SIZES[code])
        le(E, sb.base, sb.start, SIZES[code])
        f = lambda p: (bat if SIZES[code] == 1 else z3.Function(f"le{SIZES[code]}", ByteS, IntS, IntS))(sb.base, p)
        if code not in "BHILQ": raise Unsupported("symbolic repeat of " + code)
        E.fact(z3.ForAll([j], z3.Select(arr, j) == f(I(sb.start) + SIZES[code] * j), patterns=[z3.Select(arr, j)]))
        for q in range(getattr(E, "unpack_ground", 0)): E.fact(z3.Select(arr, q) == f(I(sb.start) + SIZES[code] * q))
        return SSeq(INT, cnt, [arr], tup=True)
    order, items, size = parse_fmt(fmt)
    if isinstance(data, bytes):
        if len(data) != size: E.py_raise("struct.error")
        try:
            return tuple(_struct.unpack(fmt, data))
        except _struct.error:
            E.py_raise("struct.error")
    if not isinstance(data, SB): E.py_raise("TypeError", "struct.unpack")
    if not E.branch(I(data.n) == size, "struct-size"): E.py_raise("struct.error")
    return tuple(decode_item(E, data, c, off, sz, order) for c, off, sz in items)

@ext("struct.pack")
def struct_pack(E, a, k):
    """result identified by the format and the packed values"""
    fmt, vals = a[0], list(a[1:])
    order, items, size = parse_fmt(fmt)
    if len(items) != len(vals): E.py_raise("struct.error")
    if all(isinstance(v, (int, bytes, bool, float)) for v in vals):
        try:
            return _struct.pack(fmt, *vals)
        except _struct.error:
            E.py_raise("struct.error")
    E.byte_axioms()
    out = E.const("packed", ByteS)
    E.fact(blen(out) == size)
    used = [False] * size
    for (c, off, sz), v in zip(items, vals):
        v = E.resolve(v)
        for q in range(off, off + sz): used[q] = True
        if c == "s":
            if not isinstance(v, (bytes, SB)): E.py_raise("struct.error")
            if isinstance(v, bytes):
                for q, x in enumerate(v.ljust(sz, b"\0")[:sz]): E.fact(bat(out, off + q) == x)
            else:
                n = conc(v.n)
                if n != sz: raise Unsupported("struct.pack of a string of unknown length")
                E.fact(bsl(out, off, sz) == E.bseq(v))
                for q in range(min(sz, 64)): E.fact(bat(out, off + q) == byte_at(E, v, q))
                for w in (2, 4, 8):
                    for q in range(0, sz - w + 1):
                        pass
                E.pack_src = getattr(E, "pack_src", [])
        elif c in "BHILQ":
            v = E.to_int(v)
            if not is_intlike(v): E.py_raise("struct.error")
            if not E.branch(And(I(v) >= 0, I(v) < 2 ** (8 * sz)), "pack-range"): E.py_raise("struct.error")
            E.fact(le(E, out, off, sz) == I(v))
            if isinstance(v, int):
                for q in range(sz): E.fact(bat(out, off + q) == (v >> (8 * q)) & 255)
            elif sz > 1:
                E.fact(I(v) == z3.Sum([bat(out, off + q) * (1 << (8 * q)) for q in range(sz)]))
        else:
            raise Unsupported("struct.pack code " + c)
    for q in range(size):
        if not used[q]: E.fact(bat(out, q) == 0)
    return SB(out, 0, size)

# --------------------------------------------------------------------------- strings

def str_concat(E, parts):
    flat = []
    for p in parts:
        if is_z(p) and p.get_id() in E.fmt_parts: flat += E.fmt_parts[p.get_id()]
        else: flat.append(p)
    out, cur = [], ""
    for p in flat:
        if isinstance(p, str): cur += p
        else:
            if cur: out.append(cur); cur = ""
            out.append(p)
    if cur: out.append(cur)
    if not out: return ""
    h = getattr(E, "concat_hook", None)
    if h is not None:
        r = h(out)
        if r is not None: return r
    if all(isinstance(p, str) for p in out): return "".join(out)
    ts = [S(p) if isinstance(p, str) else p[2] if isinstance(p, tuple) else p for p in out]
    t = ts[0] if len(ts) == 1 else z3.Concat(*ts)
    if any(isinstance(p, tuple) for p in out) or len(out) > 1:
        E.fmt_parts[t.get_id()] = out
        E.__dict__.setdefault("keep", []).append(t)
    return t

def seq_app(E, tag, n, arrs, ret, inject=None):
    """function of a sequence (of its first n elements only): equal sequences give equal results;
    inject(i): condition of element i under which equal results come from equal sequences"""
    n, arrs = I(n), list(arrs)
    t = fcall(tag, n, *arrs, ret=ret)
    if any(a[3].eq(t) for a in E.seq_apps): return t
    bad = None
    if inject:
        b = E.const("elem", IntS)
        bad = And(b >= 0, b < n, Not(inject(arrs, b)))
    for tag2, n2, arrs2, t2, bad2 in E.seq_apps:
        if tag2 != tag or len(arrs2) != len(arrs) or any(x.sort() != y.sort() for x, y in zip(arrs, arrs2)): continue
        w, j = E.const("differ", IntS), z3.Int("j!")
        E.fact(Or(t == t2, n != n2, And(w >= 0, w < n, Or(*[x[w] != y[w] for x, y in zip(arrs, arrs2)]))))
        if inject:
            E.fact(Or(t != t2, n < 1, n2 < 1, bad, bad2, And(n == n2, forall([j], Implies(And(j >= 0, j < n), And(*[x[j] == y[j] for x, y in zip(arrs, arrs2)])), [arrs[0][j], arrs2[0][j], fcall("at", j, ret=BoolS)]))))
    E.seq_apps.append((tag, n, arrs, t, bad))
    return t

def sep_tag(sep): return sep.encode().hex()

def sep_free(sep, x): return fcall("without_" + sep_tag(sep), x, ret=BoolS)

def join_term(E, sep, n, arr):
    t = seq_app(E, "join_" + sep_tag(sep), n, [arr], StrS, (lambda a, i: sep_free(sep, a[0][i])) if sep else None)
    E.fact(Implies(I(n) == 0, t == S("")))
    if sep == "" and E.track_join: E.fact(t == joined_text(arr, n))
    return t

def str_join(E, s, it):
    it = E.resolve(it)
    if isinstance(it, (GenV, ListCell, SSeq, CSeq, tuple)) and isinstance(s, str):
        v = as_seq(E, it)
        if isinstance(v, SSeq) and not isinstance(conc(v.n), int):
            if v.kind == BOT: return ""
            if v.kind != STR: E.py_raise("TypeError", "sequence item: expected str instance")
            return join_term(E, s, v.n, v.arrs[0])
        it = ListCell(E, v)
    items = E.models.concrete_items(E, it)
    out = []
    for i, x in enumerate(items):
        if not is_strlike(E.resolve(x)): E.py_raise("TypeError", "sequence item: expected str instance")
        if i: out.append(s)
        out.append(x)
    r = str_concat(E, out)
    if isinstance(s, str) and s and len(items) > 1 and is_z(r):
        a = z3.K(IntS, S(""))
        for i, x in enumerate(items): a = z3.Store(a, i, S(x))
        E.fact(join_term(E, s, len(items), a) == r)
    return r

def lex(E, a, b):
    """(lower, equal) of two sequences of numbers, compared from left to right"""
    d, j = E.const("lexdiff", IntS), z3.Int("j!")
    (n, x), (m, y) = a, b
    E.fact(And(d >= 0, d <= n, d <= m))
    E.fact(Or(d == n, d == m, x[d] != y[d]))
    E.fact(forall([j], Implies(And(j >= 0, j < d), x[j] == y[j]), [x[j], y[j], fcall("at", j, ret=BoolS)]))
    E.fact(fcall("at", d, ret=BoolS))      # an index worth looking at
    return Or(And(d == n, n < m), And(d < n, d < m, x[d] < y[d])), And(n == m, d == n)

def hexstr(E, v, width=0, upper=False):
    f = fcall(f"hex{width}{'U' if upper else ''}", I(v), ret=StrS)
    E.fact(z3.Length(f) >= max(width, 1))
    key = f"hexax{width}{upper}"
    if width and key not in E.axioms_done:
        E.axioms_done.add(key)
        x, y = z3.Ints("x! y!")
        g = z3.Function(f"hex{width}{'U' if upper else ''}", IntS, StrS)
        inv = z3.Function(f"unhex{width}", StrS, IntS)
        E.axiom(z3.ForAll([x], Implies(And(x >= 0), inv(g(x)) == x), patterns=[g(x)]))
        E.axiom(z3.ForAll([x], Implies(And(x >= 0, x < 16 ** width), z3.Length(g(x)) == width), patterns=[g(x)]))
    if width: E.fact(Implies(And(I(v) >= 0, I(v) < 16 ** width), z3.Length(f) == width))
    return f

def to_str(E, v):
    v = E.resolve(v)
    if is_strlike(v): return v
    if v is None or isinstance(v, (bool, int, float, tuple)) and not (isinstance(v, tuple) and any(is_z(x) or not isinstance(x, (int, str)) for x in v)): return str(v)
    if is_zint(v):
        t = fcall("dec", v, ret=StrS)
        E.fact(z3.Length(t) >= 1)
        if "dec" not in E.axioms_done:
            E.axioms_done.add("dec")
            x = z3.Int("x!")
            g, inv = z3.Function("dec", IntS, StrS), z3.Function("undec", StrS, IntS)
            ok, val = z3.Function("int_ok10", StrS, BoolS), z3.Function("int_of10", StrS, IntS)
            E.axiom(z3.ForAll([x], And(inv(g(x)) == x, ok(g(x)), val(g(x)) == x, sep_free(".", g(x)), sep_free("_", g(x))), patterns=[g(x)]))
        return t
    if is_zbool(v): return z3.If(v, S("True"), S("False"))
    if isinstance(v, (Obj, SObj)):
        for m in ("__str__", "__repr__"):
            f = E.find_method(v, m)
            if f: return E.call(f, [])
        return fcall("str_obj", E.ref_of(v) if isinstance(v, SObj) or "$ref" in v.slots else z3.IntVal(-E.ncells), ret=StrS)
    if isinstance(v, ExcV): return fcall("str_exc", z3.StringVal(exc_name(v.cls)), ret=StrS)
    try:
        return fcall("str_any", E.box(v), ret=StrS)
    except (KindMismatch, Unsupported):
        return E.const("str", StrS)

def fmt_value(E, v, spec, conv):
    if isinstance(v, SOpt): v = E.resolve(v)
    if conv in (114, 97):
        return to_str(E, v) if not is_strlike(v) else (repr(v) if isinstance(v, str) else fcall("repr", v, ret=StrS))
    if conv == 115: v = to_str(E, v)
    if not isinstance(spec, str): 
        raise Unsupported("symbolic format specification")
    if spec == "":
        if is_zint(v):
            t = to_str(E, v)
            return ("int", v, t)
        return to_str(E, v)
    m = re.fullmatch(r"0?(\d*)([xXd])", spec)
    if m:
        v = E.to_int(v)
        if v is None or is_strlike(v): E.py_raise("ValueError" if is_strlike(v) else "TypeError", "format")
        if isinstance(v, int): return format(v, spec)
        if is_zint(v):
            if m.group(2) == "d": return fcall(f"decfmt_{spec}", v, ret=StrS)
            return hexstr(E, v, int(m.group(1) or 0), m.group(2) == "X")
        if isinstance(v, Opq): return fcall(f"fmt_{spec}", v.t, ret=StrS)
    if isinstance(v, (int, str, float)): return format(v, spec)
    raise Unsupported(f"format {spec} of {v!r}")

def is_ascii(E, z): return fcall("is_ascii", S(z), ret=BoolS)

def bcase(E, t, name):
    """bytes.lower / bytes.upper"""
    E.byte_axioms()
    f = z3.Function("b_" + name, ByteS, ByteS)
    if f.name() not in E.axioms_done:
        E.axioms_done.add(f.name())
        b, i = z3.Const("b!", ByteS), z3.Int("i!")
        lo, hi, d = (65, 90, 32) if name == "lower" else (97, 122, -32)
        E.axiom(z3.ForAll([b], blen(f(b)) == blen(b), patterns=[f(b)]))
        E.axiom(z3.ForAll([b, i], bat(f(b), i) == z3.If(And(bat(b, i) >= lo, bat(b, i) <= hi), bat(b, i) + d, bat(b, i)), patterns=[bat(f(b), i)]))
    return f(t)

def blower(E, t): return bcase(E, t, "lower")

def ascii_case(E, z, t, name):
    """case conversion of ASCII text is that of its bytes"""
    enc = lambda x: fcall("encode_utf8", x, ret=ByteS)
    E.fact(Implies(is_ascii(E, z), And(is_ascii(E, t), enc(t) == bcase(E, enc(z), name))))

def str_method(E, s, name):
    def b(f): return BuiltinV("str." + name, lambda E, a, k: f(*[E.resolve(x) for x in a], **k))
    cs = isinstance(s, str)
    allc = lambda xs: cs and all(isinstance(x, (str, int)) or isinstance(x, tuple) and all(isinstance(y, str) for y in x) for x in xs)
    z = S(s)
    if name == "startswith" or name == "endswith":
        def f(p, *r):
            if r: raise Unsupported(name + " with bounds")
            if allc([p]): return getattr(s, name)(p)
            one = lambda q: z3.PrefixOf(S(q), z) if name == "startswith" else z3.SuffixOf(S(q), z)
            if isinstance(p, tuple): return Or(*[one(q) for q in p])
            if not is_strlike(p): E.py_raise("TypeError")
            return one(p)
        return b(f)
    if name in ("lower", "upper", "strip", "rstrip", "lstrip", "title", "casefold"):
        def f(*r):
            if allc(r): return getattr(s, name)(*r)
            if not all(isinstance(x, str) for x in r): raise Unsupported(name)
            t = fcall("str_" + name + "".join("_" + x.encode().hex() for x in r), z, ret=StrS)
            if getattr(E, "exact_re", False) and r and r[0] and name in ("strip", "rstrip", "lstrip"):
                cs_ = z3.Star(z3.Re(r[0]) if len(r[0]) == 1 else z3.Union(*[z3.Re(c) for c in sorted(set(r[0]))]))
                if name == "rstrip" and len(r[0]) == 1:
                    z1 = z3.SubString(z, 0, z3.Length(z) - 1)
                    z2 = z3.SubString(z, 0, z3.Length(z) - 2)
                    g_ = z3.Function(t.decl().name(), StrS, StrS)
                    E.fact(t == z3.If(z3.SuffixOf(S(r[0]), z), z3.If(z3.SuffixOf(S(r[0]), z1), g_(z2), z1), z))
                l_, t_ = (fcall(f"str_{w}_{name}_{r[0].encode().hex()}", z, ret=StrS) for w in ("head", "tail"))
                E.fact(z3.Concat(l_, t, t_) == z)
                E.fact(And(z3.InRe(l_, cs_) if name != "rstrip" else l_ == S(""), z3.InRe(t_, cs_) if name != "lstrip" else t_ == S("")))
                for c in sorted(set(r[0])):
                    if name != "lstrip": E.fact(Not(z3.SuffixOf(S(c), t)))
                    if name != "rstrip": E.fact(Not(z3.PrefixOf(S(c), t)))
            if name in ("lower", "upper"):
                g = z3.Function("str_" + name, StrS, StrS)
                E.fact(g(t) == t)
                ascii_case(E, z, t, name)
            return t
        return b(f)
    if name == "encode":
        def f(enc="utf-8", errors="strict"):
            if cs: return s.encode(enc)
            e = enc.lower().replace("-", "")
            if e in ("ascii",):
                ok = fcall("is_ascii", z, ret=BoolS)
                if not E.branch(ok, "ascii"): E.py_raise("UnicodeEncodeError")
            r = fcall("encode_utf8", z, ret=ByteS)
            E.byte_axioms()
            return SB(r, 0, blen(r))
        return b(f)
    if name == "split":
        def f(sep=None, maxsplit=-1):
            if cs and isinstance(sep, (str, type(None))): return ListCell(E, CSeq(s.split(sep, maxsplit)))
            return split_model(E, z, sep, maxsplit)
        return b(f)
    if name == "join":
        return BuiltinV("str.join", lambda E, a, k: str_join(E, s, a[0]))
    if name == "replace":
        def f(a, c):
            if allc([a, c]): return s.replace(a, c)
            return fcall("str_replace", z, S(a), S(c), ret=StrS)
        return b(f)
    if name == "format":
        def f(*a, **k):
            if cs and all(isinstance(x, (str, int)) for x in a): return s.format(*a, **k)
            return format_method(E, s, a)
        return b(f)
    if name in ("isdigit", "isalpha", "isalnum", "isnumeric", "isdecimal", "isupper", "islower", "isspace"):
        def f():
            if cs: return getattr(s, name)()
            return fcall("str_" + name, z, ret=BoolS)
        return b(f)
    if name in ("find", "index", "rfind", "count", "splitlines", "partition", "rpartition", "rsplit", "zfill"):
        def f(*a):
            if allc(a):
                r = getattr(s, name)(*a)
                return ListCell(E, CSeq(r)) if isinstance(r, list) else r
            h = E.str_hooks.get(name) if hasattr(E, "str_hooks") else None
            if h: return h(E, z, *a)
            if name == "partition" and len(a) == 1 and isinstance(a[0], str) and a[0]: return partition(E, z, a[0])
            raise Unsupported(f"str.{name} on a symbolic string")
        return b(f)
    return None

def format_method(E, s, a):
    import string
    parts, auto = [], 0
    if not isinstance(s, str): raise Unsupported("symbolic format string")
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit: parts.append(lit)
        if field is None: continue
        if field == "": i, auto = auto, auto + 1
        elif field.isdigit(): i = int(field)
        else: raise Unsupported("named format field")
        parts.append(fmt_value(E, a[i], spec or "", ord(conv) if conv else -1))
    return str_concat(E, parts)

def split_model(E, z, sep, maxsplit):
    """parts of a string as a function of the string and the separator (abstract; join(split) axioms are added by contracts)"""
    h = getattr(E, "split_hook", None)
    if h is not None:
        r = h(E, z, sep, maxsplit)
        if r is not None: return r
    if not isinstance(sep, (str, type(None))) or not isinstance(maxsplit, int): raise Unsupported("split")
    if sep and maxsplit == 1:
        l, m, r = partition(E, z, sep)
        if m == "": return ListCell(E, CSeq([z]))
        return ListCell(E, CSeq([l, r]))
    tag = f"{(sep or 'ws').encode().hex()}_{maxsplit}"
    n = fcall(f"split_n_{tag}", z)
    arr = fcall(f"split_a_{tag}", z, ret=z3.ArraySort(IntS, StrS))
    E.fact(n >= (1 if sep is not None else 0))
    if maxsplit >= 0: E.fact(n <= maxsplit + 1)
    if sep and maxsplit < 0:
        j = z3.Int("j!")
        E.fact(forall([j], Implies(And(j >= 0, j < n), sep_free(sep, arr[j])), [arr[j]]))
        E.fact(join_term(E, sep, n, arr) == z)
    return ListCell(E, SSeq(STR, n, [arr]))

def partition(E, z, sep):
    """text before and after the first separator, as functions of the text (their definition is added by contracts)"""
    t = sep_tag(sep)
    if getattr(E, "exact_re", False):
        l, r = fcall("before_" + t, z, ret=StrS), fcall("after_" + t, z, ret=StrS)
        E.fact(fcall("has_" + t, z, ret=BoolS) == z3.Contains(z, S(sep)))
        E.fact(Implies(z3.Contains(z, S(sep)), And(z == z3.Concat(l, S(sep), r), l == z3.SubString(z, 0, z3.IndexOf(z, S(sep), 0)), Not(z3.Contains(l, S(sep))))))
    if not E.branch(fcall("has_" + t, z, ret=BoolS), "separator"): return (z, "", "")
    return (fcall("before_" + t, z, ret=StrS), sep, fcall("after_" + t, z, ret=StrS))

# --------------------------------------------------------------------------- lengths, iteration

def length(E, v, nonempty=False):
    v = E.resolve(v)
    if isinstance(v, (str, bytes, tuple)): return len(v)
    if is_zstr(v): return z3.Length(v)
    if isinstance(v, SB): return v.n
    if isinstance(v, (ListCell, DictCell, SetCell)): v = v.v
    if isinstance(v, CSeq): return len(v.items)
    if isinstance(v, CMap): return len(v.items)
    if isinstance(v, CSetV):
        if nonempty: return len(v.items) > 0
        if len(v.items) <= 1: return len(v.items)
        if all(isinstance(x, (int, str)) for x in v.items): return len(set(v.items))
        n = 0
        for i, x in enumerate(v.items):
            if not any(E.branch(E.eq(x, y), "dup") for y in v.items[:i]): n += 1
        return n
    if isinstance(v, SSeq): return v.n
    if isinstance(v, (SMap, SSetV)): return enum_of(E, v)[0]
    if isinstance(v, RangeV): return imax(E, sub(v.hi, v.lo), 0)
    if isinstance(v, MapView): return length(E, v.d)
    if isinstance(v, (Obj, SObj)):
        m = E.find_method(v, "__len__")
        if m: return E.call(m, [])
    E.py_raise("TypeError", "len()")

def enum_of(E, v):
    """(n, key array, index function) enumerating a symbolic map or set"""
    dom = v.dom if isinstance(v, SMap) else v.mem
    dom_s = z3.simplify(dom)
    hit = E.enums.get(dom_s.get_id())
    if hit is not None and hit[3].eq(dom_s) and hit[4] <= len(E.facts) and all(E.fact_ids.get(f.get_id()) is not None for f in hit[5]):
        return hit[:3]
    ks = dom.sort().domain()
    n = E.const("card", IntS)
    keys = E.const("keys", z3.ArraySort(IntS, ks))
    idx = z3.Function(E.fresh_name("keyidx"), ks, IntS)
    j, x = z3.Int("j!"), z3.Const("x!", ks)
    fs = [n >= 0,
          z3.ForAll([j], Implies(And(j >= 0, j < n), And(dom[keys[j]], idx(keys[j]) == j)), patterns=[keys[j]]),
          z3.ForAll([x], Implies(dom[x], And(idx(x) >= 0, idx(x) < n, keys[idx(x)] == x)), patterns=[dom[x]])]
    for f in fs: E.fact(f)
    E.enums[dom_s.get_id()] = (n, keys, idx, dom_s, len(E.facts), fs)
    return n, keys, idx

def key_kind(v): return v.kk if isinstance(v, SMap) else v.kind

def map_view(E, what, d):
    v = d.v if isinstance(d, DictCell) else d
    if isinstance(v, CMap):
        return tuple(k if what == "keys" else x if what == "values" else (k, x) for k, x in v.items)
    n, keys, idx = enum_of(E, v)
    def get(j):
        key = v.kk.unpack(E, [keys[I(j)]])
        if what == "keys": return key
        ts = [z3.Select(a, keys[I(j)]) for a in v.vals]
        for w in v.vk.wf(E, ts): E.fact(w)
        val = v.vk.unpack(E, ts)
        return val if what == "values" else (key, val)
    return SeqView(n, get)

def seq_get(E, v, j):
    ts = [z3.Select(a, I(j)) for a in v.arrs]
    if isinstance(v.kind, (ObjK, Tup)) or v.kind in (STR, INT, NAT): ts = [known_element(E, t) for t in ts]
    for w in v.kind.wf(E, ts): E.fact(w)
    return v.kind.unpack(E, ts)

def known_element(E, t):
    """the element itself when a fact gives all elements of the array in closed form"""
    a, i = t.arg(0), t.arg(1)
    for f in E.facts:
        if not (z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1): continue
        b = f.body()
        if not z3.is_or(b) and not z3.is_implies(b): continue
        c = b.children()[-1]
        if not (z3.is_eq(c) and z3.is_app(c.arg(0)) and c.arg(0).decl().kind() == z3.Z3_OP_SELECT and c.arg(0).arg(0).eq(a) and z3.is_var(c.arg(0).arg(1))): continue
        inst = z3.simplify(z3.substitute_vars(b, i))
        E.fact(inst)
        r = z3.simplify(z3.substitute_vars(c.arg(1), i))
        ranges(E, r)
        if E.entails(t == r): return r
    return t

def ranges(E, t):
    """the ranges of the numbers read from bytes in a term"""
    if not z3.is_app(t): return
    nm = t.decl().name()
    if nm == "bat" or nm in ("le2", "le4", "le8", "le3"):
        E.fact(And(t >= 0, t < (256 if nm == "bat" else 2 ** (8 * int(nm[2:])))))
    for c in t.children(): ranges(E, c)

def iter_view(E, it):
    """tuple of elements, or a SeqView"""
    it = E.resolve(it)
    if isinstance(it, (tuple, list)): return it
    if isinstance(it, str): return tuple(it)
    if isinstance(it, bytes): return tuple(it)
    if isinstance(it, ListCell): it = it.v
    if isinstance(it, CSeq): return it.items
    if isinstance(it, SSeq): return SeqView(it.n, lambda j: seq_get(E, it, j))
    if isinstance(it, SeqView): return it
    if isinstance(it, SB): return SeqView(it.n, lambda j: byte_at(E, it, j))
    if isinstance(it, DictCell): return map_view(E, "keys", it)
    if isinstance(it, (CMap, SMap)): return map_view(E, "keys", it)
    if isinstance(it, MapView): return map_view(E, it.what, it.d)
    if isinstance(it, (SetCell, SSetV, CSetV)):
        v = it.v if isinstance(it, SetCell) else it
        if isinstance(v, CSetV):
            if len(v.items) > 1 and not all(isinstance(x, (int, str)) for x in v.items):
                out = []
                for x in v.items:
                    if not any(E.branch(E.eq(x, y), "dup") for y in out): out.append(x)
                return tuple(out)
            return tuple(dict.fromkeys(v.items)) if all(isinstance(x, (int, str)) for x in v.items) else v.items
        n, keys, idx = enum_of(E, v)
        return SeqView(n, lambda j: v.kind.unpack(E, [keys[I(j)]]))
    if isinstance(it, RangeV):
        lo, hi = conc(it.lo), conc(it.hi)
        if isinstance(lo, int) and isinstance(hi, int): return tuple(range(lo, hi)) if hi - lo <= getattr(E, "range_limit", 300) else SeqView(max(hi - lo, 0), lambda j: add(lo, j))
        return SeqView(imax(E, sub(hi, lo), 0), lambda j: add(lo, j))
    if isinstance(it, ZipV):
        vs = [iter_view(E, v) for v in it.views]
        if all(isinstance(v, (tuple, list)) for v in vs): return tuple(zip(*vs))
        vs = [SeqView(len(v), (lambda v: lambda j: pick(E, v, j))(v)) if isinstance(v, (tuple, list)) else v for v in vs]
        n = vs[0].n
        for v in vs[1:]: n = imin(E, n, v.n)
        return SeqView(n, lambda j: tuple(v.get(j) for v in vs))
    if isinstance(it, ClassV) and it.enum is not None:
        return tuple(E.class_lookup(it, nm)[1] for nm, _ in it.enum)
    if is_zstr(it): return SeqView(z3.Length(it), lambda j: z3.SubString(it, I(j), 1))
    if isinstance(it, Opq): 
        h = getattr(E, "opq_iter", None)
        if h: return h(E, it)
    if isinstance(it, (Obj, SObj)):
        m = E.find_method(it, "__iter__")
        if m: return iter_view(E, E.call(m, []))
    if isinstance(it, GenV):
        q = E.pure_gen_peek(it)
        if q is not None: return SeqView(q.m, q.elem)
        raise Unsupported("generator used as a sequence")
    if isinstance(it, FileV): raise Unsupported("iteration over a binary file")
    h = getattr(it, "iter_view", None)
    if h: return h(E)
    if it is None or isinstance(it, (int, bool, float)) or is_zint(it): E.py_raise("TypeError", "not iterable")
    raise Unsupported(f"iteration over {it!r}")

def pick(E, items, j):
    if isinstance(j, int): return items[j]
    raise Unsupported("symbolic index in a fixed tuple")

def seq_len(E, v):
    v = iter_view(E, v)
    return len(v) if isinstance(v, (tuple, list)) else v.n

def seq_drop(E, v, pos):
    v = iter_view(E, v)
    if isinstance(v, (tuple, list)) and isinstance(pos, int): return tuple(v[pos:])
    if isinstance(v, (tuple, list)): raise Unsupported("iterator position")
    return SeqView(imax(E, sub(v.n, pos), 0), lambda j: v.get(add(pos, j)))

def concrete_items(E, v):
    if isinstance(v, GenV):
        out = []
        v.used = True
        v.run(lambda x: out.append(x))
        return out
    r = iter_view(E, v)
    if isinstance(r, (tuple, list)): return r
    n = conc(r.n)
    if isinstance(n, int): return [r.get(j) for j in range(n)]
    raise Unsupported("a collection of unknown size is expanded")

def unpack_n(E, v, n, star=None):
    v = E.resolve(v)
    if isinstance(v, tuple): items = v
    elif isinstance(v, ListCell) and isinstance(v.v, CSeq): items = v.v.items
    else:
        r = iter_view(E, v)
        if isinstance(r, (tuple, list)): items = r
        elif star is None:
            if not E.branch(I(r.n) == n, "unpack-count"): E.py_raise("ValueError", "unpack")
            return [r.get(j) for j in range(n)]
        else:
            if not E.branch(I(r.n) >= n - 1, "unpack-count"): E.py_raise("ValueError", "unpack")
            head = [r.get(j) for j in range(star)]
            m = n - 1 - star
            mid = materialize(E, SeqView(sub(r.n, n - 1), lambda j: r.get(add(j, star))))
            return head + [ListCell(E, mid)] + [r.get(sub(r.n, m - j)) for j in range(m)]
    if star is None:
        if len(items) != n: E.py_raise("ValueError", "unpack")
        return list(items)
    if len(items) < n - 1: E.py_raise("ValueError", "unpack")
    m = n - 1 - star
    return list(items[:star]) + [ListCell(E, CSeq(items[star:len(items) - m]))] + list(items[len(items) - m:])

def materialize(E, view):
    """SeqView -> SSeq"""
    k = E.const("ix", IntS)
    p = E.pure_map(view.n, lambda kk: ("val", view.get(kk)))
    if p is None: raise Unsupported("sequence elements have no closed form")
    return comp_list(E, p)

# --------------------------------------------------------------------------- comprehension results

def comp_list(E, p):
    v = comp_view(E, p)
    kind = p.kind
    ident = getattr(p, "identity", None)
    if kind == BOT: return CSeq(())
    arrs = [E.const("comp", z3.ArraySort(IntS, s)) for s in kind.sorts()]
    j = z3.Int("j!")
    ts = v.terms(j)
    for a, t in zip(arrs, ts):
        pats = [z3.Select(a, j)]
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and z3.is_const(t.arg(0)):      # also from the element it is made of
            x = t
            while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and z3.is_const(x.arg(0)):
                if x.arg(1).eq(j): pats.append(x); break
                x = x.arg(1)
        if len(pats) == 1 and hasattr(v, "src"): pats.append(v.src[j])
        E.fact(z3.ForAll([j], Implies(And(j >= 0, j < I(v.m)), z3.Select(a, j) == t), patterns=pats))
    if hasattr(v, "src"): E.filtered[arrs[0].get_id()] = (arrs[0], v.src, v.pos)
    return SSeq(kind, v.m, arrs)

class CompView:
    def __init__(self, m, elem, terms): self.m, self.elem, self.terms = m, elem, terms

def comp_view(E, p):
    if p.total:
        return CompView(p.n, p.value, p.terms)
    m = E.const("kept", IntS)
    src = E.const("src", z3.ArraySort(IntS, IntS))
    pos = E.const("pos", z3.ArraySort(IntS, IntS))
    i, j = z3.Ints("i! j!")
    E.fact(And(m >= 0, m <= p.n))
    E.fact(z3.ForAll([j], Implies(And(j >= 0, j < m), And(src[j] >= 0, src[j] < p.n, p.keeps(src[j]), pos[src[j]] == j)), patterns=[src[j]]))
    E.fact(z3.ForAll([i, j], Implies(And(i >= 0, i < j, j < m), src[i] < src[j]), patterns=[mpat(src[i], src[j])]))
    pats = p_pats(p, i)
    E.fact(z3.ForAll([i], Implies(And(i >= 0, i < p.n, p.keeps(i)), And(pos[i] >= 0, pos[i] < m, src[pos[i]] == i)), patterns=[pos[i]] + pats))
    E.fact(Implies(m > 0, And(src[0] >= 0, src[0] < p.n)))
    terms = lambda t: p.terms(src[I(t)])
    def elem(t):
        ts = terms(t)
        for w in p.kind.wf(E, ts): E.fact(w)
        return p.kind.unpack(E, ts)
    cv = CompView(m, elem, terms)
    cv.src, cv.pos = src, pos
    return cv

def p_pats(p, i):
    """selects at index i usable as triggers"""
    out, seen = [], set()
    def walk(t):
        if t.get_id() in seen: return
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) and t.num_args() >= 1 and any(a.eq(i) for a in t.children()) and not has_ite(t):
                out.append(t)
                return
            for c in t.children(): walk(c)
    for t in p.terms(i) + [p.keeps(i)]: walk(t)
    return out[:4]

def has_ite(t):
    if z3.is_app(t):
        if t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_STORE): return True
        return any(has_ite(c) for c in t.children())
    return True

def comp_set(E, p):
    kind = p.kind
    if kind == BOT: return CSetV(())
    if len(kind.sorts()) != 1: raise Unsupported(f"set of {kind}")
    ks, = kind.sorts()
    mem = E.const("set", z3.ArraySort(ks, BoolS))
    wit = z3.Function(E.fresh_name("setwit"), ks, IntS)
    j, x = z3.Int("j!"), z3.Const("x!", ks)
    t, = p.terms(j)
    E.fact(forall([j], Implies(And(j >= 0, j < p.n, p.keeps(j)), mem[t]), [mem[t]] + p_pats(p, j) if not has_ite(t) else p_pats(p, j) or []) )
    tw, = p.terms(wit(x))
    E.fact(forall([x], Implies(mem[x], And(wit(x) >= 0, wit(x) < p.n, p.keeps(wit(x)), tw == x)), [mem[x]]))
    return SSetV(kind, mem)

def comp_dict(E, p):
    if p.kind == BOT: return CMap(())
    kk, vk = p.kind.ks
    if len(kk.sorts()) != 1: raise Unsupported(f"dictionary with {kk} keys")
    ks, = kk.sorts()
    dom = E.const("dom", z3.ArraySort(ks, BoolS))
    vals = [E.const("val", z3.ArraySort(ks, s)) for s in vk.sorts()]
    last = z3.Function(E.fresh_name("last"), ks, IntS)
    j, x = z3.Int("j!"), z3.Const("x!", ks)
    tj = p.terms(j)
    E.fact(forall([j], Implies(And(j >= 0, j < p.n, p.keeps(j)), And(dom[tj[0]], last(tj[0]) >= j)), [z3.Select(dom, tj[0])] + p_pats(p, j)))
    tw = p.terms(last(x))
    E.fact(forall([x], Implies(dom[x], And(last(x) >= 0, last(x) < p.n, p.keeps(last(x)), tw[0] == x, *[v[x] == t for v, t in zip(vals, tw[1:])])), [dom[x]]))
    return SMap(kk, vk, dom, vals)

def comp_any(E, p, want=True):
    """is there an index whose (kept) value is true"""
    j = z3.Int("j!")
    if not p.vals: return False
    if p.kind != BOOL:
        t = lambda i: B(E.truth(p.value(i)))
    else:
        t = lambda i: p.terms(i)[0]
    w = E.const("w", IntS)
    r = E.const("anyp", BoolS)
    hold = lambda i: And(i >= 0, i < p.n, p.keeps(i), t(i) if want else Not(t(i)))
    E.fact(Implies(r, hold(w)))
    E.fact(Implies(Not(r), z3.ForAll([j], Not(hold(j)))))
    return r


# --------------------------------------------------------------------------- indexing

def new_list(E, v): return ListCell(E, v)

def shift_arr(E, a, lo):
    """array whose element j is a[lo+j]"""
    lo = z3.simplify(I(lo))
    if z3.is_int_value(lo) and lo.as_long() == 0: return a
    s = a.sort().range()
    f = z3.Function(f"shift_{s.name() if not isinstance(s, z3.ArraySortRef) else s.sexpr()}", a.sort(), IntS, a.sort())
    key = f.name()
    if key not in E.axioms_done:
        E.axioms_done.add(key)
        x, l, j = z3.Const("a!", a.sort()), z3.Int("l!"), z3.Int("j!")
        E.axiom(z3.ForAll([x, l, j], z3.Select(f(x, l), j) == z3.Select(x, l + j), patterns=[z3.Select(f(x, l), j)]))
    return f(a, lo)

def index_of(E, i, n):
    """normalised index of a sequence of length n; IndexError when out of range"""
    i = E.to_int(i)
    if not is_intlike(i): E.py_raise("TypeError", "indices must be integers")
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n: E.py_raise("IndexError")
        return i % n
    if E.entails(And(I(i) >= 0, I(i) < I(n))): return i
    if isinstance(i, int):
        if i >= 0:
            if not E.branch(I(n) > i, "index"): E.py_raise("IndexError")
            return i
        if not E.branch(I(n) >= -i, "index"): E.py_raise("IndexError")
        return add(n, i)
    if E.branch(And(I(i) >= 0, I(i) < I(n)), "index"): return i
    if E.branch(And(I(i) < 0, I(i) >= -I(n)), "index-neg"): return add(n, i)
    E.py_raise("IndexError")

def map_key(E, v, key):
    """packed key, or None when a key of that type cannot be present"""
    try:
        return v.kk.pack(E, key)[0]
    except KindMismatch:
        if isinstance(key, SOpt) or v.kk == ANY: raise Unsupported("dictionary key kind")
        return None

def map_val(E, v, kt):
    ts = [z3.Select(a, kt) for a in v.vals]
    for w in v.vk.wf(E, ts): E.fact(w)
    return v.vk.unpack(E, ts)

def dict_find(E, d, key):
    """(found, value); forks as needed"""
    v = d.v if isinstance(d, DictCell) else d
    if isinstance(v, CMap):
        for k, x in reversed(v.items):
            e = E.eq(k, key)
            if e is True or (e is not False and E.branch(e, "key")): return True, x
        return False, None
    if v.kk == BOT: return False, None
    kt = map_key(E, v, key)
    if kt is None: return False, None
    if E.branch(v.dom[kt], "in-dict"): return True, map_val(E, v, kt)
    return False, None

def held(E, d, key, x):
    """a value found in a dictionary (or just put there), as something that can be modified in place"""
    if not isinstance(d, DictCell) or not isinstance(d.v, SMap): return x
    if isinstance(d.v.vk, SeqK) and not d.v.vk.tup and isinstance(x, (ListCell, SSeq, CSeq)) and _pygetattr(E, "live_map_lists", False):
        E.assumed.add("each list of a dictionary of lists is held by that dictionary alone")
        return MapList(E, d, key)
    if isinstance(x, (ListCell, DictCell, SetCell)): raise Unsupported("mutable value in a symbolic dictionary")
    return x

def hashable(E, key):
    if isinstance(key, (ListCell, DictCell, SetCell)): E.py_raise("TypeError", "unhashable")

def getitem(E, o, i):
    o = E.resolve(o)
    if not isinstance(i, slice): i = E.resolve(i)
    if isinstance(o, (ListCell, tuple, CSeq, SSeq)):
        v = o.v if isinstance(o, ListCell) else o
        wrap = (lambda x: ListCell(E, x)) if isinstance(o, ListCell) else (lambda x: tuple(x.items) if isinstance(x, CSeq) else x)
        if isinstance(v, (tuple, CSeq)):
            items = v if isinstance(v, tuple) else v.items
            if isinstance(i, slice):
                if all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)): return wrap(CSeq(items[i]))
                v = E.to_sseq(CSeq(items), E.join_all(items))
            else:
                i = E.to_int(i)
                if isinstance(i, int):
                    if not -len(items) <= i < len(items): E.py_raise("IndexError")
                    return items[i]
                if not is_zint(i): E.py_raise("TypeError", "indices must be integers")
                for q, x in enumerate(items):
                    if E.branch(Or(i == q, i == q - len(items)), "index"): return x
                E.py_raise("IndexError")
        if isinstance(i, slice):
            if i.step == -1 and i.start is None and i.stop is None: return wrap(reverse_seq(E, v))
            lo, n = slice_bounds(E, i, v.n)
            return wrap(SSeq(v.kind, I(n), [shift_arr(E, a, lo) for a in v.arrs], v.tup))
        j = index_of(E, i, v.n)
        return seq_get(E, v, j)
    if isinstance(o, str):
        if isinstance(i, slice) and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)): return o[i]
        if isinstance(i, int):
            if not -len(o) <= i < len(o): E.py_raise("IndexError")
            return o[i]
        o = S(o)
    if is_zstr(o):
        if isinstance(i, slice):
            cn = lambda x: x is None or isinstance(x, int) and not isinstance(x, bool) and x >= 0
            if i.step is None and cn(i.start) and cn(i.stop):      # str.substr clamps as slicing does
                a = i.start or 0
                return z3.SubString(o, a, z3.Length(o) if i.stop is None else max(0, i.stop - a))
            lo, n = slice_bounds(E, i, z3.Length(o))
            return z3.SubString(o, I(lo), I(n))
        return z3.SubString(o, I(index_of(E, i, z3.Length(o))), 1)
    if isinstance(o, bytes):
        if isinstance(i, slice):
            if all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)): return o[i]
        elif isinstance(i, int):
            if not -len(o) <= i < len(o): E.py_raise("IndexError")
            return o[i]
        o = as_sb(E, o)
    if isinstance(o, SB):
        if isinstance(i, slice): return sb_slice(E, o, i)
        return byte_at(E, o, index_of(E, i, o.n))
    if isinstance(o, (DictCell, CMap, SMap)):
        hashable(E, i)
        ok, x = dict_find(E, o, i)
        if ok: return held(E, o, i, x)
        if isinstance(o, DictCell) and o.default is not None:
            x = E.call(o.default, [])
            setitem(E, o, i, x)
            return held(E, o, i, x)
        E.py_raise("KeyError", i)
    if isinstance(o, RangeV):
        return add(o.lo, index_of(E, i, length(E, o)))
    if isinstance(o, (TypeV, ClassV, BuiltinV)) and not (isinstance(o, ClassV) and o.enum is not None): return o
    if isinstance(o, ClassV):
        if isinstance(i, str):
            if not any(n == i for n, _ in o.enum): E.py_raise("KeyError", i)
            return E.class_lookup(o, i)[1]
        raise Unsupported("enum by symbolic name")
    if is_rec(o): return rec_get(E, o, i)
    if isinstance(o, (Obj, SObj)):
        m = E.find_method(o, "__getitem__")
        if m: return E.call(m, [i])
    h = getattr(o, "getitem", None)
    if h: return h(E, i)
    if isinstance(o, Opq):
        h = getattr(E, "opq_getitem", None)
        if h: return h(E, o, i)
        raise Unsupported("item of an opaque value")
    E.py_raise("TypeError", "not subscriptable")

def reverse_seq(E, v):
    n = v.n
    out = []
    for a in v.arrs:
        f = z3.Function(f"rev_{a.sort().range().sexpr()}", a.sort(), IntS, a.sort())
        if f.name() not in E.axioms_done:
            E.axioms_done.add(f.name())
            x, l, j = z3.Const("a!", a.sort()), z3.Int("l!"), z3.Int("j!")
            E.axiom(z3.ForAll([x, l, j], z3.Select(f(x, l), j) == z3.Select(x, l - 1 - j), patterns=[z3.Select(f(x, l), j)]))
        out.append(f(a, I(n)))
    return SSeq(v.kind, n, out, v.tup)

def rec_has(E, o, i):
    i = E.resolve(i)
    if not isinstance(i, str): raise Unsupported("record key")
    v = E.heap_get(o, "has:" + i)
    return i in o.cls.keys if v is UNDEF else v

def rec_get(E, o, i):
    if not E.branch(rec_has(E, o, i), "in-record"): E.py_raise("KeyError", i)
    return E.heap_get(o, i)

def rec_method(E, o, name):
    if name == "get": return bi("dict.get", lambda i, d=None: E.heap_get(o, i) if E.branch(rec_has(E, o, i), "in-record") else d)
    if name == "pop":
        def pop(i, *d):
            if not E.branch(rec_has(E, o, i), "in-record"):
                if d: return d[0]
                E.py_raise("KeyError", i)
            v = E.heap_get(o, i)
            delitem(E, o, i)
            return v
        return bi("dict.pop", pop)
    if name == "setdefault":
        def setdefault(i, d=None):
            if not E.branch(rec_has(E, o, i), "in-record"): setitem(E, o, i, d)
            return E.heap_get(o, i)
        return bi("dict.setdefault", setdefault)
    if name in ("items", "keys", "values", "update", "copy", "clear"): raise Unsupported(f"{name} of a dictionary in a symbolic collection")
    E.py_raise("AttributeError", name)

def is_rec(o): return isinstance(o, SObj) and isinstance(o.cls, RecCls)

def setitem(E, o, i, x):
    o = E.resolve(o)
    if is_rec(o):
        i = E.resolve(i)
        if not isinstance(i, str): raise Unsupported("record key")
        key = (o.cls.name, "has:" + i)
        if key not in E.class_fields and i not in o.cls.keys:
            E.class_fields[key] = BOOL
            raise Restart()
        E.heap_set(o, i, x)
        if key in E.class_fields: E.heap_set(o, "has:" + i, True)
        return
    if isinstance(o, ListCell):
        v = o.v
        if isinstance(i, slice): raise Unsupported("slice assignment")
        i = E.resolve(i)
        if isinstance(v, CSeq) and isinstance(i, int):
            if not -len(v.items) <= i < len(v.items): E.py_raise("IndexError")
            items = list(v.items)
            items[i] = x
            return o.set("v", CSeq(items))
        if isinstance(v, CSeq): v = E.to_sseq(v, E.join_all(v.items))
        j = index_of(E, i, v.n)
        try:
            ts = v.kind.pack(E, x)
        except KindMismatch:
            k = join_kind(v.kind, E.kind_of(x))
            if k is None: raise Unsupported("list element kind")
            v = E.to_sseq(v, k)
            ts = k.pack(E, x)
        return o.set("v", SSeq(v.kind, v.n, [z3.Store(a, I(j), t) for a, t in zip(v.arrs, ts)], v.tup))
    if isinstance(o, DictCell):
        hashable(E, i)
        v = o.v
        if isinstance(v, SMap) and v.kk == BOT: v = CMap(())
        if isinstance(v, CMap):
            i = E.resolve(i)
            items = list(v.items)
            for q, (k, _) in enumerate(items):
                e = E.eq(k, i)
                if e is True or (e is not False and E.branch(e, "key")):
                    items[q] = (k, x)
                    return o.set("v", CMap(items))
            return o.set("v", CMap(items + [(i, x)]))
        try:
            kt, = v.kk.pack(E, i)
            ts = v.vk.pack(E, x)
        except KindMismatch:
            kk, vk = join_key(v.kk, E.kind_of(i)), join_kind(v.vk, E.kind_of(x))
            if kk is None or vk is None or len(kk.sorts()) != 1: raise Unsupported(f"dictionary of {v.kk}->{v.vk} receives {i!r}: {x!r}")
            v = widen_map(E, v, kk, vk)
            kt, = kk.pack(E, i)
            ts = vk.pack(E, x)
        return o.set("v", SMap(v.kk, v.vk, z3.Store(v.dom, kt, True), [z3.Store(a, kt, t) for a, t in zip(v.vals, ts)]))
    if isinstance(o, (Obj, SObj)):
        m = E.find_method(o, "__setitem__")
        if m: return E.call(m, [i, x])
    E.py_raise("TypeError", "item assignment")

def widen_map(E, v, kk, vk):
    if isinstance(kk, OptEnumK) and isinstance(v.kk, EnumK): v = SMap(kk, v.vk, v.dom, v.vals)      # same representation
    if v.vk == vk and v.kk == kk: return v
    if v.kk != kk: raise Unsupported("dictionary key kind changes")
    ks, = kk.sorts()
    q = z3.Const("x!", ks)
    vals = [E.const("mconv", z3.ArraySort(ks, s)) for s in vk.sorts()]
    ts = vk.pack(E, v.vk.unpack(E, [z3.Select(a, q) for a in v.vals]))
    for a, t in zip(vals, ts): E.fact(z3.ForAll([q], z3.Select(a, q) == t, patterns=[z3.Select(a, q)]))
    return SMap(kk, vk, v.dom, vals)

def delitem(E, o, i):
    o = E.resolve(o)
    if is_rec(o):
        if not E.branch(rec_has(E, o, i), "in-record"): E.py_raise("KeyError", i)
        key = (o.cls.name, "has:" + E.resolve(i))
        if key not in E.class_fields:
            E.class_fields[key] = BOOL
            raise Restart()
        return E.heap_set(o, "has:" + E.resolve(i), False)
    if isinstance(o, DictCell):
        v = o.v
        if isinstance(v, CMap):
            for q, (k, _) in enumerate(v.items):
                e = E.eq(k, i)
                if e is True or (e is not False and E.branch(e, "key")):
                    return o.set("v", CMap(v.items[:q] + v.items[q + 1:]))
            E.py_raise("KeyError", i)
        kt = map_key(E, v, i)
        if kt is None or not E.branch(v.dom[kt], "in-dict"): E.py_raise("KeyError", i)
        return o.set("v", SMap(v.kk, v.vk, z3.Store(v.dom, kt, False), v.vals))
    raise Unsupported("del item")

# --------------------------------------------------------------------------- operators

def mask_term(E, a, m):
    """a & m for a non-negative constant m"""
    if m == 0: return 0
    if m & (m + 1) == 0: return a % (m + 1)
    lo = (m & -m).bit_length() - 1
    if (m >> lo) & ((m >> lo) + 1) == 0:
        return ((a / (1 << lo)) % ((m >> lo) + 1)) * (1 << lo)
    out, bit = 0, 0
    while m >> bit:
        if (m >> bit) & 1:
            w = 0
            while (m >> (bit + w)) & 1: w += 1
            out = out + ((a / (1 << bit)) % (1 << w)) * (1 << bit)
            bit += w
        else: bit += 1
    return out

OPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow", ast.LShift: "lshift",
       ast.RShift: "rshift", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor", ast.Div: "truediv", ast.MatMult: "matmul"}

def int_op(E, name, a, b):
    if isinstance(a, int) and isinstance(b, int):
        import operator
        try:
            f = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "floordiv": operator.floordiv, "mod": operator.mod, "pow": operator.pow,
                 "lshift": operator.lshift, "rshift": operator.rshift, "and": operator.and_, "or": operator.or_, "xor": operator.xor, "truediv": operator.truediv}[name]
            return f(a, b)
        except ZeroDivisionError:
            E.py_raise("ZeroDivisionError")
    if name == "add": return add(a, b)
    if name == "sub": return sub(a, b)
    if name == "mul": return conc(I(a) * I(b))
    if name in ("floordiv", "mod"):
        if not isinstance(b, int):
            if E.branch(b == 0, "div0"): E.py_raise("ZeroDivisionError")
            if not E.entails(b > 0): raise Unsupported("division by a possibly negative number")
        elif b == 0: E.py_raise("ZeroDivisionError")
        elif b < 0: raise Unsupported("division by a negative number")
        return I(a) / I(b) if name == "floordiv" else I(a) % I(b)
    if name == "truediv":
        return Opq(fcall("float_div", I(a), I(b), ret=AnyS), "float")
    if name == "lshift" and isinstance(b, int): return I(a) * (1 << b)
    if name == "rshift" and isinstance(b, int): return I(a) / (1 << b)
    if name == "lshift" and isinstance(a, int):
        return pow2(E, b) if a == 1 else I(a) * pow2(E, b)
    if name == "rshift": return I(a) / pow2(E, b)
    if name == "and":
        if isinstance(a, int): a, b = b, a
        for x, y in ((a, b), (b, a)):     # single bits
            if is_z(y) and y.decl().name() == "pow2": return z3.If(fcall("bit", I(x), y.arg(0), ret=BoolS), y, 0)
        if b == 1 and isinstance(b, int) and z3.is_app_of(a, z3.Z3_OP_IDIV) and z3.is_app(a.arg(1)) and a.arg(1).decl().name() == "pow2":
            return z3.If(fcall("bit", a.arg(0), a.arg(1).arg(0), ret=BoolS), I(1), I(0))
        if isinstance(b, int) and b >= 0: return mask_term(E, a, b)
        return bit_uf(E, "band", a, b)
    if name == "or":
        for x, y in ((a, b), (b, a)):
            for w in (8, 16, 32, 4, 24, 1, 2):
                if E.entails(And(I(x) >= 0, I(x) < 2 ** w)):
                    if E.entails(I(y) % (2 ** w) == 0): return I(x) + I(y)
        return bit_uf(E, "bor", a, b)
    if name == "xor": return bit_uf(E, "bxor", a, b)
    if name == "pow" and isinstance(a, int) and a == 2: return pow2(E, b)
    raise Unsupported(f"integer {name}")

def pow2(E, b):
    if isinstance(b, int): return 1 << b
    f = z3.Function("pow2", IntS, IntS)
    if "pow2" not in E.axioms_done:
        E.axioms_done.add("pow2")
        x = z3.Int("x!")
        E.fact(f(0) == 1)
        E.axiom(z3.ForAll([x], Implies(x >= 0, f(x) >= 1), patterns=[f(x)]))
    return f(I(b))

def bit_uf(E, name, a, b):
    t = fcall(name, I(a), I(b))
    if name + "ax" not in E.axioms_done:
        E.axioms_done.add(name + "ax")
        x, y = z3.Ints("x! y!")
        f = z3.Function(name, IntS, IntS, IntS)
        E.axiom(z3.ForAll([x, y], f(x, y) == f(y, x), patterns=[f(x, y)]))
        E.axiom(z3.ForAll([x, y], Implies(And(x >= 0, y >= 0), f(x, y) >= 0), patterns=[f(x, y)]))
        for w in (8, 16, 32, 64):
            E.axiom(z3.ForAll([x, y], Implies(And(x >= 0, y >= 0, x < 2 ** w, y < 2 ** w), f(x, y) < 2 ** w), patterns=[f(x, y)]))
    return t

def binop(E, op, a, b):
    name = OPS[type(op)]
    a, b = E.resolve(a), E.resolve(b)
    if hasattr(a, "binop_"): return a.binop_(E, name, b)
    if isinstance(a, (Obj, SObj)) or isinstance(b, (Obj, SObj)):
        m = E.find_method(a, f"__{name}__") if isinstance(a, (Obj, SObj)) else None
        if m:
            r = E.call(m, [b])
            if r is not NOTIMPL: return r
        m = E.find_method(b, f"__r{name}__") if isinstance(b, (Obj, SObj)) else None
        if m: return E.call(m, [a])
        E.py_raise("TypeError", "unsupported operand")
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)) and name in ("and", "or", "xor"):
        if isinstance(a, bool) and isinstance(b, bool): return {"and": a and b, "or": a or b, "xor": a != b}[name]
        return And(B(a), B(b)) if name == "and" else Or(B(a), B(b)) if name == "or" else z3.Xor(B(a), B(b))
    ia, ib = E.to_int(a), E.to_int(b)
    if is_intlike(ia) and is_intlike(ib): return int_op(E, name, ia, ib)
    if isinstance(a, (float, int)) and isinstance(b, (float, int)):
        import operator
        return {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv}[name](a, b)
    if is_strlike(a):
        if name == "add" and (is_strlike(b)): return str_concat(E, [a, b])
        if name == "mod":
            args = b if isinstance(b, tuple) else (b,)
            if isinstance(a, str) and all(isinstance(x, (int, str)) for x in args): return a % args
            return percent_format(E, a, args)
        if name == "mul" and isinstance(a, str) and isinstance(b, int): return a * b
        if name == "add": E.py_raise("TypeError", "str + other")
    if isinstance(a, bytes) and name == "mod":
        args = b if isinstance(b, tuple) else (b,)
        r = percent_format(E, a.decode("latin-1"), args)
        if isinstance(r, str): return r.encode("latin-1")
        t = fcall("encode_utf8", S(r), ret=ByteS)
        E.byte_axioms()
        E.fact(blen(t) >= 0)
        return SB(t, z3.IntVal(0), blen(t))
    if isinstance(a, (bytes, SB)) and name == "add":
        if not isinstance(b, (bytes, SB)): E.py_raise("TypeError", "bytes + other")
        return bytes_cat(E, a, b)
    if isinstance(a, bytes) and name == "mul" and isinstance(b, int): return a * b
    if isinstance(a, bytes) and name == "mul" and is_zint(b) and len(a) == 1:
        t = fcall(f"bfill_{a[0]}", b, ret=ByteS)
        E.byte_axioms()
        E.fact(blen(t) == z3.If(b > 0, b, 0))
        j = z3.Int("j!")
        E.fact(z3.ForAll([j], Implies(And(j >= 0, j < b), bat(t, j) == a[0]), patterns=[bat(t, j)]))
        return SB(t, 0, blen(t))
    if isinstance(a, ListCell) and name == "add":
        if not isinstance(b, ListCell): E.py_raise("TypeError", "list + other")
        return ListCell(E, seq_concat(E, a.v, b.v))
    if isinstance(a, tuple) and isinstance(b, tuple) and name == "add": return a + b
    if isinstance(a, ListCell) and name == "mul" and isinstance(a.v, CSeq):
        if isinstance(b, int): return ListCell(E, CSeq(a.v.items * b))
        if len(a.v.items) == 1:
            k = E.kind_of(a.v.items[0])
            ts = k.pack(E, a.v.items[0])
            return ListCell(E, SSeq(k, imax(E, b, 0), [z3.K(IntS, t) for t in ts]))
    if isinstance(a, (SetCell, MapView)) and isinstance(b, (SetCell, MapView)) and name in ("or", "and", "sub", "xor"):
        return SetCell(E, set_op(E, name, set_value(E, a), set_value(E, b)))
    if isinstance(a, DictCell) and isinstance(b, DictCell) and name == "or":
        d = DictCell(E, a.v)
        dict_update(E, d, b)
        return d
    if isinstance(a, (Opq, float)) or isinstance(b, (Opq, float)):
        fl = lambda v: isinstance(v, float) or isinstance(v, Opq) and v.pytype == "float" or is_intlike(v)
        h = getattr(E, "opq_binop", None)
        if h:
            r = h(E, name, a, b)
            if r is not None: return r
        if fl(a) and fl(b): return Opq(fcall("float_" + name, E.box(a), E.box(b), ret=AnyS), "float")
        raise Unsupported("operator on an opaque value")
    h = getattr(a, "binop", None)
    if h: return h(E, name, b)
    E.py_raise("TypeError", f"unsupported operand {name}")

def percent_format(E, s, args):
    if not isinstance(s, str): raise Unsupported("symbolic format string")
    parts, i = [], 0
    for lit, spec in re.findall(r"([^%]+)|%(%|[0-9]*[sdrxX])", s):
        if lit: parts.append(lit)
        elif spec == "%": parts.append("%")
        else:
            x = args[i]; i += 1
            parts.append(fmt_value(E, x, "" if spec in "srd" else spec, 114 if spec == "r" else -1))
    return str_concat(E, parts)

def bytes_cat(E, a, b):
    if isinstance(a, bytes) and isinstance(b, bytes): return a + b
    if isinstance(a, bytes) and not a: return b
    if isinstance(b, bytes) and not b: return a
    if isinstance(a, SB) and isinstance(b, SB) and a.base.eq(b.base) and z3.simplify(I(a.start) + I(a.n)).eq(z3.simplify(I(b.start))):
        return SB(a.base, a.start, add(a.n, b.n))
    ta, tb = E.bseq(a), E.bseq(b)
    la = a.n if isinstance(a, SB) else len(a)
    lb = b.n if isinstance(b, SB) else len(b)
    t = bcat(ta, tb)
    E.fact(blen(t) == I(la) + I(lb))
    return SB(t, 0, add(la, lb))

def seq_concat(E, a, b):
    if isinstance(a, CSeq) and isinstance(b, CSeq): return CSeq(a.items + b.items)
    if isinstance(a, CSeq) and not a.items: return b
    if isinstance(b, CSeq) and not b.items: return a
    k = join_kind(E.kind_of(a).k, E.kind_of(b).k)
    if k is None: raise Unsupported("lists of different kinds are concatenated")
    a2, b2 = E.to_sseq(a, k), E.to_sseq(b, k)
    if isinstance(b, CSeq):
        arrs = list(a2.arrs)
        n = a2.n
        for x in b.items:
            arrs = [z3.Store(r, I(n), t) for r, t in zip(arrs, k.pack(E, x))]
            n = add(n, 1)
        return SSeq(k, n, arrs)
    return SSeq(k, add(a2.n, b2.n), [acat(E, x, a2.n, y, b2.n) for x, y in zip(a2.arrs, b2.arrs)])

def acat(E, x, n, y, m):
    f = z3.Function(f"acat_{x.sort().range().sexpr()}", x.sort(), IntS, x.sort(), x.sort())
    if f.name() not in E.axioms_done:
        E.axioms_done.add(f.name())
        a, b, l, j = z3.Const("a!", x.sort()), z3.Const("b!", x.sort()), z3.Int("l!"), z3.Int("j!")
        E.axiom(z3.ForAll([a, l, b, j], z3.Select(f(a, l, b), j) == z3.If(j < l, a[j], b[j - l]), patterns=[z3.Select(f(a, l, b), j)]))
        # elements of both parts are found in the result
        E.axiom(z3.ForAll([a, l, b, j], Implies(And(j >= 0, j < l), z3.Select(f(a, l, b), j) == a[j]), patterns=[mpat(f(a, l, b), a[j])]))
        E.axiom(z3.ForAll([a, l, b, j], Implies(j >= 0, z3.Select(f(a, l, b), l + j) == b[j]), patterns=[mpat(f(a, l, b), b[j])]))
    return f(x, I(n), y)

def set_value(E, v):
    if isinstance(v, SetCell): return v.v
    if isinstance(v, MapView):
        if v.what != "keys": raise Unsupported("set operation on dict items")
        d = v.d.v if isinstance(v.d, DictCell) else v.d
        if isinstance(d, CMap): return CSetV([k for k, _ in d.items])
        return SSetV(d.kk, d.dom)
    raise Unsupported("set operation")

def set_op(E, name, a, b):
    if isinstance(a, CSetV) and isinstance(b, CSetV) and all(isinstance(x, (int, str)) for x in a.items + b.items):
        A, Bb = list(dict.fromkeys(a.items)), list(dict.fromkeys(b.items))
        if name == "or": return CSetV(list(dict.fromkeys(A + Bb)))
        if name == "and": return CSetV([x for x in A if x in Bb])
        if name == "sub": return CSetV([x for x in A if x not in Bb])
    if name == "or" and isinstance(a, CSetV) and isinstance(b, CSetV): return CSetV(a.items + b.items)
    k = join_kind(E.kind_of(a).k, E.kind_of(b).k)
    if k == BOT: return CSetV(())
    if k is None: raise Unsupported("sets of different kinds")
    x, y = E.to_sset(a, k), E.to_sset(b, k)
    f = {"or": z3.SetUnion, "and": z3.SetIntersect, "sub": z3.SetDifference}.get(name)
    if f is None: raise Unsupported("set operation")
    return SSetV(k, f(x.mem, y.mem))

def inplace(E, op, cur, v):
    name = OPS[type(op)]
    if isinstance(cur, ListCell) and name == "add":
        list_extend(E, cur, v)
        return cur
    if isinstance(cur, SetCell) and name in ("or", "and", "sub"):
        cur.set("v", set_op(E, name, cur.v, set_value(E, E.resolve(v))))
        return cur
    if isinstance(cur, DictCell) and name == "or":
        dict_update(E, cur, v)
        return cur
    return NotImplemented

CMP = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}
REFL = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}

def compare(E, op, a, b):
    if isinstance(op, ast.Is): return E.identical(a, b)
    if isinstance(op, ast.IsNot): return neg(E.identical(a, b))
    if isinstance(op, ast.Eq): return E.eq(a, b)
    if isinstance(op, ast.NotEq):
        x = E.resolve(a)
        if isinstance(x, (Obj, SObj)):
            m = E.find_method(x, "__ne__")
            if m: return E.truth(E.call(m, [b]))
            a = x
        return neg(E.eq(a, b))
    if isinstance(op, ast.In): return contains(E, b, a)
    if isinstance(op, ast.NotIn): return neg(contains(E, b, a))
    return order(E, CMP[type(op)], E.resolve(a), E.resolve(b))

def neg(r):
    return (not r) if isinstance(r, bool) else z3.Not(r)

def order(E, name, a, b):
    if isinstance(a, (Obj, SObj)) or isinstance(b, (Obj, SObj)):
        m = E.find_method(a, f"__{name}__") if isinstance(a, (Obj, SObj)) else None
        if m:
            r = E.call(m, [b])
            if r is not NOTIMPL: return E.truth(r)
        m = E.find_method(b, f"__{REFL[name]}__") if isinstance(b, (Obj, SObj)) else None
        if m:
            r = E.call(m, [a])
            if r is not NOTIMPL: return E.truth(r)
        E.py_raise("TypeError", "unorderable")
    a, b = E.to_int(a), E.to_int(b)
    if is_intlike(a) and is_intlike(b) or isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if not is_z(a) and not is_z(b): return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[name]
        x, y = I(a), I(b)
        return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[name]
    if is_strlike(a) and is_strlike(b):
        if isinstance(a, str) and isinstance(b, str): return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[name]
        x, y = S(a), S(b)
        return {"lt": x < y, "le": x <= y, "gt": y < x, "ge": y <= x}[name]
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tuple_order(E, name, a, b)
    if isinstance(a, (SSeq, tuple)) and isinstance(b, (SSeq, tuple)):
        sa, sb_ = (E.to_sseq(CSeq(x), E.join_all(x)) if isinstance(x, tuple) else x for x in (a, b))
        if not {sa.kind, sb_.kind} <= {INT, NAT}: raise Unsupported("order of sequences")
        lt, same = lex(E, (I(sa.n), sa.arrs[0]), (I(sb_.n), sb_.arrs[0]))
        return {"lt": lt, "le": Or(lt, same), "ge": Not(lt), "gt": Not(Or(lt, same))}[name]
    if isinstance(a, (SetCell,)) and isinstance(b, SetCell):
        if name in ("ge", "gt"): a, b, name = b, a, REFL[name]
        if name == "le": return subset(E, a.v, b.v)
    if isinstance(a, Opq) and isinstance(b, Opq) or isinstance(a, (Opq, float)) and (isinstance(b, (Opq, float)) or is_intlike(b)):
        return fcall("float_" + name, E.box(a), E.box(b), ret=BoolS)
    if is_intlike(a) and isinstance(b, (Opq, float)):
        return fcall("float_" + name, E.box(a), E.box(b), ret=BoolS)
    if isinstance(a, (bytes, SB)) and isinstance(b, (bytes, SB)): raise Unsupported("order of bytes")
    E.py_raise("TypeError", "unorderable")

def tuple_order(E, name, a, b):
    strict = name[0]
    n = min(len(a), len(b))
    # value when all common elements are equal
    out = B({"lt": len(a) < len(b), "le": len(a) <= len(b), "gt": len(a) > len(b), "ge": len(a) >= len(b)}[name])
    for x, y in list(zip(a, b))[::-1]:
        e = E.eq(x, y)
        if e is True: continue
        lt = order(E, "lt" if name in ("lt", "le") else "gt", E.resolve(x), E.resolve(y)) if e is not True else False
        out = Or(And(Not(B(e)) if not isinstance(e, bool) else B(not e), B(lt)), And(B(e), out))
    out = z3.simplify(out)
    return True if z3.is_true(out) else False if z3.is_false(out) else out

def subset(E, a, b):
    k = join_kind(E.kind_of(a).k, E.kind_of(b).k)
    if k == BOT: return True
    if isinstance(a, CSetV): return E.all_([set_has(E, b, x) for x in a.items])
    return z3.IsSubset(E.to_sset(a, k).mem, E.to_sset(b, k).mem)

def set_has(E, v, x):
    if isinstance(v, CSetV):
        return any_([E.eq(x, y) for y in v.items])
    if v.kind == BOT: return False
    if isinstance(x, SOpt) and not isinstance(v.kind, Opt): return And(Not(x.isnone), B(set_has(E, v, x.val)))
    try:
        return v.mem[v.kind.pack(E, x)[0]]
    except KindMismatch:
        return False

def any_(xs):
    if any(x is True for x in xs): return True
    xs = [x for x in xs if x is not False]
    return Or(*xs) if xs else False

def seq_mem(E, v, x):
    """x in sequence (symbolic length), as a term over the sequence's arrays"""
    if v.kind == BOT: return False
    try:
        ts = v.kind.pack(E, x)
    except KindMismatch:
        return False
    nm = "mem_" + "_".join(a.sort().range().sexpr() for a in v.arrs)
    sorts = [a.sort() for a in v.arrs] + [IntS] + [t.sort() for t in ts]
    f = z3.Function(nm, *sorts, BoolS)
    w = z3.Function(nm + "_wit", *sorts, IntS)
    if nm not in E.axioms_done:
        E.axioms_done.add(nm)
        A = [z3.Const(f"a{i}!", a.sort()) for i, a in enumerate(v.arrs)]
        X = [z3.Const(f"x{i}!", t.sort()) for i, t in enumerate(ts)]
        n, j = z3.Ints("n! j!")
        ap, wp = f(*A, n, *X), w(*A, n, *X)
        E.axiom(z3.ForAll(A + [n] + X, Implies(ap, And(wp >= 0, wp < n, *[z3.Select(a, wp) == q for a, q in zip(A, X)])), patterns=[ap]))
        E.axiom(z3.ForAll(A + [n] + X + [j], Implies(And(j >= 0, j < n, *[z3.Select(a, j) == q for a, q in zip(A, X)]), ap), patterns=[mpat(ap, z3.Select(A[0], j))]))
    return f(*v.arrs, I(v.n), *ts)

def contains(E, c, x):
    c = E.resolve(c)
    if is_rec(c): return rec_has(E, c, x)
    if isinstance(c, (DictCell, CMap, SMap)) or isinstance(c, MapView) and c.what == "keys":
        if isinstance(c, MapView): c = c.d
        v = c.v if isinstance(c, DictCell) else c
        if isinstance(v, CMap): return any_([E.eq(x, k) for k, _ in v.items])
        if v.kk == BOT: return False
        if isinstance(x, SOpt) and not isinstance(v.kk, Opt):
            try:
                return And(Not(x.isnone), v.dom[v.kk.pack(E, x.val)[0]])
            except KindMismatch:
                return False
        try:
            return v.dom[v.kk.pack(E, x)[0]]
        except KindMismatch:
            return False
    if isinstance(c, (SetCell, CSetV, SSetV)): return set_has(E, c.v if isinstance(c, SetCell) else c, x)
    if is_strlike(c):
        x = E.resolve(x)
        if not is_strlike(x): E.py_raise("TypeError", "in str")
        if isinstance(c, str) and isinstance(x, str): return x in c
        return z3.Contains(S(c), S(x))
    if isinstance(c, ListCell): c = c.v
    if isinstance(c, CSeq): c = c.items
    if isinstance(c, tuple): return any_([E.eq(x, y) for y in c])
    if isinstance(c, SSeq):
        if isinstance(x, SOpt) and not isinstance(c.kind, Opt): return And(Not(x.isnone), B(seq_mem(E, c, x.val)))
        return seq_mem(E, c, x)
    if isinstance(c, RangeV):
        x = E.resolve(x)
        return And(I(x) >= I(c.lo), I(x) < I(c.hi)) if is_intlike(x) else False
    if isinstance(c, (bytes, SB)):
        x = E.resolve(x)
        if isinstance(c, bytes) and isinstance(x, (bytes, int)): return x in c
        raise Unsupported("in bytes")
    if isinstance(c, (Obj, SObj)):
        m = E.find_method(c, "__contains__")
        if m: return E.truth(E.call(m, [x]))
        m = E.find_method(c, "__iter__")
        if m: return contains(E, E.call(m, []), x)
    if isinstance(c, GenV):
        q = E.pure_gen_peek(c)
        if q is not None:
            raise Unsupported("in generator")
        raise Unsupported("in generator")
    h = getattr(c, "contains", None)
    if h: return h(E, x)
    v = iter_view(E, c)
    if isinstance(v, (tuple, list)): return any_([E.eq(x, y) for y in v])
    raise Unsupported(f"in {c!r}")

# --------------------------------------------------------------------------- collections

def widen_seq(E, v, x):
    """(sequence, packed x) after joining element kinds"""
    if isinstance(v, CSeq):
        v2 = None
        k = E.join_all(v.items + (x,))
        if k is None: raise Unsupported("list element kinds")
        v2 = E.to_sseq(v, k)
        return v2, k.pack(E, x)
    try:
        if v.kind != BOT: return v, v.kind.pack(E, x)
    except KindMismatch:
        pass
    k = join_kind(v.kind, E.kind_of(x))
    if k is None: raise Unsupported(f"list of {v.kind} receives {x!r}")
    v = E.to_sseq(v, k)
    return v, k.pack(E, x)

def list_append(E, l, x):
    v = l.v
    if isinstance(v, CSeq):
        if len(v.items) > 500: raise Unsupported("list too long")
        return l.set("v", CSeq(v.items + (x,)))
    v, ts = widen_seq(E, v, x)
    w = SSeq(v.kind, add(v.n, 1), [z3.Store(a, I(v.n), t) for a, t in zip(v.arrs, ts)])
    if E.track_join and v.kind == STR: E.fact(joined_text(w.arrs[0], w.n) == z3.Concat(joined_text(v.arrs[0], v.n), ts[0]))
    l.set("v", w)

def joined_text(arr, n):
    """the texts of a list one after the other (where a contract asks for it: unfolded as elements are appended)"""
    return z3.Function("joined_text", arr.sort(), IntS, StrS)(arr, z3.simplify(I(n)))

def list_extend(E, l, it):
    it = E.resolve(it)
    if isinstance(it, GenV):
        p = E.pure_gen(it)
        if p is not None: it = ListCell(E, comp_list(E, p))
        else: return E.iterate(it, lambda x: list_append(E, l, x))
    if isinstance(it, IterCell): it = ListCell(E, as_seq(E, it))
    v = it.v if isinstance(it, ListCell) else it if isinstance(it, (SSeq, CSeq)) else None
    if v is None:
        v = as_seq(E, it)
    l.set("v", seq_concat(E, l.v, v))

def as_seq(E, it):
    """content of an iterable as CSeq or SSeq"""
    it = E.resolve(it)
    if isinstance(it, ListCell): return it.v
    if isinstance(it, (CSeq, SSeq)): return it
    if isinstance(it, tuple): return CSeq(it)
    if isinstance(it, GenV):
        p = E.pure_gen(it)
        if p is not None: return comp_list(E, p)
        out = ListCell(E, CSeq(()))
        E.iterate(it, lambda x: list_append(E, out, x))
        return out.v
    if isinstance(it, IterCell):
        n = seq_len(E, it.seq)
        r = seq_drop(E, it.seq, it.slots["pos"])
        it.set("pos", n)
        return CSeq(r) if isinstance(r, (tuple, list)) else materialize(E, r)
    v = iter_view(E, it)
    if isinstance(v, (tuple, list)): return CSeq(v)
    return materialize(E, v)

def set_add(E, s, x):
    x = E.resolve(x)
    hashable(E, x)
    v = s.v
    if isinstance(v, SSetV) and v.kind == BOT: v = CSetV(())
    if isinstance(v, CSetV):
        if any(E.eq(x, y) is True for y in v.items): return
        return s.set("v", CSetV(v.items + (x,)))
    try:
        t, = v.kind.pack(E, x)
    except KindMismatch:
        raise Unsupported(f"set of {v.kind} receives {x!r}")
    s.set("v", SSetV(v.kind, z3.Store(v.mem, t, True)))

def to_set(E, it):
    it = E.resolve(it)
    if isinstance(it, SetCell): return it.v
    if isinstance(it, (DictCell, MapView)) and not (isinstance(it, MapView) and it.what != "keys"):
        return set_value(E, it if isinstance(it, MapView) else MapView("keys", it))
    if isinstance(it, GenV):
        p = E.pure_gen(it)
        if p is not None: return comp_set(E, p)
        s = SetCell(E, CSetV(()))
        E.iterate(it, lambda x: set_add(E, s, x))
        return s.v
    v = as_seq(E, it)
    if isinstance(v, CSeq):
        s = SetCell(E, CSetV(()))
        for x in v.items: set_add(E, s, x)
        return s.v
    if v.kind == BOT: return CSetV(())
    if len(v.kind.sorts()) != 1: raise Unsupported(f"set of {v.kind}")
    ks, = v.kind.sorts()
    a = v.arrs[0]
    f = z3.Function(f"setof_{ks.sexpr()}", a.sort(), IntS, z3.ArraySort(ks, BoolS))
    w = z3.Function(f"setof_{ks.sexpr()}_wit", a.sort(), IntS, ks, IntS)
    if f.name() not in E.axioms_done:
        E.axioms_done.add(f.name())
        A, n, j, x = z3.Const("a!", a.sort()), z3.Int("n!"), z3.Int("j!"), z3.Const("x!", ks)
        E.axiom(z3.ForAll([A, n, x], Implies(f(A, n)[x], And(w(A, n, x) >= 0, w(A, n, x) < n, A[w(A, n, x)] == x)), patterns=[f(A, n)[x]]))
        E.axiom(z3.ForAll([A, n, j], Implies(And(j >= 0, j < n), f(A, n)[A[j]]), patterns=[mpat(f(A, n), A[j])]))
    return SSetV(v.kind, f(a, I(v.n)))

def dict_update(E, d, src):
    src = E.resolve(src)
    if isinstance(src, DictCell): src = src.v
    if isinstance(src, CMap):
        for k, x in src.items: setitem(E, d, k, x)
        return
    if isinstance(src, SMap):
        v = d.v
        if isinstance(v, CMap) and not v.items: return d.set("v", src)
        if isinstance(v, CMap): v = E.to_smap(v, src.kk, src.vk)
        if v.kk != src.kk or v.vk != src.vk: raise Unsupported("dict.update of different kinds")
        ks, = v.kk.sorts()
        x = z3.Const("x!", ks)
        vals = [E.const("upd", a.sort()) for a in v.vals]
        for r, p, q in zip(vals, v.vals, src.vals):
            E.fact(z3.ForAll([x], r[x] == z3.If(src.dom[x], q[x], p[x]), patterns=[r[x]]))
        return d.set("v", SMap(v.kk, v.vk, z3.SetUnion(v.dom, src.dom), vals))
    if isinstance(src, MapView) and src.what == "items": return dict_update(E, d, src.d)
    if isinstance(src, (Opq,)): raise Unsupported("update from an opaque value")
    E.iterate(src, lambda kv: setitem(E, d, *unpack_n(E, kv, 2)))

def opq_eq(E, a, b):
    ta, tb = E.box(a), E.box(b)
    return ta == tb

def coll_eq(E, a, b):
    va = a.v if isinstance(a, (ListCell, SetCell, DictCell)) else a
    vb = b.v if isinstance(b, (ListCell, SetCell, DictCell)) else b
    if isinstance(a, ListCell) != isinstance(b, ListCell) and (isinstance(a, (ListCell, tuple)) and isinstance(b, (ListCell, tuple))): return False
    if isinstance(va, tuple): va = CSeq(va)
    if isinstance(vb, tuple): vb = CSeq(vb)
    if isinstance(va, CSeq) and isinstance(vb, CSeq):
        if len(va.items) != len(vb.items): return False
        return E.all_([E.eq(x, y) for x, y in zip(va.items, vb.items)])
    if isinstance(va, (CSeq, SSeq)) and isinstance(vb, (CSeq, SSeq)):
        if isinstance(va, SSeq): va, vb = vb, va
        if isinstance(va, CSeq):
            n = len(va.items)
            if vb.kind == BOT: return n == 0
            return And(I(vb.n) == n, *[B(E.eq(x, seq_get(E, vb, i))) for i, x in enumerate(va.items)])
        if va.kind != vb.kind: raise Unsupported("equality of lists of different kinds")
        if all(x.eq(y) for x, y in zip(va.arrs, vb.arrs)) : return I(va.n) == I(vb.n)
        j = z3.Int("j!")
        r = E.const("seqeq", BoolS)
        w = E.const("diff", IntS)
        same = lambda i: And(*[x[i] == y[i] for x, y in zip(va.arrs, vb.arrs)])
        E.fact(Implies(r, And(I(va.n) == I(vb.n), z3.ForAll([j], Implies(And(j >= 0, j < I(va.n)), same(j)), patterns=[va.arrs[0][j], vb.arrs[0][j]]))))
        E.fact(Implies(Not(r), Or(I(va.n) != I(vb.n), And(w >= 0, w < I(va.n), Not(same(w))))))
        return r
    if isinstance(va, (CSetV, SSetV)) and isinstance(vb, (CSetV, SSetV)):
        if isinstance(va, CSetV) and isinstance(vb, CSetV):
            return E.all_([B(set_has(E, vb, x)) for x in va.items] + [B(set_has(E, va, x)) for x in vb.items]) if va.items or vb.items else True
        if isinstance(va, CSetV) and not va.items: return neg(E.truth(SetCell(E, vb)))
        if isinstance(vb, CSetV) and not vb.items: return neg(E.truth(SetCell(E, va)))
        k = join_kind(E.kind_of(va).k, E.kind_of(vb).k)
        return E.to_sset(va, k).mem == E.to_sset(vb, k).mem
    if isinstance(va, (CMap, SMap)) and isinstance(vb, (CMap, SMap)):
        if isinstance(va, CMap) and isinstance(vb, CMap) and len(va.items) != len(vb.items): return False
        raise Unsupported("equality of dictionaries")
    return None

# --------------------------------------------------------------------------- enums

def enum_values(E, c):
    """[(name, value)] of an enum class"""
    out = getattr(c, "enumvals", None)
    if out is None:
        out = []
        for nm, ex in c.exprs.items():
            if nm.startswith("_"): continue
            fr = E.new_frame(c.mod, c.frame, c.name, set())
            E.frames.append(fr)
            try:
                v = E.eval(ex)
            finally:
                E.frames.pop()
            out.append((nm, v))
        c.enumvals = out
    return out

def enum_from_value(E, c, x):
    x = E.resolve(x)
    vals = enum_values(E, c)
    if isinstance(x, EnumVal) and x.cls is c: return x
    if not is_z(x):
        for i, (nm, v) in enumerate(vals):
            if v == x: return EnumVal(c, i)
        E.py_raise("ValueError", "enum")
    eqs = [B(E.eq(x, v)) for _, v in vals]
    if not E.branch(Or(*eqs), "enum-member"): E.py_raise("ValueError", "enum")
    t = fcall(f"enumidx_{c.name}", x)
    E.fact(And(t >= 0, t < len(vals)))
    for i, e in enumerate(eqs): E.fact((t == i) == e if not any(e.eq(f) for f in eqs[:i]) else Implies(t == i, e))
    return EnumVal(c, t)

def enum_eq(E, a, b):
    if isinstance(a, EnumVal) and isinstance(b, EnumVal):
        if a.cls is not b.cls and a.cls.name != b.cls.name: return False
        if isinstance(a.t, int) and isinstance(b.t, int): return a.t == b.t
        return I(a.t) == I(b.t)
    e, o = (a, b) if isinstance(a, EnumVal) else (b, a)
    m = E.find_method(e, "__eq__")
    if m: return E.truth(E.call(m, [o]))
    if getattr(e.cls, "intenum", False): return E.eq(enum_value(E, e), o)
    return False

def enum_value(E, v):
    vals = enum_values(E, v.cls)
    if isinstance(v.t, int): return vals[v.t][1]
    ts = [x for _, x in vals]
    if all(isinstance(x, int) for x in ts):
        out = I(ts[-1])
        for i, x in list(enumerate(ts))[:-1][::-1]: out = z3.If(v.t == i, I(x), out)
        return out
    if all(isinstance(x, str) for x in ts):
        out = S(ts[-1])
        for i, x in list(enumerate(ts))[:-1][::-1]: out = z3.If(v.t == i, S(x), out)
        return out
    for i, x in enumerate(ts):
        if E.branch(v.t == i, "enum"): return x
    raise PathEnd()

def enum_int(E, v): return enum_value(E, v)

def enum_name(E, v):
    vals = enum_values(E, v.cls)
    if isinstance(v.t, int): return vals[v.t][0]
    out = S(vals[-1][0])
    for i, (x, _) in list(enumerate(vals))[:-1][::-1]: out = z3.If(v.t == i, S(x), out)
    return out

def truth(E, v):
    if isinstance(v, Opq): return fcall("truthy", v.t, ret=BoolS)
    if isinstance(v, (MapView, RangeV)): 
        n = length(E, v)
        return n > 0
    if isinstance(v, Cell) or not is_z(v): return True
    raise Unsupported(f"truth of {v!r}")

def obj_attr(E, o, name):
    if name == "__dict__": raise Unsupported("__dict__")
    return None

def obj_truth(E, o): return None

# --------------------------------------------------------------------------- methods of builtin types

def bi(name, f):
    return BuiltinV(name, lambda E, a, k: f(*a, **k))

def getattr_(E, o, name):
    import builtins
    _ga = builtins.getattr
    if is_strlike(o):
        m = str_method(E, o, name)
        if m is not None: return m
        E.py_raise("AttributeError", name)
    if isinstance(o, (bytes, SB)): return bytes_method(E, o, name)
    if isinstance(o, ListCell): return list_method(E, o, name)
    if isinstance(o, DictCell): return dict_method(E, o, name)
    if isinstance(o, SetCell): return set_method(E, o, name)
    if isinstance(o, FileV): return file_method(E, o, name)
    if isinstance(o, LoggerV):
        b = BuiltinV("log", lambda E, a, k: None)
        b.log = True
        return b
    if isinstance(o, EnumVal):
        if name == "value": return enum_value(E, o)
        if name == "name": return enum_name(E, o)
        if name == "__class__": return o.cls
        m = E.find_method(o, name)
        if m: return m
        ok, v = E.class_lookup(o.cls, name)
        if ok:
            if isinstance(v, Wrap) and v.kind == "property": return E.call(v.fn, [o])
            return v
    if isinstance(o, (tuple, SSeq)):
        if name == "index": return list_method(E, o, name)
    if isinstance(o, TypeV):
        f = TYPE_ATTRS.get((o.name, name))
        if f: return BuiltinV(f"{o.name}.{name}", f)
        if name == "__name__": return o.name
    if isinstance(o, (ExcV, SymExc)):
        if name == "errno": return E.const("errno", IntS) if isinstance(o, SymExc) else o.attrs.get("errno", o.args[0] if o.args else None)
        if name == "args" and isinstance(o, ExcV): return tuple(o.args)
    if isinstance(o, BuiltinV):
        full = f"{o.name}.{name}"
        if full in E.externals: return BuiltinV(full, E.externals[full])
        if full in BUILTIN_EXC: return TypeV(full)
        if name == "__name__": return o.name
        raise Unsupported(f"no model of {full}")
    if isinstance(o, FuncV):
        if name == "__name__": return o.name.split(".")[-1]
    h = _ga(o, "attr", None)
    if h:
        r = h(E, name)
        if r is not NotImplemented: return r
    if isinstance(o, Opq):
        h = _ga(E, "opq_attr", None)
        if h:
            r = h(E, o, name)
            if r is not None: return r
        raise Unsupported(f"attribute {name} of an opaque value")
    if o is None or is_intlike(o) or isinstance(o, (bool, float, tuple)):
        if is_intlike(o) and name == "to_bytes": raise Unsupported("int.to_bytes")
        E.py_raise("AttributeError", name)
    raise Unsupported(f"attribute {name} of {o!r}")

def list_method(E, l, name):
    v0 = l.v if isinstance(l, ListCell) else l
    def m(f): return BuiltinV("list." + name, lambda E, a, k: f(*a, **k))
    if name == "append": return m(lambda x: list_append(E, l, x))
    if name == "extend": return m(lambda it: list_extend(E, l, it))
    if name == "copy": return m(lambda: ListCell(E, l.v))
    if name == "clear": return m(lambda: l.set("v", CSeq(())))
    if name == "reverse": return m(lambda: l.set("v", CSeq(l.v.items[::-1]) if isinstance(l.v, CSeq) else reverse_seq(E, l.v)))
    if name == "pop":
        def pop(i=-1):
            v = l.v
            if isinstance(v, CSeq):
                if not v.items: E.py_raise("IndexError")
                items = list(v.items)
                if not isinstance(i, int): raise Unsupported("pop")
                x = items.pop(i)
                l.set("v", CSeq(items))
                return x
            if i != -1: raise Unsupported("pop(index) of a symbolic list")
            if not E.branch(I(v.n) > 0, "pop"): E.py_raise("IndexError")
            x = seq_get(E, v, sub(v.n, 1))
            l.set("v", SSeq(v.kind, sub(v.n, 1), v.arrs))
            return x
        return m(pop)
    if name == "insert":
        def insert(i, x):
            v = l.v
            if isinstance(v, CSeq) and isinstance(i, int):
                items = list(v.items)
                items.insert(i, x)
                return l.set("v", CSeq(items))
            if i == 0: return l.set("v", seq_concat(E, CSeq((x,)), v))
            raise Unsupported("insert")
        return m(insert)
    if name == "sort":
        return m(lambda key=None, reverse=False: l.set("v", sort_seq(E, l.v, key, reverse)))
    if name == "index":
        def index(x):
            v = v0
            if isinstance(v, (tuple, CSeq)):
                for i, y in enumerate(v if isinstance(v, tuple) else v.items):
                    if E.branch(E.eq(x, y), "index"): return i
                E.py_raise("ValueError")
            raise Unsupported("index in a symbolic list")
        return m(index)
    if name == "remove":
        def remove(x):
            if isinstance(l.v, CSeq):
                for i, y in enumerate(l.v.items):
                    if E.branch(E.eq(x, y), "remove"): return l.set("v", CSeq(l.v.items[:i] + l.v.items[i + 1:]))
                E.py_raise("ValueError")
            raise Unsupported("remove from a symbolic list")
        return m(remove)
    E.py_raise("AttributeError", name)

def dict_method(E, d, name):
    def m(f): return BuiltinV("dict." + name, lambda E, a, k: f(*a, **k))
    if name in ("items", "keys", "values"): return m(lambda: MapView(name, d))
    if name == "get":
        def get(key, default=None):
            hashable(E, key)
            v = d.v
            if isinstance(v, SMap) and v.kk != BOT and default is None and v.vk != NONE and not isinstance(v.vk, Opt):
                key = E.resolve(key)
                kt = map_key(E, v, key)
                if kt is None: return None
                return SOpt(Not(v.dom[kt]), map_val(E, v, kt))
            ok, x = dict_find(E, d, E.resolve(key))
            return x if ok else default
        return m(get)
    if name == "setdefault":
        def setdefault(key, default=None):
            ok, x = dict_find(E, d, key)
            if ok: return held(E, d, key, x)
            setitem(E, d, key, default)
            return held(E, d, key, default)
        return m(setdefault)
    if name == "pop":
        def pop(key, *default):
            ok, x = dict_find(E, d, key)
            if ok:
                delitem(E, d, key)
                return x
            if default: return default[0]
            E.py_raise("KeyError", key)
        return m(pop)
    if name == "update":
        def update(*src, **kw):
            for s in src: dict_update(E, d, s)
            for k, x in kw.items(): setitem(E, d, k, x)
        return m(update)
    if name == "copy": return m(lambda: DictCell(E, d.v, default=d.default))
    if name == "clear": return m(lambda: d.set("v", CMap(())))
    E.py_raise("AttributeError", name)

def set_method(E, s, name):
    def m(f): return BuiltinV("set." + name, lambda E, a, k: f(*a, **k))
    if name == "add": return m(lambda x: set_add(E, s, x))
    if name == "update":
        def update(*its):
            for it in its: s.set("v", set_op(E, "or", s.v, to_set(E, it)))
        return m(update)
    if name in ("discard", "remove"):
        def discard(x):
            v = s.v
            has = set_has(E, v, x)
            if name == "remove" and not E.branch(has, "remove"): E.py_raise("KeyError", x)
            if isinstance(v, CSetV):
                return s.set("v", CSetV([y for y in v.items if not E.branch(E.eq(x, y), "discard")]))
            if has is False: return
            s.set("v", SSetV(v.kind, z3.Store(v.mem, v.kind.pack(E, x)[0], False)))
        return m(discard)
    if name in ("union", "intersection", "difference"):
        op = {"union": "or", "intersection": "and", "difference": "sub"}[name]
        def f(*its):
            v = s.v
            for it in its: v = set_op(E, op, v, to_set(E, it))
            return SetCell(E, v)
        return m(f)
    if name in ("difference_update", "intersection_update"):
        op = {"intersection_update": "and", "difference_update": "sub"}[name]
        return m(lambda it: s.set("v", set_op(E, op, s.v, to_set(E, it))))
    if name == "copy": return m(lambda: SetCell(E, s.v))
    if name == "clear": return m(lambda: s.set("v", CSetV(())))
    if name == "issubset": return m(lambda it: subset(E, s.v, to_set(E, it)))
    if name == "pop":
        def pop():
            view = iter_view(E, s)
            if isinstance(view, (tuple, list)):
                if not view: E.py_raise("KeyError", "pop")
                j = E.choose("pop", [(str(q), None) for q in range(len(view))])
                s.set("v", CSetV(tuple(y for q, y in enumerate(view) if q != j)))
                return view[j]
            if not E.branch(I(view.n) > 0, "pop"): E.py_raise("KeyError", "pop")
            w = E.const("popped", IntS)
            E.fact(And(w >= 0, w < I(view.n)))
            x = view.get(w)
            v = s.v
            s.set("v", SSetV(v.kind, z3.Store(v.mem, v.kind.pack(E, x)[0], False)))
            return x
        return m(pop)
    if name in ("isdisjoint", "symmetric_difference", "issuperset", "symmetric_difference_update"): raise Unsupported("set." + name)
    E.py_raise("AttributeError", name)

def bytes_method(E, v, name):
    def m(f): return BuiltinV("bytes." + name, lambda E, a, k: f(*[E.resolve(x) for x in a], **k))
    if isinstance(v, bytes):
        if name in ("decode", "startswith", "endswith", "hex", "rstrip", "lstrip", "strip", "find", "split", "upper", "lower", "ljust", "replace", "join", "index"):
            def f(*a, **k):
                if name == "join":
                    out = b""
                    items = concrete_items_or_none(E, a[0])
                    if items is None: return bytes_join(E, v, a[0])
                    for i, x in enumerate(items):
                        if i and v: out = bytes_cat(E, out, v)
                        out = bytes_cat(E, out, x)
                    return out
                if not all(isinstance(x, (bytes, int, str, tuple)) for x in a): raise Unsupported("bytes." + name)
                try:
                    r = _bytes_call(v, name, a, k)
                except UnicodeDecodeError:
                    E.py_raise("UnicodeDecodeError")
                return ListCell(E, CSeq(r)) if isinstance(r, list) else r
            return m(f)
        v = as_sb(E, v)
    if name == "decode":
        def dec(enc="utf-8", errors="strict"):
            t = E.bseq(v)
            if errors == "strict" and enc not in ("latin-1", "latin1", "iso-8859-1"):
                if not E.branch(fcall(f"decodable_{enc}", t, ret=BoolS), "decodable"): E.py_raise("UnicodeDecodeError")
            return fcall(f"decode_{enc}" + ("" if errors == "strict" else "_" + errors), t, ret=StrS)
        return m(dec)
    if name == "startswith":
        def sw(p, *r):
            if r: raise Unsupported("startswith with bounds")
            if isinstance(p, tuple): return any_([sw1(q) for q in p])
            return sw1(p)
        def sw1(p):
            if isinstance(p, bytes): return And(I(v.n) >= len(p), *[byte_at(E, v, i) == x for i, x in enumerate(p)])
            raise Unsupported("startswith of symbolic bytes")
        return m(sw)
    if name in ("rstrip", "strip", "lstrip"):
        def rs(*a):
            t = fcall(f"b_{name}_" + "".join(x.hex() for x in a), E.bseq(v), ret=ByteS)
            E.byte_axioms()
            E.fact(And(blen(t) >= 0, blen(t) <= I(v.n)))
            return SB(t, 0, blen(t))
        return m(rs)
    if name in ("lower", "upper"):
        def bc():
            t = bcase(E, E.bseq(v), name)
            return SB(t, z3.IntVal(0), blen(t))
        return m(bc)
    if name == "hex": return m(lambda: fcall("bytes_hex", E.bseq(v), ret=StrS))
    if name == "find":
        def find(sub_, start=0, end=None):
            if not isinstance(sub_, bytes) or end is not None: raise Unsupported("bytes.find")
            return bytes_find(E, v, sub_, start)
        return m(find)
    if name == "index":
        def index(sub_, start=0):
            r = bytes_find(E, v, sub_, start)
            if E.branch(I(r) < 0, "index"): E.py_raise("ValueError")
            return r
        return m(index)
    if name in ("split", "partition"):
        def cut(sep, maxsplit=None):
            if not isinstance(sep, bytes) or name == "split" and maxsplit != 1: raise Unsupported("bytes.split")
            r = bytes_find(E, v, sep)
            if E.branch(I(r) < 0, "split"): return ListCell(E, CSeq([v])) if name == "split" else (v, b"", b"")
            a, b = SB(v.base, v.start, r), SB(v.base, add(add(v.start, r), len(sep)), sub(sub(v.n, r), len(sep)))
            return ListCell(E, CSeq([a, b])) if name == "split" else (a, sep, b)
        return m(cut)
    raise Unsupported(f"bytes.{name}")

def _bytes_call(v, name, a, k):
    import builtins
    return builtins.getattr(v, name)(*a, **k)

def concrete_items_or_none(E, it):
    it = E.resolve(it)
    if isinstance(it, ListCell): it = it.v
    if isinstance(it, CSeq): return it.items
    if isinstance(it, (tuple, list)): return it
    return None

def bytes_join(E, sep, it):
    """concatenation of a symbolic list of byte strings: left fold of bcat"""
    v = as_seq(E, it)
    if isinstance(v, CSeq): raise Unsupported("join")
    if v.kind == BOT: return b""
    if sep: raise Unsupported("join with a separator")
    if v.kind == BYTES: a = v.arrs[0]
    else:
        v = E.to_sseq(v, BYTES)
        a = v.arrs[0]
    t = bjoin(E, a, I(v.n))
    return SB(t, 0, blen(t))

def bjoin(E, a, n):
    E.byte_axioms()
    f = z3.Function("bjoin", a.sort(), IntS, ByteS)
    if "bjoin" not in E.axioms_done:
        E.axioms_done.add("bjoin")
        A, k, x, j = z3.Const("a!", a.sort()), z3.Int("k!"), z3.Const("x!", ByteS), z3.Int("j!")
        E.axiom(z3.ForAll([A], f(A, 0) == bempty, patterns=[f(A, 0)]))
        E.axiom(z3.ForAll([A, k], Implies(k >= 0, f(A, k + 1) == bcat(f(A, k), A[k])), patterns=[f(A, k + 1)]))
        E.axiom(z3.ForAll([A, k, j, x], Implies(j >= k, f(z3.Store(A, j, x), k) == f(A, k)), patterns=[f(z3.Store(A, j, x), k)]))
        E.axiom(z3.ForAll([A, k, x], Implies(k >= 0, f(z3.Store(A, k, x), k + 1) == bcat(f(A, k), x)), patterns=[f(z3.Store(A, k, x), k + 1)]))
    t = f(a, n)
    E.fact(blen(t) >= 0)
    return t

def bytes_find(E, v, pat, start=0):
    """lowest index at or after start where pat occurs in v, or -1"""
    E.byte_axioms()
    start = E.to_int(start)
    if not E.entails(I(start) >= 0) and not E.try_prove(I(start) >= 0): raise Unsupported("find from a negative index")
    base, off, n = v.base, I(v.start), I(v.n)
    f = z3.Function("bfind_" + pat.hex(), ByteS, IntS, IntS, IntS)     # absolute position in [from, limit), or -1
    if f.name() not in E.axioms_done:
        E.axioms_done.add(f.name())
        b, s, l, j = z3.Const("b!", ByteS), z3.Int("s!"), z3.Int("l!"), z3.Int("j!")
        hit = lambda p: And(*[bat(b, p + i) == x for i, x in enumerate(pat)])
        r = f(b, s, l)
        E.axiom(z3.ForAll([b, s, l], Or(r == -1, And(r >= s, r + len(pat) <= l, hit(r))), patterns=[r]))
        E.axiom(z3.ForAll([b, s, l, j], Implies(And(j >= s, j + len(pat) <= l, Or(r == -1, j < r)), Not(hit(j))), patterns=[mpat(r, bat(b, j))]))
    r = f(base, off + I(start), off + n)
    E.fact(Or(r == -1, And(r >= off + I(start), r + len(pat) <= off + n, *[bat(base, r + i) == x for i, x in enumerate(pat)])))
    return z3.If(r == -1, -1, r - off)

# --------------------------------------------------------------------------- files opened for reading

def file_method(E, f, name):
    def m(g): return BuiltinV("file." + name, lambda E, a, k: g(*[E.resolve(x) for x in a], **k))
    d = f.data
    if is_zstr(d):
        if name == "read":
            def read(n=None):
                if n is not None: raise Unsupported("partial read of a text file")
                if f.slots["pos"] != 0: return ""
                f.set("pos", 1)
                return d
            return m(read)
        if name in ("close", "flush"): return m(lambda: None)
        raise Unsupported(f"text file.{name}")
    if name == "read":
        def read(n=None):
            n = E.to_int(n)
            pos = f.slots["pos"]
            left = imax(E, sub(d.n, pos), 0)
            if n is None or (isinstance(n, int) and n < 0): k = left
            else:
                if not isinstance(n, int) and not E.entails(n >= 0):
                    if E.branch(n < 0, "read-all"): n = left
                k = n if E.branch(I(n) <= I(left), "short-read") else left
            f.set("pos", add(pos, k))
            return SB(d.base, add(d.start, pos), k)
        return m(read)
    if name == "seek":
        def seek(p, whence=0):
            p = E.to_int(p)
            if not is_intlike(p): E.py_raise("TypeError", "seek")
            if whence == 1: p = add(f.slots["pos"], p)
            elif whence == 2: p = add(d.n, p)
            if not isinstance(p, int) and not E.entails(p >= 0):
                if E.branch(p < 0, "seek"): E.py_raise("OSError")
            elif isinstance(p, int) and p < 0: E.py_raise("OSError")
            f.set("pos", p)
            return p
        return m(seek)
    if name == "tell": return m(lambda: f.slots["pos"])
    if name in ("close", "flush"): return m(lambda: None)
    raise Unsupported(f"file.{name}")

def context(E, cm):
    if isinstance(cm, FileV): return (lambda: cm), (lambda exc: None)
    h = _pygetattr(cm, "context", None)
    if h: return h(E)
    if isinstance(cm, (Obj, SObj)):
        return (lambda: E.call(E.getattr(cm, "__enter__"), [])), \
               (lambda exc: E.test(E.call(E.getattr(cm, "__exit__"), [exc and exc_cls(exc), exc, None])))
    raise Unsupported(f"with {cm!r}")

import builtins as _bt
_pygetattr = getattr

def exc_cls(e): return e.cls if isinstance(e, ExcV) else TypeV(e.base)

@ext("io.BytesIO")
def bytesio(E, a, k):
    return FileV(E, as_sb(E, E.resolve(a[0])))

@ext("logging.getLogger")
def getlogger(E, a, k): return LoggerV()

# --------------------------------------------------------------------------- constructors, isinstance

def construct(E, t, a, k):
    n = t.name
    a = list(a)
    if n in BUILTIN_EXC: return ExcV(t, tuple(a))
    if n == "object": return Obj(E, t)
    if n == "type":
        return type_of(E, a[0])
    x = E.resolve(a[0]) if a else None
    if n == "bool": return E.truth(x) if a else False
    if n == "int":
        if not a: return 0
        x = E.to_int(x)
        if is_intlike(x): return x
        if is_strlike(x) or isinstance(x, (bytes, SB)):
            base = E.resolve(a[1]) if len(a) > 1 else k.get("base", 10)
            if isinstance(x, (str, bytes)):
                try: return int(x, base)
                except ValueError: E.py_raise("ValueError", "int")
            if not is_zstr(x): raise Unsupported("int of bytes")
            if not E.branch(fcall(f"int_ok{base}", x, ret=BoolS), "int-ok"): E.py_raise("ValueError", "int")
            r = fcall(f"int_of{base}", x)
            h = _pygetattr(E, "int_hook", None)
            if h: h(E, x, base, r)
            return r
        if isinstance(x, float): return int(x)
        if isinstance(x, Opq): return fcall("int_of_any", x.t)
        E.py_raise("TypeError", "int()")
    if n == "float":
        if isinstance(x, (int, float, str)):
            try: return float(x)
            except ValueError: E.py_raise("ValueError")
        return Opq(fcall("float_of", E.box(x), ret=AnyS), "float")
    if n == "str":
        if not a: return ""
        if isinstance(x, (bytes, SB)) and len(a) > 1: return E.call(bytes_method(E, x, "decode"), a[1:])
        return to_str(E, x)
    if n == "list":
        if not a: return ListCell(E, CSeq(()))
        return ListCell(E, as_seq(E, a[0]))
    if n == "tuple":
        if not a: return ()
        v = as_seq(E, a[0])
        return tuple(v.items) if isinstance(v, CSeq) else SSeq(v.kind, v.n, v.arrs, tup=True)
    if n in ("set", "frozenset"):
        return SetCell(E, to_set(E, a[0]) if a else CSetV(()))
    if n == "dict":
        d = DictCell(E, CMap(tuple(k.items())))
        if a: dict_update(E, d, a[0])
        return d
    if n in ("bytes", "bytearray"):
        if not a: return b""
        if isinstance(x, (bytes, SB)): return x
        if isinstance(x, int): return bytes(x)
        if is_strlike(x) and isinstance(x, str): return x.encode(*a[1:])
        raise Unsupported("bytes()")
    raise Unsupported(f"{n}()")

def type_of(E, x):
    if isinstance(x, (Obj, SObj)): return x.cls
    if isinstance(x, EnumVal): return x.cls
    if isinstance(x, (ExcV,)): return x.cls
    for n in ("bool", "int", "str", "bytes", "list", "tuple", "dict", "set", "float"):
        if isinst1(E, x, n) is True: return TypeV(n)
    raise Unsupported("type()")

def isinst1(E, v, n):
    if n == "object": return True
    if n == "int": return isinstance(v, (bool, int)) or is_zint(v) or is_zbool(v) or isinstance(v, EnumVal) and _pygetattr(v.cls, "intenum", False)
    if n == "bool": return isinstance(v, bool) or is_zbool(v)
    if n == "str": return is_strlike(v)
    if n == "bytes": return isinstance(v, (bytes, SB))
    if n == "list": return isinstance(v, ListCell) or isinstance(v, (SSeq, CSeq)) and not _pygetattr(v, "tup", False)
    if n == "tuple": return isinstance(v, tuple) or isinstance(v, SSeq) and v.tup
    if n == "dict": return isinstance(v, (DictCell, SMap, CMap)) or is_rec(v)
    if n in ("set", "frozenset"): return isinstance(v, (SetCell, SSetV, CSetV))
    if n == "float": return isinstance(v, float) or isinstance(v, Opq) and v.pytype == "float"
    if n == "bytearray": return False
    return False

def isinstance_(E, v, cls):
    cls = E.resolve(cls)
    if isinstance(v, SOpt):
        t = isinstance_(E, v.val, cls)
        if isinstance(t, bool) and not t: return False
        return And(Not(v.isnone), B(t))
    if isinstance(cls, tuple): return any_([isinstance_(E, v, c) for c in cls])
    if isinstance(cls, BuiltinV): cls = TypeV(cls.name)
    if isinstance(v, Opq):
        h = _pygetattr(E, "opq_isinstance", None)
        if h:
            r = h(E, v, cls)
            if r is not None: return r
        if v.pytype: return v.pytype == exc_name(cls)
        return fcall(f"isinst_{exc_name(cls)}", v.t, ret=BoolS)
    if isinstance(v, (Obj, SObj, EnumVal)):
        if isinstance(v.cls, (ClassV, TypeV)): return E.is_subclass(v.cls, cls) or (isinstance(v, EnumVal) and isinst1(E, v, exc_name(cls)))
        return v.cls == exc_name(cls)
    if isinstance(v, ExcV): return E.is_subclass(v.cls, cls)
    if isinstance(v, SymExc): return E.exc_matches(v, cls)
    if isinstance(cls, ClassV): return False
    h = _pygetattr(v, "isinstance_", None)
    if h: return h(E, cls)
    return isinst1(E, v, cls.name)

def _fromhex(E, a, k):
    if isinstance(a[0], str): return bytes.fromhex(a[0])
    raise Unsupported("bytes.fromhex")

def _frombytes(E, a, k):
    x, order_ = E.resolve(a[0]), a[1] if len(a) > 1 else k.get("byteorder", "big")
    if isinstance(x, bytes): return int.from_bytes(x, order_)
    n = conc(x.n)
    if not isinstance(n, int):
        for w in (1, 2, 4, 8):
            if E.entails(And(n >= 0, n <= w)): break
        else: raise Unsupported("int.from_bytes of unknown length")
        if E.entails(n == w): n = w
        else:
            r = z3.IntVal(0)
            for i in range(w, 0, -1): r = z3.If(n == i, I(decode_item(E, SB(x.base, x.start, i), "Q", 0, i, "<" if order_ == "little" else ">")), r)
            return r
    return decode_item(E, x, "Q", 0, n, "<" if order_ == "little" else ">")

def _fromkeys(E, a, k):
    d = DictCell(E, CMap(()))
    val = a[1] if len(a) > 1 else None
    E.iterate(a[0], lambda x: setitem(E, d, x, val))
    return d

TYPE_ATTRS = {("bytes", "fromhex"): _fromhex, ("int", "from_bytes"): _frombytes, ("dict", "fromkeys"): _fromkeys,
              ("str", "join"): lambda E, a, k: E.call(str_method(E, a[0], "join"), a[1:]),
              ("str", "lower"): lambda E, a, k: E.call(str_method(E, a[0], "lower"), a[1:])}

# --------------------------------------------------------------------------- builtin functions

@builtin("len")
def b_len(E, a, k):
    return length(E, a[0])

@builtin("range")
def b_range(E, a, k):
    a = [E.to_int(E.resolve(x)) for x in a]
    if not all(is_intlike(x) for x in a): E.py_raise("TypeError", "range")
    if len(a) == 1: return RangeV(0, a[0])
    if len(a) == 2: return RangeV(a[0], a[1])
    st = a[2]
    if all(isinstance(x, int) for x in a): return tuple(range(*a))
    if isinstance(st, int) and st > 0:
        n = imax(E, (I(a[1]) - I(a[0]) + (st - 1)) / st, 0)
        return SeqView(n, lambda j: add(a[0], int_op(E, "mul", j, st)))
    raise Unsupported("range step")

@builtin("enumerate")
def b_enumerate(E, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    it = a[0]
    if isinstance(it, GenV):
        q = E.pure_gen_peek(it)
        if q is None:
            cell = Cell(E, "enumerate", i=start)
            def run(cb):
                def each(v):
                    i = cell.slots["i"]
                    cell.set("i", add(i, 1))
                    cb((i, v))
                E.iterate(it, each)
            return GenV(run)
        it = SeqView(q.m, q.elem)
    v = iter_view(E, it)
    if isinstance(v, (tuple, list)) and isinstance(start, int): return tuple((start + i, x) for i, x in enumerate(v))
    return SeqView(I(len(v)) if isinstance(v, (tuple, list)) else v.n, lambda j: (add(start, j), v.get(j)))

@builtin("zip")
def b_zip(E, a, k):
    return ZipV([E.resolve(x) for x in a])

@builtin("reversed")
def b_reversed(E, a, k):
    v = as_seq(E, a[0])
    return CSeq(v.items[::-1]) if isinstance(v, CSeq) else reverse_seq(E, v)

@builtin("map")
def b_map(E, a, k):
    f, it = a[0], a[1]
    if len(a) > 2: raise Unsupported("map of several iterables")
    def run(cb): E.iterate(it, lambda x: cb(E.call(f, [x])))
    g = GenV(run)
    def pure():
        src = E.resolve(it)
        if isinstance(src, GenV):
            q = E.pure_gen_peek(src)
            if q is None: return None
            view = SeqView(q.m, q.elem)
        else: view = iter_view(E, src)
        if isinstance(view, (tuple, list)): return None
        return E.pure_map(view.n, lambda j: ("val", E.call(f, [view.get(j)])))
    g.pure_fn = pure
    return g

@builtin("filter")
def b_filter(E, a, k):
    f, it = a
    def run(cb):
        def each(x):
            if E.test(x if f is None else E.call(f, [x]), "filter"): cb(x)
        E.iterate(it, each)
    g = GenV(run)
    def pure():
        src = E.resolve(it)
        if isinstance(src, GenV):
            q = E.pure_gen_peek(src)
            if q is None: return None
            view = SeqView(q.m, q.elem)
        else: view = iter_view(E, src)
        if isinstance(view, (tuple, list)): return None
        def one(j):
            x = view.get(j)
            return ("val", x) if E.test(x if f is None else E.call(f, [x]), "filter") else ("skip", None)
        p = E.pure_map(view.n, one)
        if p is not None: p.identity = view
        return p
    g.pure_fn = pure
    return g

def gen_any(E, it, want):
    """any (want) / all (not want)"""
    if isinstance(it, GenV):
        p = E.pure_gen(it)
        if p is not None: return comp_any(E, p, want)
        hit = []
        class Stop(GenStop): pass
        def each(x):
            if E.test(x, "any") == want:
                hit.append(1)
                raise Stop()
        depth = len(E.frames)
        try:
            E.iterate(it, each)
        except Stop:
            del E.frames[depth:]
            return True
        return False
    v = iter_view(E, it)
    if isinstance(v, (tuple, list)):
        ts = [E.truth(x) for x in v]
        if want: return any_(ts)
        return any_([neg(t) for t in ts])
    p = E.pure_map(v.n, lambda j: ("val", E.truth(v.get(j))))
    if p is None: raise Unsupported("any/all")
    return comp_any(E, p, want)

@builtin("any")
def b_any(E, a, k): return gen_any(E, E.resolve(a[0]), True)

@builtin("all")
def b_all(E, a, k): return neg(gen_any(E, E.resolve(a[0]), False))

@builtin("isinstance")
def b_isinstance(E, a, k): return isinstance_(E, a[0], a[1])

@builtin("issubclass")
def b_issubclass(E, a, k): return E.is_subclass(a[0], a[1])

@builtin("hasattr")
def b_hasattr(E, a, k):
    try:
        E.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if exc_name(e.exc.cls) == "AttributeError": return False
        raise

@builtin("getattr")
def b_getattr(E, a, k):
    if not isinstance(a[1], str): raise Unsupported("getattr with a symbolic name")
    try:
        return E.getattr(a[0], a[1])
    except PyRaise as e:
        if len(a) > 2 and isinstance(e.exc, ExcV) and exc_name(e.exc.cls) == "AttributeError": return a[2]
        raise

@builtin("setattr")
def b_setattr(E, a, k):
    if not isinstance(a[1], str): raise Unsupported("setattr with a symbolic name")
    E.setattr(a[0], a[1], a[2])

@builtin("iter")
def b_iter(E, a, k):
    x = E.resolve(a[0])
    if isinstance(x, (IterCell, GenV)): return x
    if isinstance(x, (Obj, SObj)):
        m = E.find_method(x, "__iter__")
        if m: return E.call(m, [])
    return IterCell(E, x)

@builtin("next")
def b_next(E, a, k):
    it = E.resolve(a[0])
    if isinstance(it, GenV):
        p = E.pure_gen_peek(it)
        if p is not None:
            # the first kept element
            if E.branch(I(p.m) > 0, "next"): return p.elem(z3.IntVal(0))
        else:
            # run the generator to its first value and abandon it
            got = []
            class Stop(GenStop): pass
            def each(x):
                got.append(x)
                raise Stop()
            it.used = True
            depth = len(E.frames)
            try:
                it.run(each)
            except Stop:
                del E.frames[depth:]
                return got[0]
        if len(a) > 1: return a[1]
        E.py_raise("StopIteration")
    if isinstance(it, IterCell):
        v = iter_view(E, it.seq)
        pos = it.slots["pos"]
        if isinstance(v, (tuple, list)):
            if isinstance(pos, int) and pos < len(v):
                it.set("pos", pos + 1)
                return v[pos]
            if not isinstance(pos, int): raise Unsupported("next at a symbolic position")
        elif E.branch(I(pos) < I(v.n), "next"):
            it.set("pos", add(pos, 1))
            return v.get(pos)
        if len(a) > 1: return a[1]
        E.py_raise("StopIteration")
    if isinstance(it, (Obj, SObj)):
        m = E.find_method(it, "__next__")
        if m: return E.call(m, [])
    h = _pygetattr(it, "next", None)
    if h: return h(E, *a[1:])
    raise Unsupported("next()")

@builtin("print")
def b_print(E, a, k):
    f = E.resolve(k.get("file"))
    if f is None: return None
    sep, end = k.get("sep", " "), k.get("end", "\n")
    out = []
    for i, x in enumerate(a):
        if i: out.append(" " if sep is None else sep)
        out.append(to_str(E, x))
    E.call(E.getattr(f, "write"), [str_concat(E, out + ["\n" if end is None else end])])
    return None

@builtin("ord")
def b_ord(E, a, k):
    x = E.resolve(a[0])
    if isinstance(x, (str, bytes)): return ord(x)
    t = z3.StrToCode(x) if is_zstr(x) else None
    if t is None: raise Unsupported("ord")
    E.fact(Implies(z3.Length(x) == 1, And(t >= 0, t < 0x110000)))
    return t

@builtin("chr")
def b_chr(E, a, k):
    x = E.resolve(a[0])
    if isinstance(x, int): return chr(x)
    return z3.StrFromCode(x)

@builtin("abs")
def b_abs(E, a, k):
    x = E.to_int(E.resolve(a[0]))
    if isinstance(x, (int, float)): return abs(x)
    return z3.If(x >= 0, x, -x)

@builtin("repr")
def b_repr(E, a, k):
    x = E.resolve(a[0])
    if isinstance(x, (Obj, SObj)):
        f = E.find_method(x, "__repr__")
        if f: return E.call(f, [])
    return fmt_value(E, x, "", 114) if not is_zint(x) else to_str(E, x)

@builtin("hash")
def b_hash(E, a, k):
    x = E.resolve(a[0])
    if isinstance(x, (Obj, SObj)):
        f = E.find_method(x, "__hash__")
        if f: return E.call(f, [])
    if isinstance(x, SSeq): return seq_app(E, f"hash_{x.kind}", x.n, x.arrs, IntS)
    if isinstance(x, tuple): return fcall(f"hash_tuple{len(x)}", *[I(b_hash(E, [y], {})) for y in x]) if x else 0
    return fcall(f"hash_{E.kind_of(x)}", *E.kind_of(x).pack(E, x))

@builtin("hex")
def b_hex(E, a, k): return hex(a[0]) if isinstance(a[0], int) else z3.Concat(S("0x"), hexstr(E, a[0]))

@builtin("callable")
def b_callable(E, a, k): return isinstance(a[0], (FuncV, BoundV, BuiltinV, ClassV, TypeV))

@builtin("id")
def b_id(E, a, k): raise Unsupported("id()")

@builtin("sum")
def b_sum(E, a, k):
    v = as_seq(E, a[0])
    out = a[1] if len(a) > 1 else 0
    if isinstance(v, CSeq):
        for x in v.items: out = binop(E, ast.Add(), out, x)
        return out
    if v.kind in (INT, NAT):
        f = z3.Function("asum", v.arrs[0].sort(), IntS, IntS)
        if "asum" not in E.axioms_done:
            E.axioms_done.add("asum")
            A, n = z3.Const("a!", v.arrs[0].sort()), z3.Int("n!")
            E.axiom(z3.ForAll([A], f(A, 0) == 0, patterns=[f(A, 0)]))
            E.axiom(z3.ForAll([A, n], Implies(n >= 0, f(A, n + 1) == f(A, n) + A[n]), patterns=[f(A, n + 1)]))
        return add(out, f(v.arrs[0], I(v.n)))
    raise Unsupported("sum")

def minmax(E, name, a, k):
    key = k.get("key")
    op = ast.Lt() if name == "min" else ast.Gt()
    if len(a) > 1: items = list(a)
    else:
        v = as_seq(E, a[0])
        if isinstance(v, SSeq):
            return seq_extreme(E, name, v, key, k)
        items = list(v.items)
    if not items:
        if "default" in k: return k["default"]
        E.py_raise("ValueError", name)
    kf = (lambda x: E.call(key, [x])) if key is not None else (lambda x: x)
    if len(items) == 2 and key is None and all(is_intlike(x) for x in items):
        return imin(E, *items) if name == "min" else imax(E, *items)
    best, bk = items[0], kf(items[0])
    for x in items[1:]:
        xk = kf(x)
        if E.branch(compare(E, op, xk, bk), name): best, bk = x, xk
    return best

def seq_extreme(E, name, v, key, k):
    """min/max of a sequence of symbolic length: one of its elements that is extreme (the first such)"""
    if not E.branch(I(v.n) > 0, name):
        if "default" in k: return k["default"]
        E.py_raise("ValueError", name)
    w = E.const("argext", IntS)
    E.fact(And(w >= 0, w < I(v.n)))
    j = z3.Int("j!")
    kf = lambda x: x if key is None else E.call(key, [x])
    op = ast.Lt() if name == "min" else ast.Gt()
    best = kf(seq_get(E, v, w))
    q = E.const("anyix", IntS)
    res = []
    def one():
        nf = len(E.conds)
        r = B(compare(E, op, kf(seq_get(E, v, q)), best))
        return And(*E.conds[nf:], r)
    bad = Or(*E.sub_explore(one))
    E.fact(z3.ForAll([j], Implies(And(j >= 0, j < I(v.n)), Not(z3.substitute(bad, (q, j)))), patterns=[v.arrs[0][j]]))
    return seq_get(E, v, w)

@builtin("min")
def b_min(E, a, k): return minmax(E, "min", a, k)

@builtin("max")
def b_max(E, a, k): return minmax(E, "max", a, k)

def sort_seq(E, v, key=None, reverse=False):
    """a permutation of v in (stable) order of the key"""
    if isinstance(v, CSeq):
        if len(v.items) <= 1: return v
        if key is None and all(isinstance(x, (int, str)) for x in v.items): return CSeq(sorted(v.items, reverse=bool(reverse)))
        if len(v.items) <= 4:
            out = []
            ks = []
            for x in v.items:
                xk = x if key is None else E.call(key, [x])
                i = len(out)
                while i > 0 and E.branch(compare(E, ast.Gt() if reverse else ast.Lt(), xk, ks[i - 1]), "sort"): i -= 1
                out.insert(i, x)
                ks.insert(i, xk)
            return CSeq(out)
        v = E.to_sseq(v, E.join_all(v.items))
    if v.kind == BOT: return v
    n = I(v.n)
    perm = z3.Function(E.fresh_name("perm"), IntS, IntS)
    inv = z3.Function(E.fresh_name("perminv"), IntS, IntS)
    arrs = [E.const("sorted", a.sort()) for a in v.arrs]
    i, j = z3.Ints("i! j!")
    E.fact(z3.ForAll([j], Implies(And(j >= 0, j < n), And(perm(j) >= 0, perm(j) < n, inv(perm(j)) == j, *[s[j] == a[perm(j)] for s, a in zip(arrs, v.arrs)])),
                     patterns=[arrs[0][j], perm(j)]))
    E.fact(z3.ForAll([j], Implies(And(j >= 0, j < n), And(inv(j) >= 0, inv(j) < n, perm(inv(j)) == j)), patterns=[v.arrs[0][j], inv(j)]))
    out = SSeq(v.kind, v.n, arrs)
    if _pygetattr(E, "sort_is_permutation", False):      # the contract needs no order
        E.last_sort = out
        return out
    try:
        p, q = E.const("so", IntS), E.const("so", IntS)
        kf = lambda x: x if key is None else E.call(key, [x])
        def one():
            nf = len(E.conds)
            E.fact(And(p >= 0, p < n, q >= 0, q < n))
            a, b = kf(seq_get(E, out, p)), kf(seq_get(E, out, q))
            r = B(order(E, "lt", E.resolve(b), E.resolve(a))) if not reverse else B(order(E, "lt", E.resolve(a), E.resolve(b)))
            return And(*E.conds[nf:], r)
        bad = Or(*E.sub_explore(one))
        E.fact(z3.ForAll([i, j], Implies(And(i >= 0, i < j, j < n), Not(z3.substitute(bad, (p, i), (q, j)))), patterns=[mpat(arrs[0][i], arrs[0][j])]))
    except (Unsupported, PyRaise):
        pass        # order not expressed: still a permutation
    E.last_sort = out
    return out

@builtin("sorted")
def b_sorted(E, a, k):
    return ListCell(E, sort_seq(E, as_seq(E, a[0]), k.get("key"), k.get("reverse", False)))

@builtin("open")
def b_open(E, a, k):
    path = E.resolve(a[0])
    mode = E.resolve(a[1]) if len(a) > 1 else k.get("mode", "r")
    if E.fs is not None: return E.fs.open(E, path, mode, k)
    if mode != "rb": raise Unsupported(f"open mode {mode}")
    E.assumed.add("files opened for reading do not change while they are read")
    ok = fcall("fs_readable", S(path), ret=BoolS)
    if not E.branch(ok, "file-exists"): E.py_raise("FileNotFoundError")
    t = fcall("fs_content", S(path), ret=ByteS)
    E.fact(blen(t) >= 0)
    return FileV(E, SB(t, 0, blen(t)))

# --------------------------------------------------------------------------- os.path and other pure library functions

@ext("os.path.join")
def os_join(E, a, k):
    a = [E.resolve(x) for x in a]
    if not all(is_strlike(x) for x in a): E.py_raise("TypeError", "join")
    if all(isinstance(x, str) for x in a):
        import os
        return os.path.join(*a)
    t = a[0]
    for x in a[1:]: t = fcall("path_join", S(t), S(x), ret=StrS)
    return t

def _path_fn(name, n=1):
    def f(E, a, k):
        import os
        x = E.resolve(a[0])
        if not is_strlike(x): E.py_raise("TypeError", name)
        if isinstance(x, str):
            return _pygetattr(os.path, name)(x)
        if n == 1: return fcall("path_" + name, x, ret=StrS)
        if name == "split":
            l, r = fcall("path_dirname", x, ret=StrS), fcall("path_basename", x, ret=StrS)
        else:
            l, r = fcall(f"path_{name}_0", x, ret=StrS), fcall(f"path_{name}_1", x, ret=StrS)
        if name == "splitext": E.fact(And(z3.Concat(l, r) == x, Or(z3.Length(r) == 0, z3.SubString(r, 0, 1) == z3.StringVal("."))))
        return (l, r)
    return f

for _n in ("dirname", "basename", "normpath", "abspath", "normcase", "expanduser", "realpath"): EXTERNALS["os.path." + _n] = _path_fn(_n)
for _n in ("splitext", "split"): EXTERNALS["os.path." + _n] = _path_fn(_n, 2)

def _fs_pred(name):
    def f(E, a, k):
        x = E.resolve(a[0])
        if E.fs is not None: return E.fs.pred(E, name, x)
        return fcall("fs_" + name, S(x), ret=BoolS)
    return f
for _n in ("isdir", "isfile", "exists", "islink", "lexists"): EXTERNALS["os.path." + _n] = _fs_pred(_n)

@ext("collections.defaultdict")
def defaultdict(E, a, k):
    d = DictCell(E, CMap(()), default=a[0] if a else None)
    if len(a) > 1: dict_update(E, d, a[1])
    return d

@ext("collections.OrderedDict")
def ordereddict(E, a, k): return construct(E, TypeV("dict"), a, k)

@ext("itertools.chain")
def it_chain(E, a, k):
    def run(cb):
        for x in a: E.iterate(x, cb)
    return GenV(run)

@ext("itertools.chain.from_iterable")
def it_chain2(E, a, k):
    return GenV(lambda cb: E.iterate(a[0], lambda x: E.iterate(x, cb)))

EXTERNALS["enum.Enum"] = TypeV("enum.Enum")
del EXTERNALS["enum.Enum"]

# --------------------------------------------------------------------------- regular expressions

class PatV:
    def __init__(self, pat, flags=0): self.pat, self.re, self.flags = pat, re.compile(pat, flags), flags
    def attr(self, E, name):
        if name in ("match", "search", "fullmatch"):
            return BuiltinV("re." + name, lambda E, a, k: re_match(E, self, name, E.resolve(a[0])))
        if name == "sub": return BuiltinV("re.sub", lambda E, a, k: re_sub(E, self, a[0], E.resolve(a[1])))
        if name == "pattern": return self.pat
        return NotImplemented

class MatchV:
    def __init__(self, groups, whole): self.groups_, self.whole = groups, whole
    def attr(self, E, name):
        if name == "group":
            def g(*i):
                r = [self.getitem(E, x) for x in (i or (0,))]
                return r[0] if len(r) == 1 else tuple(r)
            return bi("group", g)
        if name == "groups": return bi("groups", lambda: tuple(self.groups_))
        return NotImplemented
    def getitem(self, E, i):
        if i == 0: return self.whole
        if isinstance(i, int) and 1 <= i <= len(self.groups_): return self.groups_[i - 1]
        E.py_raise("IndexError")

def re_match(E, p, kind, s):
    if not is_strlike(s): E.py_raise("TypeError", "re")
    if isinstance(s, str):
        m = _pygetattr(p.re, kind)(s)
        return None if m is None else MatchV(list(m.groups()), m.group(0))
    if getattr(E, "exact_re", False):
        r = exact_match(E, p, kind, s)
        if r is not None: return r
    tag = f"{kind}_{p.pat.encode().hex()}"
    ok = fcall("re_" + tag, s, ret=BoolS)
    gs = [fcall(f"re_g{i}_" + tag, s, ret=StrS) for i in range(p.re.groups + 1)]
    opt = optional_groups(p.pat, p.re.groups)
    groups = [SOpt(fcall(f"re_n{i + 1}_" + tag, s, ret=BoolS), g) if (i + 1) in opt else g for i, g in enumerate(gs[1:])]
    return SOpt(Not(ok), MatchV(groups, gs[0]))

class NoRe(Exception): pass

def re_term(items):
    """z3 regular expression of a parsed pattern"""
    def cat(rs):
        rs = [r for r in rs if r is not None]
        return z3.Re("") if not rs else rs[0] if len(rs) == 1 else z3.Concat(*rs)
    def one(op, av):
        nm = str(op)
        if nm == "LITERAL": return z3.Re(chr(av))
        if nm == "NOT_LITERAL": return z3.Intersect(z3.AllChar(z3.ReSort(StrS)), z3.Complement(z3.Re(chr(av))))
        if nm == "ANY": return z3.Intersect(z3.AllChar(z3.ReSort(StrS)), z3.Complement(z3.Re("\n")))
        if nm == "IN":
            alts, negate = [], False
            for o, a in av:
                o = str(o)
                if o == "NEGATE": negate = True
                elif o == "LITERAL": alts.append(z3.Re(chr(a)))
                elif o == "RANGE": alts.append(z3.Range(chr(a[0]), chr(a[1])))
                else: raise NoRe()
            r = alts[0] if len(alts) == 1 else z3.Union(*alts)
            return z3.Intersect(z3.AllChar(z3.ReSort(StrS)), z3.Complement(r)) if negate else r
        if nm == "BRANCH": return z3.Union(*[re_term(b) for b in av[1]]) if len(av[1]) > 1 else re_term(av[1][0])
        if nm == "SUBPATTERN": return re_term(av[3])
        if nm in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub_ = av
            r = re_term(sub_)
            if str(hi) == "MAXREPEAT": return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, int(lo), int(lo)), z3.Star(r))
            return z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, int(lo), int(hi))
        raise NoRe()
    return cat([one(o, a) for o, a in items])

def re_words(items):
    """the words of a finite pattern, None otherwise"""
    out = [""]
    for op, av in items:
        nm = str(op)
        if nm == "LITERAL": ws = [chr(av)]
        elif nm == "SUBPATTERN": ws = re_words(av[3])
        elif nm == "BRANCH":
            ws = []
            for b in av[1]:
                w = re_words(b)
                if w is None: return None
                ws += w
        else: return None
        if ws is None or len(ws) * len(out) > 50: return None
        out = [a + b for a in out for b in ws]
    return out

def exact_match(E, p, kind, s):
    """the match as a decomposition of the text along the pattern, None when the pattern is outside of this fragment"""
    import re._parser as sp
    if p.flags: return None
    try:
        items = list(sp.parse(p.pat))
        begin, end = kind != "search", kind == "fullmatch"
        nl = False
        if items and str(items[0][0]) == "AT":
            if str(items[0][1]) not in ("AT_BEGINNING", "AT_BEGINNING_STRING"): raise NoRe()
            items, begin = items[1:], True
        if items and str(items[-1][0]) == "AT":
            w = str(items[-1][1])
            if w not in ("AT_END", "AT_END_STRING"): raise NoRe()
            if w == "AT_END" and not end: nl = True
            items, end = items[:-1], True
        parts, groups, words = [], {}, []
        for it in items:
            if str(it[0]) == "SUBPATTERN" and it[1][0] is not None:
                groups[it[1][0]] = len(parts)
            parts.append(re_term([it]))
            words.append(re_words([it]))
        tag = f"{kind}_{p.pat.encode().hex()}"
        full = z3.Full(z3.ReSort(StrS))
        rs = ([] if begin else [full]) + parts + ([z3.Option(z3.Re("\n"))] if nl else []) + ([] if end else [full])
        if not rs: rs = [z3.Re("")]
        ok = z3.InRe(s, rs[0] if len(rs) == 1 else z3.Concat(*rs))
        ts = [fcall(f"re_part{i}_" + tag, s, ret=StrS) for i in range(len(rs))]
        off = 0 if begin else 1
        for i, w in enumerate(words):
            if w is not None and len(w) == 1: ts[i + off] = S(w[0])
        ins = [z3.InRe(t, r) for t, r in zip(ts, rs)]
        for i, w in enumerate(words):
            if w is not None: ins[i + off] = Or(*[ts[i + off] == S(x) for x in w])
        E.fact(Implies(ok, And((ts[0] if len(ts) == 1 else z3.Concat(*ts)) == s, *ins)))
        gs = [ts[groups[i + 1] + off] if i + 1 in groups else SOpt(fcall(f"re_n{i + 1}_" + tag, s, ret=BoolS), fcall(f"re_g{i + 1}_" + tag, s, ret=StrS)) for i in range(p.re.groups)]
        mid = ts[off:off + len(parts)]
        return SOpt(Not(ok), MatchV(gs, mid[0] if len(mid) == 1 else z3.Concat(*mid) if mid else S("")))
    except NoRe:
        return None

def optional_groups(pat, n):
    """groups that may not take part in a match (conservative)"""
    if n == 0: return set()
    if not re.search(r"[?|*{]", re.sub(r"\\.", "", re.sub(r"\(\?[:=!]", "(", pat))): return set()
    # a group followed by ? or * or inside an alternation / optional group
    out, stack, idx, i = set(), [], 0, 0
    depth_groups = []
    try:
        import re._parser as sp
    except ImportError:
        return set(range(1, n + 1))
    def walk(items, opt):
        for op, av in items:
            nm = str(op)
            if nm == "SUBPATTERN":
                g, _, _, sub_ = av
                if g is not None and opt: out.add(g)
                walk(sub_, opt)
            elif nm in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                lo, hi, sub_ = av
                walk(sub_, opt or lo == 0)
            elif nm == "BRANCH":
                for b in av[1]: walk(b, True)
            elif nm in ("ASSERT", "ASSERT_NOT"):
                walk(av[1], True)
    walk(sp.parse(pat), False)
    return out

def re_sub(E, p, repl, s):
    if isinstance(s, str) and isinstance(repl, str): return p.re.sub(repl, s)
    if not isinstance(repl, str): raise Unsupported("re.sub with a function")
    return fcall(f"re_sub_{p.pat.encode().hex()}_{repl.encode().hex()}", S(s), ret=StrS)

@ext("re.compile")
def re_compile(E, a, k):
    if not isinstance(a[0], str): raise Unsupported("symbolic pattern")
    return PatV(a[0], a[1] if len(a) > 1 else 0)

for _n in ("match", "search", "fullmatch"):
    EXTERNALS["re." + _n] = (lambda n: lambda E, a, k: re_match(E, re_compile(E, [a[0]] + list(a[2:]), {}), n, E.resolve(a[1])))(_n)
EXTERNALS["re.sub"] = lambda E, a, k: re_sub(E, re_compile(E, [a[0]], {}), a[1], E.resolve(a[2]))

# --------------------------------------------------------------------------- pure codecs: values of unknown but fixed functions, which may reject their input

def codec(name, exc):
    def f(E, a, k):
        v = E.resolve(a[0])
        if not isinstance(v, (bytes, SB)): E.py_raise("TypeError", name)
        E.assumed.add(f"{name} is a function of its input")
        t = E.bseq(v)
        if not E.branch(fcall("ok_" + name, t, ret=BoolS), "codec-ok"): E.py_raise(exc)
        r = fcall("f_" + name, t, ret=ByteS)
        E.byte_axioms()
        E.fact(blen(r) >= 0)
        return SB(r, 0, blen(r))
    return f
EXTERNALS["gzip.decompress"] = codec("gzip.decompress", "gzip.BadGzipFile")
EXTERNALS["pyzstd.decompress"] = codec("pyzstd.decompress", "zstd.ZstdError")
EXTERNALS["zlib.decompress"] = codec("zlib.decompress", "zlib.error")

def digest(name):
    def f(E, a, k):
        v = E.resolve(a[0])
        if is_strlike(v):
            t = fcall("f_" + name, fcall("encode_utf8", S(v), ret=ByteS))
        else:
            if not isinstance(v, (bytes, SB)): E.py_raise("TypeError", name)
            t = fcall("f_" + name, E.bseq(v))
        E.assumed.add(f"{name} is a function of its input")
        E.fact(And(t >= 0, t < 2 ** 64))
        return t
    return f
for _n in ("xxhash.xxh64_intdigest", "xxhash.xxh3_64_intdigest"): EXTERNALS[_n] = digest(_n)
EXTERNALS["zlib.crc32"] = digest("zlib.crc32")

class HashV(Cell):
    """hashlib object: the digest is a function of all bytes given"""
    def __init__(self, E, name, data):
        super().__init__(E, "hash", data=data)
        self.name = name
    def attr(self, E, name):
        if name == "update":
            def f(x):
                x = E.resolve(x)
                if not isinstance(x, (bytes, SB)): E.py_raise("TypeError", "update")
                self.set("data", E.bseq(bytes_cat(E, as_sb_or_bytes(E, self.slots["data"]), x)))
            return bi("update", f)
        if name == "hexdigest": return bi("hexdigest", lambda: fcall("hexdigest_" + self.name, self.slots["data"], ret=StrS))
        return NotImplemented
def as_sb_or_bytes(E, t):
    E.fact(blen(t) >= 0)
    return b"" if t.eq(bempty) else SB(t, z3.IntVal(0), blen(t))
def hashlib_new(name):
    def f(E, a, k):
        E.byte_axioms()
        E.assumed.add(f"{name} is a function of the bytes given to it")
        return HashV(E, name, E.bseq(E.resolve(a[0])) if a else bempty)
    return f
for _n in ("sha1", "sha256", "md5"): EXTERNALS["hashlib." + _n] = hashlib_new(_n)

@ext("os.path.relpath")
def os_relpath(E, a, k):
    a = [E.resolve(x) for x in a]
    if not all(is_strlike(x) for x in a): E.py_raise("TypeError", "relpath")
    if len(a) == 1: return fcall("path_relpath1", S(a[0]), ret=StrS)
    return fcall("path_relpath", S(a[0]), S(a[1]), ret=StrS)

class PoolV:
    """pool of threads: every call is made once; their order is that of the arguments (interleavings are not modelled)"""
    def attr(self, E, name):
        if name in ("map", "imap", "imap_unordered", "starmap"):
            def f(fn, it, *r):
                out = ListCell(E, CSeq(()))
                E.iterate(it, lambda x: E.call(fn, list(x) if name == "starmap" else [x]))
                return out
            return BuiltinV(name, lambda E, a, k: f(*a))
        if name in ("close", "join", "terminate"): return bi(name, lambda: None)
        return NotImplemented
    def context(self, E): return (lambda: self), (lambda exc: None)
@ext("multiprocessing.pool.ThreadPool", "multiprocessing.Pool")
def threadpool(E, a, k):
    E.assumed.add("a thread pool makes every call exactly once")
    return PoolV()

@ext("base64.b64encode")
def b64(E, a, k):
    v = E.resolve(a[0])
    if not isinstance(v, (bytes, SB)): E.py_raise("TypeError", "b64encode")
    t = fcall("b64encode", E.bseq(v), ret=ByteS)
    E.byte_axioms()
    E.fact(blen(t) >= 0)
    return SB(t, 0, blen(t))
