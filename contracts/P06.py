"""P06: hash lists. What save() writes, line by line, for an arbitrary mapping; what load() reads from any file of that form."""
from pyvc.contract import *

WIDTHS = [16, 8]
line = lambda E, h, s, w: z3.Concat(M.hexstr(E, h, w), S(" "), S(s), S("\n"))


class OneFile:
    """the file of the hash list: a list of written texts, each one a line"""
    faults = False
    def __init__(self, E, path, lines=None):
        self.path, self.lines, self.opened, self.foreign = path, lines, [], False
        self.exists = E.const("exists", BoolS)
        E.assumed.add("text files: the lines of a concatenation of line-break-free texts each followed by \\n are these texts (universal newlines; written with newline='' or on a system whose line separator is \\n)")
    def open(self, E, p, mode, kw):
        if E.entails(S(p) != S(self.path)) or not E.entails(S(p) == S(self.path)):
            E.prove(S(p) == S(self.path), "only the file of the list is opened")
        m = mode.replace("t", "")
        self.opened.append(m)
        if m == "w":
            E.prove(B(kw.get("newline") in (None, "", "\n") and kw.get("encoding") in (None, "utf-8", "utf8")), "lines are written as they are")
            self.lines = ListCell(E, CSeq(()))
            return Writer(self.lines)
        if m != "r": raise Unsupported("open mode " + mode)
        E.prove(B(kw.get("newline") in (None, "\n") and kw.get("encoding") in (None, "utf-8", "utf8")), "lines are read as they are")
        if not E.branch(self.exists, "exists"): E.py_raise("FileNotFoundError")
        return Reader(self.lines)
    def pred(self, E, name, p):
        return And(self.exists, S(p) == S(self.path)) if name in ("isfile", "exists", "lexists") else E.const("pred", BoolS)


class Writer:
    def __init__(self, lines): self.lines = lines
    def attr(self, E, name):
        if name == "write": return bi("write", lambda t: M.list_append(E, self.lines, E.resolve(t)))
        if name == "writelines": return bi("writelines", lambda it: E.iterate(it, lambda t: M.list_append(E, self.lines, E.resolve(t))))
        if name in ("close", "flush"): return bi(name, lambda: None)
        raise Unsupported("file." + name)
    def context(self, E): return (lambda: self), (lambda exc: None)


class Reader:
    def __init__(self, lines): self.lines = lines
    def iter_view(self, E): return M.iter_view(E, self.lines)
    def attr(self, E, name):
        if name == "readlines": return bi(name, lambda: ListCell(E, M.as_seq(E, self.lines)))
        if name == "close": return bi(name, lambda: None)
        raise Unsupported("file." + name)
    def context(self, E): return (lambda: self), (lambda exc: None)


def hashfile(E):
    w = WIDTHS[E.choose("width", [(str(x), None) for x in WIDTHS])]
    name = E.const("filename", StrS)
    hf = E.call(E.cls("hashes.HashFile"), [name] if w == 16 and E.choose("width given", [("no", None), ("yes", None)]) == 0 else [name, w])
    E.prove(is_none(E, E.getattr(hf, "hashes")), "nothing is loaded at first")
    return hf, name, w


def run_save(E):
    hf, name, w = hashfile(E)
    dom, vals = E.const("known", z3.ArraySort(IntS, BoolS)), E.const("paths", z3.ArraySort(IntS, StrS))
    x = z3.Int("x!")
    E.fact(forall([x], Implies(z3.Select(dom, x), x >= 0), [z3.Select(dom, x)]))
    d = DictCell(E, SMap(INT, STR, dom, [vals]))
    hf.set("hashes", d)
    E.fs = F = OneFile(E, name)
    st, v = call(E, E.getattr(hf, "save"))
    E.prove(B(st == "ok"), "saving is no error")
    if st != "ok": return
    E.prove(B(F.opened == ["w"]), "the file is written once")
    now = d.v
    E.prove(And(now.dom == dom, now.vals[0] == vals), "saving changes no entry")
    n, keys, idx = M.enum_of(E, d.v)
    E.prove(I(M.seq_len(E, F.lines)) == n, "one line per entry")
    i, j = E.const("i", IntS), E.const("j", IntS)
    E.fact(And(i >= 0, i < j, j < n))
    get = lambda k: M.seq_get(E, F.lines.v, k)
    # the entry of a line: the sorted pair it is built from
    src = E.last_sort
    E.prove(B(src is not None), "the lines are sorted")
    for k in (i, j):
        h, s = M.seq_get(E, src, k)
        E.prove(S(get(k)) == line(E, h, s, w), "a line is the padded hash, one space and the path")
        E.prove(And(z3.Select(dom, h), z3.Select(vals, h) == s), "every line is an entry")
    h, g = M.seq_get(E, src, i), M.seq_get(E, src, j)
    E.prove(Not(B(E.models.order(E, "lt", g[1], h[1]))), "lines are ordered by path")
    E.prove(h[0] != g[0], "no entry is written twice")
    E.cover("saved")


def lemmas(E, w):
    """what splitting a line gives, proved for arbitrary texts"""
    h, s = E.const("h", IntS), E.const("s", StrS)
    x = M.hexstr(E, h, w)
    nospace = Not(z3.Contains(x, S(" ")))
    l = line(E, h, s, w)
    n = z3.Length(x)
    fs = lambda h, s, x, l, n: And(z3.IndexOf(l, S(" "), 0) == n, z3.SubString(l, 0, n) == x, z3.SubString(l, n + 1, z3.Length(l) - n - 1) == z3.Concat(s, S("\n")))
    E.lemma(Implies(nospace, fs(h, s, x, l, n)), "a line splits at its first space into the hash and the path")
    return fs


def run_load(E):
    hf, name, w = hashfile(E)
    fs = lemmas(E, w)
    # the original mapping, and lines that are its entries in some order
    dom, vals = E.const("known", z3.ArraySort(IntS, BoolS)), E.const("paths", z3.ArraySort(IntS, StrS))
    n, H, L = E.const("n", IntS), E.const("H", z3.ArraySort(IntS, IntS)), E.const("L", z3.ArraySort(IntS, StrS))
    idx = z3.Function("line_of", IntS, IntS)
    j, x = z3.Int("j!"), z3.Int("x!")
    hx = z3.Function(f"hex{w}", IntS, StrS)
    E.fact(n >= 0)
    h = z3.Select(H, j)
    s = z3.Select(vals, h)
    l = z3.Select(L, j)
    has, before, after = z3.Function("has_20", StrS, BoolS), z3.Function("before_20", StrS, StrS), z3.Function("after_20", StrS, StrS)
    E.fact(forall([j], Implies(And(j >= 0, j < n), And(z3.Select(dom, h), h >= 0, idx(h) == j, has(l), before(l) == hx(h), after(l) == z3.Concat(s, S("\n")))), [l]))
    E.fact(forall([x], Implies(z3.Select(dom, x), And(idx(x) >= 0, idx(x) < n, z3.Select(H, idx(x)) == x)), [z3.Select(dom, x)]))
    # library facts: int(text, 16) inverts the hexadecimal form; stripping the line break of a path without line breaks
    ok, val = z3.Function("int_ok16", StrS, BoolS), z3.Function("int_of16", StrS, IntS)
    E.fact(forall([x], Implies(x >= 0, And(ok(hx(x)), val(hx(x)) == x)), [hx(x)]))
    strip = z3.Function("str_rstrip_0a", StrS, StrS)
    E.fact(forall([j], Implies(And(j >= 0, j < n), strip(z3.Concat(s, S("\n"))) == s), [z3.Select(L, j)]))
    E.fs = F = OneFile(E, name, ListCell(E, SSeq(STR, n, [L])))
    which = E.choose("state", [("not loaded", None), ("loaded", None), ("not loaded, forced", None), ("loaded, forced", None)])
    old = DictCell(E, SMap(INT, STR, E.const("old", z3.ArraySort(IntS, BoolS)), [E.const("oldpaths", z3.ArraySort(IntS, StrS))]))
    if which in (1, 3): hf.set("hashes", old)
    st, v = call(E, E.getattr(hf, "load"), **({"force": True} if which >= 2 else {}))
    if which == 1:
        E.prove(B(st == "ok" and E.resolve(v) is old and not F.opened), "a loaded list is not read again")
        if st == "ok" and isinstance(v, DictCell): E.prove(And(v.v.dom == z3.Const("old!0", z3.ArraySort(IntS, BoolS))) if not v.v.dom.eq(old.v.dom) else B(True), "a loaded list stays as it is")
        E.cover("cached")
        return
    if st == "exc":
        E.prove(And(B(is_exc(E, v, "FileNotFoundError")), Not(F.exists)), "only a missing file is an error, reported as not found")
        if which == 3: E.prove(B(E.resolve(E.getattr(hf, "hashes")) is old), "a failed reload keeps the list")
        else: E.prove(is_none(E, E.getattr(hf, "hashes")), "a failed load loads nothing")
        E.cover("missing file")
        return
    E.prove(F.exists, "a missing file is an error")
    E.prove(B(F.opened == ["r"]), "the file is read once")
    E.prove(B(E.identical(v, E.getattr(hf, "hashes"))), "the loaded mapping is the list's")
    m = v.v
    if isinstance(m, CMap): m = E.to_smap(m, INT, STR)
    k = E.const("key", IntS)
    E.fact(fcall("seen", z3.Select(L, idx(k)), ret=BoolS))      # the line of the key is worth looking at
    E.prove(Implies(z3.Select(m.dom, k), z3.Select(dom, k)), "no other entry is loaded")
    E.prove(Implies(z3.Select(dom, k), z3.Select(m.dom, k)), "every entry is loaded")
    E.prove(Implies(And(z3.Select(dom, k), z3.Select(m.dom, k)), z3.Select(m.vals[0], k) == z3.Select(vals, k)), "every entry has its path")
    E.cover("loaded")


GOALS = [Goal("save", run_save, covers=["saved"]), Goal("load", run_load, covers=["loaded", "cached", "missing file"])]
ASSUMPTIONS = ["int(text, 16) inverts '{:0Nx}' of a non-negative number, which contains no space", "the hash list widths are those in use (8 and 16)"]
