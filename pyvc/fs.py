"""Model of the file system seen through open() and os: trusted, with optional fault injection.

State: arrays over path text (two different texts are taken to be different files).
kind: 0 nothing, 1 regular file, 2 symbolic link; dirs: directories."""
import z3
from .core import *
from .values import *
from . import models as M
from .models import bi, FileV, EXTERNALS, ext, as_sb

PI, PB, PS, PD = (z3.ArraySort(StrS, s) for s in (IntS, ByteS, StrS, BoolS))


class FS(Cell):
    def __init__(self, E, faults=False, name="fs"):
        super().__init__(E, name, kind=E.const("fs_kind", PI), data=E.const("fs_data", PB), text=E.const("fs_text", PS),
                         link=E.const("fs_link", PS), dirs=E.const("fs_dirs", PD))
        self.faults = faults
        self.log = []          # (operation, path, fact) of the present path, for contracts about calls made
        E.assumed.add("file system: a write is complete unless it raises, distinct path texts are distinct files, removal of an existing file or directory succeeds")

    def a(self, s): return self.slots[s]
    def at(self, s, p): return z3.Select(self.slots[s], S(p))
    def put(self, s, p, v): self.set(s, z3.Store(self.slots[s], S(p), v))

    def fault(self, E, what):
        """an arbitrary exception at this point"""
        if self.faults and E.choose("fault-" + what, [("none", None), ("raise", None)]) == 1:
            e = SymExc("fault in " + what)
            self.raised = e
            raise PyRaise(e)

    # -- queries

    def pred(self, E, name, p):
        if not is_strlike(p): E.py_raise("TypeError", name)
        k, d = self.at("kind", p), self.at("dirs", p)
        tgt = fcall("fs_target_exists", S(p), self.slots["kind"], ret=BoolS)
        tgtf = fcall("fs_target_isfile", S(p), self.slots["kind"], ret=BoolS)
        if name == "isdir": return And(d, k == 0)
        if name == "isfile": return Or(k == 1, And(k == 2, tgtf))
        if name == "islink": return k == 2
        if name == "lexists": return Or(k != 0, d)
        return Or(k == 1, And(k == 2, tgt), d)

    def size(self, E, p):
        if not E.branch(self.at("kind", p) == 1, "getsize"): E.py_raise("FileNotFoundError")
        n = blen(self.at("data", p))
        E.fact(n >= 0)
        return n

    # -- changes

    def makedirs(self, E, p, exist_ok=False):
        self.fault(E, "makedirs")
        if not E.branch(self.at("kind", p) == 0, "makedirs"): E.py_raise("FileExistsError")
        if exist_ok is not True:
            if not E.branch(Not(self.at("dirs", p)), "makedirs-exists"): E.py_raise("FileExistsError")
        self.put("dirs", p, z3.BoolVal(True))

    def remove(self, E, p):
        if not E.branch(self.at("kind", p) != 0, "remove"): E.py_raise("FileNotFoundError")
        self.put("kind", p, z3.IntVal(0))
        self.on_remove(E, p)

    def on_remove(self, E, p): pass

    def symlink(self, E, src, dst):
        self.fault(E, "symlink")
        if not E.branch(And(self.at("kind", dst) == 0, Not(self.at("dirs", dst))), "symlink"): E.py_raise("FileExistsError")
        self.put("kind", dst, z3.IntVal(2))
        self.put("link", dst, S(src))

    def rename(self, E, a, b):
        self.fault(E, "rename")
        if not E.branch(self.at("kind", a) != 0, "rename"): E.py_raise("FileNotFoundError")
        for s in ("kind", "data", "text", "link"): self.put(s, b, self.at(s, a))
        self.put("kind", a, z3.IntVal(0))

    def rmtree(self, E, p, ignore_errors=False):
        """everything at or below p disappears"""
        if not E.branch(self.at("dirs", p), "rmtree"):
            if ignore_errors is True: return
            E.py_raise("FileNotFoundError")
        q = z3.String("q!")
        k0, d0 = self.slots["kind"], self.slots["dirs"]
        k, d = E.const("fs_kind", PI), E.const("fs_dirs", PD)
        below = lambda q: Or(q == S(p), fcall("path_below", q, S(p), ret=BoolS))
        E.fact(forall([q], z3.Select(k, q) == z3.If(below(q), 0, z3.Select(k0, q)), [z3.Select(k, q)]))
        E.fact(forall([q], z3.Select(d, q) == And(Not(below(q)), z3.Select(d0, q)), [z3.Select(d, q)]))
        self.set("kind", k)
        self.set("dirs", d)

    def open(self, E, p, mode, kw):
        if not is_strlike(p): E.py_raise("TypeError", "open")
        if not isinstance(mode, str): raise Unsupported("symbolic open mode")
        if "w" in mode or "x" in mode:
            self.fault(E, "open")
            if "x" in mode and E.branch(self.at("kind", p) != 0, "open-x"): E.py_raise("FileExistsError")
            if E.branch(And(self.at("dirs", p), self.at("kind", p) == 0), "open-dir"): E.py_raise("IsADirectoryError")
            self.put("kind", p, z3.IntVal(1))
            E.byte_axioms() if "b" in mode else None
            self.put("data", p, bempty)
            self.put("text", p, z3.StringVal(""))
            self.fault(E, "open (after truncation)")
            return WFile(E, self, p, "b" in mode)
        if "a" in mode or "+" in mode: raise Unsupported("open mode " + mode)
        if not E.branch(self.at("kind", p) == 1, "open-read"): E.py_raise("FileNotFoundError")
        if "b" in mode:
            t = self.at("data", p)
            E.fact(blen(t) >= 0)
            return FileV(E, SB(t, 0, blen(t)))
        return M.TextFile(E, self.at("text", p))


class WFile:
    """file open for writing"""
    def __init__(self, E, fs, path, binary): self.fs, self.path, self.binary = fs, path, binary
    def attr(self, E, name):
        if name == "write": return bi("write", lambda b: self.write(E, E.resolve(b)))
        if name == "writelines": return bi("writelines", lambda it: E.iterate(it, lambda b: self.write(E, E.resolve(b))))
        if name in ("close", "flush"): return bi(name, lambda: self.fs.fault(E, name))
        if name == "name": return self.path
        raise Unsupported("file." + name)
    def write(self, E, b):
        fs = self.fs
        if self.binary:
            if not isinstance(b, (bytes, SB)): E.py_raise("TypeError", "a bytes-like object is required")
            if fs.faults and E.choose("fault-write", [("none", None), ("raise", None)]) == 1:
                fs.put("data", self.path, E.const("partial", ByteS))
                raise PyRaise(SymExc("fault in write"))
            t = E.bseq(b)
            old = z3.simplify(fs.at("data", self.path))
            fs.put("data", self.path, t if old.eq(bempty) else bcat(old, t))
            return blen(t)
        if not is_strlike(b): E.py_raise("TypeError", "write() argument must be str")
        if fs.faults and E.choose("fault-write", [("none", None), ("raise", None)]) == 1:
            fs.put("text", self.path, E.const("partial", StrS))
            raise PyRaise(SymExc("fault in write"))
        fs.put("text", self.path, z3.Concat(fs.at("text", self.path), S(b)))
        return z3.Length(S(b))
    def context(self, E):
        def exit_(exc):
            if self.fs.faults and E.choose("fault-close", [("none", None), ("raise", None)]) == 1:
                self.fs.put("data", self.path, E.const("partial", ByteS))
                self.fs.put("text", self.path, E.const("partial", StrS))
                raise PyRaise(SymExc("fault in close"))
        return (lambda: self), exit_


def need(E):
    if E.fs is None: raise Unsupported("file system change without a file system model")
    return E.fs

def _op(name, n):
    def f(E, a, k):
        fs = need(E)
        a = [E.resolve(x) for x in a]
        if not all(is_strlike(x) for x in a[:n]): E.py_raise("TypeError", name)
        return getattr(fs, name)(E, *a, **{x: y for x, y in k.items() if x in ("exist_ok", "ignore_errors")})
    return f
EXTERNALS["os.makedirs"] = _op("makedirs", 1)
EXTERNALS["os.mkdir"] = _op("makedirs", 1)
EXTERNALS["os.remove"] = _op("remove", 1)
EXTERNALS["os.unlink"] = _op("remove", 1)
EXTERNALS["os.symlink"] = _op("symlink", 2)
EXTERNALS["os.rename"] = _op("rename", 2)
EXTERNALS["os.replace"] = _op("rename", 2)
EXTERNALS["shutil.rmtree"] = _op("rmtree", 1)
EXTERNALS["os.path.getsize"] = _op("size", 1)


def run_with(E, cm, body):
    """with cm as v: body(v), where cm is a generator-based context manager"""
    depth = len(E.frames)
    entered = []
    def on_yield(v):
        if entered: raise Unsupported("the generator yields twice")
        entered.append(1)
        rest = E.frames[depth:]
        del E.frames[depth:]
        try:
            body(v)
        finally:
            E.frames[depth:] = rest
        return None
    if isinstance(cm, CtxV): cm.run(on_yield)
    else:
        enter, exit_ = M.context(E, cm)
        v = enter()
        try:
            body(v)
        except PyRaise as pr:
            del E.frames[depth:]
            E.exc_stack.append(pr.exc)
            try:
                if exit_(pr.exc): return
            finally:
                E.exc_stack.pop()
            raise
        exit_(None)
        return
    if not entered: E.py_raise("RuntimeError", "generator didn't yield")
