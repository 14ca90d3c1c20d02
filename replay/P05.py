"""guarded blocks that write random data and raise at a random point (own exceptions, interrupts, injected failures of open/makedirs/write), over targets that exist or not; downloads over scripted HTTP sessions"""
from lib import *
import os, builtins, io
import cdtb.tools as T
import cdtb.storage as ST
from cdtb.storage import Storage

class Mine(Exception): pass
EXC = {"Mine": Mine, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "OSError": OSError, "ValueError": ValueError, "GeneratorExit": GeneratorExit, "FileNotFoundError": FileNotFoundError, "StopIteration": StopIteration, "MemoryError": MemoryError}

def generate(rng, hints):
    kind = rng.choice(["file", "file", "dir", "download", "download"])
    pre = rng.choice([None, None, b"", rbytes(rng, 5)])
    name = rng.choice(["a", "sub/a", "sub/deep/a", "other"])
    if kind == "download":
        return ("download", pre, rng.choice(["a", "sub/x/a", None]), rng.choice([None, False, True]), rng.choice([200, 200, 200, 404, 500, "conn", 304]), rbytes(rng, rng.choice([0, 3, 100])),
                rng.choice([None, None, None, "write", "close", "content"]), rng.choice(list(EXC)))
    n = rng.randint(0, 4)
    return (kind, pre, name, [rbytes(rng, rng.choice([0, 1, 7])) for _ in range(n)], rng.choice([None, None, rng.randint(0, n)]), rng.choice(list(EXC)), rng.choice([True, True, False]),
            rng.choice([None, None, None, "open", "makedirs", "close"]))

def tree(root):
    out = {}
    for r, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, root)] = os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
        for d in ds: out[os.path.relpath(os.path.join(r, d), root) + "/"] = None
    return out

class Fault:
    def __init__(self, op, exc): self.op, self.exc = op, exc
    def __enter__(self):
        self.saved = (builtins.open, os.makedirs, os.mkdir)
        me = self
        def bad(*a, **k): raise me.exc
        if self.op == "open": builtins.open = lambda p, m="r", *a, **k: bad() if ("w" in m or "a" in m or "x" in m) else me.saved[0](p, m, *a, **k)
        if self.op == "makedirs": os.makedirs = os.mkdir = bad
        if self.op in ("close", "write"):
            def opener(p, m="r", *a, **k):
                f = me.saved[0](p, m, *a, **k)
                if "w" not in m: return f
                class F:
                    def __init__(s): s.f = f
                    def write(s, b):
                        if me.op == "write":
                            f.write(b[:len(b) // 2]); f.flush()
                            raise me.exc
                        return f.write(b)
                    def __enter__(s): return s
                    def __exit__(s, *a):
                        s.close()
                    def close(s):
                        f.close()
                        if me.op == "close": raise me.exc
                    def __getattr__(s, n): return getattr(f, n)
                return F()
            builtins.open = opener
    def __exit__(self, *a):
        builtins.open, os.makedirs, os.mkdir = self.saved

def run(fn):
    try:
        return None, fn()
    except BaseException as e:
        if isinstance(e, Hang): raise
        return e, None

def check(case, tmp):
    os.makedirs(os.path.join(tmp, "sub"))
    with open(os.path.join(tmp, "other"), "wb") as f: f.write(b"keep")
    with open(os.path.join(tmp, "sub", "side"), "wb") as f: f.write(b"keep too")
    with open(os.path.join(tmp, "a.tmp"), "wb") as f: f.write(b"neighbour")
    if case[0] == "download": return download(case, tmp)
    kind, pre, name, blocks, at, exc, binary, fault = case
    target = os.path.join(tmp, name)
    if pre is not None and kind == "file":
        os.makedirs(os.path.dirname(target), exist_ok=True)
        with open(target, "wb") as f: f.write(pre)
    if kind == "dir":
        if name == "other": name, target = "newdir", os.path.join(tmp, "newdir")
        if pre is not None:
            os.makedirs(target)
            with open(os.path.join(target, "old"), "wb") as f: f.write(pre)
    before = tree(tmp)
    e0 = EXC[exc]("planned")
    def go():
        if kind == "file":
            with T.write_file_or_remove(target, **({} if binary else {"binary": False})) as f:
                for i, b in enumerate(blocks):
                    if i == at: raise e0
                    f.write(b if binary else b.hex())
                if at == len(blocks): raise e0
        else:
            with T.write_dir_or_remove(target):
                for i, b in enumerate(blocks):
                    if i == at: raise e0
                    d = os.path.join(target, "d%d" % (i % 2))
                    os.makedirs(d, exist_ok=True)
                    with open(os.path.join(d, "f%d" % i), "wb") as f: f.write(b)
                if at == len(blocks): raise e0
    ef = PermissionError("injected")
    if kind == "dir" and fault in ("close", "open"): fault = None
    with Fault(fault, ef):
        e, _ = run(go)
    after = tree(tmp)
    rel = name
    inside = lambda p: p == rel or p == rel + "/" or p.startswith(rel + "/")
    parents = [rel[:i] + "/" for i, c in enumerate(rel) if c == "/"]
    outside = lambda t: {p: v for p, v in t.items() if not inside(p) and p not in parents}
    same(outside(after), outside(before), "paths other than the target")
    if at is None and fault is None:
        same(e, None, "exception raised without a cause")
        if kind == "file": same(after.get(rel), b"".join(b if binary else b.hex().encode() for b in blocks), "content written")
        else: need(rel + "/" in after, "directory exists after success")
        if kind == "dir":
            same({p: v for p, v in after.items() if inside(p) and v is not None},
                 {**{p: v for p, v in before.items() if inside(p) and v is not None}, **{f"{rel}/d{i % 2}/f{i}": b for i, b in enumerate(blocks)}}, "directory content")
    else:
        need(e is not None, "the exception reaches the caller")
        if fault is None or fault not in ("open", "makedirs", "close"): need(e is e0 or type(e0) is StopIteration and e.__cause__ is e0, f"the same exception reaches the caller: {e!r}")
        elif fault in ("open", "makedirs"): need(e is ef, f"the injected exception reaches the caller: {e!r}")
        same({p: v for p, v in after.items() if inside(p)}, {}, "left over after a failure")

def download(case, tmp):
    _, pre, path, force, status, body, fault, exc = case
    import requests
    calls = []
    err = ConnectionError("conn")
    e0 = EXC[exc]("planned")
    class R(requests.Response):
        def __init__(self):
            super().__init__()
            self.status_code = status if isinstance(status, int) else 200
            self._content = body
            self.url = "u"
        @property
        def content(self):
            if fault == "content": raise e0
            return body
        def iter_content(self, n=1, *a, **k):
            if fault == "content": raise e0
            for i in range(0, len(body), max(1, n or 1)): yield body[i:i + (n or 1)]
        def __enter__(self): return self
        def __exit__(self, *a): pass
    class S:
        headers = {}
        def get(self, *a, **k):
            calls.append(a)
            if status == "conn": raise err
            return R()
        head = get
    root = os.path.join(tmp, "root")
    os.makedirs(root)
    st = Storage.__new__(Storage)
    st.path, st.s, st.url = root, S(), "http://x/"
    urlpath = "a" if path is None else "remote/a"
    rel = path or urlpath
    if pre is not None:
        os.makedirs(os.path.dirname(os.path.join(root, rel)), exist_ok=True)
        with open(os.path.join(root, rel), "wb") as f: f.write(pre)
    before = tree(tmp)
    ef = PermissionError("injected")
    with Fault(fault, ef):
        e, _ = run(lambda: st.download(urlpath, path, **({} if force is None else {"force": force})))
    after = tree(tmp)
    me = "root/" + rel
    parents = [me[:i] + "/" for i, c in enumerate(me) if c == "/"]
    outside = lambda t: {p: v for p, v in t.items() if p != me and p not in parents}
    same(outside(after), outside(before), "paths other than the target")
    if pre is not None and not force:
        same((e, calls), (None, []), "a present file is not downloaded again")
        same(after, before, "disk after a skipped download")
        return
    need(calls, "a request is made")
    if status == "conn" or status >= 400:
        need(e is not None, "an HTTP failure reaches the caller")
        same(after, before, "disk after a failed request")
    elif fault:
        need(e is ef or e is e0 or getattr(e, "__cause__", None) is e0, f"the injected exception reaches the caller: {e!r}")
        if e is ef: need(me not in after, "a partial download is left")
        else: need(me not in after or after[me] == pre, "a partial download is left")
    else:
        need(e is None, f"download raises {e!r}")
        same(after.get(me), body, "downloaded content")
