"""Symbolic interpreter for the Python source of the repository (the text that runs, parsed on every run)."""
import ast
import os
import z3
from .core import *
from .core import Base
from .loops import LoopMixin, LoopInfo, LoopCtx, Raw, BOT, join_kind
from .exprs import ExprMixin
from .values import *

REPO = os.environ.get("VERIF_REPO", "/repo")


def assigned_names(node):
    """names bound in a function body (its locals)"""
    out, nonloc = set(), set()
    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
            out.add(n.name); return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                for w in ast.walk(g.target):
                    pass
            for c in ast.iter_child_nodes(n):
                for w in ast.walk(c):
                    if isinstance(w, ast.NamedExpr): out.add(w.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            nonloc.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names: out.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for b in body:
        walk(b)
    return out - nonloc, nonloc


class Module:
    cache = {}
    @classmethod
    def load(cls, name):
        path = os.path.join(REPO, "cdtb", name + ".py")
        with open(path) as f:
            src = f.read()
        key = (path, src)
        if key not in cls.cache:
            cls.cache[key] = ast.parse(src, path)
        return cls.cache[key]


class Engine(LoopMixin, ExprMixin, Base):
    def __init__(self, cfg=None):
        super().__init__(cfg)
        self.heap_classes, self.live_lists = set(), set()      # classes whose objects live in the heap from the start; list fields modified in place, each list being held by one object only
        from . import models
        self.models = models
        self.externals = dict(models.EXTERNALS)     # dotted name -> handler(E, args, kwargs)
        self.used_contracts = set()
        self.eq_hook = None                         # equality of values that a contract keeps abstract
        self.contracts = {}                         # repository function -> handler
        self.global_overrides = {}                  # "module.name" -> value builder(E)
        self.invariants = []                        # functions(LoopCtx) adding candidates
        self.attr_hooks = {}
        self.field_hooks = {}
        self.on_call = None

    def begin_hook(self):
        self.modules = {}
        self.frames = []
        self.heap_reg = {}
        self.heap = Cell(self, "heap", alloc=z3.Int("alloc0"))
        self.fact(z3.Int("alloc0") >= 1)
        self.models.begin(self)

    # ------------------------------------------------------------------ modules and classes

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            tree = Module.load(name)
            m = self.modules[name] = {"$name": name, "$tree": tree, "$pending": {}}
            self._scan(m, tree.body)
        return m

    def _scan(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                m["$pending"][st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for w in ast.walk(t):
                        if isinstance(w, ast.Name):
                            m["$pending"][w.id] = st
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                m["$pending"][st.target.id] = st
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    m["$pending"][(a.asname or a.name).split('.')[0]] = (st, a)
            elif isinstance(st, ast.Try):
                self._scan(m, st.body)
            elif isinstance(st, (ast.Expr, ast.Pass)):
                pass
            elif isinstance(st, ast.If):
                pass
            else:
                raise Unsupported(f"module level {type(st).__name__}")

    def global_get(self, m, name):
        full = f"{m['$name']}.{name}"
        if full in self.global_overrides:
            if name not in m:
                m[name] = self.global_overrides[full](self)
            return m[name]
        if name in m:
            return m[name]
        st = m["$pending"].get(name)
        if st is None:
            raise KeyError(name)
        m[name] = UNDEF
        if isinstance(st, ast.FunctionDef):
            v = self.make_func(st, m, None, st.name)
        elif isinstance(st, ast.ClassDef):
            v = self.make_class(st, m, None)
        elif isinstance(st, tuple):
            v = self.do_import(*st)
        else:
            fr = self.new_frame(m, None, f"{m['$name']}", set(), lazy=True)
            self.frames.append(fr)
            try:
                val = self.eval(st.value)
                targets = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in targets:
                    if isinstance(t, ast.Name):
                        m[t.id] = val
                    elif isinstance(t, ast.Attribute):
                        pass
                    else:
                        raise Unsupported("module level unpacking")
            finally:
                self.frames.pop()
            return m[name]
        m[name] = v
        return v

    def do_import(self, st, a):
        if isinstance(st, ast.Import):
            if a.name.startswith("cdtb"):
                return ModV(a.name)
            return ModV(a.name if a.asname else a.name.split('.')[0])
        modname = st.module or ""
        if st.level or modname.startswith("cdtb"):
            modname = modname.replace("cdtb.", "").replace("cdtb", "")
            if not modname:
                return ModV("cdtb." + a.name)
            return self.global_get(self.module(modname), a.name)
        return self.ext_attr(modname, a.name)

    def ext_attr(self, modname, attr):
        full = f"{modname}.{attr}"
        if modname.startswith("cdtb."):
            return self.global_get(self.module(modname[5:]), attr)
        full = self.models.ALIASES.get(full, full)
        if full in self.externals:
            h = self.externals[full]
            return BuiltinV(full, h) if callable(h) else h
        if full in BUILTIN_EXC:
            return TypeV(full)
        if full in self.models.CONSTANTS:
            return self.models.CONSTANTS[full]
        if full in self.models.MODULES:
            return ModV(full)
        return BuiltinV(full, None)

    def make_func(self, node, m, frame, name, cls=None):
        f = FuncV(node, m, frame, name, cls)
        decs = [self.dec_name(d) for d in node.decorator_list]
        for d in reversed(decs):
            if d in ("staticmethod", "classmethod", "property"):
                f = Wrap(d, f)
            elif d in ("contextmanager", "contextlib.contextmanager"):
                g = f
                f = BuiltinV("ctx:" + name, None)
                f.ctx = g
            else:
                raise Unsupported(f"decorator {d}")
        return f

    def dec_name(self, d):
        return ast.unparse(d)

    def make_class(self, node, m, frame):
        c = ClassV(node, m, frame, node.name)
        for b in node.bases:
            self.frames.append(frame or self.new_frame(m, None, m["$name"], set(), lazy=True))
            try:
                bv = self.eval(b)
            finally:
                self.frames.pop()
            if isinstance(bv, TypeV) and bv.name in BUILTIN_EXC or isinstance(bv, ClassV) and bv.isexc:
                c.isexc = True
            if isinstance(bv, BuiltinV) and bv.name in ("enum.Enum", "enum.IntEnum") or isinstance(bv, ClassV) and bv.enum is not None:
                c.enum = []
                c.intenum = bv.name == "enum.IntEnum"
            c.bases.append(bv)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                qn = f"{node.name}.{st.name}"
                c.attrs[st.name] = self.make_func(st, m, frame, qn, c)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if not isinstance(t, ast.Name):
                        raise Unsupported("class level unpacking")
                    c.exprs[t.id] = st.value
                    if c.enum is not None and isinstance(st.value, ast.Constant):
                        c.enum.append((t.id, st.value.value))
            elif isinstance(st, ast.AnnAssign):
                if st.value is not None:
                    c.exprs[st.target.id] = st.value
            elif isinstance(st, (ast.Expr, ast.Pass)):
                pass
            elif isinstance(st, ast.ClassDef):
                c.attrs[st.name] = self.make_class(st, m, frame)
            else:
                raise Unsupported(f"class level {type(st).__name__}")
        return c

    def mro(self, c):
        out = [c]
        for b in c.bases:
            if isinstance(b, ClassV):
                out += [x for x in self.mro(b) if x not in out]
        return out

    def class_lookup(self, c, name):
        """(found, value) of a class attribute"""
        for k in self.mro(c):
            if name in k.attrs:
                return True, k.attrs[name]
            if name in k.exprs:
                if k.enum is not None and any(n == name for n, _ in k.enum):
                    v = EnumVal(k, [n for n, _ in self.models.enum_values(self, k)].index(name))
                    k.attrs[name] = v
                    return True, v
                fr = self.new_frame(k.mod, k.frame, k.name, set(), lazy=True)
                fr.classv = k
                self.frames.append(fr)
                try:
                    v = self.eval(k.exprs[name])
                finally:
                    self.frames.pop()
                k.attrs[name] = v
                return True, v
        return False, None

    def cls(self, spec):
        """class by 'module.Class'"""
        m, n = spec.split('.')
        return self.global_get(self.module(m), n)

    def is_subclass(self, c, d):
        if isinstance(c, str): c = TypeV(c)
        if isinstance(d, str): d = TypeV(d)
        if isinstance(c, ClassV):
            if isinstance(d, ClassV):
                return any(k is d or (k.name == d.name and k.mod["$name"] == d.mod["$name"]) for k in self.mro(c))
            for k in self.mro(c):
                for b in k.bases:
                    if isinstance(b, TypeV) and self.is_subclass(b, d): return True
            return d.name == "object"
        if isinstance(d, ClassV):
            return False
        n = c.name
        while n is not None:
            if n == d.name: return True
            n = BUILTIN_EXC.get(n)
        return False

    # ------------------------------------------------------------------ frames and names

    def new_frame(self, m, parent, name, names, lazy=False):
        n = self.ncells
        fr = Cell(self, f"frame:{name}")
        if lazy:      # evaluation of something that is kept afterwards: not part of the history of this path
            del self.cells[fr.uid]
            self.ncells = n
            fr.uid = (f"lazy:{name}", -len(self.frames) - 1)
            self.cells[fr.uid] = fr
        fr.mod, fr.parent, fr.fname, fr.names, fr.nonloc = m, parent, name, names, set()
        fr.classv = None
        fr.on_yield = None
        fr.defcls = None
        fr.selfv = None
        return fr

    def lookup(self, name):
        fr = self.frames[-1]
        if fr.classv is not None:
            ok, v = (name in fr.classv.attrs, fr.classv.attrs.get(name))
            if ok: return v.fn if isinstance(v, Wrap) else v
            if name in fr.classv.exprs: return self.class_lookup(fr.classv, name)[1]
        f = fr
        while f is not None:
            if name in f.slots:
                v = f.slots[name]
                if v is UNDEF:
                    raise Unsupported(f"value of {name} unknown after a loop")
                return v
            if name in f.names:
                self.py_raise("UnboundLocalError", name)
            f = f.parent
        try:
            v = self.global_get(fr.mod, name)
            if v is UNDEF:
                raise Unsupported(f"circular global {name}")
            return v
        except KeyError:
            pass
        if name in self.models.BUILTINS:
            return self.models.BUILTINS[name]
        if name == "__name__": return "cdtb." + fr.mod["$name"]
        if name in BUILTIN_EXC:
            return TypeV(name)
        self.py_raise("NameError", name)

    def store_name(self, name, v):
        fr = self.frames[-1]
        f = fr
        while f is not None and name in f.nonloc:
            f = f.parent
            while f is not None and name not in f.names:
                f = f.parent
        if f is None:
            raise Unsupported("write to a global")
        self.write(f, name, v)

    # ------------------------------------------------------------------ exceptions

    def py_raise(self, cls, *args):
        if isinstance(cls, str):
            cls = TypeV(cls)
        raise PyRaise(ExcV(cls, args))

    def exc_matches(self, exc, cls):
        if isinstance(cls, tuple):
            return any(self.exc_matches(exc, c) for c in cls)
        if isinstance(cls, (ListCell, CSeq)):
            raise Unsupported("dynamic exception class list")
        if isinstance(cls, BuiltinV):
            cls = TypeV(cls.name)
        if isinstance(exc, SymExc):
            n = exc_name(cls)
            if self.is_subclass(exc.base, cls):
                return True
            if n in exc.tests:
                return exc.tests[n]
            for m, r in exc.tests.items():      # consistency with earlier answers
                if r and self.is_subclass(m, n): return True
                if not r and self.is_subclass(n, m): return False
                if r and not self.is_subclass(n, m) and not self.is_subclass(m, n) : return False
            if not self.is_subclass(cls, exc.base):
                return False
            r = self.choose(f"exc-is-{n}", [("yes", None), ("no", None)]) == 0
            exc.tests[n] = r
            return r
        return self.is_subclass(exc.cls, cls)

    # ------------------------------------------------------------------ calls

    def call_function(self, f, args, kwargs, selfv=None):
        qn = f"{f.mod['$name']}.{f.name}"
        h = self.contracts.get(qn)
        if h is not None:
            r = h(self, args, kwargs)
            if r is not NotImplemented:
                self.used_contracts.add(qn)
                return r
        self.functions.add(qn)
        names, nonloc = assigned_names(f.node)
        fr = self.new_frame(f.mod, f.frame, f.name, set(names))
        fr.nonloc = nonloc
        fr.defcls = f.cls
        self.bind_args(f, fr, args, kwargs)
        if args: fr.selfv = args[0]
        if len(self.frames) > 60:
            raise Unsupported(f"recursion in {qn} without contract")
        if f.isgen and getattr(self, "lazy_generators", None) and isinstance(f.node, ast.FunctionDef) and isinstance(f.node.body[-1], ast.For):
            r = self.lazy_generator(f, fr)
            if r is not None: return r
        if f.isgen:
            return GenV(lambda cb: self.run_body(f, fr, cb))
        return self.run_body(f, fr, None)

    def lazy_generator(self, f, fr):
        """the generator as an iterator over a sequence, when its body ends in a loop over a symbolic sequence that yields at most one
        value per iteration and has no other effect (what precedes the loop runs when the generator is made)"""
        *head, loop = f.node.body
        has_yield = lambda x: any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(x))
        if any(has_yield(x) for x in head) or loop.orelse or any(isinstance(y, (ast.Break, ast.Return, ast.YieldFrom)) for y in ast.walk(loop)): return None
        self.frames.append(fr)
        depth = len(self.frames)
        try:
            self.exec_block(head)
            it = self.resolve(self.eval(loop.iter))
        except ReturnSig:
            return IterCell(self, ())
        finally:
            del self.frames[depth - 1:]
        changed = {x.id for x in ast.walk(loop) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        view = self.models.iter_view(self, it)
        if isinstance(view, (tuple, list)) or any(x in fr.slots for x in changed): raise Unsupported("lazy generator")
        def one(k):
            fr2 = self.new_frame(f.mod, f.frame, f.name, fr.names)
            fr2.nonloc, fr2.defcls, fr2.selfv = fr.nonloc, fr.defcls, fr.selfv
            fr2.slots.update(fr.slots)
            got = []
            fr2.on_yield = got.append
            self.frames.append(fr2)
            try:
                try:
                    self.assign(loop.target, view.get(k))
                    self.exec_block(loop.body)
                except ContinueSig: pass
            finally:
                self.frames.pop()
            if len(got) > 1: raise Unsupported("lazy generator")
            return ("val", got[0]) if got else ("skip", None)
        p = self.pure_map(view.n, one)
        if p is None: raise Unsupported("lazy generator with effects")
        cv = self.models.comp_view(self, p)
        it = IterCell(self, SeqView(cv.m, cv.elem))
        it.kept, it.summary = cv, p
        self.lazy_generators(it)
        return it

    def run_body(self, f, fr, on_yield):
        if sum(1 for x in self.frames if x.fname == f.name and x.mod is f.mod) > 12:
            raise Unsupported(f"recursion in {f.name} without contract")
        self.frames.append(fr)
        fr.on_yield = on_yield
        depth = len(self.frames)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body)
            self.exec_block(f.node.body)
            return None
        except ReturnSig as r:
            if r.frame is not fr:
                raise
            return r.value
        finally:
            del self.frames[depth - 1:]

    def bind_args(self, f, fr, args, kwargs):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        for p in params + [x.arg for x in a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else []):
            fr.names.add(p)
        vals = dict(zip(params, args))
        if len(args) > len(params):
            if a.vararg is None:
                self.py_raise("TypeError", "too many arguments")
            fr.slots[a.vararg.arg] = tuple(args[len(params):])
        elif a.vararg is not None:
            fr.slots[a.vararg.arg] = ()
        extra = {}
        for k, v in kwargs.items():
            if k in vals:
                self.py_raise("TypeError", "multiple values")
            if k in params or k in [x.arg for x in a.kwonlyargs]:
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.py_raise("TypeError", "unexpected keyword")
        if a.kwarg is not None:
            fr.slots[a.kwarg.arg] = DictCell(self, CMap(tuple(extra.items())))
        nd = len(a.defaults)
        for p, d in list(zip(params[len(params) - nd:], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p not in vals:
                df = self.new_frame(f.mod, f.frame, f.name, set(), lazy=True)
                df.classv = f.cls
                self.frames.append(df)
                try:
                    vals[p] = self.eval(d)
                finally:
                    self.frames.pop()
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p not in vals:
                self.py_raise("TypeError", f"missing argument {p}")
            fr.slots[p] = vals[p]

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, SOpt):
            f = self.resolve(f)
        if isinstance(f, FuncV):
            return self.call_function(f, args, kwargs)
        if isinstance(f, BoundV):
            return self.call(f.fn, [f.recv] + list(args), kwargs)
        if isinstance(f, Wrap):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, BuiltinV):
            if getattr(f, "ctx", None) is not None:
                g = f.ctx
                qn = f"{g.mod['$name']}.{g.name}"
                if qn in self.contracts:
                    return self.contracts[qn](self, args, kwargs)
                return CtxV(lambda cb: self.call_function(g, args, kwargs).run(cb))
            if f.fn is None:
                raise Unsupported(f"no model of {f.name}")
            return f.fn(self, args, kwargs)
        if isinstance(f, TypeV):
            return self.models.construct(self, f, args, kwargs)
        if callable(f):
            return f(self, args, kwargs)
        if isinstance(f, Obj):
            m = self.find_method(f, "__call__")
            if m: return self.call(m, args, kwargs)
        self.py_raise("TypeError", f"{f!r} is not callable")

    def instantiate(self, c, args, kwargs):
        qn = f"{c.mod['$name']}.{c.name}"
        if qn in self.contracts:
            return self.contracts[qn](self, args, kwargs)
        if c.isexc:
            e = ExcV(c, tuple(args))
            ok, init = self.class_lookup(c, "__init__")
            if ok:
                self.call(init, [e] + list(args), kwargs)
            return e
        if c.enum is not None:
            return self.models.enum_from_value(self, c, args[0])
        o = Obj(self, c)
        if c.name in self.heap_classes: self.publish(o)
        ok, init = self.class_lookup(c, "__init__")
        if ok:
            self.call(init, [o] + list(args), kwargs)
        elif args or kwargs:
            self.py_raise("TypeError", "constructor takes no arguments")
        return o

    def find_method(self, o, name):
        c = o.cls if isinstance(o, (Obj, SObj)) else None
        if isinstance(o, EnumVal): c = o.cls
        if isinstance(c, (str, RecCls)): return None
        if c is None: return None
        ok, v = self.class_lookup(c, name)
        if ok and isinstance(v, FuncV):
            return BoundV(o, v)
        return None

    # ------------------------------------------------------------------ attributes

    def getattr(self, o, name):
        o = self.resolve(o)
        if isinstance(o, SObj) and isinstance(o.cls, RecCls): return self.models.rec_method(self, o, name)
        if isinstance(o, (Obj, SObj)):
            hook = self.attr_hooks.get((clsname(o.cls), name))
            if hook is not None:
                return hook(self, o)
            if isinstance(o, Obj) and "$ref" not in o.slots:
                if name in o.slots:
                    v = o.slots[name]
                    if v is UNDEF: raise Unsupported(f"attribute {name} unknown after a loop")
                    return v
            else:
                v = self.heap_get(o, name)
                if v is not UNDEF:
                    if (clsname(o.cls), name) in self.live_lists: return HeapList(self, o, name)
                    return v
            if isinstance(o.cls, ClassV):
                ok, v = self.class_lookup(o.cls, name)
                if ok:
                    if isinstance(v, Wrap):
                        if v.kind == "staticmethod": return v.fn
                        if v.kind == "classmethod": return BoundV(o.cls, v.fn)
                        return self.call(v.fn, [o])
                    if isinstance(v, FuncV): return BoundV(o, v)
                    if isinstance(v, BuiltinV) and getattr(v, "ctx", None) is not None: return BoundV(o, v)
                    return v
                if name == "__class__": return o.cls
            m = self.models.obj_attr(self, o, name)
            if m is not None: return m
            self.py_raise("AttributeError", name)
        if isinstance(o, ModV):
            if o.name == "cdtb" or o.name.startswith("cdtb."):
                mod = o.name[5:]
                if not mod: return ModV("cdtb." + name)
                return self.global_get(self.module(mod), name)
            return self.ext_attr(o.name, name)
        if isinstance(o, ClassV):
            if name in ("__name__", "__qualname__"): return o.name
            ok, v = self.class_lookup(o, name)
            if not ok:
                if name == "__new__": return BuiltinV("new", lambda E, a, k: Obj(E, a[0]))
                if o.enum is not None and name == "__members__": raise Unsupported("enum members")
                self.py_raise("AttributeError", name)
            if isinstance(v, Wrap):
                if v.kind == "staticmethod": return v.fn
                if v.kind == "classmethod": return BoundV(o, v.fn)
            return v
        if isinstance(o, SuperV):
            for k in self.mro(o.cls if isinstance(o.selfv, ClassV) else o.selfv.cls if False else o.cls)[1:]:
                if name in k.attrs or name in k.exprs:
                    ok, v = self.class_lookup(k, name)
                    if isinstance(v, Wrap):
                        if v.kind == "staticmethod": return v.fn
                        return BoundV(o.selfv if isinstance(o.selfv, ClassV) else o.selfv.cls, v.fn)
                    return BoundV(o.selfv, v)
            if name == "__init__": return BuiltinV("object.__init__", lambda E, a, k: None)
            self.py_raise("AttributeError", name)
        if isinstance(o, ExcV):
            if name in o.attrs: return o.attrs[name]
            if name == "args": return tuple(o.args)
            if isinstance(o.cls, ClassV):
                ok, v = self.class_lookup(o.cls, name)
                if ok: return BoundV(o, v) if isinstance(v, FuncV) else v
        return self.models.getattr_(self, o, name)

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, ExcV):
            o.attrs[name] = v
            return
        if isinstance(o, Obj) and "$ref" not in o.slots:
            o.set(name, v)
        elif isinstance(o, (Obj, SObj)):
            self.heap_set(o, name, v)
        elif isinstance(o, ClassV):
            raise Unsupported("class attribute assignment")
        else:
            self.py_raise("AttributeError", name)

    # ---- heap of published objects

    def ref_of(self, o):
        return o.ref if isinstance(o, SObj) else o.slots["$ref"]

    def field_kind(self, cn, name):
        return self.class_fields.get((cn, name))

    def heap_slots(self, cn, name, kind):
        for i, s in enumerate(kind.sorts()):
            key = f"{cn}.{name}.{i}"
            if key not in self.heap.slots:
                self.heap.slots[key] = self.heap_reg[key] = z3.Const(f"H0_{cn}_{name}_{i}", z3.ArraySort(IntS, s))
                if i == 0:
                    r = z3.Int("r!")
                    ts = [z3.Select(z3.Const(f"H0_{cn}_{name}_{j}", z3.ArraySort(IntS, s2)), r) for j, s2 in enumerate(kind.sorts())]
                    for w in kind.wf(self, ts):
                        self.fact(z3.ForAll([r], w, patterns=[ts[0]]))
            yield key

    def heap_terms(self, cn, name, ref):
        kind = self.field_kind(cn, name)
        if kind is None: return None, None
        return kind, [z3.Select(self.heap.slots[k], ref) for k in self.heap_slots(cn, name, kind)]

    def heap_get(self, o, name):
        kind, ts = self.heap_terms(clsname(o.cls), name, self.ref_of(o))
        if kind is None: return UNDEF
        for w in kind.wf(self, ts): self.fact(w)
        return kind.unpack(self, ts)

    def heap_set(self, o, name, v):
        cn = clsname(o.cls)
        hook = self.field_hooks.get(("dict" if isinstance(o.cls, RecCls) else cn, name))
        if hook is not None: v = hook(self, o, v)
        kind = self.field_kind(cn, name)
        if kind is None:
            kind = self.kind_of(v)
            if kind is None: raise Unsupported(f"cannot store {v!r} in {cn}.{name}")
            if kind == INT and isinstance(o.cls, RecCls) and self.entails(I(v) >= 0): kind = NAT
            self.class_fields[(cn, name)] = kind
        try:
            ts = kind.pack(self, v)
        except KindMismatch:
            k2 = join_kind(kind, self.kind_of(v))
            if k2 is None: raise Unsupported(f"{cn}.{name}: cannot join {kind} and {v!r}")
            self.class_fields[(cn, name)] = k2
            raise Restart()
        if kind == NAT and not self.entails(ts[0] >= 0):
            self.class_fields[(cn, name)] = INT
            raise Restart()
        ref = self.ref_of(o)
        for key, t in zip(list(self.heap_slots(cn, name, kind)), ts):
            self.write(self.heap, key, z3.Store(self.heap.slots[key], ref, t))

    def publish(self, o, cls=None):
        if "$ref" in o.slots: return o.slots["$ref"]
        ref = self.heap.slots["alloc"]
        self.write(self.heap, "alloc", ref + 1)
        o.slots["$ref"] = ref
        fields = {k: v for k, v in o.slots.items() if k != "$ref"}
        for k, v in fields.items():
            if isinstance(v, Cell) and not isinstance(v, Obj):
                self.freeze(v)
            self.heap_set(o, k, v)
        return ref

    def publish_rec(self, d, cls):
        if isinstance(d.v, SObj):
            if d.v.cls.name != cls.name: raise KindMismatch("records differ")
            return d.v.ref
        if not isinstance(d.v, CMap) or sorted(a for a, _ in d.v.items) != sorted(cls.keys): raise KindMismatch("records differ")
        if d.uid in self.frozen: raise Unsupported("a dictionary stored by value becomes a record")
        ref = self.heap.slots["alloc"]
        self.write(self.heap, "alloc", ref + 1)
        o = SObj(cls, ref)
        items = dict(d.v.items)
        d.slots["v"] = o
        for k, v in items.items():
            v = self.resolve(v) if isinstance(v, DictCell) else v
            if isinstance(v, Cell) and not isinstance(v, (Obj, DictCell)): self.freeze(v)
            self.heap_set(o, k, v)
        for c, k in list(self.class_fields):
            if c == cls.name and k.startswith("has:"): self.heap_set(o, k, k[4:] in items)
        return ref

    def freeze(self, cell):
        if cell.uid not in self.frozen:
            self.frozen.add(cell.uid)
        return cell.slots.get("v")

    # ------------------------------------------------------------------ kinds of values

    def kind_of(self, v):
        if isinstance(v, bool) or is_zbool(v): return BOOL
        if is_intlike(v): return INT
        if is_strlike(v): return STR
        if isinstance(v, bytes): return BYTES if v else EMPTYB
        if isinstance(v, SB):
            if z3.is_const(v.base) and v.base.decl().kind() == z3.Z3_OP_UNINTERPRETED: return View(v.base)
            return BYTES
        if v is None: return NONE
        if isinstance(v, SOpt):
            k = self.kind_of(v.val)
            return Opt(k) if k else None
        if isinstance(v, tuple):
            ks = [self.kind_of(x) for x in v]
            return None if any(k is None for k in ks) else Tup(*ks)
        if isinstance(v, SObj) and isinstance(v.cls, RecCls): return RecK(v.cls)
        if isinstance(v, (Obj, SObj)): return ObjK(v.cls)
        if isinstance(v, EnumVal): return EnumK(v.cls)
        if isinstance(v, SSeq): return SeqK(v.kind, v.tup)
        if isinstance(v, CSeq):
            k = self.join_all(v.items)
            return SeqK(k) if k else None
        if isinstance(v, ListCell): return self.kind_of(v.v)
        if isinstance(v, SMap): return MapK(v.kk, v.vk)
        if isinstance(v, CMap):
            kk, vk = self.join_all([a for a, _ in v.items]), self.join_all([b for _, b in v.items])
            return MapK(kk, vk) if kk and vk else None
        if isinstance(v, DictCell):
            k = self.kind_of(v.v)
            if k is None and isinstance(v.v, CMap) and v.v.items and all(isinstance(a, str) for a, _ in v.v.items) and v.default is None:
                return RecK(RecCls([a for a, _ in v.v.items]))
            return k
        if isinstance(v, SSetV): return SetK(v.kind)
        if isinstance(v, CSetV):
            k = self.join_all(v.items)
            return SetK(k) if k else None
        if isinstance(v, SetCell): return self.kind_of(v.v)
        if isinstance(v, Opq): return ANY
        if isinstance(v, float): return ANY
        return None

    def join_all(self, vs):
        k = None
        for v in vs:
            kv = self.kind_of(v)
            if kv is None: return None
            k = kv if k is None else join_kind(k, kv)
            if k is None: return None
        return k or BOT

    def box(self, v):
        if isinstance(v, Opq): return v.t
        if isinstance(v, float): return z3.Const(f"float_{v!r}", AnyS)
        k = self.kind_of(v)
        if k is None: raise KindMismatch(f"cannot box {v!r}")
        ts = k.pack(self, v)
        if not ts: return z3.Const(f"box_{k}", AnyS)
        return fcall(f"box_{k}", *ts, ret=AnyS)

    def to_sseq(self, v, kind):
        if isinstance(v, ListCell): self.freeze(v); v = v.v
        if isinstance(v, tuple): v = CSeq(v)
        if isinstance(v, SSeq):
            if v.kind == kind: return v
            if v.kind == BOT: return SSeq(kind, z3.IntVal(0), [z3.K(IntS, default_of(s)) for s in kind.sorts()])
            return SSeq(kind, v.n, self.convert_arrays(v, kind))
        if not isinstance(v, CSeq): raise KindMismatch(f"{v!r}")
        arrs = [z3.K(IntS, default_of(s)) for s in kind.sorts()]
        for i, x in enumerate(v.items):
            for j, t in enumerate(kind.pack(self, x)):
                arrs[j] = z3.Store(arrs[j], i, t)
        return SSeq(kind, z3.IntVal(len(v.items)), arrs)

    def convert_arrays(self, v, kind):
        arrs = [self.const("conv", z3.ArraySort(IntS, s)) for s in kind.sorts()]
        j = z3.Int("j!")
        x = v.kind.unpack(self, [z3.Select(a, j) for a in v.arrs])
        ts = kind.pack(self, x)
        for a, t in zip(arrs, ts):
            self.fact(z3.ForAll([j], z3.Select(a, j) == t, patterns=[z3.Select(a, j)]))
        return arrs

    def to_smap(self, v, kk, vk):
        if isinstance(v, SMap):
            if v.kk == kk and v.vk == vk: return v
            if v.kk == BOT: v = CMap(())
            else: raise KindMismatch("map kinds")
        ks, = kk.sorts()
        dom = z3.K(ks, z3.BoolVal(False))
        vals = [z3.K(ks, default_of(s)) for s in vk.sorts()]
        for a, b in v.items:
            ka, = kk.pack(self, a)
            dom = z3.Store(dom, ka, True)
            for j, t in enumerate(vk.pack(self, b)):
                vals[j] = z3.Store(vals[j], ka, t)
        return SMap(kk, vk, dom, vals)

    def to_sset(self, v, kind):
        if isinstance(v, SSetV):
            if v.kind == kind: return v
            v = CSetV(())
        ks, = kind.sorts()
        mem = z3.K(ks, z3.BoolVal(False))
        for x in v.items:
            t, = kind.pack(self, x)
            mem = z3.Store(mem, t, True)
        return SSetV(kind, mem)

    # ------------------------------------------------------------------ basic semantics

    def resolve(self, v):
        if isinstance(v, SOpt):
            return None if self.branch(v.isnone, "isnone") else v.val
        if isinstance(v, DictCell) and isinstance(v.slots["v"], SObj): return v.slots["v"]
        return v

    def truth(self, v):
        """Python bool or z3 Bool"""
        if isinstance(v, bool): return v
        if is_zbool(v): return v
        if v is None: return False
        if isinstance(v, int): return v != 0
        if is_zint(v): return v != 0
        if isinstance(v, (str, bytes, tuple, float)): return bool(v)
        if is_zstr(v): return v != z3.StringVal("")
        if isinstance(v, SB): return I(v.n) > 0
        if isinstance(v, SOpt):
            t = self.truth(v.val)
            return And(Not(v.isnone), B(t))
        if isinstance(v, (ListCell, CSeq, SSeq, DictCell, SetCell, CSetV, CMap, SMap)):
            n = self.models.length(self, v, nonempty=True)
            return n > 0 if not isinstance(n, (bool, z3.BoolRef)) else n
        if isinstance(v, (Obj, SObj)):
            m = self.find_method(v, "__bool__")
            if m: return self.truth(self.call(m, []))
            m = self.find_method(v, "__len__")
            if m: return self.truth(self.call(m, []))
            r = self.models.obj_truth(self, v)
            return True if r is None else r
        if isinstance(v, EnumVal):
            if not getattr(v.cls, "intenum", False): return True
            t = self.models.enum_int(self, v)
            return self.truth(t)
        if isinstance(v, (FuncV, BoundV, ClassV, BuiltinV, ModV, GenV, ExcV, SymExc, TypeV)): return True
        return self.models.truth(self, v)

    def test(self, v, tag="if"):
        return self.branch(self.truth(v), tag)

    def eq(self, a, b):
        """Python == as bool or z3 Bool"""
        if a is b and not isinstance(a, float): return True
        if isinstance(a, SOpt) or isinstance(b, SOpt):
            if a is None: return B(b.isnone)
            if b is None: return B(a.isnone)
            if isinstance(a, SOpt) and isinstance(b, SOpt):
                return Or(And(B(a.isnone), B(b.isnone)), And(Not(a.isnone), Not(b.isnone), B(self.eq(a.val, b.val))))
            if isinstance(b, SOpt): a, b = b, a
            return And(Not(a.isnone), B(self.eq(a.val, b)))
        if a is None or b is None:
            for o, x in ((a, b), (b, a)):
                if isinstance(o, (Obj, SObj)):
                    m = self.find_method(o, "__eq__")
                    if m: return self.truth(self.call(m, [x]))
            if isinstance(a, Opq) or isinstance(b, Opq):
                o = a if isinstance(a, Opq) else b
                return fcall("is_none", o.t, ret=BoolS)
            return a is b
        for o, x in ((a, b), (b, a)):
            if isinstance(o, (Obj, SObj)):
                m = self.find_method(o, "__eq__")
                if m: return self.truth(self.call(m, [x]))
        if isinstance(a, (Obj, SObj)) or isinstance(b, (Obj, SObj)):
            if isinstance(a, (Obj, SObj)) and isinstance(b, (Obj, SObj)):
                if isinstance(a, Obj) and isinstance(b, Obj): return a is b
                if isinstance(a, Obj) and "$ref" not in a.slots or isinstance(b, Obj) and "$ref" not in b.slots: return False
                return self.ref_of(a) == self.ref_of(b)
            return False
        if isinstance(a, EnumVal) or isinstance(b, EnumVal):
            return self.models.enum_eq(self, a, b)
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            if isinstance(a, bool) and isinstance(b, bool): return a == b
            return B(a) == B(b)
        if isinstance(a, (bool, z3.BoolRef)): a = self.to_int(a)
        if isinstance(b, (bool, z3.BoolRef)): b = self.to_int(b)
        if is_intlike(a) and is_intlike(b):
            return a == b if isinstance(a, int) and isinstance(b, int) else I(a) == I(b)
        if is_strlike(a) and is_strlike(b):
            return a == b if isinstance(a, str) and isinstance(b, str) else S(a) == S(b)
        if isinstance(a, (bytes, SB)) and isinstance(b, (bytes, SB)):
            return self.models.bytes_eq(self, a, b)
        if isinstance(a, float) and isinstance(b, float): return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return self.all_([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Opq) or isinstance(b, Opq):
            return self.models.opq_eq(self, a, b)
        r = self.eq_hook(self, a, b) if self.eq_hook else None
        if r is None: r = self.models.coll_eq(self, a, b)
        if r is not None: return r
        if type(a) is not type(b): return False
        raise Unsupported(f"comparison of {a!r} and {b!r}")

    def all_(self, xs):
        if all(isinstance(x, bool) for x in xs): return all(xs)
        return And(*[B(x) for x in xs])

    def to_int(self, v):
        if isinstance(v, bool): return int(v)
        if is_zbool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, EnumVal) and getattr(v.cls, "intenum", False): return self.models.enum_int(self, v)
        return v

    def identical(self, a, b):
        if a is None or b is None:
            if isinstance(a, SOpt): return B(a.isnone)
            if isinstance(b, SOpt): return B(b.isnone)
            if isinstance(a, Opq) or isinstance(b, Opq): return self.eq(a, b)
            return a is b
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)): return self.eq(a, b)
            if isinstance(a, Opq) or isinstance(b, Opq): return self.eq(a, b)
            return False
        if isinstance(a, (Obj, SObj)) and isinstance(b, (Obj, SObj)):
            if isinstance(a, Obj) and isinstance(b, Obj): return a is b
            if isinstance(a, Obj) and "$ref" not in a.slots or isinstance(b, Obj) and "$ref" not in b.slots: return False
            return self.ref_of(a) == self.ref_of(b)
        if isinstance(a, EnumVal) and isinstance(b, EnumVal): return self.eq(a, b)
        if isinstance(a, Cell) or isinstance(b, Cell): return a is b
        if isinstance(a, (ClassV, TypeV)): return a is b or (isinstance(b, (ClassV, TypeV)) and a.name == b.name)
        raise Unsupported("identity comparison")

    # ------------------------------------------------------------------ statements

    def exec_block(self, body):
        for st in body:
            self.exec(st)

    def exec(self, st):
        self.cur_node = st
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        return m(st)

    def x_Expr(self, st):
        if isinstance(st.value, ast.Constant): return
        self.eval(st.value)

    def x_Pass(self, st): pass

    def x_Return(self, st):
        r = ReturnSig(self.eval(st.value) if st.value is not None else None)
        r.frame = self.frames[-1]
        raise r

    def x_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def x_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def x_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            self.store_name(t.id, self.augop(st.op, cur, self.eval(st.value)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(st.op, cur, self.eval(st.value)))
        elif isinstance(t, ast.Subscript):
            o, i = self.eval(t.value), self.eval_index(t.slice)
            cur = self.models.getitem(self, o, i)
            self.models.setitem(self, o, i, self.augop(st.op, cur, self.eval(st.value)))
        else:
            raise Unsupported("augmented assignment target")

    def augop(self, op, cur, v):
        r = self.models.inplace(self, op, cur, v)
        if r is not NotImplemented: return r
        return self.models.binop(self, op, cur, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            self.models.setitem(self, o, self.eval_index(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.models.unpack_n(self, v, len(t.elts), stars[0] if stars else None)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        else:
            raise Unsupported("assignment target")

    def x_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.models.delitem(self, self.eval(t.value), self.eval_index(t.slice))
            elif isinstance(t, ast.Name):
                fr = self.frames[-1]
                if t.id not in fr.slots: self.py_raise("UnboundLocalError", t.id)
                self.write(fr, t.id, UNDEF)
            else:
                raise Unsupported("del target")

    def x_If(self, st):
        if self.test(self.eval(st.test), "if"):
            self.exec_block(st.body)
        else:
            self.exec_block(st.orelse)

    def x_Assert(self, st):
        if not self.test(self.eval(st.test), "assert"):
            self.py_raise("AssertionError")

    def x_Global(self, st): pass
    def x_Nonlocal(self, st): pass

    def x_Import(self, st):
        for a in st.names:
            self.store_name((a.asname or a.name).split('.')[0], self.do_import(st, a))
    x_ImportFrom = x_Import

    def x_FunctionDef(self, st):
        f = self.make_func(st, self.frames[-1].mod, self.frames[-1], st.name)
        self.store_name(st.name, f)

    def x_ClassDef(self, st):
        self.store_name(st.name, self.make_class(st, self.frames[-1].mod, self.frames[-1]))

    def x_Raise(self, st):
        if st.exc is None:
            if not self.exc_stack: self.py_raise("RuntimeError", "no active exception")
            raise PyRaise(self.exc_stack[-1])
        e = self.eval(st.exc)
        if isinstance(e, (ClassV, TypeV, BuiltinV)):
            e = self.call(e, []) if not isinstance(e, BuiltinV) else ExcV(TypeV(e.name))
        if not isinstance(e, (ExcV, SymExc)): raise Unsupported(f"raise {e!r}")
        raise PyRaise(e)

    def x_Try(self, st):
        def body():
            try:
                self.exec_block(st.body)
            except PyRaise as pr:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(pr.exc, self.eval(h.type)):
                        break
                else:
                    raise
                if h.name: self.store_name(h.name, pr.exc)
                self.exc_stack.append(pr.exc)
                try:
                    self.exec_block(h.body)
                finally:
                    self.exc_stack.pop()
            else:
                self.exec_block(st.orelse)
        if not st.finalbody:
            return body()
        try:
            body()
        except (PyRaise, ReturnSig, BreakSig, ContinueSig, GenStop):
            self.exec_block(st.finalbody)
            raise
        self.exec_block(st.finalbody)

    def x_Break(self, st): raise BreakSig()
    def x_Continue(self, st): raise ContinueSig()

    def x_With(self, st, i=0):
        if i == len(st.items):
            return self.exec_block(st.body)
        item = st.items[i]
        cm = self.eval(item.context_expr)
        cm = self.resolve(cm)
        depth = len(self.frames)
        if isinstance(cm, CtxV):
            entered, pending = [], []
            mine = self.frames[depth - 1]
            def on_yield(v):
                if entered: self.py_raise("RuntimeError", "generator didn't stop")
                entered.append(1)
                rest = self.frames[depth:]
                del self.frames[depth:]
                try:
                    if item.optional_vars is not None: self.assign(item.optional_vars, v)
                    self.x_With(st, i + 1)
                except (ReturnSig, BreakSig, ContinueSig, GenStop) as sig:
                    pending.append(sig)
                finally:
                    self.frames[depth:] = rest
                return None
            ncm = len(self.conds)
            cm.run(on_yield)
            if not entered: self.py_raise("RuntimeError", "generator didn't yield")
            if pending: raise pending[0]
            return
        enter, exit_ = self.models.context(self, cm)
        v = enter()
        try:
            if item.optional_vars is not None: self.assign(item.optional_vars, v)
            self.x_With(st, i + 1)
        except PyRaise as pr:
            del self.frames[depth:]
            self.exc_stack.append(pr.exc)
            try:
                if exit_(pr.exc): return
            finally:
                self.exc_stack.pop()
            raise
        except (ReturnSig, BreakSig, ContinueSig, GenStop):
            exit_(None)
            raise
        else:
            exit_(None)

    def x_Match(self, st):
        v = self.eval(st.subject)
        for c in st.cases:
            if self.match(c.pattern, v) and (c.guard is None or self.test(self.eval(c.guard))):
                self.exec_block(c.body)
                return

    def match(self, p, v):
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v): return False
            if p.name: self.store_name(p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v) for q in p.patterns)
        if isinstance(p, ast.MatchValue):
            return self.branch(self.eq(v, self.eval(p.value)), "match")
        if isinstance(p, ast.MatchSingleton):
            return self.branch(self.identical(v, p.value), "match")
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.branch(self.models.isinstance_(self, v, self.eval(p.cls)), "match")
        raise Unsupported("match pattern")

    # ------------------------------------------------------------------ loops

    def x_For(self, st):
        it = self.eval(st.iter)
        if self.loop_as_list(st, it): return
        depth = len(self.frames)
        def body(v):
            rest = self.frames[depth:]
            del self.frames[depth:]
            try:
                self.assign(st.target, v)
                self.exec_block(st.body)
            except ContinueSig:
                pass
            finally:
                self.frames[depth:] = rest
        try:
            self.iterate(it, body, st)
        except BreakSig:
            del self.frames[depth:]
            return
        self.exec_block(st.orelse)

    def x_While(self, st):
        # unroll while the condition is decided syntactically, else use the loop rule
        def cond():
            return self.test(self.eval(st.test), "while")
        for _ in range(70):
            # concrete condition?
            n = len(self.trail), self.pos
            snap_conds = len(self.conds)
            t = self.pure_test(st.test)
            if t is None:
                break
            if not t:
                self.exec_block(st.orelse)
                return
            if isinstance(st.test, ast.Constant):
                break
            try:
                self.exec_block(st.body)
            except ContinueSig:
                pass
            except BreakSig:
                return
        try:
            self.symbolic_loop(None, None, None, st, cond=cond, body0=lambda: self.exec_block(st.body))
        except BreakSig:
            return
        self.exec_block(st.orelse)

    def pure_test(self, node):
        """value of a condition when it is a constant in the current state, else None"""
        if isinstance(node, ast.Constant): return bool(node.value)
        try:
            rs = self.sub_explore(lambda: self.truth(self.eval(node)))
        except PyRaise:
            return None
        if len(rs) == 1 and isinstance(rs[0], bool): return rs[0]
        if len(rs) == 1 and is_z(rs[0]):
            r = z3.simplify(rs[0])
            if z3.is_true(r): return True
            if z3.is_false(r): return False
        return None

    def iterate(self, it, body, node=None):
        """run body(v) for every element"""
        it = self.resolve(it)
        if isinstance(it, GenV):
            if it.used: raise Unsupported("generator iterated twice")
            it.used = True
            it.run(body)
            return
        if isinstance(it, IterCell):
            src = self.models.iter_view(self, it.seq)
            if isinstance(src, (tuple, list)):
                while isinstance(it.slots["pos"], int) and it.slots["pos"] < len(src):
                    p = it.slots["pos"]
                    it.set("pos", p + 1)
                    body(src[p])
                if not isinstance(it.slots["pos"], int): raise Unsupported("iterator position")
                return
            def step():
                p = it.slots["pos"]
                it.set("pos", self.models.add(p, 1))
                body(src.get(p))
            self.symbolic_loop(None, None, None, node, cond=lambda: self.branch(I(it.slots["pos"]) < I(src.n), "iter"), body0=step)
            return
        src = self.models.iter_view(self, it)
        if isinstance(src, (tuple, list)):
            if len(src) > 400: raise Unsupported("loop too long to unroll")
            live = isinstance(it, ListCell)
            i = 0
            while True:
                if live:
                    if not isinstance(it.v, CSeq): raise Unsupported("list changed while iterating")
                    src = it.v.items
                if i >= len(src): break
                body(src[i]); i += 1
            return
        # symbolic sequence
        n, get = src.n, src.get
        self.symbolic_loop(it, n, get, node, body=body)
