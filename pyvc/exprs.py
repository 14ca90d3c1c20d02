"""Expressions, including comprehensions summarised at a generic index."""
import ast
import z3
from .core import *
from .values import *
from .loops import join_kind, BOT, consts_of


class Impure(Exception):
    pass


class ExprMixin:

    def eval(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n)

    def e_Constant(self, n):
        if n.value is Ellipsis: raise Unsupported("...")
        return n.value

    def e_Name(self, n): return self.lookup(n.id)
    def e_Attribute(self, n):
        return self.getattr(self.eval(n.value), n.attr)

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        # in a comprehension the name belongs to the enclosing function
        fr = self.frames[-1]
        f = fr
        while getattr(f, "iscomp", False): f = f.parent
        self.write(f, n.target.id, v)
        return v

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        v = self.eval(n.values[0])
        for e in n.values[1:]:
            t = self.test(v, "boolop")
            if t != isand: return v
            v = self.eval(e)
        return v

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        v = self.to_int(self.resolve(v))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)) or is_zint(v): return -v
        if isinstance(n.op, ast.UAdd): return v
        if isinstance(n.op, ast.Invert) and is_intlike(v): return -v - 1
        raise Unsupported("unary operator")

    def e_BinOp(self, n):
        return self.models.binop(self, n.op, self.eval(n.left), self.eval(n.right))

    def e_IfExp(self, n):
        return self.eval(n.body) if self.test(self.eval(n.test), "ifexp") else self.eval(n.orelse)

    def e_Compare(self, n):
        left = self.eval(n.left)
        out = []
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(c)
            r = self.models.compare(self, op, left, right)
            if r is False: return False
            if i + 1 < len(n.ops) and not isinstance(r, bool):
                if not self.branch(r, "chain"): return False
                r = True
            out.append(r)
            left = right
        return self.all_(out) if len(out) > 1 else out[0]

    def e_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = self.frames[-1]
            while f is not None and f.defcls is None: f = f.parent
            return SuperV(f.defcls, f.selfv)
        f = self.eval(n.func)
        if isinstance(f, BuiltinV) and getattr(f, "log", False): return self.log_call(n)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                args += list(self.models.concrete_items(self, v))
            else:
                args.append(self.eval(a))
        for kw in n.keywords:
            if kw.arg is None:
                d = self.eval(kw.value)
                items = d.v.items if isinstance(d, DictCell) and isinstance(d.v, CMap) else None
                if items is None: raise Unsupported("** of a symbolic dictionary")
                kwargs.update(dict(items))
            else:
                kwargs[kw.arg] = self.eval(kw.value)
        # the logging module has no effect on behaviour
        return self.call(f, args, kwargs)

    def log_call(self, n):
        """logging has no effect on behaviour, apart from what evaluating its arguments may raise"""
        def run():
            try:
                for a in n.args:
                    self.eval(a.value if isinstance(a, ast.Starred) else a)
            except PyRaise:
                return "exc"
            except Unsupported:
                return "?"
            return "ok"
        saved = list(self.frames)
        try:
            rs = self.sub_explore(run)
        finally:
            self.frames[:] = saved
        if "exc" in rs:
            for a in n.args: self.eval(a)
        return None

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                spec = ""
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec)
                conv = v.conversion
                parts.append(self.models.fmt_value(self, x, spec, conv))
        return self.models.str_concat(self, parts)

    def e_Lambda(self, n):
        return FuncV(n, self.frames[-1].mod, self.frames[-1], "<lambda>")

    def e_Tuple(self, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred): out += list(self.models.concrete_items(self, self.eval(e.value)))
            else: out.append(self.eval(e))
        return tuple(out)

    def e_List(self, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            out = ListCell(self, CSeq(()))
            for e in n.elts:
                if isinstance(e, ast.Starred): self.models.list_extend(self, out, self.eval(e.value))
                else: self.models.list_append(self, out, self.eval(e))
            return out
        return ListCell(self, CSeq(self.e_Tuple(n)))

    def e_Set(self, n):
        s = SetCell(self, CSetV(()))
        for e in n.elts: self.models.set_add(self, s, self.eval(e))
        return s

    def e_Dict(self, n):
        d = DictCell(self, CMap(()))
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v)
                self.models.dict_update(self, d, src)
            else:
                kk = self.eval(k)
                self.models.setitem(self, d, kk, self.eval(v))
        return d

    def eval_index(self, n):
        if isinstance(n, ast.Slice):
            return slice(*(None if x is None else self.resolve(self.eval(x)) for x in (n.lower, n.upper, n.step)))
        return self.eval(n)

    def e_Subscript(self, n):
        o = self.eval(n.value)
        return self.models.getitem(self, o, self.eval_index(n.slice))

    def e_Starred(self, n): raise Unsupported("starred expression")

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else None
        f = self.frames[-1]
        if f.on_yield is None: raise Unsupported("yield outside a running generator")
        self.do_yield(f, v)
        return None

    def do_yield(self, f, v):
        f.on_yield(v)

    def e_YieldFrom(self, n):
        it = self.eval(n.value)
        f = self.frames[-1]
        depth = len(self.frames)
        self.iterate(it, lambda v: self.do_yield(f, v), n)
        return None

    # ------------------------------------------------------------------ comprehensions

    def comp_frame(self, n):
        cur = self.frames[-1]
        names = set()
        for g in n.generators:
            for w in ast.walk(g.target):
                if isinstance(w, ast.Name): names.add(w.id)
        fr = self.new_frame(cur.mod, cur, cur.fname, names)
        fr.iscomp = True
        fr.defcls, fr.selfv = None, None
        return fr

    def e_ListComp(self, n):
        first = self.eval(n.generators[0].iter)
        p = self.pure_comp(n, first)
        if p is not None: return ListCell(self, self.models.comp_list(self, p))
        out = ListCell(self, CSeq(()))
        self.run_comp(n, first, lambda v: self.models.list_append(self, out, v))
        return out

    def e_SetComp(self, n):
        first = self.eval(n.generators[0].iter)
        p = self.pure_comp(n, first)
        if p is not None: return SetCell(self, self.models.comp_set(self, p))
        out = SetCell(self, CSetV(()))
        self.run_comp(n, first, lambda v: self.models.set_add(self, out, v))
        return out

    def e_DictComp(self, n):
        first = self.eval(n.generators[0].iter)
        p = self.pure_comp(n, first)
        if p is not None: return DictCell(self, self.models.comp_dict(self, p))
        out = DictCell(self, CMap(()))
        self.run_comp(n, first, lambda kv: self.models.setitem(self, out, kv[0], kv[1]))
        return out

    def e_GeneratorExp(self, n):
        first = self.eval(n.generators[0].iter)
        frames = list(self.frames)
        def run(cb):
            saved = self.frames
            self.frames = list(frames)
            try:
                def cb2(v):
                    inner = self.frames
                    self.frames = saved
                    try:
                        cb(v)
                    finally:
                        self.frames = inner
                self.run_comp(n, first, cb2)
            finally:
                self.frames = saved
        g = GenV(run)
        g.comp = (n, first, frames)
        return g

    def comp_elt(self, n):
        if isinstance(n, ast.DictComp):
            k = self.eval(n.key)
            return (k, self.eval(n.value))
        return self.eval(n.elt)

    def run_comp(self, n, first, emit):
        fr = self.comp_frame(n)
        self.frames.append(fr)
        depth = len(self.frames)
        def level(i, it):
            g = n.generators[i]
            def body(v):
                rest = self.frames[depth:]
                del self.frames[depth:]
                try:
                    self.assign(g.target, v)
                    for c in g.ifs:
                        if not self.test(self.eval(c), "compif"): return
                    if i + 1 < len(n.generators):
                        level(i + 1, self.eval(n.generators[i + 1].iter))
                    else:
                        v = self.comp_elt(n)
                        top = self.frames.pop()
                        try:
                            emit(v)
                        finally:
                            self.frames.append(top)
                finally:
                    self.frames[depth:] = rest
            self.iterate(it, body, n)
        try:
            level(0, first)
        finally:
            del self.frames[depth - 1:]

    def pure_gen(self, g):
        """summary of a generator expression over a symbolic sequence, None when it has effects"""
        if not isinstance(g, GenV) or g.used: return None
        if hasattr(g, "pure_fn"):
            p = g.pure_fn()
            if p is not None: g.used = True
            return p
        if not hasattr(g, "comp"): return None
        n, first, frames = g.comp
        saved = self.frames
        self.frames = list(frames)
        try:
            p = self.pure_comp(n, first)
        finally:
            self.frames = saved
        if p is not None: g.used = True
        return p

    def pure_comp(self, n, first):
        """(count, index -> case list) when the comprehension ranges over one symbolic sequence and has no effects"""
        first = self.resolve(first)
        if len(n.generators) > 1: return None
        if isinstance(first, GenV):
            q = self.pure_gen_peek(first)
            if q is None: return None
            first.used = True
            view = SeqView(q.m, q.elem)
        else:
            view = self.models.iter_view(self, first)
        if isinstance(view, (tuple, list)): return None
        if len(n.generators) > 1: return None
        g = n.generators[0]
        def one(k):
            fr = self.comp_frame(n)
            self.frames.append(fr)
            try:
                self.assign(g.target, view.get(k))
                for c in g.ifs:
                    if not self.test(self.eval(c), "compif"): return ("skip", None)
                return ("val", self.comp_elt(n))
            finally:
                self.frames.pop()
        p = self.pure_map(view.n, one, isinstance(n, ast.DictComp))
        if p is not None:
            p.identity = None
            if not isinstance(n, ast.DictComp) and isinstance(n.elt, ast.Name) and isinstance(g.target, ast.Name) and n.elt.id == g.target.id:
                p.identity = view
        return p

    def loop_as_list(self, st, it):
        """a loop that only appends to an empty list, at most once per iteration and under conditions, is the comprehension it spells out"""
        if st.orelse: return False
        locs, lists, ok = set(), set(), [True]
        def names(t):
            if isinstance(t, ast.Name): locs.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts: names(e)
            else: ok[0] = False
        def scan(body):
            for s in body:
                if isinstance(s, ast.Assign):
                    for t in s.targets: names(t)
                elif isinstance(s, ast.If): scan(s.body); scan(s.orelse)
                elif isinstance(s, (ast.Continue, ast.Pass)): pass
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" \
                        and isinstance(s.value.func.value, ast.Name) and len(s.value.args) == 1 and not s.value.keywords and not isinstance(s.value.args[0], ast.Starred):
                    lists.add(s.value.func.value.id)
                    ok.append(True)
                else: ok[0] = False
        names(st.target)
        scan(st.body)
        if not ok[0] or len(lists) != 1 or not any(isinstance(s, ast.If) for s in st.body): return False      # unconditional appends: the loop rule does as well
        name, = lists
        if name in locs: return False
        uses = sum(isinstance(w, ast.Name) and w.id == name for s in st.body for w in ast.walk(s))
        if uses != len(ok) - 1 or any(isinstance(w, (ast.NamedExpr, ast.Lambda, ast.Yield, ast.YieldFrom, ast.Await)) for s in st.body for w in ast.walk(s)): return False
        it = self.resolve(it)
        if isinstance(it, GenV): return False
        try:
            cell = self.resolve(self.lookup(name))
            view = self.models.iter_view(self, it)
        except (Unsupported, PyRaise):
            return False
        if isinstance(view, (tuple, list)) or not isinstance(cell, ListCell) or not isinstance(cell.v, CSeq) or cell.v.items: return False
        cur = self.frames[-1]
        if cur.classv is not None or locs & set(cur.nonloc): return False
        empty = cell.v
        def one(k):
            fr = self.new_frame(cur.mod, cur, cur.fname, set(locs))
            fr.iscomp = True
            self.frames.append(fr)
            out = []
            def go(body):
                for s in body:
                    if isinstance(s, ast.If): go(s.body if self.test(self.eval(s.test), "compif") else s.orelse)
                    elif isinstance(s, ast.Continue): raise ContinueSig()
                    elif isinstance(s, ast.Expr): out.append(self.eval(s.value.args[0]))
                    else: self.exec(s)
            cell.slots["v"] = Poison()
            try:
                self.assign(st.target, view.get(k))
                go(st.body)
            except ContinueSig:
                pass
            finally:
                cell.slots["v"] = empty
                self.frames.pop()
            if len(out) > 1: raise Impure()
            return ("val", out[0]) if out else ("skip", None)
        # what the loop may raise, the loop rule reports with the list as it is then
        if self.debug: print("   loop as list", name)
        p = self.pure_map(view.n, one, False, lambda cases: not any(c[0] == "exc" for c in cases))
        if p is None: return False
        p.identity = None
        v = self.models.comp_list(self, p)
        self.write(cell, "v", v)
        for x in locs: self.write(cur, x, UNDEF)
        return True

    def pure_gen_peek(self, g):
        p = self.pure_gen(g)
        if p is None: return None
        return self.models.comp_view(self, p)

    def pure_map(self, n, one, pair=False, accept=None):
        """summarise one(k) for a generic 0<=k<n; returns Pure or None"""
        k = self.const("ix", IntS)
        birth = self.tick()
        self.fact(And(k >= 0))
        cases, log = [], {}
        saved_frames = list(self.frames)
        def run():
            nc, nf = len(self.conds), len(self.facts)
            b0 = self.tick()
            self.fact(And(k >= 0, k < I(n)))
            if not self.feasible(z3.BoolVal(True)): raise PathEnd()
            self.write_logs.append((b0, log))
            try:
                r = one(k)
            except PyRaise as e:
                r = ("exc", e.exc)
            finally:
                self.write_logs.pop()
                self.frames[:] = saved_frames
            if log: raise Impure()
            conds = self.conds[nc:]
            kind, ts = None, None
            if r[0] == "val":
                v = r[1]
                if pair:
                    k1, k2 = self.kind_of(v[0]), self.kind_of(v[1])
                    kind = Tup(k1, k2) if k1 is not None and k2 is not None else None
                else:
                    kind = self.kind_of(v)
                if kind is None or isinstance(v, Obj) and "$ref" not in v.slots: raise Impure()
                if any(isinstance(x, Obj) and "$ref" not in x.slots for x in (v if isinstance(v, tuple) else ())): raise Impure()
                ts = kind.pack(self, v)
            return (r[0], r[1] if r[0] == "exc" else None, kind, ts, conds, self.facts[nf:])
        try:
            cases = self.sub_explore(run)
        except (Impure, Unsupported, KindMismatch, Restart) as e:
            if isinstance(e, Restart): raise
            if self.debug: print("   comprehension not pure:", repr(e)[:200])
            return None
        if accept is not None and not accept(cases): return None
        kinds = [c[2] for c in cases if c[0] == "val"]
        kind = BOT
        for q in kinds:
            kind = join_kind(kind, q)
            if kind is None: return None
        vals = []
        for c in cases:
            ts = c[3]
            if c[0] == "val" and c[2] != kind:
                ts = kind.pack(self, c[2].unpack(self, ts))
            for t in list(ts or []) + c[4]:
                if not self.is_old(t, birth, k): return None
            vals.append((c[0], c[1], ts, And(*c[4]) if c[4] else z3.BoolVal(True)))
        return Pure(self, n, k, kind, vals)


class Poison:
    """a list that must not be looked at meanwhile"""
    def __getattr__(self, name): raise Unsupported("use of a list that is being filled")


class Pure:
    """effect-free map/filter over 0 <= k < n"""
    def __init__(self, E, n, k, kind, cases):
        self.E, self.n, self.k, self.kind, self.cases = E, I(n), k, kind, cases
        # an element whose evaluation raises aborts the whole: fork
        exc = [c for c in cases if c[0] == "exc"]
        j = z3.Int("j!")
        if exc:
            bad = lambda t: Or(*[z3.substitute(c[3], (k, t)) for c in exc])
            w = E.const("bad", IntS)
            none = z3.ForAll([j], Implies(And(j >= 0, j < self.n), Not(bad(j))))
            if E.choose("comp-raises", [("no", None), ("yes", And(w >= 0, w < self.n, bad(w)))]) == 1:
                E.fact(z3.ForAll([j], Implies(And(j >= 0, j < w), Not(bad(j)))))
                for c in exc[:-1]:
                    if E.branch(z3.substitute(c[3], (k, w)), "which-exc"): raise PyRaise(c[1])
                raise PyRaise(exc[-1][1])
            E.fact(none)
        self.vals = [c for c in cases if c[0] == "val"]
        self.total = not any(c[0] == "skip" for c in cases)

    def keeps(self, t):
        if self.total: return z3.BoolVal(True)
        return Or(*[z3.substitute(c[3], (self.k, t)) for c in self.vals])

    def terms(self, t):
        """packed element for index t"""
        ns = len(self.kind.sorts())
        if not self.vals: return [default_of(s) for s in self.kind.sorts()]
        out = list(self.vals[-1][2])
        for c in self.vals[:-1][::-1]:
            out = [x if x.eq(y) else z3.If(c[3], x, y) for x, y in zip(c[2], out)]
        return [z3.substitute(x, (self.k, t)) for x in out]

    def value(self, t):
        ts = self.terms(t)
        for w in self.kind.wf(self.E, ts): self.E.fact(w)
        return self.kind.unpack(self.E, ts)
