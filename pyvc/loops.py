"""Loop rule: havoc, inductive invariants found by inference over candidates, closed forms by generalising one iteration."""
import itertools
import z3
from .core import *
from .values import GenStop


class Raw(Kind):
    """a slot that directly holds a z3 term (heap arrays)"""
    def __init__(self, sort): self.sort = sort
    def __repr__(self): return f"raw({self.sort})"
    def sorts(self): return [self.sort]
    def pack(self, E, v):
        if not is_z(v): raise KindMismatch("not a term")
        return [v]
    def unpack(self, E, ts): return ts[0]

class _Bot(Kind):
    """element kind of an empty collection"""
    def __repr__(self): return "bot"
    def sorts(self): return []
    def pack(self, E, v): raise KindMismatch("empty")
    def unpack(self, E, ts): return None
BOT = _Bot()

def join_kind(a, b):
    if a is None or b is None: return None
    if a == b: return a
    if a == BOT: return b
    if b == BOT: return a
    if a == NAT and b == INT or a == INT and b == NAT: return INT
    if isinstance(a, OptEnumK) and b == NONE or isinstance(b, OptEnumK) and a == NONE: return a if b == NONE else b
    if isinstance(a, EnumK) and isinstance(b, EnumK) and str(a.cls) == str(b.cls): return a if isinstance(a, OptEnumK) else b
    if a == NONE: return b if isinstance(b, Opt) else Opt(b)
    if b == NONE: return a if isinstance(a, Opt) else Opt(a)
    if isinstance(a, Opt) or isinstance(b, Opt):
        k = join_kind(a.k if isinstance(a, Opt) else a, b.k if isinstance(b, Opt) else b)
        return Opt(k) if k is not None else None
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.ks) == len(b.ks):
        ks = [join_kind(x, y) for x, y in zip(a.ks, b.ks)]
        return None if any(k is None for k in ks) else Tup(*ks)
    if isinstance(a, SeqK) and isinstance(b, SeqK):
        k = join_kind(a.k, b.k)
        return SeqK(k) if k else None
    if isinstance(a, MapK) and isinstance(b, MapK):
        kk, vk = join_key(a.kk, b.kk), join_kind(a.vk, b.vk)
        return MapK(kk, vk) if kk and vk else None
    if isinstance(a, SetK) and isinstance(b, SetK):
        k = join_kind(a.k, b.k)
        return SetK(k) if k else None
    if isinstance(a, View) and isinstance(b, (View, type(BYTES))) or isinstance(b, View) and isinstance(a, type(BYTES)):
        return BYTES
    if a == EMPTYB and (isinstance(b, View) or b == BYTES): return b
    if b == EMPTYB and (isinstance(a, View) or a == BYTES): return a
    if a == BOOL and b == INT or a == INT and b == BOOL: return None
    if ANY in (a, b): return ANY
    return None


def join_key(a, b):
    """kind of dictionary keys: one component"""
    k = join_kind(a, b)
    if isinstance(k, Opt) and isinstance(k.k, EnumK): k = OptEnumK(k.k.cls)
    return k


def consts_of(t, acc=None, seen=None):
    """uninterpreted constants of a term"""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[e.decl().name()] = e
            stack.extend(e.children())
    return acc


class LoopInfo:
    def __init__(self):
        self.mods = {}          # slot -> Kind, or None when its value is meaningless at the loop head
        self.defs = {}          # (slot, component) -> list of (name, fn(k) -> term)
        self.defdrop = {}
        self.cands = {}         # name -> fn(k, read)
        self.dropped = set()
        self.init_ok = set()
        self.unfold = []
        self.gen_tried = set()


class LoopCtx:
    """what a contract sees of a loop when it proposes invariants"""
    def __init__(self, E, info, entry, iterable, n, func):
        self.E, self.info, self.entry, self.iterable, self.n, self.func = E, info, entry, iterable, n, func
        self.defs, self.cands, self.unfold = {}, [], []
    def slots(self):
        for key, kind in self.info.mods.items():
            if kind is not None:
                yield key, kind, self.entry[key]
    def define(self, key, ci, name, fn):
        """propose that component ci of a slot equals fn(k) after k iterations"""
        self.defs.setdefault((key, ci), []).append((name, fn))
    def cand(self, name, fn):
        """propose an invariant fn(k, read) where read(slot) gives the slot's packed terms"""
        self.cands.append((name, fn))
    def unfold_with(self, fn):
        """facts fn(k) available at the loop head (unfolding of specification functions)"""
        self.unfold.append(fn)


class LoopMixin:

    def pack_slot(self, kind, v):
        return kind.pack(self, v)

    def cur_slot(self, key):
        c = self.cells.get(key[0])
        if c is None: return UNDEF
        if c is self.heap and key[1] not in c.slots and key[1] in self.heap_reg:
            c.slots[key[1]] = self.heap_reg[key[1]]
        return c.slots.get(key[1], UNDEF)

    def slot_kind(self, v):
        if v is UNDEF: return None
        if isinstance(v, Cell):
            if isinstance(v, Obj) and "$ref" in v.slots: return ObjK(v.cls)
            return None
        if isinstance(v, z3.ArrayRef) or is_z(v) and v.sort() in (ByteS, AnyS): return Raw(v.sort())
        return self.kind_of(v)

    def join_slot_kinds(self, vals):
        k = None
        for v in vals:
            kv = self.slot_kind(v)
            if kv is None: return None
            k = kv if k is None else join_kind(k, kv)
            if k is None: return None
        return k

    # ---- the rule

    def symbolic_loop(self, it, n, get, node, body=None, cond=None, body0=None):
        self.nloops += 1
        key = (self.path_key(), self.nloops, self.nsub)
        func = self.frames[-1].fname
        info = self.loop_cache.get(key)
        if info is None:
            info = LoopInfo()
            self.infer_loop(info, it, n, get, body, cond, body0, func)
            self.loop_cache[key] = info
        nsub = self.nsub
        k, _ = self.loop_head(info, n)
        if cond is None:
            opts = [("body", And(k >= 0, k < I(n))), ("exit", k == I(n))]
            if self.choose("loop", opts) == 0:
                body(get(k))
                self.end_iteration(info, k)
                raise PathEnd()
            self.after_loop(info, k)
            return
        if cond():
            try:
                body0()
            except ContinueSig:
                pass
            self.end_iteration(info, k)
            raise PathEnd()
        self.after_loop(info, k)

    def after_loop(self, info, k):
        pass

    def end_iteration(self, info, k):
        if self.mode == "infer": return
        for key, kind in info.mods.items():
            if kind is None: continue
            ts = self.pack_slot(kind, self.cur_slot(key))
            for ci, t in enumerate(ts):
                d = self.active_def(info, (key, ci))
                if d is not None:
                    self.prove(t == d[1](k + 1), f"loop invariant: {key[0][0]}.{key[1]}[{ci}] {d[0]}")
        read = self.reader(info)
        for nm, fn in info.cands.items():
            if nm not in info.dropped:
                self.prove(fn(k + 1, read), f"loop invariant: {nm}")

    def reader(self, info):
        def read(key):
            return self.pack_slot(info.mods[key], self.cur_slot(key))
        return read

    def active_def(self, info, dk):
        ds = info.defs.get(dk, [])
        i = info.defdrop.get(dk, 0)
        return ds[i] if i < len(ds) else None

    def loop_head(self, info, n):
        k = self.const("k", IntS)
        self.fact(k >= 0)
        if n is not None: self.fact(k <= I(n))
        head = {}
        for key, kind in info.mods.items():
            cell = self.cells[key[0]]
            if kind is None:
                self.write(cell, key[1], UNDEF)
                continue
            ts = []
            for ci, s in enumerate(kind.sorts()):
                d = self.active_def(info, (key, ci))
                ts.append(d[1](k) if d is not None else self.const(f"h_{key[1]}_{ci}", s))
            for w in kind.wf(self, ts): self.fact(w)
            head[key] = ts
            self.write(cell, key[1], self.rewrap(cell, key[1], kind.unpack(self, ts)))
        info.head, info.head_k = head, k
        read = self.reader(info)
        for nm, fn in info.cands.items():
            if nm not in info.dropped:
                self.fact(fn(k, read))
        for f in info.unfold:
            for x in f(k): self.fact(x)
        return k, head

    def rewrap(self, cell, slot, v):
        return v

    def infer_loop(self, info, it, n, get, body, cond, body0, func):
        birth = self.tick()
        for _ in range(60):
            self.check_deadline()
            self.check_init(info)
            log = {}
            bad = {"def": set(), "cand": set(), "kind": {}}
            saved_frames = list(self.frames)
            def run():
                b0 = self.tick()
                nc = len(self.conds)
                k, _ = self.loop_head(info, n)
                self.write_logs.append((b0, log))
                try:
                    if cond is None:
                        self.fact(And(k >= 0, k < I(n)))
                        if not self.feasible(z3.BoolVal(True)): raise PathEnd()
                        body(get(k))
                    else:
                        if not cond(): return None
                        try:
                            body0()
                        except ContinueSig:
                            pass
                except (BreakSig, ReturnSig, PyRaise, GenStop):
                    return None
                finally:
                    self.write_logs.pop()
                    self.frames[:] = saved_frames
                new = [key for key in log if key not in info.mods]
                if new:
                    return ("new", {key: self.cur_slot(key) for key in new}, None)
                packed = {}
                for key, kind in info.mods.items():
                    if kind is None: continue
                    v = self.cur_slot(key)
                    try:
                        packed[key] = self.pack_slot(kind, v)
                    except KindMismatch:
                        bad["kind"][key] = self.slot_kind(v)
                if bad["kind"]: return None
                for key, ts in packed.items():
                    for ci, t in enumerate(ts):
                        d = self.active_def(info, (key, ci))
                        if d is not None and (key, ci) not in bad["def"] and not self.try_prove(t == d[1](k + 1)):
                            bad["def"].add((key, ci))
                read = self.reader(info)
                for nm, fn in info.cands.items():
                    if nm in info.dropped or nm in bad["cand"]: continue
                    if not self.try_prove(fn(k + 1, read)): bad["cand"].add(nm)
                return ("end", packed, list(self.conds[nc:]), k, b0)
            ends = [e for e in self.sub_explore(run) if e is not None]
            new = [key for key in log if key not in info.mods and key[0] in self.cells]
            if new:
                for key in new:
                    vals = [self.cur_slot(key)] + [e[1][key] for e in ends if e[0] == "new" and key in e[1]]
                    info.mods[key] = self.join_slot_kinds(vals)
                    if self.debug: print("  loop", func, "modifies", key, info.mods[key])
                self.make_candidates(info, it, n, func)
                continue
            if bad["kind"]:
                for key, k2 in bad["kind"].items():
                    info.mods[key] = join_kind(info.mods[key], k2) if k2 is not None else None
                    if self.debug: print("  loop", func, "kind", key, info.mods[key])
                    for dk in [dk for dk in info.defs if dk[0] == key]: del info.defs[dk]
                info.cands, info.dropped, info.init_ok, info.gen_tried = {}, set(), set(), set()
                self.make_candidates(info, it, n, func)
                continue
            if self.debug:
                for x in bad["def"]: print("  loop", func, "drop def", x, self.active_def(info, x)[0])
                for x in bad["cand"]: print("  loop", func, "drop cand", x)
            for dk in bad["def"]:
                info.defdrop[dk] = info.defdrop.get(dk, 0) + 1
            info.dropped |= bad["cand"]
            if bad["def"]:
                continue
            added = self.generalize(info, [e for e in ends if e[0] == "end"], n)
            if self.debug and added: print("  loop", func, "generalised", added)
            if any(len(a) == 2 and a[1] == "step" for a in added): info.dropped -= bad["cand"]     # they may hold with what is known now
            if not bad["cand"] and not added:
                if ends or "the body never completes" in info.dropped or "the body never completes" in info.cands: return
                info.cands["the body never completes"] = lambda k, read: And(k == 0, *[t == e for key, es in info.entry.items() if info.mods.get(key) is not None for t, e in zip(read(key), es)])
        raise Unsupported("loop invariant inference does not converge")

    def check_init(self, info):
        for key, kind in info.mods.items():
            if kind is None: continue
            try:
                ts = self.pack_slot(kind, self.cur_slot(key))
            except KindMismatch:
                raise Unsupported(f"entry value of {key} is not a {kind}")
            info.entry = getattr(info, "entry", {})
            info.entry[key] = ts
            for ci, t in enumerate(ts):
                while True:
                    d = self.active_def(info, (key, ci))
                    if d is None or ((key, ci), d[0]) in info.init_ok: break
                    if self.try_prove(t == d[1](z3.IntVal(0))):
                        info.init_ok.add(((key, ci), d[0]))
                        break
                    info.defdrop[(key, ci)] = info.defdrop.get((key, ci), 0) + 1
        read = self.reader(info)
        for nm, fn in info.cands.items():
            if nm not in info.dropped and nm not in info.init_ok:
                if self.try_prove(fn(z3.IntVal(0), read)): info.init_ok.add(nm)
                else:
                    info.dropped.add(nm)
                    if self.debug: print("  drop (init)", nm)

    def make_candidates(self, info, it, n, func):
        entry = {key: self.cur_slot(key) for key in info.mods}
        ctx = LoopCtx(self, info, entry, it, n, func)
        ctx.info.entry = {}
        for key, kind in info.mods.items():
            if kind is None: continue
            try:
                info.entry[key] = self.pack_slot(kind, entry[key])
            except KindMismatch:
                raise Unsupported(f"entry value of {key} is not a {kind}")
        for inv in self.invariants:
            inv(ctx)
        for key, kind in info.mods.items():
            if isinstance(kind, SeqK):
                e = info.entry[key]
                for ci in range(1, len(e)):
                    nm = f"{key}: first elements kept [{ci}]"
                    if nm not in info.cands and not (z3.is_int_value(e[0]) and e[0].as_long() == 0):
                        def keep(k, read, key=key, ci=ci, e=e):
                            j = z3.Int("j!")
                            a = read(key)[ci]
                            return forall([j], Implies(And(j >= 0, j < e[0]), z3.Select(a, j) == z3.Select(e[ci], j)), patterns=[z3.Select(a, j)])
                        ctx.cand(nm, keep)
                nm = f"{key}: length does not shrink"
                ctx.cand(nm, lambda k, read, key=key, e=e: read(key)[0] >= e[0])
            if kind in (INT, NAT):
                e = info.entry[key][0]
                ctx.cand(f"{key}: not below its first value", lambda k, read, key=key, e=e: read(key)[0] >= e)
        for dk, ds in ctx.defs.items():
            info.defs.setdefault(dk, ds)
        for nm, fn in ctx.cands:
            info.cands.setdefault(nm, fn)
        info.unfold = ctx.unfold

    # ---- generalisation of one iteration

    def const(self, name, sort):
        c = super().const(name, sort)
        self.const_birth[c.decl().name()] = self.tick()
        return c

    def is_old(self, t, tick, k):
        for nm, c in consts_of(t).items():
            if c.eq(k): continue
            b = self.const_birth.get(nm)
            if b is not None and b > tick: return False
        return True

    def merge(self, ends, terms):
        """ite over the path conditions of the iteration"""
        out = terms[-1]
        for e, t in list(zip(ends, terms))[:-1][::-1]:
            if t.eq(out): continue
            out = z3.If(And(*e[2]) if e[2] else z3.BoolVal(True), t, out)
        return out

    def generalize(self, info, ends, n):
        added = []
        if not ends: return added
        k = info.head_k
        tick0 = min(e[4] for e in ends)
        for key, kind in info.mods.items():
            if kind is None: continue
            head = info.head[key]
            for ci, s in enumerate(kind.sorts()):
                dk = (key, ci)
                if self.active_def(info, dk) is not None: continue
                es = [e[1][key][ci] for e in ends]
                h, e0 = head[ci], info.entry[key][ci]
                # unchanged
                if ("same", dk) not in info.gen_tried and all(z3.simplify(t).eq(z3.simplify(h)) for t in es):
                    info.gen_tried.add(("same", dk))
                    info.defs.setdefault(dk, []).append(("unchanged", lambda k, e0=e0: e0))
                    added.append((dk, "unchanged"))
                    continue
                if s == IntS and ("step", dk) not in info.gen_tried:
                    ds = [z3.simplify(t - h) for t in es]
                    if all(d.eq(ds[0]) for d in ds) and self.is_old(ds[0], tick0, k) and k.decl().name() not in consts_of(ds[0]):
                        info.gen_tried.add(("step", dk))
                        info.defs.setdefault(dk, []).append(("step", lambda k, c=ds[0], e0=e0: z3.simplify(e0 + k * c)))
                        added.append((dk, "step"))
                        continue
                if s == BoolS or s == StrS or s == IntS or s == ByteS: continue
                if isinstance(s, z3.ArraySortRef) and s.domain() == IntS and key[0][0] not in self.cfg.no_generalize:
                    added += self.gen_array(info, ends, key, ci, kind, h, e0, es, k, tick0, n)
            if isinstance(kind, (MapK, SetK)):
                added += self.gen_map(info, ends, key, kind, k, tick0)
        return added

    def store_at(self, t, h):
        """indices written in t relative to the array h, or None"""
        idx = []
        t = z3.simplify(t)
        hs = z3.simplify(h)
        while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
            idx.append(t.arg(1))
            t = t.arg(0)
        return idx if t.eq(hs) else None

    def gen_array(self, info, ends, key, ci, kind, h, e0, es, k, tick0, n):
        nm = f"{key}[{ci}]"
        idxs = [self.store_at(t, h) for t in es]
        if any(i is None for i in idxs): return []
        flat = []
        for i in idxs:
            for x in i:
                if not any(x.eq(y) for y in flat): flat.append(x)
        if len(flat) != 1: return []
        r = flat[0]
        if not self.is_old(r, tick0, k): return []
        # value found at r after the iteration, as a function of k and of the entry array
        vals = [z3.simplify(z3.Select(t, r)) for t in es]
        v = self.merge(ends, vals)
        v = z3.substitute(v, (z3.simplify(z3.Select(h, r)), z3.Select(e0, r)))
        r = self.closed_form(r, k)
        if not self.is_old(v, tick0, k) or h.decl().name() in consts_of(v): 
            if self.debug and ("gen", nm) not in info.gen_tried:
                info.gen_tried.add(("gen", nm)); print("   cannot generalise", nm, "at", r, "value", v)
            return []
        tag = ("arr", nm, r.sexpr(), v.sexpr())
        if tag in info.gen_tried: return []
        info.gen_tried.add(tag)
        num = len(info.gen_tried)
        at = lambda t, j: z3.substitute(t, (k, j))
        kname = k
        r0 = z3.simplify(at(r, z3.IntVal(0)))
        unit = z3.is_int_value(z3.simplify(at(r, k + 1) - r)) and z3.simplify(at(r, k + 1) - r).as_long() == 1
        def done(kk, read, r=r, v=v):
            j = z3.Int("j!")
            if unit:
                a = read(key)[ci]
                return forall([j], Implies(And(j >= r0, j < z3.simplify(at(r, kk))), z3.Select(a, j) == z3.simplify(at(v, j - r0))), patterns=[z3.Select(a, j)])
            a = read(key)[ci]
            rj = at(r, j)
            return forall([j], Implies(And(j >= 0, j < kk), z3.Select(a, rj) == at(v, j)), patterns=self.pats(j, z3.Select(a, rj), rj))
        def rest(kk, read, r=r):
            j = z3.Int("j!")
            a = read(key)[ci]
            rj = at(r, j)
            if unit: return forall([j], Implies(j >= z3.simplify(at(r, kk)), z3.Select(a, j) == z3.Select(e0, j)), patterns=[z3.Select(a, j)])
            return forall([j], Implies(And(j >= kk), z3.Select(a, rj) == z3.Select(e0, rj)), patterns=self.pats(j, z3.Select(a, rj), rj))
        def frame(kk, read, r=r):
            x, j = z3.Ints("x! j!")
            a = read(key)[ci]
            return forall([x], Or(z3.Select(a, x) == z3.Select(e0, x), z3.Exists([j], And(j >= 0, j < kk, at(r, j) == x))), patterns=[z3.Select(a, x)])
        def frame2(kk, read, r=r):
            x = z3.Int("x!")
            a = read(key)[ci]
            if unit: return forall([x], Implies(x < r0, z3.Select(a, x) == z3.Select(e0, x)), patterns=[z3.Select(a, x)])
            return forall([x], Or(z3.Select(a, x) == z3.Select(e0, x), And(x >= r0, x < at(r, kk))), patterns=[z3.Select(a, x)])
        cs = [("done", done)]
        if isinstance(kind, Raw):
            cs += [("rest", rest), ("frame", frame2)] + ([] if unit or getattr(self, "no_exists_frames", False) else [("frame2", frame)])
        out = []
        for tg, fn in cs:
            info.cands[f"{nm} {tg} {num}"] = fn
            out.append((nm, tg, str(v)[:80]))
        return out

    def closed_form(self, r, k):
        """a[k] replaced by t(k) when a fact says that a[j] == t(j) for all j of a range (only used to propose invariants)"""
        if not (z3.is_app(r) and r.decl().kind() == z3.Z3_OP_SELECT and r.arg(1).eq(k)): return r
        a = r.arg(0)
        for f in self.facts:
            if not (z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1): continue
            b = f.body()
            for c in (b.children() if z3.is_or(b) or z3.is_implies(b) else [b]):
                if z3.is_eq(c) and z3.is_app(c.arg(0)) and c.arg(0).decl().kind() == z3.Z3_OP_SELECT and c.arg(0).arg(0).eq(a) and z3.is_var(c.arg(0).arg(1)):
                    t = z3.simplify(z3.substitute_vars(c.arg(1), k))
                    if a.sexpr() not in t.sexpr(): return t
        return r

    def pats(self, j, t, r):
        """trigger for quantification over an index: invert simple offsets so that e-matching works"""
        if r.eq(j): return [t]
        return [t]

    def gen_map(self, info, ends, key, kind, k, tick0):
        """dictionaries and sets filled with one (conditional) insertion per iteration"""
        head, entry = info.head[key], info.entry[key]
        if self.active_def(info, (key, 0)) is not None: return []
        nm = f"{key}"
        ks = head[0].sort().domain()
        keyt, conds = None, []
        per = []
        for e in ends:
            idx = self.store_at(e[1][key][0], head[0])
            if idx is None or len(idx) > 1: return []
            if idx:
                t = z3.simplify(z3.Select(e[1][key][0], idx[0]))
                if not z3.is_true(t): return []
                if not self.is_old(idx[0], tick0, k): return []
                vals = [z3.simplify(z3.Select(a, idx[0])) for a in e[1][key][1:]]
                if any(not self.is_old(v, tick0, k) for v in vals): return []
                per.append((e, idx[0], vals))
            c = And(*e[2]) if e[2] else z3.BoolVal(True)
            if not self.is_old(c, tick0, k): return []
        if not per: return []
        es = [p[0] for p in per]
        kt = self.merge(es, [p[1] for p in per])
        vt = [self.merge(es, [p[2][i] for p in per]) for i in range(len(head) - 1)]
        ins = Or(*[And(*e[2]) if e[2] else z3.BoolVal(True) for e in es]) if len(per) < len(ends) else z3.BoolVal(True)
        tag = ("map", nm, kt.sexpr())
        if tag in info.gen_tried: return []
        info.gen_tried.add(tag)
        uf = z3.Function(f"last!{len(info.gen_tried)}_{key[0][1]}_{self.nloops}", IntS, ks, IntS)     # ghost: last insertion of a key before iteration k
        at = lambda t, j: z3.substitute(t, (k, j))
        x, j = z3.Const("x!", ks), z3.Int("j!")
        def unfold(kk):
            return [forall([x], uf(kk + 1, x) == z3.If(And(at(ins, kk), at(kt, kk) == x), kk, uf(kk, x)), patterns=[uf(kk + 1, x)])]
        # (where the contract gives invariants of its own, these decide: the inferred one would only slow the proofs down)
        if not self.invariants: self.axiom(forall([x], uf(0, x) == -1, [uf(z3.IntVal(0), x)]))
        info.unfold = info.unfold + [unfold]
        def inv(kk, read):
            a = read(key)
            return forall([x], And(uf(kk, x) >= -1, uf(kk, x) < kk,
                a[0][x] == Or(entry[0][x], uf(kk, x) >= 0),
                *[a[i + 1][x] == z3.If(uf(kk, x) >= 0, at(vt[i], uf(kk, x)), entry[i + 1][x]) for i in range(len(vt))],
                Implies(uf(kk, x) >= 0, And(at(ins, uf(kk, x)), at(kt, uf(kk, x)) == x))), patterns=[uf(kk, x)] + [z3.Select(b, x) for b in a])
        def cover(kk, read):
            ktj = at(kt, j)
            return forall([j], Implies(And(j >= 0, j < kk, at(ins, j)), uf(kk, ktj) >= j), patterns=[uf(kk, ktj)] if not ktj.eq(j) else [uf(kk, j)])
        if not self.invariants: info.cands[f"{nm} map {len(info.gen_tried)}"] = inv
        info.cands[f"{nm} map cover {len(info.gen_tried)}"] = cover
        return [(nm, "map")]
