"""Contracts: a property is a list of goals; a goal runs repository functions from an arbitrary state allowed by its
precondition and proves its postcondition, invariants and frame on every path."""
import time
import traceback
import z3
from .core import *
from .values import *
from .interp import Engine
from .loops import Raw, BOT
from . import models as M
from .models import bi, FileV, MapView, LoggerV


class Goal:
    def __init__(self, name, run, setup=None, covers=(), doc="", cfg=None):
        self.name, self.run, self.setup, self.covers, self.doc, self.cfg = name, run, setup, list(covers), doc, cfg


class GoalResult:
    def __init__(self, goal): self.goal, self.obligations, self.error, self.seconds = goal, [], None, 0.0


def run_goal(goal, deadline, debug=False):
    t0 = time.time()
    E = Engine()
    for k, v in (goal.cfg or {}).items(): setattr(E.cfg, k, v)
    E.deadline = deadline
    E.debug = debug
    r = GoalResult(goal)
    try:
        if goal.setup: goal.setup(E)
        E.explore(goal.run)
        r.obligations = E.obligations
    except Unsupported as e:
        node = getattr(E, "cur_node", None)
        line = f" (line {node.lineno})" if node is not None and hasattr(node, "lineno") else ""
        fn = E.frames[-1].fname if getattr(E, "frames", None) else "?"
        r.error = f"undecided: {e} in {fn}{line}"
        r.obligations = E.obligations
        if debug: traceback.print_exc()
    except PyRaise as e:
        r.error = f"undecided: unexpected exception in the harness {e.exc!r}"
        r.obligations = E.obligations
        if debug: traceback.print_exc()
    except (KindMismatch, z3.Z3Exception, RecursionError, AssertionError, AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
        r.error = f"undecided: {type(e).__name__}: {e}"
        r.obligations = E.obligations
        if debug: traceback.print_exc()
    r.functions, r.assumed, r.paths, r.queries, r.solver_ms = set(E.functions), set(E.assumed), E.paths, E.queries, E.solver_ms
    r.uncovered = [c for c in goal.covers if E.covers.get(c) != "sat"] if r.error is None else []
    r.covers = dict(E.covers)
    r.seconds = time.time() - t0
    return r


# --------------------------------------------------------------------------- helpers for contracts

def call(E, fn, *args, **kw):
    """run a function; ('ok', value) or ('exc', exception)"""
    depth = len(E.frames)
    try:
        return "ok", E.call(fn, list(args), kw)
    except PyRaise as e:
        del E.frames[depth:]
        return "exc", e.exc


def is_exc(E, exc, name):
    c = exc.cls if isinstance(exc, ExcV) else TypeV(exc.base)
    return E.is_subclass(c, TypeV(name) if isinstance(name, str) else name)


def func(E, spec):
    """'module.function' or 'module.Class.method'"""
    parts = spec.split(".")
    v = E.global_get(E.module(parts[0]), parts[1])
    for p in parts[2:]: v = E.getattr(v, p)
    return v


def obj(E, cls, **fields):
    """object of a repository class in an arbitrary state with these fields (constructor not run)"""
    c = E.cls(cls) if isinstance(cls, str) else cls
    return Obj(E, c, **fields)


def symbytes(E, name="data"):
    t = E.const(name, ByteS)
    E.fact(blen(t) >= 0)
    return SB(t, z3.IntVal(0), blen(t))


def int_comps(ctx):
    """(label, fn(read) -> int term) for every integer component of the modified slots"""
    out = []
    for key, kind in ctx.info.mods.items():
        if kind is None: continue
        lab = f"{key[0][0]}{key[0][1]}.{key[1]}"
        if kind in (INT, NAT): out.append((lab, lambda read, key=key: read(key)[0], "int"))
        elif isinstance(kind, View):
            out.append((lab + ".start", lambda read, key=key: read(key)[0], "start"))
            out.append((lab + ".end", lambda read, key=key: read(key)[0] + read(key)[1], "end"))
            out.append((lab + ".len", lambda read, key=key: read(key)[1], "len"))
        elif isinstance(kind, SeqK): out.append((lab + ".n", lambda read, key=key: read(key)[0], "seqlen"))
        elif kind == BYTES: out.append((lab + ".blen", lambda read, key=key: blen(read(key)[0]), "blen"))
    return out


def base_fact(E, f):
    E.fact(f)


def eq(E, a, b):
    """the interpreted program's a == b, as a formula"""
    return B(E.eq(a, b))


def is_none(E, a):
    return B(E.identical(a, None))


def same_value(E, a, b):
    return is_none(E, a) if b is None else And(Not(is_none(E, a)), eq(E, a, b))


def induct(E, name, n, P, facts=None):
    """proof by induction of P(n) for the non-negative n; facts(k) are unfoldings available at k"""
    if E.mode == "infer": raise Unsupported("induction inside of a loop body")
    k = E.const("ind", IntS)
    E.prove(P(z3.IntVal(0)), f"{name}: base")
    E.trail_facts = None
    snap = len(E.facts)
    E.qf.push()
    E.fact(And(k >= 0, k < I(n)))
    for f in (facts(k) if facts else []): E.fact(f)
    E.fact(P(k))
    E.prove(P(k + 1), f"{name}: step")
    for f in E.facts[snap:]: E.fact_ids.pop(f.get_id(), None)
    del E.facts[snap:]
    E.qf.pop()
    E.fact(P(I(n)))


def bytes_term(E, v):
    return E.bseq(E.resolve(v))


def joined(E, t):
    """(array, n) when t is the concatenation of a list of byte strings"""
    if z3.is_app(t) and t.decl().name() == "bjoin": return t.arg(0), t.arg(1)
    return None
