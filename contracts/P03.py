"""P03: RequestStreamReader. The body D is cut into chunks at arbitrary increasing positions; an arbitrary sequence of
copy/skip/skip_to is executed on one reader (histories: induction over the sequence of operations)."""
from pyvc.contract import *

CS = z3.Function("cut", IntS, IntS)      # chunk i is D[cut(i), cut(i+1))


def setup(E):
    def invariant(ctx):
        T = E.T
        comps = int_comps(ctx)
        ints = [(l, f) for l, f, w in comps if w in ("int", "start", "end")]
        anchors = [("written to", lambda r: rd(E, r, E.W, "to")), ("stream position", lambda r: rd(E, r, E.G, "pos")),
                   ("target", lambda r: T["target"]), ("chunk limit", lambda r: CS(I(rd(E, r, E.it, "pos")))),
                   ("start", lambda r: T["pos0"])]
        for i, (l, f) in enumerate(ints):
            for al, a in anchors: ctx.cand(f"{l} is {al}", lambda k, r, f=f, a=a: f(r) == a(r))
            for m, g in ints[i + 1:]: ctx.cand(f"{l} equals {m}", lambda k, r, f=f, g=g: f(r) == g(r))
        for l, f, w in comps:
            if w != "int": continue
            for m, g, w2 in comps:
                if w2 != "start": continue
                ctx.cand(f"{l} counts what is left from {m}", lambda k, r, f=f, g=g: f(r) == T["target"] - g(r))
                ctx.cand(f"{l} counts what was done until {m}", lambda k, r, f=f, g=g: f(r) == g(r) - T["pos0"])
            ctx.cand(f"{l} not negative", lambda k, r, f=f: f(r) >= 0)
            ctx.cand(f"{l} left to the limit", lambda k, r, f=f: f(r) == T["target"] - CS(I(rd(E, r, E.it, "pos"))))
        for l, f, w in comps:
            if w in ("start", "end"):
                ctx.cand(f"{l} within the body", lambda k, r, f=f: And(f(r) >= 0, f(r) <= blen(E.D.base)))
                ctx.cand(f"{l} before target", lambda k, r, f=f: f(r) <= T["target"])
        ctx.cand("chunks taken", lambda k, r: And(I(rd(E, r, E.it, "pos")) >= 0, I(rd(E, r, E.it, "pos")) <= E.N))
        ctx.cand("position within the body", lambda k, r: And(I(rd(E, r, E.G, "pos")) >= 0, I(rd(E, r, E.G, "pos")) <= blen(E.D.base)))
    E.invariants.append(invariant)


def rd(E, read, cell, slot):
    try:
        return read((cell.uid, slot))[0]
    except KeyError:
        return I(cell.slots[slot])


def run(E):
    E.D = D = symbytes(E, "body")
    E.N = N = E.const("chunks", IntS)
    j = z3.Int("j!")
    E.fact(And(N >= 0, CS(0) == 0, CS(N) == blen(D.base)))
    E.fact(z3.ForAll([j], Implies(And(j >= 0, j <= N), And(CS(j) >= 0, CS(j) <= blen(D.base))), patterns=[CS(j)]))
    def chunk(i):
        E.fact(And(CS(i) <= CS(I(i) + 1)))
        return SB(D.base, CS(I(i)), CS(I(i) + 1) - CS(I(i)))
    E.it = IterCell(E, SeqView(N, chunk))
    E.W = Cell(E, "written", to=z3.IntVal(0))
    E.G = Cell(E, "ghost", pos=z3.IntVal(0))
    zero = z3.IntVal(0)
    E.T = {"target": zero, "pos0": zero}
    class Response:
        def attr(self, E, name):
            if name == "iter_content": return bi("iter_content", lambda *a, **k: E.it)
            raise Unsupported("response." + name)
    reader = E.instantiate(E.cls("storage.RequestStreamReader"), [Response()], {})
    E.prove(I(E.getattr(reader, "pos")) == 0, "a new reader is at position 0")
    nops = E.const("nops", IntS)
    E.fact(nops >= 0)

    def writer(E_, a, k):
        b = a[0]
        if isinstance(b, bytes): b = M.as_sb(E, b)
        E.prove(b.base.eq(D.base), "the writer receives bytes of the body")
        E.prove(Implies(I(b.n) > 0, I(b.start) == I(E.W.slots["to"])), "the writer receives the bytes that follow the ones it has received")
        E.prove(I(b.n) >= 0, "written length")
        E.W.set("to", I(E.W.slots["to"]) + I(b.n))
        return None

    def op(_):
        pos0 = I(E.G.slots["pos"])
        E.prove(I(E.getattr(reader, "pos")) == pos0, "position equals the sum of the requested amounts")
        which = E.choose("operation", [("copy", None), ("skip", None), ("skip_to", None), ("skip_back", None)])
        n = E.const("n", IntS)
        target = pos0 + n
        E.T = {"target": target, "pos0": pos0}
        E.W.set("to", pos0)
        if which in (0, 1, 2): E.fact(And(n >= 0, target <= blen(D.base)))
        itpos = I(E.it.slots["pos"])
        if which == 3:
            E.fact(And(n < 0, target >= 0))
            slots0 = dict(reader.slots)
            st, v = call(E, E.getattr(reader, "skip_to"), target)
            E.prove(B(st == "exc" and is_exc(E, v, "AssertionError")), "seeking backwards is refused")
            E.prove(I(E.it.slots["pos"]) == itpos, "a refused seek reads nothing")
            E.prove(I(E.getattr(reader, "pos")) == pos0, "a refused seek does not move")
            E.cover("seek-back")
        else:
            w = BuiltinV("writer", writer)
            if which == 0: st, v = call(E, E.getattr(reader, "copy"), w, n)
            elif which == 1: st, v = call(E, E.getattr(reader, "skip"), n)
            else: st, v = call(E, E.getattr(reader, "skip_to"), target)
            E.prove(B(st == "ok"), "a request within the body succeeds")
            if st != "ok": raise PathEnd()
            E.prove(I(E.getattr(reader, "pos")) == target, "the position advances by the requested amount")
            E.prove(I(E.W.slots["to"]) == (target if which == 0 else pos0), "copy writes exactly the requested range, skip writes nothing")
            E.cover(["copy", "skip", "skip_to"][which])
            E.G.set("pos", target)
        E.W.set("to", z3.IntVal(0))
        E.T = {"target": z3.IntVal(0), "pos0": z3.IntVal(0)}
    E.frames.append(E.new_frame(E.module("storage"), None, "history", set()))
    E.symbolic_loop(None, nops, lambda k: k, None, body=op)


GOALS = [Goal("history", run, setup, covers=["copy", "skip", "skip_to", "seek-back"])]
