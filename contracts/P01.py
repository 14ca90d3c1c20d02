"""P01: versions built from arbitrary dotted text or arbitrary tuples of numbers."""
from pyvc.contract import *

AI = z3.ArraySort(IntS, IntS)


class Ver:
    """a version object together with the numbers it stands for"""
    def __init__(self, E, cls, how, name):
        self.refused = None
        if how == "tuple":
            n, arr = E.const(name + "_n", IntS), E.const(name, AI)
            E.fact(n >= 0)
            arg = SSeq(INT, n, [arr], tup=True)
            valid = n >= 1
        else:
            arg = E.const(name, StrS)
            parts = M.split_model(E, arg, ".", -1).v
            n, arr, j = parts.n, E.const(name + "_t", AI), z3.Int("j!")
            ok = lambda i: fcall("int_ok10", parts.arrs[0][i], ret=BoolS)
            E.fact(forall([j], Implies(And(j >= 0, j < n), arr[j] == fcall("int_of10", parts.arrs[0][j])), [arr[j], parts.arrs[0][j]]))
            w = E.const(name + "_bad", IntS)      # a part that is not a number, if there is one
            valid = And(arg != S(""), Not(And(w >= 0, w < n, Not(ok(w)))))
            E.fact(Implies(And(valid), forall([j], Implies(And(j >= 0, j < n), ok(j)), [parts.arrs[0][j]])))
            E.fact(Implies(arg == S(""), And(n == 1, Not(ok(0)))))
        self.arg, self.n, self.arr = arg, n, arr
        st, v = call(E, E.cls(cls), arg)
        if st == "exc":
            self.refused, self.valid = v, valid
            return
        self.valid = valid
        self.v = v

    def text(self, E, n=None):
        """the numbers written in decimal, separated by dots"""
        n = self.n if n is None else n
        a, j = E.const("canon", z3.ArraySort(IntS, StrS)), z3.Int("j!")
        x = M.to_str(E, self.arr[E.const("dummy", IntS)])
        dec = z3.Function("dec", IntS, StrS)
        E.fact(forall([j], Implies(And(j >= 0, j < n), a[j] == dec(self.arr[j])), [a[j], self.arr[j]]))
        return M.join_term(E, ".", n, a)

    def numbers(self): return SSeq(INT, self.n, [self.arr], tup=True)


HOW = [("text", None), ("tuple", None)]


def run_build(E):
    which = E.choose("class", [("BaseVersion", None), ("PatchVersion", None)])
    cls = ["storage.BaseVersion", "storage.PatchVersion"][which]
    how = HOW[E.choose("from", HOW)][0]
    if which and how == "text":
        pass
    a = Ver(E, cls, how, "a")
    main = which == 1 and how == "text"
    if a.refused is not None:
        E.prove(Or(Not(a.valid), B(which == 1) if which else B(False)), "text of numbers and non-empty tuples are accepted")
        if which: E.prove(Or(Not(a.valid), a.n < 2), "patch versions of two or more numbers are accepted")
        if main: E.prove(a.arg != S("main"), "the PBE version is accepted")
        E.cover("refused")
        return
    v = a.v
    if main and E.branch(a.arg == S("main"), "main"):
        E.prove(eq(E, v, "main"), "the PBE version is 'main'")
        E.prove(eq(E, E.call(E.getattr(v, "as_int"), []), 9999), "the PBE version maps to 9999")
        b = Ver(E, "storage.PatchVersion", "text", "b")
        if b.refused is None and E.branch(b.arg == S("main"), "main"):
            E.prove(eq(E, v, b.v), "the PBE version equals itself")
            E.prove(I(M.b_hash(E, [v], {})) == I(M.b_hash(E, [b.v], {})), "and hashes alike")
            E.cover("main")
        elif b.refused is None:
            # text of a numeric version is a join of numbers, which is not 'main'
            parts = M.split_model(E, S("main"), ".", -1).v
            E.fact(And(parts.n == 1, parts.arrs[0][0] == S("main"), Not(fcall("int_ok10", S("main"), ret=BoolS)), fcall("at", 0, ret=BoolS)))
            E.prove(Not(eq(E, v, b.v)), "the PBE version equals no other")
            E.prove(Not(eq(E, b.v, v)), "no other equals the PBE version")
            E.cover("main and another")
        return
    E.prove(a.valid, "only text of numbers and non-empty tuples are accepted")
    n = a.n
    if which:
        E.prove(a.n >= 2, "a patch version of fewer than two numbers is refused")
        n = z3.IntVal(2)
        E.prove(eq(E, E.call(E.getattr(v, "as_int"), []), 100 * a.arr[0] + a.arr[1]), "the integer form is 100*season+patch")
    E.prove(eq(E, v, SSeq(INT, n, [a.arr], tup=True)), "a version equals its number tuple")
    E.prove(eq(E, v, a.text(E, n)), "a version equals its canonical text")
    E.prove(S(M.to_str(E, v)) == a.text(E, n), "a version is written as its canonical text")
    E.cover("built " + cls)


def run_compare(E):
    hows = [HOW[E.choose("from", HOW)][0] for _ in range(2)]
    if hows == ["tuple", "text"]: return          # symmetric to the other order: all operators are checked both ways
    a, b = Ver(E, "storage.BaseVersion", hows[0], "a"), Ver(E, "storage.BaseVersion", hows[1], "b")
    if a.refused is not None or b.refused is not None: return
    E.fact(And(a.valid, b.valid))
    lt, same = M.lex(E, (a.n, a.arr), (b.n, b.arr))
    E.branch(same, 'same')
    gt = Not(Or(lt, same))
    ops = {"lt": lt, "le": Or(lt, same), "gt": gt, "ge": Or(gt, same)}
    for x, y, neg in ((a, b, False), (b, a, True)):
        for op, want in ops.items():
            w = want if not neg else {"lt": gt, "le": Or(gt, same), "gt": lt, "ge": Or(lt, same)}[op]
            E.prove(B(M.order(E, op, x.v, y.v)) == w, f"{op} compares the numbers from left to right ({hows[0]}, {hows[1]})")
        import ast
        E.prove(eq(E, x.v, y.v) == same, f"== compares the numbers ({hows[0]}, {hows[1]})")
        E.prove(B(M.compare(E, ast.NotEq(), x.v, y.v)) == Not(same), f"!= compares the numbers ({hows[0]}, {hows[1]})")
    E.prove(Implies(same, I(M.b_hash(E, [a.v], {})) == I(M.b_hash(E, [b.v], {}))), "equal versions hash alike")
    E.cover(f"compared {hows}")


GOALS = [Goal("construction", run_build, covers=["refused", "main", "main and another", "built storage.BaseVersion", "built storage.PatchVersion"]),
         Goal("comparison", run_compare, covers=["compared ['text', 'text']", "compared ['text', 'tuple']", "compared ['tuple', 'tuple']"])]
ASSUMPTIONS = ["str.split/str.join and int()/str() on decimal text are inverse as documented; number tuples hold integers"]
