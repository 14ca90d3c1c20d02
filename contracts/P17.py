"""P17: reducing paths, over trees of any depth and width.

A tree node is a leaf or a directory; a directory is an abstract value with a set of names and a node for each name. A word
is the empty word or a name and a word; IN(node, word) says that the tree has that path. The number of returned paths that
cover a word is counted."""
from pyvc.contract import *

SB_, SI = z3.ArraySort(StrS, BoolS), z3.ArraySort(StrS, IntS)
HAS, LEAF, SUB = z3.Function("names", IntS, SB_), z3.Function("leaf_names", IntS, SB_), z3.Function("children", IntS, SI)
PART, SAME, FREE = z3.Function("part_of", IntS, IntS, BoolS), z3.Function("same_tree", IntS, IntS, BoolS), z3.Function("consistent", IntS, IntS, BoolS)
INW = z3.Function("has_rest", BoolS, IntS, BoolS)          # the tree below a node has the rest of the word


class DirK(Kind):
    def __repr__(self): return "tree"
    def __eq__(self, o): return isinstance(o, DirK)
    def __hash__(self): return 77
    def sorts(self): return [IntS]
    def pack(self, E, v):
        if isinstance(v, DictCell) and hasattr(v, "tree"): return [v.tree]
        raise KindMismatch("not a tree")
    def unpack(self, E, ts):
        d = DictCell(E, SMap(STR, Opt(self), HAS(ts[0]), [LEAF(ts[0]), SUB(ts[0])]))
        d.tree = ts[0]
        return d
    def wf(self, E, ts): return []

NODE = Opt(DirK())


class Node:
    """a tree node: leaf or directory t"""
    def __init__(self, l, t): self.l, self.t = l, t
    def has(self, a): return And(Not(self.l), HAS(self.t)[a])
    def child(self, a): return Node(LEAF(self.t)[a], SUB(self.t)[a])
    def value(self, E): return NODE.unpack(E, [self.l, self.t])

def node_of(E, v):
    return Node(*[z3.simplify(x) for x in NODE.pack(E, v)])

def part(n1, n2): return And(n1.l == n2.l, Or(n1.l, PART(n1.t, n2.t)))
def same(n1, n2): return And(n1.l == n2.l, Or(n1.l, SAME(n1.t, n2.t)))


class Excl:
    """paths to exclude at a node: none, or the ones of a directory"""
    def __init__(self, none, t): self.none, self.t = none, t
    def value(self, E): return SOpt(self.none, DirK().unpack(E, [self.t])) if not z3.is_true(self.none) else None
    def child(self, a): return Excl(Or(self.none, Not(HAS(self.t)[a]), LEAF(self.t)[a]), SUB(self.t)[a])

def consistent(n, x):
    """no excluded path is the path of a leaf, above a leaf or below a leaf"""
    return Or(x.none, And(Not(n.l), FREE(n.t, x.t)))


class Mark:
    """what a recursive call returns: name of the subtree, number of returned paths that cover the word"""
    def __init__(self, name, count): self.name, self.count = name, count


def declare(E):
    class X: pass
    E.X = X
    p, q, x = z3.Int("p!"), z3.Int("q!"), z3.String("x!")
    P, Q = Node(False, p), Node(False, q)
    E.fact(forall([p, q, x], Implies(And(PART(p, q), HAS(p)[x]), And(HAS(q)[x], part(P.child(x), Q.child(x)))), [mpat(PART(p, q), HAS(p)[x])]))
    E.fact(forall([p, q, x], Implies(And(FREE(p, q), HAS(p)[x], HAS(q)[x]), And(Not(LEAF(p)[x]), Not(LEAF(q)[x]), FREE(SUB(p)[x], SUB(q)[x]))), [mpat(FREE(p, q), HAS(p)[x])]))
    E.eq_hook = lambda E, a, b: SAME(a.tree, b.tree) if hasattr(a, "tree") and hasattr(b, "tree") else None
    X.nil, X.a = E.const("word_is_empty", BoolS), E.const("first_name", StrS)
    return X


def has_word(X, n): return z3.If(X.nil, n.l, And(n.has(X.a), INW(n.child(X.a).l, n.child(X.a).t)))
def rest_in(n): return INW(n.l, n.t)
def rest_excluded(x, n):
    """the rest of the word is an excluded path"""
    return And(Not(x.none), INW(False, x.t))


def post(count, n1, n2, x):
    """postcondition of a call, for the rest of the word"""
    return And(count >= 0, Implies(rest_in(n1), count == 1), Implies(And(count >= 1, rest_in(n2)), rest_in(n1)), Implies(count >= 1, Not(rest_excluded(x, n1))))


def setup_reduce(E):
    def inv(ctx):
        X = E.X
        key = (X.G.uid, "count")
        if key not in ctx.info.mods: return
        it = M.enum_of(E, SMap(STR, NODE, HAS(X.n1.t), [LEAF(X.n1.t), SUB(X.n1.t)]))
        n, keys, ix = it
        ctx.unfold_with(lambda k: [Implies(And(HAS(X.n1.t)[X.a], k < n), (ix(X.a) == k) == (keys[k] == X.a)), Or(ix(X.a) < k, ix(X.a) == k, ix(X.a) > k)])
        seen = lambda k: And(Not(X.nil), HAS(X.n1.t)[X.a], ix(X.a) < k)
        a = X.a
        ctx.cand("nothing yet", lambda k, r: Implies(Not(seen(k)), r(key)[0] == 0))
        ctx.cand("covered", lambda k, r: Implies(seen(k), post(r(key)[0], X.n1.child(a), X.n2.child(a), X.x.child(a))))
    E.invariants.append(inv)


def run_reduce(E):
    X = declare(E)
    n0, base = E.const("depth", IntS), E.const("names_above", z3.ArraySort(IntS, StrS))
    E.fact(n0 >= 0)
    X.n1, X.n2 = Node(E.const("leaf1", BoolS), E.const("tree1", IntS)), Node(E.const("leaf2", BoolS), E.const("tree2", IntS))
    X.x = Excl(E.const("no_excludes", BoolS), E.const("excludes", IntS))
    n1, n2, x, a = X.n1, X.n2, X.x, X.a
    # precondition
    E.fact(And(part(n1, n2), consistent(n1, x)))
    # meaning of equality and of the rest of the word, for the name under consideration
    E.fact(Implies(And(Not(n1.l), Not(n2.l), SAME(n1.t, n2.t)), And(HAS(n1.t)[a] == HAS(n2.t)[a], Implies(HAS(n1.t)[a], same(n1.child(a), n2.child(a))))))
    for b, c in ((n1.child(a), n2.child(a)),):
        E.fact(Implies(same(b, c), rest_in(b) == rest_in(c)))
        E.fact(Implies(part(b, c), Implies(rest_in(b), rest_in(c))))
    X.G = Cell(E, "ghost", count=z3.IntVal(0))
    X.parts = ListCell(E, SSeq(STR, n0, [base]))
    top = []
    def callee(E, args, kw):
        if kw or len(args) != 4: raise Unsupported("call of reduce_common_trees")
        if args[0] is X.parts: return NotImplemented
        parts, c1, c2 = M.as_seq(E, args[0]), node_of(E, args[1]), node_of(E, args[2])
        ex = E.resolve(args[3])
        xs = NODE.pack(E, ex)
        xe = Excl(xs[0], xs[1])
        q = E.const("q", IntS)
        m = I(parts.n) if isinstance(parts, SSeq) else z3.IntVal(len(parts.items))
        E.prove(m == n0 + 1, "a name is added to the path")
        ps = E.to_sseq(parts, STR) if not isinstance(parts, SSeq) else parts
        E.prove(Implies(And(q >= 0, q < n0), ps.arrs[0][q] == base[q]), "the path of the directory is kept")
        name = ps.arrs[0][n0]
        E.prove(And(HAS(n1.t)[name], Not(n1.l)), "only names of the tree are visited")
        E.prove(And(c1.l == LEAF(n1.t)[name], Or(c1.l, c1.t == SUB(n1.t)[name])), "the subtree of that name is visited")
        E.prove(And(HAS(n2.t)[name], c2.l == LEAF(n2.t)[name], Or(c2.l, c2.t == SUB(n2.t)[name])), "and compared with the one of the same name")
        want = x.child(name)
        E.prove(And(xe.none == want.none, Or(xe.none, xe.t == want.t)), "excluded paths are the ones of the same name")
        E.prove(part(c1, c2), "precondition: part of the other tree")
        E.prove(consistent(c1, xe), "precondition: consistent excluded paths")
        count = E.const("count", IntS)
        E.fact(Implies(And(Not(X.nil), name == a), post(count, n1.child(a), n2.child(a), x.child(a))))
        return (Mark(name, count),)
    E.contracts["export.reduce_common_trees"] = callee
    X.self = E.const("covers", BoolS)
    here = []
    def each(v):
        v = E.resolve(v) if not isinstance(v, Mark) else v
        g = X.G.slots["count"]
        if isinstance(v, Mark): X.G.set("count", z3.If(And(Not(X.nil), v.name == a), g + v.count, g))
        else:
            E.prove(E.eq(v, M.str_join(E, "/", X.parts)), "the path of the directory or file itself is returned")
            here.append(1)
            X.G.set("count", g + 1)
    def go(E):
        f = func(E, "export.reduce_common_trees")
        g = E.call(f, [X.parts, n1.value(E), n2.value(E), x.value(E)])
        E.iterate(g, each)
    st, r = call(E, BuiltinV("go", lambda E, a_, k: go(E)))
    E.prove(B(st == "ok"), "trees can be reduced")
    if st != "ok": return
    c = X.G.slots["count"]
    E.prove(Implies(has_word(X, n1), c == 1), "every unchanged path is covered by exactly one returned path")
    E.prove(Implies(And(c >= 1, has_word(X, n2)), has_word(X, n1)), "previous paths that are covered are unchanged")
    E.prove(Implies(c >= 1, Not(z3.If(X.nil, False, And(Not(x.none), HAS(x.t)[a], z3.If(LEAF(x.t)[a], INW(True, SUB(x.t)[a]), INW(False, SUB(x.t)[a])))))), "no path to be exported again is covered")
    E.prove(Implies(X.nil, (c == 1) == Or(n1.l, And(SAME(n1.t, n2.t), x.none))), "a directory is returned exactly when nothing below it prevents it")
    E.cover("reduced")


# ---------------------------------------------------------------- from paths to paths

def run_paths(E):
    X = declare(E)
    given = [Opq(E.const(nm, AnyS)) for nm in ("paths1", "paths2", "excludes")]
    trees = [E.const(nm, IntS) for nm in ("t1", "t2", "tx")]
    def to_tree(E, args, kw):
        a = E.resolve(args[0])
        for g, t in zip(given, trees):
            if a is g: return DirK().unpack(E, [t])
        raise Unsupported("paths_to_tree of something else")
    E.contracts["export.paths_to_tree"] = to_tree
    n, L, i = E.const("returned", IntS), E.const("reduced", z3.ArraySort(IntS, StrS)), z3.Int("i!")
    E.fact(n >= 0)
    # the root is not returned (there is a set of excluded paths, be it empty), and names are not empty
    E.fact(forall([i], L[i] != S(""), [L[i]]))
    calls = []
    def reduce(E, args, kw):
        a = [E.resolve(x) for x in args]
        E.prove(B(len(a) == 4 and not kw), "call of reduce_common_trees")
        E.prove(B(isinstance(a[0], ListCell) and isinstance(a[0].v, CSeq) and len(a[0].v.items) == 0), "reduction starts at the root")
        for v, t, nm in zip(a[1:], trees, ("unchanged paths", "previous paths", "paths to export again")):
            E.prove(B(v is not None and hasattr(v, "tree") and v.tree.eq(t)), f"tree of the {nm}")
        calls.append(1)
        return ListCell(E, SSeq(STR, n, [L]))
    E.contracts["export.reduce_common_trees"] = reduce
    st, r = call(E, func(E, "export.reduce_common_paths"), *given)
    E.prove(B(st == "ok" and len(calls) == 1), "paths can be reduced")
    if st != "ok": return
    r = M.as_seq(E, r)
    E.prove(B(isinstance(r, SSeq)), "a list is returned")
    q = E.const("q", IntS)
    E.prove(And(I(r.n) == n, Implies(And(q >= 0, q < n), r.arrs[0][q] == L[q])), "exactly the reduced paths are returned")
    E.cover("paths reduced")


GOALS = [Goal("reducing trees", run_reduce, setup_reduce, covers=["reduced"], cfg={"try_both": True}),
         Goal("reducing paths", run_paths, covers=["paths reduced"])]
ASSUMPTIONS = ["every unchanged path is one of the previous paths; no path of the two sets is below another one, nor an excluded path equal to, above or below an unchanged path",
               "two trees without empty directories are equal exactly when they have the same paths",
               "the trees are finite: termination of the recursion is not proved"]
BOUNDED = ["paths_to_tree: building nested dictionaries from paths is only tested (through reduce_common_paths, generated sets of up to 14 paths)"]
