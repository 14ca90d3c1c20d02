"""trees of previous paths with any part of them unchanged, and paths to export again that are new, changed or in new directories"""
from lib import *
from cdtb.export import reduce_common_paths

def paths(rng, n, depth=4):
    out = set()
    for _ in range(n):
        out.add("/".join(rng.choice("abcd") + rng.choice(["", "", "1"]) for _ in range(rng.randrange(1, depth))))
    return out

def consistent(ps):
    return {p for p in ps if not any(q.startswith(p + "/") for q in ps)}

def generate(rng, hints):
    prev = consistent(paths(rng, rng.choice([0, 1, 2, 4, 8, 14])))
    p = rng.choice([0, .3, .7, .9, 1])
    unch = {x for x in prev if rng.random() < p}
    if rng.random() < .5:
        tops = sorted({"/".join(x.split("/")[:k]) for x in prev for k in (1, 2)})
        if tops:
            t = rng.choice(tops)
            unch |= {x for x in prev if x == t or x.startswith(t + "/")}
    exc = {x for x in prev - unch if rng.random() < .7} | paths(rng, rng.choice([0, 0, 1, 3]))
    exc = {x for x in exc if x not in unch and not any(u.startswith(x + "/") or x.startswith(u + "/") for u in unch)}
    exc = consistent(exc)
    o = lambda s: rng.sample(sorted(s), len(s))
    return (o(unch), o(prev), o(exc))

def smaller(case):
    u, p, e = case
    for x in drop_one(e): yield (u, p, x)
    for x in drop_one(u): yield (x, p, e)
    for x in p:
        if x not in u: yield (u, [y for y in p if y != x], e)
    for x in u: yield ([y for y in u if y != x], [y for y in p if y != x], e)

def under(p, d): return p == d or p.startswith(d + "/")

def check(case, tmp):
    u, p, e = case
    r = list(reduce_common_paths(list(u), list(p), list(e)))
    need(len(r) == len(set(r)), f"a reduced path is returned twice: {r}")
    for x in u: need(sum(under(x, d) for d in r) == 1, f"unchanged path {x} is covered by {[d for d in r if under(x, d)]}")
    for d in r:
        need(any(under(x, d) for x in u), f"reduced path {d} covers no unchanged path")
        for x in p: need(not under(x, d) or x in u, f"previous path {x} below {d} is not an unchanged one")
        for x in e: need(not under(x, d), f"path {x} to export again is below {d}")
        if "/" in d:
            parent = d.rsplit("/", 1)[0]
            need(any(under(x, parent) and x not in u for x in p) or any(under(x, parent) for x in e), f"{d} could be replaced by its parent directory")
