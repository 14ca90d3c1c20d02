"""storages generating any list of elements, versions falling or not (runs of equal versions, also interrupted ones), names repeated; patches, lookups with and without version; RADS storages whose client and game solutions list versions from the highest (several solution versions per patch, some without patch version)"""
from lib import *
import itertools
from cdtb.storage import Storage, PatchElement, PatchVersion, Patch
from cdtb.rads import RadsStorage, RadsSolution, RadsSolutionVersion, RadsVersion, RadsPatchElement

VERS = ["main", "1.1", "1.2", "1.10", "9.24", "9.100", "10.0", "10.1", "10.2", "14.3"]

def vkey(v): return tuple(map(int, v.split(".")))

def generate(rng, hints):
    if rng.random() < .5:
        pool = rng.sample(VERS, rng.randrange(1, 5))
        if rng.random() < .6: pool = sorted((v for v in pool if v != "main"), key=vkey, reverse=True) or ["main"]
        es = []
        for v in pool: es += [(rng.choice(["game", "client"]), v) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
        if rng.random() < .2: rng.shuffle(es)
        return ("elements", es, rng.choice(VERS), rng.choice([False, True]))
    sols = []
    for _ in range(2):
        n = rng.choice([0, 1, 2, 3, 5])
        vs = sorted((rng.choice(VERS[1:]) for _ in range(n)), key=vkey, reverse=True)
        vs = [None if rng.random() < .2 else v for v in vs]
        sols.append(vs)
    return ("rads", sols, rng.choice(VERS), rng.choice([False, True]))

def smaller(case):
    if case[0] == "elements":
        for c in drop_one(case[1]): yield (case[0], c) + case[2:]
    else:
        for i in range(2):
            for c in drop_one(case[1][i]): yield (case[0], [c if j == i else x for j, x in enumerate(case[1])]) + case[2:]

def check(case, tmp):
    kind, data, version, stored = case
    asked = []
    if kind == "elements":
        es = [PatchElement(n, PatchVersion(v)) for n, v in data]
        class St(Storage):
            def __init__(self): pass
            def patch_elements(self, stored=False):
                asked.append(stored)
                yield from es
        st = St()
    else:
        counter = itertools.count()
        class St(RadsStorage):
            def __init__(self): self.path, self.url, self.s = tmp, "http://none/", None
        st = St()
        svs = {}
        class SV(RadsSolutionVersion):
            def patch_version(self):
                v = self.pv
                return None if v is None else PatchVersion(v)
        for name, vs in zip(("league_client_sln", "lol_game_client_sln"), data):
            l = []
            for i, v in enumerate(vs):
                sv = SV(RadsSolution(st, name), RadsVersion((0, 0, 0, 200 - i)))
                sv.pv = v
                l.append(sv)
            svs[name] = l
        def versions(self, stored=False):
            asked.append(stored)
            return list(svs[self.name])
        import cdtb.rads as rads
        rads.RadsSolution.versions, orig = versions, rads.RadsSolution.versions
        try: return check_rads(case, st, svs, asked)
        finally: rads.RadsSolution.versions = orig
    check_patches(st, es, version, stored, asked)

def check_rads(case, st, svs, asked):
    kind, data, version, stored = case
    es = list(st.patch_elements(stored=stored))
    need(all(s is stored for s in asked), "'stored' is passed on")
    want = [sv for l in svs.values() for sv in l if sv.pv is not None]
    got = [e.solution_version for e in es]
    need(len(got) == len(want) and all(any(g is w for g in got) for w in want), f"every solution version with a patch gives exactly one element: {es}")
    for e in es:
        need(type(e) is RadsPatchElement, "a RADS patch element")
        same((e.name, str(e.version)), ({"league_client_sln": "client", "lol_game_client_sln": "game"}[e.solution_version.solution.name], e.solution_version.pv), "element")
    for a, b in zip(es, es[1:]): need(vkey(str(a.version)) >= vkey(str(b.version)), f"an element is followed by one with a higher version: {es}")
    for l in svs.values():
        order = [g for g in got if any(g is x for x in l)]
        need(all(a is b for a, b in zip(order, [x for x in l if x.pv is not None])), "elements of a solution keep their order")
    asked.clear()
    check_patches(st, es, version, stored, asked, same_elements=lambda a, b: a.solution_version is b.solution_version)

def check_patches(st, es, version, stored, asked, same_elements=lambda a, b: a is b):
    runs = []
    for e in es:
        if runs and str(runs[-1][0]) == str(e.version): runs[-1][1].append(e)
        else: runs.append((e.version, [e]))
    firsts = []
    for v, run in runs:
        f = {}
        for e in run: f.setdefault(e.name, e)
        firsts.append((v, f))
    def is_patch(p, i, what):
        v, f = firsts[i]
        need(type(p) is Patch, f"{what}: {p!r} is not a patch")
        same(str(p.version), str(v), f"{what}: version")
        same(sorted(e.name for e in p.elements), sorted(f), f"{what}: element names")
        for e in p.elements: need(same_elements(e, f[e.name]), f"{what}: element {e!r} is not the first of its name in the run")
    ps = list(st.patches(stored=stored))
    need(asked and all(s is stored for s in asked), "'stored' is passed on")
    same([str(p.version) for p in ps], [str(v) for v, _ in runs], "versions of the patches")
    for i, p in enumerate(ps): is_patch(p, i, f"patch {i}")
    def lookup(arg, want, what):
        p = st.patch(arg, stored=stored) if stored else st.patch(arg)
        if want is None: need(p is None, f"{what}: got {p!r}, expected None")
        else:
            need(p is not None, f"{what}: got None")
            is_patch(p, want, what)
    lookup(None, 0 if runs else None, "latest patch")
    if runs: is_patch(st.patch(stored=stored), 0, "latest patch")
    for v in {version} | {str(v) for v, _ in runs}:
        w = next((i for i, (x, _) in enumerate(runs) if str(x) == v), None)
        lookup(v, w, f"patch({v!r})")
        lookup(PatchVersion(v), w, f"patch({v})")
        for name in ("game", "client"):
            for arg in (v, PatchVersion(v)):
                e = st.patch_element(name, arg, stored=stored)
                w = next((x for x in es if x.name == name and str(x.version) == v), None)
                need(e is None if w is None else e is not None and same_elements(e, w), f"patch_element({name}, {v}): got {e!r}, expected {w!r}")
    for name in ("game", "client"):
        e = st.patch_element(name, stored=stored)
        w = next((x for x in es if x.name == name), None)
        need(e is None if w is None else e is not None and same_elements(e, w), f"patch_element({name}): got {e!r}, expected {w!r}")
    need(all(s is stored for s in asked), "'stored' is passed on")
