"""solution manifests with required and optional projects and any languages, right and wrong headers; the file on disk (downloaded through a recording storage), then every kind of language selection"""
from lib import *
import os
from cdtb.rads import RadsStorage, RadsSolution, RadsSolutionVersion, RadsVersion, RadsProjectVersion
from cdtb.data import Language

NAMES = ["lol_game_client", "league_client", "lol_game_client_en_us", "lol_game_client_fr_fr", "league_client_fr_fr", "a", "b_ko_kr", "c"]
LANGS = [l.value for l in Language]

def version(rng): return ".".join(str(rng.choice([0, 0, 1, 2, 10, 30, 255])) for _ in range(4))

def generate(rng, hints):
    names = rng.sample(NAMES, rng.randrange(0, len(NAMES) + 1))
    projects = [(n, version(rng), rng.choice([0, 0, 10])) for n in names]
    langs = [(l, rng.sample(names, rng.randrange(0, len(names) + 1))) for l in rng.sample(LANGS[:8], rng.randrange(0, 5))]
    damage = rng.choice([None] * 8 + ["magic", "format", "name", "version", "magic-suffix", "name-suffix", "version-suffix"])
    return (rng.choice(["lol_game_client_sln", "league_client_sln"]), version(rng), projects, langs, damage, rng.randrange(1 << 8))

def fixed():
    for d in ("magic", "format", "name", "version", "magic-suffix", "name-suffix", "version-suffix"):
        yield ("league_client_sln", "0.0.0.7", [("a", "0.0.0.1", 0)], [("fr_fr", ["a"])], d, 3)

def smaller(case):
    s, v, ps, ls, d, k = case
    for l in drop_one(ls): yield (s, v, ps, l, d, k)
    for i, (l, deps) in enumerate(ls):
        for x in drop_one(deps): yield (s, v, ps, ls[:i] + [(l, x)] + ls[i + 1:], d, k)
    used = {n for _, deps in ls for n in deps}
    for i, p in enumerate(ps):
        if p[0] not in used: yield (s, v, ps[:i] + ps[i + 1:], ls, d, k)

def check(case, tmp):
    sname, sver, projects, langs, damage, pick = case
    head = ["RADS Solution Manifest", "1.0.0.0", sname, sver]
    if damage == "magic": head[0] = "RADS Release Manifest"
    if damage == "format": head[1] = "1.0.0.1"
    if damage == "name": head[2] = "other_sln"
    if damage == "version": head[3] = "0.0.0.8" if sver != "0.0.0.8" else "0.0.0.9"
    if damage == "magic-suffix": head[0] += " 2"
    if damage == "name-suffix": head[2] = sname[:-1]
    if damage == "version-suffix": head[3] = sver + "1"
    lines = head + [str(len(projects))]
    for n, v, unk in projects: lines += [n, v, str(unk), "0"]
    lines.append(str(len(langs)))
    for l, deps in langs: lines += [l, "0", str(len(deps))] + deps
    text = "\r\n".join(lines) + "\r\n"
    path = f"solutions/{sname}/releases/{sver}/solutionmanifest"
    asked = []
    class St(RadsStorage):
        def __init__(self): self.path, self.url, self.s = tmp, "http://none/", None
        def download(self, urlpath, p, force=False):
            asked.append((urlpath, p if p is not None else urlpath))
            fp = os.path.join(tmp, p or urlpath)
            os.makedirs(os.path.dirname(fp), exist_ok=True)
            with open(fp, "w", newline="") as f: f.write(text)
    st = St()
    sv = RadsSolutionVersion(RadsSolution(st, sname), RadsVersion(sver))
    r = outcome(sv.dependencies)
    if damage:
        need(r[0] == "exc", f"a manifest with a wrong {damage} is accepted")
        return
    need(r[0] == "ok", f"a valid manifest is refused: {r[1:]}")
    same(asked, [(path, path)], "downloads")
    ver = {n: v for n, v, _ in projects}
    def plain(pvs):
        for pv in pvs:
            need(type(pv) is RadsProjectVersion and pv.project.storage is st, "a project version of the storage is expected")
            same(pv.path, f"projects/{pv.project.name}/releases/{pv.version}", "path of the project version")
        return [(pv.project.name, str(pv.version)) for pv in pvs]
    want = {Language(l): [(n, ver[n]) for n in deps] for l, deps in langs}
    want[None] = [(n, v) for n, v, unk in projects if unk == 0]
    same({k: plain(v) for k, v in r[1].items()}, want, "dependencies")
    def sel(arg, names, what):
        got = plain(list(sv.projects(arg)))
        need(len(got) == len(set(got)), f"projects({what}) lists a project twice: {got}")
        same(sorted(got), sorted(set(names)), f"projects({what})")
    sel(False, want[None], "False")
    allp = [p for ps in want.values() for p in ps]
    sel(True, allp, "True")
    same(sorted(plain(list(sv.projects()))), sorted(set(allp)), "projects()")
    for l in want:
        if l is not None: sel(l, want[l], repr(l))
    chosen = [l for i, (l, _) in enumerate(langs) if pick >> i & 1]
    union = [p for l in chosen for p in want[Language(l)]]
    sel(chosen, union, repr(chosen))
    sel([Language(l) for l in chosen], union, "languages " + repr(chosen))
    sel([l if i % 2 else Language(l) for i, l in enumerate(chosen)], union, "mixed " + repr(chosen))
