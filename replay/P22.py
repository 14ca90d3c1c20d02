"""component texts (known and unknown names, versions with and without final dot, main, malformed ones) resolved on storages with several patches and sub-patches; storage paths that are directories (with configuration file, recognised, unknown), configuration files, explicit types or new paths"""
from lib import *
import os, json
import cdtb.storage as S
from cdtb.storage import Storage, PatchVersion, PatchElement, parse_storage_component

NAMES = ["game", "client"]
VERSIONS = ["main", "10.10", "10.9", "10.2", "9.24", "9.1", "7.24"]

def generate(rng, hints):
    if rng.random() < .5:
        vs = [v for v in VERSIONS if rng.random() < .6]
        els = []
        for v in vs:
            for _ in range(rng.choice([1, 1, 2, 2, 3])): els.append((rng.choice(NAMES), v))
        name = rng.choice(["patch", "patch", "game", "client", "game", "patches", "", "Game"])
        ver = rng.choice([rng.choice(VERSIONS)] * 4 + ["", "", "main", "10.", "10.2", "x", "7.24.1", "10 .2", "a10.2", "10.2a", " 10.2", "main."])
        comp = name + rng.choice(["="] * 12 + ["", "==", " ="]) + ver + rng.choice([""] * 5 + ["."] * 4 + ["\n", " ", "..", "=", "\n\n"])
        return ("comp", els, comp)
    conf = {}
    if rng.random() < .8: conf["type"] = rng.choice(["rads", "patcher", "zip", "Rads"])
    if rng.random() < .6: conf["path"] = rng.choice(["sub", "../x", ".", "/abs/p", "a//b"])
    if rng.random() < .4: conf["patchline"] = rng.choice(["pbe", "live"])
    return ("conf", rng.choice(["dir-conf", "dir-channels", "dir-both", "dir", "file", "typed", "new", "typed2"]), conf, rng.choice(["rads", "patcher", "zip", ""]), rng.choice(["x", "a/b", "a:b", ""]), rng.choice(["rel", "abs"]))

def smaller(case):
    if case[0] == "comp":
        for c in drop_one(case[1]): yield ("comp", c, case[2])

class El(PatchElement):
    def __init__(self, i, name, v):
        super().__init__(name, PatchVersion(v)); self.i = i

def check(case, tmp):
    if case[0] == "comp": return check_comp(case)
    _, how, conf, typ, rest, kind = case
    os.chdir(tmp)
    base = "d" if kind == "rel" else os.path.join(tmp, "d")
    want = None
    os.makedirs("d")
    if how in ("dir-conf", "dir-both"):
        with open("d/cdtb.storage.conf", "w") as f: json.dump(conf, f)
    if how in ("dir-channels", "dir-both"): os.mkdir("d/channels")
    src = base
    if how == "file":
        src = os.path.join(base, "any.json")
        with open(src, "w") as f: json.dump(conf, f)
    if how in ("dir-conf", "dir-both", "file"):
        if "type" in conf:
            want = dict(conf); want["path"] = os.path.normpath(os.path.join(base, conf.get("path", ".")))
    elif how == "dir-channels": want = {"type": "patcher", "path": base}
    elif how == "dir": pass
    elif how in ("typed", "typed2"): src = typ + ":" + rest; want = {"type": typ, "path": rest}
    else: src = base + "/none"; want = {"type": "patcher", "path": src}
    got = outcome(S.storage_conf_from_path, src)
    if want is None:
        need(got[0] == "exc" and isinstance(got[2], ValueError), f"{how} {conf}: got {short(got)}, expected a ValueError")
        return
    same(got, ("ok", want), f"configuration of {how}")
    o = outcome(Storage.from_path, src)
    if want["type"] not in ("rads", "patcher"):
        need(o[0] == "exc" and isinstance(o[2], ValueError), f"unknown type {want['type']!r}: got {short(o)}, expected a ValueError")
        return
    need(o[0] == "ok", f"storage of {want}: {short(o)}")
    same((o[1].storage_type, o[1].path), (want["type"], want["path"]), "storage")
    if want["type"] == "patcher": same(o[1].patchline, want.get("patchline", "live"), "patchline")

def check_comp(case):
    _, els, comp = case
    st = Storage("/nonexistent", "http://localhost/")
    all_ = [El(i, n, v) for i, (n, v) in enumerate(els)]
    asked = []
    def elements(stored=False):
        asked.append(stored)
        return iter(all_)
    st.patch_elements = elements
    import re
    m = re.compile(r"(patch|game|client)=(|main|[0-9.]+)").fullmatch(comp)
    got = outcome(parse_storage_component, st, comp)
    if not m:
        need(got[0] == "exc" and isinstance(got[2], ValueError), f"component {comp!r}: got {short(got)}, expected a ValueError")
        return
    name, ver = m.group(1), m.group(2)
    if ver not in ("", "main"):
        core = ver[:-1] if ver.endswith(".") else ver
        if not re.compile(r"[0-9]+(\.[0-9]+)+").fullmatch(core): return
    need(got[0] == "ok", f"component {comp!r}: {short(got)}")
    r = got[1]
    latest = ver == "" or ver.endswith(".")
    v = ver.rstrip(".")
    if v == "": need(asked and not any(asked), f"component {comp!r}: the latest one is only looked up among the stored ones")
    if name == "patch":
        runs = []
        for e in all_:
            if runs and runs[-1][0].version == e.version: runs[-1].append(e)
            else: runs.append([e])
        run = next((x for x in runs if v == "" or str(x[0].version) == v), None)
        if run is None: return same(r, None, f"component {comp!r}")
        firsts = {}
        for e in run: firsts.setdefault(e.name, e)
        need(r is not None, f"component {comp!r}: no patch found")
        same(str(r.version), str(run[0].version), f"version of {comp!r}")
        same(sorted(e.i for e in r.elements), sorted(e.i for e in firsts.values()), f"elements of {comp!r}")
    else:
        e = next((x for x in all_ if x.name == name and (v == "" or str(x.version) == v)), None)
        if e is None: return same(r, None, f"component {comp!r}")
        need(r is e, f"component {comp!r}: got {r!r}, expected {e!r}")
