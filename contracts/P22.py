"""P22: component texts and storage paths."""
from pyvc.contract import *

NAMES = ["patch", "game", "client"]
DIGITS = z3.Plus(z3.Range("0", "9"))
VERSION = z3.Concat(DIGITS, z3.Star(z3.Concat(z3.Re("."), DIGITS)))
ABOUT = z3.Star(z3.Union(z3.Range("0", "9"), z3.Re(".")))


def setup(E):
    E.exact_re = True


def run_component(E, form):
    c = E.const("component", StrS)
    eqs = [z3.Concat(S(n + "="), E.const("version", StrS)) for n in NAMES]
    v = E.const("v", StrS)
    which = None
    if form != "other":
        which = NAMES[E.choose("name", [(n, None) for n in NAMES])]
        pre = S(which + "=")
        if form == "nothing": E.fact(c == pre)
        elif form == "main": E.fact(c == S(which + "=main"))
        else:
            E.fact(And(z3.InRe(v, VERSION), v != S(""), Not(z3.SuffixOf(S("."), v))))
            if form == "version": E.fact(c == z3.Concat(pre, v))
            else: E.fact(And(c == z3.Concat(pre, v, S(".")), z3.Contains(v, S("."))))
    else:
        E.fact(Not(z3.InRe(c, z3.Concat(z3.Union(*[z3.Re(n) for n in NAMES]), z3.Re("="), z3.Union(ABOUT, z3.Re("main"))))))
    st = obj(E, "storage.Storage")
    patch, latest, elem = obj(E, "storage.Patch"), obj(E, "storage.Patch"), obj(E, "storage.PatchElement")
    log = []
    def norm(args, kw, names, defaults):
        d = dict(zip(names, defaults)); d.update(zip(names, args)); d.update(kw)
        return [E.resolve(d[n]) for n in names]
    def stub_patch(E_, args, kw):
        log.append(("patch", norm(args[1:], kw, ["version", "stored"], [None, False])))
        return None if E.choose("patch found", [("no", None), ("yes", None)]) == 0 else patch
    def stub_elem(E_, args, kw):
        log.append(("element", norm(args[1:], kw, ["name", "version", "stored"], [None, None, False])))
        return None if E.choose("element found", [("no", None), ("yes", None)]) == 0 else elem
    def stub_latest(E_, args, kw):
        E.prove(B(args[0] is patch), "the latest elements of the patch found are taken")
        log.append(("latest", []))
        return latest
    E.contracts["storage.Storage.patch"], E.contracts["storage.Storage.patch_element"], E.contracts["storage.Patch.latest"] = stub_patch, stub_elem, stub_latest
    s, r = call(E, func(E, "storage.parse_storage_component"), st, c)
    if form == "other":
        E.prove(B(s == "exc" and is_exc(E, r, "ValueError") and not log), "other texts are refused with ValueError")
        E.cover("refused")
        return
    E.prove(B(s == "ok"), "a component is accepted")
    if s != "ok": return
    want = None if form == "nothing" else S("main") if form == "main" else v
    same = lambda x: same_value(E, x, want)
    first = [l for l in log if l[0] != "latest"]
    E.prove(B(len(first) == 1 and first[0][0] == ("patch" if which == "patch" else "element")), "the component is looked up once")
    if len(first) != 1: return
    a = first[0][1]
    if which == "patch":
        E.prove(same(a[0]), "the patch with the given version is looked up")
        if form == "nothing": E.prove(Not(B(E.truth(a[1]))), "the latest patch is not looked up among the stored ones only")
        got = [l for l in log if l[0] == "latest"]
        if r is None: E.cover("nothing found"); E.prove(B(not got), "no patch, no elements")
        else:
            isl = form in ("nothing", "dot")
            E.prove(B(E.resolve(r) is (latest if isl else patch)), "latest elements exactly for no version and versions with a final dot")
            E.cover("patch found")
    else:
        E.prove(And(eq(E, a[0], which), same(a[1])), "the element with the given name and version is looked up")
        if form == "nothing": E.prove(Not(B(E.truth(a[2]))), "the latest element is not looked up among the stored ones only")
        E.prove(B(r is None or E.resolve(r) is elem), "the element found is returned")
        if r is not None: E.cover("element found")


# ---- storage configurations

class ConfFS:
    """a file system that does not change, and configuration files of text entries"""
    faults = False
    def __init__(self, E):
        self.E, self.read = E, []
        self.dom, self.vals = E.const("entries", z3.ArraySort(StrS, BoolS)), E.const("values", z3.ArraySort(StrS, StrS))
    def open(self, E, p, mode, kw):
        E.prove(Or(B(mode == "r")), "configuration files are read")
        self.read.append(S(p))
        return self
    def pred(self, E, name, p): return fcall("fs_" + name, S(p), ret=BoolS)
    def enter_(self, E): return self
    def exit_(self, E, exc): return False


def run_conf(E):
    path = E.const("path", StrS)
    E.fs = F = ConfFS(E)
    loaded = []
    def load(E, a, k):
        f = E.resolve(a[0])
        E.prove(B(isinstance(f, FileV)), "the opened file is parsed")
        loaded.append(F.read[-1])
        return DictCell(E, SMap(STR, STR, F.dom, [F.vals]))
    E.externals["json.load"] = load
    F.open = lambda E_, p, mode, kw: (E.prove(B(mode == "r"), "configuration files are read"), F.read.append(S(p)), FileV(E, symbytes(E, "text")))[2]
    isdir, isfile = (lambda p, n=n: fcall("fs_" + n, S(p), ret=BoolS) for n in ("isdir", "isfile"))
    # a path is not both a directory and a file
    E.fact(Not(And(isdir(path), isfile(path))))
    st, conf = call(E, func(E, "storage.storage_conf_from_path"), path)
    join = lambda a, b: fcall("path_join", S(a), S(b), ret=StrS)
    inner = join(path, "cdtb.storage.conf")
    known = And(isdir(path), Not(isfile(inner)), isdir(join(path, "channels")))
    fromfile = Or(And(isdir(path), isfile(inner)), isfile(path))
    file = z3.If(isdir(path), inner, path)
    typed = And(Not(isdir(path)), Not(isfile(path)), z3.Contains(path, S(":")))
    E.prove(B(len(F.read) <= 1), "one file is read")
    E.prove(fromfile == B(bool(F.read)), "a file is read exactly when the path is one or a directory with a configuration file")
    if F.read: E.prove(F.read[0] == file, "the file read is the path or the configuration file of the directory")
    unknown = And(isdir(path), Not(isfile(inner)), Not(isdir(join(path, "channels"))))
    notype = And(fromfile, Not(F.dom[S("type")]))
    if st == "exc":
        E.prove(And(B(is_exc(E, conf, "ValueError")), Or(unknown, notype)), "only unknown directories and configuration files without type are refused")
        E.cover("refused")
        return
    E.prove(Not(Or(unknown, notype)), "unknown directories and configuration files without type are refused")
    E.prove(B(isinstance(conf, DictCell)), "a configuration is returned")
    if not isinstance(conf, DictCell): return
    def entry(k):
        f, v = M.dict_find(E, conf, k)
        return v if f else None
    for k in ("type", "path"): E.prove(Not(is_none(E, entry(k))), f"a configuration has a {k}")
    t, p = entry("type"), entry("path")
    if t is None or p is None: return
    E.prove(Implies(known, And(eq(E, t, "patcher"), eq(E, p, path))), "a directory with channels is a patcher storage")
    i = z3.IndexOf(path, S(":"), 0)
    x, y = E.const("kind", StrS), E.const("rest", StrS)
    E.prove(Implies(And(typed, path == z3.Concat(x, S(":"), y), Not(z3.Contains(x, S(":")))), And(S(t) == x, S(p) == y)), "an explicit type is taken, with the rest as path")
    E.prove(Implies(And(Not(isdir(path)), Not(isfile(path)), Not(z3.Contains(path, S(":")))), And(eq(E, t, "patcher"), eq(E, p, path))), "other paths are patcher storages")
    if F.read:
        rel = z3.If(F.dom[S("path")], F.vals[S("path")], S("."))
        E.prove(S(t) == F.vals[S("type")], "the type is the one of the file")
        E.prove(S(p) == fcall("path_normpath", join(fcall("path_dirname", file, ret=StrS), rel), ret=StrS), "the path is the one of the file, relative to its directory")
        k = E.const("k", StrS)
        m = conf.v
        E.prove(Implies(And(k != S("type"), k != S("path")), And(m.dom[k] == F.dom[k], Implies(F.dom[k], m.vals[0][k] == F.vals[k]))) if isinstance(m, SMap) else B(False), "other entries are those of the file")
        E.cover("from a file")
    else: E.cover("guessed")


def run_from_conf(E):
    t, p = E.const("type", StrS), E.const("path", StrS)
    mods = {"rads": E.cls("rads.RadsStorage"), "patcher": E.cls("patcher.PatcherStorage")}
    for k, c in mods.items(): E.prove(eq(E, E.getattr(c, "storage_type"), k), "each storage class is registered under its own type")
    E.global_overrides["storage._storage_registry"] = lambda E: DictCell(E, CMap([(E.getattr(c, "storage_type"), c) for c in mods.values()]))
    conf = DictCell(E, CMap([("type", t), ("path", p)]))
    made = []
    for k in mods:
        E.contracts[f"{k}.{mods[k].name}.from_conf_data"] = lambda E_, args, kw, k=k: (made.append((k, E.resolve(args[-1]))), obj(E, mods[k]))[1]
    how = E.choose("how", [("from_conf", None), ("from_path", None)])
    if how == 0: st, r = call(E, func(E, "storage.Storage.from_conf"), conf)
    else:
        src = E.const("source", StrS)
        def sc(E_, args, kw):
            E.prove(eq(E, args[0], src), "the configuration of the given path is used")
            return conf
        E.contracts["storage.storage_conf_from_path"] = sc
        st, r = call(E, func(E, "storage.Storage.from_path"), src)
    if st == "exc":
        E.prove(And(B(is_exc(E, r, "ValueError")), *[t != S(k) for k in mods]), "only unknown types are refused, with ValueError")
        E.cover("unknown type")
        return
    E.prove(B(len(made) == 1 and made[0][1] is conf), "the storage is made from the configuration")
    if made: E.prove(t == S(made[0][0]), "the storage class is the one of the type")
    E.cover("made")


GOALS = [Goal(f"component: {f}", lambda E, f=f: run_component(E, f), setup, covers=["refused"] if f == "other" else ["nothing found", "patch found", "element found"])
         for f in ("nothing", "version", "dot", "main", "other")]
GOALS.append(Goal("configuration of a path", run_conf, setup, covers=["refused", "from a file", "guessed"]))
GOALS.append(Goal("storage of a configuration", run_from_conf, setup, covers=["unknown type", "made"]))
ASSUMPTIONS = ["configuration files hold text values", "files do not change while a path is resolved", "regular expressions mean what their z3 translation means", "the metaclass registers the storage classes under their type"]
