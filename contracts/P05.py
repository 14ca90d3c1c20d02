"""P05: guarded writers with an arbitrary exception injected at any point (before and after every operation, in the block), and Storage.download."""
from pyvc.contract import *
from pyvc.fs import FS, run_with


def enter(E, faults=True):
    E.fs = FS(E, faults=faults)
    E.frames.append(E.new_frame(E.module("tools"), None, "caller", set()))
    p = E.const("path", StrS)
    before = dict(E.fs.slots)
    return p, before


def unchanged_elsewhere(E, p, before, what):
    q = E.const("other", StrS)
    E.fact(q != p)
    for s in ("kind", "data", "text", "link"):
        E.prove(z3.Select(E.fs.slots[s], q) == z3.Select(before[s], q), f"{what}: no other path is touched ({s})")


def setup_writes(E):
    def invariant(ctx):
        for s in ("data", "text"):
            key = (E.fs.uid, s)
            if key in ctx.info.mods:
                ctx.cand(f"{s} is what was written", lambda k, r, key=key, s=s: z3.Select(r(key)[0], E.path) == ghost(E, r, s))
                def frame(k, r, key=key, e=ctx.entry[key]):
                    q = z3.String("q!")
                    return forall([q], Or(q == E.path, z3.Select(r(key)[0], q) == z3.Select(e, q)), [z3.Select(r(key)[0], q)])
                ctx.cand(f"{s} frame", frame)
        key = (E.fs.uid, "kind")
        if key in ctx.info.mods:
            ctx.cand("file exists", lambda k, r: z3.Select(r(key)[0], E.path) == 1)
    E.invariants.append(invariant)


def ghost(E, read, s):
    try:
        return read((E.G.uid, s))[0]
    except KeyError:
        return E.G.slots[s]


def writer_goal(binary):
    def run(E):
        p, before = enter(E)
        E.path = p
        E.G = Cell(E, "ghost", data=bempty, text=z3.StringVal(""))
        n = E.const("writes", IntS)
        E.fact(n >= 0)
        raised = []
        def body(f):
            def one(i):
                if binary:
                    b = symbytes(E, "block")
                    E.call(E.getattr(f, "write"), [b])
                    E.G.set("data", bcat(E.G.slots["data"], E.bseq(b)))
                else:
                    t = E.const("line", StrS)
                    E.call(E.getattr(f, "write"), [t])
                    E.G.set("text", z3.Concat(E.G.slots["text"], t))
            E.symbolic_loop(None, n, lambda k: k, None, body=one)
            if E.choose("block raises", [("no", None), ("yes", None)]) == 1:
                e = SymExc("raised by the block")
                raised.append(e)
                raise PyRaise(e)
        fn = func(E, "tools.write_file_or_remove")
        E.byte_axioms() if binary else None
        depth = len(E.frames)
        try:
            run_with(E, E.call(fn, [p], {} if binary else {"binary": False}), body)
        except PyRaise as e:
            del E.frames[depth:]
            if raised: E.prove(B(e.exc is raised[0] or getattr(e.exc, "name", "") == "fault in close"), "the exception of the block reaches the caller")
            E.prove(B(isinstance(e.exc, SymExc) or e.exc.cls.name in ("IsADirectoryError", "FileExistsError")), "no other exception is raised instead")
            E.prove(E.fs.at("kind", p) == 0, "after a failure the file does not exist")
            unchanged_elsewhere(E, p, before, "failure")
            E.cover("failed in the block" if raised else "failed outside of the block")
            return
        E.prove(B(not raised), "an exception of the block is not swallowed")
        E.prove(E.fs.at("kind", p) == 1, "after success the file exists")
        s = "data" if binary else "text"
        E.prove(E.fs.at(s, p) == E.G.slots[s], "after success the file holds exactly what was written")
        unchanged_elsewhere(E, p, before, "success")
        E.cover("success")
    return run


def run_dir(E):
    p, before = enter(E)
    raised = []
    def body(_):
        E.prove(E.fs.at("dirs", p), "the directory exists in the block")
        for s in E.fs.slots:      # the block writes whatever it wants below the directory
            q = z3.String("q!")
            new = E.const("fs_" + s, E.fs.slots[s].sort())
            E.fact(forall([q], Or(q == p, fcall("path_below", q, p, ret=BoolS), z3.Select(new, q) == z3.Select(E.fs.slots[s], q)), [z3.Select(new, q)]))
            E.fact(z3.Select(new, p) == z3.Select(E.fs.slots[s], p))
            E.fs.set(s, new)
        raised.append(None)
        if E.choose("block raises", [("no", None), ("yes", None)]) == 1:
            raised[0] = SymExc("raised by the block")
            raise PyRaise(raised[0])
        raised.append(dict(E.fs.slots))
    depth = len(E.frames)
    E.fact(E.fs.at("kind", p) == 0)
    try:
        run_with(E, E.call(func(E, "tools.write_dir_or_remove"), [p], {}), body)
    except PyRaise as e:
        del E.frames[depth:]
        if raised: E.prove(B(e.exc is raised[0]), "the exception of the block reaches the caller")
        else: E.prove(B(isinstance(e.exc, SymExc)), "the original exception reaches the caller")
        E.prove(Not(E.fs.at("dirs", p)), "after a failure the directory does not exist")
        q = E.const("below", StrS)
        E.fact(fcall("path_below", q, p, ret=BoolS))
        if raised: E.prove(And(E.fs.at("kind", q) == 0, Not(E.fs.at("dirs", q))), "after a failure nothing is left below the directory")
        elsewhere_dir(E, p, before, "failure")
        E.cover("failed")
        return
    E.prove(B(len(raised) == 2), "an exception of the block is not swallowed")
    for s in ("kind", "data", "text", "link", "dirs"):
        E.prove(E.fs.slots[s] == raised[1][s], f"after success nothing more changes ({s})")
    elsewhere_dir(E, p, before, "success")
    E.cover("success")


def elsewhere_dir(E, p, before, what):
    q = E.const("other", StrS)
    E.fact(And(q != p, Not(fcall("path_below", q, p, ret=BoolS))))
    for s in ("kind", "data", "text", "link"):
        E.prove(z3.Select(E.fs.slots[s], q) == z3.Select(before[s], q), f"{what}: nothing outside of the directory is touched ({s})")


def run_download(E):
    """Storage.download: an HTTP session that fails in any way, or answers with any status and body"""
    p, before = enter(E, faults=True)
    calls = []
    body = symbytes(E, "body")
    http = SymExc("HTTP failure", base="Exception")
    class Response:
        def attr(self, E, name):
            if name == "raise_for_status":
                def rfs():
                    calls.append("status")
                    if E.choose("status", [("ok", None), ("error", None)]) == 1:
                        calls.append("bad status")
                        raise PyRaise(http)
                return bi(name, rfs)
            if name == "content":
                calls.append("content")
                return body
            raise Unsupported("response." + name)
    class Session:
        def attr(self, E, name):
            if name in ("get", "head"):
                def get(*a, **k):
                    calls.append("get")
                    if E.choose("request", [("ok", None), ("error", None)]) == 1:
                        calls.append("request failed")
                        raise PyRaise(http)
                    return Response()
                return bi(name, get)
            raise Unsupported("session." + name)
    root = E.const("root", StrS)
    st = obj(E, "storage.Storage", path=root, url=E.const("url", StrS), s=Session())
    url = E.const("urlpath", StrS)
    named = E.choose("path", [("None", None), ("given", None)])
    path = E.const("relpath", StrS) if named else None
    target = E.resolve(E.call(E.getattr(st, "fspath"), [path if named else url], {}))
    E.prove(S(target) == fcall("path_join", root, path if named else url, ret=StrS), "the target is the path under the storage root")
    kw = {}
    force = E.choose("force", [("default", None), ("False", None), ("True", None)])
    if force: kw["force"] = force == 2
    isfile = E.fs.pred(E, "isfile", target)
    present = And(B(force != 2), isfile)
    st_, v = call(E, E.getattr(st, "download"), url, path, **kw)
    def untouched(what):
        for s in ("kind", "data", "text", "link"):
            E.prove(E.fs.slots[s] == before[s], f"{what}: nothing is changed on disk ({s})")
    E.prove(Implies(present, B("get" not in calls and st_ == "ok")), "a file already present is not requested unless forced")
    if "get" not in calls:
        E.prove(present, "a missing or forced file is requested")
        untouched("no download")
        E.cover("already present")
        return
    if "bad status" in calls or "request failed" in calls:
        E.prove(B(st_ == "exc" and v is http), "a failed request reaches the caller")
        untouched("failed request")
        E.cover("failed request")
        return
    if st_ == "exc":
        E.prove(E.fs.at("kind", target) == 0, "after a failed download the file does not exist")
        unchanged_elsewhere(E, target, before, "failure")
        E.cover("failed download")
        return
    E.prove(B("status" in calls), "the HTTP status is checked")
    E.prove(And(E.fs.at("kind", target) == 1, E.fs.at("data", target) == E.bseq(body)), "the downloaded file holds the response body")
    unchanged_elsewhere(E, target, before, "success")
    E.cover("downloaded")


GOALS = [Goal("write_file_or_remove (binary)", writer_goal(True), setup_writes, covers=["success", "failed in the block", "failed outside of the block"]),
         Goal("write_file_or_remove (text)", writer_goal(False), setup_writes, covers=["success", "failed in the block", "failed outside of the block"]),
         Goal("write_dir_or_remove", run_dir, covers=["success", "failed"]),
         Goal("download", run_download, covers=["already present", "failed request", "failed download", "downloaded"])]
