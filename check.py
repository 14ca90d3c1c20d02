#!/usr/bin/env python3
"""Decide one property: discharge its contracts on /repo's current source, then look for a concrete counterexample.

usage: check.py PROPERTY [--thorough] | check.py --replay FILE
"""
import ast
import importlib
import json
import multiprocessing
import os
import pwd
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
APP = "/opt/venv/bin/python"
if sys.prefix != "/opt/veriftools/pyvenv" and os.path.exists(VT):
    os.execv(VT, [VT] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")


class Scratch:
    """directory owned by an unprivileged user, where the code under test runs"""
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vp-")
        lib = os.path.join(self.dir, "lib")
        os.mkdir(lib)
        for f in os.listdir(os.path.join(HERE, "replay")):
            if f.endswith(".py"): shutil.copy(os.path.join(HERE, "replay", f), lib)
        shutil.copytree(os.path.join(REPO, "cdtb"), os.path.join(self.dir, "src", "cdtb"), ignore=shutil.ignore_patterns("__pycache__"))
        self.work = os.path.join(self.dir, "work")
        os.mkdir(self.work)
        os.chmod(self.dir, 0o755)
        nobody = pwd.getpwnam("nobody")
        self.uid, self.gid = nobody.pw_uid, nobody.pw_gid
        os.chown(self.work, self.uid, self.gid)
        for r, ds, fs in os.walk(lib):
            os.chmod(r, 0o755)
        for r, ds, fs in os.walk(os.path.join(self.dir, "src")):
            os.chmod(r, 0o755)
            for f in fs: os.chmod(os.path.join(r, f), 0o644)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def start(self, args):
        # the package is the working tree's own text; when the tree is readable it is imported from there
        src = REPO if os.stat(os.path.join(REPO, "cdtb", "__init__.py")).st_mode & 0o004 else os.path.join(self.dir, "src")
        env = {"PATH": "/usr/bin:/bin", "HOME": self.work, "TMPDIR": self.work, "LANG": "C.UTF-8", "PYTHONPATH": f"{src}:{self.dir}/lib",
               "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
        def drop():
            os.setgroups([])
            os.setgid(self.gid)
            os.setuid(self.uid)
            import resource
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        wd = tempfile.mkdtemp(dir=self.work)
        os.chown(wd, self.uid, self.gid)
        return subprocess.Popen([APP, f"{self.dir}/lib/lib.py"] + args, cwd=wd, env=env, preexec_fn=drop, stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def load_findings():
    """known-findings.txt: 'known: property=<id> tag=<tag> <what>' and 'fixed: property=<id> <commit> <what>'"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                d = dict(w.split("=", 1) for w in line.split()[1:3])
                out.append((d["property"], d["tag"], line.split(None, 3)[3]))
    return out


def search(prop, scratch, seed, seconds, workers, hints):
    """concrete counterexample search in parallel; merged result"""
    hf = os.path.join(scratch.work, "hints.json")
    with open(hf, "w") as f: json.dump(hints, f)
    os.chmod(hf, 0o644)
    ps = [scratch.start([prop, "search", str(seed), str(w), str(workers), str(seconds), hf]) for w in range(workers)]
    out = {"n": 0, "distinct": 0, "samples": [], "bad": None, "case": None, "known": {}, "errors": [], "rule": ""}
    for p in ps:
        try:
            so, se = p.communicate(timeout=seconds + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            out["errors"].append("search did not end")
            continue
        try:
            r = json.loads(so.decode().strip().splitlines()[-1])
        except Exception:
            out["errors"].append(se.decode(errors="replace")[-1500:] or "no output")
            continue
        out["n"] += r["n"]; out["distinct"] += r["distinct"]; out["rule"] = r["rule"]
        out["samples"] += r["samples"]
        out["known"].update(r["known"])
        out["errors"] += r.get("errors", [])
        if r["bad"] and not out["bad"]: out["bad"], out["case"] = r["bad"], r["case"]
    out["samples"] = out["samples"][:4]
    return out


def _goal_worker(args):
    prop, i, deadline, hurry = args
    from pyvc.contract import run_goal
    from pyvc.core import Config
    if hurry:      # a failing input is already known: name a failed obligation and stop
        Config.max_bad, Config.prove_ms = 1, 15000
    m = importlib.import_module("contracts." + prop)
    g = m.GOALS[i]
    r = run_goal(g, deadline)
    return {"goal": g.name, "doc": g.doc, "error": r.error, "seconds": r.seconds, "functions": sorted(r.functions), "assumed": sorted(r.assumed),
            "paths": r.paths, "queries": r.queries, "solver_ms": r.solver_ms, "uncovered": r.uncovered, "covers": r.covers,
            "obligations": [(o.name, o.status, o.where, o.ms, o.backend, o.detail) for o in r.obligations]}


def prove(prop, seconds, hurry=False):
    m = importlib.import_module("contracts." + prop)
    deadline = time.time() + seconds
    jobs = [(prop, i, deadline, hurry) for i in range(len(m.GOALS))]
    with multiprocessing.get_context("fork").Pool(min(8, max(1, len(jobs)))) as pool:
        rs = pool.map(_goal_worker, jobs, chunksize=1)
    return m, rs


def numbers(detail):
    """values of the verifier's counterexample, tried first by the concrete search"""
    out = []
    for v in ((detail or {}).get("model") or {}).values():
        v = v.strip()
        if v.lstrip("-").isdigit() and len(v) < 30: out.append(int(v))
        elif v.startswith('"') and v.endswith('"') and len(v) < 60: out.append(v[1:-1])
    return out


def decide(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    quick = tier == "quick"
    has_proof = os.path.exists(os.path.join(HERE, "contracts", prop + ".py"))
    has_search = os.path.exists(os.path.join(HERE, "replay", prop + ".py"))
    known = [t for p, t, _ in load_findings() if p == prop]
    res, proof, goals = None, None, []
    if has_search:
        with Scratch() as s:
            res = search(prop, s, seed, 10 if quick else 120, 8, {"values": [], "known": known})
    if has_proof:
        hurry = bool(res and res["bad"])
        proof, goals = prove(prop, 120 if hurry else 420 if quick else 500, hurry)
    failed, undecided, obs = [], [], []
    for g in goals:
        for name, status, where, ms, backend, detail in g["obligations"]:
            obs.append((g["goal"], name, status, ms, backend, detail))
            if status != "proved": failed.append((g["goal"], name, status, detail))
        if g["error"]: undecided.append((g["goal"], g["error"]))
        elif not g["obligations"]: undecided.append((g["goal"], "undecided: no obligation was generated"))
        for c in g["uncovered"]: undecided.append((g["goal"], f"undecided: the case '{c}' is never reached (the contract would hold vacuously)"))
    hints = {"values": sorted({repr(x): x for f in failed for x in numbers(f[3])}.values(), key=repr)[:50],
             "known": known}
    trouble = bool(failed or undecided)
    if has_search and not res["bad"] and (trouble or not quick):
        with Scratch() as s:
            more = search(prop, s, seed + 1000, 80 if quick else 120, 8, hints)
        for k in ("n", "distinct"): more[k] += res[k]
        more["known"].update(res["known"])
        res = more
    violation = bool(failed or undecided or (res and res["bad"]))
    proved = [o for o in obs if o[2] == "proved"]
    level = getattr(proof, "LEVEL", "proof") if has_proof else "other"
    backends = {}
    for o in obs: backends[o[4]] = backends.get(o[4], 0) + (o[2] == "proved")
    cov = {"obligations": len(obs), "discharged": len(proved), "by_back_end": backends,
           "solver_s": round(sum(g["solver_ms"] for g in goals) / 1000, 2), "solver_queries": sum(g["queries"] for g in goals),
           "paths": sum(g["paths"] for g in goals),
           "functions_under_contract": sorted({f for g in goals for f in g["functions"]}),
           "goals": [{"name": g["goal"], "what": g["doc"], "obligations": len(g["obligations"]), "paths": g["paths"], "seconds": round(g["seconds"], 1),
                      "error": g["error"], "reached": g["covers"]} for g in goals],
           "checker_cmd": f"python3-vt {os.path.join(HERE, 'check.py')} {prop}" + ("" if quick else " --thorough"),
           "trusted_base": ["pyvc (verification condition generator for the Python subset, /verif/pyvc)", "z3 5.3.2", "cvc5 1.4.2",
                            "models of Python builtins and libraries in pyvc/models.py", "CPython's ast module"] + list(getattr(proof, "TRUSTED", [])),
           "bounded_cross_check": None}
    if res:
        cov["evaluations"], cov["distinct_nontrivial"], cov["rule"], cov["samples"] = res["n"], res["distinct"], " ".join(res["rule"].split()), res["samples"] or ["none"]
        cov["bounded_cross_check"] = "concrete executions of the real code against the contract (bounded; never counted as proved): the evaluations above"
    if level == "other": cov["explanation"] = (getattr(proof, "BOUNDED_NOTE", None) or
        "bounded stand-in: the contract of the functions is evaluated on concrete executions of the real code with generated inputs; nothing here is proved")
    bounded = list(getattr(proof, "BOUNDED", []))
    if bounded: cov["bounded_functions"] = bounded
    assumptions = sorted({a for g in goals for a in g["assumed"]} | set(getattr(proof, "ASSUMPTIONS", [])))
    if has_proof: assumptions += ["termination is not proved (partial correctness)", "MemoryError, RecursionError and signals inside library calls are not modelled unless the property says so"]
    replay_path = None
    nviol = 0
    if violation:
        nviol = 1
        os.makedirs(os.path.join(HERE, "replay_out"), exist_ok=True)
        replay_path = os.path.join(HERE, "replay_out", f"{prop}.json")
        with open(replay_path, "w") as f:
            json.dump({"property": prop, "case": res and res["case"], "what_fails": res and res["bad"],
                       "failed_obligations": [{"goal": g, "obligation": n, "status": s, "verifier": d} for g, n, s, d in failed],
                       "undecided": [{"goal": g, "why": w} for g, w in undecided],
                       "replay_cmd": f"python3-vt {os.path.join(HERE, 'check.py')} --replay {replay_path}"}, f, indent=1, default=str)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    if has_search and res["errors"] and not res["bad"]:
        print("the concrete search (a cross-check, not the deciding step) had errors:", res["errors"][0][-600:], file=sys.stderr)
    for p, t, what in load_findings():
        if p == prop and res and t in res["known"]: print(f"KNOWN-FINDING: property={prop} {what}")
    print(f"{prop}: {len(proved)}/{len(obs)} obligations discharged in {len(goals)} goals, {res['n'] if res else 0} concrete executions, {time.time() - t0:.1f} s")
    for g, n, s, d in failed[:6]: print(f"  obligation not discharged: {g}: {n} ({s})")
    for g, w in undecided[:6]: print(f"  {g}: {w}")
    if res and res["bad"]: print("  failing input:", (res["case"] or "")[:400], "--", res["bad"][:400])
    if violation:
        print(f"VIOLATION property={prop} replay={replay_path}" + ("" if res and res["bad"] else " no-failing-input-found"))
        return 1
    return 0


def replay(path):
    d = json.load(open(path))
    for o in d["failed_obligations"]: print("failed obligation:", o["goal"], "/", o["obligation"], o["status"])
    for o in d["undecided"]: print("undecided:", o["goal"], o["why"])
    if not d["case"]: return 1
    with Scratch() as s:
        cf = os.path.join(s.work, "case.txt")
        open(cf, "w").write(d["case"])
        os.chmod(cf, 0o644)
        p = s.start([d["property"], "replay", cf])
        so, se = p.communicate(timeout=300)
        print(so.decode(), se.decode())
        return 1 if json.loads(so.decode().strip().splitlines()[-1])["bad"] else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
    sys.exit(decide(sys.argv[1], "thorough" if "--thorough" in sys.argv else "quick"))
