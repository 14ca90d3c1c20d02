"""Concrete execution of the contracts on the real code: counterexample search and replay.
Runs as an unprivileged user in a scratch directory, with the repository on PYTHONPATH."""
import ast
import importlib
import json
import os
import random
import shutil
import signal
import sys
import time
import traceback


class Bad(Exception):
    """the property is violated"""

class Hang(BaseException):
    pass

def need(cond, msg):
    if not cond:
        raise Bad(msg)

def same(got, want, what):
    if got != want or type(got) is bool and type(want) is not bool:
        raise Bad(f"{what}: got {short(got)}, expected {short(want)}")

def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."

def on_alarm(*a):
    raise Hang()

def outcome(fn, *args, **kw):
    """('ok', value) or ('exc', class name, exception)"""
    try:
        return ("ok", fn(*args, **kw))
    except Hang:
        raise
    except Exception as e:
        return ("exc", type(e).__name__, e)

def quiet():
    import logging
    logging.disable(logging.CRITICAL)

def run_case(mod, case, limit):
    """None, or what is wrong"""
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    cwd = os.getcwd()
    work = os.path.join(cwd, "w%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.mkdir(work)
    try:
        mod.check(case, work)
        return None
    except Bad as e:
        return str(e)
    except Hang:
        return f"does not finish within {limit} s"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/cdtb/" in f.filename]
        if where:
            f = where[-1]
            return f"unexpected {type(e).__name__}: {e} in {os.path.basename(f.filename)}:{f.name}"
        raise
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(work, ignore_errors=True)

def main():
    quiet()
    name, mode = sys.argv[1], sys.argv[2]
    mod = importlib.import_module(name)
    limit = getattr(mod, "LIMIT", 15)
    if mode == "replay":
        case = ast.literal_eval(open(sys.argv[3]).read())
        bad = run_case(mod, case, limit)
        print(json.dumps({"bad": bad}))
        return
    seed, worker, workers, seconds = int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), float(sys.argv[6])
    hints = json.load(open(sys.argv[7])) if len(sys.argv) > 7 else {}
    rng = random.Random(f"{name}-{seed}-{worker}")
    n, distinct, samples = 0, set(), []
    t0 = time.time()
    res = {"bad": None, "case": None}
    known = set(hints.get("known", []))
    def cases():
        fixed = list(mod.fixed()) if hasattr(mod, "fixed") else []
        for i, c in enumerate(fixed):
            if i % workers == worker: yield c
        if not hasattr(mod, "generate"): return
        size = 0
        while time.time() - t0 < seconds:
            yield mod.generate(rng, hints)
    seen_known, errors = {}, []
    for case in cases():
        try:
            bad = run_case(mod, case, limit)
        except Exception:
            errors.append(traceback.format_exc()[-1500:])
            if len(errors) > 20: break
            continue
        n += 1
        key = repr(case)
        if len(distinct) < 200000: distinct.add(hash(key))
        if len(samples) < 2 and len(key) < 600: samples.append(key)
        if bad:
            tag = mod.classify(case, bad) if hasattr(mod, "classify") else None
            if tag in known:
                seen_known[tag] = bad
                continue
            res = {"bad": bad, "case": shrink(mod, case, bad, limit, time.time() + 20)}
            b2 = run_case(mod, res["case"], limit)
            if b2: res["bad"] = b2
            res["case"] = repr(res["case"])
            break
    res.update(n=n, distinct=len(distinct), samples=samples, seconds=time.time() - t0, known=seen_known, errors=errors[:2], rule=getattr(mod, "RULE", mod.__doc__ or ""))
    print(json.dumps(res))

def shrink(mod, case, bad, limit, until):
    if not hasattr(mod, "smaller"): return case
    again = True
    while again and time.time() < until:
        again = False
        for c in mod.smaller(case):
            if time.time() > until: break
            try:
                if run_case(mod, c, limit):
                    case, again = c, True
                    break
            except Exception:
                continue
    return case

# ---------------------------------------------------------------- generators

def rbytes(rng, n):
    return rng.randbytes(n)

def cuts(rng, data):
    """data cut into chunks, empty ones included"""
    out, i = [], 0
    while i < len(data):
        k = rng.choice([0, 1, 1, 2, 3, 5, 8, len(data)])
        out.append(data[i:i + k]); i += k
    if rng.random() < .3: out.append(b"")
    return out

def drop_one(seq):
    for i in range(len(seq)): yield seq[:i] + seq[i + 1:]

if __name__ == "__main__":
    sys.modules["lib"] = sys.modules["__main__"]      # the oracles' Bad is this Bad
    main()
