"""Writes /verif/MANIFEST.json from the contract modules present."""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
REASONS = {
    "P24": "the TFT and Arena transformers walk schema-free game data through hundreds of dynamic field accesses; there is no exact specification to state a contract against",
    "P25": "interleavings of the download threads: contracts of this (sequential) verifier say nothing about schedules",
}
checks, na = [], []
for p in props:
    if not os.path.exists(os.path.join(here, "contracts", p + ".py")):
        na.append({"property": p, "reason": REASONS.get(p, "not under contract yet")})
        continue
    m = importlib.import_module("contracts." + p)
    level = getattr(m, "LEVEL", "proof")
    note = getattr(m, "NOTE", None) or ("all obligations of the contracts are discharged for all inputs and all iterations by pyvc (z3/cvc5) from /repo's current source; "
        "partial correctness; trusted: the verification-condition generator, its models of Python builtins and of the libraries listed in the evidence" +
        ("; bounded parts: " + "; ".join(m.BOUNDED) if getattr(m, "BOUNDED", None) else ""))
    c = {"property": p, "quick_cmd": f"python3-vt check.py {p}", "thorough_cmd": f"python3-vt check.py {p} --thorough", "technique":
         "contract-based deductive verification of the real Python source (pyvc: symbolic execution with contracts and inductive invariants, z3/cvc5); concrete search only for counterexamples",
         "level": level, "level_note": note}
    if level == "proof": c["theorems"] = [g.name for g in m.GOALS]
    checks.append(c)
out = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, cvc5' && /opt/venv/bin/python -c 'import pyzstd, xxhash, requests'", "checks": checks, "not_applicable": na,
       "notes": "no hooks in /repo; see DESIGN.md"}
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
