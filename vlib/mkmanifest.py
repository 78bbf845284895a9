"""Writes MANIFEST.json: every property with a check, its technique and what assurance it gives."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = open(os.path.join(V, "vlib", "checks.py")).read()
have = set(re.findall(r'@check\("(P\d\d)"\)', checks))
CORE = "TLA+ state machine (spec/OptionCore.tla) checked with TLC; every transition replayed on opt::option<T> for ~165 payload types and compared"
TECH = {
 "P01": CORE, "P02": CORE + "; object ledger, ASan/LSan; the same ledger on every transition of spec/Convert.tla, Algebra.tla and Structure.tla", "P03": CORE, "P10": CORE + "; spec/Calls.tla (INVOKE for member pointers on 24 kinds of subjects, the category in which callables are used): every row a real call", "P11": CORE,
}
NOTE = {}
for m in re.finditer(r'@check\("(P\d\d)"\)\ndef \w+\([^)]*\):\n    """(.*?)"""', checks, re.S):
    t, _, n = " ".join(m.group(2).split()).partition(" || ")
    TECH[m.group(1)] = t
    NOTE[m.group(1)] = n
DEF = "Exhaustive over the specification's finite instance (contents, values, slots), every transition of it executed on the real code; assumes the compilers and sanitizers of this sandbox, and that the payload types listed in the harness represent the type-dependent code paths."
m = dict(version=1, setup_cmd="python3 vlib/setup.py", checks=[], not_applicable=[], notes="TLA+ with TLC; see DESIGN.md. No hooks in /repo: only its public interface is used.")
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}", technique=TECH[i], level="model_checking", level_note=NOTE.get(i) or DEF))
    else:
        m["not_applicable"].append(dict(property=i, reason="check not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
