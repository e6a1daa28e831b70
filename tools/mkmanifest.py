"""Writes MANIFEST.json from the property modules that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = {"C24": dict(technique="contract-based deductive verification: modifies clauses of every function discharged by an interprocedural ownership (frame) analysis of the current sources",
                     note="Modifies clauses are decided by a syntactic, flow-insensitive ownership analysis of every function of the package on every run; what it does not show is "
                          "explored on real calls (bounded) and reported as undecided, never as proved.")}
exec(open(os.path.join(V, "tools", "level_notes.py")).read()) if os.path.exists(os.path.join(V, "tools", "level_notes.py")) else None
GEN = ("Every obligation is generated from /repo's current source on every run (the real functions are traced / executed "
       "symbolically) and must be discharged for all inputs by the ring normaliser, z3 or cvc5, with lemma schemas checked by "
       "Lean. Assumes exact real arithmetic, the jax/numpy library contracts named in the evidence, and the translation in /verif/vf.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "vf", "props", i.lower() + ".py")):
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
                           technique=n.get("technique", "contract-based deductive verification: obligations from the traced real code, discharged by ring normaliser + SMT"),
                           level=n.get("level", "proof"), level_note=n.get("note", "") + (" " if n.get("note") else "") + GEN))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
