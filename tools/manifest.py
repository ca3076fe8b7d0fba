#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed properties below.
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
E1 = dict(technique="symbolic execution of the real circuit code against a symbolic frontend.API; SMT (z3) decides the emitted constraints against the specification",
  level="other",
  level_note="Bounded solver verdict over all field values and all hint answers for the encoded shapes: every component is the repository's own Go code run on a symbolic API, lifted to integer/modular equations whose side conditions (no wrap-around, bounds, identities) are discharged by z3. Trusts gnark's compiler and lookup argument, the API model and z3; shapes outside the stated bounds are not covered. A violation is only reported with a concrete counterexample replayed on the real code.")
E2 = dict(technique="symbolic execution of the real Go code from its SSA form; SMT (z3) decides each assertion over all inputs within the bounds",
  level="other",
  level_note="Bounded solver verdict: the functions are executed symbolically from go/ssa built from the current source, every path within the bounds is turned into a query for z3. Trusts the SSA interpreter's model of Go and of the listed library functions, and z3; sizes outside the stated bounds are not covered.")
claimed = {}
for i in ["C01","C02","C03","C04","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C22"]: claimed[i] = E1
for i in ["C05","C19","C20","C21","C23","C24"]: claimed[i] = E2
na = {i: "no check built yet" for i in ids if i not in claimed}
m = dict(version=1, setup_cmd="./setup.sh",
  hooks=dict(guard="none", enable="no hooks in /repo: the checks build /repo's working tree as it is (some with a build-time overlay kept in /verif)", source_commits=[]),
  checks=[dict(property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"env VERIF_TIER=thorough ./run.sh {i}", evidence_file=f"evidence/{i}.json", **claimed[i]) for i in ids if i in claimed],
  not_applicable=[dict(property=i, reason=na[i]) for i in ids if i in na],
  notes="run.sh builds the engine against /repo's current working tree on every run; VERIF_TIER=thorough deepens the bounds.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1); open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
