"""Write MANIFEST.json: one check per checks/cNN.py, the rest not applicable (reasons below)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
WIP = set()
NOTES = {"C25": (
    "Exhaustive over all values of the symbolic inputs within the stated sizes (see evidence 'bounds'); every sum of the code's "
    "numbers is a double's, in a linear over-approximation of rounding in which the proofs are done; failures are solved again "
    "bit-precisely in Z3's theory of IEEE 754 doubles and replayed with those doubles. Trusts Z3, CPython and /verif/symx.")}
TECH = "symbolic execution of the real code on Z3 terms, path exploration exhaustive within stated bounds"
BASE = ("Exhaustive over all values of the symbolic inputs within the stated sizes and steps (see evidence 'bounds'); "
        "arithmetic over exact reals; counterexamples are replayed on the real code with plain floats. Trusts Z3, CPython "
        "and /verif/symx.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in WIP and os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        c = i.lower()
        checks.append(dict(property=i, quick_cmd=f"./run.sh {c}", thorough_cmd=f"./run.sh {c} --tier thorough",
                           technique=TECH, level="model_checking", level_note=NOTES.get(i, BASE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the checks run its code as it is."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
