"""Writes /verif/MANIFEST.json from the claimed table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TERM = ("Value-graph construction by abstract interpretation of the current source (gated phi nodes at joins and loops), "
        "obligations proved by algebraic normal forms modulo inferred loop invariants")
TRUST = (" Decided from the source alone. Trusted: the Python subset semantics and NumPy models of the interpreter in sa/. "
         "Reports a violation only when a fully modelled obligation is refuted; anything else is listed as undetermined in the evidence.")
MAN = ("Value-graph construction by abstract interpretation of the current source over symbolic sizes, points and vectors; "
       "obligations proved by index-notation normal forms modulo the manifold's defining equations")
CLAIMED = {}
def claim(pid, note, technique=None):
    technique = technique or (MAN if pid in MANIFOLD else TERM)
    CLAIMED[pid] = (technique, note + TRUST)
MANIFOLD = set("C%d" % i for i in range(19, 33)) | {"C43", "C44", "C47"}
VT = MANIFOLD | {"C11", "C14", "C16", "C17", "C18"}
NA = {}
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
py = lambda i: "python3-vt" if i in VT else "python3"
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 10)\"",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": f"{py(i)} check.py {i} --tier quick",
                            "thorough_cmd": f"{py(i)} check.py {i} --tier thorough",
                            "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No sound static check for it has been built here; not claimed.")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
