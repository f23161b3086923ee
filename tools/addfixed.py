"""addfixed.py PROPERTY COMMIT KEY WHAT: record a repaired defect."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
pr, c, k, w = sys.argv[1:]
d["findings"].append(dict(property=pr, status="fixed", commit=c, key=k, what=f"fixed: property={pr} {c} {w}"))
open(p, "w").write('{\n "findings": [\n' + ",\n".join("  " + json.dumps(f) for f in d["findings"]) + "\n ]\n}\n")
