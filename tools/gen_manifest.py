"""Writes MANIFEST.json from the check modules and properties.jsonl."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def const(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            if n.targets[0].id == name:
                return eval(compile(ast.Expression(n.value), "x", "eval"), {})
    return None


TECH = {
    "C01": "exhaustive fault enumeration (network cuts, disk limits, kills at every I/O event) on the real download code",
    "C26": "stateless model checking of the real C++ kernels: all interleavings under a controlled scheduler, plus worker-spawn fault enumeration and happens-before race monitoring",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(V, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    t = ast.parse(open(f).read())
    bounds = const(t, "BOUNDS") or {}
    checks.append(dict(
        property=p["id"],
        quick_cmd=f"bin/check {p['id']}",
        thorough_cmd=f"bin/check {p['id']} --thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=const(t, "TECHNIQUE") or TECH.get(p["id"]) or "explicit-state bounded exhaustive exploration of the real code against an executable reference model",
        level=const(t, "LEVEL"),
        level_note=f"Complete within the stated bounds (quick: {bounds.get('quick', '')}; thorough: {bounds.get('thorough', '')}). Assumes: " + " ".join(const(t, "ASSUMPTIONS") or ["nothing further"]),
    ))
m = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -m vf.build",
    checks=checks,
    not_applicable=na,
    notes="Every check builds what it needs from /repo's working tree into /verif/build (ignored by git). No hooks are added to /repo.",
)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
