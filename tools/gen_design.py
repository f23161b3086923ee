"""Writes DESIGN.md from tools/design/*.md, properties.jsonl and the check modules."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda *p: open(os.path.join(V, *p)).read()


def consts(f):
    d = {}
    for n in ast.parse(f).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "RULE", "ASSUMPTIONS", "BOUNDS", "TECHNIQUE", "COST"):
            d[n.targets[0].id] = eval(compile(ast.Expression(n.value), "x", "eval"), {})
    return d


out = [R("tools", "design", "head.md"), "## 3. The properties\n"]
M = {c["property"]: c for c in json.loads(R("MANIFEST.json"))["checks"]}
COST = json.loads(R("tools", "design", "cost.json"))
for l in R("properties.jsonl").splitlines():
    p = json.loads(l)
    c = consts(R("checks", p["id"].lower() + ".py"))
    an = "; ".join(a if isinstance(a, str) else " ".join(str(x) for x in a.values()) for a in p["anchors"])
    out.append(f"""### {p['id']} {p['title']}
*Statement.* {p['statement']}

*Quantifier.* {p['quantifier']}

*Why tests cannot settle it.* {p['why_tests_cant']}

*Technique.* {M[p['id']]['technique']} (level `{c['LEVEL']}`).

*What is enumerated, and against what.* {c['RULE']}

*Bounds.* Quick: {c['BOUNDS']['quick']}. Thorough: {c['BOUNDS']['thorough']}.

*Assumptions.* {' '.join(c.get('ASSUMPTIONS') or ['None beyond the bounds.'])}

*Cost.* {COST.get(p['id'], '')}

*Code.* {an}
""")
t = R("tools", "design", "tail.md")
fs = json.loads(R("known_findings.json"))["findings"]
t = t.replace("@FINDINGS@", "\n".join(f"* {f['property']} `{f['commit']}` {f['what'].split(f['commit'], 1)[1].strip()}" if f["status"] == "fixed" else f"* {f['property']} (open) {f['what']}" for f in fs))
rows = []
res = {}
rp = os.path.join(V, "tools", "design", "seeds.txt")
for l in open(rp) if os.path.exists(rp) else []:
    w = l.split()
    if l.startswith("caught"): res[w[1]] = "caught by " + w[2]
    elif l.startswith("MISSED"): res[w[2]] = "missed"
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.loads(R("seeded", s, "meta.json"))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(s, '?')} |".replace("\n", " "))
t = t.replace("@SEEDS@", "| bug | property | what it breaks | needs | result |\n|---|---|---|---|---|\n" + "\n".join(rows))
out.append(t)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
