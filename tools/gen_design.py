"""Writes DESIGN.md from tools/design/*.md, properties, check modules, findings and planted bugs."""
import ast, json, pathlib, re, subprocess
V = pathlib.Path(__file__).parent.parent
D = V / "tools/design"
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
why = json.loads((D / "why.json").read_text())
caught = json.loads((D / "caught.json").read_text()) if (D / "caught.json").exists() else {}
costs = json.loads((D / "costs.json").read_text()) if (D / "costs.json").exists() else {}
out = [(D / "head.md").read_text().rstrip(), "", "## The properties", ""]
fixed = json.loads((V / "KNOWN_FINDINGS.json").read_text())
bugs = {p.name: json.loads((p / "meta.json").read_text()) for p in sorted((V / "seeded").iterdir())}
for p in props:
    i = p["id"]
    t = ast.parse((V / f"rtmon/checks/{i.lower()}.py").read_text())
    c = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TECHNIQUE", "RULE", "ASSUME", "REQUIRE"):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    out += [f"### {i}: {p['title']}", "",
            f"*Method.* {c['TECHNIQUE'][0].upper()}{c['TECHNIQUE'][1:]}.", "",
            f"*Workload.* {c['RULE'][0].upper()}{c['RULE'][1:]}.", "",
            f"*Why tests cannot settle it.* {why[i]}", "",
            "*Bounds and cost.* " + (f"Quick: {costs[i]}. " if i in costs else "") +
            "A quick run must have observed at least: " + ", ".join(f"{v} {k.replace('_', ' ')}" for k, v in c["REQUIRE"].items()) + ". Thorough: the same with about ten times the cases.", "",
            "*Assumptions.* " + "; ".join(c["ASSUME"]) + ".", ""]
    fs = [re.sub(r"^fixed: property=\S+ ", "", f).replace("what failed before: ", "") for f in fixed["fixed"] if f.startswith(f"fixed: property={i} ")]
    if fs:
        out += ["*Defects found and repaired.* " + "; ".join(f"{f.split(' ', 1)[1]} ({f.split(' ', 1)[0]})" for f in fs) + ".", ""]
    bs = [b for b, m in bugs.items() if m["property"] == i]
    if bs:
        out += ["*Planted bugs.* " + "; ".join(f"`{b}`" for b in bs) + ".", ""]
out += ["## Planted bugs and the checks that catch them", "",
        "Each was written from the text of the property and the code, passes the stable tests, and comes with a demonstration.",
        "", "| bug | property | caught by | needs |", "|---|---|---|---|"]
for b, m in bugs.items():
    out.append(f"| {b} | {m['property']} | {caught.get(b, m['property'])} | {m['needs'].replace('|', '/')} |")
out += ["", (D / "bugs.md").read_text().rstrip(), "", (D / "tail.md").read_text().rstrip(), ""]
(V / "DESIGN.md").write_text("\n".join(out))
