"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import ast, json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root/"properties.jsonl").read_text().splitlines()]
NA = json.loads((root/"tools/not_applicable.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    f = root/"rtmon/checks"/f"{i.lower()}.py"
    if f.exists():
        const = {}
        for node in ast.parse(f.read_text()).body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                try:
                    const[node.targets[0].id] = ast.literal_eval(node.value)
                except ValueError:
                    pass
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "technique": const.get("TECHNIQUE", "runtime monitoring: randomized workloads against an online reference model"),
            "level": const.get("LEVEL", "exploration"),
            "level_note": const.get("LEVEL_NOTE",
              "Held on the executions explored (counts in the evidence file); randomized, seeded by VERIF_SEED. Trusts the reference model in the check, CPython and asyncio.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash ./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: every monitor observes at the public boundary (messages, callbacks, files, ASGI events). Replays: ./check ID --replay FILE."}
(root/"MANIFEST.json").write_text(json.dumps(m, indent=1)+"\n")
print(len(checks), "checks;", [x["property"] for x in na])
