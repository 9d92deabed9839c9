"""Regenerates MANIFEST.json from checks/*.py (TECHNIQUE, LEVEL, NOTE)."""
import ast, json
from pathlib import Path
V = Path(__file__).resolve().parents[1]
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
NOTES = json.loads((V / "tools" / "notes.json").read_text())
checks, na = [], []
for p in props:
    f = V / "checks" / f"{p['id']}.py"
    if not f.exists():
        na.append({"property": p["id"], "reason": NOTES.get(p["id"], {}).get("na", "no check has been built for it in this tree")})
        continue
    lev = None
    for n in ast.parse(f.read_text()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "LEVEL":
            lev = ast.literal_eval(n.value)
    nt = NOTES[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": f"./run {p['id']} quick", "thorough_cmd": f"./run {p['id']} thorough",
                   "technique": nt["technique"], "level": lev, "level_note": nt["note"]})
m = {"version": 1, "setup_cmd": "chmod +x run && /opt/venv/bin/python -c 'import numpy, scipy'", "checks": checks, "not_applicable": na}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
