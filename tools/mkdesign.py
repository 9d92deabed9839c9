"""Writes DESIGN.md: hand-written head and tail, one section per property from properties.jsonl, notes.json, the check modules and the last evidence."""
import ast, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev = sys.argv[1] if len(sys.argv) > 1 else R + "/evidence"
notes = json.load(open(R + "/tools/notes.json"))
kf = json.load(open(R + "/known_findings.json"))
kf = kf if isinstance(kf, list) else kf.get("findings", kf.get("entries"))
out = [open(R + "/tools/design_head.md").read()]
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    out.append(f"\n### {i}: {p['title']}\n")
    f = f"{R}/checks/{i}.py"
    if not os.path.exists(f):
        out.append("Not claimed; see MANIFEST.json.\n")
        continue
    t = ast.parse(open(f).read())
    g = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS"):
            g[n.targets[0].id] = ast.literal_eval(n.value)
    doc = " ".join((ast.get_docstring(t) or "").split())
    doc = doc.split(": ", 1)[-1]
    out.append(f"*Specification and oracle.* {doc}\n")
    out.append(f"*Deciding step.* {notes[i]['technique'][0].upper() + notes[i]['technique'][1:]}.\n")
    out.append(f"*Enumerated.* {g['RULE']}.\n")
    out.append(f"*Bounds.* {notes[i]['note'][0].upper() + notes[i]['note'][1:]}.\n")
    out.append("*Assumptions.* " + "; ".join(g["ASSUMPTIONS"]) + ".\n")
    out.append(f"*Why tests cannot settle it.* {p['why_tests_cant']}.\n")
    e = f"{ev}/{i}.json"
    if os.path.exists(e):
        d = json.load(open(e))
        c = d["coverage"]
        out.append(f"*Cost (last {d['tier']} run).* {c['cases_in_bound']} cases, {c.get('states', 0)} states, {c.get('transitions', 0)} transitions, {c.get('traces_validated_against_impl', 0)} replayed traces, {c.get('oracle_comparisons', 0)} comparisons"
                   + (f", {d['wall_s']:.0f} s" if isinstance(d.get("wall_s"), (int, float)) else "") + ".\n")
out.append(open(R + "/tools/design_tail.md").read())
out.append("\n## Findings\n\nRepaired in /repo (one `fix:` commit each; suppress nothing):\n")
for e in kf:
    if e["status"] == "fixed":
        out.append("* " + e["line"].removeprefix("fixed: property="))
out.append("\nKnown, recorded and not repaired:\n")
for e in kf:
    if e["status"] != "fixed":
        out.append(f"* {e['property']} case `{e['case']}` ({e['label']}): {e['what']}")
open(R + "/DESIGN.md", "w").write("\n".join(out) + "\n")
