"""usage: kf.py fixed PID HASH text...   |  kf.py known PID CASE LABEL what..."""
import json,sys
from pathlib import Path
p=Path(__file__).resolve().parents[1]/"known_findings.json"
l=json.loads(p.read_text())
a=sys.argv[1:]
if a[0]=="fixed":
    l.append({"status":"fixed","property":a[1],"line":f"fixed: property={a[1]} {a[2]} {' '.join(a[3:])}"})
else:
    l.append({"status":"known","property":a[1],"case":a[2],"label":a[3],"what":" ".join(a[4:])})
p.write_text("[\n"+",\n".join(" "+json.dumps(x) for x in l)+"\n]\n")
