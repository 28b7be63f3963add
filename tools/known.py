"""development aid: writes known_findings.json; fixed records take their hashes from /repo's log"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
PROP = json.load(open(os.path.join(V, "tools", "fixprops.json")))
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        what = s[5:]
        p = next((v for k, v in PROP.items() if k in what), None)
        if p is None:
            print("no property for", what)
            continue
        fixed.append("fixed: property=%s %s %s" % (p, h, what))
f = json.load(open(os.path.join(V, "tools", "findings.json")))
json.dump(dict(findings=f, fixed=list(reversed(fixed))), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
