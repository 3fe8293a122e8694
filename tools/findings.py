"""Writes known_findings.jsonl: one line per repaired (or open) defect."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {  # fix commit subject prefix -> property; filled from git log by subject
}
exec(open(os.path.join(HERE, "tools", "findings_map.py")).read())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True).stdout
out = []
for line in log.splitlines():
    h, s = line.split("\t", 1)
    if s.startswith("fix:") and s[4:].strip() in MAP:
        p = MAP[s[4:].strip()]
        out.append({"property": p, "status": "fixed", "commit": h, "what": f"fixed: property={p} {h} {s[4:].strip()}"})
with open(os.path.join(HERE, "known_findings.jsonl"), "w") as f:
    for o in out + OPEN:
        f.write(json.dumps(o) + "\n")
print(len(out), "fixed", len(OPEN), "open")
known = set(MAP)
for line in log.splitlines():
    h, s = line.split("\t", 1)
    if s.startswith("fix:") and s[4:].strip() not in known:
        print("unmapped", h, s)
