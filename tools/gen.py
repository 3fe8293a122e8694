#!/opt/venv/bin/python
"""Write properties.jsonl and MANIFEST.json from tools/props.py and the contract modules."""
import glob, importlib, json, os, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
os.environ["PV_WORLD"] = "declare"
from props import P

checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "state": p["state"], "hook_needed": None}}) + "\n")
        c = glob.glob(os.path.join(HERE, "contracts", p["id"] + "_*.py"))
        if not c:
            na.append({"property": p["id"], "reason": p.get("na") or "no contract module built yet"})
            continue
        m = importlib.import_module("contracts." + os.path.basename(c[0])[:-3])
        lvl = "proof" if m.PROOFS else "exploration"
        tech = p["technique"] or (
            "contracts on the real source discharged by symbolic execution with z3/cvc5; the same contracts evaluated at run time on the real build to find failing inputs"
            if m.PROOFS else "contracts on the real code evaluated at run time on generated inputs (bounded stand-in for deductive verification)")
        note = p["note"] or getattr(m, "NOTE", "")
        ass = "; ".join(getattr(m, "ASSUMPTIONS", []))
        checks.append({
            "property": p["id"], "quick_cmd": f"./check.py {p['id']} --tier quick", "thorough_cmd": f"./check.py {p['id']} --tier thorough",
            "technique": tech, "level": lvl,
            "level_note": (note + " " if note else "") + (
                "Obligations generated from /repo's current source on every run are discharged for all inputs within the stated domain; "
                "run-time evaluation of the contracts on generated cases is a labelled bounded complement. " if m.PROOFS else
                "Bounded: seeded generation of cases, each judged by the contract. ") + ("Assumes: " + ass if ass else "")})
man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo. check.py copies /repo's tree to a scratch directory, builds what it needs there, and removes it."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
try:
    import jsonschema
except ImportError:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import jsonschema
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for line in open(os.path.join(HERE, "properties.jsonl")):
    jsonschema.validate(json.loads(line), sch)
print(len(checks), "checks,", len(na), "not applicable")
