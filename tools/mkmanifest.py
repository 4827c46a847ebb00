"""regenerate MANIFEST.json from properties.jsonl and the table below"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = json.load(open(os.path.join(HERE, "tools", "levels.json")))
checks = []
for p in props:
    n = NOTE.get(p["id"], {})
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.py --property {p['id']} --tier quick",
        "thorough_cmd": f"./check.py --property {p['id']} --tier thorough",
        "technique": n.get("technique", "contracts on the real functions discharged by symbolic execution with z3/cvc5; bounded oracle as labelled stand-in"),
        "level": n.get("level", "exploration"),
        "level_note": n.get("note", "bounded so far"),
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [], "notes": "no hooks in /repo: the verifier instruments the current source when it imports it"}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
