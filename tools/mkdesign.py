"""fill the generated parts of DESIGN.md (between <!-- NAME --> and <!-- /NAME -->)"""
import collections, json, os, re, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check

v, errs = check.load_specs()
from bounded.props import PROPS

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
levels = json.load(open(os.path.join(HERE, "tools", "levels.json")))
out = []
for p in props:
    us = [u for u in v.UNITS if p["id"] in u.props]
    target = lambda u: (u.target or "lemma:" + u.uid).replace("turms.", "").replace("plugins.", "").replace(":", ".")
    fns = collections.Counter(target(u) for u in us)
    cons = {c for u in us for c in u.contracts}
    short = lambda c: c.split("#")[0].replace("turms.", "").replace("plugins.", "").replace(":", ".")
    assumed = sorted({short(c) for c in cons if not v.CONTRACTS[c][1]})
    out.append(f"**{p['id']} {p['title']}** ({levels[p['id']]['level']}). {levels[p['id']]['note'].split('Trusted: ')[-1].split('z3, cvc5. ')[-1]}")
    out.append(f"  Under contract ({len(us)} units): " + ", ".join(f"`{f}`" + (f" x{n}" if n > 1 else "") for f, n in sorted(fns.items())) + ".")
    if assumed:
        out.append("  Assumed contracts: " + ", ".join(f"`{a}`" for a in assumed) + ".")
    out.append("  Bounded oracles: " + "; ".join(f"{o[0]} (`{o[1] if '.' not in o[3] else ''}{'.' if '.' not in o[3] else ''}{o[3]}`, {o[4]} cases quick, {o[5]} thorough)" for o in PROPS[p["id"]]) + ".")
    out.append("")
units = {"PROPS": "\n".join(out)}
d = open(os.path.join(HERE, "DESIGN.md")).read()
for k, t in units.items():
    d = re.sub(rf"<!-- {k} -->.*?<!-- /{k} -->", lambda m: f"<!-- {k} -->\n{t}\n<!-- /{k} -->", d, flags=re.S)
open(os.path.join(HERE, "DESIGN.md"), "w").write(d)
print(len(v.UNITS), "units")
