"""run every unit (or those matching a substring) in parallel; print what is not proved"""
import sys, time
sys.path.insert(0, "/verif")
import check
verify, errs = check.load_specs()
print(errs)
pat = sys.argv[1] if len(sys.argv) > 1 else ""
skip = sys.argv[2] if len(sys.argv) > 2 else None
us = sorted([u for u in verify.UNITS if pat in u.uid and not (skip and any(x in u.uid for x in skip.split(",")))], key=lambda u: -u.max_paths)
n = 0
for i, kind, r in check.farm(range(len(us)), lambda i: {k: v for k, v in verify.run_unit(us[i], 400).items() if k in ("unit", "status", "wall", "refuted", "undecided", "paths")}, 430, 8):
    if kind != "ok":
        print(us[i].uid, kind, str(r)[-300:])
        continue
    n += r["status"] == "proved"
    if r["status"] != "proved" or r["wall"] > 60:
        print(r["status"], r["unit"], r["paths"], r["wall"], str(r["undecided"])[:300], str(r["refuted"])[:500])
print("proved", n, "of", len(us))
