"""vm.py MODS PREFIX: the units of the modules whose id starts with the prefix, one line each"""
import sys; sys.path.insert(0, '/verif')
from vf import verify; verify.load()
import importlib
for m in (sys.argv[1] + ",utils,funcs").split(","): importlib.import_module("vcspec." + m)
for u in verify.UNITS:
    if u.uid.startswith(sys.argv[2]):
        r = verify.run_unit(u, 300)
        print(r["status"], u.uid, r["paths"], r["wall"], r["covered"])
        for k, v in r["refuted"].items() if r.get("refuted") else []: print("  REF", k, v[0]["detail"][:300])
        for x in r["undecided"]: print("  UND", x[:300])
