import sys, json, importlib, pkgutil, time
sys.path.insert(0,'/verif')
from vf import verify; verify.load()
import vcspec
mods=sys.argv[1].split(",")
for m in mods: importlib.import_module("vcspec."+m)
pat=sys.argv[2] if len(sys.argv)>2 else ""
for u in verify.UNITS:
    if pat in u.uid:
        r=verify.run_unit(u, 300)
        print(r["status"].upper(), u.uid, "paths",r["paths"],"wall",r["wall"],"ob",{k:(v["checks"],v["discharged"]) for k,v in r["obligations"].items()},"cov",r["covered"])
        for k,v in r["refuted"].items() if r.get("refuted") else []:
            for x in v[:2]: print("   REFUTED",k,x["detail"][:400],"| PATH",x["path"][-6:], "| MODEL", x["model"][:200].replace("\n"," "))
        for x in r["undecided"]: print("   UND",x[:400])
        print("   contracts",r["contracts"],"inl",r["inlined"],"ext",r["externals"]) if "-v" in sys.argv else 0
