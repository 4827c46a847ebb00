"""build /verif/seeded/<id>/ from a list of planted bugs and confirm each in a scratch copy

    plant.py FILE.py [ids...]      FILE defines BUGS = [dict(id=, prop=, needs=, breaks=, edits=[(path, old, new)], demo=...)]
"""
import concurrent.futures, json, os, runpy, shutil, subprocess, sys, tempfile

SEEDED = "/verif/seeded"
LIB = os.environ.get("PLANT_LIB", "/tmp/w/plant/lib.py")


def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def one(b, tests):
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp/w")
    out = f"{SEEDED}/{b['id']}"
    try:
        r = f"{d}/repo"
        sh(f"cp -a /repo {r}")
        for path, old, new in b["edits"]:
            t = open(f"{r}/{path}").read()
            n = t.count(old)
            if n != 1:
                return f"{b['id']}: pattern found {n} times in {path}: {old[:60]!r}"
            open(f"{r}/{path}", "w").write(t.replace(old, new))
        p = sh("git diff", r).stdout
        cur, orig = None, set()
        for l in p.splitlines():
            if l.startswith("--- a/"):
                cur = set(sh(f"git show b0a6ec6:{l[6:]}", r).stdout.splitlines())
            elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] in cur:
                orig.add(l)
        if not orig:
            return f"{b['id']}: changes no line of the original repository"
        os.makedirs(out, exist_ok=True)
        open(f"{out}/patch.diff", "w").write(p)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
        open(f"{out}/demo.py", "w").write("from lib import *\n" + b["demo"])
        shutil.copy(LIB, f"{out}/lib.py")
        open(f"{out}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        a = sh(f"bash {out}/demo.sh", "/repo", 300)
        if a.returncode:
            return f"{b['id']}: demo FAILS on the unchanged tree: {a.stderr[-600:]}"
        c = sh(f"bash {out}/demo.sh", r, 300)
        if not c.returncode:
            return f"{b['id']}: demo does not fail with the patch"
        why = c.stderr.strip().splitlines()[-1][:150] if c.stderr.strip() else "?"
        if tests:
            base = json.load(open("/opt/vp/BASELINE.json"))
            sk = " ".join(f"--ignore=tests/test_{m}.py" for m in "config countries countries_v1 freeze project_pipeline schema_countries skip_unreferenced".split())
            t = sh(f"PYTHONPATH={r} timeout 400 env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=100 --continue-on-collection-errors -W ignore::DeprecationWarning --basetemp={d}/t {sk} tests 2>&1 | tail -25", r)
            tail = t.stdout.strip().splitlines()[-1]
            if " 141 passed" not in tail:
                return f"{b['id']}: tests: {tail} :: " + " ".join(l[:90] for l in t.stdout.splitlines() if l.startswith("FAILED"))[:1500]
        return f"{b['id']}: ok ({why})"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    bugs = [b for b in bugs if not ids or b["id"] in ids]
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        for x in ex.map(lambda b: one(b, "--no-tests" not in sys.argv), bugs):
            print(x, flush=True)
