"""apply a textual mutation in a scratch copy of /repo and run verification units
   mut.py MODS PATTERN FILE OLD NEW"""
import os, shutil, subprocess, sys, tempfile
mods, pat, path, old, new = sys.argv[1:6]
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo/turms", d + "/turms")
    p = os.path.join(d, path)
    s = open(p).read()
    old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
    assert s.count(old) >= 1, "text not found"
    open(p, "w").write(s.replace(old, new, 1))
    r = subprocess.run(["/opt/venv/bin/python", "/verif/tools/vu.py", mods, pat], env=dict(os.environ, VERIF_REPO=d, PYTHONPATH=d), capture_output=True, text=True)
    print("\n".join(l[:260] for l in (r.stdout + r.stderr[-600:]).splitlines()))
finally:
    shutil.rmtree(d)
