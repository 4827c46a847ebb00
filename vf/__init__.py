"""vf: deductive verifier for the Python of /repo (see core.py)"""
import sys
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)
