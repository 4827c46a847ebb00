"""known findings: concrete cases committed under /verif/known, listed in known_findings.txt"""
import glob, json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def entries(pid):
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, "known", "*.json"))):
        with open(p) as f:
            x = json.load(f)
        if x["property"] == pid:
            out.append(x)
    return out


def match(pid, oracle, message, case):
    """is this exactly a listed case? (by its input, not by its message)"""
    key = lambda c: json.dumps(c, sort_keys=True, default=str)
    return any(key(x["case"]) == key(case) for x in entries(pid))


def report(pid):
    """replay each listed finding; a line for each that still fails"""
    from check import run_case

    for x in entries(pid):
        r = run_case(x["module"], None, x["check"], case=x["case"])
        if r[0] == "bad":
            yield f"KNOWN-FINDING: property={pid} {x['what']}"
