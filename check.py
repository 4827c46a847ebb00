#!/opt/venv/bin/python
"""decide one property on /repo's current tree

  check.py --property C01 [--tier quick|thorough] [--seed N] [--only proof|bounded]
  check.py --replay FILE
"""
import argparse, hashlib, json, os, signal, sys, time, traceback
import multiprocessing as mp
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or max(2, min(8, os.cpu_count() or 2))
CTX = mp.get_context("fork")


# ------------------------------------------------------------ process farm

def farm(tasks, fn, timeout, workers, stop=None):
    """run fn(task) in one forked process per task; yields (task, kind, result)"""
    todo = list(tasks)[::-1]
    live = {}

    def body(t, c):
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        try:
            r = ("ok", fn(t))
        except MemoryError:
            r = ("died", "out of memory")
        except BaseException as e:
            r = ("error", "".join(traceback.format_exception(e))[-1500:])
        try:
            c.send(r)
            c.close()
        finally:
            os._exit(0)

    while todo or live:
        while todo and len(live) < workers and not (stop and stop()):
            t = todo.pop()
            a, b = CTX.Pipe(False)
            p = CTX.Process(target=body, args=(t, b), daemon=True)
            p.start()
            b.close()
            live[a] = (t, p, time.time())
        if not live:
            break
        for c in wait(list(live), 0.5):
            t, p, t0 = live.pop(c)
            try:
                kind, r = c.recv()
            except (EOFError, OSError):
                kind, r = "died", "worker ended without a result"
            p.join(5)
            yield t, kind, r
        for c, (t, p, t0) in list(live.items()):
            if time.time() - t0 > timeout:
                p.kill()
                live.pop(c)
                yield t, "timeout", f"no result after {timeout} s"


# ------------------------------------------------------------ bounded part

def harness_error(tb):
    """is the exception raised by our own code?"""
    frames = traceback.extract_tb(tb)
    return bool(frames) and os.path.realpath(frames[-1].filename).startswith(os.path.join(HERE, "bounded"))


class Late(BaseException):
    pass


def resolve_all(t):
    from bounded.props import resolve
    import turms.run, turms.plugins.strawberry, turms.plugins.funcs, turms.plugins.objects, turms.plugins.input_funcs  # noqa: F401

    resolve(t[1], t[2])
    resolve(t[1], t[3])


def run_case(mod, case_fn, check_fn, seed=None, case=None, limit=90):
    """-> ("ok", n, case) | ("none",) | ("harness", text) | ("bad", message, case)"""
    import contextlib, io, logging, warnings
    from bounded import pipe
    from bounded.props import resolve

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)

    def late(*a):
        raise Late()

    signal.signal(signal.SIGALRM, late)
    sys.setrecursionlimit(3000)
    sink = io.StringIO()
    try:
        if case is None:
            try:
                case = resolve(mod, case_fn)(seed)
            except RuntimeError:
                return ("none",)
            except Exception as e:
                return ("harness", "case: " + "".join(traceback.format_exception(e))[-800:])
        signal.alarm(limit)
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            n = resolve(mod, check_fn)(case)
        signal.alarm(0)
        return ("ok", int(n or 0), case)
    except pipe.Bad as e:
        signal.alarm(0)
        return ("bad", str(e)[:1200], case)
    except Late:
        return ("bad", f"generation does not terminate within {limit} s", case)
    except Exception as e:
        signal.alarm(0)
        if harness_error(e.__traceback__):
            return ("harness", "".join(traceback.format_exception(e))[-1200:])
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return ("bad", f"{type(e).__name__}: {str(e)[:500]} (at {os.path.basename(tb.filename)}:{tb.name})", case)
    finally:
        signal.alarm(0)


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


def bounded_stage(pid, tier, seed, extra=1.0, budget=None, base=0):
    from bounded.props import PROPS
    from bounded import known

    out = {"checks": [], "evaluations": 0, "distinct": 0, "bad": [], "harness": [], "samples": [], "seen": set(), "deep": 0}
    t_end = time.time() + (budget or (150 if tier == "quick" else 700))
    tasks = []
    for name, mod, cf, chk, nq, nt in PROPS.get(pid, ()):
        n = max(1, int((nq if tier == "quick" else nt) * extra))
        chunk = max(1, min(25, n // (WORKERS * 2) or 1))
        start = seed * 1_000_003 + base
        for a in range(0, n, chunk):
            tasks.append((name, mod, cf, chk, start + a, start + min(n, a + chunk)))

    try:  # import once, before forking
        for t in tasks:
            resolve_all(t)
    except Exception:
        pass
    # interleave the oracles so that a time limit hits them all alike
    tasks.sort(key=lambda t: t[4])

    def work(t):
        name, mod, cf, chk, a, b = t
        res = []
        for s in range(a, b):
            if time.time() > t_end:
                break
            r = run_case(mod, cf, chk, seed=s)
            if r[0] == "ok":
                res.append((s, "ok", r[1], digest(r[2]), r[2] if s == a else None))
            elif r[0] == "bad":
                res.append((s, "bad", r[1], r[2], None))
            else:
                res.append((s, r[0], r[1] if len(r) > 1 else "", None, None))
        return res

    per = {}
    for t, kind, r in farm(tasks, work, 400, WORKERS, stop=lambda: time.time() > t_end or len(out["bad"]) >= 40):
        name, mod, cf, chk, a, b = t
        st = per.setdefault(name, {"name": name, "check": f"{mod}.{chk}", "cases": f"{cf}", "evaluated": 0, "comparisons": 0})
        if kind in ("died", "error", "timeout"):
            out["harness"].append(f"{name} seeds {a}..{b}: {kind} {r}")
            continue
        for s, k, x, y, smp in r:
            if k == "ok":
                out["evaluations"] += 1
                st["evaluated"] += 1
                st["comparisons"] += x
                if x > 0:
                    out["seen"].add(y)
                if smp is not None and len(out["samples"]) < 3:
                    out["samples"].append(json.loads(json.dumps(smp, default=str)[:2500].rsplit("}", 1)[0] + "}") if False else {"oracle": name, "seed": s, "case": json.dumps(smp, default=str)[:1500]})
            elif k == "bad":
                out["evaluations"] += 1
                if known.match(pid, name, x, y):
                    continue
                out["bad"].append({"kind": "bounded", "property": pid, "oracle": name, "module": mod, "check": chk, "seed": s, "message": x, "case": y})
            elif k == "harness":
                out["harness"].append(f"{name} seed {s}: {x}")
    out["checks"] = list(per.values())
    out["distinct"] = len(out.pop("seen"))
    return out


# ------------------------------------------------------------ proof part

def load_specs(pid=None):
    from vf import verify

    verify.load(REPO)
    import importlib

    errs = []
    d = os.path.join(HERE, "vcspec")
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
        if f.endswith(".py") and f != "__init__.py":
            try:
                importlib.import_module("vcspec." + f[:-3])
            except Exception as e:
                errs.append((f, "".join(traceback.format_exception(e))[-600:]))
    return verify, errs


def proof_stage(pid, tier, only=None):
    """in a child process, so that the instrumented modules stay away from the oracles"""
    a, b = CTX.Pipe(False)

    def body():
        try:
            os.setpgrp()
            b.send(_proofs(pid, tier, only))
        except BaseException as e:
            b.send({"units": [], "errors": ["".join(traceback.format_exception(e))[-1500:]]})
        b.close()
        os._exit(0)

    p = CTX.Process(target=body)
    p.start()
    b.close()
    try:
        r = a.recv()
    except (EOFError, OSError):
        r = {"units": [], "errors": ["proof process ended without a result"]}
    p.join(5)
    return r


def _proofs(pid, tier, only):
    t0 = time.time()
    verify, errs = load_specs(pid)
    units = [u for u in verify.UNITS if (pid is None or pid in u.props) and (only is None or u.uid == only)]
    budget = 250 if tier == "quick" else 500
    got = []
    t_end = t0 + (480 if tier == "quick" else 1500)

    def work(i):
        return verify.run_unit(units[i], budget=min(budget, max(5, t_end - time.time())))

    order = sorted(range(len(units)), key=lambda i: -units[i].max_paths)
    for i, kind, r in farm(order, work, budget + 30, WORKERS, stop=lambda: time.time() > t_end):
        u = units[i]
        order.remove(i)
        if kind != "ok":
            r = {"unit": u.uid, "target": u.target, "status": "undecided", "undecided": [f"{kind}: {r}"], "obligations": {}, "refuted": {}, "wall": 0, "solver": 0, "contracts": [], "inlined": [], "externals": [], "covered": [], "paths": 0}
        r["why"] = u.why
        got.append(json.loads(json.dumps(r, default=str)))
    for i in order:
        u = units[i]
        got.append({"unit": u.uid, "target": u.target, "status": "undecided", "undecided": ["not reached within the time limit"], "obligations": {}, "refuted": {}, "wall": 0, "solver": 0, "contracts": [], "inlined": [], "externals": [], "covered": [], "paths": 0, "why": u.why})
    got.sort(key=lambda r: r["unit"])
    desc = {}
    for r in got:
        for c in r.get("contracts", ()):
            if c in verify.CONTRACTS:
                by = verify.CONTRACTS[c][1]
                us = [u for u in verify.UNITS if by and (u.uid == by or u.uid.startswith(by + "["))]
                desc[c] = {"unit": by if us else None, "props": sorted({p for u in us for p in u.props}), "note": verify.CONTRACTS[c][2]}
    return {"units": got, "errors": [f"{f}: {e}" for f, e in errs], "contracts": desc, "wall": round(time.time() - t0, 1)}


# ------------------------------------------------------------ verdict

def replay_path(pid, obj):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    h = digest(obj)[:10]
    p = os.path.join(d, f"{pid}-{h}.json")
    with open(p, "w") as f:
        json.dump(obj, f, indent=1, default=str)
    return p


def check(pid, tier, seed, only=None):
    t0 = time.time()
    from bounded import known

    proof = {"units": [], "errors": []}
    if only != "bounded":
        proof = proof_stage(pid, tier)
    b = {"checks": [], "evaluations": 0, "distinct": 0, "bad": [], "harness": [], "samples": []}
    if only != "proof":
        b = bounded_stage(pid, tier, seed)
    refuted = [r for r in proof["units"] if r["status"] == "refuted"]
    undecided = [r for r in proof["units"] if r["status"] == "undecided"]
    if (refuted or undecided) and not b["bad"] and only != "proof":
        # look harder for a concrete failing input
        more = bounded_stage(pid, tier, seed, extra=4.0, budget=180, base=500_000)
        b["bad"] += more["bad"]
        b["evaluations"] += more["evaluations"]
        b["distinct"] += more["distinct"]
        b["harness"] += more["harness"]
    viol = []
    seen = set()
    for x in b["bad"]:
        k = (x["oracle"], x["message"][:60])
        if k in seen or len(viol) >= 5:
            continue
        seen.add(k)
        x["failed_obligations"] = {r["unit"]: list(r["refuted"]) for r in refuted}
        viol.append((replay_path(pid, x), x["message"].replace("\n", " ")[:300], ""))
    for r in refuted:
        if viol and any(not v[2] for v in viol):
            break
        o = {"kind": "proof", "property": pid, "unit": r["unit"], "target": r["target"], "failed_obligations": r["refuted"], "verifier": {k: r[k] for k in ("paths", "wall", "obligations", "undecided")}}
        viol.append((replay_path(pid, o), f"{r['unit']} ({r['target']}): {', '.join(r['refuted'])[:200]}", " no-failing-input-found"))
    for p, msg, tail in viol:
        print(f"  {msg}")
        print(f"VIOLATION property={pid} replay={p}{tail}")
    for line in known.report(pid):
        print(line)
    nob = sum(o["checks"] for r in proof["units"] for o in r["obligations"].values())
    nds = sum(o["discharged"] for r in proof["units"] for o in r["obligations"].values())
    named = sum(len(r["obligations"]) for r in proof["units"])
    trusted = ["vf (symbolic executor and its models of builtins and containers, see DESIGN.md)", "z3 and cvc5", "CPython's ast, compile and import machinery"]
    ext = sorted({e for r in proof["units"] for e in r.get("externals", ())})
    trusted += [f"executed as is on concrete values: {e}" for e in ext]
    assumed = []
    proved_contracts = []
    for c, d in sorted(proof.get("contracts", {}).items()):
        if d["unit"]:
            proved_contracts.append(f"{c}: discharged by unit {d['unit']}, run by the checks of {', '.join(d['props'])}")
        else:
            assumed.append(f"contract of a callee, assumed and not proved: {c}" + (f" ({d['note']})" if d["note"] else ""))
    level = levels().get(pid, "exploration")
    cov = {
        "obligations": nob, "discharged": nds, "named_obligations": named,
        "checker_cmd": f"/verif/check.py --property {pid} --tier {tier} --only proof",
        "trusted_base": trusted, "callee_contracts_proved_by_units": proved_contracts,
        "solver_s": round(sum(r.get("solver", 0) for r in proof["units"]), 2),
        "back_ends": {"z3": sum(r.get("solver_calls", 0) for r in proof["units"]), "cvc5": sum(r.get("cvc5_calls", 0) for r in proof["units"])},
        "units": [{k: r.get(k) for k in ("unit", "target", "status", "paths", "wall", "solver", "contracts", "inlined", "obligations", "undecided")} for r in proof["units"]],
        "proved_units": sum(r["status"] == "proved" for r in proof["units"]), "undecided_units": len(undecided), "refuted_units": len(refuted),
        "bounded": {"note": "bounded stand-in, never counted as proved", "oracles": b["checks"]},
        "evaluations": b["evaluations"], "distinct_nontrivial": b["distinct"],
        "rule": "seeded random schemas, documents and configurations (bounded/gen.py and the case function named in 'bounded'); a case is non-trivial if the oracle made at least one comparison on it, distinct by its text",
        "samples": b["samples"] or [{"note": "no bounded cases in this run"}],
        "harness_errors": b["harness"][:5], "harness_error_count": len(b["harness"]), "spec_errors": proof["errors"],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumed + ASSUME, "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} {tier}: {cov['proved_units']} units proved, {len(undecided)} undecided, {len(refuted)} refuted; {nds}/{nob} obligations; {b['evaluations']} bounded cases, {len(b['bad'])} bad, {len(b['harness'])} harness errors; {ev['wall_s']} s")
    for r in undecided:
        print(f"  undecided {r['unit']}: {str(r['undecided'][:1])[:220]}")
    for e in proof["errors"]:
        print("  spec error:", e[-300:])
    for e in b["harness"][:2]:
        print("  harness:", e[-300:])
    return 1 if viol else 0


ASSUME = [
    "GraphQL schemas and documents are those graphql-core accepts; the node and type domains of vf/domains.py describe the objects graphql-core 3.2 builds",
    "integers are mathematical, strings are Unicode sequences over z3's string theory, no MemoryError or signal interrupts the code",
    "configured plugins, stylers, parsers and processors outside turms are opaque functions",
]


def levels():
    try:
        with open(os.path.join(HERE, "MANIFEST.json")) as f:
            return {c["property"]: c["level"] for c in json.load(f)["checks"]}
    except (OSError, ValueError, KeyError):
        return {}


def replay(path):
    with open(path) as f:
        x = json.load(f)
    if x["kind"] == "bounded":
        r = run_case(x["module"], None, x["check"], case=x["case"])
        print(r[0], str(r[1])[:2000])
        return 1 if r[0] == "bad" else 0
    r = proof_stage(None, "thorough", only=x["unit"])
    print(json.dumps(r, indent=1)[:6000])
    return 1 if any(u["status"] == "refuted" for u in r["units"]) else 0


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    os.chdir(HERE)
    if a.replay:
        sys.exit(replay(a.replay))
    sys.exit(check(a.property, a.tier, a.seed, a.only))
