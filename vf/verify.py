"""verification units: obligations, structural equality, outcome bookkeeping"""
import copy
import ast, contextlib, importlib, sys, time, traceback, types, os, z3
from .core import *
from . import core
from .engine import Engine, Loop, VGen, dump, term_of, where
from .runtime import RT_, to_native
from . import instr

REPO = os.environ.get("VERIF_REPO", "/repo")
_finder = None


def load(repo=None):
    """install the instrumenting importer over the current tree"""
    global _finder
    if _finder is None:
        here = os.path.dirname(os.path.abspath(__file__))
        _finder = instr.Finder({"turms": repo or REPO, "vcspec": os.path.join(os.path.dirname(here))}, RT_)
        sys.meta_path.insert(0, _finder)
        for m in [m for m in sys.modules if m == "turms" or m.startswith("turms.")]:
            del sys.modules[m]


def resolve(target):
    mod, qn = target.split(":")
    o = importlib.import_module(mod)
    for p in qn.split("."):
        o = getattr(o, p)
    return o


class Outcome:
    def __init__(self, kind, value=None, exc=None):
        self.kind, self.value, self.exc = kind, value, exc

    @property
    def ok(self):
        return self.kind == "return"


UNITS = []


class Unit:
    def __init__(self, uid, target, props, fn, contracts, max_paths, why):
        self.uid, self.target, self.props, self.fn = uid, target, props, fn
        self.contracts, self.max_paths, self.why = contracts, max_paths, why


def unit(uid, target, props, contracts=(), max_paths=3000, why=""):
    def deco(fn):
        UNITS.append(Unit(uid, target, tuple(props), fn, tuple(contracts), max_paths, why))
        return fn

    return deco


CONTRACTS = {}  # "mod:qualname" -> (stub, description)


def contract(key, proved_by=None, note=""):
    def deco(fn):
        CONTRACTS[key] = (fn, proved_by, note)
        return fn

    return deco


class VC:
    """handed to a unit function, once per path"""

    def __init__(self, eng, unit):
        self.e, self.unit = eng, unit

    # inputs
    def new(self, d, name):
        return self.e.new(d, name)

    def obj(self, dom, name):
        return self.e.new_obj(dom, name)

    def assume(self, f):
        self.e.assume(zbool(f) if not z3.is_expr(f) else f)
        if not self.e.feasible():
            raise PathEnd()

    def flag(self, name):
        """symbolic bool input, decided on this path"""
        return self.e.fork(z3.Const(name, Bool_))

    def choice(self, name, *alts):
        return self.e.new(Enum_(*alts), name)

    def run(self, fn, *a, **k):
        try:
            return Outcome("return", fn(*a, **k))
        except Control:
            raise
        except RecursionError as ex:
            raise Unsupported("recursion limit")
        except Exception as ex:
            return Outcome("raise", exc=ex)

    def cover(self, label):
        if label not in self.e.covered and self.e.feasible():
            self.e.covered.add(label)

    # obligations
    def oblige(self, label, f, detail=""):
        e = self.e
        if isinstance(f, (bool, SymBool)):
            f = zbool(f)
        say = detail if callable(detail) else lambda: detail
        ob = e.obligations.setdefault(label, {"checks": 0, "discharged": 0, "refuted": [], "undecided": []})
        ob["checks"] += 1
        f = z3.simplify(f)
        if z3.is_true(f):
            ob["discharged"] += 1
            return True
        r = e.check(z3.Not(f))
        if r == z3.sat:
            # with what the negation says of all elements of a sequence
            with scope(e):
                e.assume(z3.Not(f))
                r = e.check()
                if r == z3.sat:
                    model = str(e.solver.model())[:800]
        if r == z3.unknown:
            r = cvc5_check(e.pc, z3.Not(f))
            e.stats["cvc5_calls"] += 1
        if r == z3.unsat:
            ob["discharged"] += 1
            return True
        if r == z3.sat or r == "sat":
            if e.imprecise:
                ob["undecided"].append(f"not provable with the loop abstraction: {e.imprecise[0]}; {say()}")
                return False
            info = {"detail": say(), "path": [str(p)[:160] for p in e.pc[-14:]]}
            info["model"] = model if r == z3.sat else ""
            ob["refuted"].append(info)
            return False
        ob["undecided"].append("solver unknown: " + say())
        return False

    def returns(self, out, label="no-exception"):
        if out.ok:
            ob = self.e.obligations.setdefault(label, {"checks": 0, "discharged": 0, "refuted": [], "undecided": []})
            ob["checks"] += 1
            ob["discharged"] += 1
            return True
        self.oblige(label, False, f"raises {type(out.exc).__name__}: {safe(out.exc)} {tbwhere(out.exc)}")
        return False

    def equal(self, label, a, b):
        return Eq(self, label).eq(a, b, "")

    def ok(self, label, cond, detail=""):
        return self.oblige(label, cond, detail)

    # ghost registry import coverage
    def covers(self, label, vset, item):
        """item is a member of the (grown) set"""
        if type(vset) is VSet:
            chunks = vset.chunks
        else:
            chunks = [E(x) for x in vset]
        fs = []
        for c in chunks:
            if type(c) is E and is_str(c.v):
                q = c.v == item
                if q is True:
                    return self.oblige(label, True)
                fs.append(zbool(q))
            elif type(c) is SymSeq:
                fs.append(MEMS(c.t, zstr(item)))
            elif type(c) is FlatMap:
                fs.append(self.e.some([c], lambda v: zbool(self.e.eq_values(v, item))))
        return self.oblige(label, z3.Or(*fs) if fs else False, lambda: f"{item!r} not registered; have {[repr(c)[:80] for c in chunks]}")


def scope(e):
    return e.scope()


def safe(x):
    try:
        return str(x)[:200]
    except BaseException:
        return "<symbolic message>"


def tbwhere(ex):
    tb = ex.__traceback__
    last = ""
    while tb is not None:
        last = f"({tb.tb_frame.f_code.co_filename}:{tb.tb_lineno})"
        tb = tb.tb_next
    return last


IGNORED = ("ctx", "lineno", "col_offset", "end_lineno", "end_col_offset", "type_comment", "simple", "kind")


class Eq:
    """structural equality; every leaf becomes an obligation"""

    def __init__(self, vc, label):
        self.vc, self.e, self.label = vc, vc.e, label

    def fail(self, path, why):
        self.vc.oblige(self.label, False, lambda: f"at {path or 'result'}: {why}")
        return False

    def eq(self, a, b, path):
        e = self.e
        ta, tb = type(a), type(b)
        if a is b:
            return self.vc.oblige(self.label, True)
        if isinstance(a, VGen):
            return self.eq(a.force(), b, path)
        if isinstance(b, VGen):
            return self.eq(a, b.force(), path)
        if ta is SymObj or tb is SymObj:
            r = a == b if ta is SymObj else b == a
            if not isinstance(r, (bool, SymBool)):
                r = False
            return self.vc.oblige(self.label, r, lambda: f"at {path or 'result'}: {short(a)} instead of {short(b)}")
        la = ta is VList or isinstance(a, (list, tuple)) or ta is SymSeq
        lb = tb is VList or isinstance(b, (list, tuple)) or tb is SymSeq
        if la and lb:
            return self.eq_lists(e.to_chunks(a), e.to_chunks(b), path)
        if la != lb:
            # AST optional list fields: None / [] are the same
            return self.fail(path, f"{short(a)} instead of {short(b)}")
        if isinstance(a, ast.AST) and isinstance(b, ast.AST):
            if ta is not tb:
                return self.fail(path, f"{short(a)} instead of {short(b)}")
            ok = True
            fs = [f for f in ta._fields if f not in IGNORED]
            for f in fs:
                x, y = a.__dict__.get(f), b.__dict__.get(f)
                if x is None and y is None:
                    continue
                if emptyish(x) and emptyish(y):
                    continue
                if x is None and tb is ast.Constant or y is None and tb is ast.Constant:
                    pass
                ok &= self.eq(x, y, f"{path}.{ta.__name__}.{f}")
            return ok
        if isinstance(a, ast.AST) or isinstance(b, ast.AST):
            if ta is OpaqueAst or tb is OpaqueAst:
                return self.fail(path, f"{short(a)} instead of {short(b)}")
            return self.fail(path, f"{short(a)} instead of {short(b)}")
        if issubclass(ta, VDict) or issubclass(tb, VDict) or isinstance(a, dict) and isinstance(b, dict):
            ea = list(a.entries) if issubclass(ta, VDict) else list(a.items())
            eb = list(b.entries) if issubclass(tb, VDict) else list(b.items())
            wrap = lambda es: [x if type(x) is FlatMap else E(tuple(x)) for x in es]
            return self.eq_lists(wrap(ea), wrap(eb), path + "{}")
        if ta is VSet and tb is VSet or {ta, tb} <= {VSet, set, frozenset} and VSet in (ta, tb):
            return self.eq_sets(a, b, path)
        if is_str(a) and is_str(b):
            return self.eq_str(a, b, path)
        try:
            r = a == b
        except Unsupported:
            raise
        if r is NotImplemented:
            r = False
        if isinstance(r, (bool, SymBool)):
            if r is True and isinstance(a, bool) != isinstance(b, bool) and not is_sym(a) and not is_sym(b):
                r = False
            return self.vc.oblige(self.label, r, lambda: f"at {path or 'result'}: {short(a)} instead of {short(b)}")
        return self.fail(path, f"{short(a)} instead of {short(b)}")

    def eq_sets(self, a, b, path):
        """the same elements: an arbitrary string is in both or in neither"""
        e = self.e
        A = a.chunks if type(a) is VSet else [E(x) for x in a]
        B = b.chunks if type(b) is VSet else [E(x) for x in b]
        if any(type(c) is not E for c in A + B) and self.trial(lambda q: q.eq_lists(A, B, path)):
            return True
        with scope(e):
            v = e.new(STR, "any")
            return self.vc.oblige(self.label, zbool(e.in_chunks(v, A)) == zbool(e.in_chunks(v, B)), lambda: f"at {path or 'result'}: {short(a)} instead of {short(b)}")

    def trial(self, compare):
        """whether this comparison, which is more than needed, can be discharged; leaves no trace if it cannot"""
        old = self.e.obligations
        self.e.obligations = copy.deepcopy(old)
        try:
            if compare(self):
                return True
        except Unsupported:
            pass
        self.e.obligations = old
        return False

    def eq_str(self, a, b, path):
        e = self.e
        joins = e.ghost.get("joins", {})
        if joins:
            pa, pb = strparts(a), strparts(b)
            ja = [p for p in pa if z3.is_expr(p) and p.get_id() in joins]
            jb = [p for p in pb if z3.is_expr(p) and p.get_id() in joins]
            if ja or jb:
                if len(pa) == len(pb) and len(ja) == len(jb):
                    ok = True
                    for x, y in zip(pa, pb):
                        jx = z3.is_expr(x) and x.get_id() in joins
                        jy = z3.is_expr(y) and y.get_id() in joins
                        if jx and jy:
                            _, s1, l1 = joins[x.get_id()]
                            _, s2, l2 = joins[y.get_id()]
                            ok &= self.eq(s1, s2, path + ".sep")
                            ok &= self.eq_lists(list(l1.chunks), list(l2.chunks), path + ".join")
                        elif jx != jy:
                            return self.fail(path, f"{short(a)} instead of {short(b)}")
                        else:
                            ok &= self.eq_str(mkstr([x]), mkstr([y]), path)
                    return ok
                return self.fail(path, f"{short(a)} instead of {short(b)}")
        return self.vc.oblige(self.label, zstr(a) == zstr(b), lambda: f"at {path or 'result'}: {short(a)} instead of {short(b)}")

    def norm(self, chunks):
        out = []
        for c in chunks:
            if type(c) is E:
                out.append(c)
                continue
            if type(c) is FlatMap and all(not ks for _, ks in c.cases):
                continue
            r = None
            if type(c) in (FlatMap, SymSeq):
                seq = c.seq if type(c) is FlatMap else c
                if self.e.entails(LEN(seq.t) == 0):
                    continue
                if type(c) is SymSeq and self.e.entails(LEN(seq.t) == 1):
                    out.append(E(self.e.draw(seq, self.e.index_elem(seq, 0))))
                    continue
                if type(c) is FlatMap and self.e.entails(LEN(seq.t) == 1):
                    x = self.e.index_elem(seq, 0)
                    self.e.draw(seq, x)
                    feas = [(cc, ks) for cc, ks in c.at(x) if self.e.check(cc) != z3.unsat]
                    for i, (cc, ks) in enumerate(feas):
                        if i == len(feas) - 1:
                            self.e.assume(cc)
                            out.extend(self.norm(ks))
                        elif self.e.fork(cc):
                            out.extend(self.norm(ks))
                            break
                    if feas:
                        continue
            out.append(c)
        return out

    def eq_lists(self, A, B, path):
        A, B = self.norm(A), self.norm(B)
        ok = True
        i = j = 0
        while i < len(A) or j < len(B):
            a = A[i] if i < len(A) else None
            b = B[j] if j < len(B) else None
            if type(a) is E and type(b) is E:
                ok &= self.eq(a.v, b.v, f"{path}[{i}]")
                i += 1
                j += 1
                continue
            oa, ob = type(a) in (FlatMap, SymSeq), type(b) in (FlatMap, SymSeq)
            if oa and ob and self.same_seq(a, b):
                ok &= self.eq_flat(a, b, f"{path}[{i}..]")
                i += 1
                j += 1
                continue
            if oa and self.always_empty(a):
                i += 1
                continue
            if ob and self.always_empty(b):
                j += 1
                continue
            if a is not None and not oa and type(a) is not E or b is not None and not ob and type(b) is not E:
                raise Unsupported("comparison of unknown chunk")
            if a is None:
                return self.fail(path, f"missing {short(b)}")
            if b is None:
                return self.fail(path, f"unexpected {short(a)}")
            return self.fail(f"{path}[{i}]", f"{short(a)} instead of {short(b)}")
        if ok and not A and not B:
            self.vc.oblige(self.label, True)
        return ok

    def same_seq(self, a, b):
        sa = a.seq if type(a) is FlatMap else a
        sb = b.seq if type(b) is FlatMap else b
        if sa.t.eq(sb.t):
            return True
        return self.e.entails(sa.t == sb.t)

    def always_empty(self, c):
        e = self.e
        seq = c.seq if type(c) is FlatMap else c
        if type(c) is SymSeq:
            return e.entails(LEN(seq.t) == 0)
        with scope(e):
            w = e.fresh(e.elem_sort(seq), "w")
            e.draw(seq, w)
            for cc, ks in c.at(w):
                if ks and e.check(cc) != z3.unsat:
                    # nested summaries may still be empty
                    if all(type(k) in (FlatMap, SymSeq) for k in ks):
                        with scope(e):
                            e.assume(cc)
                            if all(self.always_empty(k) for k in ks):
                                continue
                    return False
        return True

    def eq_flat(self, a, b, path):
        e = self.e
        if type(a) is SymSeq and type(b) is SymSeq:
            return self.vc.oblige(self.label, True)
        seq = a.seq if type(a) is FlatMap else a
        ok = True
        with scope(e):
            w = e.fresh(e.elem_sort(seq), "w")
            v = e.draw(seq, w)
            ca = a.at(w) if type(a) is FlatMap else [(z3.BoolVal(True), [E(v)])]
            cb = b.at(w) if type(b) is FlatMap else [(z3.BoolVal(True), [E(v)])]
            for c1, k1 in ca:
                with scope(e):
                    e.assume(c1)
                    e.member_facts(c1)
                    if not e.feasible():
                        continue
                    for c2, k2 in cb:
                        with scope(e):
                            e.assume(c2)
                            e.member_facts(c2)
                            if not e.feasible():
                                continue
                            ok &= self.eq_lists(k1, k2, path)
        return ok


def emptyish(x):
    return x is None or (type(x) in (list, tuple) and not x) or (type(x) is VList and not x.chunks)


def short(x):
    if isinstance(x, ast.AST):
        s = dump(x)
    elif type(x) is E:
        s = short(x.v)
    else:
        s = repr(x)
    return s if len(s) < 220 else s[:217] + "..."


def cvc5_check(pc, f):
    """second opinion for z3 unknowns"""
    try:
        import cvc5

        s = z3.Solver()
        for p in pc:
            s.add(p)
        s.add(f)
        text = s.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption("tlimit-per", "5000")
        slv.setOption("strings-exp", "true")
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            if "unsat" in str(o):
                return z3.unsat
            if "sat" in str(o).split():
                return "sat"
    except Exception:
        pass
    return z3.unknown


def run_unit(u, budget=120):
    """-> result dict"""
    t0 = time.time()
    res = {"unit": u.uid, "target": u.target, "status": "?", "paths": 0}
    eng = Engine(u.target)
    eng.max_paths = u.max_paths
    eng.deadline = t0 + budget
    try:
        fn = resolve(u.target) if u.target else None
    except (ImportError, AttributeError) as ex:
        res.update(status="undecided", undecided=[f"target not found: {ex}"], obligations={}, wall=0, solver=0, covered=[], contracts=[], inlined=[], externals=[])
        return res
    for c in u.contracts:
        eng.contracts[c.split("#")[0]] = CONTRACTS[c][0]  # "#variant": another consequence of the same proof

    def run(e):
        vc = VC(e, u)
        u.fn(vc, fn) if fn is not None else u.fn(vc)

    try:
        eng.explore(run)
    except Control as ex:
        eng.undecided.append(repr(ex))
    except Exception as ex:
        eng.undecided.append("engine: " + "".join(traceback.format_exception_only(type(ex), ex)).strip() + tbwhere(ex))
        if os.environ.get("VF_DEBUG"):
            traceback.print_exc()
    obs = eng.obligations
    refuted = {k: v["refuted"] for k, v in obs.items() if v["refuted"]}
    und = list(dict.fromkeys(eng.undecided)) + [f"{k}: {x}" for k, v in obs.items() for x in v["undecided"][:2]]
    if eng.stats["unknown"] and refuted:
        und.append(f"{eng.stats['unknown']} solver calls without an answer")
    if refuted and not und:
        st = "refuted"
    elif und:
        st = "undecided"
    elif not obs or not eng.covered:
        st = "undecided"
        und = ["vacuous: no obligation reached on a feasible path"]
    else:
        st = "proved"
    res.update(
        status=st,
        paths=eng.paths,
        obligations={k: {"checks": v["checks"], "discharged": v["discharged"]} for k, v in obs.items()},
        refuted=refuted,
        undecided=und[:6],
        wall=round(time.time() - t0, 2),
        solver=round(eng.solver_time, 2),
        solver_calls=eng.stats["solver_calls"],
        cvc5_calls=eng.stats["cvc5_calls"],
        covered=sorted(eng.covered),
        contracts=sorted(eng.contract_uses),
        inlined=sorted(eng.inlined),
        externals=sorted(eng.externals),
    )
    return res
