"""path exploration, solver access, loops, attributes, contracts"""
import re, sys, ast, enum, contextlib, time, types, keyword, inspect, collections
from .core import *
from . import core
import z3

SOLVER_MS = 4000


EXISTS = {}
LITERALS = {}


def literals(f, pos):
    """the "exists" predicates a formula decides, with their polarity"""
    r = LITERALS.get((f.get_id(), pos))
    if r is None:
        k = f.decl().kind()
        out = []
        if k == z3.Z3_OP_NOT:
            out = literals(f.arg(0), not pos)
        elif k == z3.Z3_OP_AND and pos or k == z3.Z3_OP_OR and not pos:
            for g in f.children():
                out = out + literals(g, pos)
        elif k == z3.Z3_OP_UNINTERPRETED and f.decl().name().startswith("exists:"):
            out = [(f, pos)]
        r = LITERALS[(f.get_id(), pos)] = (f, out)
    return r[1]


FRESH = re.compile(r"\w+!\d+")


def canon(c, depth=0):
    """the summary with its bound element renamed"""
    if type(c) is not FlatMap:
        return c
    x = z3.Const(f"B{depth}{c.x.sort()}", c.x.sort())
    return FlatMap(c.seq, x, [(conjuncts(z3.substitute(cc, (c.x, x))), [canon(subst(k, [(c.x, x)]), depth + 1) for k in ks]) for cc, ks in c.cases if ks])


def conjuncts(f):
    """the conjunction, each conjunct once"""
    out, todo = [], [f]
    while todo:
        g = todo.pop(0)
        if z3.is_and(g):
            todo = g.children() + todo
        elif not z3.is_true(g) and not any(g.eq(h) for h in out):
            out.append(g)
    return z3.And(*out) if len(out) > 1 else out[0] if out else z3.BoolVal(True)


NEGATIVES = {}


def negatives(f):
    """the "exists" predicates that occur under a negation only"""
    r = NEGATIVES.get(f.get_id())
    if r is None:
        pol, seen, todo = {}, set(), [(f, 1)]
        while todo:
            g, p = todo.pop()
            if (g.get_id(), p) in seen:
                continue
            seen.add((g.get_id(), p))
            k = g.decl().kind() if z3.is_app(g) else None
            if k == z3.Z3_OP_NOT:
                todo.append((g.arg(0), -p))
            elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                todo.extend((c, p) for c in g.children())
            elif k == z3.Z3_OP_IMPLIES:
                todo += [(g.arg(0), -p), (g.arg(1), p)]
            elif k == z3.Z3_OP_UNINTERPRETED and g.decl().name().startswith("exists:"):
                pol.setdefault(g.get_id(), (g, set()))[1].add(p)
            else:
                todo.extend((c, 0) for c in g.children())
        r = NEGATIVES[f.get_id()] = (f, [g for g, ps in pol.values() if ps == {-1}])
    return r[1]


MEMBERS = {}


def members(f):
    """the membership statements in a formula"""
    r = MEMBERS.get(f.get_id())
    if r is None:
        out, seen, todo = [], set(), [f]
        while todo:
            g = todo.pop()
            if g.get_id() in seen:
                continue
            seen.add(g.get_id())
            if z3.is_app(g) and g.decl().name() in ("mem_obj", "mem_str"):
                out.append((g.arg(0), g))
            todo.extend(g.children())
        r = MEMBERS[f.get_id()] = (f, out)
    return r[1]


def ANYTHING(v):
    return z3.BoolVal(True)


CONSTS = {}


def consts(t):
    """the uninterpreted constants in a term, in order of occurrence: {id: constant}"""
    i = t.get_id()
    r = CONSTS.get(i)
    if r is None:
        if z3.is_const(t):
            m = {i: t} if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else {}
        else:
            m = {}
            for c in t.children():
                m.update(consts(c))
        r = CONSTS[i] = (t, m)
    return r[1]


def fresh_consts(ts):
    out = {}
    for t in ts:
        out.update(consts(t))
    return [c for c in out.values() if "!" in c.decl().name() and not c.decl().name().startswith("exists:")]


def desc_terms(d):
    return [d.m.t] if isinstance(d, (MapItem, MapValue)) else []


class LoopFrame:
    def __init__(self, key, x, seq, pcmark, owner):
        self.key, self.x, self.seq, self.pcmark, self.owner = key, x, seq, pcmark, owner
        self.path = ENG().paths
        self.marks = {}
        self.dict_ops = {}
        self.cid0 = None
        self.havoc = {}


class Record:
    pass


class Engine:
    def __init__(self, unit=""):
        self.unit = unit
        self.stats = collections.Counter()
        self.solver_time = 0.0
        self.obligations = {}  # label -> dict(status, ...)
        self.undecided = []
        self.paths = 0
        self.bound_n = 0
        self.bound_of = {}
        self.exist = {}
        self.covered = set()
        self.contracts = {}
        self.contract_uses = collections.Counter()
        self.inlined = collections.Counter()
        self.externals = collections.Counter()
        self.loop_records = {}
        self.loop_escapes = {}
        self.loop_reads = collections.defaultdict(set)
        self.loop_writes = collections.defaultdict(set)
        self.escape_reads = collections.defaultdict(set)
        self.max_paths = 4000
        self.deadline = None
        self.refuted = []

    # ---------------------------------------------------------------- explore
    def explore(self, run):
        stack = [[]]
        core._cur.append(self)
        try:
            while stack:
                if self.paths >= self.max_paths:
                    self.undecided.append("path limit reached")
                    break
                if self.deadline and time.time() > self.deadline:
                    self.undecided.append("time limit reached")
                    break
                forced = stack.pop()
                self.begin(forced)
                try:
                    run(self)
                except PathEnd:
                    pass
                except Unsupported as e:
                    self.undecided.append(f"unsupported: {e} [{where(e)}]")
                finally:
                    self.solver.pop() if False else None
                self.paths += 1
                new = []
                for i in range(len(forced), len(self.trace)):
                    ch, alts = self.trace[i]
                    for a in reversed(alts):
                        new.append([t[0] for t in self.trace[:i]] + [a])
                # deepest position must be explored first
                stack.extend(new)
            for k in self.loop_writes:
                bad = self.loop_writes[k] & self.loop_reads.get(k, set())
                if bad:
                    self.undecided.append(f"loop {k[-1]} reads a container it also mutates")
                bad = self.loop_writes[k] & self.escape_reads.get(k, set())
                if bad:
                    self.undecided.append(f"container mutated by loop {k[-1]} read after early exit")
        finally:
            core._cur.pop()

    def begin(self, forced):
        self.forced, self.trace, self.pos = forced, [], 0
        self.over = False
        self.pc = []
        self.pcd = []
        self.deriving = False
        self.solver = z3.Solver()
        self.solver.set("timeout", SOLVER_MS)
        self.solver.set("random_seed", 7)
        self.loops = []
        self.escaped = []
        self.left = []
        self.firsts = []
        self.cid = 0
        self.fresh_n = 0
        self.freshes = {}
        self.known = {}
        self.overlay = []
        self.overlay_taint = set()
        self.univ = []
        self.asks = []
        self.elems = {}
        self.objcache = {}
        self.imprecise = []
        self.ghost = {}
        self.depth = 0
        self.decided = {}
        self.label_ctx = []

    # ---------------------------------------------------------------- solver
    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        if r == z3.unknown:
            self.solver.set("timeout", 10 * SOLVER_MS)
            r = self.solver.check(*extra)
            self.solver.set("timeout", SOLVER_MS)
            if r == z3.unknown:
                self.stats["unknown"] += 1
        self.solver_time += time.time() - t
        self.stats["solver_calls"] += 1
        return r

    def assume(self, f, kind="fact"):
        if isinstance(f, (bool, SymBool)):
            f = zbool(f)
        if z3.is_true(f):
            return
        self.pc.append(f)
        self.pcd.append(self.deriving)
        self.solver.add(f)
        if self.deriving:
            self.member_facts(f)
        self.expand(f, True)

    def member_facts(self, f):
        for t, m in members(f):
            k = ("memlen", m.get_id())
            if k not in self.known:
                self.known[k] = (m, t)
                self.assume(z3.Implies(m, LEN(t) > 0))

    def cond_since(self, mark):
        """the path condition from there on, without what was only derived from it"""
        fs = [f for f, d in zip(self.pc[mark:], self.pcd[mark:]) if not d]
        return z3.And(*fs) if fs else z3.BoolVal(True)

    # -- "some element of the sequence satisfies": a named predicate of the terms it depends on
    def exists(self, seq, x, t):
        if seq.t.decl().name() == "reversed":
            seq = SymSeq(seq.t.arg(0), seq.of, seq.kind)
        key = (seq.t.get_id(), repr(seq.of), x.get_id(), t.get_id())
        if key in self.exist:
            return self.exist[key][-1]
        t0, t = t, z3.simplify(t)
        if z3.is_false(t):
            return t
        p = self.one_point(seq, x, t)
        if p is not None:
            return p
        fc = [c for c in fresh_consts([t, seq.t] + desc_terms(seq.of)) if not c.eq(x)]
        ph = [(c, z3.Const(f"P{i}", c.sort())) for i, c in enumerate(fc)]
        xc = z3.Const("X" + str(x.sort()), x.sort())
        seq_c = subst(seq, ph) if ph else seq
        t_c = z3.substitute(t, *ph, (x, xc))
        name = "exists:" + repr(seq_c) + ":" + t_c.sexpr()
        EXISTS.setdefault(name, (seq_c, xc, t_c, [p for _, p in ph]))
        r = uf(name, *[c.sort() for c in fc], Bool_)(*fc) if fc else z3.Bool(name)
        self.exist[key] = (seq, x, t0, r)
        return r

    def one_point(self, seq, x, t):
        """some element equals v and satisfies the rest: v is an element and satisfies the rest"""
        cs = list(t.children()) if z3.is_and(t) else [t]
        for i, c in enumerate(cs):
            if not z3.is_eq(c):
                continue
            a, b = c.children()
            for v, w in ((a, b), (b, a)):
                if v.eq(x) and not mentions(w, x):
                    if isinstance(seq.of, (MapItem, MapValue)):
                        m = HASKEY(seq.of.m.t, w)
                    else:
                        m = (MEMS if x.sort() == Str_ else MEMO)(seq.t, w)
                        self.asked(seq.t, w, m)
                    return z3.And(m, *[z3.substitute(d, (x, w)) for j, d in enumerate(cs) if j != i])
        return None

    def asked(self, t, v, m):
        """whether v is an element has been asked: what holds of all elements may decide it"""
        k = ("asked", t.get_id(), v.get_id())
        if k in self.known:
            return
        self.known[k] = (t, v)
        self.asks.append((t, v, m))
        old, self.deriving = self.deriving, True
        for u, bx, f in self.univ:
            if u.eq(t):
                self.assume(z3.Implies(m, z3.substitute(f, (bx, v))))
        self.deriving = old

    def expand(self, f, pos):
        if EXISTS:
            lits = literals(f, pos)
            for g, p in lits:
                self.expand_literal(g, p)
            for g in negatives(f):
                if not any(g.eq(h) for h, _ in lits):
                    self.expand_guarded(f, g)

    def expand_guarded(self, f, g):
        """f says less the more often g holds: it holds with what any element gives for g"""
        key = ("guarded", f.get_id(), g.get_id())
        if key in self.known:
            return
        self.known[key] = (f, g)
        seq, x, t, ph = EXISTS[g.decl().name()]
        sub = list(zip(ph, g.children()))
        if sub:
            seq, t = subst(seq, sub), z3.substitute(t, *sub)
        self.bound_n += 1
        y = z3.Const(f"b!_{self.bound_n}", x.sort())
        member = HASKEY(seq.of.m.t, y) if isinstance(seq.of, (MapItem, MapValue)) else (MEMS if y.sort() == Str_ else MEMO)(seq.t, y)
        self.add_universal(seq, y, z3.substitute(f, (g, z3.And(member, z3.substitute(t, (x, y))))))

    def expand_literal(self, f, pos):
        key = ("expanded", f.get_id(), pos)
        if key in self.known:
            return
        self.known[key] = (f, None)
        seq, x, t, ph = EXISTS[f.decl().name()]
        sub = list(zip(ph, f.children()))
        if sub:
            seq, t = subst(seq, sub), z3.substitute(t, *sub)
        old, self.deriving = self.deriving, True
        try:
            if pos:
                w = self.fresh(self.elem_sort(seq), "w")
                self.draw(seq, w)
                self.assume(z3.substitute(t, (x, w)))
            else:
                self.add_universal(seq, x, z3.Not(t))
        finally:
            self.deriving = old

    def some(self, chunks, test):
        """formula: some element of the chunks satisfies test (element -> formula)"""
        fs = []
        for c in chunks:
            if type(c) is E:
                fs.append(test(c.v))
            elif type(c) is FlatMap:
                fs.append(self.exists(c.seq, c.x, z3.Or(*[z3.And(cc, self.some(ks, test)) for cc, ks in c.cases]) if c.cases else z3.BoolVal(False)))
            elif type(c) is SymSeq and test is ANYTHING:
                fs.append(LEN(c.t) > 0)
            elif type(c) is SymSeq and isinstance(c.of, DStr) and is_str(getattr(test, "member", None)):
                fs.append(MEMS(c.t, zstr(test.member)))
            else:
                raise Unsupported("quantification over an unknown chunk")
        return z3.Or(*fs) if len(fs) != 1 else fs[0]

    def fork(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        k = f.get_id()
        if k in self.decided and self.decided[k][0].eq(f):
            return self.decided[k][1]
        if self.pos < len(self.forced):
            c = self.forced[self.pos]
            self.trace.append((c, []))
            self.pos += 1
        else:
            t = self.check(f)
            if t == z3.unsat:
                c, alts = 0, []
            else:
                g = self.check(z3.Not(f))
                if g == z3.unsat:
                    c, alts = 1, []
                else:
                    c, alts = 1, [0]
                    if t == z3.unknown or g == z3.unknown:
                        self.stats["unknown_branch"] += 1
            self.trace.append((c, alts))
            self.pos += 1
        v = bool(c)
        self.assume(f if v else z3.Not(f))
        self.decided[k] = (f, v)
        return v

    def fork_some(self, f):
        if self.fork(f):
            if not self.feasible():
                raise PathEnd()
            return True
        if not self.feasible():
            raise PathEnd()
        return False

    def choose(self, n, label=""):
        """non-deterministic choice 0..n-1, explored in order"""
        if self.pos < len(self.forced):
            c = self.forced[self.pos]
            self.trace.append((c, []))
        else:
            c = 0
            self.trace.append((0, list(range(1, n))))
        self.pos += 1
        return c

    def entails(self, f):
        f = z3.simplify(f) if z3.is_expr(f) else z3.BoolVal(bool(f))
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.check(z3.Not(f)) == z3.unsat

    def feasible(self):
        return self.check() != z3.unsat

    def prefix_key(self, site):
        return tuple(t[0] for t in self.trace) + (site,)

    @contextlib.contextmanager
    def scope(self):
        self.solver.push()
        pcd, asks = list(self.pcd), list(self.asks)
        pc, known, univ, elems, decided = list(self.pc), dict(self.known), list(self.univ), {k: (t, list(x)) for k, (t, x) in self.elems.items()}, dict(self.decided)
        oc, firsts = dict(self.objcache), list(self.firsts)
        try:
            yield
        finally:
            self.solver.pop()
            self.pcd, self.asks, self.firsts = pcd, asks, firsts
            self.pc, self.known, self.univ, self.elems, self.decided, self.objcache = pc, known, univ, elems, decided, oc

    # ---------------------------------------------------------------- fresh
    def fresh(self, sort, name="k"):
        self.fresh_n += 1
        c = z3.Const(f"{name}!{self.fresh_n}", sort)
        self.freshes[f"{name}!{self.fresh_n}"] = c
        return c

    def named(self, text, sort, *args):
        """the term with this text: a function of the unknowns mentioned in it and of the arguments"""
        names = []
        for n in FRESH.findall(text):
            if n in self.freshes and n not in names:
                names.append(n)
        if not names and not args:
            return z3.Const(text, sort)
        for i, n in enumerate(names):
            text = re.sub(r"(?<![\w!])" + re.escape(n) + r"(?!\d)", f"<{i}>", text)
        cs = [self.freshes[n] for n in names] + list(args)
        return uf(text, *[c.sort() for c in cs], sort)(*cs)

    # ---------------------------------------------------------------- values
    def make(self, d, t):
        """value of descriptor d denoted by term t (sort must match)"""
        if isinstance(d, DStr):
            return mkstr([t])
        if isinstance(d, DBool):
            return mkbool(t)
        if isinstance(d, DInt):
            return mkint(t)
        if isinstance(d, (DAny, Fun)):
            return SymObj(t, "any") if isinstance(d, DAny) else SymFun(t, d)
        if isinstance(d, DAst):
            return OpaqueAst(t)
        if isinstance(d, Cls):
            return self.obj(t, d.name)
        if isinstance(d, Seq):
            self.fact_once(("len", t), LEN(t) >= 0)
            return self.wrap_seq(SymSeq(t, d.of, d.kind))
        if isinstance(d, Map):
            self.fact_once(("len", uf("keys", Obj, Obj)(t)), LEN(uf("keys", Obj, Obj)(t)) >= 0)
            return SymMap(t, d.of)
        raise Unsupported(f"descriptor {d}")

    def fact_once(self, key, f):
        k = (key[0],) + tuple(x.get_id() if z3.is_expr(x) else x for x in key[1:])
        if k in self.known:
            return
        self.known[k] = (f, key)
        self.given(f)

    def given(self, f):
        """holds of every value of its type: no condition a loop or a path is distinguished by"""
        old, self.deriving = self.deriving, True
        self.assume(f)
        self.deriving = old

    def wrap_seq(self, s):
        self.fact_once(("len", s.t), LEN(s.t) >= 0)
        return VList([s], s.kind)

    def sort_of(self, d):
        if isinstance(d, DStr):
            return Str_
        if isinstance(d, DBool):
            return Bool_
        if isinstance(d, DInt):
            return Int_
        return Obj

    def from_uf(self, name, d, args, sorts):
        if isinstance(d, Opt):
            nf = uf("isnone_" + name, *sorts, Bool_)(*args)
            if self.fork(nf):
                return None
            return self.from_uf(name, d.of, args, sorts)
        if isinstance(d, Enum_):
            tag = uf("enum_" + name, *sorts, Int_)(*args)
            n = len(d.members)
            self.fact_once(("enum", tag), z3.And(tag >= 0, tag < n))
            for i in range(n - 1):
                if self.fork(tag == i):
                    return d.members[i]
            return d.members[n - 1]
        t = uf("a_" + name + "_" + self.sort_of(d).name(), *sorts, self.sort_of(d))(*args)
        k = ("v", name, t.get_id())
        if k in self.objcache and not isinstance(d, (DStr, DBool, DInt)):
            return self.objcache[k][0]
        v = self.make(d, t)
        self.objcache[k] = (v, t)
        return v

    def obj(self, t, dom):
        o = SymObj(t, dom)
        dd = DOMAINS[dom]
        cl = dd["classes"]
        k = ("dom", t, dom)
        kk = (k[0], t.get_id(), dom)
        if kk not in self.known:
            self.known[kk] = (t, None)
            if len(cl) >= 1:
                self.given(z3.Or(*[TAG(t) == class_id(c) for c in cl]))
            if dd["inv"]:
                dd["inv"](self, o)
        return o

    def new_obj(self, dom, name):
        return self.obj(z3.Const(name, Obj), dom)

    def new(self, d, name):
        """fresh input value"""
        if isinstance(d, Opt):
            if self.fork(z3.Const("none_" + name, Bool_)):
                return None
            return self.new(d.of, name)
        if isinstance(d, Enum_):
            tag = z3.Const("enum_" + name, Int_)
            self.assume(z3.And(tag >= 0, tag < len(d.members)))
            for i in range(len(d.members) - 1):
                if self.fork(tag == i):
                    return d.members[i]
            return d.members[-1]
        return self.make(d, z3.Const(name, self.sort_of(d)))

    def concrete_class(self, o):
        cl = DOMAINS[o.dom]["classes"]
        if not cl:
            return SymObj
        for c in cl[:-1]:
            if self.fork(TAG(o.t) == class_id(c)):
                return c
        if len(cl) > 1:
            self.fork(TAG(o.t) == class_id(cl[-1]))
        return cl[-1]

    def isinstance_obj(self, o, cls):
        cl = DOMAINS[o.dom]["classes"]
        yes = [c for c in cl if issubclass(c, cls)]
        if not yes:
            return False
        if len(yes) == len(cl):
            return True
        return mkbool(z3.Or(*[TAG(o.t) == class_id(c) for c in yes]))

    def attr_desc(self, o, name):
        """descriptor of attribute, after resolving the class where needed; None if absent"""
        a = DOMAINS[o.dom]["attrs"]
        if name in a.get("*", {}):
            return a["*"][name]
        have = [c for c in DOMAINS[o.dom]["classes"] if name in a.get(c.__name__, {})]
        if not have:
            return None
        cl = DOMAINS[o.dom]["classes"]
        if len(have) < len(cl):
            if not self.fork(z3.Or(*[TAG(o.t) == class_id(c) for c in have])):
                return None
        ds = {}
        for c in have:
            ds.setdefault(repr(a[c.__name__][name]), []).append(c)
        if len(ds) == 1:
            return a[have[0].__name__][name]
        items = list(ds.items())
        for _, cs in items[:-1]:
            if self.fork(z3.Or(*[TAG(o.t) == class_id(c) for c in cs])):
                return a[cs[0].__name__][name]
        return a[items[-1][1][0].__name__][name]

    def attr(self, o, name):
        for t, n, v, dom in reversed(self.overlay):
            if n == name and dom == o.dom:
                if t.eq(o.t):
                    return v
                if self.entails(t == o.t):
                    return v
                if not self.entails(t != o.t):
                    raise Unsupported(f"possible alias on written attribute {name}")
        if (o.dom, name) in self.overlay_taint:
            raise Unsupported(f"attribute {name} was written in a loop")
        d = self.attr_desc(o, name)
        if d is None:
            meth = self.inline_method(o, name)
            if meth is not None:
                return meth
            raise AttributeError(f"{o.dom}.{name}")
        if callable(d) and not isinstance(d, D):
            return d(self, o)
        if isinstance(d, Fun):
            return SymFun(o.t, d, name)
        return self.from_uf(name, d, (o.t,), (Obj,))

    def inline_method(self, o, name):
        cl = DOMAINS[o.dom]["classes"]
        for c in cl:
            if c.__module__.startswith("turms."):
                f = inspect.getattr_static(c, name, None)
                if isinstance(f, types.FunctionType):
                    return types.MethodType(f, o)
                if isinstance(f, property) and f.fget:
                    return f.fget(o)
        return None

    def hasattr_obj(self, o, name):
        for t, n, v, dom in reversed(self.overlay):
            if n == name and t.eq(o.t):
                return True
        return self.attr_desc(o, name) is not None

    def setattr(self, o, name, value):
        if self.loops:
            for fr in self.loops:
                fr.dict_ops.setdefault("attrs", []).append((o, name, value))
        self.overlay.append((o.t, name, value, o.dom))
        self.ghost.setdefault("writes", []).append((o, name, value))

    def call_symobj(self, o, a, k):
        self.ghost.setdefault("calls", []).append((o, a, k))
        return None

    # ---------------------------------------------------------------- containers & loops
    def register_container(self, c):
        self.cid += 1
        c.cid = self.cid

    def is_outer(self, c):
        return bool(self.loops) and c.cid >= 0 and c.cid <= self.loops[-1].cid0

    def note_read(self, c):
        if c.cid < 0:
            return
        for fr in self.loops:
            if c.cid <= fr.cid0:
                self.loop_reads[fr.key].add(c.cid)
        for key, cid0 in self.escaped:
            if c.cid <= cid0:
                self.escape_reads[key].add(c.cid)

    def note_write(self, c):
        if c.cid < 0:
            raise Unsupported("mutation of a summarised value")
        for fr in self.loops:
            if c.cid <= fr.cid0 and c.cid not in fr.marks:
                fr.marks[c.cid] = (c, len(c.chunks) if hasattr(c, "chunks") else None)

    def loop_dict_op(self, d, op, k, v):
        self.note_write(d)
        fr = self.loops[-1]
        fr.dict_ops.setdefault(d.cid, []).append((op, k, v))

    def to_chunks(self, it):
        t = type(it)
        if t is VList:
            it.rd()
            return list(it.chunks)
        if t is SymSeq:
            return [it]
        if t is SymMap:
            return [it.keyseq()]
        if t is VDict:
            return it.keys().chunks
        if isinstance(it, VGen):
            return it.force().chunks
        if t is VSet:
            it.rd()
            if all(type(c) is E for c in it.chunks) and len(it.chunks) <= 1:
                return list(it.chunks)
            return [self.set_order(it)]
        if t in (SymStr, SymObj, SymSplit, SymSplitInit, Poison, VEnum):
            raise Unsupported(f"iteration over {t.__name__}")
        if isinstance(it, (set, frozenset)) and len(it) > 1:
            raise Unsupported("iteration over native set inside verified code")
        return [E(v) for v in it]

    def set_order(self, s):
        """arbitrary enumeration order of a set"""
        ident = self.set_ident(s)
        self.fresh_n += 1
        t = uf(f"enumeration!{self.fresh_n}", Obj, Obj)(ident)
        self.assume(LEN(t) == LEN(ident))
        self.known.setdefault(("orders", ident.get_id()), (ident, []))[1].append(t)
        return SymSeq(t, STR)

    def reverse_seq(self, seq):
        if seq.t.decl().name() == "reversed":
            return SymSeq(seq.t.arg(0), seq.of, "list")
        r = SymSeq(uf("reversed", Obj, Obj)(seq.t), seq.of, "list")
        self.fact_once(("len", LEN(r.t)), LEN(r.t) == LEN(seq.t))
        return r

    def reverse(self, chunks):
        out = []
        for c in reversed(chunks):
            if type(c) is SymSeq:
                c = self.reverse_seq(c)
            elif type(c) is FlatMap and type(c.seq) is SymSeq:
                c = FlatMap(self.reverse_seq(c.seq), c.x, [(cc, self.reverse(ks)) for cc, ks in c.cases])
            elif type(c) is not E:
                raise Unsupported("reversed")
            out.append(c)
        return out

    def same_members(self, t):
        """sequences that have the members of t, in another order"""
        while t.num_args() == 1 and t.decl().name().startswith(("sorted[", "enumeration!", "setof", "reversed")):
            t = t.arg(0)
            yield t
            for o in self.known.get(("orders", t.get_id()), (None, ()))[1]:
                yield o

    def set_ident(self, s):
        ch = [c for c in s.chunks]
        if len(ch) == 1 and type(ch[0]) is SymSeq:
            return uf("setof", Obj, Obj)(ch[0].t)
        return self.named("setof:" + repr([canon(c) for c in ch]), Obj)

    def draw(self, seq, x):
        """element value denoted by x of sequence seq (adds membership facts)"""
        old, self.deriving = self.deriving, True
        try:
            return self.drawn(seq, x)
        finally:
            self.deriving = old

    def drawn(self, seq, x):
        d = seq.of
        if isinstance(d, MapItem):
            self.assume(HASKEY(d.m.t, x))
            k = mkstr([x])
            v = PairElem((k, d.m.value(k)))
        elif isinstance(d, MapValue):
            self.assume(HASKEY(d.m.t, x))
            v = d.m.value(mkstr([x]))
        elif isinstance(d, DStr):
            self.assume(MEMS(seq.t, x))
            for t in self.same_members(seq.t):
                self.assume(MEMS(t, x))
                self.assume(LEN(t) > 0)
            v = mkstr([x])
        else:
            self.assume(MEMO(seq.t, x))
            for t in self.same_members(seq.t):
                self.assume(MEMO(t, x))
                self.assume(LEN(t) > 0)
            v = self.make(d, x)
            if d.__class__ is Cls and "elem_inv" in DOMAINS[d.name]:
                DOMAINS[d.name]["elem_inv"](self, seq, v)
        self.assume(LEN(seq.t) > 0)
        self.elems.setdefault(seq.t.get_id(), (seq.t, []))[1].append(x)
        for t, bx, f in list(self.univ):
            if t.eq(seq.t) or seq.t.decl().name() == "reversed" and t.eq(seq.t.arg(0)):
                self.assume(z3.substitute(f, (bx, x)))
        return v

    def elem_sort(self, seq):
        d = seq.of
        return Str_ if isinstance(d, (MapItem, MapValue, DStr)) else Obj

    def add_universal(self, seq, bx, f):
        self.univ.append((seq.t, bx, f))
        old, self.deriving = self.deriving, True
        for tid, (t, xs) in list(self.elems.items()):
            if t.eq(seq.t):
                for x in list(xs):
                    self.assume(z3.substitute(f, (bx, x)))
        for t, v, m in list(self.asks):
            if t.eq(seq.t):
                self.assume(z3.Implies(m, z3.substitute(f, (bx, v))))
        self.deriving = old

    def index_elem(self, seq, i):
        s = self.elem_sort(seq)
        return (ATS if s == Str_ else AT)(seq.t, z3.IntVal(i))

    def resolve_chunk(self, c):
        """concrete elements when the length of the chunk is determined"""
        seq = c.seq if type(c) is FlatMap else c
        if type(c) is FlatMap and all(not ks for _, ks in c.cases):
            return []
        if type(seq) is not SymSeq:
            return None
        k = ("len", seq.t.get_id())
        if self.entails(LEN(seq.t) == 0):
            return []
        if type(c) is SymSeq and self.entails(LEN(seq.t) == 1):
            return [self.draw(seq, self.index_elem(seq, 0))]
        return None

    def nonempty_f(self, chunks):
        fs = []
        for c in chunks:
            if type(c) is E:
                return z3.BoolVal(True)
            if type(c) is SymSeq:
                fs.append(LEN(c.t) > 0)
            elif type(c) is FlatMap:
                if all(any(type(k) is E for k in ks) for _, ks in c.cases) and c.cases:
                    fs.append(LEN(c.seq.t) > 0)
                elif all(not ks for _, ks in c.cases):
                    continue
                else:
                    return None
            else:
                return None
        return z3.Or(*fs) if fs else z3.BoolVal(False)

    def chunks_nonempty(self, chunks):
        f = self.nonempty_f(chunks)
        if f is not None:
            return self.fork(f)
        for c in chunks:
            if type(c) is E:
                return True
        for c in chunks:
            if type(c) is SymSeq:
                if self.fork(LEN(c.t) > 0):
                    return True
                continue
            if type(c) is not FlatMap:
                raise Unsupported("emptiness of chunk")
            if all(not ks for _, ks in c.cases):
                continue
            if self.fork_some(self.some([c], ANYTHING)):
                return True
        return False

    def chunks_len(self, chunks):
        n = 0
        for c in chunks:
            if type(c) is E:
                n = n + 1
            elif type(c) is SymSeq:
                n = mkint(LEN(c.t)) + n
            elif type(c) is FlatMap:
                ks = {len(k) if all(type(z) is E for z in k) else None for _, k in c.cases}
                if ks == {0}:
                    continue
                if len(ks) == 1 and None not in ks:
                    n = mkint(LEN(c.seq.t) * ks.pop()) + n
                else:
                    t = None
                    if all(len(k) <= 1 and all(type(z) is E for z in k) for _, k in c.cases):
                        t = self.emitting("len", c, lambda: self.named("len:" + repr(canon(c)), Int_))
                    else:
                        t = self.named("len:" + repr(canon(c)), Int_)
                    try:
                        self.assume(t >= 1 if self.chunks_nonempty([c]) else t == 0)
                    except Unsupported:
                        self.assume(t >= 0)
                        self.imprecise.append("length of a nested summary")
                    n = mkint(t) + n
            else:
                raise Unsupported("len")
        return n

    def set_len(self, chunks):
        """how many different members there are: at most as many as were added, none only if none was"""
        if len(chunks) == 1 and type(chunks[0]) is E:
            return 1
        n = self.named("setlen:" + repr([canon(c) for c in chunks]), Int_)
        total = self.chunks_len(chunks)
        self.assume(z3.And(n >= 0, n <= (total.t if type(total) is SymInt else total)))
        self.assume((n > 0) == self.chunks_nonempty(chunks))
        self.imprecise.append("number of different members")
        return mkint(n)

    def chunk_index(self, lst, i):
        if type(i) is SymInt:
            raise Unsupported("symbolic index")
        ch = lst.chunks
        order = ch if i >= 0 else list(reversed(ch))
        k = i if i >= 0 else -i - 1
        for n, c in enumerate(order):
            if type(c) is E:
                if k == 0:
                    return c.v
                k -= 1
                continue
            r = self.resolve_chunk(c)
            if r is not None:
                for v in r if i >= 0 else reversed(r):
                    if k == 0:
                        return v
                    k -= 1
                continue
            if type(c) is SymSeq:
                if self.fork(LEN(c.t) > k):
                    if i >= 0:
                        return self.draw(c, self.index_elem(c, k))
                    x = uf("at_end", Obj, Int_, self.elem_sort(c))(c.t, z3.IntVal(k))
                    return self.draw(c, x)
                if n == len(order) - 1:
                    raise IndexError("list index out of range")
                raise Unsupported("index past unknown-length chunk")
            if type(c) is FlatMap:
                if len(c.cases) and all(len(ks) == 1 and type(ks[0]) is E for _, ks in c.cases):
                    if self.fork(LEN(c.seq.t) > k):
                        e = self.index_elem(c.seq, k) if i >= 0 else uf("at_end", Obj, Int_, self.elem_sort(c.seq))(c.seq.t, z3.IntVal(k))
                        self.draw(c.seq, e)
                        inst = c.at(e)
                        for cc, ks in inst[:-1]:
                            if self.fork(cc):
                                return ks[0].v
                        self.fork(inst[-1][0])
                        return inst[-1][1][0].v
                    if n == len(order) - 1:
                        raise IndexError("list index out of range")
                if len(order) == 1 and k == 0:
                    # first/last element of a filtered sequence
                    if not self.chunks_nonempty([c]):
                        raise IndexError("list index out of range")
                    inst = None
                    kind = "first_of:" if i >= 0 else "last_of:"
                    w = self.emitting(kind, c, lambda: self.named(kind + repr(canon(c)), self.elem_sort(c.seq)))
                    self.draw(c.seq, w)
                    for cc, ks in c.at(w):
                        if len(ks) == 1 and type(ks[0]) is E:
                            if self.fork(cc):
                                return ks[0].v
                        elif ks:
                            raise Unsupported("index into summary")
                    raise PathEnd()
            raise Unsupported("index into unknown-length sequence")
        raise IndexError("list index out of range")

    def find_in_flatmap(self, fm, k):
        """lookup key k in a summarised dict comprehension: (value,) or None"""
        conds = []
        for c, ks in fm.cases:
            for kk in ks:
                if type(kk) is not E:
                    raise Unsupported("nested dict summary")
                key, val = kk.v
                conds.append((z3.And(c, zbool(eq_key(key, k))), val))
        if not conds:
            return None
        # injective identity key: key == bound element  -> substitute directly
        if len(conds) == 1 and len(fm.cases) == 1:
            key, val = fm.cases[0][1][0].v
            try:
                direct = type(key) is SymStr and key.z().eq(fm.x) and z3.is_true(fm.cases[0][0])
            except Unsupported:
                direct = False
            if direct:
                member = (
                    HASKEY(fm.seq.of.m.t, zstr(k))
                    if isinstance(fm.seq.of, (MapItem, MapValue))
                    else MEMS(fm.seq.t, zstr(k))
                )
                if self.fork(member):
                    return (subst(val, [(fm.x, zstr(k))]),)
                return None
        anyc = z3.Or(*[c for c, _ in conds])
        if self.fork_some(self.exists(fm.seq, fm.x, anyc)):
            if is_str(k):  # the element found is a function of the key
                w = self.named(self.emitting("lookup:", fm, lambda: "lookup:" + repr(canon(fm))), self.elem_sort(fm.seq), zstr(k))
            else:
                w = self.fresh(self.elem_sort(fm.seq), "w")
            self.draw(fm.seq, w)
            for i, (c, v) in enumerate(conds):
                cw = z3.substitute(c, (fm.x, w))
                if i == len(conds) - 1:
                    self.assume(cw)
                    if not self.feasible():
                        raise PathEnd()
                    return (subst(v, [(fm.x, w)]),)
                if self.fork(cw):
                    return (subst(v, [(fm.x, w)]),)
        return None

    def emitting(self, kind, c, make):
        """a term that depends only on which elements let a value through"""
        for k, d, t in self.firsts:
            if k == kind and d.seq.t.eq(c.seq.t) and d.x.sort() == c.x.sort() and self.same_filter(c, d, kind == "lookup:"):
                return t
        t = make()
        self.firsts.append((kind, c, t))
        return t

    def same_filter(self, a, b, keys=False):
        with self.scope():
            w = self.fresh(self.elem_sort(a.seq), "w")
            self.draw(a.seq, w)
            for f, ks in a.at(w):
                for g, js in b.at(w):
                    if bool(ks) == bool(js) and not (keys and ks):
                        continue
                    with self.scope():
                        self.assume(f)
                        self.assume(g)
                        if keys and ks and js:
                            if len(ks) != 1 or len(js) != 1 or type(ks[0]) is not E or type(js[0]) is not E:
                                return False
                            self.assume(z3.Not(zbool(eq_key(ks[0].v[0], js[0].v[0]))))
                        if self.feasible():
                            return False
        return True

    # -- membership
    def in_chunks(self, v, chunks):
        fs = []
        for c in chunks:
            if type(c) is E:
                try:
                    e = self.eq_values(c.v, v)
                except Unsupported:
                    raise
                if e is True:
                    return True
                fs.append(zbool(e))
            elif type(c) is SymSeq:
                if is_str(v) and isinstance(c.of, (DStr,)):
                    fs.append(MEMS(c.t, zstr(v)))
                    self.asked(c.t, zstr(v), fs[-1])
                    if isinstance(v, str) or True:
                        self.fact_once(("memlen", c.t, zstr(v)), z3.Implies(MEMS(c.t, zstr(v)), LEN(c.t) > 0))
                elif is_str(v) and isinstance(c.of, MapItem):
                    fs.append(z3.BoolVal(False))
                elif type(v) is SymObj:
                    fs.append(MEMO(c.t, v.t))
                    self.asked(c.t, v.t, fs[-1])
                elif v is None and not isinstance(c.of, (Opt, DAny)):
                    fs.append(z3.BoolVal(False))
                elif issubclass(type(v), enum.Enum) and isinstance(c.of, Enum_):
                    fs.append(uf("mem_enum", Obj, Int_, Bool_)(c.t, z3.IntVal(list(c.of.members).index(v))))
                else:
                    raise Unsupported("membership test")
            elif type(c) is FlatMap:
                test = lambda e: zbool(self.eq_values(e, v))
                test.member = v
                fs.append(self.some([c], test))
            else:
                raise Unsupported("membership")
        return mkbool(z3.Or(*fs)) if fs else False

    def eq_values(self, a, b):
        if is_str(a) and is_str(b):
            return a == b
        r = a == b
        if r is NotImplemented:
            return False
        return r

    def eq_strparts(self, a, b):
        if len(a) != len(b):
            raise Unsupported("join comparison")
        fs = []
        for x, y in zip(a, b):
            jx, jy = isinstance(x, Join), isinstance(y, Join)
            if jx != jy:
                raise Unsupported("join comparison")
            if jx:
                raise Unsupported("join comparison")
            fs.append((z3.StringVal(x) if isinstance(x, str) else x) == (z3.StringVal(y) if isinstance(y, str) else y))
        return z3.And(*fs)

    # -- loops
    def loop(self, it, site, locs=None, names=()):
        return Loop(self, it, site, locs or {}, names)

    def sorted_(self, it, key=None, reverse=False):
        ch = self.to_chunks(it) if type(it) is not VSet else it.chunks
        if all(type(c) is E for c in ch):
            vals = [c.v for c in ch]
            if len(vals) <= 1 and type(it) is not VSet:
                return VList(ch)
            if not has_sym(vals) and (key is None or isinstance(key, types.BuiltinFunctionType)):
                return VList([E(v) for v in sorted(set(vals) if type(it) is VSet else vals, key=key, reverse=reverse)])
        kid = "" if key is None else z3key(key)
        nm = f"sorted[{kid}{'r' if reverse else ''}]"
        if type(it) is VSet:
            t = uf(nm, Obj, Obj)(self.set_ident(it))
            return self.wrap_seq(SymSeq(t, STR))
        if len(ch) == 1 and type(ch[0]) is SymSeq:
            c = ch[0]
            base = c.t
            # sorting removes dependence on the enumeration order
            if base.decl().name().startswith("enumeration!"):
                base = base.arg(0)
            r = SymSeq(uf(nm, Obj, Obj)(base), c.of, "list")
            self.fact_once(("len", LEN(r.t)), LEN(r.t) == LEN(c.t))
            return self.wrap_seq(r)
        if len(ch) == 1 and type(ch[0]) is FlatMap and key is None and type(ch[0].seq) is SymSeq and self.picks(ch[0]):
            # sorting what a filter lets through is filtering what is sorted
            c = ch[0]
            base = c.seq.t.arg(0) if c.seq.t.decl().name().startswith("enumeration!") else c.seq.t
            r = SymSeq(uf(nm, Obj, Obj)(base), c.seq.of, "list")
            self.assume(LEN(r.t) == LEN(c.seq.t))
            return VList([FlatMap(r, c.x, c.cases)])
        t = self.named(f"{nm}:{[canon(c) for c in ch]!r}", Obj)
        return self.wrap_seq(SymSeq(t, STR))

    def picks(self, c):
        """does the summary only leave elements out?"""
        return isinstance(c.seq.of, DStr) and all(not ks or len(ks) == 1 and type(ks[0]) is E and is_str(ks[0].v) and zstr(ks[0].v).eq(c.x) for _, ks in c.cases)

    def new_list(self, vals):
        return VList([E(v) for v in vals])


def z3key(f):
    c = getattr(f, "__code__", None)
    return repr((c.co_code, c.co_consts, c.co_names)) if c else repr(f)


class SymFun:
    """pure method/function attribute of a symbolic object"""

    def __init__(self, t, d, name=None):
        self.t, self.d, self.name = t, d, name or d.name

    def __call__(self, *a, **k):
        e = ENG()
        args, sorts = [self.t], [Obj]
        for v in list(a) + [k[n] for n in sorted(k)]:
            t, s = term_of(v)
            args.append(t)
            sorts.append(s)
        if not self.d.pure:
            e.ghost.setdefault("calls", []).append((self.name, self.t, a, k))
        return e.from_uf("call_" + (self.name or "f"), self.d.result, tuple(args), tuple(sorts))


def term_of(v):
    """z3 term + sort for a value used as an argument of an uninterpreted function"""
    if type(v) is SymObj or type(v) is OpaqueAst:
        return v.t, Obj
    if is_str(v):
        return zstr(v), Str_
    if issubclass(type(v), (bool, SymBool)):
        return zbool(v), Bool_
    if issubclass(type(v), int):
        return z3.IntVal(v), Int_
    if type(v) is SymInt:
        return v.t, Int_
    if v is None:
        return z3.Const("None", Obj), Obj
    if type(v) is SymMap and v.over:
        raise Unsupported("written mapping as an argument of an uninterpreted function")
    if type(v) in (SymSeq, SymMap):
        return v.t, Obj
    if type(v) is VList and len(v.chunks) == 1 and type(v.chunks[0]) is SymSeq:
        return v.chunks[0].t, Obj
    if type(v) in (VList, VSet):
        return ENG().named("lst:" + repr([canon(c) for c in v.chunks]), Obj), Obj
    if type(v) is VDict:
        return ENG().named("dct:" + repr(v.entries), Obj), Obj
    if issubclass(type(v), enum.Enum):
        return z3.Const("enum:" + str(v), Obj), Obj
    if issubclass(type(v), ast.AST):
        return ENG().named("ast:" + dump(v), Obj), Obj
    if issubclass(type(v), Opaque):
        return z3.Const("opaque:" + v.name, Obj), Obj
    if issubclass(type(v), (list, tuple, dict)) and not has_sym(v):
        return ENG().named("py:" + repr(v), Obj), Obj
    if issubclass(type(v), (type, types.FunctionType, types.ModuleType)):
        return z3.Const("py:" + repr(getattr(v, "__qualname__", v)), Obj), Obj
    if hasattr(v, "vc_term"):
        return v.vc_term(), Obj
    raise Unsupported(f"argument of type {type(v).__name__} to an uninterpreted function")


def dump(v):
    """structural text of an AST/value with symbolic leaves"""
    if issubclass(type(v), ast.AST):
        return (
            v.__class__.__name__
            + "("
            + ",".join(
                f"{f}={dump(x)}"
                for f, x in sorted(v.__dict__.items())
                if f not in ("ctx", "lineno", "col_offset", "end_lineno", "end_col_offset")
            )
            + ")"
        )
    if type(v) is VList:
        return repr([dump(c.v) if type(c) is E else repr(c) for c in v.chunks])
    if issubclass(type(v), (list, tuple)):
        return repr([dump(x) for x in v])
    return repr(v)


PRE = Opaque("loop-prefix")


def mentions(t, x):
    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return x.get_id() in consts(t)
    seen, todo = set(), [t]
    while todo:
        y = todo.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.eq(x):
            return True
        todo.extend(y.children())
    return False


class Loop:
    def __init__(self, eng, it, site, locs, names):
        self.eng, self.site, self.names = eng, site, names
        self.pending = {}
        self.it = it
        self.native = None
        if type(it) not in SYM_SET and type(it) is not VGen and not (isinstance(it, (list, tuple)) and False):
            if not isinstance(it, (set, frozenset)):
                self.native = it

    # used by the instrumented code
    def has(self, n):
        return n in self.pending

    def get(self, n):
        return self.pending[n]

    @property
    def sym(self):
        return bool(self.pending)

    def __iter__(self):
        if self.native is not None:
            return iter(self.native)
        return self.gen()

    def gen(self):
        fr = sys._getframe(1)
        if type(self.it) is VEnum:
            pos, known = self.it.start, True
            for ci, c in enumerate(self.eng.to_chunks(self.it.it)):
                known = known and type(c) is E
                part = self.chunk(c, f"{self.site}#{ci}", fr)
                try:
                    for v in part:
                        yield (pos if known else Poison("position in a sequence of unknown length"), v)
                finally:
                    part.close()
                pos += 1
            return
        for ci, c in enumerate(self.eng.to_chunks(self.it)):
            yield from self.chunk(c, f"{self.site}#{ci}", fr)

    def now(self, fr):
        """the loop's variables: those the exit of an earlier loop decided are not in the frame yet"""
        locs = fr.f_locals
        return {n: self.pending[n] if n in self.pending else locs[n] for n in self.names if n in self.pending or n in locs}

    def chunk(self, c, site, fr):
        eng = self.eng
        if type(c) is E:
            yield c.v
            self.pending = {}
            return
        r = eng.resolve_chunk(c)
        if r is not None:
            for v in r:
                yield v
                self.pending = {}
            return
        if isinstance(c, Opaque):
            raise Unsupported("iteration over havocked list")
        key = eng.prefix_key(site)
        entry = self.now(fr)
        seq = c.seq if type(c) is FlatMap else c
        if eng.choose(2, "loop") == 0:
            x = eng.fresh(eng.elem_sort(seq), "x")
            frame = LoopFrame(key, x, seq, len(eng.pc), self)
            frame.cid0 = eng.cid
            frame.fresh0 = eng.fresh_n
            eng.loops.append(frame)
            base = eng.draw(seq, x)
            if not eng.feasible():
                eng.loops.pop()
                raise PathEnd()
            if type(c) is FlatMap:
                cases = c.at(x)
                for i, (cc, ks) in enumerate(cases):
                    if i == len(cases) - 1:
                        eng.assume(cc)
                        if not eng.feasible():
                            eng.loops.pop()
                            raise PathEnd()
                        break
                    if eng.fork(cc):
                        break
            else:
                ks = [E(base)]
            hav = {}
            for n, v in entry.items():
                hav[n] = self.havoc(n, v, frame)
            frame.havoc = hav
            self.pending = dict(hav)
            try:
                for i, k in enumerate(ks):
                    yield from self.chunk(k, f"{site}.{i}", fr)
            except GeneratorExit:
                # break / return / exception inside the arbitrary iteration
                eng.loop_exit_early(frame)
                raise
            self.finish(frame, self.now(fr), hav)
            raise PathEnd()
        # exit: everything processed
        self.pending = entry
        self.apply_exit(key, c, seq, entry)

    def havoc(self, n, v, frame):
        eng = self.eng
        if issubclass(type(v), (bool, SymBool)):
            return SymBool(eng.fresh(Bool_, "hv_" + n))
        if issubclass(type(v), (int, SymInt)):
            return SymInt(eng.fresh(Int_, "hv_" + n))
        if is_str(v):
            return SymStr([eng.fresh(Str_, "hv_" + n)])
        if type(v) is VList:
            h = VList([PRE], v.kind)
            frame.cid0 = max(frame.cid0, 0)
            return h
        if type(v) is SymObj:
            return eng.obj(eng.fresh(Obj, "hv_" + n), v.dom)
        return Poison(n)

    def finish(self, frame, ends, hav):
        eng = self.eng
        eng.loops.pop()
        rec = Record()
        rec.x = frame.x
        rec.cond = eng.cond_since(frame.pcmark)
        rec.deltas = {}
        for cid, (cont, mark) in frame.marks.items():
            eng.loop_writes[frame.key].add(cid)
            if mark is not None:
                rec.deltas[cid] = cont.chunks[mark:]
            elif type(cont) is VDict and cid not in frame.dict_ops:
                raise Unsupported("dict mutation in summarised loop")
        rec.dict_ops = {k: v for k, v in frame.dict_ops.items() if k != "attrs"}
        rec.attrs = frame.dict_ops.get("attrs", [])
        rec.ends = ends
        rec.hav = hav
        rec.fresh0 = frame.fresh0
        # propagate container writes to enclosing loops
        for fr in eng.loops:
            pass
        eng.loop_records.setdefault(frame.key, []).append(rec)

    def apply_exit(self, key, c, seq, entry):
        eng = self.eng
        recs = eng.loop_records.get(key, [])
        escs = eng.loop_escapes.get(key, [])
        for x, cond, fresh0, ok in escs:
            if ok:
                eng.assume(z3.Not(eng.exists(seq, x, cond)))
            else:
                eng.imprecise.append("early-exit condition not universally negated")
        if not eng.feasible():
            raise PathEnd()
        if not recs:
            # no iteration completes: the sequence is empty
            eng.assume(LEN(seq.t) == 0)
            if not eng.feasible():
                raise PathEnd()
            return
        if key not in eng.bound_of:
            eng.bound_n += 1
            eng.bound_of[key] = z3.Const(f"b!_{eng.bound_n}", recs[0].x.sort())  # never the name of an unknown
        X = eng.bound_of[key]

        def norm(v, rec):
            return subst(v, [(rec.x, X)])

        if any(r.attrs for r in recs):
            for r in recs:
                for o, n, v in r.attrs:
                    o2 = norm(o, r)
                    if not mentions(o2.t, X):
                        raise Unsupported("attribute of an object outside the loop written in the loop")
                    eng.ghost.setdefault("loop_writes", []).append((seq, X, norm(r.cond, r), o2, n, norm(v, r)))
                    eng.overlay_taint.add((o.dom, n))
        cids = set()
        for r in recs:
            cids |= set(r.deltas) | set(r.dict_ops)
        conts = {c.cid: c for c in self.live_containers(cids)}
        for cid in sorted(cids):
            cont = conts.get(cid)
            if cont is None:
                continue
            if type(cont) is VDict:
                setc, addc = [], []
                for r in recs:
                    s, a = [], []
                    for op, k, v in r.dict_ops.get(cid, []):
                        if op == "mchunk":
                            a.append(norm(v, r))
                        elif op == "set":
                            s.append(E((norm(k, r), norm(v, r))))
                        else:
                            a.append(E(SymRecord("kv", norm(k, r), [norm(z, r) for z in v])))
                    setc.append((norm(r.cond, r), s))
                    addc.append((norm(r.cond, r), a))
                eng.note_write(cont)
                nested = eng.loops and cont.cid <= eng.loops[-1].cid0
                if any(s for _, s in setc):
                    if nested:
                        raise Unsupported("dict filled by nested loops")
                    cont.entries.append(FlatMap(seq, X, setc))
                if any(a for _, a in addc):
                    if nested:
                        eng.loops[-1].dict_ops.setdefault(cid, []).append(("mchunk", None, FlatMap(seq, X, addc)))
                    else:
                        cont.multi.append(FlatMap(seq, X, addc))
            else:
                cases = [(norm(r.cond, r), [norm(z, r) for z in r.deltas.get(cid, [])]) for r in recs]
                if any(ks for _, ks in cases):
                    eng.note_write(cont)
                    cont.chunks.append(FlatMap(seq, X, cases))
        out = {}
        for n, v0 in entry.items():
            vals = [(r, r.ends.get(n), r.hav.get(n)) for r in recs]
            if all(e is h for _, e, h in vals):
                h = vals[0][2]
                if type(h) is VList:
                    cases = [(norm(r.cond, r), [norm(z, r) for z in h2.chunks[1:]]) for r, _, h2 in vals]
                    if any(ks for _, ks in cases):
                        eng.note_write(v0)
                        v0.chunks.append(FlatMap(seq, X, cases))
                out[n] = v0
                continue
            if type(vals[0][2]) is VList and all(
                type(e) is VList and e.chunks and e.chunks[0] is PRE for _, e, h in vals
            ):
                cases = [(norm(r.cond, r), [norm(z, r) for z in e.chunks[1:]]) for r, e, _ in vals]
                out[n] = VList(v0.chunks + [FlatMap(seq, X, cases)], v0.kind)
                continue
            if type(vals[0][2]) is VList and type(seq) is SymSeq and all(type(e) is VList and e.chunks and e.chunks[-1] is PRE for _, e, h in vals):
                # every iteration prepends
                cases = [(norm(r.cond, r), [norm(z, r) for z in e.chunks[:-1]]) for r, e, _ in vals]
                out[n] = VList([FlatMap(eng.reverse_seq(seq), X, cases)] + v0.chunks, v0.kind)
                continue
            if isinstance(v0, (bool, SymBool)) and all(isinstance(e, (bool, SymBool)) for _, e, _ in vals):
                out[n] = self.fold_bool(seq, X, v0, vals, norm)
                continue
            if is_str(v0) and all(is_str(e) for _, e, _ in vals):
                out[n] = self.fold_str(seq, X, v0, vals, norm)
                continue
            if type(v0) is SymObj and len(vals) == 1 and type(vals[0][1]) is SymObj and vals[0][1].dom == v0.dom:
                out[n] = self.fold_obj(seq, v0, *vals[0])
                continue
            if isinstance(v0, (int, SymInt)) and all(isinstance(e, (int, SymInt)) for _, e, _ in vals):
                eng.imprecise.append(f"loop counter {n}")
                out[n] = SymInt(eng.fresh(Int_, "ex_" + n))
                continue
            out[n] = Poison(n)
        self.pending = {**entry, **out}

    def fold_bool(self, seq, X, v0, vals, norm):
        eng = self.eng
        tru, fal = [], []
        kind = None
        for r, e, h in vals:
            ef = zbool(e)
            hf = h.f
            w0 = z3.simplify(z3.substitute(ef, (hf, z3.BoolVal(False))))
            w1 = z3.simplify(z3.substitute(ef, (hf, z3.BoolVal(True))))
            tru.append(z3.And(norm(r.cond, r), norm(w0, r)))  # becomes true from false
            fal.append(z3.And(norm(r.cond, r), z3.Not(norm(w1, r))))  # becomes false from true
        t = z3.simplify(z3.Or(*tru))
        f = z3.simplify(z3.Or(*fal))
        if z3.is_false(f):  # monotone or
            if eng.fork(zbool(v0)):
                return True
            return eng.fork_some(eng.exists(seq, X, t))
        if z3.is_false(t):  # monotone and
            if not eng.fork(zbool(v0)):
                return False
            return not eng.fork_some(eng.exists(seq, X, f))
        eng.imprecise.append("loop flag")
        return SymBool(eng.fresh(Bool_, "ex"))

    def fold_str(self, seq, X, v0, vals, norm):
        eng = self.eng
        if len(vals) == 1:
            r, e, h = vals[0]
            acc, xc = z3.Const("ACC", Str_), z3.Const("X", X.sort())
            body = z3.substitute(zstr(e), (h.z(), acc), (r.x, xc))
            return SymStr([uf("fold:" + body.sexpr(), Obj, Str_, Str_)(seq.t, zstr(v0))])
        eng.imprecise.append("string accumulated in loop")
        return SymStr([eng.fresh(Str_, "ex")])

    def fold_obj(self, seq, v0, r, e, h):
        acc, xc = z3.Const("ACC", Obj), z3.Const("X", r.x.sort())
        body = z3.substitute(e.t, (h.t, acc), (r.x, xc))
        return SymObj(uf("foldo:" + body.sexpr(), Obj, Obj, Obj)(seq.t, v0.t), v0.dom)

    def live_containers(self, cids):
        return [c for c in self.eng.containers_by_id(cids)]


# what an iteration of a while loop leaves unchanged of a variable, by the domain of its value
# (proposed for every loop, and checked to be inductive)
STEADY = {}


class While(Loop):
    """a while loop: the first iteration as it is; where the test is not determined, the later ones
    from arbitrary values of the variables the body assigns"""

    def __init__(self, eng, site, names):
        self.eng, self.site, self.names = eng, site, names
        self.pending, self.mode, self.mark = {}, "first", 0

    def stop(self, test):
        n = len(self.eng.trace)
        v = bool(test())
        if self.mode == "first":
            self.forked = len(self.eng.trace) > n
            return not v
        if v == (self.mode == "exit"):
            raise PathEnd()
        return not v

    def __iter__(self):
        eng, n = self.eng, 0
        while True:
            yield n
            n += 1
            if self.forked or n > 200:
                break
        fr0 = sys._getframe(1)
        entry = {k: fr0.f_locals[k] for k in self.names if k in fr0.f_locals}
        frame = LoopFrame(eng.prefix_key(self.site), z3.Const("while!", Obj), None, len(eng.pc), self)
        frame.cid0, frame.fresh0 = eng.cid, eng.fresh_n
        leave = eng.choose(2, "while") == 1
        hav = {k: self.havoc(k, v, frame) for k, v in entry.items()}
        steady = {k: STEADY[v.dom] for k, v in entry.items() if type(v) is SymObj and v.dom in STEADY}
        for k, f in steady.items():
            eng.assume(f(hav[k].t) == f(entry[k].t))
        if leave:
            if any(type(v) not in (SymStr, SymInt, SymBool, str, int, bool) and k not in steady for k, v in entry.items()):
                eng.imprecise.append("nothing is known of the values a while loop leaves")
            self.pending = hav
            self.mode = "exit"
            yield n
            raise PathEnd()
        eng.loops.append(frame)
        self.pending = hav
        self.mode = "iterate"
        try:
            yield n
        except GeneratorExit:
            if frame in eng.loops:
                del eng.loops[eng.loops.index(frame):]
            if frame.marks or frame.dict_ops:
                raise Unsupported("while loop leaves through its body after changing a container")
            raise
        eng.loops.pop()
        if frame.marks or frame.dict_ops:
            raise Unsupported("while loop changes a container")
        for k, f in steady.items():
            v = fr0.f_locals.get(k)
            if type(v) is not SymObj or not eng.entails(f(v.t) == f(hav[k].t)):
                raise Unsupported(f"while loop: {k} no longer denotes what it did on entry")
        raise PathEnd()


class VGen:
    """generator expression (lazy)"""

    def __init__(self, run):
        self.run = run

    def force(self):
        return self.run()

    def __iter__(self):
        return iter(self.run())


def _register(self, c):
    self.cid += 1
    c.cid = self.cid
    self.conts[self.cid] = c


def _begin(self, forced, _old=Engine.begin):
    self.conts = {}
    _old(self, forced)


Engine.register_container = _register
Engine.begin = _begin
Engine.containers_by_id = lambda self, cids: [self.conts[c] for c in cids if c in self.conts]


def _early(self, frame):
    if frame.path != self.paths or self.over:
        return  # the path ended there (another one explores on): the loop was not left
    if frame in self.loops:
        i = self.loops.index(frame)
        del self.loops[i:]
    cond = self.cond_left(frame.pcmark)
    ok = not mentions_fresh(cond, frame.fresh0 + 1, self.fresh_n, frame.x)
    self.loop_escapes.setdefault(frame.key, []).append((frame.x, cond, frame.fresh0, ok))
    self.escaped.append((frame.key, frame.cid0))
    if ok and frame.seq is not None:
        self.left = [e for e in self.left if e[0] < frame.pcmark] + [(frame.pcmark, len(self.pc), self.exists(frame.seq, frame.x, cond))]


def cond_left(self, mark):
    """the path condition from there on; what was learnt inside a loop that was left early says
    that some element of that loop was so"""
    fs, i = [], mark
    for a, b, f in self.left:
        if a < mark:
            continue
        fs += [g for g, d in zip(self.pc[i:a], self.pcd[i:a]) if not d] + [f]
        i = b
    fs += [g for g, d in zip(self.pc[i:], self.pcd[i:]) if not d]
    return z3.And(*fs) if fs else z3.BoolVal(True)


Engine.cond_left = cond_left
Engine.loop_exit_early = _early


def mentions_fresh(f, lo, hi, x):
    seen = set()
    st = [f]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if "!" in n and not t.eq(x):
                try:
                    k = int(n.rsplit("!", 1)[1])
                except ValueError:
                    continue
                if lo <= k <= hi:
                    return True
        st.extend(t.children())
    return False


def where(e):
    tb = e.__traceback__
    last = ""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/turms/" in fn:
            last = f"{fn.split('/turms/')[-1]}:{tb.tb_lineno} in {tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return last
