"""Deductive verifier for a Python subset: values, path engine, obligations.

The code under verification is the source in /repo, re-read and mechanically
instrumented on every run (see instr.py) and executed by CPython over symbolic
values.  Branching on a symbolic condition forks the path (all feasible
outcomes are explored); a loop over a sequence of unknown length is cut by an
inductive summary (one arbitrary iteration is executed, its effect becomes the
loop's summary); a call to a function under contract uses the contract, not
the body.  Every proof obligation goes to z3 (then cvc5 for `unknown`).
"""
import sys, ast, enum, time, types, keyword as _kw

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)
import z3

z3.AstRef.__repr__ = z3.AstRef.__str__ = lambda self: self.sexpr()

Obj = z3.DeclareSort("Obj")
Str_ = z3.StringSort()
Bool_ = z3.BoolSort()
Int_ = z3.IntSort()


z3.set_option(max_args=10**6, max_lines=10**6, max_depth=10**6, max_visited=10**7, max_width=10**6)  # terms are named by their full text


class Control(BaseException):
    """engine control flow: never caught by the code under verification"""


class PathEnd(Control):
    def __init__(self):
        ENG().over = True  # closing the generators of enclosing loops is no early exit


class Unsupported(Control):
    pass


# --------------------------------------------------------------------------
# descriptors (types of symbolic values)
class D:
    def __repr__(self):
        return self.__class__.__name__ + str(
            {k: v for k, v in self.__dict__.items()} or ""
        )


class DStr(D):
    pass


class DBool(D):
    pass


class DInt(D):
    pass


class DAny(D):
    """an opaque value: may only be passed around"""


class DAst(D):
    """an opaque generated AST node"""


class Opt(D):
    def __init__(self, of):
        self.of = of


class Seq(D):
    def __init__(self, of, kind="list"):
        self.of, self.kind = of, kind


class Map(D):
    def __init__(self, of):
        self.of = of


class Cls(D):
    def __init__(self, name, keyed=None):
        self.name, self.keyed = name, keyed  # keyed: the attribute that equals the key in a Map


class Pair(D):
    """items() of a map"""

    def __init__(self, of):
        self.of = of


class Enum_(D):
    def __init__(self, *members):
        self.members = members


class Fun(D):
    """callable attribute: result descriptor; result is a function of receiver and args"""

    def __init__(self, result, pure=True, name=None):
        self.result, self.pure, self.name = result, pure, name


STR, BOOL, INT, ANY, AST = DStr(), DBool(), DInt(), DAny(), DAst()

# domain name -> {"classes": [cls,...] , "attrs": {clsname|"*": {attr: D}}, "inv": fn(vc,obj)}
DOMAINS = {}


def domain(name, classes, attrs, inv=None):
    DOMAINS[name] = {"classes": list(classes), "attrs": attrs, "inv": inv}


_class_ids = {}


def class_id(cls):
    return _class_ids.setdefault(cls, len(_class_ids) + 1)


_uf_cache = {}


class UF:
    """an uninterpreted function; applications are shared"""

    __slots__ = ("f", "apps")

    def __init__(self, f):
        self.f, self.apps = f, {}

    def __call__(self, *args):
        k = tuple([a.get_id() for a in args])
        r = self.apps.get(k)
        if r is None:
            r = self.apps[k] = (self.f(*args), args)  # the arguments stay alive, so do their ids
        return r[0]


def uf(name, *sorts):
    key = (name, tuple([id(s) for s in sorts]))
    f = _uf_cache.get(key)
    if f is None:
        f = _uf_cache[key] = (UF(z3.Function(name, *sorts)), sorts)
    return f[0]


TAG = uf("tag", Obj, Int_)
LEN = uf("len", Obj, Int_)
AT = uf("at", Obj, Int_, Obj)
ATS = uf("ats", Obj, Int_, Str_)
STR2OBJ = uf("str2obj", Str_, Obj)
BOOL2OBJ = uf("bool2obj", Bool_, Obj)
INT2OBJ = uf("int2obj", Int_, Obj)
MEMS = uf("mem_str", Obj, Str_, Bool_)
MEMO = uf("mem_obj", Obj, Obj, Bool_)


def HASKEY(m, k):
    """k is a key of mapping m: a member of its key sequence"""
    return MEMS(uf("keys", Obj, Obj)(m), k)




# --------------------------------------------------------------------------
class SymBool:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ENG().fork(self.f)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.f == zbool(o))
        return False

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of symbolic bool")

    def __repr__(self):
        return f"SymBool({self.f})"


class SymInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _o(self, o):
        if isinstance(o, SymInt):
            return o.t
        if isinstance(o, int):
            return z3.IntVal(int(o))
        return None

    def __eq__(self, o):
        x = self._o(o)
        return False if x is None else mkbool(self.t == x)

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    def __lt__(self, o):
        return mkbool(self.t < self._o(o))

    def __le__(self, o):
        return mkbool(self.t <= self._o(o))

    def __gt__(self, o):
        return mkbool(self.t > self._o(o))

    def __ge__(self, o):
        return mkbool(self.t >= self._o(o))

    def __add__(self, o):
        return mkint(self.t + self._o(o))

    __radd__ = __add__

    def __sub__(self, o):
        return mkint(self.t - self._o(o))

    def __rsub__(self, o):
        return mkint(self._o(o) - self.t)

    def __mul__(self, o):
        return mkint(self.t * self._o(o))

    __rmul__ = __mul__

    def __bool__(self):
        return ENG().fork(self.t != 0)

    def __index__(self):
        raise Unsupported("symbolic integer used as a concrete index")

    def __hash__(self):
        raise Unsupported("hash of symbolic int")

    def __repr__(self):
        return f"SymInt({self.t})"


def mkbool(f):
    if isinstance(f, bool):
        return f
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return SymBool(f)


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def zbool(b):
    if isinstance(b, SymBool):
        return b.f
    return z3.BoolVal(bool(b))


def mknot(b):
    if isinstance(b, SymBool):
        return mkbool(z3.Not(b.f))
    return not b


def is_str(x):
    t = type(x)
    return t is SymStr or t is str or t is not SymObj and isinstance(x, str)



class SymStr:
    """symbolic string = concatenation of parts (python str | z3 String term | Join)"""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    # -- construction
    def z(self):
        zs = []
        for p in self.parts:
            if isinstance(p, str):
                zs.append(z3.StringVal(p))
            elif isinstance(p, Join):
                raise Unsupported("join over unknown-length list in a condition")
            else:
                zs.append(p)
        if len(zs) == 1:
            return zs[0]
        return z3.Concat(*zs)

    def __eq__(self, o):
        if not is_str(o):
            return False
        a, b = self.parts, (o.parts if type(o) is SymStr else [o])
        if any(isinstance(p, Join) for p in a) or any(isinstance(p, Join) for p in b):
            return mkbool(ENG().eq_strparts(a, b))
        return mkbool(zstr(self) == zstr(o))

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return mkstr([*self.parts, *strparts(o)])

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return mkstr([*strparts(o), *self.parts])

    def __bool__(self):
        for p in self.parts:
            if isinstance(p, str) and p:
                return True
        return ENG().fork(self.z() != z3.StringVal(""))

    def __hash__(self):
        raise Unsupported("hash of symbolic string")

    def __len__(self):
        raise Unsupported("len() of symbolic string")

    def __iter__(self):
        raise Unsupported("iteration over symbolic string")

    def __contains__(self, o):
        return bool(mkbool(z3.Contains(self.z(), zstr(o))))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return uf_str("slice[%s:%s:%s]" % (i.start, i.stop, i.step), self)
        return uf_str(f"char[{i}]", self)

    def __lt__(self, o):
        return mkbool(z3.StrLT(self.z(), zstr(o))) if hasattr(z3, "StrLT") else mkbool(self.z() < zstr(o))

    def __repr__(self):
        return "SymStr(" + "+".join(
            repr(p) if isinstance(p, str) else str(p) for p in self.parts
        ) + ")"

    def __str__(self):
        raise Unsupported("str() of symbolic string outside the engine")

    def __format__(self, spec):
        raise Unsupported("format of symbolic string outside the engine")

    # -- methods
    def startswith(self, p):
        if isinstance(p, tuple):
            r = [self.startswith(q) for q in p]
            return mkbool(z3.Or(*[zbool(x) for x in r]))
        if not isinstance(self.parts[0], str) or not isinstance(p, str):
            return mkbool(z3.PrefixOf(zstr(p), self.z()))
        if len(self.parts[0]) >= len(p):
            return self.parts[0].startswith(p)
        return mkbool(z3.PrefixOf(zstr(p), self.z()))

    def endswith(self, p):
        return mkbool(z3.SuffixOf(zstr(p), self.z()))

    def split(self, sep=None, maxsplit=-1):
        if maxsplit != -1 or sep is None:
            raise Unsupported("str.split with these arguments")
        return SymSplit(self, sep)

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is not None and maxsplit == 1:
            # a.b.c -> [a.b, c]  (only when sep occurs)
            if ENG().fork(z3.Contains(self.z(), zstr(sep))):
                return ENG().new_list([seg_init(self, sep), seg_last(self, sep)])
            return ENG().new_list([self])
        raise Unsupported("str.rsplit with these arguments")

    def rpartition(self, sep):
        if ENG().fork(z3.Contains(self.z(), zstr(sep))):
            return (seg_init(self, sep), sep, seg_last(self, sep))
        return ("", "", self)

    def capitalize(self):
        return uf_str("capitalize", self)

    def lower(self):
        return uf_str("lower", self)

    def upper(self):
        return uf_str("upper", self)

    def strip(self, *a):
        return uf_str("strip" + repr(a), self)

    def lstrip(self, *a):
        return uf_str("lstrip" + repr(a), self)

    def rstrip(self, *a):
        return uf_str("rstrip" + repr(a), self)

    def replace(self, a, b, n=-1):
        return uf_str(f"replace", self, a, b)

    def removesuffix(self, s):
        return uf_str("removesuffix", self, s)

    def removeprefix(self, s):
        return uf_str("removeprefix", self, s)

    def title(self):
        return uf_str("title", self)

    def isidentifier(self):
        return mkbool(uf("isidentifier", Str_, Bool_)(self.z()))

    def encode(self, *a, **k):
        raise Unsupported("str.encode")

    def splitlines(self, *a):
        raise Unsupported("str.splitlines of symbolic string")


def seg_last(s, sep):
    return uf_str("last_segment", s, sep)


def seg_init(s, sep):
    return uf_str("init_segments", s, sep)


class SymSplit:
    def __init__(self, s, sep):
        self.s, self.sep = s, sep

    def __getitem__(self, i):
        if i == -1:
            return seg_last(self.s, self.sep)
        if isinstance(i, slice) and (i.start, i.stop, i.step) == (None, -1, None):
            return SymSplitInit(self)
        if i == 0:
            return uf_str("first_segment", self.s, self.sep)
        raise Unsupported(f"split()[{i}]")

    def __iter__(self):
        raise Unsupported("iteration over split()")


class SymSplitInit:
    def __init__(self, sp):
        self.sp = sp


class Join:
    """sep.join(list) over a list of unknown length"""

    def __init__(self, sep, lst):
        self.sep, self.lst = sep, lst

    def __repr__(self):
        return f"Join({self.sep!r},{self.lst})"


def strparts(s):
    if isinstance(s, str):
        return [s] if s else []
    return list(s.parts)


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
                continue
        elif z3.is_expr(p) and z3.is_string_value(p):
            s = p.as_string()
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + s
                continue
            out.append(s)
            continue
        out.append(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SymStr(out)


def zstr(s):
    if isinstance(s, str):
        return z3.StringVal(s)
    if type(s) is SymStr:
        return s.z()
    raise Unsupported(f"not a string: {type(s)}")


def uf_str(name, *args):
    if all(isinstance(a, str) for a in args):
        a = args
        if name == "last_segment":
            return a[0].split(a[1])[-1]
        if name == "init_segments":
            return a[1].join(a[0].split(a[1])[:-1])
        if name == "capitalize":
            return a[0].capitalize()
        if name == "lower":
            return a[0].lower()
    zs = [zstr(a) for a in args]
    return SymStr([uf("s_" + name, *([Str_] * (len(zs) + 1)))(*zs)])


class SymObj:
    __slots__ = ("t", "dom", "_vc_x")

    def __init__(self, t, dom):
        object.__setattr__(self, "t", t)
        object.__setattr__(self, "dom", dom)

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        return ENG().attr(self, name)

    @property
    def __class__(self):
        e = _cur[-1] if _cur else None
        if e is None or sys._getframe(1).f_globals.get("__name__", "").startswith("z3."):
            return SymObj
        return e.concrete_class(self)

    def __setattr__(self, name, value):
        ENG().setattr(self, name, value)

    def __eq__(self, o):
        if type(o) is SymObj:
            return mkbool(self.t == o.t)
        return False

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of symbolic object")

    def __call__(self, *a, **k):
        return ENG().call_symobj(self, a, k)

    def __repr__(self):
        return f"<{self.dom} {self.t}>"


class OpaqueAst:
    """a generated AST node known only as a function of its inputs (contract result)"""

    __slots__ = ("t", "cls")

    def __init__(self, t, cls=ast.expr):
        self.t, self.cls = t, cls

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in ("id", "value", "attr", "name"):
            return SymStr([uf("astattr_" + name, Obj, Str_)(self.t)])
        if name in ("annotation",):
            return OpaqueAst(uf("astsub_" + name, Obj, Obj)(self.t))
        raise Unsupported(f"attribute {name} of opaque AST")

    def __repr__(self):
        return f"<ast {self.t}>"

    def __eq__(self, o):
        if type(o) is OpaqueAst:
            return mkbool(self.t == o.t)
        return False

    def __hash__(self):
        raise Unsupported("hash of opaque ast")


class SymSeq:
    """sequence of unknown length"""

    __slots__ = ("t", "of", "kind", "facts")

    def __init__(self, t, of, kind="list"):
        self.t, self.of, self.kind = t, of, kind

    def __repr__(self):
        return f"Seq({self.t})"

    def length(self):
        return LEN(self.t)


class SymMap:
    """string-keyed mapping of unknown content"""

    __slots__ = ("t", "of", "over")

    def __init__(self, t, of, over=None):
        self.t, self.of, self.over = t, of, over  # over: [(key, value)] stored since, latest last

    def has(self, k):
        fs = [zstr(k) == zstr(k2) for k2, _ in self.over or ()]
        return mkbool(z3.Or(HASKEY(self.t, zstr(k)), *fs))

    def value(self, k):
        for k2, v in reversed(self.over or ()):
            if k == k2:
                return v
        return mapval(self, zstr(k))

    def __getitem__(self, k):
        if not is_str(k):
            raise KeyError("non-string key")
        if self.has(k):
            return self.value(k)
        raise KeyError(k if isinstance(k, str) else "<symbolic key>")

    def get(self, k, d=None):
        return self.value(k) if self.has(k) else d

    def __contains__(self, k):
        return bool(self.has(k))

    def keyseq(self):
        if self.over:
            raise Unsupported("iteration over a mapping that was written to")
        return SymSeq(uf("keys", Obj, Obj)(self.t), STR)

    def keys(self):
        return ENG().wrap_seq(self.keyseq())

    def items(self):
        self.keyseq()
        return ENG().wrap_seq(SymSeq(uf("keys", Obj, Obj)(self.t), MapItem(self)))

    def values(self):
        self.keyseq()
        return ENG().wrap_seq(SymSeq(uf("keys", Obj, Obj)(self.t), MapValue(self)))

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        raise Unsupported("len(map)")

    def __bool__(self):
        if self.over:
            return True
        return ENG().fork(LEN(uf("keys", Obj, Obj)(self.t)) > 0)

    def __hash__(self):
        raise Unsupported("hash(map)")

    def __setitem__(self, k, v):
        if ENG().loops or not is_str(k):
            raise Unsupported("store into unknown mapping")
        if self.over is None:
            self.over = []
        self.over.append((k, v))

    def __repr__(self):
        return f"Map({self.t})"


def mapval(m, k):
    v = ENG().from_uf("mapval", m.of, (m.t, k), (Obj, Str_))
    if type(m.of) is Cls and m.of.keyed:
        x = getattr(v, m.of.keyed)
        ENG().fact_once(("keyed", v.t, k), zstr(x) == k)
    return v


class MapItem(D):
    def __init__(self, m):
        self.m = m


class MapValue(D):
    def __init__(self, m):
        self.m = m


class FlatMap:
    """for x in seq: (first matching) case -> elements appended.  Cases are
    exhaustive, mutually exclusive path conditions over the bound element x."""

    __slots__ = ("seq", "x", "cases")

    def __init__(self, seq, x, cases):
        self.seq, self.x, self.cases = seq, x, cases  # cases: [(cond z3, [chunks])]

    def __repr__(self):
        return f"FlatMap({self.seq},{self.x},{self.cases})"

    def at(self, e):
        """instantiate at element value e -> [(cond, chunks)]"""
        sub = [(self.x, elem_term(e))]
        return [(subst(c, sub), [subst(ch, sub) for ch in chs]) for c, chs in self.cases]


def elem_term(e):
    """z3 term identifying a sequence element value"""
    if type(e) is SymObj:
        return e.t
    if type(e) is SymStr:
        return e.z()
    if isinstance(e, str):
        return z3.StringVal(e)
    if z3.is_expr(e):
        return e
    if isinstance(e, PairElem):
        return elem_term(e.k)
    if isinstance(e, MapValElem):
        return elem_term(e.k)
    if type(e) is OpaqueAst:
        return e.t
    raise Unsupported(f"element term of {type(e)}")


class PairElem(tuple):
    @property
    def k(self):
        return self[0]


class MapValElem:
    pass


ZSUB = {}


def zsub(t, sub):
    """z3.substitute, remembered"""
    k = (t.get_id(), *[c.get_id() for p in sub for c in p])
    r = ZSUB.get(k)
    if r is None:
        r = ZSUB[k] = (t, tuple(sub), z3.substitute(t, *sub))
    return r[2]


def subst(v, sub):
    """substitute z3 terms inside any value"""
    t = type(v)
    if issubclass(t, (str, int, float, bool, type(None), bytes)) or v is Ellipsis:
        return v
    if t is SymObj:
        return SymObj(zsub(v.t, sub), v.dom)
    if z3.is_expr(v):
        return zsub(v, sub)
    if t is SymBool:
        return mkbool(zsub(v.f, sub))
    if t is SymInt:
        return mkint(zsub(v.t, sub))
    if t is SymStr:
        return mkstr([subst(p, sub) for p in v.parts])
    if t is Join:
        return Join(subst(v.sep, sub), subst(v.lst, sub))
    if t is OpaqueAst:
        return OpaqueAst(zsub(v.t, sub), v.cls)
    if t is SymSeq:
        return SymSeq(zsub(v.t, sub), subst_d(v.of, sub), v.kind)
    if t is SymMap:
        return SymMap(zsub(v.t, sub), v.of, [(subst(a, sub), subst(b, sub)) for a, b in v.over] if v.over else None)
    if t is FlatMap:
        return FlatMap(
            subst(v.seq, sub),
            v.x,
            [(zsub(c, sub), [subst(k, sub) for k in ks]) for c, ks in v.cases],
        )
    if t is VList:
        n = VList.__new__(VList)
        n.init_raw([subst(c, sub) for c in v.chunks], v.kind)
        return n
    if t is VDict:
        n = VDict.__new__(VDict)
        n.init_raw([subst(c, sub) for c in v.entries])
        n.keep_multi(v, sub)
        return n
    if t is VSet:
        n = VSet.__new__(VSet)
        n.init_raw([subst(c, sub) for c in v.chunks])
        return n
    if t is E:
        return E(subst(v.v, sub))
    if issubclass(t, ast.AST):
        n = v.__class__.__new__(v.__class__)
        for f, x in v.__dict__.items():
            n.__dict__[f] = subst(x, sub)
        return n
    if issubclass(t, tuple):
        r = tuple(subst(x, sub) for x in v)
        return PairElem(r) if issubclass(t, PairElem) else r
    if issubclass(t, list):
        return [subst(x, sub) for x in v]
    if issubclass(t, (enum.Enum, type, types.FunctionType)):
        return v
    if issubclass(t, Opaque):
        return v
    if issubclass(t, SymRecord):
        return v.subst(sub)
    return v


def subst_d(d, sub):
    if isinstance(d, MapItem):
        return MapItem(subst(d.m, sub))
    if isinstance(d, MapValue):
        return MapValue(subst(d.m, sub))
    return d


class SymRecord:
    """tagged tuple used by contract effects"""

    def __init__(self, tag, *vals):
        self.tag, self.vals = tag, vals

    def subst(self, sub):
        return SymRecord(self.tag, *[subst(x, sub) for x in self.vals])

    def __repr__(self):
        return f"{self.tag}{self.vals}"


class Opaque:
    """named opaque constant; compared by identity"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<opaque {self.name}>"


class E:
    """single-element chunk"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"E({self.v!r})"


# --------------------------------------------------------------------------
class Tracked:
    """mutable container with loop-effect tracking"""

    def reg(self):
        ENG().register_container(self)

    def rd(self):
        e = ENG()
        if e.loops:
            e.note_read(self)

    def wr(self):
        ENG().note_write(self)


class VList(Tracked):
    def __init__(self, chunks=None, kind="list"):
        self.chunks = list(chunks or [])
        self.kind = kind
        self.reg()

    def init_raw(self, chunks, kind):
        self.chunks, self.kind = chunks, kind
        self.cid = -1

    # mutation
    def append(self, v):
        self.wr()
        self.chunks.append(E(v))

    def extend(self, it):
        self.wr()
        self.chunks.extend(ENG().to_chunks(it))

    def insert(self, i, v):
        self.wr()
        if i == 0:
            if ENG().loops and ENG().is_outer(self):
                raise Unsupported("insert(0) inside summarised loop")
            self.chunks.insert(0, E(v))
        else:
            raise Unsupported("list.insert at index")

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        self.rd()
        return VList(self.chunks + ENG().to_chunks(o), self.kind)

    def __radd__(self, o):
        self.rd()
        return VList(ENG().to_chunks(o) + self.chunks, self.kind)

    def copy(self):
        self.rd()
        return VList(self.chunks, self.kind)

    def __iter__(self):
        self.rd()
        for c in list(self.chunks):
            if type(c) is E:
                yield c.v
            else:
                c2 = ENG().resolve_chunk(c)
                if c2 is None:
                    raise Unsupported("native iteration over sequence of unknown length")
                for v in c2:
                    yield v

    def __bool__(self):
        self.rd()
        return ENG().chunks_nonempty(self.chunks)

    def length(self):
        self.rd()
        return ENG().chunks_len(self.chunks)

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported("native len() of sequence of unknown length")

    def __getitem__(self, i):
        self.rd()
        if isinstance(i, slice):
            if (i.start, i.stop, i.step) == (None, None, None):
                return self.copy()
            if all(type(c) is E for c in self.chunks):
                return VList(self.chunks[i], self.kind)
            if i.stop is None and i.step is None and isinstance(i.start, int) and i.start > 0 and all(
                type(c) is E for c in self.chunks[: i.start]
            ):
                return VList(self.chunks[i.start :], self.kind)
            raise Unsupported("slice of unknown-length list")
        return ENG().chunk_index(self, i)

    def __setitem__(self, i, v):
        self.wr()
        if isinstance(i, int) and all(type(c) is E for c in self.chunks):
            self.chunks[i] = E(v)
            return
        raise Unsupported("list item assignment")

    def __eq__(self, o):
        if isinstance(o, (list, tuple)) and not o:
            return mknot(mkbool(ENG().nonempty_f(self.chunks)))
        raise Unsupported("list equality")

    def __hash__(self):
        raise TypeError("unhashable type: 'list'")

    def sort(self, **k):
        r = ENG().sorted_(self, **k)
        self.wr()
        self.chunks = r.chunks

    def pop(self, i=-1):
        self.wr()
        if ENG().loops:
            raise Unsupported("list.pop in summarised loop")
        if self.chunks and type(self.chunks[i]) is E:
            return self.chunks.pop(i).v
        raise Unsupported("list.pop")

    def remove(self, v):
        raise Unsupported("list.remove")

    def reverse(self):
        self.wr()
        if all(type(c) is E for c in self.chunks):
            self.chunks.reverse()
            return
        raise Unsupported("reverse")

    def index(self, v):
        raise Unsupported("list.index")

    def __repr__(self):
        return f"VList({self.chunks})"




class VSet(Tracked):
    def __init__(self, chunks=None):
        self.chunks = list(chunks or [])
        self.reg()

    def init_raw(self, chunks):
        self.chunks = chunks
        self.cid = -1

    def add(self, v):
        self.wr()
        self.chunks.append(E(v))

    def update(self, *its):
        self.wr()
        for it in its:
            self.chunks.extend(ENG().to_chunks(it))

    def discard(self, v):
        raise Unsupported("set.discard")

    remove = discard

    def copy(self):
        self.rd()
        return VSet(self.chunks)

    def __or__(self, o):
        self.rd()
        return VSet(self.chunks + ENG().to_chunks(o))

    def union(self, *os):
        self.rd()
        ch = list(self.chunks)
        for o in os:
            ch += ENG().to_chunks(o)
        return VSet(ch)

    def __ior__(self, o):
        self.update(o)
        return self

    def __bool__(self):
        self.rd()
        return ENG().chunks_nonempty(self.chunks)

    def length(self):
        self.rd()
        if not self.chunks:
            return 0
        return ENG().set_len(self.chunks)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic set")

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")

    def __repr__(self):
        return f"VSet({self.chunks})"


class VDict(Tracked):
    """insertion-ordered dict: entries are (key, value) pairs or FlatMap chunks of pairs"""

    default = None

    def __init__(self, entries=None):
        self.entries = list(entries or [])
        self.multi = []
        self.reg()

    def init_raw(self, entries):
        self.entries = entries
        self.multi = []
        self.cid = -1

    def keep_multi(self, o, sub):
        self.multi = o.multi and [subst(m, sub) for m in o.multi]

    def _find(self, k):
        """index of concrete-structured entry with key k (forks on equality)"""
        for i in range(len(self.entries) - 1, -1, -1):
            en = self.entries[i]
            if type(en) is FlatMap:
                raise Unsupported("lookup past dict comprehension")
            if truth(eq_key(en[0], k)):
                return i
        return None

    def _lookup(self, k):
        self.rd()
        for i in range(len(self.entries) - 1, -1, -1):
            en = self.entries[i]
            if type(en) is FlatMap:
                w = ENG().find_in_flatmap(en, k)
                if w is not None:
                    return True, w[0]
                continue
            if truth(eq_key(en[0], k)):
                return True, en[1]
        return False, None

    def __getitem__(self, k):
        if self.default is not None:
            e = ENG()
            if e.loops and e.is_outer(self):
                if self.default is not VList:
                    raise Unsupported("defaultdict of sets filled in a loop")
            elif self.multi:
                return self._multi_get(k, [])
            return self.setdefault(k, self.default())
        ok, v = self._lookup(k)
        if not ok:
            if self.multi:
                raise Unsupported("index into loop-built multimap")
            raise KeyError(k if isinstance(k, str) else "<key>")
        return v

    def get(self, k, d=None):
        if self.multi:
            return self._multi_get(k, d)
        ok, v = self._lookup(k)
        return v if ok else d

    def _multi_get(self, k, d):
        self.rd()
        if self.entries:
            raise Unsupported("mixed multimap")
        if not (d is None or isinstance(d, (list, tuple, VList))):
            raise Unsupported("multimap default")
        ch = list(ENG().to_chunks(d or []))
        if ch:
            raise Unsupported("multimap non-empty default")
        for fm in self.multi:
            ch.append(filter_records(fm, k))
        if d is None:
            raise Unsupported("multimap get without default")
        return VList(ch)

    def __contains__(self, k):
        if self.multi:
            raise Unsupported("membership in loop-built multimap")
        return self._lookup(k)[0]

    def __setitem__(self, k, v):
        self.wr()
        e = ENG()
        if e.loops and e.is_outer(self):
            e.loop_dict_op(self, "set", k, v)
            return
        i = self._find(k)
        if i is None:
            self.entries.append((k, v))
        else:
            self.entries[i] = (self.entries[i][0], v)

    def setdefault(self, k, d=None):
        e = ENG()
        if e.loops and e.is_outer(self):
            if isinstance(d, (list, VList)) and not e.to_chunks(d):
                self.wr()
                return MultiProxy(self, k)
            raise Unsupported("setdefault in summarised loop")
        self.wr()
        ok, v = self._lookup(k)
        if ok:
            return v
        self.entries.append((k, d))
        return d

    def update(self, o=(), **kw):
        self.wr()
        if type(o) is VDict:
            for en in o.entries:
                if type(en) is FlatMap:
                    self.entries.append(en)
                else:
                    self[en[0]] = en[1]
        elif isinstance(o, dict):
            for k, v in o.items():
                self[k] = v
        else:
            raise Unsupported("dict.update")
        for k, v in kw.items():
            self[k] = v

    def pop(self, k, *d):
        raise Unsupported("dict.pop")

    def items(self):
        self.rd()
        if self.multi:
            raise Unsupported("items of multimap")
        return VList([en if type(en) is FlatMap else E(PairElem(en)) for en in self.entries])

    def keys(self):
        self.rd()
        return VList([fm_map(en, lambda p: p[0]) if type(en) is FlatMap else E(en[0]) for en in self.entries])

    def values(self):
        self.rd()
        return VList([fm_map(en, lambda p: p[1]) if type(en) is FlatMap else E(en[1]) for en in self.entries])

    def __iter__(self):
        return iter(self.keys())

    def __bool__(self):
        self.rd()
        if self.multi:
            raise Unsupported("truth of multimap")
        return ENG().chunks_nonempty([en if type(en) is FlatMap else E(en) for en in self.entries])

    def __len__(self):
        return len(self.items())

    def length(self):
        return self.items().length()

    def copy(self):
        self.rd()
        return VDict(self.entries)

    def __or__(self, o):
        n = self.copy()
        n.update(o)
        return n

    def __hash__(self):
        raise TypeError("unhashable type: 'dict'")

    def __repr__(self):
        return f"VDict({self.entries},{self.multi})"


def filter_records(chunk, k):
    """the values recorded under key k"""
    if type(chunk) is not FlatMap:
        raise Unsupported("multimap record chunk")
    cases = []
    for c, ks in chunk.cases:
        acc = [(c, [])]
        for kk in ks:
            if type(kk) is not E:
                one = at_key(kk, k)
                if one is None:
                    inner = filter_records(kk, k)
                    acc = [(cc, xs + [inner]) for cc, xs in acc]
                    continue
                eqf, vals = one
            else:
                key, vals = kk.v.vals
                eqf = zbool(eq_key(key, k))
            acc = [(z3.And(cc, eqf), xs + list(vals)) for cc, xs in acc] + [
                (z3.And(cc, z3.Not(eqf)), xs) for cc, xs in acc
            ]
        cases += acc
    return FlatMap(chunk.seq, chunk.x, cases)


def at_key(c, k):
    """the record of a mapping copied item by item: present exactly when the mapping has the key"""
    if type(c) is not FlatMap or not isinstance(c.seq.of, (MapItem, MapValue)) or len(c.cases) != 1:
        return None
    cond, ks = c.cases[0]
    if len(ks) != 1 or type(ks[0]) is not E:
        return None
    key, vals = ks[0].v.vals
    if type(key) is not SymStr or not key.z().eq(c.x):
        return None
    sub = [(c.x, zstr(k))]
    return z3.And(HASKEY(c.seq.of.m.t, zstr(k)), z3.substitute(cond, *sub)), [subst(v, sub) for v in vals]


class MultiProxy:
    """value of d.setdefault(k, []) for a dict filled by a summarised loop"""

    def __init__(self, d, k):
        self.d, self.k = d, k

    def append(self, v):
        ENG().loop_dict_op(self.d, "madd", self.k, [E(v)])

    def extend(self, it):
        ENG().loop_dict_op(self.d, "madd", self.k, ENG().to_chunks(it))

    def __iadd__(self, it):
        self.extend(it)
        return self


def fm_map(fm, f):
    out = []
    for c, ks in fm.cases:
        o = []
        for k in ks:
            if type(k) is E:
                o.append(E(f(k.v)))
            elif type(k) is FlatMap:
                o.append(fm_map(k, f))
            else:
                raise Unsupported("map over raw seq chunk")
        out.append((c, o))
    return FlatMap(fm.seq, fm.x, out)


def eq_key(a, b):
    if is_str(a) and is_str(b):
        return a == b
    if type(a) in (SymObj,) or type(b) in (SymObj,):
        return a == b
    return a == b


def truth(b):
    return bool(b)


class Poison:
    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _die(self, *a, **k):
        raise Unsupported(f"loop-carried variable {object.__getattribute__(self,'_n')} read after havoc")

    def __getattribute__(self, n):
        if n in ("__class__", "_n"):
            return object.__getattribute__(self, n)
        object.__getattribute__(self, "_die")()

    __bool__ = __eq__ = __ne__ = __iter__ = __len__ = __call__ = __add__ = __getitem__ = __hash__ = __radd__ = _die
    __lt__ = __le__ = __gt__ = __ge__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __mod__ = __rmod__ = __floordiv__ = __index__ = __int__ = __neg__ = __str__ = __repr__ = __format__ = __contains__ = _die


class VEnum:
    """enumerate(it): the positions are known in front of the first part of unknown length only"""

    def __init__(self, it, start):
        self.it, self.start = it, start


_cur = []


def ENG():
    return _cur[-1]


SYM_TYPES = (SymBool, SymInt, SymStr, SymObj, SymSeq, SymMap, OpaqueAst, VList, VDict, VSet, SymSplit, SymSplitInit, FlatMap, Poison, MultiProxy, Join, VEnum)
SYM_SET = set(SYM_TYPES)


def is_sym(x):
    return type(x) in SYM_SET


def has_sym(x, depth=4):
    if type(x) in SYM_SET:
        return True
    if depth <= 0:
        return False
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(y, depth - 1) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y, depth - 1) or has_sym(k, depth - 1) for k, y in x.items())
    if isinstance(x, ast.AST):
        return any(has_sym(y, depth - 1) for y in x.__dict__.values())
    return False
