"""run-time side of the instrumentation: _vc_.*  (native behaviour when no
verification is running, symbolic behaviour otherwise)"""
import ast, builtins, enum, functools, itertools, inspect, keyword, logging, sys, types, typing, collections
from .core import *
from . import core
from .engine import Engine, Loop, While, canon, VGen, SymFun, term_of, dump, z3key, PRE
from .spec import Stub
import z3


def active():
    return bool(core._cur)


NONSYM = object()


class RT:
    def __init__(self):
        self.models = {}
        self.method_models = {}

    # ---------------- operators
    def is_(self, a, b):
        if a is b:
            return True
        ta, tb = type(a), type(b)
        if ta in SYM_SET or tb in SYM_SET:
            if ta is Poison or tb is Poison:
                raise Unsupported("poison")
            if ta is SymObj and tb is SymObj:
                return mkbool(a.t == b.t)
            if ta is SymBool and isinstance(b, bool):
                return mkbool(a.f == zbool(b))
            if tb is SymBool and isinstance(a, bool):
                return mkbool(b.f == zbool(a))
            if ta is SymBool and tb is SymBool:
                return mkbool(a.f == b.f)
            if ta is SymObj and DOMAINS.get(a.dom, {}).get("ident") or tb is SymObj and DOMAINS.get(b.dom, {}).get("ident"):
                o, c = (a, b) if ta is SymObj else (b, a)
                return mkbool(DOMAINS[o.dom]["ident"](o, c))
            if a is None or b is None:
                return False
            return False
        return a is b

    def isnot(self, a, b):
        return mknot(self.is_(a, b))

    def not_(self, x):
        if type(x) is SymBool:
            return mknot(x)
        return not x

    def in_(self, x, c):
        t = type(c)
        if t is VList or t is VSet:
            c.rd()
            return ENG().in_chunks(x, c.chunks)
        if t is SymSeq:
            return ENG().in_chunks(x, [c])
        if t is SymMap:
            if not is_str(x):
                return False
            return c.has(x)
        if t is VDict:
            return x in c
        if t is VGen:
            return ENG().in_chunks(x, c.force().chunks)
        if t is SymStr:
            return mkbool(z3.Contains(c.z(), zstr(x)))
        if isinstance(c, str) and type(x) is SymStr:
            return mkbool(z3.Contains(z3.StringVal(c), x.z()))
        if type(x) is SymObj and isinstance(c, (tuple, list, set, frozenset, dict)):
            return mkbool(z3.Or(*[zbool(x == y) for y in c])) if c else False
        if is_sym(x) and isinstance(c, (tuple, list, set, frozenset, dict)) or has_sym(c, 1):
            fs = [ENG().eq_values(y, x) for y in c]
            if any(f is True for f in fs):
                return True
            return mkbool(z3.Or(*[zbool(f) for f in fs])) if fs else False
        if t in SYM_SET:
            raise Unsupported(f"membership in {t.__name__}")
        return x in c

    def notin(self, x, c):
        return mknot(self.in_(x, c))

    def fstr(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
                continue
            v, conv, spec = p
            if is_sym(v) or has_sym(v, 2) or isinstance(v, ast.AST) and active():
                if type(v) is SymStr and conv in (-1, ord("s")) and spec == "":
                    out.extend(v.parts)
                else:
                    if conv not in (-1, ord("s"), ord("r")) or spec:
                        raise Unsupported("format spec on symbolic value")
                    t, s = term_of(v)
                    out.append(uf(f"fmt{conv}_{s.name()}", s, Str_)(t))
            else:
                if conv == ord("r"):
                    v = repr(v)
                elif conv == ord("s"):
                    v = str(v)
                elif conv == ord("a"):
                    v = ascii(v)
                out.append(format(v, spec))
        return mkstr(out) if any(not isinstance(p, str) for p in out) else "".join(out)

    # ---------------- displays
    def spread(self, v):
        return Spread(v)

    def star(self, v):
        return list(v) if type(v) is VList else v

    def starstar(self, v):
        if type(v) is VDict:
            return {k: x for k, x in v.items()}
        return v

    def mklist(self, *xs):
        if not active():
            out = []
            for x in xs:
                if type(x) is Spread:
                    out.extend(x.v)
                else:
                    out.append(x)
            return out
        ch = []
        for x in xs:
            ch.extend(ENG().to_chunks(x.v) if type(x) is Spread else [E(x)])
        return VList(ch)

    def mktuple(self, *xs):
        l = self.mklist(*xs)
        if type(l) is VList:
            if all(type(c) is E for c in l.chunks):
                return tuple(c.v for c in l.chunks)
            l.kind = "tuple"
            return l
        return tuple(l)

    def mkset(self, *xs):
        l = self.mklist(*xs)
        return VSet(l.chunks) if type(l) is VList else set(l)

    def mkdict(self, *items):
        if not active():
            d = {}
            for i in items:
                if type(i) is Spread:
                    d.update(i.v)
                else:
                    d[i[0]] = i[1]
            return d
        d = VDict()
        for i in items:
            if type(i) is Spread:
                if type(i.v) is SymMap:
                    ks = i.v.keyseq()
                    k = z3.Const("K", Str_)
                    d.entries.append(FlatMap(ks, k, [(z3.BoolVal(True), [E((mkstr([k]), SymObjOf(i.v, k)))])]))
                else:
                    d.update(i.v)
            else:
                d[i[0]] = i[1]
        return d

    def getitem(self, a, b):
        if is_sym(b) and isinstance(a, (dict, list, tuple)) and type(a) not in SYM_SET:
            if isinstance(a, dict):
                for k in a:
                    if truth(eq_key(k, b)):
                        return a[k]
                raise KeyError("<symbolic>")
            raise Unsupported("symbolic index into native sequence")
        return a[b]

    # ---------------- comprehensions
    def each(self, it, fn, star, site):
        if not active():
            for v in it:
                fn(*v) if star else fn(v)
            return
        eng = ENG()
        l = Loop(eng, it, site, {}, ())
        for v in l:
            if star:
                fn(*list(v))
            else:
                fn(v)

    def listcomp(self, run):
        out = VList() if active() else []
        run(out.append)
        return out

    def setcomp(self, run):
        out = VSet() if active() else set()
        run(out.add)
        return out

    def dictcomp(self, run):
        out = VDict() if active() else {}

        def put(k, v):
            out[k] = v

        run(put)
        return out

    def genexp(self, run):
        if not active():
            out = []
            run(out.append)
            return iter(out)
        return VGen2(run, self)

    def untranslated(self, what):
        raise Unsupported(what)

    # ---------------- loops
    def loop(self, it, site, names):
        if not active():
            return NativeLoop(it)
        return Loop(ENG(), it, site, None, names)

    def whileloop(self, site, names):
        return While(ENG(), site, names) if active() else NativeWhile()

    # ---------------- calls
    def call(self, f, *a, **k):
        if not active():
            return f(*a, **k)
        eng = ENG()
        fn = getattr(f, "__func__", f) if type(f) not in SYM_SET else f
        # contracts
        if isinstance(fn, types.FunctionType):
            key = f"{fn.__module__}:{fn.__qualname__}"
            c = eng.contracts.get(key)
            if c is not None:
                eng.contract_uses[key] += 1
                if f is not fn:
                    a = (f.__self__,) + a
                return c(eng, fn, *a, **k)
            if fn.__module__.split(".")[0] in INSTRUMENTED:
                eng.depth += 1
                if eng.depth > 60:
                    raise Unsupported("call depth (recursion without contract?)")
                if key != eng.unit:
                    eng.inlined[key] += 1
                try:
                    return f(*a, **k)
                finally:
                    eng.depth -= 1
            if fn.__module__.startswith("vf."):
                return f(*a, **k)
        m = self.models.get(id(fn)) if type(f) not in SYM_SET else None
        if m is not None:
            if f is not fn:
                a = (f.__self__,) + a
            return m(eng, *a, **k)
        tf = type(f)
        if tf is Stub:
            return f(*a, **k)
        if tf in SYM_SET or tf is SymFun or tf is types.MethodType and type(f.__self__) in SYM_SET:
            return f(*a, **k)
        if isinstance(f, types.MethodType) and isinstance(f.__self__, (VGen, Loop)):
            return f(*a, **k)
        if isinstance(f, type):
            if issubclass(f, ast.AST):
                return f(*a, **k)
            if issubclass(f, BaseException):
                try:
                    return f(*a, **k)
                except Control:
                    return f("<symbolic>")
            if f.__module__.split(".")[0] in INSTRUMENTED or f.__module__.startswith("vf."):
                return f(*a, **k)
        if isinstance(f, types.BuiltinFunctionType) and getattr(f, "__self__", None) is not None and not isinstance(f.__self__, types.ModuleType):
            return self.builtin_method(eng, f, a, k)
        if isinstance(f, (types.BuiltinFunctionType, types.FunctionType, types.MethodType, type, functools.partial)) or callable(f):
            mod = getattr(f, "__module__", "") or ""
            self_ = getattr(f, "__self__", None)
            if isinstance(self_, logging.Logger):
                return None
            if has_sym(a) or has_sym(k):
                na, nk = to_native(a), to_native(k)
                if na is NONSYM or nk is NONSYM:
                    raise Unsupported(f"external call {mod}.{getattr(f,'__qualname__',f)} on symbolic arguments")
                a, k = na, nk
            eng.externals[f"{mod}.{getattr(f,'__qualname__',repr(f))}"] += 1
            return f(*a, **k)
        raise Unsupported(f"call of {f!r}")

    def builtin_method(self, eng, f, a, k):
        s, n = f.__self__, f.__name__
        if isinstance(s, str):
            if n == "join":
                return str_join(eng, s, a[0])
            if has_sym(a) or has_sym(k):
                if n in ("startswith", "endswith", "replace", "split", "removesuffix", "removeprefix"):
                    return getattr(SymStr([s]), n)(*a, **k)
                raise Unsupported(f"str.{n} with symbolic argument")
            return f(*a, **k)
        if isinstance(s, dict):
            if n in ("get", "setdefault", "pop", "__contains__") and a and is_sym(a[0]):
                if n == "get":
                    for kk in s:
                        if truth(eq_key(kk, a[0])):
                            return s[kk]
                    return a[1] if len(a) > 1 else None
                raise Unsupported(f"dict.{n} with symbolic key on native dict")
            if n in ("setdefault", "update", "pop", "clear", "__setitem__") and eng.loops:
                raise Unsupported("native dict mutated in summarised loop")
            return f(*a, **k)
        if isinstance(s, (list, set)):
            if n in ("append", "extend", "add", "insert", "update", "remove", "pop", "clear", "discard") and eng.loops:
                raise Unsupported("native container mutated in summarised loop")
            return f(*a, **k)
        if has_sym(a) or has_sym(k):
            raise Unsupported(f"builtin method {n} with symbolic arguments")
        return f(*a, **k)


class SymObjOf:
    def __new__(cls, m, k):
        return core.mapval(m, k)


class Spread:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class NativeWhile:
    sym = False

    def stop(self, test):
        return not test()

    def __iter__(self):
        return itertools.repeat(0)


class NativeLoop:
    sym = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def has(self, n):
        return False


class VGen2(VGen):
    def __init__(self, run, rt):
        self._run, self.rt = run, rt

    def force(self):
        out = VList()
        self._run(out.append)
        return out

    def __iter__(self):
        return iter(self.force())


class _Found(BaseException):
    def __init__(self, v):
        self.v = v


def to_native(v):
    """convert symbolic containers with fully concrete content; NONSYM if impossible"""
    t = type(v)
    if t is VList or t is VSet:
        out = []
        for c in v.chunks:
            if type(c) is not E:
                return NONSYM
            x = to_native(c.v)
            if x is NONSYM:
                return NONSYM
            out.append(x)
        if t is VSet:
            return set(out)
        return tuple(out) if v.kind == "tuple" else out
    if t is VDict:
        out = {}
        if v.multi:
            return NONSYM
        for en in v.entries:
            if type(en) is FlatMap:
                return NONSYM
            kk, vv = to_native(en[0]), to_native(en[1])
            if kk is NONSYM or vv is NONSYM:
                return NONSYM
            out[kk] = vv
        return out
    if t in SYM_SET:
        return NONSYM
    if isinstance(v, tuple) and type(v) is tuple:
        xs = [to_native(x) for x in v]
        return NONSYM if any(x is NONSYM for x in xs) else tuple(xs)
    if type(v) is dict:
        out = {}
        for k, x in v.items():
            y = to_native(x)
            if y is NONSYM:
                return NONSYM
            out[k] = y
        return out
    if type(v) is list:
        xs = [to_native(x) for x in v]
        return NONSYM if any(x is NONSYM for x in xs) else xs
    if isinstance(v, ast.AST):
        n = v.__class__.__new__(v.__class__)
        for f, x in v.__dict__.items():
            y = to_native(x)
            if y is NONSYM:
                return NONSYM
            n.__dict__[f] = y
        return n
    if isinstance(v, VGen):
        return to_native(v.force())
    return v


def str_join(eng, sep, it):
    if type(it) is SymSplitInit:
        if sep == it.sp.sep:
            return seg_init(it.sp.s, it.sp.sep)
        raise Unsupported("join of split")
    ch = eng.to_chunks(it)
    if any(type(c) is E and not is_str(c.v) for c in ch):
        raise TypeError("sequence item: expected str instance")
    if all(type(c) is E for c in ch):
        parts = []
        for i, c in enumerate(ch):
            if i and sep:
                parts.append(sep)
            parts.extend(strparts(c.v))
        return mkstr(parts)
    l = VList(ch)
    t = eng.named("join:" + repr(sep) + ":" + repr([canon(c) for c in ch]), Str_)
    eng.ghost.setdefault("joins", {})[t.get_id()] = (t, sep, l)
    return SymStr([t])


INSTRUMENTED = {"turms", "vcspec"}


# ------------------------------------------------------------------ builtins
def isinstance_model(eng, x, cls):
    if isinstance(cls, tuple):
        rs = [isinstance_model(eng, x, c) for c in cls]
        if any(r is True for r in rs):
            return True
        fs = [zbool(r) for r in rs if r is not False]
        return mkbool(z3.Or(*fs)) if fs else False
    if isinstance(cls, types.UnionType):
        return isinstance_model(eng, x, cls.__args__)
    t = type(x)
    if t is SymObj:
        return eng.isinstance_obj(x, cls)
    if t is SymStr:
        return issubclass(str, cls)
    if t is SymBool:
        return issubclass(bool, cls)
    if t is SymInt:
        return issubclass(int, cls)
    if t is OpaqueAst:
        if issubclass(x.cls, cls):
            return True
        if issubclass(cls, x.cls):
            return mkbool(uf("ast_is_" + cls.__name__, Obj, Bool_)(x.t))
        return False
    if t is VList:
        return issubclass(tuple if x.kind == "tuple" else list, cls)
    if t is VDict or t is SymMap:
        return issubclass(dict, cls)
    if t is VSet:
        return issubclass(set, cls)
    if t is SymFun:
        return cls in (collections.abc.Callable,)
    if t is Poison:
        raise Unsupported("poison")
    return isinstance(x, cls)


def len_model(eng, x):
    if type(x) in (VList, VDict, VSet):
        return x.length()
    if type(x) is SymSeq:
        return mkint(core.LEN(x.t))
    if type(x) is SymMap:
        return mkint(core.LEN(x.keyseq().t))
    if type(x) is SymStr:
        return mkint(z3.Length(x.z()))
    return len(x)


def list_model(eng, it=()):
    return VList(eng.to_chunks(it))


def tuple_model(eng, it=()):
    ch = eng.to_chunks(it)
    if all(type(c) is E for c in ch):
        return tuple(c.v for c in ch)
    return VList(ch, "tuple")


def set_model(eng, it=()):
    return VSet(eng.to_chunks(it) if type(it) is not VSet else it.chunks)


def dict_model(eng, it=(), **kw):
    d = VDict()
    if type(it) is VDict:
        d.entries = list(it.entries)
        d.multi = list(it.multi)
    elif isinstance(it, dict):
        d.entries = list(it.items())
    elif type(it) is SymMap:
        d2 = RT_.mkdict(Spread(it))
        return d2
    else:
        for c in eng.to_chunks(it):
            if type(c) is E:
                k, v = c.v
                d[k] = v
            elif type(c) is FlatMap:
                d.entries.append(c)
            else:
                raise Unsupported("dict() of sequence")
    for k, v in kw.items():
        d[k] = v
    return d


def quantified(eng, it, test):
    """any(): decided as a predicate over the sequence, where the elements are plain truth values"""
    if not isinstance(it, VGen):
        return None
    ch = it.force().chunks
    if not ch or not all(truths([c]) for c in ch):
        return None
    return eng.fork_some(eng.some(ch, test))


def truths(chunks):
    return all(type(c) is E and isinstance(c.v, (bool, SymBool)) or type(c) is FlatMap and all(truths(ks) for _, ks in c.cases) for c in chunks)


def any_model(eng, it):
    r = quantified(eng, it, lambda v: zbool(v))
    if r is not None:
        return r
    if isinstance(it, VGen):
        try:
            def emit(v):
                if v:
                    raise _Found(True)
            it._run(emit)
        except _Found:
            return True
        return False
    for v in Loop(eng, it, "any", None, ()):
        if v:
            return True
    return False


def all_model(eng, it):
    r = quantified(eng, it, lambda v: z3.Not(zbool(v)))
    if r is not None:
        return not r
    if isinstance(it, VGen):
        try:
            def emit(v):
                if not v:
                    raise _Found(False)
            it._run(emit)
        except _Found:
            return False
        return True
    for v in Loop(eng, it, "all", None, ()):
        if not v:
            return False
    return True


def next_model(eng, it, *d):
    if isinstance(it, VGen):
        try:
            def emit(v):
                raise _Found(v)
            it._run(emit)
        except _Found as f:
            return f.v
        if d:
            return d[0]
        raise StopIteration
    if type(it) in SYM_SET:
        raise Unsupported("next()")
    return next(it, *d)


def str_model(eng, x="", *a):
    if isinstance(x, BaseException) and type(x).__str__ is BaseException.__str__ and len(x.args) == 1 and is_sym(x.args[0]):
        x = x.args[0]
    if is_str(x):
        return x
    if is_sym(x) or has_sym(x):
        t, s = term_of(x)
        return SymStr([uf(f"fmt-1_{s.name()}", s, Str_)(t)])
    return str(x, *a)


def bool_model(eng, x=False):
    return bool(x)


def int_model(eng, x=0, *a):
    if type(x) is SymStr:
        return SymInt(uf("int_of", Str_, Int_)(x.z()))
    if type(x) is SymInt:
        return x
    if is_sym(x):
        raise Unsupported("int()")
    return int(x, *a)


def float_model(eng, x=0.0):
    if type(x) is SymStr:
        return SymObj(uf("float_of", Str_, Obj)(x.z()), "float")
    if is_sym(x):
        raise Unsupported("float()")
    return float(x)


def getattr_model(eng, o, n, *d):
    if type(n) is SymStr:
        raise Unsupported("getattr with symbolic name")
    if type(o) is SymObj:
        try:
            return eng.attr(o, n)
        except AttributeError:
            if d:
                return d[0]
            raise
    return getattr(o, n, *d)


def hasattr_model(eng, o, n):
    if type(o) is SymObj:
        return eng.hasattr_obj(o, n)
    if type(o) is OpaqueAst:
        raise Unsupported("hasattr on opaque ast")
    return hasattr(o, n)


def repr_model(eng, x):
    if is_sym(x) or has_sym(x):
        t, s = term_of(x)
        return SymStr([uf(f"fmt114_{s.name()}", s, Str_)(t)])
    return repr(x)


def type_model(eng, *a):
    if len(a) == 1:
        x = a[0]
        t = type(x)
        if t is SymObj:
            return eng.concrete_class(x)
        if t is SymStr:
            return str
        if t is VList:
            return tuple if x.kind == "tuple" else list
        if t is VDict:
            return dict
        if t is OpaqueAst:
            return x.cls
        if t is SymBool:
            return bool
        return t
    return type(*a)


def sorted_model(eng, it, key=None, reverse=False):
    return eng.sorted_(it, key=key, reverse=reverse)


def enumerate_model(eng, it, start=0):
    ch = eng.to_chunks(it)
    if all(type(c) is E for c in ch):
        return VList([E((i + start, c.v)) for i, c in enumerate(ch)])
    return VEnum(VList(ch), start)


def zip_model(eng, *its):
    chs = [eng.to_chunks(i) for i in its]
    if all(type(c) is E for ch in chs for c in ch):
        return VList([E(tuple(c.v for c in t)) for t in zip(*chs)])
    raise Unsupported("zip over unknown-length sequences")


def map_model(eng, f, *its):
    if len(its) != 1:
        raise Unsupported("map with several iterables")
    out = VList()
    for v in Loop(eng, its[0], "map", None, ()):
        out.append(RT_.call(f, v))
    return out


def filter_model(eng, f, it):
    out = VList()
    for v in Loop(eng, it, "filter", None, ()):
        if v if f is None else RT_.call(f, v):
            out.append(v)
    return out


def reversed_model(eng, it):
    return VList(eng.reverse(eng.to_chunks(it)))


def iskeyword_model(eng, s):
    if type(s) is SymStr:
        if isinstance(s.parts[-1], str) and s.parts[-1].endswith("_") and s.parts[-1] != "_":
            return False
        if isinstance(s.parts[-1], str) and s.parts[-1] == "_" and len(s.parts) > 1:
            return False  # the only keyword containing '_' is none: soft keyword '_' is not in kwlist
        return mkbool(uf("iskeyword", Str_, Bool_)(s.z()))
    return keyword.iskeyword(s)


def super_fail(eng, *a):
    raise Unsupported("super")


def cast_model(eng, t, v):
    return v


def chain_model(eng, *its):
    ch = []
    for i in its:
        ch += eng.to_chunks(i)
    return VList(ch)


def chain_from(eng, its):
    out = VList()
    for v in Loop(eng, its, "chain", None, ()):
        out.extend(v)
    return out


def defaultdict_model(eng, f=None, *a):
    if f in (list, set):
        d = VDict()
        d.default = VList if f is list else VSet
        return d
    raise Unsupported("defaultdict")


def print_model(eng, *a, **k):
    return None


def ident_model(eng, x, *a, **k):
    return x


RT_ = RT()


def install():
    import itertools, copy

    M = RT_.models
    for f, m in [
        (isinstance, isinstance_model),
        (len, len_model),
        (list, list_model),
        (tuple, tuple_model),
        (set, set_model),
        (frozenset, set_model),
        (dict, dict_model),
        (any, any_model),
        (all, all_model),
        (next, next_model),
        (str, str_model),
        (bool, bool_model),
        (int, int_model),
        (float, float_model),
        (getattr, getattr_model),
        (hasattr, hasattr_model),
        (repr, repr_model),
        (type, type_model),
        (sorted, sorted_model),
        (enumerate, enumerate_model),
        (zip, zip_model),
        (map, map_model),
        (filter, filter_model),
        (reversed, reversed_model),
        (keyword.iskeyword, iskeyword_model),
        (typing.cast, cast_model),
        (itertools.chain, chain_model),
        (itertools.chain.from_iterable, chain_from),
        (collections.defaultdict, defaultdict_model),
        (print, print_model),
        (setattr, lambda eng, o, n, v: setattr(o, n, v)),
        (ast.fix_missing_locations, ident_model),
        (ast.copy_location, ident_model),
    ]:
        M[id(f)] = m
        KEEP.append(f)


KEEP = []


def model(f):
    def deco(m):
        RT_.models[id(getattr(f, "__func__", f))] = m
        KEEP.append(f)
        return m

    return deco


install()
