"""C14 C15 C17: generated functions and factories"""
import asyncio, collections.abc, datetime, enum, graphql, inspect, keyword, types, typing
from graphql import GraphQLEnumType, GraphQLInputObjectType, GraphQLList, GraphQLNonNull, GraphQLScalarType, FieldNode
from .pipe import *
from .gen import R, pipeline_case
from . import server
from .o_results import opclass
from .o_inputs import tuples

PX = "bounded.proxies."
DEFS = [
    {"type": "query", "use": PX + "execute"},
    {"type": "query", "use": PX + "aexecute", "is_async": True},
    {"type": "mutation", "use": PX + "execute"},
    {"type": "mutation", "use": PX + "aexecute", "is_async": True},
    {"type": "subscription", "use": PX + "subscribe"},
    {"type": "subscription", "use": PX + "asubscribe", "is_async": True},
]
SCAL = {"Int": int, "Float": float, "String": str, "ID": str, "Boolean": bool, "Stamp": str, "Big": int, "When": datetime.datetime}


def funcs_case(seed, **kw):
    r = R(f"funcs{seed}")
    defs = [dict(d) for d in DEFS if r.p(0.8)] or [dict(DEFS[0])]
    r.shuffle(defs)
    for i, d in enumerate(defs):
        if r.p(0.3):
            d["extra_args"] = [{"key": "xlink", "type": PX + "Link"}]
        if r.p(0.3):
            d["extra_kwargs"] = [{"key": "xopt", "type": PX + "Opt"}]
    f = {"definitions": defs, "collapse_lonely": r.p(0.7)}
    if r.p(0.3):
        f["global_args"] = [{"key": "glink", "type": PX + "Link"}]
    if r.p(0.3):
        f["global_kwargs"] = [{"key": "gopt", "type": PX + "Opt", "default": r.choice([None, 5])}]
    if r.p(0.3):
        f["prepend_sync"] = "run_"
    if r.p(0.3):
        f["prepend_async"] = "async_"
    cfg = dict(kw.pop("cfg", {}))
    if r.p(0.3):
        cfg["coercible_scalars"] = {"ID": PX + "Coerced"}
    if r.p(0.3):
        f["coercible_scalars"] = {r.choice(["ID", "String"]): "uuid.UUID"}
    skip = r.p(0.5)
    pc = {"funcs": f, "inputs": {"skip_unreferenced": skip}, "enums": {"skip_unreferenced": skip}, "input_funcs": {"skip_unreferenced": skip or r.p(0.3)}}
    c = pipeline_case(seed, plugins=("enums", "inputs", "fragments", "operations", "funcs", "input_funcs"), pcfg=pc, cfg=cfg, stylers=None, avoid=("data",), **kw)
    return c


def py(name, r):
    return name


def leafs(h):
    """leaf types of an annotation"""
    o = typing.get_origin(h)
    if h is type(None):
        return set()
    if o is typing.Annotated:
        return leafs(typing.get_args(h)[0])
    if o is typing.Literal:
        return {"literal"}
    if o is not None:
        out = set()
        for a in typing.get_args(h):
            if a is not Ellipsis:
                out |= leafs(a)
        return out
    if isinstance(h, type) and h.__name__ == "UnsetType":
        return set()
    return {h}


def depth_ok(h, t, where):
    """list nesting and nullability of a parameter annotation"""
    nullable, alts = split(h)
    if isinstance(t, GraphQLNonNull):
        return depth_ok2(alts, t.of_type, where)
    return depth_ok2(alts, t, where)


def split(h):
    if typing.get_origin(h) in (typing.Union, types.UnionType):
        args = [a for a in typing.get_args(h)]
        alts = [a for a in args if a is not type(None) and not (isinstance(a, type) and a.__name__ == "UnsetType")]
        return type(None) in args, alts
    return False, [h]


def depth_ok2(alts, t, where):
    if isinstance(t, GraphQLList):
        need(len(alts) == 1 and typing.get_origin(alts[0]) in (list, tuple, collections.abc.Iterable, collections.abc.Sequence), f"{where}: {t} is annotated {alts}")
        return depth_ok(typing.get_args(alts[0])[0], t.of_type, where)
    for a in alts:
        need(typing.get_origin(a) not in (list, tuple, collections.abc.Iterable), f"{where}: {t} is annotated {alts}")


def expected_leaf(g, t, coerce, cinputs):
    n = graphql.get_named_type(t)
    if isinstance(n, GraphQLScalarType):
        if n.name in coerce:
            return {import_(coerce[n.name])}
        return {SCAL[n.name]}
    if isinstance(n, GraphQLEnumType):
        return {g.cls("enum", n.name)}
    c = g.cls("input", n.name)
    out = {c} if isinstance(c, type) else leafs(c)
    if n.name in cinputs:
        out |= {import_(cinputs[n.name])}
    return out


def import_(s):
    import builtins, importlib

    if "." not in s:
        return getattr(builtins, s)
    m, n = s.rsplit(".", 1)
    return getattr(importlib.import_module(m), n)


def fname(g, kind, n):
    n = g.style(kind, n)
    return n + "_" if keyword.iskeyword(n) else n


class Result:
    def __init__(self, **k):
        self.__dict__.update(k)


def check_funcs(case, rounds=4):
    from . import proxies
    from .pipe import snake

    g = Gen(case)
    r = R(f"cf{case.get('seed', 0)}")
    pc = case["pcfg"]["funcs"]
    n = 0
    try:
        coerce = {**case["cfg"].get("coercible_scalars", {}), **pc.get("coercible_scalars", {})}
        cin = {**case["cfg"].get("coercible_inputs", {}), **pc.get("coercible_inputs", {})}
        want_names = set()
        for op in g.operations():
            for d in pc["definitions"]:
                if d["type"] != op.operation.value:
                    continue
                is_async = d.get("is_async", False)
                name = (pc.get("prepend_async", "a") if is_async else pc.get("prepend_sync", "")) + snake(op.name.value)
                opc = opclass(g, op)
                if name == opc.__name__:
                    name += "_"
                f = g.m.__dict__.get(name)
                need(isinstance(f, types.FunctionType), f"no function {name} for {op.operation.value} {op.name.value}")
                want_names.add(name)
                n += check_func(g, f, op, d, pc, opc, r, rounds, is_async, coerce, cin)
        have = {k for k, v in g.m.__dict__.items() if isinstance(v, types.FunctionType) and v.__module__ == g.m.__name__}
        if "input_funcs" not in case["plugins"]:
            need(have == want_names, f"functions {sorted(have)} instead of {sorted(want_names)}")
    finally:
        unload(g.m)
    return n + 1


def check_func(g, f, op, d, pc, opc, r, rounds, is_async, coerce, cin):
    from . import proxies

    extra = [a["key"] for a in pc.get("global_args", []) + d.get("extra_args", [])]
    xkw = pc.get("global_kwargs", []) + d.get("extra_kwargs", [])
    sub = op.operation.value == "subscription"
    vs = [(v.variable.name.value, graphql.type_from_ast(g.schema, v.type), v.default_value is not None) for v in op.variable_definitions]
    req = [(v, t) for v, t, dflt in vs if isinstance(t, GraphQLNonNull) and not dflt]
    opt = [(v, t) for v, t, dflt in vs if not (isinstance(t, GraphQLNonNull) and not dflt)]
    pn = lambda v: fname(g, "parameter", v)
    sig = inspect.signature(f)
    names = list(sig.parameters)
    want = extra + [pn(v) for v, _ in req] + [pn(v) for v, _ in opt] + [k["key"] for k in xkw]
    need(sorted(names) == sorted(want), f"{f.__name__}: parameters {names} instead of {want}")
    need(names[: len(extra)] == extra, f"{f.__name__}: extra arguments {extra} do not come first: {names}")
    for p in extra + [pn(v) for v, _ in req]:
        need(sig.parameters[p].default is inspect.Parameter.empty, f"{f.__name__}: {p} is not required")
    for p in [pn(v) for v, _ in opt] + [k["key"] for k in xkw]:
        need(sig.parameters[p].default is not inspect.Parameter.empty, f"{f.__name__}: {p} is not optional")
    need((inspect.iscoroutinefunction(f) or inspect.isasyncgenfunction(f)) == is_async, f"{f.__name__}: {'not ' if is_async else ''}async")
    hints = typing.get_type_hints(f)
    for v, t, dflt in vs:
        h = hints[pn(v)]
        depth_ok(h, t, f"{f.__name__}({pn(v)})")
        need(leafs(h) == expected_leaf(g, t, coerce, cin), f"{f.__name__}({pn(v)}): annotation {h} for {t}")
    sels = op.selection_set.selections
    collapse = pc.get("collapse_lonely", True) and len(sels) == 1
    key = (sels[0].alias or sels[0].name).value if isinstance(sels[0], FieldNode) else None
    attr = fname(g, "node", key) if key else None
    n = 0
    for k in range(rounds):
        p = [0.0, 1.0, 0.5, 0.5][k % 4]
        vals = {v: server.input_value(t, r) if not isinstance(t, GraphQLNonNull) else server.in_nn(t.of_type, r, 0) for v, t in req}
        for v, t in opt:
            if r.p(p):
                vals[v] = None if r.p(0.4) else server.in_nn(t.of_type if isinstance(t, GraphQLNonNull) else t, r, 0)
        ex = {e: object() for e in extra}
        kw = {q["key"]: object() for q in xkw if r.p(0.5)}
        proxies.calls.clear()
        results = [Result(**({attr: object()} if collapse else {})) for _ in range(3 if sub else 1)]
        proxies.result[0] = results if sub else results[0]
        call = f(*ex.values(), **{pn(v): x for v, x in vals.items()}, **kw)
        if sub and is_async:
            async def drain(c):
                return [x async for x in c]
            out = asyncio.run(drain(call))
        elif sub:
            out = list(call)
        elif is_async:
            out = asyncio.run(call)
        else:
            out = call
        need(len(proxies.calls) == 1, f"{f.__name__}: proxy called {len(proxies.calls)} times")
        pname, args, kwargs = proxies.calls[0]
        need(pname == d["use"].split(".")[-1], f"{f.__name__}: calls {pname} instead of {d['use']}")
        need(len(args) == len(extra) + 2, f"{f.__name__}: proxy receives {len(args)} arguments")
        need(list(args[: len(extra)]) == list(ex.values()), f"{f.__name__}: extra arguments are not handed on in order")
        need(args[-2] is opc, f"{f.__name__}: proxy receives {args[-2]} instead of {opc}")
        need(args[-1] == vals and type(args[-1]) is dict, f"{f.__name__}: called with {vals!r}, payload {args[-1]!r}")
        wk = {q["key"]: kw.get(q["key"], q.get("default")) for q in xkw}
        need(kwargs == wk, f"{f.__name__}: extra keyword arguments {kwargs!r} instead of {wk!r}")
        exp = [getattr(x, attr) for x in results] if collapse else results
        need((out == exp) if sub else (out is exp[0]), f"{f.__name__}: returns {out!r} instead of {'field ' + str(attr) if collapse else 'the result'}")
        # what the operation class makes of the payload is what was supplied
        if not coerce and not cin:
            opc.Arguments.model_validate(args[-1])
        n += 1
    if req:
        miss = pn(req[0][0])
        try:
            sig.bind(*[object()] * len(extra), **{pn(v): None for v, _ in req[1:]})
        except TypeError:
            pass
        else:
            raise Bad(f"{f.__name__}: can be called without {miss}")
    return n


def check_factories(case, rounds=4):
    g = Gen(case)
    r = R(f"fac{case.get('seed', 0)}")
    pc = case["pcfg"].get("input_funcs", {})
    n = 0
    try:
        coerce = {**case["cfg"].get("coercible_scalars", {}), **pc.get("coercible_scalars", {})}
        cin = {**case["cfg"].get("coercible_inputs", {}), **pc.get("coercible_inputs", {})}
        for t in g.schema.type_map.values():
            if not isinstance(t, GraphQLInputObjectType) or t.name.startswith("_") or server.is_oneof(t):
                continue
            cn = g.style("input", t.name)
            cls = g.m.__dict__.get(cn)
            fn = pc.get("prepend", "") + fname(g, "parameter", t.name)
            if fn == cn:
                fn += "_"
            f = g.m.__dict__.get(fn)
            pr = pc.get("skip_unreferenced", True)
            if cls is None:
                need(case["pcfg"].get("inputs", {}).get("skip_unreferenced", True), f"no model for input {t.name}")
                need(f is None, f"factory {fn} without its model")
                continue
            if f is None:
                need(pr, f"no factory {fn} for input {t.name}")
                continue
            need(isinstance(f, types.FunctionType), f"{fn} is no function")
            sig = inspect.signature(f)
            req = [(k, x.type) for k, x in t.fields.items() if isinstance(x.type, GraphQLNonNull) and x.default_value is graphql.Undefined]
            opt = [(k, x.type) for k, x in t.fields.items() if (k, x.type) not in req]
            pn = lambda k: fname(g, "node", k)
            need(sorted(sig.parameters) == sorted(pn(k) for k in t.fields), f"{fn}: parameters {list(sig.parameters)} for fields {list(t.fields)}")
            for k, _ in req:
                need(sig.parameters[pn(k)].default is inspect.Parameter.empty, f"{fn}: {k} is not required")
            for k, _ in opt:
                need(sig.parameters[pn(k)].default is not inspect.Parameter.empty, f"{fn}: {k} is not optional")
            hints = typing.get_type_hints(f)
            for k, x in t.fields.items():
                depth_ok(hints[pn(k)], x.type, f"{fn}({k})")
                need(leafs(hints[pn(k)]) == expected_leaf(g, x.type, coerce, cin), f"{fn}({k}): annotation {hints[pn(k)]} for {x.type}")
            for i in range(rounds):
                p = [0.0, 1.0, 0.5, 0.5][i % 4]
                vals = {k: server.in_nn(ty.of_type, r, 0) for k, ty in req}
                for k, ty in opt:
                    if r.p(p):
                        vals[k] = None if r.p(0.4) else server.in_nn(ty.of_type if isinstance(ty, GraphQLNonNull) else ty, r, 0)
                m = f(**{pn(k): v for k, v in vals.items()})
                need(isinstance(m, cls), f"{fn} builds {type(m)}")
                dd = m.model_dump(by_alias=True, exclude_unset=True, mode="json")
                need(tuples(dd) == tuples(vals), f"{fn}: called with {vals!r}, builds {dd!r}")
                n += 1
    finally:
        unload(g.m)
    return n + 1
