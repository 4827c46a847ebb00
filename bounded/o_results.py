"""C01 / C08: result models against a conforming server"""
import copy, graphql
from graphql import GraphQLEnumType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLScalarType, GraphQLUnionType, FieldNode
from pydantic import ValidationError
from .pipe import *
from .gen import R, pipeline_case
from . import server

KIND = {"query": "query", "mutation": "mutation", "subscription": "subscription"}


def opclass(g, op):
    return g.cls(op.operation.value, op.name.value)


def reject(model, data, what):
    try:
        model.model_validate(data)
    except ValidationError:
        return
    raise Bad(f"{model.__name__} accepts a response with {what}: {str(data)[:300]}")


def accept(model, data, what):
    try:
        return model.model_validate(data)
    except ValidationError as e:
        raise Bad(f"{model.__name__} rejects {what}: {str(data)[:300]} -- {str(e)[:300]}")


def put(data, path, v):
    d = copy.deepcopy(data)
    x = d
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = v
    return d


def drop(data, path):
    d = copy.deepcopy(data)
    x = d
    for p in path[:-1]:
        x = x[p]
    del x[path[-1]]
    return d


def same(resp, dumped, path=""):
    """dumped holds everything of resp (typename may be left out only if nothing asks for it)"""
    if isinstance(resp, dict):
        need(isinstance(dumped, dict), f"at {path}: {resp!r} became {dumped!r}")
        for k, v in resp.items():
            if k not in dumped:
                need(k == "__typename", f"selected value {path}.{k} is lost (have {sorted(dumped)})")
                continue
            same(v, dumped[k], f"{path}.{k}")
        for k in dumped:
            need(k in resp, f"unselected attribute {path}.{k}")
    elif isinstance(resp, list):
        need(isinstance(dumped, (list, tuple)) and len(dumped) == len(resp), f"at {path}: {resp!r} became {dumped!r}")
        for i, (a, b) in enumerate(zip(resp, dumped)):
            same(a, b, f"{path}[{i}]")
    else:
        need(resp == dumped and isinstance(resp, bool) == isinstance(dumped, bool), f"at {path}: {resp!r} became {dumped!r}")


def loose(schema, frags, types, path, catchall):
    """is some enclosing object parsed by a catch-all that ignores this position?"""
    if not catchall:
        return False
    for n in range(1, len(path)):
        p = path[:n]
        if p not in types:
            continue
        t, nodes, parent = types[p]
        if isinstance(graphql.get_named_type(t), GraphQLInterfaceType):
            rest = [x for x in path[n:] if isinstance(x, str)]
            if not rest:
                continue
            common = {(s.alias or s.name).value for nd in nodes for s in nd.selection_set.selections if isinstance(s, FieldNode)}
            if rest[0] not in common:
                return True
    return False


def wrongs(t):
    """values no server may send for a (nullable-stripped) type"""
    if isinstance(t, GraphQLList):
        return [{"no": "list"}]
    if isinstance(t, GraphQLScalarType):
        return {"Int": ["zz", [1]], "Float": ["zz", [1.0]], "Boolean": ["zz", [True]], "String": [["a"], {"a": 1}], "ID": [["a"], {"a": 1}], "Stamp": [["a"]], "Big": ["zz"], "When": ["zz"]}.get(t.name, [])
    if isinstance(t, GraphQLEnumType):
        return ["NO_SUCH_VALUE__", ["x"]]
    return ["str"]


def inst_at(obj, schema_doc, path):
    return None


def check_responses(case, rounds=4):
    g = Gen(case)
    r = R(f"resp{case.get('seed', 0)}")
    n = 0
    try:
        for op in g.operations():
            cls = opclass(g, op)
            doc = graphql.parse(cls.Meta.document)
            for k in range(rounds):
                srv = server.Server(g.schema, doc, r, null=[0.0, 0.25, 0.5, 0.1][k % 4])
                vs = server.minimal_variables(g.schema, op, r, 0.3)
                try:
                    data = srv.run(vs, op.name.value)
                except ValueError as e:
                    if "executor" in str(e) or "rejects" in str(e) or "execution" in str(e):
                        raise Bad(f"document of {op.name.value}: {e}")
                    raise
                m = accept(cls, data, "a conforming response")
                d = m.model_dump(by_alias=True, mode="json")
                same(data, d, op.name.value)
                types_ok(g, m, data, srv, cls)
                n += 1
                unknown_types(g, case, cls, data, srv)
                catchall = case["cfg"].get("create_catchall", True)
                pos = server.positions(data, srv.types)
                r.shuffle(pos)
                for path, t, ctx in pos[:14]:
                    skip = loose(g.schema, srv.frags, srv.types, path, catchall)
                    nn = isinstance(t, GraphQLNonNull)
                    inner = t.of_type if nn else t
                    isfield = isinstance(path[-1], str)
                    if nn:
                        if not skip:
                            reject(cls, put(data, path, None), f"null in non-null position {path}")
                            if isfield:
                                reject(cls, drop(data, path), f"nothing in non-null position {path}")
                    else:
                        accept(cls, put(data, path, None), f"null at nullable {path} of type {t}")
                        if isfield:
                            accept(cls, drop(data, path), f"absent nullable {path} of type {t}")
                    if not skip:
                        for w in wrongs(inner):
                            if isinstance(inner, (GraphQLInterfaceType,)) and False:
                                continue
                            reject(cls, put(data, path, w), f"{w!r} at {path} of type {t}")
                    n += 1
    finally:
        unload(g.m)
    return n


def attr_by_alias(inst, key):
    for f, i in type(inst).model_fields.items():
        if (i.alias or f) == key:
            return getattr(inst, f)
    raise Bad(f"{type(inst).__name__} has no attribute for {key}")


def types_ok(g, m, data, srv, cls):
    """leaf and container types of every parsed position; abstract positions
    land in the alternative of their concrete type"""
    from enum import Enum

    frozen = g.case["cfg"].get("freeze", {})
    for path, t, (nodes, parent) in server.positions(data, srv.types):
        x = m
        for p in path:
            x = x[p] if isinstance(p, int) else attr_by_alias(x, p)
        v = data
        for p in path:
            v = v[p]
        inner = t.of_type if isinstance(t, GraphQLNonNull) else t
        if v is None:
            need(x is None, f"null at {path} parsed to {x!r}")
            continue
        if isinstance(v, list):
            want = tuple if frozen.get("enabled") and frozen.get("convert_list_to_tuple", True) else list
            need(type(x) is want, f"list at {path} parsed to a {type(x).__name__}")
        if isinstance(inner, GraphQLEnumType) and not g.case["cfg"].get("options", {}).get("use_enum_values"):
            need(isinstance(x, Enum) and x.value == v, f"enum at {path} parsed to {x!r} instead of member with value {v}")
        if isinstance(v, dict):
            tn = v.get("__typename")
            if tn is not None and graphql.is_abstract_type(inner):
                lits = typename_literals(type(x))
                need(lits == {tn}, f"{tn} at {path} parsed to {type(x).__name__} pinned to {lits}")


def typename_literals(c):
    import typing

    for f, i in c.model_fields.items():
        if (i.alias or f) == "__typename":
            a = i.annotation
            if typing.get_origin(a) in (typing.Union, getattr(__import__("types"), "UnionType", None)):
                a = next(x for x in typing.get_args(a) if x is not type(None))
            return set(typing.get_args(a)) if typing.get_origin(a) is typing.Literal else {"<any>"}
    return set()


def unknown_types(g, case, cls, data, srv):
    """a type the schema does not know, at the positions of an interface"""
    catchall = case["cfg"].get("create_catchall", True)
    for path, t, (nodes, parent) in server.positions(data, srv.types):
        inner = t.of_type if isinstance(t, GraphQLNonNull) else t
        if not isinstance(inner, GraphQLInterfaceType):
            continue
        v = data
        for p in path:
            v = v[p]
        if not isinstance(v, dict):
            continue
        if loose(g.schema, srv.frags, srv.types, path, catchall):
            continue
        direct = [s for nd in nodes for s in nd.selection_set.selections]
        fields = {(s.alias or s.name).value for s in direct if isinstance(s, FieldNode)}
        if not all(isinstance(s, (FieldNode, graphql.InlineFragmentNode)) for s in direct):
            continue
        common = {k: x for k, x in v.items() if k in fields and k != "__typename"}
        changed = put(data, path, {**common, "__typename": "NotInSchema__"})
        if not catchall:
            reject(cls, changed, f"an unknown type at {path} without catch-all")
            continue
        m = accept(cls, changed, f"an unknown type at {path} with the catch-all enabled")
        x = m
        for p in path:
            x = x[p] if isinstance(p, int) else attr_by_alias(x, p)
        d = x.model_dump(by_alias=True, mode="json")
        same(common, {k: w for k, w in d.items() if k != "__typename"}, f"{path}")


def results_case(seed):
    r = R(f"cfgres{seed}")
    cfg = r.choice([{}, {}, {"create_catchall": False}, {"freeze": {"enabled": True}}, {"freeze": {"enabled": True, "convert_list_to_tuple": False}},
                    {"freeze": {"enabled": True, "types": ["query", "fragment"]}, "create_catchall": False}, {"freeze": {"enabled": False}},
                    {"options": {"enabled": True, "extra": "ignore"}}, {"exclude_typenames": True}])
    return pipeline_case(seed, cfg=cfg)
