"""C02 / C03 / C20: arguments and input models"""
import graphql, keyword, random
from graphql import GraphQLEnumType, GraphQLInputObjectType, GraphQLList, GraphQLNonNull, GraphQLScalarType
from pydantic import ValidationError
from .pipe import *
from .gen import R
from . import server
from .o_results import reject, accept, opclass, drop, put


def by_alias(cls):
    return {(i.alias or f): (f, i) for f, i in cls.model_fields.items()}


def name_ok(f, key):
    need(f.isidentifier() and not keyword.iskeyword(f), f"attribute {f!r} for {key} is not a usable Python name")


def positions(v, t, path=()):
    """(path, type) of every position of an input value, objects expanded"""
    out = []
    nn = isinstance(t, GraphQLNonNull)
    inner = t.of_type if nn else t
    if path:
        out.append((path, t))
    if isinstance(v, list) and isinstance(inner, GraphQLList):
        for i, x in enumerate(v):
            out += positions(x, inner.of_type, path + (i,))
    elif isinstance(v, dict) and isinstance(inner, GraphQLInputObjectType):
        for k, x in v.items():
            out += positions(x, inner.fields[k].type, path + (k,))
    return out


class FakeObj:
    """the variables of an operation seen as one input object"""

    def __init__(self, schema, op):
        self.fields = {}
        for v in op.variable_definitions:
            t = graphql.type_from_ast(schema, v.type)
            self.fields[v.variable.name.value] = (t, v.default_value is not None)


def fields_of(t):
    return {k: (f.type, f.default_value is not graphql.Undefined) for k, f in t.fields.items()}


def check_model(cls, fields, r, rounds, what, oneof=False, coerce=None):
    have = by_alias(cls)
    need(set(have) == set(fields), f"{what}: attributes {sorted(have)} instead of {sorted(fields)}")
    n = 0
    for k, (t, dflt) in fields.items():
        f, i = have[k]
        name_ok(f, k)
        req = isinstance(t, GraphQLNonNull) and not dflt
        need(i.is_required() == req, f"{what}.{k}: {t}{' with default' if dflt else ''} is {'required' if i.is_required() else 'optional'}")
        if not req:
            need(i.get_default(call_default_factory=True) is None, f"{what}.{k}: defaults to {i.get_default(call_default_factory=True)!r} instead of None")
    for k in range(rounds):
        v = {}
        p = [0.0, 1.0, 0.5, 0.8][k % 4]
        for key, (t, dflt) in fields.items():
            req = isinstance(t, GraphQLNonNull) and not dflt
            if req or r.p(p):
                v[key] = server.in_nn(t.of_type, r, 0) if isinstance(t, GraphQLNonNull) else server.input_value(t, r, 0)
        m = accept(cls, v, f"valid values for {what}")
        d = m.model_dump(by_alias=True, exclude_unset=True, mode="json")
        need(tuples(d) == tuples(v), f"{what}: supplied {v!r} serialises to {d!r}")
        for key, (t, dflt) in fields.items():
            if key not in v:
                need(getattr(m, have[key][0]) is None, f"{what}.{key}: unset but {getattr(m, have[key][0])!r}")
        n += 1
        if coerce is not None:
            coerce(d)
        for key, (t, dflt) in fields.items():
            req = isinstance(t, GraphQLNonNull) and not dflt
            if req:
                reject(cls, {x: y for x, y in v.items() if x != key}, f"missing required {key}")
            if isinstance(t, GraphQLNonNull):
                if req:
                    reject(cls, {**v, key: None}, f"null for required {key}")
            else:
                accept(cls, {**v, key: None}, f"null for nullable {key} of {what}")
        for key in list(v):
            t = fields[key][0]
            for path, pt in positions(v[key], t):
                n += 1
                inner = pt.of_type if isinstance(pt, GraphQLNonNull) else pt
                bad = put({"x": v[key]}, ("x",) + path, None)["x"] if path else None
                if path:
                    nn_req = isinstance(pt, GraphQLNonNull)
                    # a non-null input field with default is Optional in Python
                    if nn_req and isinstance(path[-1], int):
                        reject(cls, {**v, key: bad}, f"null at {key}{path}")
                    elif not nn_req:
                        accept(cls, {**v, key: bad}, f"null at nullable {key}{path}")
                for w in wrong_inputs(inner):
                    nv = put({"x": v[key]}, ("x",) + path, w)["x"]
                    reject(cls, {**v, key: nv}, f"{w!r} at {key}{path} of type {pt}")
            inner = t.of_type if isinstance(t, GraphQLNonNull) else t
            for w in wrong_inputs(inner):
                reject(cls, {**v, key: w}, f"{w!r} for {key} of type {t}")
    return n


def wrong_inputs(t):
    if isinstance(t, GraphQLList):
        return [{"no": 1}]
    if isinstance(t, GraphQLScalarType):
        return {"Int": ["zz", [1]], "Float": ["zz"], "Boolean": ["zz"], "String": [["a"]], "ID": [["a"]], "Stamp": [["a"]], "Big": ["zz"], "When": ["zz"]}.get(t.name, [])
    if isinstance(t, GraphQLEnumType):
        return ["NO_SUCH__"]
    return ["str"]


def tuples(x):
    if isinstance(x, dict):
        return {k: tuples(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [tuples(v) for v in x]
    return x


def check_arguments(case, rounds=4):
    g = Gen(case)
    r = R(f"args{case.get('seed', 0)}")
    n = 0
    try:
        for op in g.operations():
            cls = opclass(g, op)
            need("Arguments" in cls.__dict__, f"{cls.__name__} has no Arguments")

            def coerce(d, op=op):
                res = graphql.execution.values.get_variable_values(g.schema, op.variable_definitions, d)
                if isinstance(res, list):
                    raise Bad(f"server rejects variables {d!r} of {op.name.value}: {res[0].message}")

            n += check_model(cls.Arguments, FakeObj(g.schema, op).fields, r, rounds, f"{op.name.value}.Arguments")
            n += 1
        if "inputs" in case["plugins"]:
            for t in g.schema.type_map.values():
                if isinstance(t, GraphQLInputObjectType) and not t.name.startswith("__") and not server.is_oneof(t):
                    if case["pcfg"].get("inputs", {}).get("skip_unreferenced", True) and g.style("input", t.name) not in g.m.__dict__:
                        continue
                    cls = g.cls("input", t.name)
                    n += check_model(cls, fields_of(t), r, rounds, t.name)
    finally:
        unload(g.m)
    return n
