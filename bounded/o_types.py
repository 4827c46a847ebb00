"""C13 C16 C17 C20 C22: enums, pruning, scalars, metadata, schema objects"""
import ast, enum, graphql, inspect, json, keyword, typing, types, collections.abc
from graphql import (
    GraphQLEnumType, GraphQLInputObjectType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType, GraphQLScalarType, GraphQLUnionType,
    FieldNode, FragmentSpreadNode, InlineFragmentNode, OperationDefinitionNode, FragmentDefinitionNode,
)
from pydantic import TypeAdapter
from .pipe import *
from .gen import R, pipeline_case, Schema, STYLERS
from . import server
from .o_results import opclass, accept, attr_by_alias
from .o_inputs import by_alias, name_ok, fields_of, FakeObj


# ---------------------------------------------------------------- reachability
def union_members(schema):
    """tagged union name -> member input names, from the SDL directives"""
    out = {}
    for t in schema.type_map.values():
        if isinstance(t, GraphQLInputObjectType) and t.ast_node:
            for d in t.ast_node.directives:
                if d.name.value == "unionElementOf":
                    a = {x.name.value: x.value.value for x in d.arguments}
                    out.setdefault(a.get("union"), set()).add(t.name)
    return out


def reachable(schema, doc):
    """names of the enums and inputs the documents need"""
    enums, inputs = set(), set()
    members = union_members(schema)

    def inp(t):
        t = graphql.get_named_type(t)
        if isinstance(t, GraphQLEnumType):
            enums.add(t.name)
        elif isinstance(t, GraphQLInputObjectType) and t.name not in inputs:
            inputs.add(t.name)
            for f in t.fields.values():
                inp(f.type)
            for m in members.get(t.name, ()):
                inp(schema.type_map[m])

    def sel(ss, parent):
        for s in ss.selections:
            if isinstance(s, FieldNode):
                if s.name.value.startswith("__"):
                    continue
                t = parent.fields[s.name.value].type
                n = graphql.get_named_type(t)
                if isinstance(n, GraphQLEnumType):
                    enums.add(n.name)
                if s.selection_set:
                    sel(s.selection_set, n)
            elif isinstance(s, InlineFragmentNode):
                sel(s.selection_set, schema.type_map[s.type_condition.name.value] if s.type_condition else parent)

    for d in doc.definitions:
        if isinstance(d, OperationDefinitionNode):
            for v in d.variable_definitions:
                inp(graphql.type_from_ast(schema, v.type))
            sel(d.selection_set, schema.get_root_type(d.operation))
        elif isinstance(d, FragmentDefinitionNode):
            sel(d.selection_set, schema.type_map[d.type_condition.name.value])
    return enums, inputs


def under(name, conf, single_default, double_default):
    if name.startswith("_") and conf.get("skip_underscore", single_default):
        return False
    if name.startswith("__") and conf.get("skip_double_underscore", double_default):
        return False
    return True


def expected_types(case, schema, doc):
    """the enum and input types a case has to emit"""
    pe, pi = case["pcfg"].get("enums", {}), case["pcfg"].get("inputs", {})
    re, ri = reachable(schema, doc) if doc else (set(), set())
    E = [t for t in schema.type_map.values() if isinstance(t, GraphQLEnumType)]
    I = [t for t in schema.type_map.values() if isinstance(t, GraphQLInputObjectType)]
    if doc and pe.get("skip_unreferenced", True):
        E = [t for t in E if t.name in re]
    if doc and pi.get("skip_unreferenced", True):
        I = [t for t in I if t.name in ri]
    E = [t for t in E if under(t.name, pe, False, True)]
    I = [t for t in I if under(t.name, pi, True, False)]
    return E, I


# ---------------------------------------------------------------- C13
def enum_case(seed, **kw):
    r = R(f"enum{seed}")
    pc = {"enums": {k: r.p(0.5) for k in ("skip_underscore", "skip_double_underscore", "skip_unreferenced") if r.p(0.6)}}
    full = r.p(0.5)
    c = pipeline_case(seed, plugins=("enums", "inputs", "fragments", "operations") if full else ("enums",), pcfg=pc, stylers=r.choice(STYLERS + [[["mark", {"mark": "Z"}]]]), **kw)
    if not full:
        vals = r.some("_a __b ok Red red RED value_ _Z true_x NONE".split(), 1, 4)
        c["sdl"] += "enum _Hidden { " + " ".join(v for v in vals if not v.startswith("__")) + " plain }\n"
        if r.p(0.5):
            c["sdl"] += 'enum Documented { """first"""\n One @deprecated(reason: "gone") \n """sec"""\n two Three @deprecated }\n'
        if r.p(0.3):
            c["docs"] = []
    else:
        pc["enums"].pop("skip_unreferenced", None) if not pc["enums"].get("skip_unreferenced", True) else None
    return c


def check_enums(case):
    g = Gen(case)
    n = 0
    try:
        tree = ast.parse(g.code)
        E, _ = expected_types(case, g.schema, g.doc)
        want = {}
        for t in E:
            want[g.style("enum", t.name) + ("_" if keyword.iskeyword(g.style("enum", t.name)) else "")] = t
        names = [c.name for c in tree.body if isinstance(c, ast.ClassDef)]
        for cn, t in want.items():
            need(names.count(cn) == 1, f"enum {t.name}: {names.count(cn)} classes {cn}")
            check_enum(g.m.__dict__[cn], t)
            n += len(t.values)
        for c in tree.body:
            if isinstance(c, ast.ClassDef) and isinstance(g.m.__dict__.get(c.name), type) and issubclass(g.m.__dict__[c.name], enum.Enum):
                need(c.name in want or c.name.startswith("__"), f"enum class {c.name} is emitted although the filters exclude it")
        n += 1
    finally:
        unload(g.m)
    return n


def check_enum(c, t):
    need(isinstance(c, type) and issubclass(c, str) and issubclass(c, enum.Enum), f"{t.name} is no string enum")
    vals = list(t.values)
    got = [m.value for m in c]
    need(got == vals and len(c.__members__) == len(vals), f"enum {t.name} has values {got} (members {list(c.__members__)}) instead of {vals}")
    ta = TypeAdapter(c)
    for v, m in zip(vals, c):
        need(type(m.value) is str and m == v, f"{t.name}.{m.name} is {m.value!r} instead of {v!r}")
        need(m.name == v or not v.isidentifier() or keyword.iskeyword(v) or m.name == v + "_", f"{t.name}: member for {v} is called {m.name}")
        need(ta.validate_python(v) is m and ta.validate_json(json.dumps(v)) is m and ta.dump_python(m, mode="json") == v, f"{t.name}.{v} does not survive a round trip")
        need(m.name.isidentifier() and not keyword.iskeyword(m.name), f"{t.name}.{m.name} is no identifier")


# ---------------------------------------------------------------- C16
def pruning_case(seed, **kw):
    r = R(f"prune{seed}")
    pc = {"enums": {}, "inputs": {}}
    mode = r.choice(["both", "both", "none", "none", "inputs"])
    if mode == "none":
        pc = {"enums": {"skip_unreferenced": False}, "inputs": {"skip_unreferenced": False}}
    elif mode == "inputs":
        pc = {"enums": {"skip_unreferenced": False}, "inputs": {}}
    return pipeline_case(seed, pcfg=pc, stylers=r.choice([[], ["default"]]), many_enums=r.p(0.6), **kw)


def check_pruning(case):
    code = generate(case)
    schema = graphql.build_schema(case["sdl"])
    doc = graphql.parse("\n".join(case["docs"])) if case["docs"] else None
    E, I = expected_types(case, schema, doc)
    tree = ast.parse(code)
    have = [c.name for c in tree.body if isinstance(c, ast.ClassDef)] + [t.id for s in tree.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)]
    fake = type("G", (), {"case": case})()
    style = lambda k, n: Gen.style(fake, k, n)
    n = 0
    for kind, want, cls in (("enum", E, GraphQLEnumType), ("input", I, GraphQLInputObjectType)):
        names = {t.name for t in want}
        for t in schema.type_map.values():
            if isinstance(t, cls) and not t.name.startswith("__"):
                c = have.count(style(kind, t.name))
                if t.name in names:
                    need(c == 1, f"{kind} {t.name} is needed but emitted {c} times")
                else:
                    need(c == 0, f"{kind} {t.name} is emitted although nothing needs it")
                n += 1
    return n


# ---------------------------------------------------------------- C17
PYT = {
    "str": (lambda r: r.choice(["a", "b c"]), "str"),
    "int": (lambda r: r.randint(0, 9), "int"),
    "float": (lambda r: r.choice([1.5, 2.25]), "float"),
    "bool": (lambda r: r.p(0.5), "bool"),
    "datetime.datetime": (lambda r: "2020-01-02T03:04:05", "datetime"),
    "datetime.date": (lambda r: "2020-01-02", "date"),
    "uuid.UUID": (lambda r: "12345678-1234-5678-1234-567812345678", "UUID"),
    "decimal.Decimal": (lambda r: "1.5", "Decimal"),
    "bounded.proxies.Text": (lambda r: r.choice(["t", "u v"]), "Text"),
}


def pytype(path):
    import importlib, builtins

    if "." not in path:
        return getattr(builtins, path)
    a, b = path.rsplit(".", 1)
    return getattr(importlib.import_module(a), b)


def scalar_case(seed):
    r = R(f"scal{seed}")
    defs = {}
    for s in ("Stamp", "Big", "When", "ID", "Int", "Float", "String", "Boolean"):
        if s in ("Stamp", "Big", "When") or r.p(0.3):
            defs[s] = r.choice(list(PYT))
    # wire values of the overridden scalars are strings or numbers a server may send
    c = pipeline_case(seed, cfg={"scalar_definitions": defs}, pcfg={"inputs": {"skip_unreferenced": True}}, stylers=[])
    used = {s for s in ("Stamp", "Big", "When") if f"scalar {s}" in c["sdl"]}
    c["cfg"]["scalar_definitions"] = {k: v for k, v in defs.items() if k in used or k not in ("Stamp", "Big", "When")}
    return c


DEFAULTS = {"ID": "str", "String": "str", "Int": "int", "Boolean": "bool", "Float": "float"}


def leafs(h):
    o = typing.get_origin(h)
    if h is type(None):
        return set()
    if o is typing.Annotated:
        return leafs(typing.get_args(h)[0])
    if o is typing.Literal:
        return set()
    if o is not None:
        return set().union(*[leafs(a) for a in typing.get_args(h) if a is not Ellipsis])
    return {h}


def check_scalars(case):
    g = Gen(case)
    r = R(f"scalars{case['seed']}")
    m = {**DEFAULTS, **case["cfg"].get("scalar_definitions", {})}
    n = 0
    server.OVERRIDE = {s: PYT[p][0] for s, p in m.items() if p in PYT}
    try:
        # arguments and inputs: the annotation itself
        def model(cls, fields, what):
            nonlocal n
            have = by_alias(cls)
            for k, (t, _) in fields.items():
                named = graphql.get_named_type(t)
                if isinstance(named, GraphQLScalarType):
                    f, i = have[k]
                    need(leafs(i.annotation) == {pytype(m[named.name])}, f"{what}.{k}: {t} is annotated {i.annotation}")
                    n += 1

        for op in g.operations():
            model(opclass(g, op).Arguments, FakeObj(g.schema, op).fields, op.name.value + ".Arguments")
        for t in expected_types(case, g.schema, g.doc)[1]:
            c = g.cls("input", t.name)
            if isinstance(c, type) and not server.is_oneof(t):
                model(c, fields_of(t), t.name)
        # results: what a response is parsed to
        for op in g.operations():
            cls = opclass(g, op)
            doc = graphql.parse(cls.Meta.document)
            for k in range(3):
                srv = server.Server(loose_scalars(g.schema), doc, r, null=0.1)
                vs = server.minimal_variables(g.schema, op, r, 0.0)
                data = srv.run(vs, op.name.value)
                inst = accept(cls, data, "a response whose scalars have the configured types")
                for path, t, ctx in server.positions(data, srv.types):
                    inner = t.of_type if isinstance(t, GraphQLNonNull) else t
                    if not isinstance(inner, GraphQLScalarType):
                        continue
                    x = inst
                    for p in path:
                        x = x[p] if isinstance(p, int) else attr_by_alias(x, p)
                    if x is not None:
                        need(type(x) is pytype(m[inner.name]), f"{inner.name} at {path} is parsed to {type(x).__name__}, configured is {m[inner.name]}")
                        n += 1
    finally:
        server.OVERRIDE = {}
        unload(g.m)
    return n


def loose_scalars(schema):
    """the executor must pass the chosen values through unchanged"""
    for t in schema.type_map.values():
        if isinstance(t, GraphQLScalarType) and not t.name.startswith("__"):
            t.serialize = lambda v: v
            t.parse_value = lambda v: v
            t.parse_literal = lambda v, _=None: graphql.value_from_ast_untyped(v)
    return schema


def unmapped_case(seed):
    r = R(f"unm{seed}")
    for k in range(100):
        c = pipeline_case(f"{seed}.{k}", stylers=[])
        custom = dict(c["cfg"].get("scalar_definitions") or {})
        if not custom:
            continue
        s = r.choice(sorted(custom))
        c["drop"] = s
        return c
    raise RuntimeError("no case")


def uses_scalar(case, name):
    schema = graphql.build_schema(case["sdl"])
    doc = graphql.parse("\n".join(case["docs"]))
    hit = False
    _, I = expected_types(case, schema, doc)
    for t in I:
        hit |= any(graphql.get_named_type(f.type).name == name for f in t.fields.values())
    ti = graphql.TypeInfo(schema)

    class V(graphql.Visitor):
        def enter_field(self, node, *_):
            nonlocal hit
            t = ti.get_type()
            if t and graphql.get_named_type(t).name == name:
                hit = True

    graphql.visit(doc, graphql.TypeInfoVisitor(ti, V()))
    for d in doc.definitions:
        if isinstance(d, OperationDefinitionNode):
            hit |= any(graphql.get_named_type(graphql.type_from_ast(schema, v.type)).name == name for v in d.variable_definitions)
    return hit


def chain(e):
    out = []
    while e is not None and e not in out:
        out.append(e)
        e = e.__cause__ or e.__context__
    return out


def check_unmapped(case):
    name = case["drop"]
    c = dict(case, cfg={**case["cfg"], "scalar_definitions": {k: v for k, v in case["cfg"]["scalar_definitions"].items() if k != name}})
    uses = uses_scalar(c, name)
    try:
        code = generate(c)
    except Exception as e:
        from turms.errors import GenerationError

        need(uses, f"scalar {name} is not used, yet generation fails: {str(e)[:200]}")
        need(any(name in str(x) for x in chain(e)), f"the error does not name the unmapped scalar {name}: {str(e)[:200]}")
        return 1
    need(not uses, f"scalar {name} has no Python type but generation succeeds")
    return 1


# ---------------------------------------------------------------- C20
def meta_case(seed):
    r = R(f"meta{seed}")
    cfg = {}
    if r.p(0.3):
        cfg["deprecated_class"] = "bounded.proxies.Marker"
    if r.p(0.3):
        cfg["graphql_default_class"] = "bounded.proxies.Marker2"
    if r.p(0.4):
        cfg["document_field_metadata"] = False
    pl = ("enums", "inputs", "fragments", "operations") if r.p(0.8) else ("enums", "inputs", "objects")
    return pipeline_case(seed, plugins=pl, cfg=cfg, pcfg={"inputs": {"skip_unreferenced": False}, "enums": {"skip_unreferenced": False}}, stylers=[])


def markers(g, i):
    """(deprecation, default) marker payloads of a field"""
    dep, dfl = [], []
    DC = g.case["cfg"].get("deprecated_class")
    GC = g.case["cfg"].get("graphql_default_class")
    for x in i.metadata:
        n = type(x).__module__ + "." + type(x).__name__
        if DC and n == DC:
            dep.append(x.args[0])
        elif not DC and type(x).__name__ == "Deprecated" and type(x).__module__ == g.m.__name__:
            dep.append(x.reason)
        elif GC and n == GC:
            dfl.append(x.args[0])
        elif not GC and type(x).__name__ == "GraphQLDefault" and type(x).__module__ == g.m.__name__:
            dfl.append(x.value)
        elif type(x).__name__ in ("Deprecated", "GraphQLDefault", "Marker", "Marker2"):
            raise Bad(f"marker {x!r} of the wrong class")
    return dep, dfl


def is_default(marker, value, t):
    """the marker records the declared default"""
    if isinstance(marker, str) and not isinstance(value, str):
        try:
            marker = ast.literal_eval(marker)
        except (ValueError, SyntaxError):
            return False
    if isinstance(value, list) and isinstance(marker, tuple):
        marker = list(marker)
    return marker == value and isinstance(marker, bool) == isinstance(value, bool)


def check_marks(g, i, reason, has, value, t, what):
    dep, dfl = markers(g, i)
    need(dep == ([reason] if reason is not None else []), f"{what}: deprecation markers {dep} for reason {reason!r}")
    if has and value is not None:
        need(len(dfl) == 1 and is_default(dfl[0], value, t), f"{what}: default markers {dfl} for default {value!r}")
    else:
        need(dfl == [], f"{what}: default markers {dfl} without a non-null default")


def check_metadata(case):
    g = Gen(case)
    r = R(f"metad{case['seed']}")
    n = 0
    tree = ast.parse(g.code)
    try:
        for t in expected_types(case, g.schema, None)[1]:
            cls = g.cls("input", t.name)
            have = by_alias(cls)
            docs = comments(tree, cls.__name__)
            for k, f in t.fields.items():
                has = f.default_value is not graphql.Undefined
                check_marks(g, have[k][1], f.deprecation_reason, has, f.default_value, f.type, f"{t.name}.{k}")
                need((have[k][1].description or None) == (f.description or None), f"{t.name}.{k}: description {have[k][1].description!r}")
                check_doc(case, docs.get(have[k][0]), f, has, f.default_value, f"{t.name}.{k}")
                n += 1
        if "objects" in case["plugins"]:
            for t in g.schema.type_map.values():
                if isinstance(t, GraphQLObjectType) and not t.name.startswith("__"):
                    cls = g.m.__dict__[t.name]
                    have = by_alias(cls)
                    docs = comments(tree, cls.__name__)
                    for k, f in t.fields.items():
                        check_marks(g, have[k][1], f.deprecation_reason, False, None, f.type, f"{t.name}.{k}")
                        check_doc(case, docs.get(have[k][0]), f, False, None, f"{t.name}.{k}")
                        n += 1
            return n
        for op in g.operations():
            cls = opclass(g, op)
            have = by_alias(cls.Arguments)
            for v in op.variable_definitions:
                t = graphql.type_from_ast(g.schema, v.type)
                has = v.default_value is not None
                val = graphql.value_from_ast_untyped(v.default_value) if has else None
                check_marks(g, have[v.variable.name.value][1], None, has, val, t, f"{op.name.value}.${v.variable.name.value}")
                n += 1
            doc = graphql.parse(cls.Meta.document)
            for k in range(3):
                srv = server.Server(g.schema, doc, r, null=0.0)
                data = srv.run(server.minimal_variables(g.schema, op, r, 0.0), op.name.value)
                inst = accept(cls, data, "a response")
                for path, (t, nodes, parent) in srv.types.items():
                    x = inst
                    try:
                        for p in path[:-1]:
                            x = x[p] if isinstance(p, int) else attr_by_alias(x, p)
                    except Bad:
                        continue
                    if nodes[0].name.value.startswith("__"):
                        continue
                    f = parent.fields[nodes[0].name.value]
                    hit = [i for a, i in type(x).model_fields.items() if (i.alias or a) == path[-1]]
                    need(len(hit) == 1, f"{path}: no attribute")
                    check_marks(g, hit[0], f.deprecation_reason, False, None, t, f"result {path}")
                    n += 1
    finally:
        unload(g.m)
    return n


def comments(tree, cname):
    out = {}
    for c in tree.body:
        if isinstance(c, ast.ClassDef) and c.name == cname:
            for a, b in zip(c.body, c.body[1:]):
                if isinstance(a, ast.AnnAssign) and isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                    out[a.target.id] = b.value.value
    return out


def check_doc(case, doc, f, has, value, what):
    on = case["cfg"].get("document_field_metadata", True)
    d = doc or ""
    if not on:
        rest = d.replace(f.description or "", "")
        need("DEPRECATED" not in rest and "Default:" not in rest, f"{what}: metadata is documented although that is switched off: {d!r}")
        return
    if f.deprecation_reason:
        need(f.deprecation_reason in d, f"{what}: documentation {d!r} lacks the deprecation reason {f.deprecation_reason!r}")
        if f.description:
            need(f.description in d, f"{what}: documentation {d!r} lacks the description")
    elif f.deprecation_reason is None:
        need("DEPRECATED" not in d, f"{what}: documentation {d!r} of a field that is not deprecated")
    if has and value is not None:
        rest = d.replace(f.description, "", 1) if f.description else d
        need("default" in rest.lower() and str(value) in d, f"{what}: documentation {d!r} lacks the default {value!r}")


# ---------------------------------------------------------------- C22
def objects_case(seed):
    from .gen import FIELD_NAMES, norm, SCALARS

    r = R(f"obj{seed}")
    names = r.sample("Alpha beta Gamma snake_t Xray Node Person Robot Http Leaf Branch Zed".split(), 12)
    enums = {"ColorE": ["RED", "None", "blue"]}
    ni, no = r.randint(1, 4), r.randint(2, 4)
    I = [names.pop() + "I" for _ in range(ni)]
    O = [names.pop() for _ in range(no)]
    U = {names.pop() + "U": r.some(O, 1, 3)} if r.p(0.6) else {}
    outs = O + I + list(U)
    avoid = ("name",)
    pool = [f for f in FIELD_NAMES if norm(f) not in ("nameof",)]
    taken = set()

    def wrap(b):
        t = b + ("!" if r.p(0.5) else "")
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            t = f"[{t}]" + ("!" if r.p(0.5) else "")
        return t

    def fields(k):
        out = {}
        for f in r.sample(pool, len(pool)):
            if norm(f) in taken or len(out) >= k:
                continue
            taken.add(norm(f))
            b = r.choice(outs) if r.p(0.4) else r.choice(SCALARS + list(enums))
            out[f] = wrap(b) + r.choice(["", "", "", ' @deprecated(reason: "old")'])
        return out

    # interface hierarchy: i may implement earlier ones (closed upwards)
    own = {i: fields(2) for i in I}
    ups = {}
    for k, i in enumerate(I):
        s = set()
        for j in r.some(I[:k], 0, 2) if r.p(0.7) else []:
            s |= {j} | ups[j]
        ups[i] = s
    impl = {o: set() for o in O}
    for i in I:
        for o in r.some(O, 1, 2):
            impl[o] |= {i} | ups[i]
    sdl = ""
    def body(own_, ifs):
        fs = dict(own_)
        for j in I:
            if j in ifs:
                fs.update(own[j])
        return "{ " + " ".join(f"{f}: {t}\n" for f, t in fs.items()) + "}\n"
    imp = lambda s: (" implements " + " & ".join(r.sample(sorted(s), len(s)))) if s else ""
    decls = [f"interface {i}{imp(ups[i])} {body(own[i], ups[i])}" for i in I]
    for o in O:
        decls.append(f"type {o}{imp(impl[o])} {body(fields(2), impl[o])}")
    decls += [f"union {u} = {' | '.join(m)}\n" for u, m in U.items()]
    decls += [f"enum {e} {{ {' '.join(v)} }}\n" for e, v in enums.items()]
    decls.append(f"type Query {{ q: {r.choice(outs)} }}\n")
    if r.p(0.3):
        decls.append("type _Secret { x: Int }\n")
    r.shuffle(decls)
    cfg = {}
    if r.p(0.3):
        cfg["freeze"] = {"enabled": True, "convert_list_to_tuple": r.p(0.5)}
    pc = {"objects": {"skip_underscore": True} if r.p(0.5) else {}}
    return {"seed": seed, "sdl": "".join(decls), "docs": [], "cfg": cfg, "pcfg": pc, "plugins": ["enums", "objects"], "stylers": r.choice([[], [], ["snake"], ["default"], [["mark", {"mark": "M"}]]])}


def check_objects(case):
    g = Gen(case)
    n = 0
    pc = case["pcfg"].get("objects", {})
    fz = case["cfg"].get("freeze", {})
    tup = fz.get("enabled") and fz.get("convert_list_to_tuple", True)
    try:
        tree = ast.parse(g.code)
        classes = [c.name for c in tree.body if isinstance(c, ast.ClassDef)]
        cname = {}
        for t in g.schema.type_map.values():
            if isinstance(t, (GraphQLObjectType, GraphQLInterfaceType)):
                s = g.style("object", t.name)
                cn = s + "Base" if isinstance(t, GraphQLInterfaceType) else s
                want = under(t.name, pc, False, True)
                need(classes.count(cn) == (1 if want else 0), f"{t.name}: {classes.count(cn)} classes {cn}, expected {int(want)}")
                if want:
                    cname[t.name] = cn
        for tn, cn in cname.items():
            t = g.schema.type_map[tn]
            cls = g.m.__dict__[cn]
            have = by_alias(cls)
            need(set(have) == set(t.fields), f"{tn}: attributes {sorted(have)} instead of {sorted(t.fields)}")
            for k, f in t.fields.items():
                a, i = have[k]
                name_ok(a, k)
                nn = isinstance(f.type, GraphQLNonNull)
                need(i.is_required() == nn, f"{tn}.{k}: {f.type} is {'required' if i.is_required() else 'optional'}")
                if not nn:
                    need(i.default is None, f"{tn}.{k}: default {i.default!r}")
                shape(g, i.annotation, f.type, f"{tn}.{k}", tup)
                n += 1
            ifs = {cname[x.name] for x in t.interfaces if x.name in cname}
            got = {c.__name__ for c in cls.__mro__[1:] if c.__name__ in {v for q, v in cname.items() if isinstance(g.schema.type_map[q], GraphQLInterfaceType)}}
            need(ifs == got, f"{cn} inherits {sorted(got)} instead of {sorted(ifs)}")
            direct = [b.__name__ for b in cls.__bases__]
            exp = {cname[x.name] for x in t.interfaces if not any(x in y.interfaces for y in t.interfaces)}
            need(exp <= set(direct) or exp <= got, f"{cn}: direct bases {direct}, expected {sorted(exp)}")
    finally:
        unload(g.m)
    return n


def resolve(g, h):
    if isinstance(h, str):
        return g.m.__dict__[h]
    if isinstance(h, typing.ForwardRef):
        return g.m.__dict__[h.__forward_arg__]
    return h


def alts(g, h):
    h = resolve(g, h)
    if typing.get_origin(h) is typing.Annotated:
        return alts(g, typing.get_args(h)[0])
    if typing.get_origin(h) in (typing.Union, types.UnionType):
        out = []
        for a in typing.get_args(h):
            out += alts(g, a)
        return out
    return [h]


def shape(g, h, t, where, tup):
    """the annotation admits exactly what the type admits"""
    xs = alts(g, h)
    nn = isinstance(t, GraphQLNonNull)
    need((type(None) in xs) == (not nn), f"{where}: {t} is annotated {h}")
    xs = [x for x in xs if x is not type(None)]
    inner = t.of_type if nn else t
    if isinstance(inner, GraphQLList):
        need(len(xs) == 1 and typing.get_origin(xs[0]) is (tuple if tup else list), f"{where}: {t} is annotated {h}")
        args = typing.get_args(xs[0])
        if tup:
            need(len(args) == 2 and args[1] is Ellipsis, f"{where}: {t} is annotated {h}")
        return shape(g, args[0], inner.of_type, where, tup)
    if isinstance(inner, GraphQLScalarType):
        want = {pytype(DEFAULTS[inner.name])}
    elif isinstance(inner, GraphQLEnumType):
        want = {g.cls("enum", inner.name)}
    elif isinstance(inner, GraphQLObjectType):
        want = {g.cls("object", inner.name)}
    else:
        want = {g.cls("object", x.name) for x in g.schema.get_possible_types(inner)}
    need(set(xs) == want, f"{where}: {t} admits {sorted(getattr(x, '__name__', str(x)) for x in xs)} instead of {sorted(getattr(x, '__name__', str(x)) for x in want)}")


def orphan_case(seed):
    r = R(f"orph{seed}")
    c = objects_case(seed)
    c["sdl"] += "interface LonelyI { z: Int }\n" + ("interface LonelyJ implements LonelyI { z: Int }\n" if r.p(0.3) else "") + "type HasL { l: LonelyI }\n"
    c["cfg"]["always_resolve_interfaces"] = r.p(0.5)
    return c


def check_orphans(case):
    from turms.errors import GenerationError

    if case["cfg"]["always_resolve_interfaces"]:
        try:
            generate(case)
        except Exception as e:
            need(any("Lonely" in str(x) for x in chain(e)), f"error without the interface name: {str(e)[:200]}")
            return 1
        raise Bad("an interface nobody implements is accepted")
    g = Gen(case)
    unload(g.m)
    return 1
