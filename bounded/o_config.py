"""C12 C21: model options and base classes"""
import ast, graphql, keyword
from graphql import GraphQLInputObjectType, GraphQLInterfaceType, GraphQLNonNull, GraphQLObjectType, FieldNode, FragmentDefinitionNode
from .pipe import *
from .gen import R, pipeline_case
from . import server
from .o_results import opclass, accept, attr_by_alias
from .o_types import expected_types, objects_case, under

PX = "bounded.proxies."
KINDS = ["input", "fragment", "object", "query", "mutation", "subscription"]


def type_names(sdl):
    s = graphql.build_schema(sdl)
    return [t.name for t in s.type_map.values() if isinstance(t, (GraphQLObjectType, GraphQLInterfaceType, GraphQLInputObjectType)) and not t.name.startswith("__") and t.name not in ("Query", "Mutation", "Subscription")]


def config_case(seed):
    r = R(f"conf{seed}")
    objs = r.p(0.25)
    if objs:
        c = objects_case(seed)
        c["stylers"] = []
        c["plugins"] = ["enums", "inputs", "objects"]
        c["pcfg"] = {"inputs": {"skip_unreferenced": False}, "enums": {"skip_unreferenced": False}}
        c["cfg"] = {}
        c["sdl"] += "input ExtraIn { a: Int b: [String!] from: Int! }\n"
    else:
        c = pipeline_case(seed, stylers=r.choice([[], ["default"]]), pcfg={"inputs": {"skip_unreferenced": False}, "enums": {"skip_unreferenced": False}})
    names = type_names(c["sdl"])
    cfg = c["cfg"]

    def select():
        d = {"enabled": r.p(0.85)}
        if r.p(0.7):
            d["types"] = r.sample(KINDS, r.randint(0, 5))
        if r.p(0.4):
            d["exclude"] = r.some(names, 0, 3)
        if r.p(0.4):
            d["include"] = r.some(names, 0, 3)
        return d

    if r.p(0.8):
        cfg["freeze"] = {**select(), "convert_list_to_tuple": r.p(0.5)}
    if r.p(0.8):
        o = select()
        if r.p(0.5):
            o["extra"] = r.choice(["ignore", "allow"])
        for k in ("validate_assignment", "allow_population_by_field_name", "use_enum_values", "allow_mutation", "orm_mode"):
            if r.p(0.35):
                o[k] = r.p(0.5)
        cfg["options"] = o
    if r.p(0.4):
        cfg["additional_config"] = {n: {k: v for k, v in (("title", "T"), ("str_max_length", 4000), ("strict", False)) if r.p(0.6)} for n in r.some(names, 1, 3)}
    if r.p(0.3):
        cfg["pydantic_version"] = "v1"
    if not objs and r.p(0.3):
        c["pcfg"]["operations"] = {"arguments_allow_population_by_field_name": r.p(0.5)}
    return c


def selected(sel, kind, tn):
    if not sel or not sel.get("enabled"):
        return False
    if kind not in sel.get("types", ["input", "fragment", "object"]):
        return False
    if sel.get("exclude") and tn in sel["exclude"]:
        return False
    if sel.get("include") and tn not in sel["include"]:
        return False
    return True


V2 = {"allow_population_by_field_name": "populate_by_name"}


def expected_config(case, kind, tn):
    cfg = case["cfg"]
    v1 = cfg.get("pydantic_version", "v2") == "v1"
    out = {}
    if selected(cfg.get("freeze"), kind, tn):
        out["frozen"] = True
    o = cfg.get("options") or {}
    if selected(o, kind, tn):
        for k in ("extra", "validate_assignment", "allow_population_by_field_name", "use_enum_values", "allow_mutation", "orm_mode"):
            if k in o:
                out[k if v1 else V2.get(k, k)] = o[k]
    out.update((cfg.get("additional_config") or {}).get(tn, {}))
    return out


def emitted_config(case, node):
    """configuration of one class of the module"""
    v1 = case["cfg"].get("pydantic_version", "v2") == "v1"
    out = None
    for s in node.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == "model_config":
            need(not v1, f"{node.name}: model_config for pydantic v1")
            need(out is None, f"{node.name}: two configurations")
            out = {}
            for k in s.value.keywords:
                need(k.arg not in out, f"{node.name}: option {k.arg} is set twice")
                out[k.arg] = ast.literal_eval(k.value)
            need(out, f"{node.name}: empty configuration")
        if isinstance(s, ast.ClassDef) and s.name == "Config":
            need(v1, f"{node.name}: Config class for pydantic v2")
            need(out is None, f"{node.name}: two configurations")
            out = {q.targets[0].id: ast.literal_eval(q.value) for q in s.body if isinstance(q, ast.Assign)}
    return out or {}


def classes(tree):
    return {c.name: c for c in tree.body if isinstance(c, ast.ClassDef)}


def result_classes(g, op, r, rounds=4):
    """class -> (kind, concrete type, static type) for the classes parsed values land in"""
    cls = opclass(g, op)
    doc = graphql.parse(cls.Meta.document)
    frs = {g.style("fragment", d.name.value): d for d in g.doc.definitions if isinstance(d, FragmentDefinitionNode)}
    out = {}
    for k in range(rounds):
        srv = server.Server(g.schema, doc, r, null=0.05)
        data = srv.run(server.minimal_variables(g.schema, op, r, 0.0), op.name.value)
        inst = accept(cls, data, "a response")
        for path, t, ctx in server.positions(data, srv.types):
            x, v = inst, data
            for p in path:
                x = x[p] if isinstance(p, int) else attr_by_alias(x, p)
                v = v[p]
            if not isinstance(v, dict) or "__typename" not in v:
                continue
            static = graphql.get_named_type(t)
            n = type(x).__name__
            fr = None
            for f, d in frs.items():
                ft = d.type_condition.name.value
                if n == f or n == f + v["__typename"]:
                    fr = d
            kind = "fragment" if fr is not None or not isinstance(static, GraphQLObjectType) else "object"
            out[type(x)] = (kind, v["__typename"], static, fr)
    return out


def check_options(case):
    g = Gen(case)
    r = R(f"opts{case['seed']}")
    tree = classes(ast.parse(g.code))
    n = 0

    def check(node, kind, tn, what):
        nonlocal n
        want, got = expected_config(case, kind, tn), emitted_config(case, node)
        need(got == want, f"{node.name} ({what}): options {got} instead of {want}")
        n += 1

    try:
        fake = dict(case)
        for t in expected_types(case, g.schema, None)[1]:
            node = tree[g.style("input", t.name)]
            check(node, "input", t.name, f"input {t.name}")
        if "objects" in case["plugins"]:
            for t in g.schema.type_map.values():
                if isinstance(t, (GraphQLObjectType, GraphQLInterfaceType)) and not t.name.startswith("__"):
                    node = tree[t.name + ("Base" if isinstance(t, GraphQLInterfaceType) else "")]
                    check(node, "object", t.name, f"type {t.name}")
            return n
        for op in g.operations():
            node = tree[opclass(g, op).__name__]
            check(node, op.operation.value, None, "operation")
            args = next(c for c in node.body if isinstance(c, ast.ClassDef) and c.name == "Arguments")
            ap = case["pcfg"].get("operations", {}).get("arguments_allow_population_by_field_name")
            v1 = case["cfg"].get("pydantic_version") == "v1"
            got = emitted_config(case, args)
            need(bool(got.pop("allow_population_by_field_name" if v1 else "populate_by_name", False)) == bool(ap), f"{node.name}.Arguments: options {got}")
            for cls, (kind, tn, static, fr) in result_classes(g, op, r).items():
                if cls.__name__ not in tree or cls.__name__.endswith("Catch"):
                    continue
                check(tree[cls.__name__], kind, tn, f"{tn} in {op.name.value}")
        # behaviour: where nothing is inherited from another generated model
        for cls in [v for v in g.m.__dict__.values() if isinstance(v, type) and hasattr(v, "model_fields") and v.__module__ == g.m.__name__]:
            if cls.__name__ in tree and not any(b.__module__ == g.m.__name__ for b in cls.__mro__[1:]):
                want = emitted_config(case, tree[cls.__name__])
                need(bool(cls.model_config.get("frozen")) == bool(want.get("frozen")), f"{cls.__name__}: frozen is {cls.model_config.get('frozen')}")
                need(cls.model_config.get("extra") == want.get("extra"), f"{cls.__name__}: extra is {cls.model_config.get('extra')}")
                n += 1
    finally:
        unload(g.m)
    return n


# ---------------------------------------------------------------- C21
def bases_case(seed):
    r = R(f"bases{seed}")
    objs = r.p(0.2)
    if objs:
        c = objects_case(seed)
        c["stylers"], c["plugins"], c["cfg"] = [], ["enums", "inputs", "objects"], {}
        c["pcfg"] = {"inputs": {"skip_unreferenced": False}, "enums": {"skip_unreferenced": False}}
        c["sdl"] += "input ExtraIn { a: Int b: [String!] from: Int! }\n"
    else:
        c = pipeline_case(seed, stylers=[], pcfg={"inputs": {"skip_unreferenced": False}, "enums": {"skip_unreferenced": False}})
    names = type_names(c["sdl"])
    cfg, pc = c["cfg"], c["pcfg"]
    if r.p(0.7):
        cfg["object_bases"] = [PX + "ObjB"]
    if r.p(0.4):
        cfg["interface_bases"] = [PX + "IfaceB"]
    if r.p(0.8):
        cfg["additional_bases"] = {n: [PX + x for x in r.sample(["XA", "XB", "XC", "XD", "XE", "XF"], r.randint(1, 2))] for n in r.some(names, 1, 4)}
        # one global order, otherwise Python itself cannot linearise the user's wish
        cfg["additional_bases"] = {n: sorted(v) for n, v in cfg["additional_bases"].items()}
    if r.p(0.5):
        pc["inputs"]["inputtype_bases"] = [PX + "InB"]
    if objs:
        if r.p(0.5):
            pc["objects"] = {"types_bases": [PX + "TypB"]}
        return c
    ops = {}
    for k, b in (("query_bases", "QueryB"), ("mutation_bases", "MutB"), ("subscription_bases", "SubB"), ("arguments_bases", "ArgB")):
        if r.p(0.5):
            ops[k] = [PX + b]
    pc["operations"] = ops
    fr = {}
    if r.p(0.4):
        fr["fragment_bases"] = [PX + "FragB"]
    if r.p(0.3):
        fr["object_bases"] = [PX + "FObjB"]
    pc["fragments"] = fr
    return c


ALL = set("XA XB XC XD XE XF ObjB IfaceB QueryB MutB SubB ArgB FragB FObjB InB TypB".split())


def configured(cls):
    return {b.__name__ for b in cls.__mro__ if b.__module__ == "bounded.proxies" and b.__name__ in ALL}


def last(xs):
    return {x.split(".")[-1] for x in xs} & ALL


def check_bases(case):
    g = Gen(case)
    r = R(f"bs{case['seed']}")
    cfg, pc = case["cfg"], case["pcfg"]
    extra = lambda tn: last(cfg.get("additional_bases", {}).get(tn, []))
    obj = last(cfg.get("object_bases", []))
    iface = last(cfg["interface_bases"]) if cfg.get("interface_bases") else obj
    frag = lambda kind: obj | last(pc.get("fragments", {}).get("fragment_bases", [])) | (last(pc.get("fragments", {}).get("object_bases", [])) if kind == "OBJECT" else set())
    n = 0

    def check(cls, own, allowed, what):
        nonlocal n
        have = configured(cls)
        for b in cls.__mro__[1:]:
            if b.__module__ == g.m.__name__:
                allowed = allowed | configured(b)
        need(own <= have, f"{cls.__name__} ({what}) lacks the configured bases {sorted(own - have)}")
        need(have <= own | allowed, f"{cls.__name__} ({what}) has the bases {sorted(have - own - allowed)} configured for others")
        n += 1

    try:
        for t in expected_types(case, g.schema, None)[1]:
            check(g.cls("input", t.name), last(pc["inputs"].get("inputtype_bases", [])) | extra(t.name), set(), f"input {t.name}")
        if "objects" in case["plugins"]:
            for t in g.schema.type_map.values():
                if isinstance(t, (GraphQLObjectType, GraphQLInterfaceType)) and not t.name.startswith("__"):
                    cls = g.m.__dict__[t.name + ("Base" if isinstance(t, GraphQLInterfaceType) else "")]
                    own = last(pc.get("objects", {}).get("types_bases", [])) | extra(t.name)
                    up = set().union(*[extra(i.name) for i in t.interfaces]) if t.interfaces else set()
                    check(cls, own | up, set(), f"type {t.name}")
            return n
        for op in g.operations():
            cls = opclass(g, op)
            o = pc["operations"]
            kind = op.operation.value
            check(cls, last(o[kind + "_bases"]) if o.get(kind + "_bases") else obj, set(), kind)
            check(cls.Arguments, last(o["arguments_bases"]) if o.get("arguments_bases") else obj, set(), "arguments")
            for c, (kind, tn, static, fr) in result_classes(g, op, r).items():
                own = set(extra(tn))
                allowed = set()
                if fr is not None:
                    ft = g.schema.get_type(fr.type_condition.name.value)
                    if isinstance(ft, GraphQLObjectType):
                        own |= frag("OBJECT")
                    elif isinstance(ft, GraphQLInterfaceType):
                        own |= iface | extra(ft.name)
                    else:
                        own |= frag("UNION")
                elif isinstance(static, GraphQLInterfaceType):
                    own |= iface | extra(static.name)
                else:
                    own |= obj
                check(c, own, allowed, f"{tn} in {op.name.value}")
    finally:
        unload(g.m)
    return n
