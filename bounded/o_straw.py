"""C24: the strawberry scaffold, compared with the schema statement by statement"""
import ast, graphql, keyword
from graphql import GraphQLEnumType, GraphQLInputObjectType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType, GraphQLScalarType, GraphQLUnionType
from .pipe import *
from .gen import R, pipeline_case
from .o_types import objects_case

BUILTIN_DIR = {"include", "skip", "deprecated", "specifiedBy", "oneOf"}
PY = {"ID": "str", "String": "str", "Int": "int", "Boolean": "bool", "Float": "float", "DateTime": "datetime"}


def straw_case(seed):
    r = R(f"straw{seed}")
    if r.p(0.5):
        c = pipeline_case(seed, plugins=("strawberry",), stylers=r.choice([[], [], ["default"], ["snake"], [["mark", {"mark": "Z"}]], ["lower"]]))
        c["cfg"] = {}
    else:
        c = objects_case(seed)
        c["cfg"], c["plugins"] = {}, ["strawberry"]
        pc = c["pcfg"].pop("objects", {})
        c["pcfg"] = {"strawberry": pc}
    c["docs"] = []
    c["cfg"]["skip_forwards"] = True
    if r.p(0.5):
        c["sdl"] += 'directive @owner(team: String!, level: Int = 3, tags: [String!], ratio: Float = 1.5, on: Boolean = true, mode: ModeE = ON, list: [Int] = [1, 2]) on OBJECT | FIELD_DEFINITION\nenum ModeE { ON OFF None }\ndirective @plain on INPUT_OBJECT | ENUM | OBJECT\n'
        c["sdl"] += 'type Owned @owner(team: "a\\"b", level: 4, tags: ["x", "y"], ratio: 2.5, on: false, mode: OFF) @plain { z: Int @owner(team: "q") }\ninput OwnedIn @plain { "doc" q: [Int!]! = [1] from: String @deprecated(reason: "r") }\n'
        if r.p(0.5):
            c["sdl"] += "enum Tagged @plain { A B }\n"
    return c


class Straw:
    def __init__(self, case):
        self.case = case
        self.schema = graphql.build_schema(case["sdl"])
        self.code = generate(case)
        self.tree = ast.parse(self.code)
        compile(self.code, "scaffold", "exec")
        self.classes = {}
        for c in self.tree.body:
            if isinstance(c, ast.ClassDef):
                need(c.name not in self.classes, f"class {c.name} is declared twice")
                self.classes[c.name] = c
        self.assigns = {s.targets[0].id: s.value for s in self.tree.body if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name)}

    def style(self, kind, n):
        n = Gen.style(self, kind, n)
        return n + "_" if keyword.iskeyword(n) else n

    def leaf(self, t):
        if isinstance(t, GraphQLScalarType):
            return {PY.get(t.name, t.name)}
        if isinstance(t, GraphQLEnumType):
            return {self.style("enum", t.name)}
        if isinstance(t, GraphQLInputObjectType):
            return {self.style("input", t.name)}
        if isinstance(t, GraphQLUnionType):
            return {self.style("object", x.name) for x in t.types}
        return {self.style("object", t.name)}

    def ann(self, a, t, where):
        """annotation a denotes GraphQL type t"""
        nn = isinstance(t, GraphQLNonNull)
        inner = t.of_type if nn else t
        s = ast.unparse(a)
        if isinstance(a, ast.Subscript) and name(a.value) == "Annotated":
            a = a.slice.elts[0]
        opt = isinstance(a, ast.Subscript) and name(a.value) == "Optional"
        need(opt == (not nn), f"{where}: {t} is annotated {s}")
        if opt:
            a = a.slice
        if isinstance(inner, GraphQLList):
            need(isinstance(a, ast.Subscript) and name(a.value) == "List", f"{where}: {t} is annotated {s}")
            return self.ann(a.slice, inner.of_type, where)
        if isinstance(a, ast.Subscript) and name(a.value) == "Union":
            got = {name(x) for x in (a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice])}
        else:
            got = {name(a)}
        need(got == self.leaf(inner), f"{where}: {t} is annotated {s}")


def name(a):
    if isinstance(a, ast.Name):
        return a.id
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        return a.value
    return ast.unparse(a)


def decos(c):
    out = {}
    for d in c.decorator_list:
        if isinstance(d, ast.Call):
            out[name(d.func)] = {k.arg: k.value for k in d.keywords}
        else:
            out[name(d)] = {}
    return out


def camel(n):
    a = n.split("_")
    return a[0] + "".join(x.capitalize() if x else "_" for x in a[1:])


def wire(pyname, call_kw, key, where):
    """the GraphQL name a strawberry field gets"""
    if "name" in call_kw:
        got = call_kw["name"].value
        need(got == key, f"{where}: published as {got!r}")
    else:
        need(pyname == key, f"{where}: is called {pyname} without keeping its GraphQL name")


def lit(node, v, where, t=None):
    """constant of a directive argument"""
    from graphql import value_from_ast_untyped

    want = value_from_ast_untyped(v)
    try:
        got = ast.literal_eval(node)
    except Exception:
        raise Bad(f"{where}: {graphql.print_ast(v)} became {ast.unparse(node)}")
    need(got == want and isinstance(got, bool) == isinstance(want, bool), f"{where}: {graphql.print_ast(v)} became {got!r}")


def applied(kw, node, where):
    """custom directives applied to a definition"""
    want = [d for d in (node.directives if node else ()) if d.name.value not in BUILTIN_DIR]
    have = kw.get("directives")
    have = have.elts if have is not None else []
    need([name(h.func) for h in have] == [d.name.value for d in want], f"{where}: directives {[ast.unparse(h) for h in have]}")
    for h, d in zip(have, want):
        ks = {k.arg: k.value for k in h.keywords}
        need(set(ks) == {a.name.value for a in d.arguments}, f"{where}: @{d.name.value} has arguments {sorted(ks)}")
        for a in d.arguments:
            lit(ks[a.name.value], a.value, f"{where} @{d.name.value}({a.name.value})")


def check_scaffold(case):
    g = Straw(case)
    pc = case["pcfg"].get("strawberry", {})
    skip = lambda n: n.startswith("__") or n.startswith("_") and pc.get("skip_underscore", False)
    n = 0
    seen = set()
    for t in g.schema.type_map.values():
        tn = t.name
        if isinstance(t, GraphQLInputObjectType):
            kind, deco = "input", "strawberry.input"
        elif isinstance(t, GraphQLEnumType):
            kind, deco = "enum", "strawberry.enum"
        elif isinstance(t, GraphQLInterfaceType):
            kind, deco = "object", "strawberry.interface"
        elif isinstance(t, GraphQLObjectType):
            kind, deco = "object", "strawberry.type"
        else:
            if isinstance(t, GraphQLScalarType) and tn not in PY and not tn.startswith("__"):
                need(tn in g.assigns, f"scalar {tn} is not declared")
            continue
        cn = g.style(kind, tn)
        if skip(tn):
            need(cn not in g.classes, f"{tn} is declared although the filters exclude it")
            continue
        need(cn in g.classes, f"{kind} {tn} is not declared")
        c = g.classes[cn]
        seen.add(cn)
        d = decos(c)
        need(deco in d, f"{tn} is decorated {list(d)}")
        applied(d[deco], t.ast_node, tn)
        if isinstance(t, GraphQLEnumType):
            vals = [(s.targets[0].id, s.value.value) for s in c.body if isinstance(s, ast.Assign)]
            need([v for _, v in vals] == list(t.values), f"enum {tn} declares {vals}")
            need("Enum" in [name(b) for b in c.bases], f"enum {tn} has bases {[name(b) for b in c.bases]}")
            for a, _ in vals:
                need(not keyword.iskeyword(a), f"enum {tn}: member {a}")
            n += 1
            continue
        if isinstance(t, GraphQLInputObjectType):
            from .server import is_oneof

            need(("one_of" in d[deco]) == is_oneof(t), f"{tn}: one_of is {'one_of' in d[deco]}")
        else:
            want = {g.style("object", x.name) for x in t.interfaces if not any(x in y.interfaces for y in t.interfaces)}
            need(want == {name(b) for b in c.bases}, f"{tn} inherits {[name(b) for b in c.bases]} instead of {sorted(want)}")
        have = {}
        for s in c.body:
            if isinstance(s, ast.AnnAssign):
                have[s.target.id] = s
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                have[s.name] = s
        need(len(have) == len(t.fields), f"{tn} declares {sorted(have)} for {sorted(t.fields)}")
        for k, f in t.fields.items():
            a = g.style("node", k)
            where = f"{tn}.{k}"
            need(a in have, f"{where} is not declared (have {sorted(have)})")
            s = have[a]
            if isinstance(s, ast.AnnAssign):
                need(not getattr(f, "args", None), f"{where}: arguments {sorted(f.args)} are not declared" if getattr(f, "args", None) else "")
                g.ann(s.annotation, f.type, where)
                kw = {x.arg: x.value for x in s.value.keywords} if isinstance(s.value, ast.Call) else {}
            else:
                ret = s.returns
                dk = decos(s)
                root = {"Mutation": "strawberry.mutation", "Subscription": "strawberry.subscription"}.get(tn, "strawberry.field")
                need(root in dk, f"{where} is decorated {list(dk)}")
                kw = dk[root]
                if tn == "Subscription":
                    need(isinstance(s, ast.AsyncFunctionDef) and name(ret.value) == "AsyncGenerator", f"{where}: not an async generator")
                    ret = ret.slice.elts[0]
                g.ann(ret, f.type, where)
                args = s.args.args[1:]
                need(s.args.args[0].arg == "self" and len(args) == len(f.args), f"{where}: arguments {[x.arg for x in args]} for {sorted(f.args)}")
                nd = len(s.args.defaults)
                dfl = dict(zip([x.arg for x in args][len(args) - nd:] if nd else [], s.args.defaults))
                byname = {x.arg: x for x in args}
                for ak, arg in f.args.items():
                    an = g.style("parameter", ak)
                    need(an in byname, f"{where}({ak}) is not declared")
                    x = byname[an]
                    g.ann(x.annotation, arg.type, f"{where}({ak})")
                    akw = {}
                    if isinstance(x.annotation, ast.Subscript) and name(x.annotation.value) == "Annotated":
                        akw = {q.arg: q.value for q in x.annotation.slice.elts[1].keywords}
                    wire(an, akw, ak, f"{where}({ak})")
                    has = arg.default_value is not graphql.Undefined
                    need((an in dfl) == has, f"{where}({ak}): default {ast.unparse(dfl[an]) if an in dfl else None}")
                    if has:
                        need(ast.literal_eval(dfl[an]) == arg.default_value, f"{where}({ak}): default {ast.unparse(dfl[an])} instead of {arg.default_value!r}")
                    n += 1
            wire(a, kw, k, where)
            applied(kw, f.ast_node, where)
            need((kw["deprecation_reason"].value if "deprecation_reason" in kw else None) == (f.deprecation_reason or None), f"{where}: deprecation")
            need((kw["description"].value if "description" in kw else None) == (f.description or None), f"{where}: description")
            n += 1
    for d in g.schema.directives:
        if d.name in BUILTIN_DIR or skip(d.name):
            continue
        need(d.name in g.classes, f"directive {d.name} is not declared")
        c = g.classes[d.name]
        seen.add(d.name)
        kw = decos(c).get("strawberry.schema_directive")
        need(kw is not None, f"directive {d.name} is decorated {list(decos(c))}")
        need([x.attr for x in kw["locations"].elts] == [x.name for x in d.locations], f"directive {d.name}: locations {ast.unparse(kw['locations'])}")
        have = {s.target.id: s for s in c.body if isinstance(s, ast.AnnAssign)}
        need(len(have) == len(d.args), f"directive {d.name} declares {sorted(have)}")
        for k, arg in d.args.items():
            a = g.style("node", k)
            need(a in have, f"directive {d.name}({k}) is not declared")
            s = have[a]
            g.ann(s.annotation, arg.type, f"@{d.name}({k})")
            kw = {x.arg: x.value for x in s.value.keywords} if isinstance(s.value, ast.Call) else {}
            wire(a, kw, k, f"@{d.name}({k})")
            dv = arg.default_value
            got = kw.get("default")
            if got is None and "default_factory" in kw:
                got = kw["default_factory"].body
            if dv is graphql.Undefined or dv is None:
                need(got is None or ast.literal_eval(got) is None, f"@{d.name}({k}): default {got and ast.unparse(got)}")
            else:
                need(got is not None and ast.literal_eval(got) == dv, f"@{d.name}({k}): default {got is not None and ast.unparse(got)} instead of {dv!r}")
            n += 1
    need(set(g.classes) == seen, f"undeclared types {sorted(set(g.classes) - seen)} are scaffolded")
    return n
