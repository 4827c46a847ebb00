"""contracts of the strawberry generator"""
import ast
from keyword import iskeyword

import turms.plugins.strawberry as M
from graphql import (GraphQLArgument, GraphQLDirective, GraphQLEnumType, GraphQLInputObjectType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType,
                     GraphQLScalarType, GraphQLSchema, GraphQLUnionType, Undefined)
from graphql.language import DirectiveLocation
from graphql.language.ast import *
from turms.config import GraphQLTypes
from vf.core import *
from vf.domains import BY, DOMAINS, IN, NAMED, domain, model_domain, types_domain
from vf.verify import unit

from .common import *

P = "turms.plugins.strawberry:"
PCFG = lambda: model_domain(M.StrawberryPluginConfig)
ALL = REFS + (REG + "reference_interface", REG + "reference_object")

# ---------------------------------------------------------------- schemas with their directives
DEFS = {GraphQLScalarType: ScalarTypeDefinitionNode, GraphQLObjectType: ObjectTypeDefinitionNode, GraphQLInterfaceType: InterfaceTypeDefinitionNode,
        GraphQLUnionType: UnionTypeDefinitionNode, GraphQLEnumType: EnumTypeDefinitionNode, GraphQLInputObjectType: InputObjectTypeDefinitionNode}
for _t, _d in DEFS.items():
    domain("Def:" + _d.__name__, [_d], {"*": {"directives": Seq(Cls("DirectiveNode"), "tuple"), "loc": ANY}})
domain("AnyDef", list(DEFS.values()), {"*": {"directives": Seq(Cls("DirectiveNode"), "tuple"), "loc": ANY}})
domain("DirectedType", NAMED, {c.__name__: dict(BY[c.__name__], ast_node=Opt(Cls("Def:" + DEFS[c].__name__))) for c in NAMED})
types_domain("ArgType", IN + [GraphQLUnionType], "ArgType", "ArgTypeNN")
types_domain("ArgTypeNN", IN + [GraphQLUnionType], "ArgType", None)
domain("DirectiveDef", [GraphQLDirective], {"*": {"name": STR, "locations": Seq(Cls("Location")), "args": Map(Cls("GraphQLArgument"))}})
domain("Location", [DirectiveLocation], {"*": {"name": STR}})
domain("DirectedSchema", [GraphQLSchema], {"*": dict(DOMAINS["Schema"]["attrs"]["*"], type_map=Map(Cls("DirectedType", "name")), directives=Seq(Cls("DirectiveDef"), "tuple"))})


# ---------------------------------------------------------------- annotations
def annotation_contract(f, label, arg):
    @contract(P + f, proved_by="strawberry." + f)
    def c(eng, fn, *a, **k):
        b = bind(fn, a, k)
        t = getattr(b, arg)
        if eng.fork(zbool(pure(eng, label + "_unmapped", BOOL, t))):
            raise errors_mod.NoScalarFound("unmapped scalar or undefined enum")
        return pure(eng, label, AST, t, b.parent, b.is_optional)


annotation_contract("generate_object_field_annotation", "strawberry_field", "graphql_type")
annotation_contract("recurse_argument_annotation", "strawberry_argument", "graphql_type")
annotation_contract("build_directive_type_annotation", "strawberry_directive_argument", "value")


def listed(x):
    return sub(name("List"), x)


def union(xs):
    return sub(name("Union"), ast.Tuple(elts=xs, ctx=ast.Load()))


def field_ann(t, parent, cfg, pcfg, reg, opt):
    again = lambda x, o: M.generate_object_field_annotation(x, parent, cfg, pcfg, reg, is_optional=o)
    if isinstance(t, GraphQLNonNull):
        return again(t.of_type, False)
    if isinstance(t, GraphQLList):
        return optional(opt, listed(again(t.of_type, True)))
    if isinstance(t, GraphQLUnionType):
        return optional(opt, union([again(m, False) for m in t.types]))
    if isinstance(t, GraphQLScalarType):
        return optional(opt, reg.reference_scalar(t.name))
    if isinstance(t, GraphQLEnumType):
        return optional(opt, reg.reference_enum(t.name, parent, allow_forward=not cfg.force_plugin_order))
    if isinstance(t, GraphQLInterfaceType):
        return optional(opt, reg.reference_interface(t.name, parent))
    return optional(opt, reg.reference_object(t.name, parent))


def argument_ann(t, parent, cfg, pcfg, reg, opt):
    again = lambda x, o: M.recurse_argument_annotation(x, parent, cfg, pcfg, reg, is_optional=o)
    if isinstance(t, GraphQLNonNull):
        return again(t.of_type, False)
    if isinstance(t, GraphQLList):
        return optional(opt, listed(again(t.of_type, True)))
    if isinstance(t, GraphQLScalarType):
        return optional(opt, reg.reference_scalar(t.name))
    if isinstance(t, GraphQLEnumType):
        return optional(opt, reg.reference_enum(t.name, parent, allow_forward=not cfg.force_plugin_order))
    return optional(opt, reg.reference_inputtype(t.name, parent))


def directive_ann(t, parent, reg, opt):
    again = lambda x, o: M.build_directive_type_annotation(x, parent, reg, is_optional=o)
    if isinstance(t, GraphQLNonNull):
        return again(t.of_type, False)
    if isinstance(t, GraphQLList):
        return optional(opt, listed(again(t.of_type, True)))
    if isinstance(t, GraphQLScalarType):
        return optional(opt, reg.reference_scalar(t.name))
    return optional(opt, reg.reference_enum(t.name, parent))


def annotation_unit(f, dom, contracts, want):
    @unit("strawberry." + f, P + f, ["C24", "C17", "C04"], contracts=contracts + (P + f,))
    def u(vc, fn):
        t = vc.obj(dom, "type")
        cfg = config(vc)
        reg = registry(vc, cfg)
        pcfg = vc.obj(PCFG(), "plugin_config")
        parent = vc.new(STR, "parent")
        opt = vc.flag("optional")
        args = (reg,) if f.startswith("build") else (cfg, pcfg, reg)
        o = vc.run(fn, t, parent, *args, is_optional=opt)
        if f.startswith("build") and isinstance(t, GraphQLInputObjectType):
            vc.cover("input object")
            vc.ok("an argument that cannot be expressed is an error", not o.ok)
            return
        try:
            w = want(t, parent, *args, opt)
        except errors_mod.RegistryError:
            vc.cover("unmapped")
            vc.ok("a type without mapping is an error", not o.ok)
            return
        if not vc.returns(o):
            return
        vc.cover("mapped")
        if not isinstance(t, GraphQLNonNull):
            if opt:
                imports(vc, reg, "typing.Optional")
            if isinstance(t, GraphQLUnionType):
                imports(vc, reg, "typing.Union")
            if isinstance(t, GraphQLList):
                imports(vc, reg, "typing.List")
        vc.equal("the annotation mirrors the type", o.value, w)


annotation_unit("generate_object_field_annotation", "OutType", ALL, field_ann)
annotation_unit("recurse_argument_annotation", "InType", ALL, argument_ann)
annotation_unit("build_directive_type_annotation", "InType", ALL, directive_ann)


# ---------------------------------------------------------------- applied directives
@contract(P + "convert_valuenode_to_ast", proved_by="strawberry.convert_valuenode_to_ast")
def c_value(eng, fn, value):
    return pure(eng, "value_ast", AST, value)


@unit("strawberry.convert_valuenode_to_ast", P + "convert_valuenode_to_ast", ["C24"], contracts=(P + "convert_valuenode_to_ast",))
def convert(vc, fn):
    v = vc.obj("ValueNode", "value")
    o = vc.run(fn, v)
    if not vc.returns(o):
        return
    vc.cover("converted")
    if isinstance(v, IntValueNode):
        want = const(int(v.value))
    elif isinstance(v, FloatValueNode):
        want = const(float(v.value))
    elif isinstance(v, NullValueNode):
        want = const(None)
    elif isinstance(v, ListValueNode):
        want = ast.List(elts=[M.convert_valuenode_to_ast(x) for x in v.values], ctx=ast.Load())
    elif isinstance(v, ObjectValueNode):
        want = ast.Dict(keys=[const(f.name.value) for f in v.fields], values=[M.convert_valuenode_to_ast(f.value) for f in v.fields])
    else:
        want = const(v.value)
    vc.equal("the value as written", o.value, want)


@contract(P + "generate_name_keywords", proved_by="strawberry.generate_name_keywords")
def c_name_keywords(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "name_keywords", Seq(AST), b.python_name, b.graphql_name)


@unit("strawberry.generate_name_keywords", P + "generate_name_keywords", ["C24", "C03"])
def name_keywords(vc, fn):
    p, g = vc.new(STR, "python"), vc.new(STR, "graphql")
    o = vc.run(fn, p, g)
    if not vc.returns(o):
        return
    vc.cover("kept")
    vc.equal("a renamed member keeps its GraphQL name", o.value, [] if p == g else [kw("name", const(g))])


@contract(P + "generate_directive_keywords", proved_by="strawberry.generate_directive_keywords")
def c_directive_keywords(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "directive_keywords", Seq(AST), b.ast_node, b.plugin_config)


@unit("strawberry.generate_directive_keywords", P + "generate_directive_keywords", ["C24"], contracts=(P + "convert_valuenode_to_ast",))
def directive_keywords(vc, fn):
    pcfg = vc.obj(PCFG(), "plugin_config")
    n = vc.new(Opt(Cls("AnyDef")), "node")
    o = vc.run(fn, n, pcfg)
    if not vc.returns(o):
        return
    if n is None:
        vc.cover("no definition")
        vc.equal("nothing applied", o.value, [])
        return
    applied = [d for d in n.directives if d.name.value not in pcfg.builtin_directives]
    if not applied:
        vc.cover("none applied")
        vc.equal("nothing applied", o.value, [])
        return
    vc.cover("applied")
    calls = [ast.Call(func=name(d.name.value), args=[], keywords=[kw(a.name.value, M.convert_valuenode_to_ast(a.value)) for a in d.arguments]) for d in applied]
    vc.equal("every applied directive with its arguments", o.value, [kw("directives", ast.List(elts=calls, ctx=ast.Load()))])


def decorated(func, kws):
    return ast.Call(func=name(func), args=[], keywords=kws) if kws else name(func)


def cls_with(n, bases, body, decorator):
    return ast.ClassDef(name=n, bases=bases, keywords=[], body=body, decorator_list=[decorator], type_params=[])


# ---------------------------------------------------------------- enums
@contract(P + "default_generate_enums", proved_by="strawberry.default_generate_enums")
def c_enums(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "strawberry_enums", Seq(AST), b.client_schema, b.config, b.plugin_config)


@unit("strawberry.default_generate_enums", P + "default_generate_enums", ["C24"], contracts=(REG + "register_import", REG + "generate_enum", P + "generate_directive_keywords"))
def enums(vc, fn):
    cfg, pcfg = config(vc), vc.obj(PCFG(), "plugin_config")
    reg = registry(vc, cfg)
    schema = vc.obj("DirectedSchema", "schema")
    o = vc.run(fn, schema, cfg, pcfg, reg)
    if not vc.returns(o):
        return
    vc.cover("generated")
    want = []
    for key, t in schema.type_map.items():
        if not isinstance(t, GraphQLEnumType) or pcfg.skip_underscore and key.startswith("_") or pcfg.skip_double_underscore and key.startswith("__"):
            continue
        body = [doc(t.description)] if t.description else []
        for k, v in t.values.items():
            body.append(assign(k + "_" if iskeyword(k) or k == "mro" else k, const(k)))
            if v.deprecation_reason:
                body.append(doc(f"DEPRECATED: {v.description}"))
            elif v.description:
                body.append(doc(v.description))
        want.append(cls_with(reg.generate_enum(key), [name("Enum")], body or [ast.Pass()], decorated("strawberry.enum", M.generate_directive_keywords(t.ast_node, pcfg))))
    vc.equal("one enum per type, one member per value, values untouched", o.value, want)


# ---------------------------------------------------------------- inputs
def described(kws, v):
    out = list(kws)
    if v.description:
        out.append(kw("description", const(v.description)))
    if v.deprecation_reason:
        out.append(kw("deprecation_reason", const(v.deprecation_reason)))
    return out


@contract(P + "generate_inputs", proved_by="strawberry.generate_inputs")
def c_inputs(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "strawberry_inputs", Seq(AST), b.client_schema, b.config, b.plugin_config)


def inputs_unit(skip):
    @unit(f"strawberry.generate_inputs[{'public' if skip else 'all'}]", P + "generate_inputs", ["C24", "C19", "C03"],
          contracts=(REG + "generate_inputtype", REG + "generate_node_name", P + "generate_directive_keywords", P + "generate_name_keywords", P + "recurse_argument_annotation",
                     UT + "is_oneof_input_type", UT + "get_additional_bases_for_type", UT + "generate_pydantic_config"))
    def inputs(vc, fn):
        cfg, pcfg = config(vc), vc.obj(PCFG(), "plugin_config")
        vc.assume(pcfg.skip_underscore == skip)
        reg = registry(vc, cfg)
        schema = vc.obj("DirectedSchema", "schema")
        o = vc.run(fn, schema, cfg, pcfg, reg)
        if not o.ok:
            vc.cover("unmapped")
            vc.ok("only a type without mapping is an error", isinstance(o.exc, errors_mod.RegistryError))
            return
        try:
            want = input_classes(schema, cfg, pcfg, reg)
        except errors_mod.RegistryError:
            vc.ok("a type without mapping is an error", False)
            return
        vc.cover("generated")
        vc.equal("one input per type, one attribute per field", o.value, want)


for _s in (False, True):
    inputs_unit(_s)


def input_classes(schema, cfg, pcfg, reg):
    want = []
    for key, t in schema.type_map.items():
        if not isinstance(t, GraphQLInputObjectType) or pcfg.skip_underscore and key.startswith("_"):
            continue
        deco = M.generate_directive_keywords(t.ast_node, pcfg)
        if M.is_oneof_input_type(t):
            deco = list(deco) + [kw("one_of", const(True))]
        n = reg.generate_inputtype(key)
        body = [doc(t.description)] if t.description else []
        for k, v in t.fields.items():
            f = reg.generate_node_name(k)
            kws = described(M.generate_name_keywords(f, k), v)
            body.append(annassign(f, M.recurse_argument_annotation(v.type, n, cfg, pcfg, reg, is_optional=True),
                                  ast.Call(func=name("strawberry.field"), args=[], keywords=kws) if kws else None))
        want.append(cls_with(n, utils_mod.get_additional_bases_for_type(t.name, cfg, reg) + base_names(pcfg.inputtype_bases),
                             body + utils_mod.generate_pydantic_config(GraphQLTypes.INPUT, cfg, reg, typename=key), decorated("strawberry.input", deco)))
    return want


# ---------------------------------------------------------------- scalars
@contract(P + "generate_scalars", proved_by="strawberry.generate_scalars")
def c_scalars(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "strawberry_scalars", Seq(AST), b.client_schema, b.config, b.plugin_config)


@unit("strawberry.generate_scalars", P + "generate_scalars", ["C24", "C17"], contracts=(REG + "register_import", P + "generate_directive_keywords", REG + "register_scalar"))
def scalars(vc, fn):
    cfg, pcfg = config(vc), vc.obj(PCFG(), "plugin_config")
    reg = registry(vc, cfg)
    schema = vc.obj("DirectedSchema", "schema")
    o = vc.run(fn, schema, cfg, pcfg, reg)
    if not vc.returns(o):
        return
    vc.cover("generated")
    same = lambda: ast.Lambda(args=[ast.arg(arg="value")], body=name("value"))
    want = []
    for key, t in schema.type_map.items():
        if not isinstance(t, GraphQLScalarType) or key in pcfg.builtin_scalars:
            continue
        kws = list(M.generate_directive_keywords(t.ast_node, pcfg))
        if t.description:
            kws.append(kw("description", const(t.description)))
        kws += [kw("serialize", same()), kw("parse_value", same())]
        want.append(assign(key, ast.Call(func=name("strawberry.scalar"), args=[call("NewType", const(key), name("str"))], keywords=kws)))
    vc.equal("one scalar per custom scalar type, passed through unchanged", o.value, want)
    vc.equal("each is mapped", chunks(reg.scalars_seen), [key for key, t in schema.type_map.items() if isinstance(t, GraphQLScalarType) and key not in pcfg.builtin_scalars])


# ---------------------------------------------------------------- directives
@contract(UT + "convert_default_value_to_ast", note="by the kind of value; the content is checked boundedly")
def c_default(eng, fn, value):
    if value is Undefined:
        return None
    if isinstance(value, list):
        return ast.List(elts=pure(eng, "default_elements", Seq(AST), value), ctx=ast.Load())
    if isinstance(value, dict):
        return ast.Dict(keys=pure(eng, "default_keys", Seq(AST), value), values=pure(eng, "default_values", Seq(AST), value))
    return const(pure(eng, "default_constant", Cls("any"), value))


@contract(P + "default_generate_directives", proved_by="strawberry.default_generate_directives")
def c_directives(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "strawberry_directives", Seq(AST), b.client_schema, b.config, b.plugin_config)


@unit("strawberry.default_generate_directives", P + "default_generate_directives", ["C24", "C03"],
      contracts=(REG + "register_import", REG + "generate_node_name", P + "generate_name_keywords", P + "build_directive_type_annotation", UT + "convert_default_value_to_ast",
                 UT + "generate_pydantic_config"))
def directives(vc, fn):
    cfg, pcfg = config(vc), vc.obj(PCFG(), "plugin_config")
    reg = registry(vc, cfg)
    schema = vc.obj("DirectedSchema", "schema")
    o = vc.run(fn, schema, cfg, pcfg, reg)
    if not o.ok:
        vc.cover("unmapped")
        vc.ok("only a type without mapping is an error", isinstance(o.exc, errors_mod.RegistryError))
        return
    try:
        want = directive_classes(schema, cfg, pcfg, reg)
    except errors_mod.RegistryError:
        vc.ok("a type without mapping is an error", False)
        return
    vc.cover("generated")
    vc.equal("one schema directive per definition, one attribute per argument", o.value, want)


def directive_classes(schema, cfg, pcfg, reg):
    want = []
    for d in schema.directives:
        if d.name in pcfg.builtin_directives or pcfg.skip_underscore and d.name.startswith("_") or pcfg.skip_double_underscore and d.name.startswith("__"):
            continue
        body = []
        for k, v in d.args.items():
            f = reg.generate_node_name(k)
            kws = list(M.generate_name_keywords(f, k))
            default = utils_mod.convert_default_value_to_ast(v.default_value) if v.default_value is not None else None
            if isinstance(default, (ast.List, ast.Dict)):
                kws.append(kw("default_factory", ast.Lambda(args=[], body=default)))
            elif default is not None:
                kws.append(kw("default", default))
            body.append(annassign(f, M.build_directive_type_annotation(v.type, d.name, reg), ast.Call(func=name("strawberry.field"), args=[], keywords=kws) if kws else None))
        deco = ast.Call(func=name("strawberry.schema_directive"), args=[], keywords=[
            kw("locations", ast.List(elts=[ast.Attribute(value=name("Location"), attr=x.name, ctx=ast.Load()) for x in d.locations], ctx=ast.Load()))])
        want.append(cls_with(d.name, [], (body or [ast.Pass()]) + utils_mod.generate_pydantic_config(GraphQLTypes.DIRECTIVE, cfg, reg, d.name), deco))
    return want


# ---------------------------------------------------------------- types and the plugin
@contract(P + "generate_types", note="sorted by a computed key; checked boundedly")
def c_types(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "strawberry_types", Seq(AST), b.client_schema, b.config, b.plugin_config)


def part(label):
    return Fun(Seq(AST), name=label)


SCFG = "StrawberryConfig"
domain(SCFG, [M.StrawberryPluginConfig], {"*": dict(DOMAINS[PCFG()]["attrs"]["*"], generate_directives_func=part("configured_directives"), generate_enums_func=part("configured_enums"))})
domain("StrawberryPlugin", [M.StrawberryPlugin], {"*": {"config": Cls(SCFG)}})


@unit("strawberry.plugin", P + "StrawberryPlugin.generate_ast", ["C24"], contracts=(REG + "register_import", P + "generate_scalars", P + "generate_inputs", P + "generate_types"))
def plugin(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    self = vc.obj("StrawberryPlugin", "plugin")
    schema = vc.obj("DirectedSchema", "schema")
    o = vc.run(fn, self, schema, cfg, reg)
    if not vc.returns(o):
        return
    vc.cover("generated")
    c = self.config
    imports(vc, reg, "strawberry")
    want = []
    if c.generate_directives:
        want += c.generate_directives_func(schema, cfg, c, reg)
    if c.generate_scalars:
        want += M.generate_scalars(schema, cfg, c, reg)
    if c.generate_enums:
        want += c.generate_enums_func(schema, cfg, c, reg)
    if c.generate_inputs:
        want += M.generate_inputs(schema, cfg, c, reg)
    if c.generate_types:
        want += M.generate_types(schema, cfg, c, reg)
    vc.equal("the enabled parts, each once, before what refers to them", o.value, want)
