"""contracts of the generator of schema models"""
import ast

import turms.plugins.objects as M
from graphql import GraphQLEnumType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType, GraphQLScalarType, GraphQLUnionType
from turms.config import GraphQLTypes
from vf.core import *
from vf.domains import domain, model_domain
from vf.verify import unit

from .common import *
from .inputs import listof, tuples

P = "turms.plugins.objects:"
PCFG = lambda: model_domain(M.ObjectsPluginConfig)
domain("ObjectsPlugin", [M.ObjectsPlugin], {"*": {"config": Cls(PCFG())}})


@contract(P + "generate_object_field_annotation", proved_by="objects.generate_object_field_annotation")
def c_annotation(eng, fn, *a, **k):
    b = bind(fn, a, k)
    if eng.fork(zbool(pure(eng, "object_annotation_unmapped", BOOL, b.graphql_type, b.config))):
        raise errors_mod.NoScalarFound("unmapped scalar or undefined enum")
    return pure(eng, "object_annotation", AST, b.graphql_type, b.parent, b.config, b.is_optional)


def annotation(t, parent, cfg, pcfg, reg, opt):
    again = lambda x, o: M.generate_object_field_annotation(x, parent, cfg, pcfg, reg, is_optional=o)
    if isinstance(t, GraphQLNonNull):
        return again(t.of_type, False)
    if isinstance(t, GraphQLScalarType):
        out = reg.reference_scalar(t.name)
    elif isinstance(t, GraphQLInterfaceType):
        out = reg.reference_interface(t.name, parent)
    elif isinstance(t, GraphQLObjectType):
        out = reg.reference_object(t.name, parent)
    elif isinstance(t, GraphQLEnumType):
        out = reg.reference_enum(t.name, parent, allow_forward=not cfg.force_plugin_order)
    elif isinstance(t, GraphQLUnionType):
        out = sub(name("Union"), ast.Tuple(elts=[again(m, False) for m in t.types], ctx=ast.Load()))
    else:
        out = listof(cfg, GraphQLTypes.OBJECT, again(t.of_type, True))
    return optional(opt, out)


@unit("objects.generate_object_field_annotation", P + "generate_object_field_annotation", ["C22", "C17", "C12", "C04"],
      contracts=REFS + (REG + "reference_interface", REG + "reference_object", P + "generate_object_field_annotation"))
def field_annotation(vc, fn):
    t = vc.obj("OutType", "type")
    cfg, pcfg = config(vc), vc.obj(PCFG(), "plugin_config")
    reg = registry(vc, cfg)
    parent = vc.new(STR, "parent")
    opt = vc.flag("optional")
    o = vc.run(fn, t, parent, cfg, pcfg, reg, is_optional=opt)
    try:
        want = annotation(t, parent, cfg, pcfg, reg, opt)
    except errors_mod.RegistryError:
        vc.cover("unmapped")
        vc.ok("a type without mapping is an error", not o.ok)
        return
    if not vc.returns(o):
        return
    vc.cover("mapped")
    if not isinstance(t, GraphQLNonNull):
        if opt:
            imports(vc, reg, "typing.Optional")
        if isinstance(t, GraphQLUnionType):
            imports(vc, reg, "typing.Union")
        if isinstance(t, GraphQLList):
            imports(vc, reg, "typing.Tuple" if tuples(cfg, GraphQLTypes.OBJECT) else "typing.List")
    vc.equal("the annotation mirrors the type", o.value, want)


@contract(P + "generate_types", note="sorted by a computed key; checked boundedly")
def c_types(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "object_models", Seq(AST), b.client_schema, b.config, b.plugin_config)


@unit("objects.plugin", P + "ObjectsPlugin.generate_ast", ["C22"], contracts=(P + "generate_types",))
def plugin(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    self = vc.obj("ObjectsPlugin", "plugin")
    schema = vc.obj("Schema", "schema")
    o = vc.run(fn, self, schema, cfg, reg)
    if vc.returns(o):
        vc.cover("generated")
        vc.equal("the models of the schema under the plugin's own options", o.value, M.generate_types(schema, cfg, self.config, reg))
