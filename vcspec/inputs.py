"""contracts of the input-object generator"""
import ast

import turms.plugins.inputs as M
from graphql import GraphQLEnumType, GraphQLInputObjectType, GraphQLList, GraphQLNonNull, GraphQLScalarType, Undefined
from turms.config import GraphQLTypes
from vf.core import *
from graphql import GraphQLSchema
from graphql.language.ast import DirectiveNode, InputObjectTypeDefinitionNode, NameNode
from vf import core
from vf.domains import BY, DOMAINS, NAMED, domain, model_domain
from vf.verify import unit

from .common import *
from .enums import DOCS, references, rejected

P = "turms.plugins.inputs:"
PCFG = lambda: model_domain(M.InputsPluginConfig)
domain("InputsPlugin", [M.InputsPlugin], {"*": {"config": Cls(PCFG())}})


# ---------------------------------------------------------------- annotations
@contract(P + "generate_input_annotation", proved_by="inputs.generate_input_annotation")
def c_annotation(eng, fn, *a, **k):
    b = bind(fn, a, k)
    if eng.fork(zbool(pure(eng, "input_annotation_unmapped", BOOL, b.type, b.config))):
        raise errors_mod.NoScalarFound("unmapped scalar or undefined enum")
    return pure(eng, "input_annotation", AST, b.type, b.parent, b.config, b.is_optional)


def tuples(cfg, kind):
    return cfg.freeze.enabled and kind in cfg.freeze.types and cfg.freeze.convert_list_to_tuple


def listof(cfg, kind, x):
    if tuples(cfg, kind):
        return sub(name("Tuple"), tup(x, const(...)))
    return sub(name("List"), x)


def input_ann(t, parent, cfg, pcfg, reg, opt):
    if isinstance(t, GraphQLNonNull):
        return M.generate_input_annotation(t.of_type, parent, cfg, pcfg, reg, is_optional=False)
    if isinstance(t, GraphQLList):
        return optional(opt, listof(cfg, GraphQLTypes.INPUT, M.generate_input_annotation(t.of_type, parent, cfg, pcfg, reg, is_optional=True)))
    if isinstance(t, GraphQLScalarType):
        return optional(opt, reg.reference_scalar(t.name))
    if isinstance(t, GraphQLEnumType):
        return optional(opt, reg.reference_enum(t.name, parent, allow_forward=not cfg.force_plugin_order))
    return optional(opt, reg.reference_inputtype(t.name, parent))


@unit("inputs.generate_input_annotation", P + "generate_input_annotation", ["C02", "C17", "C12", "C04"], contracts=REFS + (P + "generate_input_annotation",))
def generate_input_annotation(vc, fn):
    t = vc.obj("InType", "type")
    cfg = config(vc)
    reg = registry(vc, cfg)
    pcfg = vc.obj(PCFG(), "plugin_config")
    parent = vc.new(STR, "parent")
    opt = vc.flag("optional")
    o = vc.run(fn, t, parent, cfg, pcfg, reg, is_optional=opt)
    try:
        want = input_ann(t, parent, cfg, pcfg, reg, opt)
    except errors_mod.RegistryError:
        vc.cover("unmapped")
        vc.ok("a type without mapping is an error", not o.ok)
        return
    if not vc.returns(o):
        return
    vc.cover("mapped")
    if not isinstance(t, GraphQLNonNull):
        if opt:
            imports(vc, reg, "typing.Optional")
        if isinstance(t, GraphQLList):
            imports(vc, reg, "typing.Tuple" if tuples(cfg, GraphQLTypes.INPUT) else "typing.List")
    vc.equal("the annotation mirrors the type", o.value, want)


@contract(P + "generate_input_field_annotation", proved_by="inputs.generate_input_field_annotation")
def c_field_annotation(eng, fn, *a, **k):
    b = bind(fn, a, k)
    if eng.fork(zbool(pure(eng, "input_annotation_unmapped", BOOL, b.value_type, b.config))):
        raise errors_mod.NoScalarFound("unmapped scalar or undefined enum")
    return pure(eng, "input_field_annotation", AST, b.value_type, b.parent, b.config, b.omittable)


@unit("inputs.generate_input_field_annotation", P + "generate_input_field_annotation", ["C02", "C04"], contracts=(P + "generate_input_annotation", REG + "register_import"))
def generate_input_field_annotation(vc, fn):
    t = vc.obj("InType", "type")
    cfg = config(vc)
    reg = registry(vc, cfg)
    pcfg = vc.obj(PCFG(), "plugin_config")
    parent = vc.new(STR, "parent")
    om = vc.flag("omittable")
    o = vc.run(fn, t, parent, cfg, pcfg, reg, om)
    try:
        want = M.generate_input_annotation(t, parent, cfg, pcfg, reg, is_optional=True)
    except errors_mod.RegistryError:
        vc.ok("an unmapped type is an error", not o.ok)
        return
    if not vc.returns(o):
        return
    vc.cover("annotated")
    if om and isinstance(t, GraphQLNonNull):
        imports(vc, reg, "typing.Optional")
        want = optional(True, want)
    vc.equal("omittable fields admit None", o.value, want)


def field_value(field, key, omittable, description):
    kws = []
    if field != key:
        kws.append(kw("alias", const(key)))
    if omittable:
        kws.append(kw("default", const(None)))
    if description:
        kws.append(kw("description", const(description)))
    if field == key and not description:
        return const(None) if omittable else None
    return ast.Call(func=name("Field"), args=[], keywords=kws)


@unit("inputs.generate_input_field_value", P + "generate_input_field_value", ["C02", "C03", "C04"], contracts=(REG + "register_import",))
def generate_input_field_value(vc, fn):
    reg = registry(vc)
    f, k, d = vc.new(STR, "field"), vc.new(STR, "key"), vc.new(Opt(STR), "description")
    om = vc.flag("omittable")
    o = vc.run(fn, f, k, om, d, reg)
    if not vc.returns(o):
        return
    vc.cover("value")
    want = field_value(f, k, om, d)
    if isinstance(want, ast.Call):
        imports(vc, reg, "pydantic.Field")
    if want is None:
        vc.ok("a required field has no default", o.value is None)
    else:
        vc.equal("alias exactly when renamed, default exactly when omittable", o.value, want)


# ---------------------------------------------------------------- plain models
def field_stmts(cfg, pcfg, reg, cls, key, v):
    """the statements of one input field"""
    has_default = v.default_value is not Undefined
    default = str(v.default_value) if has_default and v.default_value is not None else None
    omittable = has_default or not isinstance(v.type, GraphQLNonNull)
    f = reg.generate_node_name(key)
    ann = M.generate_input_field_annotation(v.type, cls, cfg, pcfg, reg, omittable)
    ann = utils_mod.annotate_field_metadata(ann, reg, default_value_ast=const(default) if default is not None else None, deprecation_reason=v.deprecation_reason)
    out = [annassign(f, ann, M.generate_input_field_value(f, key, omittable, v.description, reg))]
    if cfg.document_field_metadata and (v.deprecation_reason or default is not None):
        out.append(doc(utils_mod.compose_field_documentation(description=v.description, deprecation_reason=v.deprecation_reason, default_string=default, include_metadata=True)))
    return out


@contract(P + "generate_input_field_value", proved_by="inputs.generate_input_field_value")
def c_field_value(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "input_field_value", Opt(AST), b.field_name, b.value_key, b.omittable, b.description)


def plain_body(t, cls, cfg, pcfg, reg):
    body = [doc(t.description if t.description else "No documentation")]
    for key, v in t.fields.items():
        body += field_stmts(cfg, pcfg, reg, cls, key, v)
    return body


FIELD = (P + "generate_input_field_annotation", P + "generate_input_field_value", UT + "annotate_field_metadata", UT + "compose_field_documentation",
         UT + "generate_pydantic_config", UT + "get_additional_bases_for_type", REG + "generate_node_name", REG + "register_import")


def input_class(t, cls, cfg, pcfg, reg):
    return classdef(cls, utils_mod.get_additional_bases_for_type(t.name, cfg, reg) + base_names(pcfg.inputtype_bases),
                    plain_body(t, cls, cfg, pcfg, reg) + utils_mod.generate_pydantic_config(GraphQLTypes.INPUT, cfg, reg, typename=t.name))


@unit("inputs.generate_input_type", P + "generate_input_type", ["C02", "C03", "C12", "C20", "C21"], contracts=FIELD)
def generate_input_type(vc, fn):
    """a member of no tagged union"""
    t = vc.obj("InputObjectType", "type")
    cfg = config(vc)
    reg = registry(vc, cfg)
    pcfg = vc.obj(PCFG(), "plugin_config")
    cls = vc.new(STR, "class")
    o = vc.run(fn, cls, t, cfg, pcfg, reg, t.name, None)
    if not o.ok:
        vc.ok("only an unmapped type is an error", isinstance(o.exc, errors_mod.RegistryError))
        return
    vc.cover("generated")
    vc.equal("one attribute per input field", o.value, input_class(t, cls, cfg, pcfg, reg))


# ---------------------------------------------------------------- unions and @oneOf
@unit("inputs.generate_union_alias", P + "generate_union_alias", ["C19", "C04"], contracts=(REG + "register_import",))
def union_alias(vc, fn):
    reg = registry(vc)
    alias, members = vc.new(STR, "alias"), vc.new(Seq(STR), "members")
    vc.assume(len(members) > 0)
    o = vc.run(fn, alias, members, reg)
    if not vc.returns(o):
        return
    vc.cover("alias")
    if len(members) == 1:
        vc.equal("the only member", o.value, assign(alias, name(members[0])))
    else:
        imports(vc, reg, "typing.Union")
        vc.equal("the union of exactly the members", o.value, assign(alias, sub(name("Union"), ast.Tuple(elts=[name(m) for m in members], ctx=ast.Load()))))


@unit("inputs.validate_oneof_input_type", P + "validate_oneof_input_type", ["C19"])
def validate_oneof(vc, fn):
    t = vc.obj("InputObjectType", "type")
    o = vc.run(fn, t)
    bad = any(isinstance(v.type, GraphQLNonNull) or v.default_value is not Undefined for v in t.fields.values())
    if bad:
        vc.cover("refused")
        vc.ok("a member that is required or has a default is an error", not o.ok and isinstance(o.exc, errors_mod.GenerationError))
    else:
        vc.cover("accepted")
        vc.ok("a well-formed oneOf is accepted", o.ok)


@contract(P + "validate_oneof_input_type", proved_by="inputs.validate_oneof_input_type")
def c_validate(eng, fn, type):
    if eng.fork(zbool(pure(eng, "oneof_invalid", BOOL, type))):
        raise errors_mod.GenerationError("not a valid oneOf")


@contract(P + "_pascal", note="a function of the name")
def c_pascal(eng, fn, name):
    return pure(eng, "pascal", STR, name)


@unit("inputs.get_oneof_member_map", P + "get_oneof_member_map", ["C19"], contracts=(UT + "is_oneof_input_type",))
def member_map(vc, fn):
    t = vc.obj("InputObjectType", "type")
    o = vc.run(fn, t)
    if not vc.returns(o):
        return
    if any(not isinstance(v.type, GraphQLInputObjectType) or M.is_oneof_input_type(v.type) for v in t.fields.values()):
        vc.cover("indirect")
        vc.ok("a member that is no plain input object needs a wrapper", o.value is None)
    elif o.value is not None:
        vc.cover("direct")
        vc.equal("every field with its member type", list(o.value.items()), [(k, v.type) for k, v in t.fields.items()])


@contract(P + "get_oneof_member_map", proved_by="inputs.get_oneof_member_map")
def c_member_map(eng, fn, type):
    return pure(eng, "oneof_members", Opt(Map(Cls("InputObjectType"))), type)


@contract(P + "generate_union_alias", proved_by="inputs.generate_union_alias")
def c_union_alias(eng, fn, alias_name, member_names, registry):
    return assign(alias_name, pure(eng, "union_of", AST, member_names))


@unit("inputs.generate_oneof_wrapper_input", P + "generate_oneof_wrapper_input", ["C19", "C02", "C12", "C20"],
      contracts=(P + "_pascal", P + "generate_input_annotation", P + "generate_input_field_value", P + "generate_union_alias", UT + "annotate_field_metadata",
                 UT + "generate_pydantic_config", UT + "get_additional_bases_for_type", REG + "generate_inputtype", REG + "generate_node_name"))
def wrapper_input(vc, fn):
    key, t = vc.new(STR, "key"), vc.obj("InputObjectType", "type")
    cfg, pcfg = config(vc), vc.obj(PCFG(), "plugin_config")
    reg = registry(vc, cfg)
    o = vc.run(fn, key, t, cfg, pcfg, reg)
    try:
        want = wrappers(key, t, cfg, pcfg, reg)
    except errors_mod.RegistryError:
        vc.cover("unmapped")
        vc.ok("a type without mapping is an error", not o.ok)
        return
    if vc.returns(o):
        vc.cover("generated")
        vc.equal("one class per member, each requiring exactly its field", o.value, want)


def wrappers(key, t, cfg, pcfg, reg):
    bases = utils_mod.get_additional_bases_for_type(t.name, cfg, reg) + base_names(pcfg.inputtype_bases)
    out, members = [], []
    for k, v in t.fields.items():
        cls = reg.generate_inputtype(f"{t.name}{M._pascal(k)}")
        members.append(cls)
        f = reg.generate_node_name(k)
        ann = utils_mod.annotate_field_metadata(M.generate_input_annotation(v.type, cls, cfg, pcfg, reg, is_optional=False), reg, deprecation_reason=v.deprecation_reason)
        out.append(classdef(cls, bases, [
            doc(v.description or f"'{k}' variant of the @oneOf input '{t.name}'"),
            annassign(f, ann, M.generate_input_field_value(f, k, False, v.description, reg)),
        ] + utils_mod.generate_pydantic_config(GraphQLTypes.INPUT, cfg, reg, typename=key)))
    out.append(M.generate_union_alias(reg.generate_inputtype(key), members, reg))
    return out


@contract(P + "generate_oneof_wrapper_input", proved_by="inputs.generate_oneof_wrapper_input")
def c_wrapper_input(eng, fn, *a, **k):
    b = bind(fn, a, k)
    if eng.fork(zbool(pure(eng, "oneof_unmapped", BOOL, b.type))):
        raise errors_mod.NoScalarFound("unmapped scalar or undefined enum")
    return pure(eng, "oneof_wrappers", Seq(AST), b.key, b.type, b.config, b.plugin_config)


@contract(P + "generate_oneof_direct_union", note="source text with names filled in; checked boundedly")
def c_direct_union(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "oneof_direct", Seq(AST), b.key, b.type, b.members)


@contract(P + "generate_inputs", proved_by="inputs.generate_inputs")
def c_inputs(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "inputs", Seq(AST), b.client_schema, b.config, b.plugin_config)


@unit("inputs.plugin", P + "InputsPlugin.generate_ast", ["C02", "C04", "C19"], contracts=(REG + "register_import", P + "generate_inputs"))
def plugin(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    self = vc.obj("InputsPlugin", "plugin")
    schema = vc.obj("Schema", "schema")
    o = vc.run(fn, self, schema, cfg, reg)
    if vc.returns(o):
        vc.cover("generated")
        vc.equal("the models of the schema's inputs under the plugin's own options", o.value, M.generate_inputs(schema, cfg, self.config, reg))
        for b in self.config.inputtype_bases:
            imports(vc, reg, b)


# a schema without @unionElementOf (the unions made from it are checked boundedly)
def _other(eng, o):
    eng.given(core.uf("a_value_String", core.Obj, core.z3.StringSort())(o.t) != core.z3.StringVal("unionElementOf"))


domain("PlainName", [NameNode], {"*": {"value": STR, "loc": ANY}}, inv=_other)
domain("PlainDirective", [DirectiveNode], {"*": {"name": Cls("PlainName"), "arguments": Seq(Cls("ArgumentNode"), "tuple"), "loc": ANY}})
domain("PlainInputAst", [InputObjectTypeDefinitionNode], {"*": {"directives": Seq(Cls("PlainDirective"), "tuple"), "loc": ANY}})
domain("PlainNamedType", NAMED, {c.__name__: dict(BY[c.__name__], **({"ast_node": Opt(Cls("PlainInputAst"))} if c is GraphQLInputObjectType else {})) for c in NAMED})
domain("PlainSchema", [GraphQLSchema], {"*": dict(DOMAINS["Schema"]["attrs"]["*"], type_map=Map(Cls("PlainNamedType", "name")))})


# the statements are functions of the field: whether there is any text or value does not matter here
@contract(UT + "compose_field_documentation#text", proved_by="utils.compose_field_documentation")
def c_text(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "field_text", Cls("any"), b.description, b.deprecation_reason, b.default_string, b.include_metadata)


@contract(P + "generate_input_field_value#any", proved_by="inputs.generate_input_field_value")
def c_any_value(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "input_value", Cls("any"), b.field_name, b.value_key, b.omittable, b.description)


FIELDS = tuple({P + "generate_input_field_value": P + "generate_input_field_value#any", UT + "compose_field_documentation": UT + "compose_field_documentation#text"}.get(c, c) for c in FIELD)


def inputs_unit(mode, v2):
    """for schemas without @unionElementOf"""

    @unit(f"inputs.generate_inputs[{mode},{'v2' if v2 else 'v1'}]", P + "generate_inputs", ["C02", "C16", "C19", "C03", "C12", "C20", "C21", "C04"],
          contracts=FIELDS + DOCS + (UT + "is_oneof_input_type", P + "validate_oneof_input_type", P + "get_oneof_member_map", P + "generate_oneof_wrapper_input",
                                     P + "generate_oneof_direct_union", REG + "generate_inputtype"), max_paths=9000)
    def generate_inputs(vc, fn):
        schema = vc.obj("PlainSchema", "schema")
        cfg, pcfg = config(vc), vc.obj(PCFG(), "plugin_config")
        vc.assume(pcfg.skip_unreferenced == (mode != "all"))
        if mode != "all":
            vc.assume(bool(cfg.documents) == (mode == "pruned"))
        vc.assume((cfg.pydantic_version == "v2") == v2)
        reg = registry(vc, cfg)
        o = vc.run(fn, schema, cfg, pcfg, reg)
        if rejected(schema, cfg, pcfg):
            vc.ok("no code for rejected documents", not o.ok)
            return
        refs = references(vc, schema, cfg, pcfg)
        if not o.ok:
            vc.cover("refused")
            vc.ok("only an unmapped type or a malformed oneOf is an error", isinstance(o.exc, (errors_mod.RegistryError, errors_mod.GenerationError)))
            return
        try:
            want = models(schema, cfg, pcfg, reg, refs)
        except (errors_mod.RegistryError, errors_mod.GenerationError):
            vc.ok("what cannot be generated is an error", False)
            return
        if vc.returns(o):
            vc.cover("generated")
            vc.equal("a model per needed input, in the order of the schema, direct unions last", o.value, want)


for _p in ("all", "undocumented", "pruned"):
    for _v in (False, True):
        inputs_unit(_p, _v)


def models(schema, cfg, pcfg, reg, refs):
    out, last = [], []
    for key, t in schema.type_map.items():
        if not isinstance(t, GraphQLInputObjectType):
            continue
        if refs is not None and key not in refs.inputs:
            continue
        if pcfg.skip_underscore and key.startswith("_"):
            continue
        if M.is_oneof_input_type(t):
            M.validate_oneof_input_type(t)
            members = M.get_oneof_member_map(t) if cfg.pydantic_version == "v2" else None
            if members is not None and any((refs is not None and m.name not in refs.inputs) or (pcfg.skip_underscore and m.name.startswith("_")) for m in members.values()):
                members = None
            if members is not None:
                last += M.generate_oneof_direct_union(key, t, members, reg)
            else:
                out += M.generate_oneof_wrapper_input(key, t, cfg, pcfg, reg)
        else:
            out.append(input_class(t, reg.generate_inputtype(key), cfg, pcfg, reg))
    return out + last
