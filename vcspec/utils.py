"""contracts of turms.utils"""
import ast

import turms.utils as U
from graphql import GraphQLNonNull, ListTypeNode, NamedTypeNode, NonNullTypeNode
from turms.config import GraphQLTypes
from vf.core import *
from vf.domains import model_domain
from vf.verify import unit

from .common import *


@unit("utils.target_from_node", UT + "target_from_node", ["C01", "C03"])
def target_from_node(vc, fn):
    n = vc.obj("FieldNode", "node")
    o = vc.run(fn, n)
    if vc.returns(o):
        vc.cover("key")
        vc.equal("the response key is the alias, else the name", o.value, n.alias.value if n.alias is not None else n.name.value)


@unit("utils.non_typename_fields", UT + "non_typename_fields", ["C01", "C08"])
def non_typename_fields(vc, fn):
    n = vc.obj("FieldNode", "node")
    o = vc.run(fn, n)
    if not vc.returns(o):
        return
    if n.selection_set is None:
        vc.cover("leaf")
        vc.equal("a leaf has no selections", o.value, [])
        return
    vc.cover("composite")
    want = []
    for s in n.selection_set.selections:
        if isinstance(s, U.FieldNode):
            if s.name.value != "__typename":
                want.append(s)
        else:
            want.append(s)
    vc.equal("every selection but __typename, in order", o.value, want)


def type_ann(t, opt, reg, leaf):
    """one unfolding of the type mapping; deeper levels are the contract of the function itself"""
    if isinstance(t, NonNullTypeNode):
        return U.recurse_type_annotation(t.type, reg, optional=False, overwrite_final=leaf)
    if isinstance(t, ListTypeNode):
        return optional(opt, sub(name("List"), U.recurse_type_annotation(t.type, reg, overwrite_final=leaf)))
    n = t.name.value
    if leaf is not None:
        return optional(opt, leaf if isinstance(leaf, (ast.AST, OpaqueAst)) else name(leaf))
    try:
        x = reg.reference_scalar(n)
    except errors_mod.NoScalarFound:
        try:
            x = reg.reference_inputtype(n, "", allow_forward=False)
        except errors_mod.NoInputTypeFound:
            x = reg.reference_enum(n, "", allow_forward=False)
    return optional(opt, x)


def unmapped(t, reg):
    """the leaf is no known type"""
    n = t.name.value
    for f, args in ((reg.reference_scalar, (n,)), (reg.reference_inputtype, (n, "", False)), (reg.reference_enum, (n, "", False))):
        try:
            f(*args)
            return False
        except Exception:
            pass
    return True


@unit("utils.recurse_type_annotation", UT + "recurse_type_annotation", ["C02", "C14", "C17", "C04"], contracts=REFS + (UT + "recurse_type_annotation",))
def recurse_type_annotation(vc, fn):
    t = vc.obj("TypeNode", "type")
    reg = registry(vc)
    opt = vc.flag("optional")
    leaf = None
    if vc.flag("overwritten"):
        leaf = vc.new(STR, "overwrite_final")
    elif vc.flag("overwritten_by_ast"):
        leaf = vc.new(AST, "overwrite_ast")
    o = vc.run(fn, t, reg, optional=opt, overwrite_final=leaf)
    if isinstance(t, NamedTypeNode) and leaf is None and unmapped(t, reg):
        vc.cover("unmapped")
        vc.ok("a type without mapping is an error", not o.ok)
        return
    if not vc.returns(o):
        return
    vc.cover("mapped")
    if isinstance(t, ListTypeNode):
        imports(vc, reg, "typing.List")
    if opt and not isinstance(t, NonNullTypeNode):
        imports(vc, reg, "typing.Optional")
    vc.equal("the annotation mirrors the type", o.value, type_ann(t, opt, reg, leaf))


def out_ann(t, opt, reg, leaf):
    if isinstance(t, GraphQLNonNull):
        return U.recurse_outputtype_annotation(t.of_type, reg, optional=False, overwrite_final=leaf)
    if isinstance(t, U.GraphQLList):
        return optional(opt, sub(name("List"), U.recurse_outputtype_annotation(t.of_type, reg, overwrite_final=leaf)))
    if isinstance(t, U.GraphQLEnumType):
        return optional(opt, reg.reference_enum(t.name, "", allow_forward=False))
    if isinstance(t, U.GraphQLScalarType):
        return optional(opt, reg.reference_scalar(t.name))
    return optional(opt, name(leaf))


@unit("utils.recurse_outputtype_annotation", UT + "recurse_outputtype_annotation", ["C14", "C17", "C04"], contracts=REFS + (UT + "recurse_outputtype_annotation",))
def recurse_outputtype_annotation(vc, fn):
    t = vc.obj("OutType", "type")
    reg = registry(vc)
    opt = vc.flag("optional")
    leaf = vc.new(STR, "overwrite_final")
    vc.assume(leaf != "")
    o = vc.run(fn, t, reg, optional=opt, overwrite_final=leaf)
    if isinstance(t, U.GraphQLScalarType) or isinstance(t, U.GraphQLEnumType):
        try:
            out_ann(t, False, reg, leaf)
        except Exception:
            vc.cover("unmapped")
            vc.ok("a type without mapping is an error", not o.ok)
            return
    if not vc.returns(o):
        return
    vc.cover("mapped")
    if not isinstance(t, GraphQLNonNull):
        if isinstance(t, U.GraphQLList):
            imports(vc, reg, "typing.List")
        if opt:
            imports(vc, reg, "typing.Optional")
    vc.equal("the annotation mirrors the type", o.value, out_ann(t, opt, reg, leaf))


@unit("utils.annotate_field_metadata", UT + "annotate_field_metadata", ["C20", "C04"],
      contracts=(REG + "register_import", REG + "reference_graphql_default", REG + "reference_deprecated"))
def annotate_field_metadata(vc, fn):
    reg = registry(vc)
    a = vc.new(AST, "annotation")
    d = vc.new(Opt(AST), "default")
    r = vc.new(Opt(STR), "reason")
    o = vc.run(fn, a, reg, default_value_ast=d, deprecation_reason=r)
    if not vc.returns(o):
        return
    markers = []
    if d is not None:
        markers.append(ast.Call(func=reg.reference_graphql_default(), args=[d], keywords=[]))
    if r is not None:
        markers.append(ast.Call(func=reg.reference_deprecated(), args=[const(r)], keywords=[]))
    if markers:
        vc.cover("marked")
        imports(vc, reg, "typing.Annotated")
        vc.equal("markers wrap the unchanged type", o.value, sub(name("Annotated"), tup(a, *markers)))
    else:
        vc.cover("plain")
        vc.equal("nothing to mark, nothing changed", o.value, a)


@unit("utils.compose_field_documentation", UT + "compose_field_documentation", ["C20"])
def compose_field_documentation(vc, fn):
    d, r, s = vc.new(Opt(STR), "description"), vc.new(Opt(STR), "reason"), vc.new(Opt(STR), "default")
    inc = vc.flag("include_metadata")
    o = vc.run(fn, description=d, deprecation_reason=r, default_string=s, include_metadata=inc)
    if not vc.returns(o):
        return
    vc.cover("composed")
    parts = []
    if d:
        parts.append(d)
    if inc and r:
        parts.append("DEPRECATED: " + r)
    if inc and s is not None:
        parts.append("Default: " + s)
    text = None
    for p in parts:
        text = p if text is None else text + "\n" + p
    vc.equal("description, deprecation and default as switched on", o.value, text)


def typename_field(typename, exclude):
    kws = [kw("alias", const("__typename"))]
    ann = name("str")
    if typename is not None:
        kws.append(kw("default", const(typename)))
        ann = sub(name("Literal"), const(typename))
    if exclude:
        kws.append(kw("exclude", const(True)))
    return annassign("typename", ann, ast.Call(func=name("Field"), args=[], keywords=kws))


@unit("utils.generate_typename_field", UT + "generate_typename_field", ["C01", "C08", "C04"], contracts=(REG + "register_import",))
def generate_typename_field(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    t = vc.new(STR, "typename")
    o = vc.run(fn, t, reg, cfg)
    if vc.returns(o):
        vc.cover("pinned")
        imports(vc, reg, "pydantic.Field", "typing.Literal")
        vc.equal("pinned to its own __typename", o.value, typename_field(t, cfg.exclude_typenames))


@unit("utils.generate_generic_typename_field", UT + "generate_generic_typename_field", ["C08", "C04"], contracts=(REG + "register_import",))
def generate_generic_typename_field(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    o = vc.run(fn, reg, cfg)
    if vc.returns(o):
        vc.cover("any")
        imports(vc, reg, "pydantic.Field")
        vc.equal("accepts any __typename", o.value, typename_field(None, cfg.exclude_typenames))



@unit("utils.get_interface_bases", UT + "get_interface_bases", ["C21", "C04"], contracts=(REG + "register_import",))
def get_interface_bases(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    o = vc.run(fn, cfg, reg)
    if not vc.returns(o):
        return
    own = cfg.interface_bases if cfg.interface_bases else cfg.object_bases
    vc.cover("bases")
    vc.equal("the configured interface bases, else the object bases", o.value, base_names(own))
    vc.equal("exactly these are imported", chunks(reg._imports), list(own))


@unit("utils.get_additional_bases_for_type", UT + "get_additional_bases_for_type", ["C21", "C04"], contracts=(REG + "register_import",))
def get_additional_bases_for_type(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    t = vc.new(STR, "typename")
    o = vc.run(fn, t, cfg, reg)
    if not vc.returns(o):
        return
    if t in cfg.additional_bases:
        vc.cover("configured")
        vc.equal("the bases of this type", o.value, base_names(cfg.additional_bases[t]))
        vc.equal("exactly these are imported", chunks(reg._imports), list(cfg.additional_bases[t]))
    else:
        vc.cover("none")
        vc.equal("no base of another type", o.value, [])
        vc.equal("exactly these are imported", chunks(reg._imports), [])


OPTIONS = [
    ("allow_mutation", "allow_mutation", "allow_mutation"),
    ("extra", "extra", "extra"),
    ("validate_assignment", "validate_assignment", "validate_assignment"),
    ("allow_population_by_field_name", "populate_by_name", "allow_population_by_field_name"),
    ("orm_mode", "orm_mode", "orm_mode"),
    ("use_enum_values", "use_enum_values", "use_enum_values"),
]


def selected(sel, kind, t):
    """the selection rule of freeze and options"""
    if not sel.enabled:
        return False
    if kind not in sel.types:
        return False
    if sel.exclude and t in sel.exclude:
        return False
    if sel.include and t not in sel.include:
        return False
    return True


def settings(cfg, kind, t, v2):
    out = []
    if selected(cfg.freeze, kind, t):
        out.append(("frozen", True))
    if selected(cfg.options, kind, t):
        for attr, n2, n1 in OPTIONS:
            v = getattr(cfg.options, attr)
            if v is not None:
                out.append((n2 if v2 else n1, v))
    return out



def config_unit(fnname, v2, case):
    """the six options are independent: one unit for each way the first three may be set"""

    @unit(f"utils.{fnname}[{case}]", UT + fnname, ["C12"], contracts=(REG + "register_import",), max_paths=20000)
    def u(vc, fn):
        cfg = config(vc)
        reg = registry(vc, cfg)
        kind = vc.new(ANY, "kind")
        t = vc.new(Opt(STR), "typename")
        for i in range(3):
            if (getattr(cfg.options, OPTIONS[i][0]) is None) == bool(case >> i & 1):
                return
        o = vc.run(fn, kind, cfg, reg, t) if v2 else vc.run(fn, kind, cfg, t)
        if not vc.returns(o):
            return
        want = settings(cfg, kind, t, v2)
        extra = cfg.additional_config[t] if t and t in cfg.additional_config else None
        if v2:
            items = [kw(k, const(v)) for k, v in want]
            if extra is not None:
                items = items + [kw(k, const(v)) for k, v in extra.items()]
        else:
            items = [assign(k, const(v)) for k, v in want]
            if extra is not None:
                items = items + [assign(k, const(v)) for k, v in extra.items()]
        if items:
            vc.cover("configured")
            if v2:
                imports(vc, reg, "pydantic.ConfigDict")
                vc.equal("exactly the selected settings", o.value, [assign("model_config", ast.Call(func=name("ConfigDict"), args=[], keywords=items))])
            else:
                vc.equal("exactly the selected settings", o.value, [classdef("Config", [], [doc("A config class")] + items)])
        else:
            vc.cover("nothing to set")
            vc.equal("nothing emitted", o.value, [])


for _case in range(8):
    config_unit("generate_config_dict", True, _case)
    config_unit("generate_config_class_pydantic", False, _case)


@unit("utils.generate_pydantic_config", UT + "generate_pydantic_config", ["C12"], contracts=(UT + "generate_config_dict", UT + "generate_config_class_pydantic"))
def generate_pydantic_config(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    kind = vc.new(Enum_(*list(GraphQLTypes)), "kind")
    t = vc.new(Opt(STR), "typename")
    o = vc.run(fn, kind, cfg, reg, t)
    if vc.returns(o):
        vc.cover("dispatched")
        if cfg.pydantic_version == "v2":
            vc.equal("settings of the configured version", o.value, U.generate_config_dict(kind, cfg, reg, t))
        else:
            vc.equal("settings of the configured version", o.value, U.generate_config_class_pydantic(kind, cfg, t))


@unit("utils.is_oneof_input_type", UT + "is_oneof_input_type", ["C19"])
def is_oneof_input_type(vc, fn):
    t = vc.obj("InputObjectType", "type")
    o = vc.run(fn, t)
    if not vc.returns(o):
        return
    vc.cover("decided")
    want = False
    if t.ast_node is not None:
        for d in t.ast_node.directives:
            if d.name.value == "oneOf":
                want = True
    vc.equal("oneOf exactly when the directive is present", bool(o.value), want)


@unit("utils.parse_value_node", UT + "parse_value_node", ["C20", "C14"], contracts=(UT + "parse_value_node",))
def parse_value_node(vc, fn):
    v = vc.obj("ValueNode", "value")
    o = vc.run(fn, v)
    if not vc.returns(o):
        return
    vc.cover("parsed")
    if isinstance(v, U.IntValueNode):
        want = int(v.value)
    elif isinstance(v, U.FloatValueNode):
        want = float(v.value)
    elif isinstance(v, U.NullValueNode):
        want = None
    elif isinstance(v, U.ListValueNode):
        want = [U.parse_value_node(x) for x in v.values]
    elif isinstance(v, U.ObjectValueNode):
        want = {f.name.value: U.parse_value_node(f.value) for f in v.fields}
    else:
        want = v.value
    vc.equal("the value as written", o.value, want)


@unit("utils.merge_sequences", UT + "merge_body_sequences", ["C01", "C21"])
def merge_body(vc, fn):
    a, b, c = (vc.new(Seq(AST), x) for x in "abc")
    o = vc.run(fn, a, b, c)
    if vc.returns(o):
        vc.cover("merged")
        vc.equal("all statements, in order", o.value, list(a) + list(b) + list(c))


@unit("utils.merge_bases", UT + "merge_bases_sequences", ["C21"])
def merge_bases(vc, fn):
    a, b, c = (vc.new(Seq(AST), x) for x in "abc")
    o = vc.run(fn, a, b, c)
    if vc.returns(o):
        vc.cover("merged")
        vc.equal("all bases, in order", o.value, list(a) + list(b) + list(c))


@unit("utils.unique_class_name", UT + "unique_class_name", ["C01", "C04"])
def unique_class_name(vc, fn):
    """for any classes generated before"""
    n, sfx = vc.new(STR, "name"), vc.new(STR, "suffix")
    taken = vc.new(Seq(STR), "taken")
    other = vc.new(Seq(AST), "other")
    subtree = [classdef(t, [], []) for t in taken]
    o = vc.run(fn, n, subtree, sfx)
    if not vc.returns(o):
        return
    vc.cover("named")
    vc.ok("no class generated before has this name", o.value + sfx not in taken)
    if n + sfx not in taken:
        vc.cover("free")
        vc.equal("a free name is kept", o.value, n)
    else:
        vc.cover("taken")
        vc.ok("a taken name is not used again", o.value != n)


@unit("utils.interface_is_extended", UT + "interface_is_extended_by_other_interfaces", ["C22"])
def interface_is_extended(vc, fn):
    i = vc.obj("InterfaceType", "interface")
    others = vc.new(Seq(Cls("InterfaceType")), "others")
    o = vc.run(fn, i, others)
    if not vc.returns(o):
        return
    vc.cover("decided")
    want = False
    for x in others:
        if i in x.interfaces:
            want = True
    vc.equal("extended exactly when another one lists it", bool(o.value), want)
