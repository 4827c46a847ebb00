"""contracts of the field generator: the classes and annotations of a selection"""
import ast

import turms.recurse as M
from graphql import GraphQLEnumType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType, GraphQLScalarType, GraphQLUnionType
from graphql.language.ast import FieldNode, FragmentSpreadNode, InlineFragmentNode
from turms.config import GraphQLTypes
from vf.core import *
from vf.spec import external
from vf.verify import unit

from .common import *

P = "turms.recurse:"


# ---------------------------------------------------------------- contracts of the functions used
@external(M.get_field_def, "graphql.utilities.type_info.get_field_def", "the definition of a selected field of a type, a function of both")
def x_field_def(eng, schema, parent, node):
    return pure(eng, "field_def", Opt(Cls("GraphQLField")), schema, parent, node)


def emitted(eng, label, b, *vals):
    """the classes a nested selection needs are added after those generated before"""
    b.subtree.extend(pure(eng, label, Seq(AST), *vals))


@contract(P + "recurse_annotation", proved_by="recurse.annotation")
def c_annotation(eng, fn, *a, **k):
    b = bind(fn, a, k)
    if eng.fork(zbool(pure(eng, "selection_refused", BOOL, b.node, b.parent, b.type))):
        raise errors_mod.RegistryError("selection not supported")
    emitted(eng, "annotation_classes", b, b.node, b.parent, b.type)
    return pure(eng, "selection_annotation", AST, b.node, b.parent, b.type, b.is_optional)


@contract(P + "type_field_node", proved_by="recurse.type_field_node")
def c_field(eng, fn, *a, **k):
    b = bind(fn, a, k)
    if eng.fork(zbool(pure(eng, "field_refused", BOOL, b.node, b.parent, b.field))):
        raise errors_mod.RegistryError("selection not supported")
    emitted(eng, "field_classes", b, b.node, b.parent, b.field)
    return pure(eng, "field_statements", Seq(AST), b.node, b.parent, b.field)


NESTED = (P + "recurse_annotation", P + "type_field_node")
USED = NESTED + (
    UT + "unique_class_name", UT + "non_typename_fields", UT + "target_from_node", UT + "generate_typename_field", UT + "generate_generic_typename_field",
    UT + "generate_pydantic_config", UT + "get_additional_bases_for_type", UT + "get_interface_bases", UT + "annotate_field_metadata", UT + "compose_field_documentation",
    REG + "register_import", REG + "reference_scalar", REG + "reference_enum", REG + "reference_fragment", REG + "inherit_fragment", REG + "generate_node_name",
    REG + "get_interface_fragment_implementations", REG + "get_interface_fragment_implementation_or_none", REG + "get_fragment_type", REG + "is_interface_fragment")


# ---------------------------------------------------------------- one field
@unit("recurse.type_field_node", P + "type_field_node", ["C01", "C03", "C20", "C04"], contracts=USED)
def type_field_node(vc, fn):
    node, parent, field = vc.obj("FieldNode", "node"), vc.new(STR, "parent"), vc.obj("GraphQLField", "field")
    schema, cfg = vc.obj("Schema", "schema"), config(vc)
    reg = registry(vc, cfg)
    tree, want_tree = [], []
    o = vc.run(fn, node, parent, field, schema, cfg, tree, reg)
    try:
        ann = M.recurse_annotation(node, parent, field.type, schema, cfg, want_tree, reg)
    except errors_mod.RegistryError:
        vc.ok("what cannot be typed is refused", not o.ok)
        return
    if not vc.returns(o):
        return
    key = utils_mod.target_from_node(node)
    attr = reg.generate_node_name(key)
    kws = []
    if not isinstance(field.type, GraphQLNonNull):
        kws.append(kw("default", const(None)))
    if key != attr:
        kws.append(kw("alias", const(key)))
    if kws:
        vc.cover("field call")
        imports(vc, reg, "pydantic.Field")
    value = ast.Call(func=name("Field"), args=[], keywords=kws) if kws else None
    want = [annassign(attr, utils_mod.annotate_field_metadata(ann, reg, deprecation_reason=field.deprecation_reason), value)]
    text = utils_mod.compose_field_documentation(description=field.description, deprecation_reason=field.deprecation_reason, include_metadata=cfg.document_field_metadata)
    if text:
        want.append(doc(text))
    vc.equal("one attribute, reachable under its response key", o.value, want)
    vc.equal("with the classes it needs", tree, want_tree)


# ---------------------------------------------------------------- the types
def start(vc, kind):
    node, parent = vc.obj("FieldNode", "node"), vc.new(STR, "parent")
    t = vc.obj("OutType", "type")
    if not isinstance(t, kind):
        return None
    schema, cfg = vc.obj("Schema", "schema"), config(vc)
    reg = registry(vc, cfg)
    return node, parent, t, schema, cfg, reg, vc.flag("optional")


REFUSALS = (errors_mod.RegistryError, NotImplementedError, KeyError, ValueError, IndexError)


def annotation_unit(label, kind, props, expected, max_paths=4000):
    @unit(f"recurse.annotation[{label}]", P + "recurse_annotation", props, contracts=USED, max_paths=max_paths)
    def u(vc, fn):
        s = start(vc, kind)
        if s is None:
            return
        node, parent, t, schema, cfg, reg, opt = s
        tree, want_tree = [], []
        o = vc.run(fn, node, parent, t, schema, cfg, tree, reg, is_optional=opt)
        if not o.ok:
            vc.ok("a selection that is not supported is refused with an error", isinstance(o.exc, REFUSALS) or type(o.exc) is Exception)
            vc.cover("refused")
            return
        vc.cover("typed")
        if opt and not isinstance(t, GraphQLNonNull):
            imports(vc, reg, "typing.Optional")
        try:
            want = expected(vc, node, parent, t, schema, cfg, reg, opt, want_tree)
        except Exception as e:
            vc.ok("what cannot be generated is refused", False)
            return
        vc.equal("the annotation", o.value, want)
        vc.equal("the classes", tree, want_tree)


def leaf(vc, node, parent, t, schema, cfg, reg, opt, tree):
    return optional(opt, reg.reference_scalar(t.name) if isinstance(t, GraphQLScalarType) else reg.reference_enum(t.name, parent))


def wrapped(vc, node, parent, t, schema, cfg, reg, opt, tree):
    if isinstance(t, GraphQLNonNull):
        return M.recurse_annotation(node, parent, t.of_type, schema, cfg, tree, reg, is_optional=False)
    item = M.recurse_annotation(node, parent, t.of_type, schema, cfg, tree, reg)
    if cfg.freeze.enabled and cfg.freeze.convert_list_to_tuple:
        imports(vc, reg, "typing.Tuple")
        return optional(opt, sub(name("Tuple"), tup(item, const(...))))
    imports(vc, reg, "typing.List")
    return optional(opt, sub(name("List"), item))


annotation_unit("leaf", (GraphQLScalarType, GraphQLEnumType), ["C01", "C17", "C04"], leaf)
annotation_unit("wrapped", (GraphQLList, GraphQLNonNull), ["C01", "C12", "C04"], wrapped)


# -- objects
def selections(node):
    return utils_mod.non_typename_fields(node)


def object_(vc, node, parent, t, schema, cfg, reg, opt, tree):
    subs = selections(node)
    if len(subs) == 1:
        s = subs[0]
        if isinstance(s, FragmentSpreadNode):
            vc.cover("a single fragment")
            impl = reg.get_interface_fragment_implementation_or_none(s.name.value, t.name)
            return optional(opt, name(impl) if impl is not None else reg.reference_fragment(s.name.value, parent))
    cls = utils_mod.unique_class_name(parent + utils_mod.target_from_node(node).capitalize(), [])
    body = [doc(t.description if t.description else "No documentation"), utils_mod.generate_typename_field(t.name, reg, cfg)]
    bases = []
    for s in subs:
        if isinstance(s, FragmentSpreadNode):
            impl = reg.get_interface_fragment_implementation_or_none(s.name.value, t.name)
            bases.append(name(impl if impl is not None else reg.inherit_fragment(s.name.value)))
        elif isinstance(s, FieldNode) and s.name.value != "__typename":
            body += M.type_field_node(s, cls, t.fields[s.name.value], schema, cfg, tree, reg)
    imports_all(vc, reg, cfg.object_bases)
    if not bases:
        bases = utils_mod.get_additional_bases_for_type(t.name, cfg, reg)
    tree.append(classdef(cls, list(bases) + base_names(cfg.object_bases), body + utils_mod.generate_pydantic_config(GraphQLTypes.OBJECT, cfg, reg, typename=t.name)))
    return optional(opt, name(cls))


def imports_all(vc, reg, bases):
    for b in bases:
        imports(vc, reg, b)


annotation_unit("object", GraphQLObjectType, ["C01", "C08", "C21", "C12"], object_)


# -- unions
def inline_members(vc, s, cls, schema, cfg, reg, tree):
    """statements and bases of an inline fragment on a member of a union"""
    on = s.type_condition.name.value
    bases, fields = [], []
    for x in s.selection_set.selections:
        if isinstance(x, FragmentSpreadNode):
            bases.append(name(reg.inherit_fragment(x.name.value)))
        elif isinstance(x, FieldNode) and x.name.value != "__typename":
            fields += M.type_field_node(x, cls, schema.get_type(on).fields[x.name.value], schema, cfg, tree, reg)
    if bases:
        return bases, fields
    return utils_mod.get_additional_bases_for_type(on, cfg, reg), [utils_mod.generate_typename_field(on, reg, cfg)] + fields


def union_(vc, node, parent, t, schema, cfg, reg, opt, tree):
    members = []
    for s in selections(node):
        if isinstance(s, FragmentSpreadNode):
            members.append(reg.inherit_fragment(s.name.value))
        elif isinstance(s, InlineFragmentNode):
            on = s.type_condition.name.value
            cls = utils_mod.unique_class_name(parent + on + "InlineFragment", [])
            bases, body = inline_members(vc, s, cls, schema, cfg, reg, tree)
            body = body + utils_mod.generate_pydantic_config(GraphQLTypes.FRAGMENT, cfg, reg, typename=on)
            tree.append(classdef(cls, list(bases) + base_names(cfg.object_bases), body if body else [ast.Pass()]))
            members.append(cls)
    if len(members) > 1:
        vc.cover("several members")
        imports(vc, reg, "typing.Union")
        return optional(opt, sub(name("Union"), ast.Tuple(elts=[name(m) for m in members], ctx=ast.Load())))
    return optional(opt, name(members[0]))


annotation_unit("union", GraphQLUnionType, ["C01", "C08", "C21", "C12"], union_)


# -- interfaces
def interface(vc, node, parent, t, schema, cfg, reg, opt, tree):
    base = utils_mod.unique_class_name(parent + utils_mod.target_from_node(node).capitalize(), [], suffix="Base")
    mother = base + "Base"
    subs = selections(node)
    fields = [doc(t.description if t.description else "No documentation")]
    for s in subs:
        if isinstance(s, FieldNode):
            fields += M.type_field_node(s, base, t.fields[s.name.value], schema, cfg, tree, reg)
        elif isinstance(s, InlineFragmentNode):
            inline_fields(s, base, schema, cfg, reg, tree)
    tree.append(classdef(mother, utils_mod.get_additional_bases_for_type(t.name, cfg, reg) + utils_mod.get_interface_bases(cfg, reg),
                         fields + utils_mod.generate_pydantic_config(GraphQLTypes.FRAGMENT, cfg, reg, typename=t.name)))
    members = []
    for i in schema.get_implementations(t).objects:
        fragments, inline = [], []
        for s in subs:
            if isinstance(s, FragmentSpreadNode):
                f = fragment_class(reg, s.name.value, i.name)
                if f is not None:
                    fragments.append(name(f))
            elif isinstance(s, InlineFragmentNode):
                if s.type_condition.name.value == i.name:
                    inline.append(inline_fields(s, base, schema, cfg, reg, []))
        cls = mother + i.name
        body = [doc(i.description if i.description else "No documentation"), utils_mod.generate_typename_field(i.name, reg, cfg)]
        tree.append(classdef(cls, fragments + [name(mother)] + utils_mod.get_additional_bases_for_type(i.name, cfg, reg) + utils_mod.get_interface_bases(cfg, reg),
                             body + inline + utils_mod.generate_pydantic_config(GraphQLTypes.FRAGMENT, cfg, reg, typename=i.name)))
        members.append(cls)
    imports(vc, reg, "typing.Annotated", "typing.Union")
    result = sub(name("Annotated"), tup(sub(name("Union"), ast.Tuple(elts=[name(m) for m in members], ctx=ast.Load())), call("Field", discriminator=const("typename"))))
    if cfg.create_catchall:
        vc.cover("catch-all")
        other = mother + "CatchAll"
        tree.append(classdef(other, [name(mother)] + utils_mod.get_interface_bases(cfg, reg),
                             [doc("Catch all class for " + mother), utils_mod.generate_generic_typename_field(registry=reg, config=cfg)]))
        result = sub(name("Union"), tup(result, name(other)))
    return optional(opt, result)


def fragment_class(reg, fragment, typename):
    """the class of a spread fragment that a type inherits from"""
    try:
        m = reg.get_interface_fragment_implementations(fragment)
    except KeyError:
        return reg.inherit_fragment(fragment) if reg.get_fragment_type(fragment).name == typename else None
    return m[typename] if typename in m else None


def inline_fields(s, base, schema, cfg, reg, tree):
    out = []
    for x in s.selection_set.selections:
        if isinstance(x, FieldNode) and x.name.value != "__typename":
            out += M.type_field_node(x, base, M.get_field_def(schema, schema.get_type(s.type_condition.name.value), x), schema, cfg, tree, reg)
    return out


annotation_unit("interface", GraphQLInterfaceType, ["C01", "C08", "C21", "C12"], interface, max_paths=20000)
