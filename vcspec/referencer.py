"""contracts of the search for what the documents use"""
import turms.referencer as M
from graphql import (
    GraphQLEnumType,
    GraphQLInputObjectType,
    GraphQLInterfaceType,
    GraphQLList,
    GraphQLNonNull,
    GraphQLObjectType,
    GraphQLScalarType,
    GraphQLUnionType,
)
from graphql.language.ast import ArgumentNode, DirectiveNode, FieldNode, FragmentDefinitionNode, FragmentSpreadNode, InlineFragmentNode, InputObjectTypeDefinitionNode, ListTypeNode, NamedTypeNode, NonNullTypeNode, StringValueNode
from vf.core import *
from vf.domains import domain
from vf.verify import unit

from .common import *

P = "turms.referencer:"
KINDS = ("objects", "fragments", "enums", "inputs", "scalars", "operations")


class Search(M.ReferenceRegistry):
    """the real class; what it has found so far is arbitrary"""

    def __init__(self):
        for k in KINDS:
            setattr(self, k, VSet())
        self.visits = VList([])


def search(vc, some=True):
    s = Search()
    if some:
        for k in KINDS:
            getattr(s, k).update(vc.new(Seq(STR), "found." + k))
    return s


def same(vc, label, got, want, kinds=KINDS):
    for k in kinds:
        vc.equal(f"{label}: {k}", getattr(got, k), getattr(want, k))


for _m, _k in [("register_type", "objects"), ("register_fragment", "fragments"), ("register_enum", "enums"), ("register_input", "inputs"), ("register_scalar", "scalars")]:

    @unit("referencer." + _m, P + "ReferenceRegistry." + _m, ["C16"])
    def recorder(vc, fn, kind=_k):
        s, want = search(vc), search(vc)
        n = vc.new(STR, "name")
        if vc.returns(vc.run(fn, s, n)):
            vc.cover("recorded")
            getattr(want, kind).add(n)
            same(vc, "remembered, nothing else changes", s, want)


@unit("referencer.is_input_registered", P + "ReferenceRegistry.is_input_registered", ["C16"])
def is_registered(vc, fn):
    s = search(vc)
    n = vc.new(STR, "name")
    o = vc.run(fn, s, n)
    if vc.returns(o):
        vc.cover("answered")
        vc.equal("whether it was remembered", bool(o.value), n in s.inputs)


# ---------------------------------------------------------------- selections
@contract(P + "recurse_find_references", proved_by="referencer.recurse_find_references")
def c_find(eng, fn, *a, **k):
    b = bind(fn, a, k)
    x = (b.node, b.graphql_type, b.client_schema)
    if eng.fork(zbool(pure(eng, "selection_refused", BOOL, *x))):
        raise Exception("not a selection of this type")
    for kind in ("fragments", "enums", "scalars"):
        getattr(b.registry, kind).update(pure(eng, "selected_" + kind, Seq(STR), *x))


COMPOSITE = (GraphQLUnionType, GraphQLObjectType, GraphQLInterfaceType)


class Refused(Exception):
    pass


def field_of(t, node):
    if not isinstance(t, (GraphQLObjectType, GraphQLInterfaceType)):
        raise Refused("fields of what has none")
    return t.fields[node.name.value].type


def any_field(t, node):
    return t.fields[node.name.value].type


def inside(selections, t, schema, found, spreads, field_of=field_of):
    """everything the fields of these selections need, one level of inline fragments deep"""
    for s in selections:
        if isinstance(s, FragmentSpreadNode):
            if spreads:
                found.fragments.add(s.name.value)
        elif isinstance(s, InlineFragmentNode):
            for f in s.selection_set.selections:
                if isinstance(f, FieldNode) and f.name.value != "__typename":
                    M.recurse_find_references(f, field_of(schema.get_type(s.type_condition.name.value), f), schema, found)
        elif s.name.value != "__typename":
            M.recurse_find_references(s, field_of(t, s), schema, found)


def selected(node, t, schema, found):
    if isinstance(t, COMPOSITE):
        if node.selection_set is None:
            raise Refused("nothing selected")
        inside(node.selection_set.selections, t, schema, found, True)
    elif isinstance(t, GraphQLScalarType):
        found.scalars.add(t.name)
    elif isinstance(t, GraphQLEnumType):
        found.enums.add(t.name)
    else:
        M.recurse_find_references(node, t.of_type, schema, found)


@unit("referencer.recurse_find_references", P + "recurse_find_references", ["C16"], contracts=(P + "recurse_find_references",))
def find(vc, fn):
    node, t, schema = vc.obj("FieldNode", "node"), vc.obj("OutType", "type"), vc.obj("Schema", "schema")
    s, want = search(vc), search(vc)
    o = vc.run(fn, node, t, schema, s)
    try:
        selected(node, t, schema, want)
    except Exception:
        vc.cover("refused")
        vc.ok("a selection that does not fit the schema is an error", not o.ok)
        return
    if vc.returns(o):
        vc.cover("found")
        same(vc, "every type below the selection is found, nothing else", s, want)


# ---------------------------------------------------------------- variables
# the arguments of @unionElementOf are strings
domain("StringArgument", [ArgumentNode], {"*": {"name": Cls("NameNode"), "value": Cls("StringValue"), "loc": ANY}})
domain("StringValue", [StringValueNode], {"*": {"value": STR, "block": BOOL, "loc": ANY}})
domain("StringDirective", [DirectiveNode], {"*": {"name": Cls("NameNode"), "arguments": Seq(Cls("StringArgument"), "tuple"), "loc": ANY}})
domain("StringInputAst", [InputObjectTypeDefinitionNode], {"*": {"directives": Seq(Cls("StringDirective"), "tuple"), "loc": ANY}})
domain("StringInput", [GraphQLInputObjectType], {"*": {"name": STR, "ast_node": Opt(Cls("StringInputAst")), "fields": Map(Cls("GraphQLInputField"))}})


@unit("referencer.get_union_memberships", P + "get_union_memberships", ["C16", "C19"])
def memberships(vc, fn):
    t = vc.obj("StringInput", "type")
    o = vc.run(fn, t)
    if not vc.returns(o):
        return
    vc.cover("unions")
    want = set()
    if t.ast_node is not None:
        for d in t.ast_node.directives:
            if d.name.value == "unionElementOf":
                for a in d.arguments:
                    if a.name.value == "union":
                        want.add(a.value.value)
    vc.equal("exactly the unions its directives name", o.value, want)


@contract(P + "get_union_memberships", proved_by="referencer.get_union_memberships")
def c_memberships(eng, fn, input_type):
    out = VSet()
    out.update(pure(eng, "memberships", Seq(STR), input_type))
    return out


@contract(P + "recurse_type_annotation", proved_by="referencer.recurse_type_annotation")
def c_visit(eng, fn, field, graphql_type, schema, registry, optional=True):
    """the step the proof is about; that the steps together reach everything is an induction over the schema (DESIGN.md)"""
    if eng.fork(zbool(pure(eng, "type_unknown", BOOL, graphql_type, schema))):
        raise AssertionError("not a type of the schema")
    registry.visits.append(graphql_type)


def below(t, schema):
    """the types one step below: all of them have to be visited"""
    if isinstance(t, (NonNullTypeNode, ListTypeNode)):
        return [t.type]
    if isinstance(t, NamedTypeNode):
        return [schema.get_type(t.name.value)]
    if isinstance(t, (GraphQLNonNull, GraphQLList)):
        return [t.of_type]
    out = []
    if isinstance(t, GraphQLInputObjectType):
        out = [f.type for k, f in t.fields.items()]
        out += [m for m in schema.type_map.values() if isinstance(m, GraphQLInputObjectType) and t.name in M.get_union_memberships(m)]
    return out


def visit_unit(dom, what):
    @unit(f"referencer.recurse_type_annotation[{what}]", P + "recurse_type_annotation", ["C16"], contracts=(P + "recurse_type_annotation", P + "get_union_memberships"))
    def visit(vc, fn):
        t, schema, field = vc.obj(dom, "type"), vc.obj("Schema", "schema"), vc.obj("VariableDefinitionNode", "variable")
        s, want = search(vc), search(vc)
        o = vc.run(fn, field, t, schema, s)
        known = isinstance(t, GraphQLInputObjectType) and t.name in want.inputs
        unknown = isinstance(t, NamedTypeNode) and schema.get_type(t.name.value) is None
        if unknown:
            vc.ok("a type the schema does not have is an error", not o.ok)
            return
        try:
            for b in below(t, schema) if not known else []:
                M.recurse_type_annotation(field, b, schema, want)
        except AssertionError:
            vc.ok("a type the schema does not have is an error", not o.ok)
            return
        if not vc.returns(o):
            return
        vc.cover("visited")
        if isinstance(t, GraphQLScalarType):
            want.scalars.add(t.name)
        elif isinstance(t, GraphQLEnumType):
            want.enums.add(t.name)
        elif isinstance(t, GraphQLInputObjectType):
            if not known:
                want.inputs.add(t.name)
        same(vc, "the type itself is remembered", s, want)
        vc.equal("everything below a type seen for the first time is visited", s.visits, want.visits)


visit_unit("TypeNode", "written")
visit_unit("InType", "schema")


# ---------------------------------------------------------------- documents
@contract(P + "recurse_type_annotation#closure", note="the steps proved in referencer.recurse_type_annotation reach everything below a type: an induction over the schema that no unit discharges")
def c_closure(eng, fn, field, graphql_type, schema, registry, optional=True):
    if eng.fork(zbool(pure(eng, "type_unknown", BOOL, graphql_type, schema))):
        raise AssertionError("not a type of the schema")
    for kind in ("inputs", "enums", "scalars"):
        getattr(registry, kind).update(pure(eng, "below_" + kind, Seq(STR), graphql_type, schema))


@unit("referencer.create", P + "create_reference_registry_from_documents", ["C16"], contracts=(P + "recurse_find_references", P + "recurse_type_annotation#closure"))
def create(vc, fn):
    """operations and fragments of a validated document: their types exist, no two share a name"""
    schema, document = vc.obj("Schema", "schema"), vc.obj("Document", "document")
    want = search(vc, False)
    o = vc.run(fn, schema, document)
    if not o.ok:
        vc.cover("refused")  # nothing is generated then; documents that fit are run boundedly
        return
    try:
        used(document, schema, want)
    except Exception:
        vc.ok("a document that does not fit the schema is an error", False)
        return
    if vc.returns(o):
        vc.cover("found")
        same(vc, "everything the documents use, nothing else", o.value, want)


def used(document, schema, found):
    fragments, operations = {}, {}
    for d in document.definitions:
        if isinstance(d, FragmentDefinitionNode):
            fragments[d.name.value] = d
        else:
            operations[d.name.value] = d
    for f in fragments.values():
        inside(f.selection_set.selections, schema.get_type(f.type_condition.name.value), schema, found, False, any_field)
    for op in operations.values():
        for v in op.variable_definitions:
            M.recurse_type_annotation(v, v.type, schema, found)
        t = schema.get_root_type(op.operation)
        for s in op.selection_set.selections:
            if isinstance(s, FieldNode) and s.name.value != "__typename":
                M.recurse_find_references(s, t.fields[s.name.value].type, schema, found)
