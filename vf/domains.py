"""descriptors of the library objects the code handles (graphql-core nodes and
types, turms config).  These are the trusted preconditions on inputs."""
import ast, enum, typing, types
import graphql as _gq
from graphql import *
from graphql.language import ast as gast
from graphql.language.ast import *
from .core import *
from .engine import STEADY
from . import core
import z3

N = Cls
domain("any", [], {})
domain("float", [], {})


def node(dname, cls, /, **attrs):
    base = {"loc": ANY}
    base.update(attrs)
    domain(dname, [cls], {"*": base})


node("NameNode", NameNode, value=STR)
FIELD = dict(alias=Opt(N("NameNode")), name=N("NameNode"), arguments=Seq(N("ArgumentNode"), "tuple"), directives=Seq(N("DirectiveNode"), "tuple"), selection_set=Opt(N("SelectionSet")))
node("FieldNode", FieldNode, **FIELD)
SPREAD = dict(name=N("NameNode"), directives=Seq(N("DirectiveNode"), "tuple"))
node("FragmentSpreadNode", FragmentSpreadNode, **SPREAD)
INLINE = dict(type_condition=N("NamedTypeNode"), directives=Seq(N("DirectiveNode"), "tuple"), selection_set=N("SelectionSet"))
node("InlineFragmentNode", InlineFragmentNode, **INLINE)
domain(
    "Selection",
    [FieldNode, FragmentSpreadNode, InlineFragmentNode],
    {"*": {"loc": ANY, "directives": Seq(N("DirectiveNode"), "tuple")}, "FieldNode": FIELD, "FragmentSpreadNode": SPREAD, "InlineFragmentNode": INLINE},
)
node("SelectionSet", SelectionSetNode, selections=Seq(N("Selection"), "tuple"))
node("DirectiveNode", DirectiveNode, name=N("NameNode"), arguments=Seq(N("ArgumentNode"), "tuple"))
node("ArgumentNode", ArgumentNode, name=N("NameNode"), value=N("ValueNode"))
domain(
    "ValueNode",
    [IntValueNode, FloatValueNode, StringValueNode, BooleanValueNode, NullValueNode, EnumValueNode, ListValueNode, ObjectValueNode],
    {
        "*": {"loc": ANY},
        "IntValueNode": {"value": STR},
        "FloatValueNode": {"value": STR},
        "StringValueNode": {"value": STR, "block": BOOL},
        "BooleanValueNode": {"value": BOOL},
        "EnumValueNode": {"value": STR},
        "ListValueNode": {"values": Seq(N("ValueNode"), "tuple")},
        "ObjectValueNode": {"fields": Seq(N("ObjectFieldNode"), "tuple")},
    },
)
node("ObjectFieldNode", ObjectFieldNode, name=N("NameNode"), value=N("ValueNode"))
NAMEDT = dict(name=N("NameNode"))
node("NamedTypeNode", NamedTypeNode, **NAMEDT)
domain(
    "TypeNode",
    [NamedTypeNode, ListTypeNode, NonNullTypeNode],
    {"*": {"loc": ANY}, "NamedTypeNode": NAMEDT, "ListTypeNode": {"type": N("TypeNode")}, "NonNullTypeNode": {"type": N("NullableTypeNode")}},
)
domain(
    "NullableTypeNode",
    [NamedTypeNode, ListTypeNode],
    {"*": {"loc": ANY}, "NamedTypeNode": NAMEDT, "ListTypeNode": {"type": N("TypeNode")}},
)


def named_node(t):
    """the named type below the lists and non-nulls of a type"""
    return core.uf("named_node", core.Obj, core.Obj)(t)


def _unfold(eng, o):
    below = core.uf("a_type_Obj", core.Obj, core.Obj)(o.t)
    eng.given(z3.Implies(core.TAG(o.t) == core.class_id(NamedTypeNode), named_node(o.t) == o.t))
    eng.given(z3.Implies(core.TAG(o.t) != core.class_id(NamedTypeNode), named_node(o.t) == named_node(below)))


for _d in ("TypeNode", "NullableTypeNode", "NamedTypeNode"):
    DOMAINS[_d]["inv"] = _unfold
STEADY["TypeNode"] = STEADY["NullableTypeNode"] = named_node
node("VariableNode", VariableNode, name=N("NameNode"))
node(
    "VariableDefinitionNode",
    VariableDefinitionNode,
    variable=N("VariableNode"),
    type=N("TypeNode"),
    default_value=Opt(N("ValueNode")),
    directives=Seq(N("DirectiveNode"), "tuple"),
)
OPDEF = dict(
    operation=Enum_(OperationType.QUERY, OperationType.MUTATION, OperationType.SUBSCRIPTION),
    name=N("NameNode"),
    variable_definitions=Seq(N("VariableDefinitionNode"), "tuple"),
    directives=Seq(N("DirectiveNode"), "tuple"),
    selection_set=N("SelectionSet"),
)
FRAGDEF = dict(name=N("NameNode"), type_condition=N("NamedTypeNode"), directives=Seq(N("DirectiveNode"), "tuple"), selection_set=N("SelectionSet"), variable_definitions=Seq(N("VariableDefinitionNode"), "tuple"))
node("OperationDefinitionNode", OperationDefinitionNode, **OPDEF)
node("FragmentDefinitionNode", FragmentDefinitionNode, **FRAGDEF)
domain("Definition", [OperationDefinitionNode, FragmentDefinitionNode], {"*": {"loc": ANY, "name": N("NameNode"), "selection_set": N("SelectionSet"), "directives": Seq(N("DirectiveNode"), "tuple")}, "OperationDefinitionNode": OPDEF, "FragmentDefinitionNode": FRAGDEF})
node("Document", DocumentNode, definitions=Seq(N("Definition"), "tuple"))

# ------------------------------------------------------------------ schema
FIELDS = Map(N("GraphQLField"))
T_OBJ = dict(name=STR, description=Opt(STR), fields=FIELDS, interfaces=Seq(N("InterfaceType"), "tuple"), ast_node=ANY)
T_INT = dict(T_OBJ)
T_UNION = dict(name=STR, description=Opt(STR), types=Seq(N("ObjectType"), "tuple"), ast_node=ANY)
T_ENUM = dict(name=STR, description=Opt(STR), values=Map(N("GraphQLEnumValue")), ast_node=ANY)
T_SCALAR = dict(name=STR, description=Opt(STR), ast_node=ANY)
T_INPUT = dict(name=STR, description=Opt(STR), fields=Map(N("GraphQLInputField")), ast_node=Opt(N("InputAstNode")))
BY = {
    "GraphQLScalarType": T_SCALAR,
    "GraphQLObjectType": T_OBJ,
    "GraphQLInterfaceType": T_INT,
    "GraphQLUnionType": T_UNION,
    "GraphQLEnumType": T_ENUM,
    "GraphQLInputObjectType": T_INPUT,
}
NAMED = [GraphQLScalarType, GraphQLObjectType, GraphQLInterfaceType, GraphQLUnionType, GraphQLEnumType, GraphQLInputObjectType]
OUT = [GraphQLScalarType, GraphQLObjectType, GraphQLInterfaceType, GraphQLUnionType, GraphQLEnumType]
IN = [GraphQLScalarType, GraphQLEnumType, GraphQLInputObjectType]


def types_domain(name, classes, list_of, nn_of):
    attrs = {c.__name__: dict(BY[c.__name__]) for c in classes}
    cl = list(classes)
    if list_of:
        cl.append(GraphQLList)
        attrs["GraphQLList"] = {"of_type": N(list_of)}
    if nn_of:
        cl.append(GraphQLNonNull)
        attrs["GraphQLNonNull"] = {"of_type": N(nn_of)}
    domain(name, cl, attrs)


types_domain("OutType", OUT, "OutType", "OutTypeNN")
types_domain("OutTypeNN", OUT, "OutType", None)
types_domain("InType", IN, "InType", "InTypeNN")
types_domain("InTypeNN", IN, "InType", None)
types_domain("NamedType", NAMED, None, None)
types_domain("ObjectType", [GraphQLObjectType], None, None)
types_domain("InterfaceType", [GraphQLInterfaceType], None, None)
types_domain("UnionType", [GraphQLUnionType], None, None)
types_domain("CompositeType", [GraphQLObjectType, GraphQLInterfaceType, GraphQLUnionType], None, None)
types_domain("InputObjectType", [GraphQLInputObjectType], None, None)
types_domain("EnumType", [GraphQLEnumType], None, None)
domain("GraphQLField", [GraphQLField], {"*": {"type": N("OutType"), "args": Map(N("GraphQLArgument")), "description": Opt(STR), "deprecation_reason": Opt(STR), "ast_node": ANY}})
domain("GraphQLArgument", [GraphQLArgument], {"*": {"type": N("InType"), "default_value": N("PyValue"), "description": Opt(STR), "deprecation_reason": Opt(STR), "out_name": Opt(STR), "ast_node": ANY}})
domain("GraphQLInputField", [GraphQLInputField], {"*": {"type": N("InType"), "default_value": N("PyValue"), "description": Opt(STR), "deprecation_reason": Opt(STR), "out_name": Opt(STR), "ast_node": ANY}})
domain("GraphQLEnumValue", [GraphQLEnumValue], {"*": {"value": STR, "description": Opt(STR), "deprecation_reason": Opt(STR)}})
domain("InputAstNode", [InputObjectTypeDefinitionNode], {"*": {"directives": Seq(N("DirectiveNode"), "tuple"), "loc": ANY}})

# coerced Python default values
domain(
    "PyValue",
    [type(_gq.Undefined), type(None), str, bool, int, float, list, dict],
    {},
)


def _pyident(o, c):
    """`value is Undefined/None`"""
    if c is _gq.Undefined:
        return core.TAG(o.t) == core.class_id(type(_gq.Undefined))
    if c is None:
        return core.TAG(o.t) == core.class_id(type(None))
    return z3.BoolVal(False)


DOMAINS["PyValue"]["ident"] = _pyident

# ------------------------------------------------------------------ schema object (methods are pure functions of it)
domain(
    "Schema",
    [GraphQLSchema],
    {
        "*": {
            "get_type": Fun(Opt(N("NamedType")), name="schema.get_type"),
            "get_root_type": Fun(Opt(N("ObjectType")), name="schema.get_root_type"),
            "get_implementations": Fun(N("Implementations"), name="schema.get_implementations"),
            "type_map": Map(N("NamedType", "name")),
            "query_type": Opt(N("ObjectType")),
            "mutation_type": Opt(N("ObjectType")),
            "subscription_type": Opt(N("ObjectType")),
        }
    },
)
domain("Implementations", [_gq.type.schema.InterfaceImplementations], {"*": {"objects": Seq(N("ObjectType")), "interfaces": Seq(N("InterfaceType"))}})


# ------------------------------------------------------------------ pydantic config models, read from the code
_model_done = {}


def desc_of(t):
    o = typing.get_origin(t)
    a = typing.get_args(t)
    if t is str or isinstance(t, type) and issubclass(t, str) and not issubclass(t, enum.Enum):
        return STR
    if t is bool:
        return BOOL
    if t is int:
        return INT
    if t is typing.Any:
        return ANY
    if o is typing.Annotated:
        return desc_of(a[0])
    if o in (typing.Union, types.UnionType):
        rest = [x for x in a if x is not type(None)]
        if len(rest) < len(a):
            if all(typing.get_origin(x) is typing.Literal for x in rest):
                vs = [v for x in rest for v in typing.get_args(x)]
                return Opt(Enum_(*vs)) if not all(isinstance(v, str) for v in vs) else Opt(STR)
            return Opt(desc_of(rest[0] if len(rest) == 1 else typing.Union[tuple(rest)]))
        return ANY
    if o is typing.Literal:
        return Enum_(*a)
    if o in (list, typing.List):
        return Seq(desc_of(a[0]))
    if o in (dict, typing.Dict):
        return Map(desc_of(a[1]))
    if isinstance(t, type) and issubclass(t, enum.Enum):
        return Enum_(*list(t))
    if isinstance(t, type) and hasattr(t, "model_fields"):
        return Cls(model_domain(t))
    return ANY


def model_domain(cls):
    """domain of a pydantic model, derived from its declared fields"""
    n = "cfg:" + cls.__name__
    if n not in _model_done:
        _model_done[n] = True
        domain(n, [cls], {"*": {}})
        DOMAINS[n]["attrs"]["*"] = {f: desc_of(i.annotation) for f, i in cls.model_fields.items()}
    return n
