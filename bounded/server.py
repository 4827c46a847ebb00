"""a conforming server: executes the generated document with graphql-core over
randomly chosen data and remembers the schema type of every response position"""
import graphql
from graphql import (
    GraphQLEnumType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType, GraphQLScalarType, GraphQLUnionType,
    FieldNode, FragmentSpreadNode, InlineFragmentNode, is_abstract_type,
)

LEAF = {"Int": lambda r: r.randint(-9, 9), "Float": lambda r: r.choice([0.5, -1.25, 3.0]), "String": lambda r: r.choice(["", "txt", "Ünï \"q\""]), "Boolean": lambda r: r.p(0.5), "ID": lambda r: r.choice(["i1", "42"]),
        "Stamp": lambda r: r.choice(["st", "x"]), "Big": lambda r: r.randint(0, 99), "When": lambda r: "2020-01-02T03:04:05"}


OVERRIDE = {}


def leaf(name, r):
    return (OVERRIDE.get(name) or LEAF[name])(r)


class Server:
    def __init__(self, schema, document, r, null=0.25):
        self.schema, self.doc, self.r, self.null = schema, document, r, null
        self.frags = {d.name.value: d for d in document.definitions if isinstance(d, graphql.FragmentDefinitionNode)}
        self.types = {}  # path -> (graphql type, field nodes, parent type)

    def covered(self, nodes, seen=()):
        """object types a selection on a union names"""
        out = set()

        def walk(ss):
            for n in ss.selections:
                if isinstance(n, InlineFragmentNode):
                    if n.type_condition is None:
                        walk(n.selection_set)
                    else:
                        add(n.type_condition.name.value, n.selection_set)
                elif isinstance(n, FragmentSpreadNode):
                    f = self.frags[n.name.value]
                    add(f.type_condition.name.value, f.selection_set)

        def add(t, ss):
            ty = self.schema.get_type(t)
            if isinstance(ty, GraphQLUnionType):
                walk(ss)
            elif is_abstract_type(ty):
                out.update(x.name for x in self.schema.get_possible_types(ty))
            else:
                out.add(t)

        for n in nodes:
            walk(n.selection_set)
        return out

    def value(self, t, info, depth=0):
        r = self.r
        if isinstance(t, GraphQLNonNull):
            return self.nonnull(t.of_type, info, depth)
        if r.p(self.null):
            return None
        return self.nonnull(t, info, depth)

    def nonnull(self, t, info, depth):
        r = self.r
        if isinstance(t, GraphQLList):
            return [self.value(t.of_type, info, depth + 1) for _ in range(r.choice([0, 1, 2]))]
        if isinstance(t, GraphQLScalarType):
            return leaf(t.name, r)
        if isinstance(t, GraphQLEnumType):
            return r.choice(list(t.values.values())).value
        if is_abstract_type(t):
            possible = [x.name for x in self.schema.get_possible_types(t)]
            if isinstance(t, GraphQLUnionType):
                c = self.covered(info.field_nodes)
                possible = [p for p in possible if p in c] or possible
            return {"__typename": r.choice(possible)}
        return {"__typename": t.name}

    def resolve(self, src, info, **args):
        self.types[tuple(info.path.as_list())] = (info.return_type, info.field_nodes, info.parent_type)
        return self.value(info.return_type, info)

    def run(self, variables=None, name=None):
        op = next(d for d in self.doc.definitions if isinstance(d, graphql.OperationDefinitionNode) and (name is None or d.name.value == name))
        ctx = graphql.execution.ExecutionContext.build(
            self.schema, self.doc, None, None, variables or {}, op.name.value,
            field_resolver=self.resolve, type_resolver=lambda v, i, t: v["__typename"],
        )
        if isinstance(ctx, list):
            raise ValueError(f"server rejects the request: {ctx[0].message}")
        try:
            data = ctx.execute_operation(ctx.operation, {})
        except graphql.GraphQLError as e:
            raise ValueError(f"execution error: {e.message}")
        if ctx.errors:
            raise ValueError(f"execution error: {ctx.errors[0].message}")
        return data


def positions(data, types):
    """every (path, type, nodes, parent) of a response, list items included"""
    out = []

    def items(v, path, t, ctx):
        out.append((path, t, ctx))
        inner = t.of_type if isinstance(t, GraphQLNonNull) else t
        if isinstance(v, list):
            for i, x in enumerate(v):
                items(x, path + (i,), inner.of_type, ctx)
        elif isinstance(v, dict):
            obj(v, path)

    def obj(v, path):
        for k, x in v.items():
            p = path + (k,)
            if p in types:
                t, nodes, parent = types[p]
                items(x, p, t, (nodes, parent))

    obj(data, ())
    return out


def minimal_variables(schema, op, r, supply=0.0):
    """JSON values for the variables: all required ones, others by chance"""
    out = {}
    for v in op.variable_definitions:
        t = graphql.type_from_ast(schema, v.type)
        req = isinstance(t, GraphQLNonNull) and v.default_value is None
        if req or (v.default_value is None and r.p(supply)):
            out[v.variable.name.value] = in_nn(t.of_type if isinstance(t, GraphQLNonNull) else t, r, 0)
    return out


def input_value(t, r, depth=0):
    """a JSON value of an input type"""
    if isinstance(t, GraphQLNonNull):
        return in_nn(t.of_type, r, depth)
    if r.p(0.2):
        return None
    return in_nn(t, r, depth)


def is_oneof(t):
    return any(d.name.value == "oneOf" for d in (t.ast_node.directives if t.ast_node else ()))


def in_nn(t, r, depth):
    if isinstance(t, GraphQLList):
        return [input_value(t.of_type, r, depth + 1) for _ in range(r.choice([0, 1, 2]) if depth < 4 else 0)]
    if isinstance(t, GraphQLScalarType):
        return leaf(t.name, r)
    if isinstance(t, GraphQLEnumType):
        return r.choice(list(t.values))
    out = {}
    if is_oneof(t):
        f = r.choice(list(t.fields))
        ft = t.fields[f].type
        return {f: in_nn(ft.of_type if isinstance(ft, GraphQLNonNull) else ft, r, depth + 1)}
    for f, d in t.fields.items():
        req = isinstance(d.type, GraphQLNonNull) and d.default_value is graphql.Undefined
        if req or (depth < 3 and r.p(0.5)):
            out[f] = input_value(d.type, r, depth + 1)
    return out
