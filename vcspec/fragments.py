"""contracts of the fragment classes and of the order they are generated in"""
import ast

import turms.plugins.fragments as M
from graphql import FieldNode, FragmentDefinitionNode, FragmentSpreadNode, GraphQLInterfaceType, GraphQLObjectType, GraphQLUnionType, InlineFragmentNode, print_ast
from turms.config import GraphQLTypes
from vf.core import *
from vf.domains import domain, model_domain
from vf.verify import unit

from .common import *
from .documents import x_print  # noqa: F401
from .operations import c_document  # noqa: F401
from .recurse import fragment_class, x_field_def  # noqa: F401

P = "turms.plugins.fragments:"
PCFG = lambda: model_domain(M.FragmentsPluginConfig)


# ---------------------------------------------------------------- base classes
@unit("fragments.get_fragment_bases", P + "get_fragment_bases", ["C21", "C04", "C08"], contracts=(REG + "register_import",))
def fragment_bases(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    pcfg = vc.obj(PCFG(), "plugin_config")
    kind = vc.choice("kind", "OBJECT", "UNION", "INTERFACE")
    o = vc.run(fn, kind, cfg, pcfg, reg)
    if not vc.returns(o):
        return
    vc.cover(kind)
    want = base_names(pcfg.fragment_bases) + (base_names(pcfg.object_bases) if kind == "OBJECT" else []) + base_names(cfg.object_bases)
    for b in pcfg.fragment_bases:
        imports(vc, reg, b)
    if kind == "OBJECT":
        for b in pcfg.object_bases:
            imports(vc, reg, b)
    for b in cfg.object_bases:
        imports(vc, reg, b)
    vc.equal("the bases configured for fragments, then those of every object", o.value, want)


@contract(P + "get_fragment_bases", proved_by="fragments.get_fragment_bases")
def c_bases(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "fragment_bases", Seq(AST), b.kind, b.config, b.pluginConfig)


# ---------------------------------------------------------------- one fragment
@contract(REG + "get_union_fragment_members", proved_by="registry.get_union_fragment_members")
def c_union_members(eng, fn, self, fragmentname):
    if eng.fork(zbool(pure(eng, "no_union_fragment", BOOL, fragmentname))):
        raise KeyError("fragment")
    return pure(eng, "union_members", Map(STR), fragmentname)


USED = ("turms.recurse:type_field_node", UT + "non_typename_fields", UT + "generate_typename_field", UT + "generate_generic_typename_field",
        UT + "generate_pydantic_config", UT + "get_additional_bases_for_type", UT + "get_interface_bases", UT + "replace_iteratively#document",
        REG + "register_import", REG + "inherit_fragment", REG + "generate_fragment", REG + "style_fragment_class",
        REG + "get_interface_fragment_implementations", REG + "get_fragment_type", REG + "get_union_fragment_members", P + "get_fragment_bases")


class Refused(Exception):
    pass


def fragment_unit(label, kind, props, expected, max_paths=6000):
    @unit(f"fragments.generate_fragment[{label}]", P + "generate_fragment", props, contracts=USED, max_paths=max_paths)
    def u(vc, fn):
        f = vc.obj("FragmentDefinitionNode", "fragment")
        schema, cfg = vc.obj("Schema", "schema"), config(vc)
        t = schema.get_type(f.type_condition.name.value)
        if not isinstance(t, kind):
            return
        if t.name != f.type_condition.name.value:  # a schema finds types under their name
            return
        pcfg = vc.obj(PCFG(), "plugin_config")
        reg = registry(vc, cfg)
        n = f.name.value
        if n in reg.fragment_document_map:
            return
        reg.fragment_type_map, reg.interfacefragments_impl_map, reg.unionfragment_members_map = {}, {}, {}
        r = vc.run(fn, f, schema, cfg, pcfg, reg)
        tree = []
        try:
            known = expected(vc, f, t, schema, cfg, pcfg, reg, tree)
        except (Refused, KeyError, errors_mod.RegistryError, utils_mod.FragmentNotFoundError):
            vc.cover("refused")
            vc.ok("what cannot be generated is refused", not r.ok)
            return
        if not vc.returns(r):
            return
        vc.cover("generated")
        vc.equal("the classes", r.value, tree)
        vc.equal("the document is known to the operations that spread it", reg.fragment_document_map[n], print_ast(f))
        vc.equal("the type is known", reg.fragment_type_map[n], t)
        if label == "interface":
            vc.equal("one class per implementing type is known", reg.interfacefragments_impl_map[n], known)
        if label == "union":
            imports(vc, reg, "typing.Union")
            vc.equal("one class per member is known", reg.unionfragment_members_map[n], known)


def described(t, pcfg):
    return t.description if t.description and pcfg.add_documentation else "No documentation"


def fields_of(selections, cls, on, schema, cfg, reg, tree):
    out = []
    for x in selections:
        if isinstance(x, FieldNode) and x.name.value != "__typename":
            d = M.get_field_def(schema, on, x)
            if d is None:
                raise Refused("no such field")
            out += M.type_field_node(x, cls, d, schema, cfg, tree, reg)
    return out


# -- objects
def spread_class(reg, fragment, typename):
    try:
        m = reg.get_interface_fragment_implementations(fragment)
    except KeyError:
        return reg.inherit_fragment(fragment)
    if typename not in m:
        raise Refused("an impossible spread")
    return m[typename]


def object_(vc, f, t, schema, cfg, pcfg, reg, tree):
    n = f.name.value
    cls = reg.generate_fragment(n, False)
    body = [doc(described(t, pcfg)), utils_mod.generate_typename_field(t.name, reg, cfg)]
    bases = utils_mod.get_additional_bases_for_type(t.name, cfg, reg)
    for s in f.selection_set.selections:
        if isinstance(s, FragmentSpreadNode):
            bases = [name(spread_class(reg, s.name.value, t.name))] + bases
        elif isinstance(s, FieldNode) and s.name.value != "__typename":
            d = M.get_field_def(schema, t, s)
            if d is None:
                raise Refused("no such field")
            body += M.type_field_node(s, cls, d, schema, cfg, tree, reg)
    meta = []
    if pcfg.generate_meta_class:
        vc.cover("meta class")
        meta = [classdef("Meta", [], [doc(f"Meta class for {n}"), assign("document", const(utils_mod.replace_iteratively(print_ast(f), reg))),
                                      assign("name", const(n)), assign("type", const(t.name))])]
    tree.append(classdef(cls, bases + M.get_fragment_bases("OBJECT", cfg, pcfg, reg),
                         body + utils_mod.generate_pydantic_config(GraphQLTypes.FRAGMENT, cfg, reg, typename=t.name) + meta))


fragment_unit("object", GraphQLObjectType, ["C01", "C05", "C06", "C08", "C21"], object_)


# -- interfaces
def spread_known(reg, fragment):
    """only a fragment that was generated before can be spread"""
    try:
        reg.get_interface_fragment_implementations(fragment)
    except KeyError:
        reg.get_fragment_type(fragment)
        reg.inherit_fragment(fragment)


def interface(vc, f, t, schema, cfg, pcfg, reg, tree):
    n = f.name.value
    base = reg.generate_fragment(n, True)
    mother = base + "Base"
    subs = utils_mod.non_typename_fields(f)
    fields = [doc(described(t, pcfg))]
    for s in subs:
        if isinstance(s, FragmentSpreadNode):
            spread_known(reg, s.name.value)
        if isinstance(s, FieldNode):
            fields += M.type_field_node(s, base, t.fields[s.name.value], schema, cfg, tree, reg)
        elif isinstance(s, InlineFragmentNode):
            fields_of(s.selection_set.selections, base, schema.get_type(s.type_condition.name.value), schema, cfg, reg, tree)
    tree.append(classdef(mother, utils_mod.get_additional_bases_for_type(t.name, cfg, reg) + utils_mod.get_interface_bases(cfg, reg),
                         fields + utils_mod.generate_pydantic_config(GraphQLTypes.FRAGMENT, cfg, reg, typename=t.name)))
    tree.append(classdef(base + "Catch", [name(mother)], [doc("Catch all class for " + mother), utils_mod.generate_generic_typename_field(reg, cfg)] + fields))
    known = {}
    for i in schema.get_implementations(t).objects:
        fragments, inline = [], []
        for s in subs:
            if isinstance(s, FragmentSpreadNode):
                c = fragment_class(reg, s.name.value, i.name)
                if c is not None:
                    fragments.append(name(c))
            elif isinstance(s, InlineFragmentNode):
                if s.type_condition.name.value == i.name:
                    inline.append(fields_of(s.selection_set.selections, base, schema.get_type(s.type_condition.name.value), schema, cfg, reg, []))
        cls = base + i.name
        body = [doc(i.description if i.description else "No documentation"), utils_mod.generate_typename_field(i.name, reg, cfg)]
        tree.append(classdef(cls, fragments + [name(mother)] + utils_mod.get_additional_bases_for_type(i.name, cfg, reg) + utils_mod.get_interface_bases(cfg, reg),
                             body + inline + utils_mod.generate_pydantic_config(GraphQLTypes.FRAGMENT, cfg, reg, typename=i.name)))
        known[i.name] = cls
    return known


fragment_unit("interface", GraphQLInterfaceType, ["C01", "C06", "C08", "C21", "C12"], interface)


# -- unions
def union_(vc, f, t, schema, cfg, pcfg, reg, tree):
    n = f.name.value
    base = reg.generate_fragment(n, False)
    subs = utils_mod.non_typename_fields(f)
    for s in subs:
        if isinstance(s, FieldNode):
            if s.name.value != "__typename":
                raise Refused("a union has no fields")
        elif isinstance(s, FragmentSpreadNode):
            reg.get_union_fragment_members(s.name.value)
        elif isinstance(s, InlineFragmentNode):
            for x in s.selection_set.selections:
                if isinstance(x, FragmentSpreadNode):
                    reg.inherit_fragment(x.name.value)
                elif isinstance(x, FieldNode) and x.name.value != "__typename":
                    if schema.get_type(s.type_condition.name.value) is None:
                        raise Refused("no such type")
            fields_of(s.selection_set.selections, base, schema.get_type(s.type_condition.name.value), schema, cfg, reg, tree)
    known, members = {}, []
    for i in t.types:
        fragments, inline = [], []
        for s in subs:
            if isinstance(s, FragmentSpreadNode):
                m = reg.get_union_fragment_members(s.name.value)
                if i.name in m:
                    fragments.append(name(m[i.name]))
            elif isinstance(s, InlineFragmentNode):
                if s.type_condition.name.value == i.name:
                    for x in s.selection_set.selections:
                        if isinstance(x, FragmentSpreadNode):
                            fragments.append(name(reg.inherit_fragment(x.name.value)))
                    inline += fields_of(s.selection_set.selections, base, schema.get_type(s.type_condition.name.value), schema, cfg, reg, [])
        cls = base + i.name
        tree.append(classdef(cls, fragments + utils_mod.get_additional_bases_for_type(i.name, cfg, reg) + M.get_fragment_bases("UNION", cfg, pcfg, reg),
                             [utils_mod.generate_typename_field(i.name, reg, cfg)] + inline + utils_mod.generate_pydantic_config(GraphQLTypes.FRAGMENT, cfg, reg, typename=i.name)))
        known[i.name] = cls
    tree.append(ast.Assign(targets=[ast.Name(id=base, ctx=ast.Load())], value=sub(name("Union"), ast.Tuple(elts=[name(base + i.name) for i in t.types], ctx=ast.Load()))))
    if t.description and pcfg.add_documentation:
        tree.append(doc(t.description))
    return known


fragment_unit("union", GraphQLUnionType, ["C01", "C06", "C08", "C21", "C12"], union_)


# ---------------------------------------------------------------- the order
@contract(P + "find_fragment_dependencies_recursive", note="the fragments a selection set spreads, at any depth and through other fragments")
def c_dependencies(eng, fn, selection_set, fragment_definitions, visited):
    return VSet(list(pure(eng, "dependencies", Seq(STR), selection_set).chunks))


def fragments_of(document):
    return [d for d in document.definitions if isinstance(d, FragmentDefinitionNode)]


@unit("fragments.build_recursive_dependency_graph", P + "build_recursive_dependency_graph", ["C06"], contracts=(P + "find_fragment_dependencies_recursive",))
def dependency_graph(vc, fn):
    document = vc.obj("Document", "document")
    o = vc.run(fn, document)
    if vc.returns(o):
        vc.cover("built")
        vc.equal("what every fragment depends on", o.value, {d.name.value: M.find_fragment_dependencies_recursive(d.selection_set, {}, set()) for d in fragments_of(document)})


@unit("fragments.reorder_definitions", P + "reorder_definitions", ["C06"])
def reorder(vc, fn):
    document = vc.obj("Document", "document")
    order = vc.new(Seq(STR), "order")
    o = vc.run(fn, document, order)
    if vc.returns(o):
        vc.cover("ordered")
        known = {d.name.value: d for d in fragments_of(document)}
        vc.equal("the fragments of the document in the given order", o.value, [known[n] for n in order if n in known])


# ---------------------------------------------------------------- the plugin
GRAPH = Map(Seq(STR))


@contract(P + "build_recursive_dependency_graph", proved_by="fragments.build_recursive_dependency_graph")
def c_graph(eng, fn, document):
    return pure(eng, "dependency_graph", GRAPH, document)


@contract(P + "topological_sort", note="an order in which every fragment follows the fragments it depends on")
def c_sorted(eng, fn, graph):
    return pure(eng, "sorted_fragments", Seq(STR), graph)


@contract(P + "reorder_definitions", proved_by="fragments.reorder_definitions")
def c_reorder(eng, fn, document, order):
    return pure(eng, "ordered_fragments", Seq(Cls("FragmentDefinitionNode")), document, order)


@contract(P + "generate_fragment", proved_by="fragments.generate_fragment[object]")
def c_fragment(eng, fn, *a, **k):
    b = bind(fn, a, k)
    x = (b.f, b.client_schema)
    if eng.fork(zbool(pure(eng, "fragment_refused", BOOL, *x))):
        raise ValueError("fragment cannot be generated")
    return pure(eng, "fragment_classes", Seq(AST), *x)


domain("FragmentsPlugin", [M.FragmentsPlugin], {"*": {"config": Cls(PCFG())}})


@unit("fragments.plugin", P + "FragmentsPlugin.generate_ast", ["C01", "C06", "C10"],
      contracts=(UT + "parse_documents", P + "generate_fragment", P + "build_recursive_dependency_graph", P + "topological_sort", P + "reorder_definitions"))
def plugin(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    self = vc.obj("FragmentsPlugin", "plugin")
    schema = vc.obj("Schema", "schema")
    o = vc.run(fn, self, schema, cfg, reg)
    glob = self.config.fragments_glob or cfg.documents
    if not glob:
        vc.cover("no documents")
        if vc.returns(o):
            vc.equal("without documents nothing is generated", o.value, [])
        return
    want = []
    try:
        document = utils_mod.parse_documents(schema, glob, cfg)
        order = M.topological_sort(M.build_recursive_dependency_graph(document))
        for f in M.reorder_definitions(document, order):
            want += M.generate_fragment(f, schema, cfg, self.config, reg)
    except (ValueError, utils_mod.NoDocumentsFoundError):
        vc.cover("refused")
        vc.ok("what cannot be generated is an error", not o.ok)
        return
    if vc.returns(o):
        vc.cover("generated")
        vc.equal("the classes of every fragment, each after the fragments it depends on", o.value, want)
