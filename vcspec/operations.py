"""contracts of the operation classes"""
import ast

import turms.plugins.operations as M
from graphql import FieldNode, NonNullTypeNode, OperationDefinitionNode, OperationType, print_ast
from turms.config import GraphQLTypes
from vf.core import *
from vf.domains import domain, model_domain
from vf.spec import external
from vf.verify import unit

from .common import *
from .documents import x_print  # noqa: F401
from .recurse import x_field_def  # noqa: F401

P = "turms.plugins.operations:"
PCFG = lambda: model_domain(M.OperationsPluginConfig)


# ---------------------------------------------------------------- base classes
def bases_unit(kind):
    fnname, option = f"get_{kind}_bases", f"{kind}_bases"

    @unit("operations." + fnname, P + fnname, ["C21", "C04"], contracts=(REG + "register_import",))
    def u(vc, fn):
        cfg = config(vc)
        reg = registry(vc, cfg)
        pcfg = vc.obj(PCFG(), "plugin_config")
        o = vc.run(fn, cfg, pcfg, reg)
        if not vc.returns(o):
            return
        own = getattr(pcfg, option)
        vc.cover("own bases" if own else "object bases")
        for b in own or cfg.object_bases:
            imports(vc, reg, b)
        vc.equal("the configured bases, else those of every object", o.value, base_names(own or cfg.object_bases))

    @contract(P + fnname, proved_by="operations." + fnname)
    def c(eng, fn, config, plugin_config, registry):
        return pure(eng, option, Seq(AST), config, plugin_config)


for _k in ("query", "mutation", "subscription", "arguments"):
    bases_unit(_k)


# ---------------------------------------------------------------- the configuration of the arguments
@unit("operations.generate_arguments_config", P + "generate_arguments_config", ["C02", "C12"], contracts=(REG + "register_import",))
def arguments_config(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    pcfg = vc.obj(PCFG(), "plugin_config")
    op = vc.choice("operation", *OperationType)
    o = vc.run(fn, op, cfg, pcfg, reg)
    if not vc.returns(o):
        return
    by_name = pcfg.arguments_allow_population_by_field_name
    if cfg.pydantic_version == "v1":
        vc.cover("v1")
        want = [classdef("Config", [], [doc(" Arguments config class"), assign("allow_population_by_field_name", const(True))])] if by_name else []
    else:
        vc.cover("v2")
        imports(vc, reg, "pydantic.ConfigDict")
        want = [assign("model_config", call("ConfigDict", populate_by_name=const(by_name)))]
    vc.equal("population by name as configured", o.value, want)


@contract(P + "generate_arguments_config", proved_by="operations.generate_arguments_config")
def c_arguments_config(eng, fn, o, config, plugin_config, registry):
    return pure(eng, "arguments_config", Seq(AST), config, plugin_config)


# ---------------------------------------------------------------- one operation
@external(M.get_operation_root_type, "graphql.get_operation_root_type", "the root type of an operation, a function of both")
def x_root(eng, schema, o):
    return pure(eng, "root_type", Cls("ObjectType"), schema, o)


@contract(UT + "inspect_operation_for_documentation", note="the comment lines above an operation, or nothing")
def c_operation_doc(eng, fn, operation):
    return pure(eng, "operation_doc", Opt(STR), operation)


@contract(UT + "replace_iteratively#document", proved_by="documents.replace_iteratively")
def c_document(eng, fn, *a, **k):
    b = bind(fn, a, k)
    if eng.fork(zbool(pure(eng, "fragment_missing", BOOL, b.pattern))):
        raise utils_mod.FragmentNotFoundError("no such fragment")
    return pure(eng, "closed_document", STR, b.pattern)


@contract("turms.recurse:type_field_node#annotated", proved_by="recurse.type_field_node")
def c_annotated_field(eng, fn, *a, **k):
    """an annotated attribute, then its documentation"""
    b = bind(fn, a, k)
    if eng.fork(zbool(pure(eng, "field_refused", BOOL, b.node, b.parent, b.field))):
        raise errors_mod.RegistryError("selection not supported")
    b.subtree.extend(pure(eng, "field_classes", Seq(AST), b.node, b.parent, b.field))
    x = (b.node, b.parent, b.field)
    return [annassign(pure(eng, "field_target", STR, *x), pure(eng, "field_annotation", AST, *x), pure(eng, "field_value", Opt(AST), *x))] + list(pure(eng, "field_docs", Seq(AST), *x))


def omittable(v):
    return not isinstance(v.type, NonNullTypeNode) or v.default_value is not None


def variable(v, reg):
    """the attribute of one variable"""
    optional_ = omittable(v)
    ann = utils_mod.recurse_type_annotation(v.type, reg)
    if optional_ and isinstance(v.type, NonNullTypeNode):
        ann = optional(True, ann)
    default = utils_mod.parse_value_node(v.default_value) if v.default_value is not None else None
    ann = utils_mod.annotate_field_metadata(ann, reg, default_value_ast=const(str(default)) if default is not None else None)
    key = v.variable.name.value
    attr = reg.generate_parameter_name(key)
    kws = []
    if key != attr:
        kws.append(kw("alias", const(key)))
    if optional_:
        kws.append(kw("default", const(None)))
    return annassign(attr, ann, ast.Call(func=name("Field"), args=[], keywords=kws) if kws else None)


ARGS = (UT + "recurse_type_annotation", UT + "annotate_field_metadata", UT + "parse_value_node", REG + "generate_parameter_name", P + "generate_arguments_config", P + "get_arguments_bases")
OPERATION = ARGS + ("turms.recurse:type_field_node#annotated", UT + "inspect_operation_for_documentation", UT + "replace_iteratively#document", UT + "generate_pydantic_config",
                    REG + "register_import", REG + "generate_query", REG + "generate_mutation", REG + "generate_subscription",
                    P + "get_query_bases", P + "get_mutation_bases", P + "get_subscription_bases")


def arguments(o, cfg, pcfg, reg):
    body = [doc(f"Arguments for {o.name.value} ")]
    stmts = []
    for v in o.variable_definitions:
        stmts.append(variable(v, reg))
    stmts += M.generate_arguments_config(o.operation, cfg, pcfg, reg)
    return classdef("Arguments", M.get_arguments_bases(cfg, pcfg, reg), body + (stmts or [ast.Pass()]))


class Refused(Exception):
    pass


def operation(o, schema, cfg, pcfg, reg, tree):
    n = o.name.value
    if o.operation == OperationType.MUTATION:
        cls, bases = reg.generate_mutation(n), M.get_mutation_bases(cfg, pcfg, reg)
    elif o.operation == OperationType.SUBSCRIPTION:
        cls, bases = reg.generate_subscription(n), M.get_subscription_bases(cfg, pcfg, reg)
    else:
        cls, bases = reg.generate_query(n), M.get_query_bases(cfg, pcfg, reg)
    text = utils_mod.inspect_operation_for_documentation(o) if pcfg.extract_documentation else None
    body = [doc(text if text else "No documentation found for this operation.")]
    root = M.get_operation_root_type(schema, o)
    for s in o.selection_set.selections:
        if not isinstance(s, FieldNode):
            raise Refused("only fields are supported at the root")
        field = M.get_field_def(schema, root, s)
        if field is None:
            raise Refused("no such field")
        body += M.type_field_node(s, cls, field, schema, cfg, tree, reg)
    if pcfg.create_arguments:
        body.append(arguments(o, cfg, pcfg, reg))
    meta = [doc(f"Meta class for {n} "), assign("document", const(utils_mod.replace_iteratively(print_ast(o), reg)))]
    if cfg.domain:
        meta.append(assign("domain", const(str(cfg.domain))))
    body.append(classdef("Meta", [], meta))
    tree.append(classdef(cls, bases, body + utils_mod.generate_pydantic_config(GraphQLTypes(o.operation.value), cfg, reg)))


def operation_unit(kind):
    @unit(f"operations.generate_operation[{kind.value}]", P + "generate_operation", ["C01", "C02", "C05", "C03", "C21", "C12"], contracts=OPERATION, max_paths=20000)
    def u(vc, fn):
        o = vc.obj("OperationDefinitionNode", "operation")
        if o.operation != kind:
            return
        schema, cfg = vc.obj("Schema", "schema"), config(vc)
        pcfg = vc.obj(PCFG(), "plugin_config")
        reg = registry(vc, cfg)
        reg.operation_single_operation_map = {}
        r = vc.run(fn, o, schema, cfg, pcfg, reg)
        tree = []
        try:
            operation(o, schema, cfg, pcfg, reg, tree)
        except (Refused, errors_mod.RegistryError, utils_mod.FragmentNotFoundError):
            vc.cover("refused")
            vc.ok("what cannot be generated is refused", not r.ok)
            return
        if not vc.returns(r):
            return
        vc.cover("generated")
        vc.equal("the operation class", r.value, tree)
        ss = o.selection_set.selections
        if len(ss) == 1:
            vc.cover("lonely")
            cls = r.value[-1].name
            only = M.type_field_node(ss[0], cls, M.get_field_def(schema, M.get_operation_root_type(schema, o), ss[0]), schema, cfg, [], reg)[0]
            vc.equal("the annotation of the only field is known to the functions", reg.operation_single_operation_map[o.name.value], only.annotation)
        else:
            vc.ok("several fields have no common annotation", o.name.value not in reg.operation_single_operation_map)


for _k in OperationType:
    operation_unit(_k)


# ---------------------------------------------------------------- the plugin
@contract(P + "generate_operation", proved_by="operations.generate_operation[query]")
def c_operation(eng, fn, *a, **k):
    b = bind(fn, a, k)
    x = (b.o, b.client_schema)
    if eng.fork(zbool(pure(eng, "operation_refused", BOOL, *x))):
        raise ValueError("operation cannot be generated")
    return pure(eng, "operation_classes", Seq(AST), *x)


domain("OperationsPlugin", [M.OperationsPlugin], {"*": {"config": Cls(PCFG())}})


@unit("operations.plugin", P + "OperationsPlugin.generate_ast", ["C01", "C03", "C10"], contracts=(UT + "parse_documents", P + "generate_operation"))
def plugin(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    self = vc.obj("OperationsPlugin", "plugin")
    schema = vc.obj("Schema", "schema")
    o = vc.run(fn, self, schema, cfg, reg)
    glob = self.config.operations_glob or cfg.documents
    if not glob:
        vc.cover("no documents")
        vc.ok("without documents nothing is generated", not o.ok)
        return
    want = []
    try:
        for d in utils_mod.parse_documents(schema, glob, cfg).definitions:
            if isinstance(d, OperationDefinitionNode):
                want += M.generate_operation(d, schema, cfg, self.config, reg)
    except (ValueError, utils_mod.NoDocumentsFoundError):
        vc.cover("refused")
        vc.ok("what cannot be generated is an error", not o.ok)
        return
    if vc.returns(o):
        vc.cover("generated")
        vc.equal("the classes of every operation of the documents, in order", o.value, want)
