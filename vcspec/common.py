"""vocabulary of the specifications: expected AST shapes, the ghost registry and the
contracts of the functions that other functions are verified against"""
import ast

import turms.referencer as referencer_mod
import turms.registry as registry_mod
import turms.utils as utils_mod
import turms.config as config_mod
import turms.errors as errors_mod
from vf.core import *
from vf.core import z3
from vf.domains import domain, model_domain
from vf.spec import bind, pure
from vf.verify import contract, unit

domain("References", [referencer_mod.ReferenceRegistry], {"*": {x: Seq(STR) for x in ("enums", "inputs", "scalars", "fragments", "objects", "operations")}})

REG = "turms.registry:ClassRegistry."
UT = "turms.utils:"


# ---------------------------------------------------------------- expected syntax
def name(i):
    return ast.Name(id=i, ctx=ast.Load())


def sub(base, slice):
    return ast.Subscript(value=base, slice=slice, ctx=ast.Load())


def tup(*xs):
    return ast.Tuple(elts=list(xs), ctx=ast.Load())


def const(v):
    return ast.Constant(value=v)


def optional(opt, x):
    return sub(name("Optional"), x) if opt else x


def kw(arg, value):
    return ast.keyword(arg=arg, value=value)


def call(func, *args, **kws):
    return ast.Call(func=name(func), args=list(args), keywords=[kw(k, v) for k, v in kws.items()])


def assign(target, value):
    return ast.Assign(targets=[ast.Name(id=target, ctx=ast.Store())], value=value)


def annassign(target, annotation, value=None):
    return ast.AnnAssign(target=ast.Name(id=target, ctx=ast.Store()), annotation=annotation, value=value, simple=1)


def doc(text):
    return ast.Expr(value=ast.Constant(value=text))


def base_names(bases):
    return [name(last(b)) for b in bases]


def last(dotted):
    return dotted.split(".")[-1]


def classdef(n, bases, body):
    return ast.ClassDef(name=n, bases=bases, keywords=[], body=body, decorator_list=[], type_params=[])


# ---------------------------------------------------------------- ghost registry
def config(vc, label="config"):
    return vc.obj(model_domain(config_mod.GeneratorConfig), label)


MAPS = ("scalar_map", "fragment_document_map", "enum_class_map", "inputtype_class_map", "object_class_map", "fragment_class_map", "query_class_map",
        "mutation_class_map", "subscription_class_map", "interface_baseclass_map", "interface_reference_map")


class GhostRegistry(registry_mod.ClassRegistry):
    """the real class; its maps start out with arbitrary content"""

    def vc_term(self):
        """as argument of a configured function: there is one registry per run"""
        return z3.Const("registry", Obj)

    def __getattr__(self, n):
        if n in MAPS:
            m = self.vc_new(Map(STR), "reg." + n)
            setattr(self, n, m)
            return m
        raise AttributeError(n)


def registry(vc, cfg=None):
    """a real registry in an arbitrary state; imports and builtins registered from here on are observed"""
    r = object.__new__(GhostRegistry)
    r.vc_new = vc.new
    r.config = cfg if cfg is not None else config(vc)
    r._imports = VSet()
    r._builtins = VSet()
    r.forward_references = VSet()
    r.scalars_seen = VSet()
    r.log = quiet
    return r


def quiet(*a, **k):
    return None


def imports(vc, reg, *names):
    for n in names:
        vc.covers("imports", reg._imports, n)


def chunks(vset):
    """the members of a ghost set, in the order they were added"""
    return VList(list(vset.chunks))


def imports_if(vc, cond, reg, *names):
    if cond:
        imports(vc, reg, *names)


def generate_contract(method, style):
    @contract(REG + method, proved_by="registry." + method)
    def c(eng, fn, self, typename, *a):
        return pure(eng, style, STR, typename)


for _m, _s in [("generate_enum", "styled_enum"), ("generate_inputtype", "styled_input"), ("generate_objecttype", "styled_object"),
               ("generate_fragment", "styled_fragment"), ("generate_query", "styled_query"), ("generate_mutation", "styled_mutation"),
               ("generate_subscription", "styled_subscription")]:
    generate_contract(_m, _s)


# ---------------------------------------------------------------- contracts: registry
@contract(REG + "register_import", proved_by="registry.register_import")
def c_register_import(eng, fn, self, name):
    self._imports.add(name)


@contract(REG + "register_scalar", proved_by="registry.register_scalar")
def c_register_scalar(eng, fn, self, scalar_type, python_type):
    self.scalars_seen.add(scalar_type)


@contract(REG + "register_builtin", proved_by="registry.register_builtin")
def c_register_builtin(eng, fn, self, typename):
    self._builtins.add(typename)


def style_contract(method, label):
    @contract(REG + method, proved_by="registry." + method)
    def c(eng, fn, self, typename):
        return pure(eng, label, STR, typename)


for _m, _l in [
    ("style_inputtype_class", "styled_input"),
    ("style_enum_class", "styled_enum"),
    ("style_objecttype_class", "styled_object"),
    ("style_interface_class", "styled_object"),
    ("style_fragment_class", "styled_fragment"),
    ("style_query_class", "styled_query"),
    ("style_mutation_class", "styled_mutation"),
    ("style_subscription_class", "styled_subscription"),
    ("generate_node_name", "styled_node"),
    ("generate_parameter_name", "styled_parameter"),
]:
    style_contract(_m, _l)


@contract(REG + "reference_scalar", proved_by="registry.reference_scalar")
def c_reference_scalar(eng, fn, self, scalar_type):
    if eng.fork(zbool(pure(eng, "scalar_unmapped", BOOL, scalar_type))):
        raise errors_mod.NoScalarFound("no python equivalent")
    return pure(eng, "scalar_ref", AST, scalar_type)


@contract(REG + "reference_inputtype", proved_by="registry.reference_inputtype")
def c_reference_inputtype(eng, fn, self, typename, parent, allow_forward=True):
    if not allow_forward and eng.fork(zbool(pure(eng, "input_undefined", BOOL, typename))):
        raise errors_mod.NoInputTypeFound("not defined")
    return pure(eng, "input_ref", AST, typename, parent, allow_forward)


@contract(REG + "reference_enum", proved_by="registry.reference_enum")
def c_reference_enum(eng, fn, self, typename, parent, allow_forward=True):
    if not allow_forward and eng.fork(zbool(pure(eng, "enum_undefined", BOOL, typename))):
        raise errors_mod.NoEnumFound("not defined")
    return pure(eng, "enum_ref", AST, typename, parent, allow_forward)


def _ref_contract(method, label):
    @contract(REG + method, proved_by="registry." + method)
    def c(eng, fn, self, typename, parent, allow_forward=True):
        return pure(eng, label, AST, typename, parent, allow_forward)


for _m in ("object", "interface", "fragment", "query", "mutation", "subscription"):
    _ref_contract("reference_" + _m, _m + "_ref")


@contract(REG + "reference_graphql_default", proved_by="registry.markers")
def c_default_marker(eng, fn, self):
    return pure(eng, "default_marker", AST, self.config)


@contract(REG + "reference_deprecated", proved_by="registry.markers")
def c_deprecated_marker(eng, fn, self):
    return pure(eng, "deprecated_marker", AST, self.config)


@contract(REG + "reference_unset", proved_by="registry.markers")
def c_unset(eng, fn, self):
    return pure(eng, "unset", AST, self.config)


@contract(REG + "reference_unset_type", proved_by="registry.markers")
def c_unset_type(eng, fn, self):
    return pure(eng, "unset_type", AST, self.config)


@contract(REG + "inherit_fragment", proved_by="registry.inherit_fragment")
def c_inherit_fragment(eng, fn, self, typename, allow_forward=True):
    if eng.fork(zbool(pure(eng, "fragment_undefined", BOOL, typename))):
        raise errors_mod.RegistryError("not yet defined")
    return pure(eng, "fragment_class", STR, typename)


@contract(REG + "get_interface_fragment_implementations", proved_by="registry.get_interface_fragment_implementations")
def c_fragment_implementations(eng, fn, self, fragmentname):
    if eng.fork(zbool(pure(eng, "no_interface_fragment", BOOL, fragmentname))):
        raise KeyError("fragment")
    return pure(eng, "fragment_implementations", Map(STR), fragmentname)


@contract(REG + "get_fragment_type", proved_by="registry.get_fragment_type")
def c_fragment_type(eng, fn, self, fragmentname):
    if eng.fork(zbool(pure(eng, "fragment_untyped", BOOL, fragmentname))):
        raise KeyError("fragment")
    return pure(eng, "fragment_type", Cls("NamedType"), fragmentname)


@contract(REG + "get_interface_fragment_implementation_or_none", proved_by="registry.fragment_implementation")
def c_fragment_implementation(eng, fn, self, fragmentname, typename):
    if eng.fork(zbool(pure(eng, "no_such_implementation", BOOL, fragmentname, typename))):
        raise errors_mod.RegistryError("no implementation for the type")
    return pure(eng, "fragment_implementation", Opt(STR), fragmentname, typename)


@contract(REG + "is_interface_fragment", proved_by="registry.is_interface_fragment")
def c_is_interface_fragment(eng, fn, self, typename):
    return pure(eng, "is_interface_fragment", BOOL, typename)


REFS = tuple(REG + m for m in ("register_import", "reference_scalar", "reference_inputtype", "reference_enum"))


# ---------------------------------------------------------------- contracts: utils
@contract(UT + "recurse_type_annotation", proved_by="utils.recurse_type_annotation")
def c_type_annotation(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "type_annotation", AST, b.type, b.optional, b.overwrite_final)


@contract(UT + "recurse_outputtype_annotation", proved_by="utils.recurse_outputtype_annotation")
def c_outputtype_annotation(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "outputtype_annotation", AST, b.type, b.optional, b.overwrite_final)


@contract(UT + "annotate_field_metadata", proved_by="utils.annotate_field_metadata")
def c_annotate(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "annotated", AST, b.annotation, b.default_value_ast, b.deprecation_reason)


@contract(UT + "compose_field_documentation", proved_by="utils.compose_field_documentation")
def c_documentation(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "field_doc", Opt(STR), b.description, b.deprecation_reason, b.default_string, b.include_metadata)


@contract(UT + "generate_pydantic_config", proved_by="utils.generate_pydantic_config")
def c_pydantic_config(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "model_config", Seq(AST), b.graphQLType, b.config, b.typename)


@contract(UT + "get_additional_bases_for_type", proved_by="utils.get_additional_bases_for_type")
def c_additional_bases(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "additional_bases", Seq(AST), b.typename, b.config)


@contract(UT + "get_interface_bases", proved_by="utils.get_interface_bases")
def c_interface_bases(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "interface_bases", Seq(AST), b.config)


@contract(UT + "generate_typename_field", proved_by="utils.generate_typename_field")
def c_typename_field(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "typename_field", AST, b.typename, b.config)


@contract(UT + "generate_generic_typename_field", proved_by="utils.generate_generic_typename_field")
def c_generic_typename_field(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "generic_typename_field", AST, b.config)


@contract(UT + "non_typename_fields", proved_by="utils.non_typename_fields")
def c_non_typename_fields(eng, fn, node):
    return pure(eng, "selections", Seq(Cls("Selection")), node)


@contract(UT + "unique_class_name", proved_by="utils.unique_class_name")
def c_unique_class_name(eng, fn, *a, **k):
    """a function of the wanted name: the classes generated before only decide on the number added"""
    b = bind(fn, a, k)
    return pure(eng, "unique_name", STR, b.name, b.suffix)


@contract(UT + "target_from_node", proved_by="utils.target_from_node")
def c_target(eng, fn, node):
    return pure(eng, "response_key", STR, node)


@contract(UT + "generate_config_dict", proved_by="utils.generate_config_dict")
def c_config_dict(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "config_dict", Seq(AST), b.graphQLType, b.config, b.typename)


@contract(UT + "generate_config_class_pydantic", proved_by="utils.generate_config_class_pydantic")
def c_config_class(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "config_class", Seq(AST), b.graphQLType, b.config, b.typename)


@contract(UT + "parse_documents", proved_by="documents.parse_documents")
def c_parse_documents(eng, fn, *a, **k):
    b = bind(fn, a, k)
    if eng.fork(zbool(pure(eng, "documents_rejected", BOOL, b.client_schema, b.scan_glob, b.config))):
        raise utils_mod.NoDocumentsFoundError("no or invalid documents")
    return pure(eng, "documents", Cls("Document"), b.client_schema, b.scan_glob, b.config)


@contract("turms.referencer:create_reference_registry_from_documents", proved_by="referencer.create")
def c_references(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "references", Cls("References"), b.schema, b.document)


@contract(UT + "parse_value_node", proved_by="utils.parse_value_node")
def c_parse_value(eng, fn, value_node):
    return pure(eng, "python_value", Cls("PyValue"), value_node)
