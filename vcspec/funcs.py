"""contracts of the operation functions: their names, parameters, variables, calls and return types"""
import ast

import turms.plugins.funcs as M
from graphql import GraphQLEnumType, GraphQLInputObjectType, GraphQLList, GraphQLNonNull, GraphQLScalarType, Undefined
from graphql.language.ast import FragmentSpreadNode, NamedTypeNode, NonNullTypeNode, OperationDefinitionNode, OperationType
from vf.core import *
from vf.domains import DOMAINS, domain, model_domain, named_node
from vf.spec import external, method
from vf.verify import unit

from .common import *
from .operations import c_operation_doc, x_root  # noqa: F401
from .recurse import x_field_def  # noqa: F401

P = "turms.plugins.funcs:"
PCFG = lambda: model_domain(M.FuncsPluginConfig)
DEF = lambda: model_domain(M.FunctionDefinition)
DOMAINS[model_domain(M.Kwarg)]["attrs"]["*"]["default"] = Cls("PyValue")


def pluginconfig(vc):
    return vc.obj(PCFG(), "plugin_config")


def definition_(vc):
    return vc.obj(DEF(), "definition")


# ---------------------------------------------------------------- names
@contract(P + "camel_to_snake", note="the snake case of a name, a function of it")
def c_snake(eng, fn, name):
    return pure(eng, "snake_case", STR, name)


@contract(P + "get_operation_class_name", proved_by="funcs.get_operation_class_name")
def c_class_name(eng, fn, o, registry):
    return pure(eng, "operation_class", STR, o)


@unit("funcs.get_operation_class_name", P + "get_operation_class_name", ["C14", "C03"], contracts=tuple(REG + f"style_{k}_class" for k in ("query", "mutation", "subscription")))
def class_name(vc, fn):
    o = vc.obj("OperationDefinitionNode", "operation")
    reg = registry(vc)
    r = vc.run(fn, o, reg)
    if not vc.returns(r):
        return
    k = o.operation
    vc.cover(k.value)
    n = o.name.value
    want = reg.style_query_class(n) if k == OperationType.QUERY else reg.style_mutation_class(n) if k == OperationType.MUTATION else reg.style_subscription_class(n)
    vc.equal("the name the operation class is generated under", r.value, want)


@unit("funcs.avoid_shadowing_operation", P + "avoid_shadowing_operation", ["C14"], contracts=(P + "get_operation_class_name",))
def avoid_shadowing(vc, fn):
    o = vc.obj("OperationDefinitionNode", "operation")
    reg = registry(vc)
    n = vc.new(STR, "name")
    r = vc.run(fn, n, o, reg)
    if not vc.returns(r):
        return
    vc.cover("named")
    vc.ok("the function does not replace its operation class", r.value != M.get_operation_class_name(o, reg))
    if n != M.get_operation_class_name(o, reg):
        vc.cover("kept")
        vc.equal("another name is kept", r.value, n)


@contract(P + "avoid_shadowing_operation", proved_by="funcs.avoid_shadowing_operation")
def c_avoid(eng, fn, func_name, o, registry):
    return pure(eng, "function_name", STR, func_name, o)


def name_unit(kind):
    fnname = f"generate_{kind}_func_name"

    @unit("funcs." + fnname, P + fnname, ["C14", "C03"], contracts=(P + "avoid_shadowing_operation", P + "camel_to_snake"))
    def u(vc, fn):
        o = vc.obj("OperationDefinitionNode", "operation")
        pcfg, cfg = pluginconfig(vc), config(vc)
        reg = registry(vc, cfg)
        r = vc.run(fn, o, pcfg, cfg, reg)
        if vc.returns(r):
            vc.cover("named")
            vc.equal("the prefix and the snake case of the operation's name", r.value,
                     M.avoid_shadowing_operation((pcfg.prepend_async if kind == "async" else pcfg.prepend_sync) + M.camel_to_snake(o.name.value), o, reg))

    @contract(P + fnname, proved_by="funcs." + fnname)
    def c(eng, fn, *a, **k):
        return pure(eng, kind + "_function", STR, bind(fn, a, k).o)


name_unit("async")
name_unit("sync")


# ---------------------------------------------------------------- what the proxy is passed besides the variables
def extras_unit(kind):
    fnname = f"get_extra_{kind}_for_onode"

    @unit("funcs." + fnname, P + fnname, ["C14"])
    def u(vc, fn):
        d, pcfg = definition_(vc), pluginconfig(vc)
        r = vc.run(fn, d, pcfg)
        if vc.returns(r):
            vc.cover("collected")
            vc.equal("those of every function, then its own", r.value, list(getattr(pcfg, "global_" + kind)) + list(getattr(d, "extra_" + kind)))

    @contract(P + fnname, proved_by="funcs." + fnname)
    def c(eng, fn, definition, plugin_config):
        return pure(eng, "extra_" + kind, Seq(Cls(model_domain(M.Arg if kind == "args" else M.Kwarg))), definition, plugin_config)


extras_unit("args")
extras_unit("kwargs")


@unit("funcs.generate_passing_extra_args_for_onode", P + "generate_passing_extra_args_for_onode", ["C14"], contracts=(P + "get_extra_args_for_onode",))
def passing_args(vc, fn):
    d, pcfg = definition_(vc), pluginconfig(vc)
    r = vc.run(fn, d, pcfg)
    if vc.returns(r):
        vc.cover("passed")
        vc.equal("every extra argument is handed on", r.value, [name(a.key) for a in M.get_extra_args_for_onode(d, pcfg)])


@unit("funcs.generate_passing_extra_kwargs_for_onode", P + "generate_passing_extra_kwargs_for_onode", ["C14"], contracts=(P + "get_extra_kwargs_for_onode",))
def passing_kwargs(vc, fn):
    d, pcfg = definition_(vc), pluginconfig(vc)
    r = vc.run(fn, d, pcfg)
    if vc.returns(r):
        vc.cover("passed")
        vc.equal("every extra keyword is handed on under its own name", r.value, [kw(a.key, name(a.key)) for a in M.get_extra_kwargs_for_onode(d, pcfg)])


@contract(P + "generate_passing_extra_args_for_onode", proved_by="funcs.generate_passing_extra_args_for_onode")
def c_passing_args(eng, fn, definition, plugin_config):
    return pure(eng, "passed_args", Seq(AST), definition, plugin_config)


@contract(P + "generate_passing_extra_kwargs_for_onode", proved_by="funcs.generate_passing_extra_kwargs_for_onode")
def c_passing_kwargs(eng, fn, definition, plugin_config):
    return pure(eng, "passed_kwargs", Seq(AST), definition, plugin_config)


@unit("funcs.get_definitions_for_onode", P + "get_definitions_for_onode", ["C14"])
def definitions(vc, fn):
    o, pcfg = vc.obj("OperationDefinitionNode", "operation"), pluginconfig(vc)
    r = vc.run(fn, o, pcfg)
    if vc.returns(r):
        vc.cover("selected")
        vc.equal("the definitions for this kind of operation", r.value, [d for d in pcfg.definitions if d.type == o.operation])


@contract(P + "get_definitions_for_onode", proved_by="funcs.get_definitions_for_onode")
def c_definitions(eng, fn, operation_definition, plugin_config):
    return pure(eng, "definitions_for", Seq(Cls(DEF())), operation_definition)


# ---------------------------------------------------------------- annotations
@contract(P + "generate_input_annotation", proved_by="funcs.generate_input_annotation")
def c_input_annotation(eng, fn, *a, **k):
    b = bind(fn, a, k)
    if eng.fork(zbool(pure(eng, "argument_unmapped", BOOL, b.type, b.plugin_config))):
        raise errors_mod.NoScalarFound("unmapped scalar or undefined enum")
    return pure(eng, "argument_annotation", AST, b.type, b.plugin_config, b.is_optional)


def either(x, coercible):
    return sub(name("Union"), tup(x, name(last(coercible))))


def input_ann(t, reg, pcfg, opt):
    if isinstance(t, GraphQLNonNull):
        return M.generate_input_annotation(t.of_type, reg, pcfg, is_optional=False)
    if isinstance(t, GraphQLList):
        return optional(opt, sub(name("Iterable"), M.generate_input_annotation(t.of_type, reg, pcfg, is_optional=True)))
    if isinstance(t, GraphQLScalarType):
        if t.name in pcfg.coercible_scalars:
            return optional(opt, name(last(pcfg.coercible_scalars[t.name])))
        return optional(opt, reg.reference_scalar(t.name))
    if isinstance(t, GraphQLEnumType):
        return optional(opt, reg.reference_enum(t.name, "SHOULD_NOT_BE_USED", allow_forward=False))
    x = reg.reference_inputtype(t.name, "SHOULD_NOT_BE_USED")
    if t.name in pcfg.coercible_inputs:
        x = M.coercible_input_union(x, pcfg.coercible_inputs[t.name], reg)
    return optional(opt, x)


@unit("funcs.generate_input_annotation", P + "generate_input_annotation", ["C14", "C17", "C04"], contracts=REFS + (P + "generate_input_annotation", P + "coercible_input_union"))
def input_annotation(vc, fn):
    t = vc.obj("InType", "type")
    reg = registry(vc)
    pcfg = pluginconfig(vc)
    opt = vc.flag("optional")
    o = vc.run(fn, t, reg, pcfg, is_optional=opt)
    try:
        want = input_ann(t, reg, pcfg, opt)
    except errors_mod.RegistryError:
        vc.cover("unmapped")
        vc.ok("a type without mapping is an error", not o.ok)
        return
    if not vc.returns(o):
        return
    vc.cover("mapped")
    if not isinstance(t, GraphQLNonNull):
        if opt:
            imports(vc, reg, "typing.Optional")
        if isinstance(t, GraphQLList):
            imports(vc, reg, "typing.Iterable")
        elif isinstance(t, GraphQLScalarType) and t.name in pcfg.coercible_scalars:
            vc.cover("coercible scalar")
            imports(vc, reg, pcfg.coercible_scalars[t.name])
    vc.equal("the annotation mirrors the type, or the type it is coerced from", o.value, want)


@contract(P + "coercible_input_union", proved_by="funcs.coercible_input_union")
def c_coercible(eng, fn, inputtype_reference, coercible, registry):
    return pure(eng, "coercible_union", AST, inputtype_reference, coercible)


@unit("funcs.coercible_input_union", P + "coercible_input_union", ["C14", "C17", "C04"], contracts=(REG + "register_import",))
def coercible_union(vc, fn):
    x, c = vc.new(AST, "reference"), vc.new(STR, "coercible")
    reg = registry(vc)
    o = vc.run(fn, x, c, reg)
    if vc.returns(o):
        vc.cover("union")
        imports(vc, reg, "typing.Union", c)
        vc.equal("the model or what it is coerced from", o.value, either(x, c))


@contract(P + "unset_union_annotation", proved_by="funcs.unset_union_annotation")
def c_unset_union(eng, fn, annotation, registry):
    return pure(eng, "or_unset", AST, annotation, registry.config)


@unit("funcs.unset_union_annotation", P + "unset_union_annotation", ["C14", "C04"], contracts=(REG + "register_import", REG + "reference_unset_type"))
def unset_union(vc, fn):
    x = vc.new(AST, "annotation")
    reg = registry(vc)
    o = vc.run(fn, x, reg)
    if vc.returns(o):
        vc.cover("union")
        imports(vc, reg, "typing.Union")
        vc.equal("the type or UNSET", o.value, sub(name("Union"), tup(x, reg.reference_unset_type())))


@contract(P + "dict_str_any_annotation", proved_by="funcs.dict_str_any_annotation")
def c_dict(eng, fn, registry):
    return pure(eng, "dict_str_any", AST, "")


@unit("funcs.dict_str_any_annotation", P + "dict_str_any_annotation", ["C14", "C04"], contracts=(REG + "register_import",))
def dict_annotation(vc, fn):
    reg = registry(vc)
    o = vc.run(fn, reg)
    if vc.returns(o):
        vc.cover("annotated")
        imports(vc, reg, "typing.Dict", "typing.Any")
        vc.equal("Dict[str, Any]", o.value, sub(name("Dict"), tup(name("str"), name("Any"))))


@external(M.get_named_type, "graphql.get_named_type", "the named type below lists and non-nulls, a function of the type")
def x_named(eng, t):
    return pure(eng, "named_type", Cls("NamedType"), t)


@external(M.is_required_input_field, "graphql.is_required_input_field", "non-null and without default (graphql-core)")
def x_required(eng, field):
    return isinstance_(eng, field)


def isinstance_(eng, field):
    return eng.fork(zbool(pure(eng, "required_field", BOOL, field)))


# ---------------------------------------------------------------- parameters
@contract(P + "generate_variable_annotation", proved_by="funcs.generate_variable_annotation")
def c_variable_annotation(eng, fn, type_node, registry, plugin_config):
    return pure(eng, "variable_annotation", AST, type_node, plugin_config)


def arg(n, ann):
    return ast.arg(arg=n, annotation=ann)


def type_params(t, pcfg, reg):
    pos, kws, values = [], [], []
    for k, v in t.fields.items():
        n = reg.generate_node_name(k)
        a = M.generate_input_annotation(v.type, reg, pcfg, is_optional=True)
        if M.is_required_input_field(v):
            pos.append(arg(n, a))
        else:
            kws.append(arg(n, M.unset_union_annotation(a, reg)))
            values.append(reg.reference_unset())
    return pos, kws, values


ANNS = (P + "generate_input_annotation", P + "unset_union_annotation", REG + "generate_node_name", REG + "reference_unset", REG + "register_import")


@unit("funcs.generate_input_type_params", P + "generate_input_type_params", ["C14", "C03"], contracts=ANNS)
def input_type_params(vc, fn):
    t = vc.obj("InputObjectType", "type")
    reg = registry(vc)
    pcfg = pluginconfig(vc)
    o = vc.run(fn, t, pcfg, reg)
    try:
        pos, kws, values = type_params(t, pcfg, reg)
    except errors_mod.RegistryError:
        vc.cover("unmapped")
        vc.ok("a type without mapping is an error", not o.ok)
        return
    if not vc.returns(o):
        return
    vc.cover("expanded")
    a, b, c = o.value
    vc.equal("one parameter per required field", a, pos)
    vc.equal("one optional parameter per other field", b, kws)
    vc.equal("which defaults to UNSET", c, values)


@unit("funcs.generate_variable_annotation", P + "generate_variable_annotation", ["C14", "C17"],
      contracts=(UT + "recurse_type_annotation", P + "coercible_input_union", REG + "register_import", REG + "reference_inputtype"))
def variable_annotation(vc, fn):
    t = vc.obj("TypeNode", "type")
    reg = registry(vc)
    pcfg = pluginconfig(vc)
    o = vc.run(fn, t, reg, pcfg)
    if not vc.returns(o):
        return
    n = vc.e.obj(named_node(t.t), "NamedTypeNode").name.value
    if pcfg.coercible_scalars.get(n):
        vc.cover("scalar")
        c = pcfg.coercible_scalars[n]
        imports(vc, reg, c)
        want = utils_mod.recurse_type_annotation(t, reg, overwrite_final=last(c))
    elif pcfg.coercible_inputs.get(n):
        vc.cover("input")
        want = utils_mod.recurse_type_annotation(t, reg, overwrite_final=M.coercible_input_union(reg.reference_inputtype(n, "SHOULD_NOT_BE_USED"), pcfg.coercible_inputs[n], reg))
    else:
        vc.cover("plain")
        want = utils_mod.recurse_type_annotation(t, reg)
    vc.equal("the annotation of the variable, or what it is coerced from", o.value, want)


@contract(P + "generate_input_type_params", proved_by="funcs.generate_input_type_params")
def c_type_params(eng, fn, input_type, plugin_config, registry):
    if eng.fork(zbool(pure(eng, "parameters_unmapped", BOOL, input_type, plugin_config))):
        raise errors_mod.NoScalarFound("unmapped scalar or undefined enum")
    return tuple(VList([c]) if type(c) is SymSeq else c for c in (pure(eng, "expanded_" + k, Seq(AST), input_type, plugin_config) for k in ("positional", "keyword", "default")))


def required(v):
    return isinstance(v.type, NonNullTypeNode) and not v.default_value


def parameters(d, o, cfg, pcfg, reg, schema):
    pos, kws, values = [], [], []
    for a in M.get_extra_args_for_onode(d, pcfg):
        pos.append(arg(a.key, name(last(a.type))))
    for v in o.variable_definitions:
        if required(v):
            if v.variable.name.value in pcfg.expand_input_types:
                t = schema.type_map[v.type.type.name.value]
                p, k, x = M.generate_input_type_params(t, pcfg, reg)
                pos += p
                kws += k
                values += x
    for v in o.variable_definitions:
        if required(v):
            if v.variable.name.value not in pcfg.expand_input_types:
                pos.append(arg(reg.generate_parameter_name(v.variable.name.value), M.generate_variable_annotation(v.type, reg, pcfg)))
    for v in o.variable_definitions:
        if not required(v):
            kws.append(arg(reg.generate_parameter_name(v.variable.name.value), M.unset_union_annotation(M.generate_variable_annotation(v.type, reg, pcfg), reg)))
            values.append(reg.reference_unset())
    for a in M.get_extra_kwargs_for_onode(d, pcfg):
        kws.append(arg(a.key, optional(a.default is None, name(last(a.type)))))
        values.append(const(a.default))
    return pos + kws, values


PARAMS = (P + "get_extra_args_for_onode", P + "get_extra_kwargs_for_onode", P + "generate_input_type_params", P + "generate_variable_annotation", P + "unset_union_annotation",
          REG + "generate_parameter_name", REG + "reference_unset", REG + "register_import")


@unit("funcs.generate_parameters", P + "generate_parameters", ["C14", "C03"], contracts=PARAMS)
def generate_parameters(vc, fn):
    d, o, pcfg = definition_(vc), vc.obj("OperationDefinitionNode", "operation"), pluginconfig(vc)
    schema, cfg = vc.obj("Schema", "schema"), config(vc)
    reg = registry(vc, cfg)
    r = vc.run(fn, d, o, cfg, pcfg, reg, schema)
    try:
        args, values = parameters(d, o, cfg, pcfg, reg, schema)
    except (errors_mod.RegistryError, AttributeError, KeyError):
        vc.cover("refused")
        vc.ok("what cannot be expanded is an error", not r.ok)
        return
    if not vc.returns(r):
        return
    vc.cover("parameters")
    for a in M.get_extra_args_for_onode(d, pcfg):
        imports(vc, reg, a.type)
    for a in M.get_extra_kwargs_for_onode(d, pcfg):
        imports(vc, reg, a.type)
    vc.equal("a parameter for every variable: required ones first, by position", r.value.args, args)
    vc.equal("the others default to UNSET, extra keywords to their default", r.value.defaults, values)
    vc.equal("nothing else is accepted", [r.value.posonlyargs, r.value.kwonlyargs, r.value.kw_defaults, r.value.vararg if hasattr(r.value, "vararg") else None, r.value.kwarg if hasattr(r.value, "kwarg") else None], [[], [], [], None, None])


# ---------------------------------------------------------------- the variables of a call
def item(of, key):
    return sub(name(of), const(key))


def guarded(target, param, value, reg):
    return ast.If(test=ast.Compare(left=name(param), ops=[ast.IsNot()], comparators=[reg.reference_unset()]), body=[ast.Assign(targets=[target], value=value)], orelse=[])


@unit("funcs.guarded_variable_assign", P + "_guarded_variable_assign", ["C14"], contracts=(REG + "reference_unset",))
def guarded_assign(vc, fn):
    reg = registry(vc)
    t, p, v = vc.new(AST, "target"), vc.new(STR, "parameter"), vc.new(AST, "value")
    o = vc.run(fn, t, p, v, reg)
    if vc.returns(o):
        vc.cover("guarded")
        vc.equal("assigned exactly when the caller gave it", o.value, guarded(t, p, v, reg))


@contract(REG + "warn", note="prints a warning")
def c_warn(eng, fn, self, *a):
    return None


@contract(UT + "is_oneof_input_type", proved_by="utils.is_oneof_input_type")
def c_oneof(eng, fn, input_type):
    return pure(eng, "is_oneof", BOOL, input_type)


def new_dict(target, reg):
    return annassign(target, M.dict_str_any_annotation(reg), ast.Dict(keys=[], values=[]))


def assignments(o, pcfg, reg, schema):
    out = [new_dict("variables", reg)]
    for v in o.variable_definitions:
        n = v.variable.name.value
        if n in pcfg.expand_input_types:
            t = schema.type_map[v.type.type.name.value]
            inner = "_" + reg.generate_parameter_name(n)
            out.append(new_dict(inner, reg))
            for k, f in t.fields.items():
                p = reg.generate_node_name(k)
                if M.is_required_input_field(f):
                    out.append(ast.Assign(targets=[item(inner, k)], value=name(p)))
                else:
                    out.append(guarded(item(inner, k), p, name(p), reg))
            out.append(ast.Assign(targets=[item("variables", n)], value=name(inner)))
        else:
            p = reg.generate_parameter_name(n)
            if required(v):
                out.append(ast.Assign(targets=[item("variables", n)], value=name(p)))
            else:
                out.append(guarded(item("variables", n), p, name(p), reg))
    return out


@unit("funcs.generate_variable_assignments", P + "generate_variable_assignments", ["C14"],
      contracts=(P + "dict_str_any_annotation", UT + "is_oneof_input_type", REG + "warn", REG + "generate_parameter_name", REG + "generate_node_name", REG + "reference_unset"))
def variable_assignments(vc, fn):
    o, pcfg = vc.obj("OperationDefinitionNode", "operation"), pluginconfig(vc)
    schema = vc.obj("Schema", "schema")
    reg = registry(vc)
    r = vc.run(fn, o, pcfg, reg, schema)
    try:
        want = assignments(o, pcfg, reg, schema)
    except (AttributeError, KeyError):
        vc.cover("refused")
        vc.ok("what cannot be expanded is an error", not r.ok)
        return
    if vc.returns(r):
        vc.cover("assigned")
        vc.equal("every variable under its own name, unless left UNSET", r.value, want)


# ---------------------------------------------------------------- what a function returns
@contract(REG + "get_operation_single_or_none", proved_by="registry.get_operation_single_or_none")
def c_single(eng, fn, self, operation_name):
    return pure(eng, "single_annotation", Opt(AST), operation_name)


@contract(REG + "reference_fragment#defined", proved_by="registry.reference_fragment")
def c_fragment_name(eng, fn, self, typename, parent, allow_forward=True):
    if not allow_forward and eng.fork(zbool(pure(eng, "fragment_undefined", BOOL, typename))):
        raise errors_mod.RegistryError("not yet defined")
    return name(pure(eng, "fragment_class", STR, typename))


def returned(o, schema, reg, collapse):
    cls = M.get_operation_class_name(o, reg)
    if not collapse:
        return name(cls)
    known = reg.get_operation_single_or_none(o.name.value)
    if known is not None:
        return known
    f = o.selection_set.selections[0]
    subs = utils_mod.non_typename_fields(f)
    t = M.get_field_def(schema, M.get_operation_root_type(schema, o), f).type
    if len(subs) == 0:
        return utils_mod.recurse_outputtype_annotation(t, reg)
    if len(subs) == 1 and isinstance(subs[0], FragmentSpreadNode):
        n = subs[0].name.value
        c = reg.get_interface_fragment_implementation_or_none(n, M.get_named_type(t).name)
        return utils_mod.recurse_outputtype_annotation(t, reg, overwrite_final=c if c is not None else reg.reference_fragment(n, "", allow_forward=False).id)
    key = f.alias.value if f.alias else f.name.value
    return utils_mod.recurse_outputtype_annotation(t, reg, overwrite_final=cls + key.capitalize())


@unit("funcs.get_return_type_annotation", P + "get_return_type_annotation", ["C14"],
      contracts=(P + "get_operation_class_name", REG + "get_operation_single_or_none", REG + "reference_fragment#defined", REG + "get_interface_fragment_implementation_or_none",
                 UT + "non_typename_fields", UT + "recurse_outputtype_annotation"))
def return_annotation(vc, fn):
    o, schema = vc.obj("OperationDefinitionNode", "operation"), vc.obj("Schema", "schema")
    reg = registry(vc)
    collapse = vc.flag("collapse")
    r = vc.run(fn, o, schema, reg, collapse=collapse)
    try:
        want = returned(o, schema, reg, collapse)
    except (errors_mod.RegistryError, AttributeError, IndexError):
        vc.cover("refused")
        vc.ok("what has no class is an error", not r.ok)
        return
    if vc.returns(r):
        vc.cover("annotated")
        vc.equal("the operation class, or the annotation of its only field", r.value, want)


@contract(P + "get_return_type_annotation", proved_by="funcs.get_return_type_annotation")
def c_return(eng, fn, *a, **k):
    b = bind(fn, a, k)
    if eng.fork(zbool(pure(eng, "nothing_to_return", BOOL, b.o, b.collapse))):
        raise errors_mod.RegistryError("selection not supported")
    return pure(eng, "returned", AST, b.o, b.collapse)


# ---------------------------------------------------------------- calling the proxy
def proxied(d, o, pcfg, reg):
    return ast.Call(func=name(last(d.use)), keywords=M.generate_passing_extra_kwargs_for_onode(d, pcfg),
                    args=M.generate_passing_extra_args_for_onode(d, pcfg) + [name(M.get_operation_class_name(o, reg)), name("variables")])


def lonely(x, o, reg):
    f = o.selection_set.selections[0]
    return ast.Attribute(value=x, attr=reg.generate_node_name(f.alias.value if f.alias else f.name.value), ctx=ast.Load())


def call_unit(fnname, iterates, is_async):
    @unit("funcs." + fnname, P + fnname, ["C14", "C04"],
          contracts=(P + "generate_passing_extra_args_for_onode", P + "generate_passing_extra_kwargs_for_onode", P + "get_operation_class_name", REG + "register_import", REG + "generate_node_name"))
    def u(vc, fn):
        d, o, pcfg = definition_(vc), vc.obj("OperationDefinitionNode", "operation"), pluginconfig(vc)
        schema, cfg = vc.obj("Schema", "schema"), config(vc)
        reg = registry(vc, cfg)
        collapse = vc.flag("collapse")
        r = vc.run(fn, d, o, schema, cfg, pcfg, reg, collapse)
        c = proxied(d, o, pcfg, reg)
        try:
            if iterates:
                e = name("event")
                y = ast.Expr(value=ast.Yield(value=lonely(e, o, reg) if collapse else e))
                want = (ast.AsyncFor if is_async else ast.For)(target=ast.Name(id="event", ctx=ast.Store()), iter=c, body=[y], orelse=[])
            else:
                x = ast.Await(value=c) if is_async else c
                want = ast.Return(value=lonely(x, o, reg) if collapse else x)
        except (AttributeError, IndexError):
            vc.cover("refused")
            vc.ok("only a field can be returned alone", not r.ok)
            return
        if vc.returns(r):
            vc.cover("collapsed" if collapse else "whole")
            imports(vc, reg, d.use)
            vc.equal("the proxy is given the extra arguments, the operation and its variables", r.value, want)

    @contract(P + fnname, proved_by="funcs." + fnname)
    def c(eng, fn, *a, **k):
        b = bind(fn, a, k)
        return pure(eng, fnname, AST, b.definition, b.o, b.collapse)


call_unit("genereate_async_call", False, True)
call_unit("genereate_sync_call", False, False)
call_unit("genereate_async_iterator", True, True)
call_unit("genereate_sync_iterator", True, False)


@contract(P + "generate_variable_assignments", proved_by="funcs.generate_variable_assignments")
def c_assignments(eng, fn, *a, **k):
    return pure(eng, "variable_assignments", Seq(AST), bind(fn, a, k).o)


@contract(P + "generate_parameters", proved_by="funcs.generate_parameters")
def c_parameters(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "parameters", AST, b.definition, b.operation_definition)


@contract(P + "generate_query_doc", note="the documentation of a function")
def c_doc(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "function_doc", AST, b.definition, b.o, b.collapse)


@unit("funcs.generate_operation_func", P + "generate_operation_func", ["C14", "C04"],
      contracts=tuple(P + x for x in ("get_return_type_annotation", "generate_query_doc", "generate_variable_assignments", "generate_parameters", "generate_async_func_name", "generate_sync_func_name",
                                      "genereate_async_call", "genereate_sync_call", "genereate_async_iterator", "genereate_sync_iterator")) + (REG + "register_import",))
def operation_func(vc, fn):
    d, o, pcfg = definition_(vc), vc.obj("OperationDefinitionNode", "operation"), pluginconfig(vc)
    if d.type != o.operation:  # definitions are given the operations of their kind
        return
    schema, cfg = vc.obj("Schema", "schema"), config(vc)
    reg = registry(vc, cfg)
    r = vc.run(fn, d, o, schema, cfg, pcfg, reg)
    collapse = pcfg.collapse_lonely and len(o.selection_set.selections) == 1
    try:
        ret = M.get_return_type_annotation(o, schema, reg, collapse=collapse)
    except errors_mod.RegistryError:
        vc.cover("refused")
        vc.ok("what has no class is an error", not r.ok)
        return
    if not vc.returns(r):
        return
    x = (d, o, schema, cfg, pcfg, reg, collapse)
    stream = o.operation == OperationType.SUBSCRIPTION
    if d.is_async:
        vc.cover("async")
        cls, n, run = ast.AsyncFunctionDef, M.generate_async_func_name(o, pcfg, cfg, reg), M.genereate_async_iterator if stream else M.genereate_async_call
    else:
        vc.cover("sync")
        cls, n, run = ast.FunctionDef, M.generate_sync_func_name(o, pcfg, cfg, reg), M.genereate_sync_iterator if stream else M.genereate_sync_call
    if stream:
        vc.cover("stream")
        it = "AsyncIterator" if d.is_async else "Iterator"
        imports(vc, reg, "typing." + it)
        ret = sub(name(it), ret)
    vc.equal("one function for the operation and the definition", r.value,
             [cls(name=n, args=M.generate_parameters(d, o, cfg, pcfg, reg, schema), body=[M.generate_query_doc(*x)] + M.generate_variable_assignments(o, pcfg, reg, schema) + [run(*x)],
                  decorator_list=[], returns=ret)])


# ---------------------------------------------------------------- the plugin
@contract(P + "generate_operation_func", proved_by="funcs.generate_operation_func")
def c_func(eng, fn, *a, **k):
    b = bind(fn, a, k)
    x = (b.definition, b.o)
    if eng.fork(zbool(pure(eng, "function_refused", BOOL, *x))):
        raise ValueError("function cannot be generated")
    return pure(eng, "operation_functions", Seq(AST), *x)


class Merged:
    """the configuration with the coercions of the whole configuration added"""

    def __init__(self, base, update):
        self.base, self.update = base, update

    def __getattr__(self, n):
        return self.update[n] if n in self.update else getattr(self.base, n)

    def vc_term(self):
        return self.base.t


def copied(eng, self, update):
    eng.ghost["merged"] = Merged(self, update)
    return eng.ghost["merged"]


def coercions(vc, cfg, pcfg):
    """the coercions functions are generated with: those of the plugin, then those of the configuration"""
    m = vc.e.ghost.get("merged")
    for x in ("coercible_scalars", "coercible_inputs"):
        n = vc.new(STR, "any_type")
        own, every = getattr(pcfg, x), getattr(cfg, x)
        want = own[n] if n in own else every[n] if n in every else None
        got = getattr(m if m is not None else pcfg, x)
        vc.equal("the plugin's own coercions, then those of the configuration", got[n] if n in got else None, want)


DOMAINS[PCFG()]["attrs"]["*"]["model_copy"] = method(copied)
domain("FuncsPlugin", [M.FuncsPlugin], {"*": {"config": Cls(PCFG())}})


@unit("funcs.plugin", P + "FuncsPlugin.generate_ast", ["C14", "C17", "C10"], contracts=(UT + "parse_documents", P + "generate_operation_func", P + "get_definitions_for_onode"))
def plugin(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    self = vc.obj("FuncsPlugin", "plugin")
    schema = vc.obj("Schema", "schema")
    o = vc.run(fn, self, schema, cfg, reg)
    glob = self.config.funcs_glob or cfg.documents
    want = []
    try:
        for d in utils_mod.parse_documents(schema, glob, cfg).definitions:
            if isinstance(d, OperationDefinitionNode):
                for f in M.get_definitions_for_onode(d, self.config):
                    want += M.generate_operation_func(f, d, schema, cfg, self.config, reg)
    except (ValueError, utils_mod.NoDocumentsFoundError):
        vc.cover("refused")
        vc.ok("what cannot be generated is an error", not o.ok)
        return
    if vc.returns(o):
        vc.cover("generated")
        vc.equal("a function for every operation and every definition of its kind, in order", o.value, want)
        coercions(vc, cfg, self.config)
