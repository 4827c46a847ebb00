"""contracts of the factories of input objects"""
import ast

import turms.plugins.funcs as F
import turms.plugins.input_funcs as M
from graphql import GraphQLInputObjectType
from vf.core import *
from vf.domains import DOMAINS, domain, model_domain
from vf.spec import method
from vf.verify import unit

from .common import *
from .enums import DOCS, references, rejected
from .funcs import arg, copied, coercions, guarded, item, new_dict  # noqa: F401

P = "turms.plugins.input_funcs:"
FP = "turms.plugins.funcs:"
PCFG = lambda: model_domain(M.InputFuncsPluginConfig)
DOMAINS[PCFG()]["attrs"]["*"]["model_copy"] = method(copied)
domain("InputFuncsPlugin", [M.InputFuncsPlugin], {"*": {"config": Cls(PCFG())}})


@contract(REG + "get_inputtype_class", proved_by="registry.get_inputtype_class")
def c_class(eng, fn, self, typename):
    if eng.fork(zbool(pure(eng, "model_missing", BOOL, typename))):
        raise KeyError("model")
    return pure(eng, "input_model", STR, typename)


@contract(FP + "generate_input_type_descriptions", note="the documentation of the fields of an input")
def c_descriptions(eng, fn, input_type, registry):
    return pure(eng, "input_descriptions", STR, input_type)


def factory(key, t, cfg, pcfg, reg):
    cls = reg.get_inputtype_class(key)
    fname = pcfg.prepend + reg.generate_parameter_name(key)
    if fname == cls:
        fname = fname + "_"
    pos, kws, values = M.generate_input_type_params(t, pcfg, reg)
    body = []
    if pcfg.extract_documentation:
        body.append(doc(f"Creates a {cls}\n\nArguments:\n" + M.generate_input_type_descriptions(t, reg)))
    body.append(new_dict("data", reg))
    for k, v in t.fields.items():
        p = reg.generate_node_name(k)
        if M.is_required_input_field(v):
            body.append(ast.Assign(targets=[item("data", k)], value=name(p)))
        else:
            body.append(guarded(item("data", k), p, name(p), reg))
    body.append(ast.Return(value=ast.Call(func=name(cls), args=[], keywords=[ast.keyword(arg=None, value=name("data"))])))
    return ast.FunctionDef(name=fname, args=ast.arguments(args=pos + kws, posonlyargs=[], kwonlyargs=[], kw_defaults=[], defaults=values), body=body, decorator_list=[], returns=name(cls))


@unit("input_funcs.generate_input_func", P + "generate_input_func", ["C15", "C03", "C17"],
      contracts=(REG + "get_inputtype_class", REG + "generate_parameter_name", REG + "generate_node_name", REG + "reference_unset",
                 FP + "generate_input_type_params", FP + "generate_input_type_descriptions", FP + "dict_str_any_annotation"))
def input_func(vc, fn):
    key, t = vc.new(STR, "name"), vc.obj("InputObjectType", "type")
    cfg, pcfg = config(vc), vc.obj(PCFG(), "plugin_config")
    reg = registry(vc, cfg)
    o = vc.run(fn, key, t, cfg, pcfg, reg)
    try:
        want = factory(key, t, cfg, pcfg, reg)
    except (errors_mod.RegistryError, KeyError):
        vc.cover("refused")
        vc.ok("what has no model or no python type is an error", not o.ok)
        return
    if vc.returns(o):
        vc.cover("factory")
        vc.equal("every field given is passed to the model under its own name", o.value, want)
        vc.ok("the factory does not replace its model", o.value.name != reg.get_inputtype_class(key))


@contract(P + "generate_input_func", proved_by="input_funcs.generate_input_func")
def c_factory(eng, fn, *a, **k):
    b = bind(fn, a, k)
    x = (b.typename, b.input_type)
    if eng.fork(zbool(pure(eng, "factory_refused", BOOL, *x))):
        raise errors_mod.NoScalarFound("factory cannot be generated")
    return pure(eng, "factory", AST, *x)


@unit("input_funcs.generate_input_funcs", P + "generate_input_funcs", ["C15", "C16"], contracts=DOCS + (P + "generate_input_func",))
def input_funcs(vc, fn):
    cfg, pcfg = config(vc), vc.obj(PCFG(), "plugin_config")
    reg = registry(vc, cfg)
    schema = vc.obj("Schema", "schema")
    o = vc.run(fn, schema, cfg, pcfg, reg)
    if rejected(schema, cfg, pcfg):
        vc.ok("no code for rejected documents", not o.ok)
        return
    refs = references(vc, schema, cfg, pcfg)
    want = []
    try:
        for key, t in schema.type_map.items():
            if isinstance(t, GraphQLInputObjectType):
                if refs is not None and key not in refs.inputs:
                    continue
                if pcfg.skip_underscore and key.startswith("_"):
                    continue
                if key in reg.inputtype_class_map:
                    want.append(M.generate_input_func(key, t, cfg, pcfg, reg))
    except errors_mod.RegistryError:
        vc.cover("refused")
        vc.ok("what cannot be generated is an error", not o.ok)
        return
    if vc.returns(o):
        vc.cover("generated")
        vc.equal("one factory per generated and needed input, in the order of the schema", o.value, want)


@contract(P + "generate_input_funcs", proved_by="input_funcs.generate_input_funcs")
def c_factories(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "factories", Seq(AST), b.client_schema, b.config, b.plugin_config)


@unit("input_funcs.plugin", P + "InputFuncsPlugin.generate_ast", ["C15", "C17"], contracts=(P + "generate_input_funcs",))
def plugin(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    self = vc.obj("InputFuncsPlugin", "plugin")
    schema = vc.obj("Schema", "schema")
    o = vc.run(fn, self, schema, cfg, reg)
    if vc.returns(o):
        vc.cover("generated")
        vc.equal("the factories of the schema", o.value, M.generate_input_funcs(schema, cfg, self.config, reg))
        coercions(vc, cfg, self.config)
