"""contracts of the enum generator"""
import ast
from keyword import iskeyword

import turms.plugins.enums as M
from graphql import GraphQLEnumType
from vf.core import *
from vf.domains import model_domain
from vf.verify import unit

from .common import *

DOCS = (UT + "parse_documents", "turms.referencer:create_reference_registry_from_documents")


def references(vc, schema, cfg, pcfg):
    """what the documents reference, or None when nothing is pruned"""
    if pcfg.skip_unreferenced and cfg.documents:
        return referencer_mod.create_reference_registry_from_documents(schema, utils_mod.parse_documents(schema, cfg.documents, cfg))
    return None


def rejected(schema, cfg, pcfg):
    if pcfg.skip_unreferenced and cfg.documents:
        try:
            utils_mod.parse_documents(schema, cfg.documents, cfg)
        except utils_mod.NoDocumentsFoundError:
            return True
    return False


@unit("enums.generate_enums", "turms.plugins.enums:generate_enums", ["C13", "C16", "C04", "C20"], contracts=DOCS + (REG + "generate_enum",))
def generate_enums(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    pcfg = vc.obj(model_domain(M.EnumsPluginConfig), "plugin_config")
    schema = vc.obj("Schema", "schema")
    o = vc.run(fn, schema, cfg, pcfg, reg)
    if rejected(schema, cfg, pcfg):
        vc.ok("no code for rejected documents", not o.ok)
        return
    if not vc.returns(o):
        return
    vc.cover("generated")
    refs = references(vc, schema, cfg, pcfg)
    want = []
    for key, t in schema.type_map.items():
        if isinstance(t, GraphQLEnumType):
            if refs is not None and key not in refs.enums:
                continue
            if pcfg.skip_underscore and key.startswith("_"):
                continue
            if pcfg.skip_double_underscore and key.startswith("__"):
                continue
            body = [doc(t.description if t.description else "No documentation")]
            for k, v in t.values.items():
                member = k + "_" if iskeyword(k) or k == "mro" else k
                body.append(assign(member, const(k)))
                if v.deprecation_reason:
                    body.append(doc(f"DEPRECATED: {v.description}"))
                elif v.description:
                    body.append(doc(v.description))
            want.append(classdef(reg.generate_enum(key), [name("str"), name("Enum")], body))
    vc.equal("one string enum per needed type, one member per value, values untouched", o.value, want)


@unit("enums.plugin", "turms.plugins.enums:EnumsPlugin.generate_ast", ["C13", "C04"], contracts=(REG + "register_import", "turms.plugins.enums:generate_enums"))
def plugin(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    self = vc.obj("EnumsPlugin", "plugin")
    schema = vc.obj("Schema", "schema")
    o = vc.run(fn, self, schema, cfg, reg)
    if vc.returns(o):
        vc.cover("generated")
        imports(vc, reg, "enum.Enum")
        vc.equal("the enums of the schema under the plugin's own options", o.value, M.generate_enums(schema, cfg, self.config, reg))


domain("EnumsPlugin", [M.EnumsPlugin], {"*": {"config": Cls(model_domain(M.EnumsPluginConfig))}})


@contract("turms.plugins.enums:generate_enums", proved_by="enums.generate_enums")
def c_generate_enums(eng, fn, *a, **k):
    b = bind(fn, a, k)
    return pure(eng, "enums", Seq(AST), b.client_schema, b.config, b.plugin_config)
