"""contracts of turms.registry: names, references, imports and generated helpers"""
import ast
import builtins
from keyword import iskeyword

import turms.registry as R
from vf.core import *
from vf.domains import domain
from vf.verify import unit

from .common import *

STYLE = ("query", "mutation", "subscription", "enum", "fragment", "node", "parameter", "input", "object")
domain("Styler", [R.Styler], {"*": {f"style_{k}_name": Fun(STR, name=f"style_{k}_name") for k in STYLE}})


def styled(vc):
    """a registry with an arbitrary chain of stylers, each an arbitrary function of the name"""
    reg = registry(vc)
    reg.stylers = vc.new(Seq(Cls("Styler")), "stylers")
    return reg


def chain(reg, kind, n):
    for s in reg.stylers:
        n = getattr(s, f"style_{kind}_name")(n)
    return n + "_" if iskeyword(n) else n


def style_unit(method, kind, props):
    @unit("registry." + method, REG + method, props)
    def u(vc, fn):
        reg = styled(vc)
        n = vc.new(STR, "name")
        o = vc.run(fn, reg, n)
        if vc.returns(o):
            vc.cover("styled")
            vc.equal("every styler in order, then keywords escaped", o.value, chain(reg, kind, n))
            vc.ok("never a keyword", not iskeyword(o.value))


for _m, _k in [("inputtype", "input"), ("enum", "enum"), ("objecttype", "object"), ("interface", "object"), ("fragment", "fragment"),
               ("query", "query"), ("mutation", "mutation"), ("subscription", "subscription")]:
    style_unit(f"style_{_m}_class", _k, ["C03", "C04"])
style_unit("generate_node_name", "node", ["C03"])
style_unit("generate_parameter_name", "parameter", ["C03", "C14"])


# ---------------------------------------------------------------- classes become known under their styled name
def generate_unit(method, map_, style, props):
    @unit("registry." + method, REG + method, props, contracts=(REG + style,))
    def u(vc, fn):
        reg = registry(vc)
        n = vc.new(STR, "name")
        known = n in getattr(reg, map_)
        o = vc.run(fn, reg, n)
        if known:
            vc.cover("twice")
            vc.ok("no class is generated twice", not o.ok)
            return
        if vc.returns(o):
            vc.cover("generated")
            vc.equal("the class is named as references name it", o.value, getattr(reg, style)(n))
            vc.equal("recorded", getattr(reg, map_)[n], getattr(reg, style)(n))


for _m, _map, _s in [("inputtype", "inputtype_class_map", "inputtype"), ("enum", "enum_class_map", "enum"), ("objecttype", "object_class_map", "objecttype"),
                     ("fragment", "fragment_class_map", "fragment"), ("query", "query_class_map", "query"),
                     ("mutation", "mutation_class_map", "mutation"), ("subscription", "subscription_class_map", "subscription")]:
    generate_unit("generate_" + _m, _map, f"style_{_s}_class", ["C04", "C03"])


@unit("registry.generate_interface", REG + "generate_interface", ["C04", "C22"], contracts=(REG + "style_interface_class",))
def generate_interface(vc, fn):
    reg = registry(vc)
    n = vc.new(STR, "name")
    base = vc.flag("with_base")
    known = n in reg.interface_baseclass_map
    o = vc.run(fn, reg, n, base)
    if known:
        vc.ok("no class is generated twice", not o.ok)
        return
    if vc.returns(o):
        vc.cover("generated")
        want = reg.style_interface_class(n)
        want = want + "Base" if base else want
        vc.equal("the base class", o.value, want)
        vc.equal("what subclasses inherit", reg.inherit_interface(n), want)


def inherit_unit(method, map_):
    @unit("registry." + method, REG + method, ["C04", "C22", "C06"])
    def u(vc, fn):
        reg = registry(vc)
        n = vc.new(STR, "name")
        o = vc.run(fn, reg, n)
        m = getattr(reg, map_)
        if n in m:
            if vc.returns(o):
                vc.cover("known")
                vc.equal("the recorded class", o.value, m[n])
        else:
            vc.cover("unknown")
            vc.ok("an undefined base is an error", not o.ok and isinstance(o.exc, errors_mod.RegistryError))


inherit_unit("inherit_interface", "interface_baseclass_map")
inherit_unit("inherit_fragment", "fragment_class_map")


# ---------------------------------------------------------------- references
def check_reference(vc, reg, o, n, parent, fwd, map_, cls, stored=False):
    m = getattr(reg, map_)
    if n in m and parent != cls:
        if vc.returns(o):
            vc.cover("defined")
            vc.equal("a defined class is referred to by its name", o.value, name(m[n] if stored else cls))
            vc.equal("nothing to rebuild", chunks(reg.forward_references), [])
    elif fwd:
        if vc.returns(o):
            vc.cover("forward")
            vc.equal("a later class is referred to by its quoted name", o.value, const(cls))
            vc.covers("the referring class is rebuilt", reg.forward_references, parent)
    else:
        vc.cover("refused")
        vc.ok("no forward reference where none may be", not o.ok)


def reference_unit(kind, map_, style, props):
    @unit("registry.reference_" + kind, REG + "reference_" + kind, props, contracts=(REG + style,))
    def u(vc, fn):
        reg = registry(vc)
        n, parent = vc.new(STR, "name"), vc.new(STR, "parent")
        fwd = vc.flag("allow_forward")
        o = vc.run(fn, reg, n, parent, fwd)
        check_reference(vc, reg, o, n, parent, fwd, map_, getattr(reg, style)(n), kind == "inputtype")


for _k, _map, _s in [("inputtype", "inputtype_class_map", "inputtype"), ("object", "object_class_map", "objecttype"), ("fragment", "fragment_class_map", "fragment"),
                     ("query", "query_class_map", "query"), ("mutation", "mutation_class_map", "mutation"), ("subscription", "subscription_class_map", "subscription")]:
    reference_unit(_k, _map, f"style_{_s}_class", ["C04"])


@unit("registry.reference_enum", REG + "reference_enum", ["C04", "C13"], contracts=(REG + "style_enum_class", REG + "register_import"))
def reference_enum(vc, fn):
    reg = registry(vc)
    n, parent = vc.new(STR, "name"), vc.new(STR, "parent")
    fwd = vc.flag("allow_forward")
    o = vc.run(fn, reg, n, parent, fwd)
    if n in list(R.built_in_map):
        if vc.returns(o):
            vc.cover("introspection enum")
            vc.equal("an emitted helper enum is referred to as it is named", o.value, const(n))
            vc.covers("the helper is emitted", reg._builtins, n)
            imports(vc, reg, "enum.Enum")
        return
    check_reference(vc, reg, o, n, parent, fwd, "enum_class_map", reg.style_enum_class(n))


@unit("registry.reference_interface", REG + "reference_interface", ["C04", "C08"], contracts=(REG + "style_interface_class",))
def reference_interface(vc, fn):
    reg = registry(vc)
    n, parent = vc.new(STR, "name"), vc.new(STR, "parent")
    o = vc.run(fn, reg, n, parent)
    if vc.returns(o):
        vc.cover("forward")
        vc.equal("quoted", o.value, const(reg.style_interface_class(n)))
        vc.covers("the referring class is rebuilt", reg.forward_references, parent)


@unit("registry.reference_scalar", REG + "reference_scalar", ["C17", "C04"], contracts=(REG + "register_import",))
def reference_scalar(vc, fn):
    reg = registry(vc)
    n = vc.new(STR, "scalar")
    o = vc.run(fn, reg, n)
    if n in reg.scalar_map:
        if vc.returns(o):
            py = reg.scalar_map[n]
            vc.cover("mapped")
            vc.equal("the last component of the configured type", o.value, name(last(py)))
            if "." in py:
                vc.cover("dotted")
                vc.equal("a dotted type is imported", chunks(reg._imports), [py])
            else:
                vc.equal("a plain type needs no import", chunks(reg._imports), [])
    else:
        vc.cover("unmapped")
        vc.ok("an unmapped scalar is reported", not o.ok and isinstance(o.exc, errors_mod.NoScalarFound))


@unit("registry.init", REG + "__init__", ["C17", "C04", "C07"])
def init(vc, fn):
    """a fresh registry knows nothing but the scalars of its own configuration"""
    cfg = config(vc)
    reg = object.__new__(R.ClassRegistry)
    st = vc.new(Seq(Cls("Styler")), "stylers")
    o = vc.run(fn, reg, cfg, st, quiet)
    if not vc.returns(o):
        return
    vc.cover("created")
    vc.equal("the configured stylers in order", reg.stylers, st)
    for m in ("fragment_document_map", "enum_class_map", "inputtype_class_map", "object_class_map", "interface_reference_map", "interface_baseclass_map",
              "fragment_class_map", "query_class_map", "subscription_class_map", "mutation_class_map", "registered_interfaces_fragments",
              "registered_union_fragments", "fragment_type_map", "interfacefragments_impl_map", "unionfragment_members_map", "operation_single_operation_map"):
        vc.ok("no class of another run is known", len(getattr(reg, m)) == 0)
    for m in ("_imports", "_builtins", "forward_references"):
        vc.ok("nothing of another run is imported", len(getattr(reg, m)) == 0)
    n = vc.new(STR, "scalar")
    if n in cfg.scalar_definitions:
        vc.cover("configured")
        vc.ok("known", n in reg.scalar_map)
        vc.equal("user definitions override the defaults", reg.scalar_map[n], cfg.scalar_definitions[n])
    elif n in R.SCALAR_DEFAULTS:
        vc.cover("default")
        vc.ok("known", n in reg.scalar_map)
        vc.equal("the default", reg.scalar_map[n], DEFAULTS[n])
    else:
        vc.cover("unknown")
        vc.ok("nothing else is known", n not in reg.scalar_map)


DEFAULTS = {"ID": "str", "String": "str", "Int": "int", "Boolean": "bool", "GenericScalar": "typing.Dict", "DateTime": "datetime.datetime", "Float": "float"}


# ---------------------------------------------------------------- imports, helpers
@unit("registry.register_import", REG + "register_import", ["C04"])
def register_import(vc, fn):
    reg = registry(vc)
    n = vc.new(STR, "name")
    o = vc.run(fn, reg, n)
    if not vc.returns(o):
        return
    if n in dir(builtins):
        vc.cover("builtin")
        vc.equal("a builtin needs no import", chunks(reg._imports), [])
    else:
        vc.cover("imported")
        vc.covers("imported", reg._imports, n)


@unit("registry.register_builtin", REG + "register_builtin", ["C04", "C20"])
def register_builtin(vc, fn):
    reg = registry(vc)
    n = vc.new(STR, "name")
    o = vc.run(fn, reg, n)
    if vc.returns(o):
        vc.cover("registered")
        vc.covers("emitted", reg._builtins, n)


def marker_unit(method, option, helper, default):
    @unit(f"registry.markers[{method}]", REG + method, ["C20", "C14", "C04"], contracts=(REG + "register_import", REG + "register_builtin"))
    def u(vc, fn):
        cfg = config(vc)
        reg = registry(vc, cfg)
        o = vc.run(fn, reg)
        if not vc.returns(o):
            return
        own = getattr(cfg, option)
        if own:
            vc.cover("configured")
            vc.equal("the configured class", o.value, name(last(own)))
            imports(vc, reg, own)
            vc.equal("no helper", chunks(reg._builtins), [])
        else:
            vc.cover("helper")
            vc.equal("the emitted helper", o.value, name(default))
            vc.covers("the helper is emitted", reg._builtins, helper)


marker_unit("reference_unset", "unset_instance", "UNSET", "UNSET")
marker_unit("reference_unset_type", "unset_type_class", "UNSET", "UnsetType")
marker_unit("reference_graphql_default", "graphql_default_class", "GraphQLDefault", "GraphQLDefault")
marker_unit("reference_deprecated", "deprecated_class", "Deprecated", "Deprecated")


@unit("registry.generate_builtins", REG + "generate_builtins", ["C04", "C07"])
def generate_builtins(vc, fn):
    reg = registry(vc)
    want = []
    for h in sorted(R.built_in_map):
        if vc.flag("needs " + h):
            reg._builtins.add(h)
            d = R.built_in_map[h]
            want = want + (d if isinstance(d, list) else [d])
    o = vc.run(fn, reg)
    if vc.returns(o):
        vc.cover("helpers")
        vc.equal("every registered helper once, in a fixed order", o.value, want)


@unit("registry.generate_forward_refs", REG + "generate_forward_refs", ["C04", "C07"])
def generate_forward_refs(vc, fn):
    cfg = config(vc)
    reg = registry(vc, cfg)
    refs = vc.new(Seq(STR), "refs")
    reg.forward_references.update(refs)
    o = vc.run(fn, reg)
    if not vc.returns(o):
        return
    vc.cover("rebuilt")
    m = "model_rebuild" if cfg.pydantic_version == "v2" else "update_forward_refs"
    want = []
    for r in sorted(set(refs)):
        want.append(ast.Expr(value=ast.Call(func=ast.Attribute(value=name(r), attr=m, ctx=ast.Load()), args=[], keywords=[])))
    vc.equal("every class that waits for a later one is rebuilt", o.value, want)


@unit("registry.fragment_implementation", REG + "get_interface_fragment_implementation_or_none", ["C01", "C08"])
def fragment_implementation(vc, fn):
    reg = registry(vc)
    reg.interfacefragments_impl_map = vc.new(Map(Map(STR)), "impls")
    reg.fragment_type_map = vc.new(Map(Cls("NamedType")), "types")
    f, t = vc.new(STR, "fragment"), vc.new(STR, "type")
    o = vc.run(fn, reg, f, t)
    if f not in reg.interfacefragments_impl_map:
        if vc.returns(o):
            vc.cover("no interface fragment")
            vc.ok("falls back", o.value is None)
        return
    m = reg.interfacefragments_impl_map[f]
    if t in m:
        if vc.returns(o):
            vc.cover("implementation")
            vc.equal("the implementation of that type", o.value, m[t])
    elif f in reg.fragment_type_map and reg.fragment_type_map[f].name == t:
        if vc.returns(o):
            vc.cover("the interface itself")
            vc.ok("keeps union semantics", o.value is None)
    else:
        vc.cover("impossible")
        vc.ok("an impossible spread is an error", not o.ok)


def fragment_map_unit(method, map_, d):
    @unit("registry." + method, REG + method, ["C01", "C08"])
    def u(vc, fn):
        reg = registry(vc)
        setattr(reg, map_, vc.new(Map(d), "map"))
        f = vc.new(STR, "fragment")
        o = vc.run(fn, reg, f)
        m = getattr(reg, map_)
        if f in m:
            if vc.returns(o):
                vc.cover("known")
                vc.equal("what was recorded for the fragment", o.value, m[f])
        else:
            vc.cover("unknown")
            vc.ok("nothing is made up", not o.ok and isinstance(o.exc, KeyError))


fragment_map_unit("get_interface_fragment_implementations", "interfacefragments_impl_map", Map(STR))
fragment_map_unit("get_union_fragment_members", "unionfragment_members_map", Map(STR))
fragment_map_unit("get_fragment_type", "fragment_type_map", Cls("NamedType"))


@unit("registry.is_interface_fragment", REG + "is_interface_fragment", ["C01", "C08"])
def is_interface_fragment(vc, fn):
    reg = registry(vc)
    reg.registered_interfaces_fragments = vc.new(Map(AST), "map")
    f = vc.new(STR, "fragment")
    o = vc.run(fn, reg, f)
    if vc.returns(o):
        vc.cover("decided")
        vc.ok("exactly the registered ones", o.value == (f in reg.registered_interfaces_fragments))


def recorder_unit(method, map_, d, refuses_known=False):
    @unit("registry." + method, REG + method, ["C05", "C14"] if d is AST or d is STR else ["C01", "C08"])
    def u(vc, fn):
        reg = registry(vc)
        setattr(reg, map_, vc.new(Map(d), "map"))
        k, other, v = vc.new(STR, "key"), vc.new(STR, "other"), vc.new(d, "value")
        m = getattr(reg, map_)
        known = k in m
        before = m[other] if other in m else None
        o = vc.run(fn, reg, k, v)
        if refuses_known and known:
            vc.cover("known")
            vc.ok("two of the same name are an error", not o.ok)
            return
        if not vc.returns(o):
            return
        vc.cover("recorded")
        m = getattr(reg, map_)
        vc.equal("it is recorded", m[k] if k in m else None, v)
        if other != k:
            vc.equal("the others are kept", m[other] if other in m else None, before)


recorder_unit("register_operation_single", "operation_single_operation_map", AST)
recorder_unit("register_fragment_type", "fragment_type_map", Cls("NamedType"))
recorder_unit("register_fragment_document", "fragment_document_map", STR, refuses_known=True)
recorder_unit("register_scalar", "scalar_map", STR)


@unit("registry.get_operation_single_or_none", REG + "get_operation_single_or_none", ["C14"])
def single_or_none(vc, fn):
    reg = registry(vc)
    reg.operation_single_operation_map = vc.new(Map(AST), "map")
    k = vc.new(STR, "operation")
    o = vc.run(fn, reg, k)
    if vc.returns(o):
        m = reg.operation_single_operation_map
        if k in m:
            vc.cover("known")
            vc.equal("the annotation of the only field", o.value, m[k])
        else:
            vc.cover("unknown")
            vc.ok("nothing otherwise", o.value is None)


def lookup_unit(method, map_):
    @unit("registry." + method, REG + method, ["C15", "C05", "C04"])
    def u(vc, fn):
        reg = registry(vc)
        k = vc.new(STR, "key")
        o = vc.run(fn, reg, k)
        m = getattr(reg, map_)
        if k in m:
            if vc.returns(o):
                vc.cover("known")
                vc.equal("what was generated for it", o.value, m[k])
        else:
            vc.cover("unknown")
            vc.ok("nothing is made up", not o.ok)


lookup_unit("get_inputtype_class", "inputtype_class_map")
lookup_unit("get_enum_class", "enum_class_map")
lookup_unit("get_fragment_document", "fragment_document_map")


@unit("registry._reference_generic", REG + "_reference_generic", ["C04", "C06", "C08"])
def reference_generic(vc, fn):
    reg = registry(vc)
    t, parent = vc.new(STR, "type"), vc.new(STR, "parent")
    known = vc.new(Map(STR), "known")
    style = lambda x: x + "Styled"
    fwd = vc.flag("forward")
    o = vc.run(fn, reg, t, parent, style, known, "Kind", fwd)
    later = t not in known or parent == t + "Styled"
    if later and not fwd:
        vc.cover("refused")
        vc.ok("a class that is not generated yet cannot be used", not o.ok)
        return
    if not vc.returns(o):
        return
    if later:
        vc.cover("forward")
        vc.equal("a quoted name", o.value, const(t + "Styled"))
        vc.covers("the class that uses it waits for it", reg.forward_references, parent)
    else:
        vc.cover("known")
        vc.equal("the class", o.value, name(t + "Styled"))
        vc.equal("nothing waits", chunks(reg.forward_references), [])
