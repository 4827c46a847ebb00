"""contracts of reading, checking and completing the documents"""
import ast
import glob

import graphql
import turms.utils as U
from graphql import FieldNode, FragmentDefinitionNode, FragmentSpreadNode, InlineFragmentNode, NameNode, OperationDefinitionNode
from vf.core import *
from vf.core import DOMAINS
from vf.domains import domain, model_domain
from vf.spec import Stub, bind, external, method, pure
from vf.verify import contract, unit

from .common import *
from .run import Boom, note, watch
from .sources import first_parsed, first_syntax_error, matches

ADD = UT + "add_typename_recursively"


# ---------------------------------------------------------------- __typename
@contract(ADD, proved_by="documents.add_typename_recursively")
def c_add(eng, fn, selection_set, skip=False):
    if selection_set is not None:
        note(eng, "complete", selection_set, skip)


def typename():
    return FieldNode(name=NameNode(value="__typename"), arguments=[], directives=[], selection_set=None)


def frame(vc, ss=None):
    """the selections of ss are the only thing that was assigned"""
    for o, n, v in vc.e.ghost.get("writes", []):
        vc.ok("nothing else in the document changes", ss is not None and o is ss and n == "selections", n)
    vc.ok("nothing else in the document changes", not vc.e.ghost.get("loop_writes"))


def asks(selections):
    return any(isinstance(s, FieldNode) and s.name.value == "__typename" for s in selections)


@unit("documents.add_typename_recursively", ADD, ["C05"], contracts=(ADD,))
def add_typename(vc, fn):
    watch(vc)
    ss, skip = vc.obj("SelectionSet", "selection_set"), vc.flag("skip")
    before = ss.selections
    o = vc.run(fn, ss, skip)
    if not vc.returns(o):
        return
    want = list(before)
    if not skip and not asks(before):
        vc.cover("added")
        want.append(typename())
    else:
        vc.cover("kept")
    frame(vc, ss)
    vc.equal("the selections as written, and __typename where it is not asked for", ss.selections, want)
    log = []
    for s in before:
        if isinstance(s, FieldNode):
            if s.selection_set:
                log.append(("complete", s.selection_set, False))
        elif isinstance(s, InlineFragmentNode):
            log.append(("complete", s.selection_set, True))
    vc.equal("every nested selection is completed, inline fragments as part of their object", vc.log, log)


@unit("documents.add_typename[none]", ADD, ["C05"])
def add_typename_none(vc, fn):
    vc.cover("nothing")
    vc.returns(vc.run(fn, None))


@unit("documents.auto_add_typename", UT + "auto_add_typename_field_to_all_objects", ["C05"], contracts=(ADD,))
def auto_add(vc, fn):
    watch(vc)
    doc = vc.obj("Document", "document")
    o = vc.run(fn, doc)
    if not vc.returns(o):
        return
    vc.cover("completed")
    vc.ok("the document itself", o.value is doc)
    frame(vc)
    vc.equal("every definition once; an operation is not asked for its own __typename", vc.log,
             [("complete", d.selection_set, isinstance(d, OperationDefinitionNode)) for d in doc.definitions])


# ---------------------------------------------------------------- reading and checking
class Problem:
    pass


domain("Problem", [Problem], {"*": {}})


@external(U.validate, "graphql.validate", "the violations of these rules, a function of its arguments")
def x_validate(eng, schema, doc, rules=None):
    note(eng, "validate", schema, doc, rules)
    return VList(list(pure(eng, "violations", Seq(Cls("Problem"))).chunks))


def get_rules(eng, cfg):
    return pure(eng, "rules_of", ANY, cfg)


@contract("turms.config:GeneratorConfig.get_document_rules", proved_by="documents.get_document_rules")
def c_rules(eng, fn, self):
    return get_rules(eng, self)


DOMAINS[model_domain(config_mod.GeneratorConfig)]["attrs"]["*"]["get_document_rules"] = method(get_rules)


@contract(UT + "auto_add_typename_field_to_all_objects", proved_by="documents.auto_add_typename")
def c_auto_add(eng, fn, document):
    note(eng, "complete", document)
    return document


@unit("documents.parse_documents", UT + "parse_documents", ["C23", "C18", "C05"], contracts=(UT + "auto_add_typename_field_to_all_objects",))
def parse_documents(vc, fn):
    watch(vc)
    pattern, schema, cfg = vc.new(STR, "pattern"), vc.obj("Schema", "schema"), config(vc)
    o = vc.run(fn, schema, pattern, cfg)
    if not pattern:
        vc.cover("no pattern")
        vc.ok("no pattern is an error", not o.ok and isinstance(o.exc, errors_mod.GenerationError))
        vc.equal("nothing is read", vc.log, [])
        return
    vc.ok("sub folders are searched", vc.e.ghost.get("recursive") is True)
    texts = [open(f, "r").read() for f in matches(pattern)]
    text = "\n".join(texts)
    if text.strip() == "":
        vc.cover("empty")
        vc.ok("an empty match is an error", not o.ok and isinstance(o.exc, errors_mod.GenerationError))
        return
    if first_syntax_error(vc):
        vc.cover("syntax error")
        vc.ok("what is no document is an error", not o.ok)
        vc.equal("every file once, sorted, kept apart", vc.log, [("parse", text)])
        return
    doc = first_parsed(vc)
    checked = [("parse", text), ("validate", schema, doc, get_rules(vc.e, cfg))]
    problems = x_problems(vc)
    if len(problems) > 0:
        vc.cover("invalid")
        vc.ok("invalid documents are an error", not o.ok and isinstance(o.exc, U.InvalidDocuments))
        vc.equal("every file once, sorted, kept apart; the configured rules", vc.log, checked)
        if not o.ok:
            vc.equal("all violations are listed", o.exc.args[0], "Invalid Documents \n" + "\n".join(str(e) for e in problems))
        return
    if vc.returns(o, "valid documents are not rejected"):
        vc.cover("valid")
        vc.ok("the document that was checked", o.value == doc)
        vc.equal("every file once, sorted, kept apart; the configured rules; then __typename", vc.log, checked + [("complete", doc)])


def x_problems(vc):
    return pure(vc.e, "violations", Seq(Cls("Problem")))


# ---------------------------------------------------------------- the rules
def with_rules(vc, run):
    """run for an arbitrary table of rules instead of the one in place"""
    table = vc.new(Map(ANY), "rules")
    real = config_mod.specified_rules_map
    config_mod.specified_rules_map = table
    try:
        return table, run()
    finally:
        config_mod.specified_rules_map = real


@unit("documents.get_document_rules", "turms.config:GeneratorConfig.get_document_rules", ["C23"])
def get_document_rules(vc, fn):
    cfg = config(vc)
    table, o = with_rules(vc, lambda: vc.run(fn, cfg))
    if vc.returns(o):
        vc.cover("rules")
        vc.equal("all rules but those omitted", o.value, [rule for key, rule in table.items() if not key in cfg.omited_document_rules])


@unit("documents.validate_omited_document_rules", None, ["C23"])
def validate_omitted(vc):
    fn = config_mod.GeneratorConfig.validate_omited_document_rules.__func__
    names = vc.new(Seq(STR), "omitted")
    table, o = with_rules(vc, lambda: vc.run(fn, config_mod.GeneratorConfig, names))
    unknown = [n for n in names if not n in table]
    if len(unknown) > 0:
        vc.cover("unknown")
        vc.ok("an unknown rule is an error", not o.ok and isinstance(o.exc, ValueError))
        return
    if vc.returns(o):
        vc.cover("known")
        vc.equal("the names as configured", o.value, names)


@unit("documents.rules", None, ["C23"])
def rules(vc):
    vc.cover("table")
    table = config_mod.specified_rules_map
    for rule in graphql.specified_rules:
        vc.ok("every specified rule is enforced, once", sum(1 for r in table.values() if r is rule) == 1, rule.__name__)
    for key, rule in table.items():
        vc.ok("no other rule is enforced", rule in graphql.specified_rules, key)
        vc.ok("rules are known by the names of their modules", rule.__module__.split(".")[-1] in (key, "known_argument_names", "provided_required_arguments"), key)


# ---------------------------------------------------------------- the embedded document
def writes(vc):
    """what the loops assigned, in order"""
    return VList([FlatMap(seq, x, [(cond, [E((o, n, v))])]) for seq, x, cond, o, n, v in vc.e.ghost.get("loop_writes", [])])


@external(U.print_ast, "graphql.print_ast", "the text of the document")
def x_print(eng, doc):
    return pure(eng, "printed", STR, doc)


@unit("documents.auto_add_typename_to_fragment", UT + "auto_add_typename_field_to_fragment_str", ["C05"])
def fragment_text(vc, fn):
    watch(vc)
    text = vc.new(STR, "fragment")
    doc = first_parsed(vc)
    want = [(d.selection_set, "selections", list(d.selection_set.selections) + [typename()])
            for d in doc.definitions if isinstance(d, FragmentDefinitionNode) and not asks(d.selection_set.selections)]
    o = vc.run(fn, text)
    if first_syntax_error(vc):
        vc.ok("what is no document is an error", not o.ok)
        return
    if not vc.returns(o):
        return
    vc.cover("completed")
    vc.equal("the text was parsed", vc.log, [("parse", text)])
    vc.equal("__typename is added to the fragments that do not ask for it, nothing else changes", writes(vc), want)
    vc.ok("nothing else is assigned", not vc.e.ghost.get("writes"))
    vc.equal("the text of the completed document", o.value, U.print_ast(doc))


domain("Text", [graphql.DocumentNode], {"*": {}})


@external(U.visit, "graphql.visit", "calls the visitor for every node of the document")
def x_visit(eng, doc, visitor):
    note(eng, "visit", doc)
    for spread in spreads_in(eng, doc):
        visitor.enter_fragment_spread(spread)


def spreads_in(eng, doc):
    return pure(eng, "spreads_in", Seq(Cls("FragmentSpreadNode")), doc)


@unit("documents.find_fragment_spreads", UT + "find_fragment_spreads", ["C05"])
def find_spreads(vc, fn):
    watch(vc)
    text = vc.new(STR, "document")
    o = vc.run(fn, text)
    if first_syntax_error(vc):
        vc.ok("what is no document is an error", not o.ok)
        return
    if not vc.returns(o):
        return
    vc.cover("found")
    doc = first_parsed(vc)
    vc.equal("the document is parsed and visited", vc.log, [("parse", text), ("visit", doc)])
    vc.equal("the names of all spreads at any depth", sorted(o.value), sorted({s.name.value for s in spreads_in(vc.e, doc)}))


@contract(UT + "find_fragment_spreads", proved_by="documents.find_fragment_spreads")
def c_find(eng, fn, document):
    return set(pure(eng, "spread_names", Seq(STR), document))


@contract(UT + "auto_add_typename_field_to_fragment_str", proved_by="documents.auto_add_typename_to_fragment")
def c_fragment_text(eng, fn, fragment_str):
    return pure(eng, "completed_fragment", STR, fragment_str)


REPLACE = UT + "replace_iteratively"


@contract(REPLACE, proved_by="documents.replace_iteratively")
def c_replace(eng, fn, *a, **k):
    b = bind(fn, a, k)
    note(eng, "replace", b.pattern, b.taken)
    return pure(eng, "closed_over", STR)


@unit("documents.replace_iteratively", REPLACE, ["C05"], contracts=(REPLACE, UT + "find_fragment_spreads", UT + "auto_add_typename_field_to_fragment_str"))
def replace(vc, fn):
    watch(vc)
    text, reg, taken = vc.new(STR, "pattern"), registry(vc), vc.new(Seq(STR), "taken")
    fragments = reg.fragment_document_map
    o = vc.run(fn, text, reg, taken=taken)
    new = [n for n in sorted(U.find_fragment_spreads(text)) if not n in taken]
    if not new:
        vc.cover("closed")
        if vc.returns(o):
            vc.equal("nothing is missing: the document as it is", o.value, text)
        return
    if not all(n in fragments for n in new):
        vc.cover("missing")
        vc.ok("a spread of an unknown fragment is an error", not o.ok and isinstance(o.exc, U.FragmentNotFoundError))
        return
    if vc.returns(o):
        vc.cover("more")
        texts = [U.auto_add_typename_field_to_fragment_str(fragments[n]) for n in new]
        texts.append(text)
        vc.equal("each missing fragment is added once, and never again below", vc.log, [("replace", "\n\n".join(texts), new + taken)])
        vc.equal("the document closed over what they spread", o.value, pure(vc.e, "closed_over", STR))
