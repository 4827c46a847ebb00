"""contracts of turms.run: the pipeline of one project and the run over all projects"""
import ast
import os

import turms.run as M
from vf.core import *
from vf.domains import domain, model_domain
from vf.core import DOMAINS
from vf.fakes import FakeConsole, FakeFile
from vf.spec import Stub, bind, external, method, pure
from vf.verify import contract, unit

from .common import *

P = "turms.run:"


# ---------------------------------------------------------------- what happened, in order
def watch(vc):
    vc.log = VList()
    vc.e.ghost["vc"] = vc
    vc.e.ghost["log"] = vc.log
    return vc.log


def note(eng, *what):
    eng.ghost["log"].append(tuple(what))


class Boom(Exception):
    """an exception of a kind the code cannot know"""


FAILURES = (Boom, M.GenerationError, KeyError, AssertionError, NotImplementedError)


def blow(eng, cls, msg):
    e = cls(msg)
    eng.ghost["raised"] = e
    raise e


# ---------------------------------------------------------------- stages
class AnyPlugin:
    pass


class AnyParser:
    pass


class AnyProcessor:
    pass


def may_fail(eng, who, label, msg="reason of the failure"):
    if eng.ghost.get("faulty") and eng.fork(zbool(pure(eng, label, BOOL, who))):
        blow(eng, eng.ghost["faulty"], msg)


def plugin_runs(eng, self, schema, cfg, reg):
    vc = eng.ghost["vc"]
    vc.ok("the plugin gets the schema, the configuration and the registry of this run", schema is vc.schema and cfg is vc.cfg and reg.config is vc.cfg)
    note(eng, "plugin", self)
    may_fail(eng, self, "plugin_fails")
    return pure(eng, "plugin_output", Seq(AST), self)


def parser_runs(eng, self, tree):
    note(eng, "parser", self)
    may_fail(eng, self, "parser_fails")
    return pure(eng, "parser_output", Cls("Tree"), self, tree)


def processor_runs(eng, self, code, cfg):
    vc = eng.ghost["vc"]
    vc.ok("the processor gets the configuration", cfg is vc.cfg)
    note(eng, "processor", self)
    may_fail(eng, self, "processor_fails")
    return pure(eng, "processor_output", STR, self, code)


class TreeOf:
    """a list of statements that nobody looks into"""


domain("Tree", [TreeOf], {"*": {}})
domain("Plugin", [AnyPlugin], {"*": {"generate_ast": method(plugin_runs)}})
domain("Parser", [AnyParser], {"*": {"parse_ast": method(parser_runs)}})
domain("Processor", [AnyProcessor], {"*": {"run": method(processor_runs)}})


def stage(label, desc, event):
    def c(eng, fn, self):
        vc = eng.ghost["vc"]
        vc.equal(f"{label} are generated after every plugin ran", VList(list(vc.log.chunks)), vc.expected())
        return pure(eng, label, Seq(AST), self.config)

    return c


for _m, _l in [("generate_imports", "imports"), ("generate_builtins", "helpers"), ("generate_forward_refs", "rebuilds")]:
    contract(REG + _m, proved_by="registry." + _m)(stage(_l, Seq(AST), _m))

STAGES = tuple(REG + m for m in ("generate_imports", "generate_builtins", "generate_forward_refs"))


def maybe(vc, dom, label):
    """None or a list"""
    return vc.new(Opt(Seq(Cls(dom))), label)


@unit("run.generate_ast", P + "generate_ast", ["C09", "C04"], contracts=STAGES)
def generate_ast(vc, fn):
    watch(vc)
    vc.cfg, vc.schema = config(vc), vc.obj("Schema", "schema")
    plugins, stylers = maybe(vc, "Plugin", "plugins"), maybe(vc, "Styler", "stylers")
    skip = vc.flag("skip_forwards")
    vc.expected = lambda: [("plugin", p) for p in plugins or []]
    o = vc.run(fn, vc.cfg, vc.schema, plugins=plugins, stylers=stylers, skip_forwards=skip)
    if not vc.returns(o):
        return
    vc.cover("generated")
    vc.equal("every plugin once, in order", vc.log, vc.expected())
    want = stage_output(vc, "imports") + stage_output(vc, "helpers")
    for p in plugins or []:
        want += output(vc, p)
    if not skip:
        want += stage_output(vc, "rebuilds")
    vc.equal("imports and helpers, then the plugins in order, then the rebuilds unless skipped", o.value, want)


def stage_output(vc, label):
    return VList(list(pure(vc.e, label, Seq(AST), vc.cfg).chunks))


def fails(vc, who, label):
    return vc.e.fork(zbool(pure(vc.e, label, BOOL, who)))


def output(vc, p):
    return pure(vc.e, "plugin_output", Seq(AST), p)


def failing(vc):
    watch(vc)
    vc.e.ghost["faulty"] = FAILURES[0]
    for i in range(1, len(FAILURES)):
        if vc.flag(f"kind{i}"):
            vc.e.ghost["faulty"] = FAILURES[i]
            break


def reports(vc, o, component, stages, label):
    """the error names the component and keeps the cause"""
    cause = vc.e.ghost.get("raised")
    if cause is None:
        if vc.returns(o):
            for s in stages:
                vc.ok("no failure is passed over", not fails(vc, s, label))
        return
    vc.cover("failed")
    vc.ok("generation stops", not o.ok)
    if not o.ok:
        vc.ok("with a generation error", isinstance(o.exc, M.GenerationError))
        vc.ok("that is not the failure itself", o.exc is not cause)
        vc.ok("the failing component is named", component in str(o.exc.args))
        vc.ok("the cause is kept", o.exc.__cause__ is cause)
        vc.ok("the message is kept", "reason of the failure" in str(o.exc.args))


@unit("run.generate_ast.failing", P + "generate_ast", ["C09"], contracts=STAGES)
def generate_ast_failing(vc, fn):
    failing(vc)
    vc.cfg, vc.schema = config(vc), vc.obj("Schema", "schema")
    plugins = vc.new(Seq(Cls("Plugin")), "plugins")
    vc.expected = lambda: [("plugin", p) for p in plugins]
    o = vc.run(fn, vc.cfg, vc.schema, plugins=plugins)
    reports(vc, o, "AnyPlugin", plugins, "plugin_fails")


@unit("run.parse_ast", P + "parse_ast", ["C09"])
def parse_ast(vc, fn):
    watch(vc)
    vc.cfg = config(vc)
    tree = vc.obj("Tree", "tree")
    parsers = maybe(vc, "Parser", "parsers")
    o = vc.run(fn, vc.cfg, tree, parsers=parsers)
    if not vc.returns(o):
        return
    vc.cover("parsed")
    vc.equal("every parser once, in order", vc.log, [("parser", p) for p in parsers or []])
    for p in parsers or []:
        tree = parsed(vc, p, tree)
    vc.equal("each gets the result of the one before", o.value, tree)


def parsed(vc, p, tree):
    return pure(vc.e, "parser_output", Cls("Tree"), p, tree)


@unit("run.parse_ast.failing", P + "parse_ast", ["C09"])
def parse_ast_failing(vc, fn):
    failing(vc)
    vc.cfg = config(vc)
    parsers = vc.new(Seq(Cls("Parser")), "parsers")
    o = vc.run(fn, vc.cfg, vc.obj("Tree", "tree"), parsers=parsers)
    reports(vc, o, "AnyParser", parsers, "parser_fails")


@unit("run.process_code", P + "process_code", ["C09"])
def process_code(vc, fn):
    watch(vc)
    vc.cfg = config(vc)
    code = vc.new(STR, "code")
    processors = maybe(vc, "Processor", "processors")
    o = vc.run(fn, vc.cfg, code, processors=processors)
    if not vc.returns(o):
        return
    vc.cover("processed")
    vc.equal("every processor once, in order", vc.log, [("processor", p) for p in processors or []])
    for p in processors or []:
        code = processed(vc, p, code)
    vc.equal("each gets the result of the one before", o.value, code)


def processed(vc, p, code):
    return pure(vc.e, "processor_output", STR, p, code)


@unit("run.process_code.failing", P + "process_code", ["C09"])
def process_code_failing(vc, fn):
    failing(vc)
    vc.cfg = config(vc)
    processors = vc.new(Seq(Cls("Processor")), "processors")
    o = vc.run(fn, vc.cfg, vc.new(STR, "code"), processors=processors)
    reports(vc, o, "AnyProcessor", processors, "processor_fails")


# ---------------------------------------------------------------- one project
@external(ast.unparse, "ast.unparse", "a function of the tree")
def x_unparse(eng, tree):
    return pure(eng, "unparsed", STR, tree)


@unit("run.parse_asts_to_string", P + "parse_asts_to_string", ["C09"])
def parse_asts_to_string(vc, fn):
    tree = vc.new(Seq(AST), "tree")
    o = vc.run(fn, tree)
    if vc.returns(o):
        vc.cover("text")
        vc.equal("all statements as one module", o.value, ast.unparse(ast.Module(body=tree, type_ignores=[])))


@contract(P + "generate_ast", proved_by="run.generate_ast")
def c_generate_ast(eng, fn, *a, **k):
    b = bind(fn, a, k)
    note(eng, "generate_ast", b.config, b.schema, b.plugins or VList(), b.stylers or VList(), b.skip_forwards)
    return pure(eng, "generated_tree", Seq(AST), b.config)


@contract(P + "parse_ast", proved_by="run.parse_ast")
def c_parse_ast(eng, fn, *a, **k):
    b = bind(fn, a, k)
    note(eng, "parse_ast", b.ast, b.parsers or VList())
    return pure(eng, "parsed_tree", Seq(AST), b.config)


@contract(P + "parse_asts_to_string", proved_by="run.parse_asts_to_string")
def c_to_string(eng, fn, tree):
    note(eng, "unparse", tree)
    return pure(eng, "text", STR, tree)


@contract(P + "process_code", proved_by="run.process_code")
def c_process_code(eng, fn, *a, **k):
    b = bind(fn, a, k)
    note(eng, "process_code", b.config, b.code, b.processors or VList())
    return pure(eng, "processed_code", STR, b.config)


@unit("run.generate_code", P + "generate_code", ["C09"], contracts=tuple(P + m for m in ("generate_ast", "parse_ast", "parse_asts_to_string", "process_code")))
def generate_code(vc, fn):
    watch(vc)
    cfg, schema = config(vc), vc.obj("Schema", "schema")
    plugins, stylers = vc.new(Seq(Cls("Plugin")), "plugins"), vc.new(Seq(Cls("Styler")), "stylers")
    parsers, processors = vc.new(Seq(Cls("Parser")), "parsers"), vc.new(Seq(Cls("Processor")), "processors")
    o = vc.run(fn, cfg, schema, plugins=plugins, stylers=stylers, parsers=parsers, processors=processors)
    if not vc.returns(o):
        return
    vc.cover("generated")
    tree, parsed_, code = stages(vc, cfg)
    vc.equal("plugins, then parsers, then processors, each on the result of the stage before", vc.log, [
        ("generate_ast", cfg, schema, plugins, stylers, cfg.skip_forwards),
        ("parse_ast", tree, parsers),
        ("unparse", parsed_),
        ("process_code", cfg, pure_text(vc, parsed_), processors),
    ])
    vc.equal("the processed code", o.value, code)


def stages(vc, cfg):
    return pure(vc.e, "generated_tree", Seq(AST), cfg), pure(vc.e, "parsed_tree", Seq(AST), cfg), pure(vc.e, "processed_code", STR, cfg)


def pure_text(vc, tree):
    return pure(vc.e, "text", STR, tree)


# ---------------------------------------------------------------- plugins, stylers, parsers and processors of a project
PROJECT = lambda: model_domain(config_mod.GraphQLProject)


@external(M.get_console, "rich.get_console", "printing has no effect on generation")
def x_console(eng):
    return FakeConsole()


@external(M.escape, "rich.markup.escape", "makes any text safe to show")
def x_escape(eng, text):
    return pure(eng, "escaped", STR, text)


DOMAINS[model_domain(config_mod.ConfigProxy)]["attrs"]["*"]["model_dump"] = method(lambda eng, self: pure(eng, "dumped", ANY, self))


@contract(P + "instantiate", proved_by="run.instantiate")
def c_instantiate(eng, fn, module_path, **k):
    return pure(eng, "instance", ANY, module_path, k["config"], k["log"])


@contract(P + "build_schema_from_schema_type", proved_by="sources.build_schema")
def c_build_schema(eng, fn, *a, **k):
    b = bind(fn, a, k)
    if eng.fork(zbool(pure(eng, "schema_unavailable", BOOL, b.schema, b.allow_introspection))):
        blow(eng, Boom, "no schema")
    return pure(eng, "schema_of", Cls("Schema"), b.schema, b.allow_introspection)


@contract(P + "generate_code", proved_by="run.generate_code")
def c_generate_code(eng, fn, *a, **k):
    b = bind(fn, a, k)
    note(eng, "generate_code", b.config, b.schema, b.plugins, b.stylers, b.parsers, b.processors, b.config.documents)
    return pure(eng, "code_of", STR, b.config)


@unit("run.generate", P + "generate", ["C09"], contracts=tuple(P + m for m in ("instantiate", "build_schema_from_schema_type", "generate_code")))
def generate(vc, fn):
    watch(vc)
    vc.e.ghost["vc"] = None
    p = vc.obj(PROJECT(), "project")
    log = vc.obj("any", "log")
    t = p.extensions.turms
    documents = t.documents or p.documents
    o = vc.run(fn, p, log)
    try:
        schema = M.build_schema_from_schema_type(p.schema_url, allow_introspection=t.allow_introspection)
    except Boom:
        vc.ok("no code without a schema", not o.ok)
        return
    if not vc.returns(o):
        return
    vc.cover("generated")
    made = lambda configs: [M.instantiate(c.type, config=c.model_dump(), log=log) for c in configs]
    vc.equal("everything configured takes part, once and in order", vc.log,
             [("generate_code", t, schema, made(t.plugins), made(t.stylers), made(t.parsers), made(t.processors), documents)])
    vc.equal("the code and the schema", o.value, (code_of(vc, t), schema))


def code_of(vc, t):
    return pure(vc.e, "code_of", STR, t)


# ---------------------------------------------------------------- files
@external(os.path.isdir, "os.path.isdir", "a fact about the file system at that moment")
def x_isdir(eng, path):
    return pure(eng, "isdir", BOOL, path)


@external(os.makedirs, "os.makedirs", "creates the folder and changes nothing else")
def x_makedirs(eng, path, *a, **k):
    eng.ghost.setdefault("made", []).append(path)


@external(os.path.join, "os.path.join", "a function of its arguments")
def x_join(eng, *ps):
    return pure(eng, "path_join", STR, *ps)


@external(open, "open", "yields the content of that file, or replaces it by what is written")
def x_open(eng, path, mode="r", encoding=None, **k):
    return FakeFile(path, mode, encoding, pure(eng, "content", Cls("Bytes") if "b" in mode else STR, path))


domain("Bytes", [bytes], {"*": {"decode": method(lambda eng, self, enc="utf-8": pure(eng, "decoded", STR, self, enc))}})


@external(M.print_schema, "graphql.print_schema", "a function of the schema")
def x_print_schema(eng, schema):
    return pure(eng, "sdl", STR, schema)


DOMAINS[PROJECT()]["attrs"]["*"]["model_dump_json"] = method(lambda eng, self, **k: pure(eng, "dumped_json", STR, self))


def file_unit(fnname, make, text):
    @unit("run." + fnname, P + fnname, ["C10"])
    def u(vc, fn):
        watch(vc)
        what, outdir, name_ = make(vc), vc.new(STR, "outdir"), vc.new(STR, "filepath")
        o = vc.run(fn, what, outdir, name_)
        if not vc.returns(o):
            return
        vc.cover("written")
        if not os.path.isdir(outdir):
            vc.ok("a missing folder is created", any(x is outdir for x in vc.e.ghost.get("made", [])))
        path = os.path.join(outdir, name_)
        vc.equal("exactly this file, exactly this text", vc.log, [("write", path, "w", "utf-8", text(what))])
        vc.equal("its path", o.value, path)


file_unit("write_code_to_file", lambda vc: vc.new(STR, "code"), lambda x: x)
def sdl(schema):
    return M.print_schema(schema)


file_unit("write_schema_to_file", lambda vc: vc.obj("Schema", "schema"), sdl)
file_unit("write_project", lambda vc: vc.obj(PROJECT(), "project"), lambda x: x.model_dump_json())


# ---------------------------------------------------------------- all projects
@contract(P + "scan_folder_for_single_config", proved_by="sources.scan_folder_for_single_config")
def c_single_config(eng, fn, folder_path=None):
    return pure(eng, "single_config", STR, folder_path)


@contract(P + "load_projects_from_configpath", proved_by="sources.load_projects_from_configpath")
def c_load_projects(eng, fn, config_path, select=None):
    if eng.fork(zbool(pure(eng, "config_rejected", BOOL, config_path, select))):
        blow(eng, M.GenerationError, "no configuration")
    return pure(eng, "projects", Map(Cls(PROJECT())), config_path, select)


@contract(P + "generate", proved_by="run.generate")
def c_generate(eng, fn, project, log=None):
    if log is not None:
        log(pure(eng, "message", STR, project), level="WARN")
    may_fail(eng, project, "generate_fails", pure(eng, "failure_text", STR, project))
    return (pure(eng, "code_for", STR, project), pure(eng, "schema_for", Cls("Schema"), project))


def writer(label):
    def c(eng, fn, what, outdir, filepath):
        note(eng, label, what, outdir, filepath)
        if eng.ghost.get("faulty") and eng.fork(zbool(pure(eng, label + "_fails", BOOL, what, outdir, filepath))):
            blow(eng, OSError, "disk full")
        return pure(eng, "path_join", STR, outdir, filepath)

    return c


for _m in ("write_code_to_file", "write_schema_to_file", "write_project"):
    contract(P + _m, proved_by="run." + _m)(writer(_m))

FILES = tuple(P + m for m in ("generate", "write_code_to_file", "write_schema_to_file", "write_project"))


def expected(vc, projects, overwrite):
    """the files written for every project, in order; whether some failing project asks for an error"""
    log = []
    asked = False
    for key, p in projects.items():
        bad = True
        t = p.extensions.turms
        if not fails(vc, p, "generate_fails"):
            code, schema = result_of(vc, p)
            where_ = overwrite or t.out_dir
            log.append(("write_code_to_file", code, where_, t.generated_name))
            if not write_fails(vc, "write_code_to_file", code, where_, t.generated_name):
                more = True
                if t.dump_schema:
                    log.append(("write_schema_to_file", schema, t.out_dir, t.schema_name))
                    more = not write_fails(vc, "write_schema_to_file", schema, t.out_dir, t.schema_name)
                if more:
                    bad = False
                    if t.dump_configuration:
                        log.append(("write_project", p, t.out_dir, t.configuration_name))
                        bad = write_fails(vc, "write_project", p, t.out_dir, t.configuration_name)
        if bad and t.exit_on_error:
            asked = True
    return log, asked


def result_of(vc, p):
    return pure(vc.e, "code_for", STR, p), pure(vc.e, "schema_for", Cls("Schema"), p)


def write_fails(vc, label, *a):
    return vc.e.fork(zbool(pure(vc.e, label + "_fails", BOOL, *a)))


@unit("run.gen", P + "gen", ["C10"], contracts=FILES + (P + "scan_folder_for_single_config", P + "load_projects_from_configpath"))
def gen(vc, fn):
    watch(vc)
    vc.e.ghost["faulty"] = Boom
    path, select, overwrite = vc.new(Opt(STR), "filepath"), vc.new(Opt(STR), "project"), vc.new(Opt(STR), "overwrite_path")
    o = vc.run(fn, path, select, False, overwrite)
    try:
        projects = M.load_projects_from_configpath(path if path is not None else M.scan_folder_for_single_config(), select)
    except M.GenerationError:
        vc.ok("nothing is generated without a configuration", not o.ok)
        vc.equal("nothing is written", vc.log, [])
        return
    if not vc.returns(o, "no failure ends the run"):
        return
    vc.cover("run")
    log, _ = expected(vc, projects, overwrite)
    vc.equal("every project that succeeds is written, no other", vc.log, log)


@unit("run.gen.strict", P + "gen", ["C10"], contracts=FILES + (P + "load_projects_from_configpath",))
def gen_strict(vc, fn):
    watch(vc)
    vc.e.ghost["faulty"] = Boom
    path = vc.new(STR, "filepath")
    o = vc.run(fn, path, None, True, None)
    cause = vc.e.ghost.get("raised")
    if cause is not None:
        vc.cover("failed")
        vc.ok("the first failure ends a strict run", not o.ok and isinstance(o.exc, M.GenerationError))
    elif vc.returns(o):
        for key, p in M.load_projects_from_configpath(path, None).items():
            vc.ok("no failure is passed over", not fails(vc, p, "generate_fails"))
