"""contracts of schema, document and configuration loading"""
import glob
import json
import os

import requests
import yaml

import turms.helpers as H
import turms.run as M
from vf.core import *
from vf.core import DOMAINS
from vf.domains import domain, model_domain
from vf.spec import Stub, bind, external, method, pure
from vf.verify import contract, unit

from . import run as R
from .common import *
from .run import Boom, blow, note, watch

HP = "turms.helpers:"
P = "turms.run:"


# ---------------------------------------------------------------- the outside world
@external(glob.glob, "glob.glob", "the paths that match the pattern, in any order")
def x_glob(eng, pattern, recursive=False):
    eng.ghost["recursive"] = recursive
    return VList(list(pure(eng, "matches", Seq(STR), pattern).chunks))


@external(json.loads, "json.loads", "a function of the text")
def x_loads(eng, text):
    return pure(eng, "json", ANY, text)


class Response:
    pass


domain("Response", [Response], {"*": {"status_code": INT, "content": Opt(Cls("Bytes")), "json": method(lambda eng, self: answer(eng, self))}})


def answer(eng, self):
    if eng.fork(zbool(pure(eng, "no_json", BOOL, self))):
        raise ValueError("no json")
    return pure(eng, "answer", Map(ANY), self)


@external(requests.get, "requests.get", "the server's response, or a failure")
def x_get(eng, url, headers=None):
    note(eng, "get", url, headers)
    if eng.fork(zbool(pure(eng, "unreachable", BOOL, url))):
        raise Boom("unreachable")
    return pure(eng, "response", Cls("Response"), url)


@external(requests.post, "requests.post", "the server's response, or a failure")
def x_post(eng, url, data=None, headers=None):
    note(eng, "post", url, data, headers)
    if eng.fork(zbool(pure(eng, "unreachable", BOOL, url))):
        raise Boom("unreachable")
    return pure(eng, "response", Cls("Response"), url)


@external(H.get_introspection_query, "graphql.get_introspection_query", "the standard introspection query")
def x_query(eng):
    return "INTROSPECTION"


# ---------------------------------------------------------------- one file, one url
def text_of(path):
    with open(path, "rb") as f:
        return f.read().decode("utf-8-sig")


@unit("sources.load_dsl_from_file", HP + "load_dsl_from_file", ["C18"])
def load_dsl_from_file(vc, fn):
    path = vc.new(STR, "path")
    o = vc.run(fn, path)
    if vc.returns(o):
        vc.cover("read")
        vc.equal("the whole text of the file", o.value, text_of(path))


@unit("sources.load_introspection_from_file", HP + "load_introspection_from_file", ["C18"])
def load_introspection_from_file(vc, fn):
    path = vc.new(STR, "path")
    o = vc.run(fn, path)
    if vc.returns(o):
        vc.cover("read")
        vc.equal("the content of the file", o.value, json.loads(text_of(path)))


@unit("sources.load_dsl_from_url", HP + "load_dsl_from_url", ["C18"])
def load_dsl_from_url(vc, fn):
    watch(vc)
    url = vc.new(STR, "url")
    headers = {"Authorization": vc.new(STR, "token")} if vc.flag("with_headers") else None
    o = vc.run(fn, url, headers)
    response = None
    try:
        response = requests.get(url)
    except Boom:
        pass
    if response is None or response.status_code != 200 or response.content is None:
        vc.cover("failed")
        vc.ok("an unreadable source is an error", not o.ok and isinstance(o.exc, M.GenerationError))
        return
    if vc.returns(o):
        vc.cover("read")
        vc.equal("the text the server sent", o.value, response.content.decode())
        vc.equal("the configured headers are sent", vc.log, [("get", url, headers or {}), ("get", url, None)])


@unit("sources.load_introspection_from_url", HP + "load_introspection_from_url", ["C18"])
def load_introspection_from_url(vc, fn):
    watch(vc)
    url = vc.new(STR, "url")
    o = vc.run(fn, url, None)
    data = None
    try:
        data = requests.post(url).json()
    except Exception:
        pass
    if data is None or "errors" in data or "data" not in data:
        vc.cover("failed")
        vc.ok("an unreadable source is an error", not o.ok and isinstance(o.exc, M.GenerationError))
        return
    if vc.returns(o):
        vc.cover("read")
        vc.equal("the data the server sent", o.value, data["data"])


# ---------------------------------------------------------------- files of a pattern
@contract(HP + "load_dsl_from_file", proved_by="sources.load_dsl_from_file")
def c_file(eng, fn, path):
    return pure(eng, "file_text", STR, path)


@contract(HP + "load_introspection_from_file", proved_by="sources.load_introspection_from_file")
def c_ifile(eng, fn, path):
    return pure(eng, "file_data", ANY, path)


def matches(pattern):
    return sorted(glob.glob(pattern, recursive=True))


@unit("sources.load_dsl_from_glob", HP + "load_dsl_from_glob", ["C18"], contracts=(HP + "load_dsl_from_file",))
def load_dsl_from_glob(vc, fn):
    pattern = vc.new(STR, "pattern")
    o = vc.run(fn, pattern)
    vc.ok("sub folders are searched", vc.e.ghost.get("recursive") is True)
    files = matches(pattern)
    if len(files) == 0:
        vc.cover("nothing")
        vc.ok("an empty match is an error", not o.ok and isinstance(o.exc, M.GenerationError))
        return
    if vc.returns(o):
        vc.cover("read")
        vc.equal("every file once, sorted, kept apart", o.value, "\n".join(H.load_dsl_from_file(f) for f in files))


@unit("sources.load_introspection_from_glob", HP + "load_introspection_from_glob", ["C18"], contracts=(HP + "load_introspection_from_file",))
def load_introspection_from_glob(vc, fn):
    pattern = vc.new(STR, "pattern")
    o = vc.run(fn, pattern)
    files = matches(pattern)
    if len(files) != 1:
        vc.cover("not one")
        vc.ok("none or several files are an error", not o.ok and isinstance(o.exc, M.GenerationError))
        return
    if vc.returns(o):
        vc.cover("read")
        vc.equal("the one file", o.value, H.load_introspection_from_file(files[0]))


# ---------------------------------------------------------------- schemas
def source(label, desc, error):
    def c(eng, fn, *a, **k):
        vals = [x for x in a if x is not None]
        if eng.fork(zbool(pure(eng, label + "_fails", BOOL, *vals))):
            raise error("unreadable")
        return pure(eng, label, desc, *vals)

    return c


for _m, _d in [("load_dsl_from_url", STR), ("load_dsl_from_glob", STR), ("load_introspection_from_url", ANY), ("load_introspection_from_glob", ANY)]:
    contract(HP + _m, proved_by="sources." + _m)(source(_m, _d, M.GenerationError))
LOADERS = tuple(HP + m for m in ("load_dsl_from_url", "load_dsl_from_glob", "load_introspection_from_url", "load_introspection_from_glob"))


@external(M.parse, "graphql.parse", "the document the text denotes, or a syntax error")
def x_parse(eng, text):
    note(eng, "parse", text)
    t = VList(list(eng.ghost["log"].chunks))
    n = sum(1 for c in t.chunks)
    if eng.fork(zbool(pure(eng, "syntax_error", BOOL, n))):
        raise Boom("syntax error")
    return pure(eng, "parsed", Cls("Document"), n)


@external(M.build_ast_schema, "graphql.build_ast_schema", "the schema a document defines")
def x_build(eng, doc, **k):
    note(eng, "build", doc)
    return pure(eng, "built", Cls("Schema"), doc)


@external(M.build_client_schema, "graphql.build_client_schema", "the schema an introspection result describes")
def x_client(eng, data):
    return pure(eng, "client_schema", Cls("Schema"), data)


HEADERS = lambda: Cls(model_domain(config_mod.AdvancedSchemaField))


def one_source(vc, o, allow, dsl, introspection):
    """the result for exactly one source: its SDL, else its introspection where allowed"""
    try:
        sdl = dsl()
        ok = not vc.e.fork(zbool(first_syntax_error(vc)))
    except M.GenerationError:
        ok = False
    if ok:
        if vc.returns(o):
            vc.cover("sdl")
            vc.equal("the text of the source", vc.log, [("parse", sdl), ("build", first_parsed(vc))])
            vc.equal("its schema", o.value, M.build_ast_schema(first_parsed(vc)))
        return
    if not allow:
        vc.cover("error")
        vc.ok("an unreadable source is an error", not o.ok)
        return
    try:
        data = introspection()
    except M.GenerationError:
        vc.ok("an unreadable source is an error", not o.ok)
        return
    if vc.returns(o):
        vc.cover("introspection")
        vc.equal("the schema the source describes", o.value, M.build_client_schema(data))


def first_syntax_error(vc):
    return pure(vc.e, "syntax_error", BOOL, 1)


def first_parsed(vc):
    return pure(vc.e, "parsed", Cls("Document"), 1)


BS = P + "build_schema_from_schema_type"


@unit("sources.build_schema[path]", BS, ["C18"], contracts=LOADERS)
def build_path(vc, fn):
    watch(vc)
    s, allow = vc.new(STR, "schema"), vc.flag("allow_introspection")
    o = vc.run(fn, s, allow_introspection=allow)
    if s.startswith("http"):
        one_source(vc, o, allow, lambda: M.load_dsl_from_url(s), lambda: M.load_introspection_from_url(s))
    else:
        one_source(vc, o, allow, lambda: M.load_dsl_from_glob(s), lambda: M.load_introspection_from_glob(s))


@unit("sources.build_schema[urls]", BS, ["C18"], contracts=LOADERS)
def build_urls(vc, fn):
    watch(vc)
    s, allow = vc.new(Map(HEADERS()), "schema"), vc.flag("allow_introspection")
    o = vc.run(fn, s, allow_introspection=allow)
    if len(s.values()) == 1:
        key, value = list(s.items())[0]
        one_source(vc, o, allow, lambda: M.load_dsl_from_url(key, value.headers), lambda: M.load_introspection_from_url(key, value.headers))
        return
    if not o.ok:
        return
    vc.cover("several")
    texts = [M.load_dsl_from_url(k, v.headers) for k, v in s.items()]
    vc.equal("every source once, in order, kept apart", vc.log, [("parse", "\n".join(texts)), ("build", first_parsed(vc))])


class Source:
    pass


class UrlSource(dict):
    pass


class PathSource(str):
    pass


domain("Source", [UrlSource, PathSource], {
    "UrlSource": {"items": method(lambda eng, self: pure(eng, "urls_of", Map(HEADERS()), self).items())},
    "PathSource": {"startswith": method(lambda eng, self, p: pure(eng, "starts_with", BOOL, self, p))},
})


def text(vc, label, *a):
    return pure(vc.e, label, STR, *a)


@unit("sources.build_schema[list]", BS, ["C18"], contracts=LOADERS + (BS,))
def build_list(vc, fn):
    watch(vc)
    s, allow = vc.new(Seq(Cls("Source")), "schema"), vc.flag("allow_introspection")
    o = vc.run(fn, s, allow_introspection=allow)
    if len(s) == 1:
        vc.cover("one")
        try:
            want = M.build_schema_from_schema_type(s[0], allow_introspection=allow)
        except Boom:
            vc.ok("an unreadable source is an error", not o.ok)
            return
        if vc.returns(o):
            vc.equal("the schema of the only source", o.value, want)
        return
    if not o.ok:
        return
    vc.cover("several")
    texts = []
    for x in s:
        if isinstance(x, dict):
            for k, v in x.items():
                texts.append(text(vc, "load_dsl_from_url", k, v.headers))
        elif x.startswith("http") or x.startswith("https"):
            texts.append(text(vc, "load_dsl_from_url", x))
        else:
            texts.append(text(vc, "load_dsl_from_glob", x))
    vc.equal("every source once, in order, kept apart", vc.log, [("parse", "\n".join(texts)), ("build", first_parsed(vc))])


@unit("sources.build_schema[other]", BS, ["C18"])
def build_other(vc, fn):
    watch(vc)
    o = vc.run(fn, 5)
    vc.cover("rejected")
    vc.ok("an unsupported type is an error", not o.ok)


# ---------------------------------------------------------------- configuration files
@unit("sources.get_file_loader", P + "get_file_loader", ["C18"])
def get_file_loader(vc, fn):
    name = vc.new(STR, "file_name")
    o = vc.run(fn, name)
    kind = name.lower().split(".")[-1]
    for kinds, loader in ((("yaml", "yml"), yaml.safe_load), (("toml",), M.toml_loader), (("json",), M.json_loader)):
        if kind in kinds:
            vc.cover(kinds[0])
            if vc.returns(o):
                vc.ok("the loader of the file type", o.value is loader)
            return
    vc.cover("unsupported")
    vc.ok("an unsupported type is an error", not o.ok and isinstance(o.exc, M.GenerationError))


@external(os.listdir, "os.listdir", "the names in the folder, each once, in any order")
def x_listdir(eng, path):
    return VList(list(pure(eng, "entries", Seq(STR), path).chunks))


@external(os.getcwd, "os.getcwd", "the working folder")
def x_getcwd(eng):
    return pure(eng, "cwd", STR)


NAMES = ["graphql.config", ".graphqlrc"]
KINDS = ["yaml", "yml", "toml", "json"]


def recognised(name):
    return name.lower() in [n + "." + k for n in NAMES for k in KINDS]


@unit("sources.scan_folder_for_configs", P + "scan_folder_for_configs", ["C18"])
def scan_folder_for_configs(vc, fn):
    folder = vc.new(Opt(STR), "folder")
    o = vc.run(fn, folder_path=folder)
    if not vc.returns(o):
        return
    vc.cover("scanned")
    where = os.getcwd() if folder is None else folder
    vc.equal("every recognised file of the folder", o.value, [os.path.join(where, n) for n in os.listdir(where) if recognised(n)])


@contract(P + "scan_folder_for_configs", proved_by="sources.scan_folder_for_configs")
def c_configs(eng, fn, folder_path=None):
    return VList(list(pure(eng, "configs", Seq(STR), *([folder_path] if folder_path is not None else [])).chunks))


@unit("sources.scan_folder_for_single_config", P + "scan_folder_for_single_config", ["C18"], contracts=(P + "scan_folder_for_configs",))
def scan_folder_for_single_config(vc, fn):
    folder = vc.new(Opt(STR), "folder")
    o = vc.run(fn, folder_path=folder)
    found = M.scan_folder_for_configs(folder)
    if len(found) != 1:
        vc.cover("none or several")
        vc.ok("none or several is an error", not o.ok and isinstance(o.exc, M.GenerationError))
        return
    vc.cover("one")
    if vc.returns(o):
        vc.equal("the one that is there", o.value, found[0])


class Loaded:
    """what a configuration file holds: nobody looks into it but pydantic"""

    def __init__(self, t):
        self.t = t

    def __contains__(self, k):
        return bool(pure(ENG(), "has_" + k, BOOL, self.t))

    def keys(self):
        return ["__loaded__"]

    def __getitem__(self, k):
        return self.t


def content(eng, file):
    return Loaded(pure(eng, "loaded", ANY, file.content))


@contract(P + "get_file_loader", proved_by="sources.get_file_loader")
def c_loader(eng, fn, name):
    if eng.fork(zbool(pure(eng, "unsupported", BOOL, name))):
        raise M.GenerationError("unsupported")
    return Stub(content)


class Invalid(Exception):
    pass


PROJECT = lambda: Cls(model_domain(config_mod.GraphQLProject))
domain("Multi", [config_mod.GraphQLConfigMultiple], {"*": {"projects": Map(PROJECT())}})


@external(os.path.split, "os.path.split", "a function of the path")
def x_split(eng, path):
    return (pure(eng, "path_head", STR, path), pure(eng, "path_tail", STR, path))


def reject(eng, label, t):
    if eng.fork(zbool(pure(eng, label, BOOL, t))):
        config_mod.GeneratorConfig.model_validate(5)


@external(config_mod.GraphQLConfigMultiple, "turms.config.GraphQLConfigMultiple", "pydantic: the projects the mapping describes, or a ValidationError")
def x_multiple(eng, **k):
    reject(eng, "not_projects", k["__loaded__"])
    return pure(eng, "multi", Cls("Multi"), k["__loaded__"])


@external(config_mod.GraphQLConfigSingle, "turms.config.GraphQLConfigSingle", "pydantic: the project the mapping describes, or a ValidationError")
def x_single(eng, **k):
    reject(eng, "no_project", k["__loaded__"])
    return pure(eng, "single", PROJECT(), k["__loaded__"])


@unit("sources.load_projects_from_configpath", P + "load_projects_from_configpath", ["C18"], contracts=(P + "get_file_loader",))
def load_projects(vc, fn):
    path, select = vc.new(STR, "path"), vc.new(Opt(STR), "select")
    o = vc.run(fn, path, select)
    try:
        loaded = M.get_file_loader(path)(open(path, "r", encoding="utf-8"))
    except M.GenerationError:
        vc.cover("unsupported")
        vc.ok("an unsupported type is an error", not o.ok and isinstance(o.exc, M.GenerationError))
        return
    try:
        if "projects" in loaded:
            projects = config_mod.GraphQLConfigMultiple(**loaded).projects
        else:
            projects = {"default": config_mod.GraphQLConfigSingle(**loaded)}
    except M.ValidationError:
        vc.cover("invalid")
        vc.ok("a file that describes no projects is an error", not o.ok and isinstance(o.exc, M.GenerationError))
        return
    if not select:
        if vc.returns(o):
            vc.cover("all")
            vc.equal("every project it defines", o.value, projects)
        return
    chosen = {k: p for k, p in projects.items() if k == select}
    if len(chosen) == 0:
        vc.cover("missing")
        vc.ok("selecting a project that is not there is an error", not o.ok)
        return
    if vc.returns(o):
        vc.cover("selected")
        vc.equal("exactly the selected one", o.value, chosen)


# ---------------------------------------------------------------- configured components
@contract(HP + "import_class", note="python's import: the attribute of that module, or an ImportError / AttributeError")
def c_import_class(eng, fn, module_path, class_name):
    if eng.fork(zbool(pure(eng, "no_module", BOOL, module_path))):
        raise ImportError("no module")
    if eng.fork(zbool(pure(eng, "no_attribute", BOOL, module_path, class_name))):
        raise AttributeError("no attribute")
    return pure(eng, "attribute", ANY, module_path, class_name)


@unit("sources.import_string", HP + "import_string", ["C09"], contracts=(HP + "import_class",))
def import_string(vc, fn):
    path = vc.new(STR, "dotted_path")
    o = vc.run(fn, path)
    if not "." in path:
        vc.cover("no module")
        vc.ok("what cannot be imported is an import error", not o.ok and isinstance(o.exc, ImportError))
        return
    module, attribute = path.rsplit(".", 1)
    try:
        want = H.import_class(module, attribute)
    except (ImportError, AttributeError):
        vc.cover("missing")
        vc.ok("what cannot be imported is an import error", not o.ok and isinstance(o.exc, ImportError))
        return
    if vc.returns(o):
        vc.cover("imported")
        vc.equal("what the path names", o.value, want)


@contract(HP + "import_string", proved_by="sources.import_string")
def c_import_string(eng, fn, path):
    return Stub(lambda eng, **k: (path, k))


@unit("run.instantiate", P + "instantiate", ["C09"], contracts=(HP + "import_string",))
def instantiate(vc, fn):
    path, cfg, log = vc.new(STR, "module_path"), vc.new(ANY, "config"), vc.obj("any", "log")
    o = vc.run(fn, path, config=cfg, log=log)
    if vc.returns(o):
        vc.cover("made")
        vc.equal("the component the path names, made with its configuration", o.value, (path, {"config": cfg, "log": log}))
