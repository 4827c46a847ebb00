"""pipeline stages, project runs, loading and validation (C09 C10 C18 C23)"""
import ast, copy, http.server, json, os, random, threading

from . import fakes, gen
from .pipe import Bad, need, quiet, scratch

SDL = "type Query { a: Int\n b: String! }"
DOCS = ["query One { a }", "query Two { b }\nquery Three { a b }"]
FULL = ["enums", "inputs", "fragments", "operations", "funcs"]


# ---------------------------------------------------------------- C09

def stages_case(seed):
    r = random.Random(seed * 3 + 1)
    n = 0
    st = {}
    for kind, cls, mx in (("plugins", "Plug", 4), ("parsers", "Parse", 3), ("processors", "Proc", 3)):
        xs = []
        for _ in range(r.randint(0, mx)):
            n += 1
            c = {"type": f"bounded.fakes.{cls}{r.choice('AB')}", "tag": f"t{n}"}
            if kind == "plugins":
                c["n"] = r.randint(0, 3)
                if r.random() < 0.5:
                    c["imports"] = r.sample(["typing.Optional", "json", "pydantic.Field", "os.path", "typing.List"], r.randint(1, 3))
                if r.random() < 0.4:
                    c["builtins"] = r.sample(["UNSET", "Deprecated", "GraphQLDefault"], r.randint(1, 2))
                if r.random() < 0.5:
                    c["forwards"] = r.sample(["Zed", "Alpha", "Mid"], r.randint(1, 3))
            elif kind == "parsers":
                c["how"] = r.choice(["append", "prepend", "reverse", "same", "drop", "append"])
            else:
                c["how"] = r.choice(["append", "prepend", "upper", "same", "append"])
            xs.append(c)
        st[kind] = xs
    allc = [c for k in st for c in st[k]]
    if allc and r.random() < 0.6:
        for c in r.sample(allc, min(len(allc), r.choice([1, 1, 2]))):
            c["fail"] = r.choice(sorted(fakes.EXC))
    return {"stages": st, "skip": r.random() < 0.4, "version": r.choice(["v2", "v2", "v1"]), "via": r.choice(["code", "project"])}


def _apply(how, tag, x, parser):
    if parser:
        new = fakes.show([fakes.assign(tag)])
        return {"append": x + new, "prepend": new + x, "reverse": x[::-1], "drop": [], "same": x}[how]
    return {"append": x + f"\n# {tag}", "prepend": f"# {tag}\n" + x, "upper": x.upper(), "same": x}[how]


def check_stages(case):
    from turms import run
    from turms.config import GeneratorConfig, GraphQLProject
    from turms.errors import GenerationError
    from turms.helpers import import_string

    st = case["stages"]
    cfg = {"skip_forwards": case["skip"], "pydantic_version": case["version"]}
    fakes.LOG.clear()
    fakes.FAIL.clear()
    order = [("plugin", c) for c in st["plugins"]] + [("parser", c) for c in st["parsers"]] + [("processor", c) for c in st["processors"]]
    failing = next((i for i, (k, c) in enumerate(order) if c.get("fail")), None)
    exc = out = None
    with scratch() as d:
        try:
            if case["via"] == "code":
                inst = lambda c: import_string(c["type"])(config=copy.deepcopy(c))
                from graphql import build_schema

                out = run.generate_code(
                    GeneratorConfig(**cfg), build_schema(SDL), log=quiet,
                    **{k: [inst(c) for c in st[k]] for k in st})
            else:
                p = os.path.join(d, "s.graphql")
                with open(p, "w") as f:
                    f.write(SDL)
                pr = GraphQLProject(**{"schema": p, "extensions": {"turms": {**cfg, **copy.deepcopy(st)}}})
                out, schema = run.generate(pr, log=quiet)
                need(set(schema.query_type.fields) == {"a", "b"}, "generate returned another schema")
        except Exception as e:
            exc = e
    log = list(fakes.LOG)
    want = order if failing is None else order[: failing + 1]
    need([(k, t) for k, t, _ in log] == [(k, c["tag"]) for k, c in want],
         f"stages ran {[(k, t) for k, t, _ in log]}, configured {[(k, c['tag']) for k, c in want]}")
    if failing is not None:
        c = order[failing][1]
        name = c["type"].split(".")[-1]
        need(exc is not None, f"{name} raised {c['fail']} but generation succeeded")
        need(isinstance(exc, GenerationError), f"{name} raised {c['fail']}: {type(exc).__name__} instead of a generation error")
        need(name in str(exc), f"the error does not name {name}: {str(exc)[:80]}")
        seen, e = [], exc
        while e is not None and e not in seen:
            seen.append(e)
            e = e.__cause__
        need(fakes.FAIL["exc"] in seen, "the cause is lost")
    else:
        if exc is not None:
            raise exc
    # what every stage received
    n_pl = len(st["plugins"])
    if failing is not None and failing < n_pl:
        return 1
    imports, builtins, forwards = set(), set(), set()
    for c in st["plugins"]:
        imports |= set(c.get("imports", ()))
        builtins |= set(c.get("builtins", ()))
        forwards |= set(c.get("forwards", ()))
    body = [f"{c['tag']}_{k}" for c in st["plugins"] for k in range(c["n"])]
    first = None
    for k, t, x in log:
        if k == "parser":
            first = x
            break
    cur = None
    if first is not None:
        cur = first
    elif failing is None and not st["processors"]:
        cur = fakes.show(ast.parse(out).body)
    elif any(k == "processor" for k, _, _ in log):
        src = next(x for k, _, x in log if k == "processor")
        cur = fakes.show(ast.parse(src).body)
    if cur is not None:
        check_layout(cur, imports, builtins, forwards, body, case)
    x = first
    for (k, t, got), (_, c) in zip(log, order):
        if k == "parser":
            need(got == x, f"parser {t} received {len(got)} statements, the previous stage produced {len(x)}, or other ones")
            x = _apply(c["how"], c["tag"], x, True)
    text = None
    for (k, t, got), (_, c) in zip(log, order):
        if k == "processor":
            if text is None:
                if x is not None:
                    need(fakes.show(ast.parse(got).body) == x, "the first processor received another module")
                text = got
            need(got == text, f"processor {t} received something else than the previous result")
            text = _apply(c["how"], c["tag"], text, False)
    if failing is None:
        if text is not None:
            need(out == text, "the result is not the last processor's result")
        elif x is not None:
            need(fakes.show(ast.parse(out).body) == x, "the result is not the last parser's result")
    return len(log) + 1


def check_layout(dump, imports, builtins, forwards, body, case):
    k = [next((i for i, d in enumerate(dump) if f"Name(id='{t}'" in d and d.startswith("Assign")), None) for t in body]
    need(None not in k, "a plugin's output is missing")
    need(k == sorted(k) and len(set(k)) == len(k), "plugin outputs are not in plugin order")
    if k:
        need(k == list(range(k[0], k[0] + len(k))), "foreign statements between plugin outputs")
    lo, hi = (k[0], k[-1] + 1) if k else (None, None)
    got_i = {}
    for i, s in enumerate(dump):
        if s.startswith(("Import(", "ImportFrom(")):
            t = ast.parse("")  # the names inside
            got_i[i] = s
    for name in imports:
        mod, _, leaf = name.rpartition(".")
        hit = [i for i, s in got_i.items() if f"alias(name='{leaf}')" in s and (f"module='{mod}'" in s if mod else s.startswith("Import("))]
        need(len(hit) == 1, f"import {name} emitted {len(hit)} times")
        need(lo is None or hit[0] < lo, f"import {name} after plugin output")
    for b in builtins:
        cname = {"UNSET": "UnsetType"}.get(b, b)
        hit = [i for i, s in enumerate(dump) if s.startswith(f"ClassDef(name='{cname}'")]
        need(len(hit) == 1, f"helper {cname} emitted {len(hit)} times")
        need(lo is None or hit[0] < lo, f"helper {cname} after plugin output")
    meth = "model_rebuild" if case["version"] == "v2" else "update_forward_refs"
    calls = [i for i, s in enumerate(dump) if s.startswith("Expr(value=Call(func=Attribute")]
    names = []
    for i in calls:
        nm = next((f for f in forwards if f"Name(id='{f}'" in dump[i]), None)
        need(nm is not None and f"attr='{meth}'" in dump[i], "unexpected call statement")
        names.append(nm)
    want = set() if case["skip"] else forwards
    need(set(names) == want and len(names) == len(want), f"forward rebuilds for {names}, expected {sorted(want)}")
    need(calls == list(range(len(dump) - len(calls), len(dump))), "forward rebuilds are not last")


# ---------------------------------------------------------------- C10

def projects_case(seed):
    r = random.Random(seed * 5 + 2)
    ps = []
    for i in range(r.randint(1, 4)):
        ps.append({
            "name": r.choice(["alpha", "beta", "p.q", "x[/b]y", "de fault"]) + str(i),
            "fault": r.choice([None, None, None, "schema", "sdl", "docs", "nodocs", "plugin", "parser", "processor", "scalar"]),
            "exc": r.choice(sorted(fakes.EXC)),
            "exit": r.random() < 0.6,
            "dump_schema": r.random() < 0.5,
            "dump_conf": r.random() < 0.5,
            "existing": r.random() < 0.6,
            "mkdir": r.random() < 0.5,
            "sub": r.random() < 0.3,
            "names": r.random() < 0.5,
            "uni": r.random() < 0.3,
        })
    return {"projects": ps, "via": r.choice(["cli", "cli", "gen", "main"]), "select": r.choice([None, 0, -1]), "strict": r.random() < 0.4}


def _snapshot(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def check_projects(case):
    import click
    from graphql import print_schema
    from rich import console, get_console
    from turms import run
    from turms.cli import main
    from turms.config import GraphQLConfigMultiple
    from turms.errors import GenerationError

    with scratch() as d:
        src, outd = os.path.join(d, "src"), os.path.join(d, "out")
        os.makedirs(src)
        os.makedirs(outd)
        conf, dirs, names = {}, {}, {}
        for i, p in enumerate(case["projects"]):
            s = os.path.join(src, f"s{i}.graphql")
            extra = "\n" + ('"""\u00e4\u4e2d"""' if p["uni"] else "") + f"\nenum E{i} {{ A B }}\nscalar Odd{i}\ntype Query {{ a: Int b(e: E{i}): E{i} c: Odd{i} }}"
            with open(s, "w", encoding="utf-8") as f:
                f.write("type Query {" if p["fault"] == "sdl" else extra)
            q = os.path.join(src, f"d{i}.graphql")
            field = {"docs": "zzz", "scalar": "c"}.get(p["fault"], "a")
            with open(q, "w") as f:
                f.write(f"query Op{i} {{ {field} b(e: A) }}")
            dirs[p["name"]] = os.path.join(outd, f"o{i}", "deep") if p["sub"] else os.path.join(outd, f"o{i}")
            nm = {"generated_name": f"gen{i}.py", "schema_name": f"sch{i}.graphql", "configuration_name": f"conf{i}.json"} if p["names"] else {}
            names[p["name"]] = {"generated_name": "schema.py", "schema_name": "schema.graphql", "configuration_name": "project.json", **nm}
            t = {
                "out_dir": dirs[p["name"]], **nm,
                "exit_on_error": p["exit"], "dump_schema": p["dump_schema"], "dump_configuration": p["dump_conf"],
                "plugins": [{"type": f"turms.plugins.{m}"} for m in ("enums.EnumsPlugin", "operations.OperationsPlugin")],
                "stylers": [{"type": "turms.stylers.default.DefaultStyler"}],
                "scalar_definitions": {} if p["fault"] == "scalar" else {f"Odd{i}": "str"},
            }
            for k, cls in (("plugin", "PlugA"), ("parser", "ParseA"), ("processor", "ProcA")):
                if p["fault"] == k:
                    t.setdefault(k + "s", []).append({"type": "bounded.fakes." + cls, "tag": "x", "fail": p["exc"]})
            conf[p["name"]] = {"schema": os.path.join(src, "missing*.graphql") if p["fault"] == "schema" else s,
                               "documents": os.path.join(src, "none*.graphql") if p["fault"] == "nodocs" else q,
                               "extensions": {"turms": t}}
            if p["existing"]:
                os.makedirs(dirs[p["name"]])
                for n in names[p["name"]].values():
                    with open(os.path.join(dirs[p["name"]], n), "w") as f:
                        f.write("old " * 5000 + n)
                with open(os.path.join(dirs[p["name"]], "other.txt"), "w") as f:
                    f.write("mine")
        before = _snapshot(outd)
        expected = {}
        for p in case["projects"]:
            try:
                pr = GraphQLConfigMultiple(projects=copy.deepcopy(conf)).projects[p["name"]]
                expected[p["name"]] = run.generate(pr, log=quiet)
                need(p["fault"] is None, f"a project with a {p['fault']} fault was generated")
            except Bad:
                raise
            except Exception:
                need(p["fault"] is not None, f"project {p['name']} cannot be generated")
        need(_snapshot(outd) == before, "generating code wrote files")
        projects = GraphQLConfigMultiple(projects=copy.deepcopy(conf)).projects
        exc = None
        con = get_console()
        old = con.__dict__.copy()
        con.__dict__.update(console.Console(file=open(os.devnull, "w"), width=120).__dict__)
        try:
            if case["via"] == "cli":
                main.generate_projects(projects)
            elif case["via"] == "main":
                from click.testing import CliRunner

                cf = os.path.join(src, "conf.json")
                with open(cf, "w") as f:
                    json.dump({"projects": conf}, f)
                sel = [case["projects"][case["select"]]["name"]] if case["select"] is not None else []
                res = CliRunner().invoke(main.cli, ["gen", "--config", cf, *sel])
                if res.exit_code:
                    exc = click.ClickException(res.output) if isinstance(res.exception, SystemExit) else res.exception
                if sel:
                    case = {**case, "projects": [case["projects"][case["select"]]]}
            else:
                cf = os.path.join(src, "conf.json")
                with open(cf, "w") as f:
                    json.dump({"projects": conf}, f)
                run.gen(cf, strict=case["strict"])
        except Exception as e:
            exc = e
        finally:
            con.__dict__.update(old)
        after = _snapshot(outd)
        want = dict(before)
        bad = False
        for p in case["projects"]:
            n = p["name"]
            rel = os.path.relpath(dirs[n], outd)
            if p["fault"]:
                bad = bad or (p["exit"] if case["via"] != "gen" else case["strict"])
                if case["via"] == "gen" and case["strict"]:
                    break
                continue
            code, schema = expected[n]
            want[os.path.join(rel, names[n]["generated_name"])] = code.encode()
            if p["dump_schema"]:
                want[os.path.join(rel, names[n]["schema_name"])] = print_schema(schema).encode()
            if p["dump_conf"]:
                k = os.path.join(rel, names[n]["configuration_name"])
                need(k in after and after[k] != before.get(k), "no configuration dump")
                got = json.loads(after[k])
                need(got["documents"] == conf[n]["documents"] and got["extensions"]["turms"]["out_dir"] == dirs[n], "the configuration dump differs")
                want[k] = after[k]
        for k in sorted(set(want) | set(after)):
            need(k in after, f"{k} was not written (fault pattern {[p['fault'] for p in case['projects']]}; {type(exc).__name__}: {str(exc)[:80]})")
            need(k in want, f"unexpected file {k}")
            need(after[k] == want[k], f"{k} holds {after[k][:60]!r}, expected {want[k][:60]!r}")
        if bad:
            need(exc is not None, "a project failed but the run reports success")
            need(isinstance(exc, (click.ClickException, GenerationError)), f"the run fails with {type(exc).__name__}: {str(exc)[:100]}")
        else:
            need(exc is None, f"the run reports {type(exc).__name__}: {str(exc)[:100]} though no project asks for it")
    return len(case["projects"])


# ---------------------------------------------------------------- C18

class _Srv:
    def __enter__(self):
        self.hits = hits = []
        self.pages = pages = {}

        class H(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def do_GET(self):
                hits.append(("GET", self.path, dict(self.headers)))
                code, body = pages.get(self.path, (404, b"no"))
                self.send_response(code)
                self.end_headers()
                self.wfile.write(body)

            def do_POST(self):
                n = int(self.headers.get("Content-Length") or 0)
                self.rfile.read(n)
                hits.append(("POST", self.path, dict(self.headers)))
                code, body = pages.get("POST" + self.path, (404, b"no"))
                self.send_response(code)
                self.end_headers()
                self.wfile.write(body)

        self.s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.url = f"http://127.0.0.1:{self.s.server_port}"
        threading.Thread(target=self.s.serve_forever, args=(0.01,), daemon=True).start()
        return self

    def __exit__(self, *a):
        self.s.shutdown()
        self.s.server_close()


def _piece(i, r):
    kind = r.choice(["type T%d { a: Int }", "enum T%d { A B }", "input T%d { a: Int }", "scalar T%d", "interface T%d { a: Int }"])
    end = r.choice(["\n", "", " # no newline", '\n"""doc"""\nscalar U%d' % i, "\n# c"])
    bom = "\ufeff" if r.random() < 0.15 else ""
    return bom + (kind % i) + end, [f"T{i}"] + ([f"U{i}"] if "scalar U" in end else [])


def sources_case(seed):
    return {"seed": seed}


def check_sources(case):
    """schema sources: files by pattern, lists, urls with headers"""
    from turms import run
    from turms.config import GraphQLProject
    from graphql import build_schema, introspection_from_schema

    r = random.Random(case["seed"] * 7 + 3)
    with scratch() as d, _Srv() as srv:
        names = {"Query"}
        k = 0

        def group(sub, n, with_query):
            nonlocal k
            os.makedirs(os.path.join(d, sub), exist_ok=True)
            q = r.randrange(n) if with_query else -1
            for j in range(n):
                k += 1
                txt, ns = _piece(k, r)
                names.update(ns)
                if j == q:
                    txt = "type Query { a: Int }\n" + txt
                deep = os.path.join(d, sub, r.choice(["", "", "in", "in/er"]))
                os.makedirs(deep, exist_ok=True)
                with open(os.path.join(deep, r.choice("zyxab") + f"{k}.graphql"), "w", encoding="utf-8") as f:
                    f.write(txt)
            return os.path.join(d, sub, "**", "*.graphql")

        def page(with_query, **kw):
            nonlocal k
            k += 1
            txt, ns = _piece(k, r)
            if txt.startswith("\ufeff"):
                txt = txt[1:]
            names.update(ns)
            if with_query:
                txt = "type Query { a: Int }\n" + txt
            srv.pages[f"/s{k}"] = (200, txt.encode())
            return f"{srv.url}/s{k}"

        form = r.choice(["glob", "url", "dict", "dictmany", "list1", "list", "list", "introspect", "jsonfile", "err"])
        headers = {}
        if form == "glob":
            schema = group("g", r.randint(1, 4), True)
        elif form == "url":
            schema = page(True)
        elif form in ("dict", "dictmany"):
            n = 1 if form == "dict" else r.randint(2, 3)
            q = r.randrange(n)
            schema = {}
            for j in range(n):
                u = page(j == q)
                headers[u] = {"X-Key": f"v{j}"}
                schema[u] = {"headers": headers[u]}
        elif form == "list1":
            schema = [group("g", r.randint(1, 3), True) if r.random() < 0.5 else page(True)]
        elif form == "list":
            n = r.randint(2, 4)
            q = r.randrange(n)
            schema = []
            for j in range(n):
                c = r.choice(["glob", "url", "dict"])
                if c == "glob":
                    schema.append(group(f"g{j}", r.randint(1, 3), j == q))
                elif c == "url":
                    schema.append(page(j == q))
                else:
                    m = r.randint(1, 2)
                    dd = {}
                    for t in range(m):
                        u = page(j == q and t == 0)
                        headers[u] = {"X-Key": f"w{j}{t}"}
                        dd[u] = {"headers": headers[u]}
                    schema.append(dd)
        elif form in ("introspect", "jsonfile"):
            k += 1
            txt, ns = _piece(k, r)
            sdl = "type Query { a: Int }\n" + txt.replace("\ufeff", "")
            base = build_schema(sdl)
            # only reachable or all types: introspection lists them all
            names.update(ns)
            data = introspection_from_schema(base)
            if form == "introspect":
                srv.pages["POST/i"] = (200, json.dumps({"data": data}).encode())
                schema = srv.url + "/i"
                if r.random() < 0.5:
                    headers[schema] = {"X-Key": "i"}
                    schema = {schema: {"headers": headers[schema]}}
            else:
                p = os.path.join(d, "i.json")
                with open(p, "w", encoding="utf-8") as f:
                    f.write(("\ufeff" if r.random() < 0.3 else "") + json.dumps(data))
                schema = p
        else:
            return _bad_source(r, d, srv, run, GraphQLProject)
        allow = True if form in ("introspect", "jsonfile") else r.random() < 0.5
        p = GraphQLProject(**{"schema": schema, "extensions": {"turms": {}}})
        s = run.build_schema_from_schema_type(p.schema_url, allow_introspection=allow)
        from graphql import is_introspection_type, is_specified_scalar_type

        got = {n for n, t in s.type_map.items() if not is_introspection_type(t) and not is_specified_scalar_type(t)}
        need(got == names, f"{form}: schema has {sorted(got)}, sources define {sorted(names)}")
        if form not in ("introspect", "jsonfile"):
            for p_ in srv.pages:
                n = sum(1 for m, q, h in srv.hits if q == p_)
                need(n == 1, f"source {p_} was read {n} times")
        for u, h in headers.items():
            path = u[len(srv.url):]
            for m, q, hh in srv.hits:
                if q == path:
                    need(all(hh.get(a) == b for a, b in h.items()), f"{path} was requested without its headers")
        for m, q, hh in srv.hits:
            if srv.url + q not in headers:
                need("X-Key" not in hh, f"{q} was requested with another source's headers")
    return 1


def _bad_source(r, d, srv, run, GraphQLProject):
    with open(os.path.join(d, "ok.graphql"), "w") as f:
        f.write("type Query { a: Int }")
    ok = os.path.join(d, "ok.graphql")
    nothing = os.path.join(d, "no*.graphql")
    with open(os.path.join(d, "bin.graphql"), "wb") as f:
        f.write(b"type T { a: Int \xff }")
    with open(os.path.join(d, "syntax.graphql"), "w") as f:
        f.write("type T {")
    os.makedirs(os.path.join(d, "dir.graphql"))
    srv.pages["/500"] = (500, b"type Query { a: Int }")
    srv.pages["/empty"] = (200, b"")
    srv.pages["/ok"] = (200, b"type Other { a: Int }")
    srv.pages["/errors"] = (404, b"")
    srv.pages["POST/errors"] = (200, b'{"errors": [{"message": "no"}], "data": null}')
    srv.pages["POST/nodata"] = (200, b"{}")
    srv.pages["POST/junk"] = (200, b"<html>")
    bad = {
        "empty match": nothing, "empty match in a list": [ok, nothing], "no utf-8": os.path.join(d, "bin.graphql"),
        "no utf-8 in a list": [ok, os.path.join(d, "bin.graphql")], "syntax": [ok, os.path.join(d, "syntax.graphql")],
        "directory": [ok, os.path.join(d, "dir.graphql")], "404": srv.url + "/nothing", "500": srv.url + "/500",
        "empty page": srv.url + "/empty", "404 in a list": [ok, srv.url + "/nothing"], "500 in a list": [ok, srv.url + "/500"],
        "404 with headers": {srv.url + "/nothing": {"headers": {}}},
        "404 among many": {srv.url + "/ok": {"headers": {}}, srv.url + "/nothing": {"headers": {}}},
        "introspection errors": srv.url + "/errors", "introspection without data": srv.url + "/nodata", "introspection junk": srv.url + "/junk",
        "defined twice": [ok, ok], "empty list": [],
    }
    n = 0
    for name in r.sample(sorted(bad), 8):
        p = GraphQLProject(**{"schema": bad[name], "extensions": {"turms": {}}})
        for allow in (True, False):
            try:
                s = run.build_schema_from_schema_type(p.schema_url, allow_introspection=allow)
            except Exception:
                n += 1
                continue
            if name == "empty list" and not s.query_type:
                continue
            raise Bad(f"schema source with {name} was accepted (allow_introspection={allow})")
    for x in (3, None, 2.5, object()):
        try:
            run.build_schema_from_schema_type(x)
        except Exception:
            n += 1
            continue
        raise Bad(f"schema of type {type(x).__name__} was accepted")
    return n


def docs_case(seed):
    return {"seed": seed}


def check_docfiles(case):
    """document files: all of them, in sorted order, kept apart"""
    from graphql import OperationDefinitionNode, build_schema, print_ast, parse
    from turms.config import GeneratorConfig
    from turms.utils import parse_documents

    r = random.Random(case["seed"] * 11 + 4)
    with scratch() as d:
        files = {}
        n = r.randint(0, 5)
        for i in range(n):
            sub = r.choice(["", "", "a", "a/b", "z"])
            os.makedirs(os.path.join(d, sub), exist_ok=True)
            p = os.path.join(d, sub, r.choice("qAzb_0") + f"{i}.graphql")
            body = r.choice(["query Op%d { a }", "query Op%d { a } # end", "mutation Op%d { m }", "fragment Op%d on Query { a }\nquery Q%d { ...Op%d }", "query Op%d($s: String = \"#\u00e4\") { s(s: $s) }", "", "# only a comment"])
            body = body.replace("%d", str(i))
            body = ("\ufeff" if body and r.random() < 0.1 else "") + body + r.choice(["", "\n", "\n\n"])
            files[p] = body
            with open(p, "w", encoding="utf-8") as f:
                f.write(body)
        with open(os.path.join(d, "note.txt"), "w") as f:
            f.write("query No { a }")
        sch = build_schema("type Query { a: Int s(s: String): String }\ntype Mutation { m: Int }")
        pat = r.choice([os.path.join(d, "**", "*.graphql"), os.path.join(d, "*.graphql"), os.path.join(d, "a", "*.graphql")])
        if "**" in pat:
            match = sorted(files)
        else:
            match = sorted(p for p in files if os.path.dirname(p) == os.path.dirname(pat))
        text = "\n".join(files[p] for p in match)
        want = []
        for p in match:
            try:
                want += [print_ast(x) for x in parse(files[p]).definitions]
            except Exception:
                pass
        try:
            doc = parse_documents(sch, pat, GeneratorConfig())
        except Exception as e:
            need(not want, f"documents {match} are rejected: {type(e).__name__} {str(e)[:100]}")
            return 1
        need(bool(want), "an empty set of documents was accepted")
        got = [print_ast(x).replace("\n  __typename", "") for x in doc.definitions]
        got_names = [x.name.value for x in doc.definitions]
        want_names = [parse(w).definitions[0].name.value for w in want]
        need(got_names == want_names, f"definitions {got_names}, files hold {want_names}")
        need([parse(g).definitions[0].__class__ for g in got] == [parse(w).definitions[0].__class__ for w in want], "definitions differ in kind")
    return 1


def config_files_case(seed):
    return {"seed": seed}


def check_config_files(case):
    import toml, yaml
    from turms import run
    from turms.errors import GenerationError

    r = random.Random(case["seed"] * 13 + 5)
    known = ["graphql.config.yaml", ".graphqlrc.yaml", "graphql.config.yml", ".graphqlrc.yml", "graphql.config.toml", ".graphqlrc.toml", "graphql.config.json", ".graphqlrc.json"]
    with scratch() as d:
        n = r.choice([0, 1, 1, 1, 1, 2, 3])
        pick = r.sample(known, n)
        present = [x if r.random() < 0.8 else r.choice([x.upper(), x.title()]) for x in pick]
        projects = {}
        names = r.sample(["default", "a", "B", "a.b", "x y"], r.randint(1, 4))
        single = r.random() < 0.3
        if single:
            names = ["default"]
        for i, k in enumerate(names):
            projects[k] = {"schema": f"s{i}.graphql", "documents": f"d{i}/*.graphql", "extensions": {"turms": {"out_dir": f"out{i}", "generated_name": f"g{i}.py", "dump_schema": bool(i % 2)}}}
        data = projects["default"] if single else {"projects": projects}
        dump = {"yaml": yaml.safe_dump, "yml": yaml.safe_dump, "json": json.dumps, "toml": toml.dumps}
        for x in present:
            with open(os.path.join(d, x), "w", encoding="utf-8") as f:
                f.write(dump[x.lower().rsplit(".", 1)[1]](data))
        for x in ("graphql.config.txt", "my.graphql.config.yaml", "package.json", "graphql.config.yaml.bak"):
            if r.random() < 0.4:
                with open(os.path.join(d, x), "w") as f:
                    f.write("{}")
        got = run.scan_folder_for_configs(d)
        need(sorted(got) == sorted(os.path.join(d, x) for x in present), f"recognised {sorted(os.path.basename(g) for g in got)}, present {sorted(present)}")
        cwd = os.getcwd()
        os.chdir(d)
        try:
            for arg in (d, None):
                try:
                    one = run.scan_folder_for_single_config(arg)
                except GenerationError:
                    need(n != 1, f"the only config file {present} is not selected")
                else:
                    need(n == 1, f"{n} config files and {one} was selected")
                    need(os.path.realpath(one) == os.path.realpath(os.path.join(d, present[0])), f"{one} selected")
        finally:
            os.chdir(cwd)
        for x in present:
            p = os.path.join(d, x)
            sel = r.choice([None, None, r.choice(names), "absent"])
            try:
                got = run.load_projects_from_configpath(p, sel) if sel else run.load_projects_from_configpath(p)
            except Exception as e:
                need(sel == "absent", f"{x} with project {sel} cannot be loaded: {type(e).__name__} {str(e)[:100]}")
                continue
            need(sel != "absent", "a project that does not exist was selected")
            want = projects if sel is None else {sel: projects[sel]}
            need(set(got) == set(want), f"projects {list(got)} of {list(projects)}, selected {sel}")
            for k, v in want.items():
                g = got[k]
                t = g.extensions.turms
                need((g.schema_url, g.documents, t.out_dir, t.generated_name, t.dump_schema) == (v["schema"], v["documents"], *[v["extensions"]["turms"][z] for z in ("out_dir", "generated_name", "dump_schema")]), f"project {k} was loaded with other settings")
        for bad, text in (("c.txt", "{}"), ("c.yaml", "projects: {a: {schema: x}}"), ("c.json", '{"schema": "x", "extensions": {"turms": {"nope": 1}}}'), ("noext", "{}"), ("c.yml", "schema: x")):
            p = os.path.join(d, bad)
            with open(p, "w") as f:
                f.write(text)
            try:
                run.load_projects_from_configpath(p)
            except GenerationError:
                continue
            except Exception as e:
                raise Bad(f"{bad}: {type(e).__name__} instead of a generation error")
            raise Bad(f"{bad} with {text} was accepted")
    return 1


# ---------------------------------------------------------------- C23

BREAK = {
    "executable_definitions": "type Extra { a: Int }",
    "unique_operation_names": "query Dup { a }\nquery Dup { a }",
    "lone_anonymous_operation": "{ a }\nquery Other { a }",
    "single_field_subscriptions": "subscription Su { x y }",
    "known_type_names": "query K($v: Nope) { a }",
    "fragments_on_composite_types": "fragment Fc on Color { x }\nquery Ufc { a }",
    "variables_are_input_types": "query Va($v: Obj) { a }",
    "scalar_leafs": "query Sl { o }",
    "fields_on_correct_type": "query Fo { zzz }",
    "unique_fragment_names": "fragment Fd on Query { a }\nfragment Fd on Query { a }\nquery Ufd { ...Fd }",
    "known_fragment_names": "query Kf { ...Nope }",
    "possible_fragment_spreads": "query Ps { o { ... on Query { a } } }",
    "no_fragment_cycles": "fragment C1 on Query { ...C2 }\nfragment C2 on Query { ...C1 }\nquery Uc { ...C1 }",
    "no_unused_fragments": "fragment Un on Query { a }",
    "unique_variable_names": "query Uv($v: Int, $v: Int) { n(i: $v) }",
    "no_undefined_variables": "query Nd { n(i: $v) }",
    "no_unused_variables": "query Nu($v: Int) { a }",
    "known_directives": "query Kd { a @nope }",
    "unique_directives_per_location": "query Ud { a @include(if: true) @include(if: true) }",
    "known_argument_names": "query Ka { n(j: 1) }",
    "unique_argument_names": "query Ua { n(i: 1, i: 2) }",
    "values_of_correct_type": 'query Vc { n(i: "x") }',
    "provided_required_arguments": "query Pr { req }",
    "variables_in_allowed_position": "query Vp($v: String) { n(i: $v) }",
    "overlapping_fields_can_be_merged": "query Of { x: a  x: o { n } }",
    "unique_input_field_names": "query Ui { inp(i: {a: 1, a: 2}) }",
}
VSDL = """
enum Color { RED }
input In { a: Int }
type Obj { n: Int m: [Obj!]! c: Color }
type Query { a: Int o: Obj n(i: Int): Int req(i: Int!): Int inp(i: In): Int }
type Mutation { m(i: In!): Obj }
type Subscription { x: Int y: Int }
"""
VALID = [
    "query A1($v: Int, $w: In) { n(i: $v) inp(i: $w) o { ...Fr } }", "fragment Fr on Obj { n m { n } }",
    "mutation M1($i: In!) { m(i: $i) { c } }", "subscription S1 { x }",
]


def validation_case(seed):
    r = random.Random(seed * 17 + 6)
    rules = sorted(BREAK)
    broken = r.sample(rules, r.choice([0, 1, 1, 1, 2, 3]))
    omit = r.sample(rules, r.choice([0, 0, 1, 2, 5, 25])) if r.random() < 0.7 else list(broken)
    docs = [BREAK[b] for b in broken] + r.sample(VALID, r.choice([0, 4, 4]))
    if not docs:
        docs = list(VALID)
    r.shuffle(docs)
    return {"omit": omit, "docs": docs}


def check_validation(case):
    from graphql import build_schema, parse, validate, specified_rules
    from turms.config import GeneratorConfig
    from turms.rules import specified_rules_map
    from turms import run
    from turms.utils import parse_documents
    import re

    snake = lambda n: re.sub("(?<=[a-z])([A-Z])", r"_\1", n[:-4]).lower()
    mine = {snake(c.__name__): c for c in specified_rules}
    need(set(mine) == set(BREAK), "harness: rules of the library changed")
    cfg = GeneratorConfig(omited_document_rules=case["omit"])
    got = cfg.get_document_rules()
    want = [c for n, c in mine.items() if n not in case["omit"]]
    need(len(got) == len(set(got)) and set(got) == set(want), f"rules enforced differ: missing {[c.__name__ for c in want if c not in got]}, extra {[c.__name__ for c in got if c not in want]}")
    sch = build_schema(VSDL)
    try:
        errors = validate(sch, parse("\n".join(case["docs"])), rules=want)
    except Exception:
        # with rules left out graphql-core itself may fail on the document
        return 0
    with scratch() as d:
        for i, x in enumerate(case["docs"]):
            with open(os.path.join(d, f"{i}.graphql"), "w") as f:
                f.write(x)
        exc = None
        try:
            parse_documents(sch, os.path.join(d, "*.graphql"), cfg)
        except Exception as e:
            exc = e
        # without KnownTypeNames etc. the document may be unusable later
        if errors:
            need(exc is not None, f"invalid documents accepted: {errors[0].message}")
            for e in errors:
                need(e.message in str(exc), f"violation not listed: {e.message}")
            fakes.LOG.clear()
            from turms.plugins.operations import OperationsPlugin
            from turms.plugins.fragments import FragmentsPlugin

            c2 = GeneratorConfig(omited_document_rules=case["omit"], documents=os.path.join(d, "*.graphql"))
            for P in (FragmentsPlugin, OperationsPlugin):
                try:
                    run.generate_code(c2, sch, plugins=[P(config={"type": "x"})], log=quiet)
                except Exception:
                    continue
                raise Bad(f"{P.__name__} produced code for invalid documents: {errors[0].message}")
        elif not case["omit"]:
            need(exc is None, f"valid documents are rejected: {type(exc).__name__}: {str(exc)[:200]}")
            c2 = GeneratorConfig(documents=os.path.join(d, "*.graphql"))
        elif exc is not None:
            from turms.errors import GenerationError

            need(not str(exc).startswith("Invalid Documents"), f"rejected with rules omitted: {str(exc)[:200]}")
    for bad in ("nope", "KnownTypeNamesRule", "", "known_type_names "):
        try:
            GeneratorConfig(omited_document_rules=list(case["omit"][:1]) + [bad])
        except Exception:
            continue
        raise Bad(f"unknown rule {bad!r} was accepted")
    return 1
