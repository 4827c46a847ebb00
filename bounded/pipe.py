"""run the real generator on an in-memory case and import the result"""
import importlib, itertools, os, shutil, sys, tempfile, types, warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

P = {
    "enums": "turms.plugins.enums.EnumsPlugin",
    "inputs": "turms.plugins.inputs.InputsPlugin",
    "fragments": "turms.plugins.fragments.FragmentsPlugin",
    "operations": "turms.plugins.operations.OperationsPlugin",
    "funcs": "turms.plugins.funcs.FuncsPlugin",
    "input_funcs": "turms.plugins.input_funcs.InputFuncsPlugin",
    "objects": "turms.plugins.objects.ObjectsPlugin",
    "strawberry": "turms.plugins.strawberry.StrawberryPlugin",
}
S = {
    "default": "turms.stylers.default.DefaultStyler",
    "snake": "turms.stylers.snake_case.SnakeCaseStyler",
    "cap": "turms.stylers.capitalize.CapitalizeStyler",
    "app": "turms.stylers.appender.AppenderStyler",
    "mark": "bounded.mystylers.MarkStyler",
    "lower": "bounded.mystylers.LowerStyler",
}


class Bad(Exception):
    """the property does not hold on this input"""


def need(c, msg):
    if not c:
        raise Bad(msg)


def quiet(*a, **k):
    pass


_n = itertools.count()


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vfb_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def make(case, d):
    """-> (config, schema, plugins, stylers, parsers)"""
    from graphql import build_schema
    from turms.config import GeneratorConfig
    from turms.helpers import import_string

    cfg = dict(case.get("cfg") or {})
    docs = case.get("docs")
    if docs:
        for i, x in enumerate(docs):
            with open(os.path.join(d, f"{i:02d}.graphql"), "w", encoding="utf-8") as f:
                f.write(x)
        cfg["documents"] = os.path.join(d, "*.graphql")
    c = GeneratorConfig(**cfg)
    pcfg = case.get("pcfg") or {}
    inst = lambda t, conf: import_string(t)(config={"type": t, **conf}, log=quiet)
    ps = [inst(P[p], pcfg.get(p, {})) for p in case["plugins"]]
    ss = []
    for s in case.get("stylers") or []:
        s, conf = (s, {}) if isinstance(s, str) else s
        ss.append(inst(S[s], conf))
    pa = [inst(t, conf) for t, conf in case.get("parsers") or []]
    return c, build_schema(case["sdl"]), ps, ss, pa


def generate(case):
    from turms.run import generate_code

    with scratch() as d:
        c, schema, ps, ss, pa = make(case, d)
        return generate_code(c, schema, plugins=ps, stylers=ss, parsers=pa, log=quiet)


def load(code, name=None):
    name = name or f"vgen{next(_n)}"
    m = types.ModuleType(name)
    sys.modules[name] = m
    try:
        exec(compile(code, name, "exec"), m.__dict__)
    finally:
        sys.modules.pop(name, None)
        # forward references are resolved through the module's own namespace
        sys.modules[name] = m
    return m


def unload(m):
    sys.modules.pop(m.__name__, None)


class Gen:
    """one generated module"""

    def __init__(self, case):
        from graphql import build_schema, parse

        self.case = case
        self.schema = build_schema(case["sdl"])
        self.code = generate(case)
        try:
            self.m = load(self.code)
        except Exception as e:
            raise Bad(f"generated module cannot be imported: {type(e).__name__}: {str(e)[:300]}")
        self.doc = parse("\n".join(case["docs"])) if case.get("docs") else None

    def style(self, kind, name):
        """the configured stylers applied in order (independent of the registry)"""
        for s in self.case.get("stylers") or []:
            s, conf = (s, {}) if isinstance(s, str) else s
            name = STYLE[s](kind, name, conf)
        return name

    def operations(self):
        from graphql import OperationDefinitionNode

        return [d for d in self.doc.definitions if isinstance(d, OperationDefinitionNode)]

    def cls(self, kind, name):
        n = self.style(kind, name)
        if n not in self.m.__dict__:
            raise Bad(f"no class {n} for {kind} {name}")
        return self.m.__dict__[n]


import re


def snake(n):
    n = re.sub("(.)([A-Z][a-z]+)", r"\1_\2", n)
    return re.sub("([a-z0-9])([A-Z])", r"\1_\2", n).lower()


CAPS = ("fragment", "query", "mutation", "subscription", "enum", "input")
APP = {"fragment": "Fragment", "query": "Query", "mutation": "Mutation", "subscription": "Subscription", "enum": "", "input": ""}


def st_cap(kind, n, conf):
    return n[0].upper() + n[1:] if kind in CAPS else n


STYLE = {
    "cap": st_cap,
    "default": lambda kind, n, conf: snake(n) if kind in ("node", "parameter") else st_cap(kind, n, conf),
    "snake": lambda kind, n, conf: snake(n) if kind in ("node", "parameter") else n,
    "mark": lambda kind, n, conf: n + (conf.get("node", "") if kind in ("node", "parameter") else conf.get("mark", "M")),
    "lower": lambda kind, n, conf: n.lower() if kind in ("node", "parameter") else n,
    "app": lambda kind, n, conf: n + conf.get("append_" + kind, APP[kind]) if kind in APP else n,
}
