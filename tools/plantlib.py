"""helpers of the demonstrations: run the generator of the current directory in memory"""
import os, shutil, sys, tempfile, types, warnings

sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")

P = {n: f"turms.plugins.{m}.{c}" for n, m, c in [
    ("enums", "enums", "EnumsPlugin"), ("inputs", "inputs", "InputsPlugin"),
    ("fragments", "fragments", "FragmentsPlugin"), ("operations", "operations", "OperationsPlugin"),
    ("funcs", "funcs", "FuncsPlugin"), ("input_funcs", "input_funcs", "InputFuncsPlugin"),
    ("objects", "objects", "ObjectsPlugin"), ("strawberry", "strawberry", "StrawberryPlugin")]}
S = {"default": "turms.stylers.default.DefaultStyler", "snake": "turms.stylers.snake_case.SnakeCaseStyler",
     "cap": "turms.stylers.capitalize.CapitalizeStyler", "app": "turms.stylers.appender.AppenderStyler"}
quiet = lambda *a, **k: None


def gen(sdl, docs=(), plugins=("enums", "inputs", "fragments", "operations"), cfg=None, pcfg=None, stylers=(), **kw):
    from graphql import build_schema
    from turms.config import GeneratorConfig
    from turms.helpers import import_string
    from turms.run import generate_code
    d = tempfile.mkdtemp()
    try:
        c = dict(cfg or {})
        docs = [docs] if isinstance(docs, str) else docs
        for i, x in enumerate(docs):
            open(os.path.join(d, f"{i:02d}.graphql"), "w").write(x)
        if docs:
            c["documents"] = os.path.join(d, "*.graphql")
        mk = lambda t, conf: import_string(t)(config={"type": t, **conf}, log=quiet)
        return generate_code(GeneratorConfig(**c), build_schema(sdl),
                             plugins=[mk(P[p], (pcfg or {}).get(p, {})) for p in plugins],
                             stylers=[mk(S[s], {}) if isinstance(s, str) else mk(S[s[0]], s[1]) for s in stylers],
                             log=quiet, **kw)
    finally:
        shutil.rmtree(d)


def load(code, name="demo_generated"):
    m = types.ModuleType(name)
    sys.modules[name] = m
    exec(compile(code, name, "exec"), m.__dict__)
    return m


def rejects(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False
