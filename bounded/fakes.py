"""recording pipeline components used by the run harness"""
import ast
from typing import Any

from turms.parsers.base import Parser
from turms.plugins.base import Plugin
from turms.processors.base import Processor
from turms.stylers.base import Styler

LOG = []
FAIL = {}


class Odd(Exception):
    pass


EXC = {
    "KeyError": lambda: KeyError("missing [/b] thing"),
    "ValueError": lambda: ValueError("bad value"),
    "AssertionError": lambda: AssertionError(),
    "NotImplementedError": lambda: NotImplementedError("later"),
    "Odd": lambda: Odd("odd [/] {x} %s"),
    "RecursionError": lambda: RecursionError("deep"),
    "OSError": lambda: OSError(2, "gone"),
    "UnicodeError": lambda: UnicodeError("\u00e4"),
    "StopIteration": lambda: StopIteration("stop"),
}


def _step(self, stage, payload):
    tag = self.config["tag"]
    LOG.append((stage, tag, payload))
    f = self.config.get("fail")
    if f:
        e = EXC[f]()
        FAIL["exc"] = e
        raise e
    return tag


def assign(tag):
    return ast.Assign(targets=[ast.Name(id=tag, ctx=ast.Store())], value=ast.Constant(value=1), lineno=1)


def show(tree):
    import copy

    one = lambda x: ast.unparse(ast.fix_missing_locations(ast.Module(body=[copy.deepcopy(x)], type_ignores=[])))
    return [ast.dump(y) for x in tree for y in ast.parse(one(x)).body]


class _Pl(Plugin):
    config: Any = None

    def generate_ast(self, client_schema, config, registry):
        tag = _step(self, "plugin", None)
        for i in self.config.get("imports", ()):
            registry.register_import(i)
        for b in self.config.get("builtins", ()):
            registry.register_builtin(b)
        for f in self.config.get("forwards", ()):
            registry.forward_references.add(f)
        return [assign(f"{tag}_{k}") for k in range(self.config.get("n", 1))]


class PlugA(_Pl):
    pass


class PlugB(_Pl):
    pass


class _Pa(Parser):
    config: Any = None

    def parse_ast(self, asts):
        tag = _step(self, "parser", show(asts))
        how = self.config.get("how", "append")
        if how == "append":
            return list(asts) + [assign(tag)]
        if how == "prepend":
            return [assign(tag)] + list(asts)
        if how == "reverse":
            return list(asts)[::-1]
        if how == "drop":
            return []
        return asts


class ParseA(_Pa):
    pass


class ParseB(_Pa):
    pass


class _Pr(Processor):
    config: Any = None

    def run(self, gen_file, config):
        tag = _step(self, "processor", gen_file)
        how = self.config.get("how", "append")
        if how == "append":
            return gen_file + f"\n# {tag}"
        if how == "prepend":
            return f"# {tag}\n" + gen_file
        if how == "upper":
            return gen_file.upper()
        if how == "drop":
            return ""
        return gen_file


class ProcA(_Pr):
    pass


class ProcB(_Pr):
    pass


class Plain(Styler):
    config: Any = None
