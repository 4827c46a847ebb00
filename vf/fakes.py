"""stand-ins for the console and the file system: they record what the code does with them"""
import z3
from .core import *
from .core import E, ENG, SymStr, strparts


def escaped(x):
    """does every unknown part of a console text stem from rich.markup.escape?"""
    if isinstance(x, str) or x is None:
        return True
    if not is_str(x):
        return True
    return all(isinstance(p, str) or z3.is_expr(p) and p.num_args() and p.decl().name().startswith("a_escaped_") for p in strparts(x))


def show(x):
    vc = ENG().ghost.get("vc")
    if vc is not None and is_str(x):
        vc.ok("texts of unknown content are shown escaped", escaped(x), repr(x)[:200])


class FakeConsole:
    def print(self, x=None, *a, **k):
        show(x)

    def print_exception(self, *a, **k):
        return None


class FakeTree:
    def __init__(self, label=None, *a, **k):
        self.label = label

    def __setattr__(self, n, v):
        if n == "label":
            show(v)
        object.__setattr__(self, n, v)

    def add(self, x, *a, **k):
        show(x)
        return x if isinstance(x, FakeTree) else FakeTree(x)


class FakeView:
    def __init__(self, *a, **k):
        for x in a:
            show(x)

    def update(self, *a, **k):
        return None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class FakeFile:
    def __init__(self, path, mode, encoding, content=None):
        self.path, self.mode, self.encoding, self.content = path, mode, encoding, content

    def write(self, text):
        ENG().ghost["log"].append(("write", self.path, self.mode, self.encoding, text))

    def read(self):
        return self.content

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False
