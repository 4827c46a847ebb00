"""helpers of the contract stubs (not instrumented)"""
import inspect
from .engine import term_of


class Args:
    pass


class Stub:
    """an opaque callee: its contract is the function given here"""

    def __init__(self, f, *pre):
        self.f, self.pre = f, pre

    def __call__(self, *a, **k):
        from .core import ENG

        return self.f(ENG(), *self.pre, *a, **k)


def method(f):
    """domain attribute: a method of an opaque object; f(eng, self, *args)"""
    return lambda eng, o: Stub(f, o)


def external(f, name, note):
    """contract assumed for a function outside turms"""
    from .runtime import RT_, KEEP
    from .verify import CONTRACTS

    CONTRACTS[name] = (None, None, note)

    def deco(m):
        def stub(eng, *a, **k):
            eng.contract_uses[name] += 1
            return m(eng, *a, **k)

        RT_.models[id(getattr(f, "__func__", f))] = stub
        KEEP.append(f)
        return m

    return deco


def bind(fn, a, k):
    b = inspect.signature(fn).bind(*a, **k)
    b.apply_defaults()
    r = Args()
    r.__dict__.update(b.arguments)
    return r


def pure(eng, label, desc, *vals):
    """the value a deterministic callee returns, known only as a function of its arguments"""
    ts = [term_of(v) for v in vals]
    return eng.from_uf(label, desc, tuple(t for t, _ in ts), tuple(s for _, s in ts))
