"""recording transport"""
calls = []
result = [None]


class Link:
    pass


class Opt:
    pass


def execute(*args, **kwargs):
    calls.append(("execute", args, kwargs))
    return result[0]


async def aexecute(*args, **kwargs):
    calls.append(("aexecute", args, kwargs))
    return result[0]


def subscribe(*args, **kwargs):
    calls.append(("subscribe", args, kwargs))
    yield from result[0]


async def asubscribe(*args, **kwargs):
    calls.append(("asubscribe", args, kwargs))
    for x in result[0]:
        yield x


class Base1:
    pass


class Base2:
    pass


class Base3:
    pass


class Marker:
    def __init__(self, *a, **k):
        self.args = a
        self.kw = k


class Marker2(Marker):
    pass


def coerce_id(x):
    return x


class Coerced(str):
    pass


class Text(str):
    """a str subclass usable as a scalar type"""

    @classmethod
    def __get_pydantic_core_schema__(cls, source, handler):
        from pydantic_core import core_schema

        return core_schema.no_info_after_validator_function(cls, core_schema.str_schema(), serialization=core_schema.plain_serializer_function_ser_schema(str))


def _bases():
    import pydantic, sys

    me = sys.modules[__name__]
    for n in "XA XB XC XD XE XF".split():  # per-type mixins
        setattr(me, n, type(n, (), {"__module__": __name__}))
    for n in "ObjB IfaceB QueryB MutB SubB ArgB FragB FObjB InB TypB".split():  # per-kind models
        setattr(me, n, type(n, (pydantic.BaseModel,), {"__module__": __name__}))


_bases()
