"""C19: oneOf and tagged-union inputs"""
import graphql, typing, keyword
from pydantic import TypeAdapter, ValidationError
from .pipe import *
from .gen import R
from .o_types import chain

SC = {"Int": lambda r: r.randint(0, 9), "String": lambda r: r.choice(["a", "b c"]), "Boolean": lambda r: r.p(0.5), "Float": lambda r: 1.5, "ColorE": lambda r: r.choice(["RED", "BLUE"])}
FN = "email id fromDate class authorId by_name X1 isActive def Size".split()
DIRS = "directive @oneOf on INPUT_OBJECT\ndirective @unionElementOf(union: String!, discriminator: String!, key: String!) repeatable on INPUT_OBJECT\nenum ColorE { RED BLUE }\n"


def oneof_case(seed, bad=None):
    r = R(f"oneof{seed}")
    c = {"seed": seed, "members": {}, "one": {}, "tagged": {}}
    decl = []
    plain = {}
    for i in range(r.randint(2, 4)):
        n = r.choice(["Part", "snake_in", "Thing"]) + str(i) + "Input"
        fs = {}
        for f in r.sample(FN, r.randint(1, 3)):
            fs[f] = r.choice(list(SC)) + r.choice(["", "!", ""])
        plain[n] = fs
    # tagged unions over plain members
    tagged, tags = {}, {n: [] for n in plain}
    for k in range(r.randint(0, 2)):
        u = f"Tagged{k}Union"
        disc = r.choice(["kind", "type_", "tag"]) + (str(k) if r.p(0.7) else "")
        ms = r.sample(sorted(plain), r.randint(2, len(plain)))
        keys = {}
        for m in ms:
            prev = [x for x in tags[m] if x[1] == disc]
            keys[m] = prev[0][2] if prev else "KEY_" + m.upper()
            tags[m].append((u, disc, keys[m]))
        tagged[u] = {"disc": disc, "members": keys}
    # oneOf types
    one = {}
    direct = r.sample(sorted(plain), r.randint(1, len(plain)))
    fn = r.sample(FN, len(direct))
    if r.p(0.8):
        one["ByMember"] = dict(zip(fn, direct))
    for k in range(r.randint(0, 2)):
        fs = {}
        for f in r.sample(FN, r.randint(1, 4)):
            x = r.random()
            if x < 0.5:
                fs[f] = r.choice(list(SC))
            elif x < 0.7:
                fs[f] = f"[{r.choice(list(SC))}!]"
            elif x < 0.85 or not tagged:
                fs[f] = r.choice(sorted(plain))
            else:
                fs[f] = r.choice(sorted(tagged))
        one[f"Any{k}of"] = fs
    if not one:
        one["Solo"] = {r.choice(FN): "String"}
    if r.p(0.3) and len(one) > 1:
        a, b = list(one)[:2]
        one["Nest"] = {"inner": a, "other": b}
    for n, fs in plain.items():
        ds = "".join(f' @unionElementOf(union: "{u}", discriminator: "{d}", key: "{k}")' for u, d, k in tags[n])
        body = dict(fs)
        for u, d, k in tags[n]:
            if r.p(0.3):
                body[d] = "String!"
        decl.append(f"input {n}{ds} {{ " + " ".join(f"{f}: {t}" for f, t in body.items()) + " }")
    for u in tagged:
        decl.append(f"input {u} {{ _: Boolean }}")
    for n, fs in one.items():
        decl.append(f"input {n} @oneOf {{ " + " ".join(f"{f}: {t}" for f, t in fs.items()) + " }")
    hosts = {}
    for i, n in enumerate(list(one) + list(tagged)):
        hosts[f"h{i}"] = r.choice([n, n + "!", f"[{n}!]", f"[{n}]!"])
    decl.append("input Host { " + " ".join(f"{f}: {t}" for f, t in hosts.items()) + " }")
    r.shuffle(decl)
    args = {f"a{i}": n for i, n in enumerate(list(one) + list(tagged))}
    sdl = DIRS + "\n".join(decl) + "\ntype Query { q(host: Host, " + ", ".join(f"{a}: {n}" for a, n in args.items()) + "): Int }\n"
    ops = f"query Q($host: Host, " + ", ".join(f"${a}: {n}" for a, n in args.items()) + ") { q(host: $host, " + ", ".join(f"{a}: ${a}" for a in args) + ") }"
    return {
        "seed": seed, "sdl": sdl, "docs": [ops], "cfg": {}, "pcfg": {"enums": {"skip_unreferenced": False}, "inputs": {"skip_unreferenced": r.p(0.5)}}, "plugins": ["enums", "inputs", "operations"],
        "stylers": r.choice([[], [], ["default"], ["snake"], ["cap"], [["mark", {"mark": "Z"}]]]), "plain": plain, "tagged": tagged, "one": one, "hosts": hosts, "args": args, "tags": {k: [list(x) for x in v] for k, v in tags.items()},
    }


class O:
    def __init__(self, g, case, r):
        self.g, self.case, self.r = g, case, r

    def instances(self, tn):
        """(python value, wire value) pairs covering every alternative of type tn"""
        g, c, r = self.g, self.case, self.r
        tn = tn.rstrip("!")
        if tn.startswith("["):
            xs = self.instances(tn[1:-1])
            return [([p for p, _ in xs], [w for _, w in xs])] + [([p], [w]) for p, w in xs]
        if tn in SC:
            v = SC[tn](r)
            return [(v, v)]
        if tn in c["plain"]:
            out = []
            for k in range(2):
                d = {f: SC[t.rstrip("!")](r) for f, t in c["plain"][tn].items() if t.endswith("!") or k}
                w = dict(d)
                for u, disc, key in c["tags"][tn]:
                    if (not c["pcfg"]["inputs"].get("skip_unreferenced", True)) or True:
                        w[disc] = key
                out.append((g.cls("input", tn)(**d), w))
            return out
        if tn in c["tagged"]:
            return [x for m in c["tagged"][tn]["members"] for x in self.instances(m)]
        out = []
        fs = c["one"][tn]
        if self.direct(tn):
            for f, m in fs.items():
                out += [(p, {f: w}) for p, w in self.instances(m)]
            return out
        for f, t in fs.items():
            wc = g.cls("input", tn + f[0].upper() + f[1:])
            for p, w in self.instances(t):
                out.append((wc(**{f: p}), {f: w}))
        return out

    def direct(self, tn):
        fs = list(self.case["one"][tn].values())
        return all(t in self.case["plain"] or t in self.case["tagged"] for t in fs) and len(set(fs)) == len(fs)


def dump(m):
    return m.model_dump(by_alias=True, exclude_unset=True, mode="json")


def check_oneof(case):
    g = Gen(case)
    r = R(f"oo{case['seed']}")
    o = O(g, case, r)
    n = 0
    if any(o.direct(t) and any(x in case["tagged"] for x in case["one"][t].values()) for t in case["one"]):
        unload(g.m)
        return 0  # direct union over a tagged union: not supported, not generated on purpose
    try:
        host = g.cls("input", "Host")
        args = g.cls("query", "Q").Arguments
        for cls, fields in ((host, case["hosts"]), (args, case["args"])):
            req = {f: o.instances(t)[0] for f, t in fields.items() if t.endswith("!")}
            for f, t in fields.items():
                for p, w in o.instances(t):
                    vals = {k: v[0] for k, v in req.items()}
                    vals[f] = p
                    try:
                        m = cls(**vals)
                    except ValidationError as e:
                        raise Bad(f"{cls.__qualname__}.{f}: {t} rejects the alternative {p!r}: {str(e)[:200]}")
                    got = dump(m)
                    need(got.get(f) == w, f"{cls.__qualname__}.{f}: {t} serialises {p!r} to {got.get(f)!r} instead of {w!r}")
                    if "NoneType" not in str(type(p)) and not t.startswith("["):
                        n += 1
                    # a wire value parses back to the same thing (tagged: by discriminator)
                    base = t.strip("[]!")
                    if base in case["tagged"] and not t.startswith("["):
                        m2 = cls(**{**{k: v[0] for k, v in req.items()}, f: w})
                        need(type(getattr(m2, attr(cls, f))) is type(p), f"{w!r} parses to {type(getattr(m2, attr(cls, f))).__name__} instead of {type(p).__name__}")
                        need(dump(m2).get(f) == w, f"{w!r} parses and serialises to {dump(m2).get(f)!r}")
                        disc = case["tagged"][base]["disc"]
                        for w2 in ({**w, disc: "NO_SUCH"}, {k: v for k, v in w.items() if k != disc}):
                            refuse(cls, {**{k: v[0] for k, v in req.items()}, f: w2}, f"{f}: {t}")
                            n += 1
                base = t.strip("[]!")
                if not t.startswith("["):
                    junk = [5, "text", ["x"]]
                    if base in case["one"] and not o.direct(base):
                        junk += [{}, {"no_such_field__": 1}]
                        for fn, ft in case["one"][base].items():
                            junk.append({fn: None})
                            if ft in ("Int", "Float"):
                                junk.append({fn: "zz"})
                            if ft.startswith("["):
                                junk.append({fn: 5.5})
                    for j in junk:
                        refuse(cls, {**{k: v[0] for k, v in req.items()}, f: j}, f"{f}: {t}")
                        n += 1
        # only declared members end up in a tagged union
    finally:
        unload(g.m)
    return n


def attr(cls, key):
    return next(f for f, i in cls.model_fields.items() if (i.alias or f) == key)


def refuse(cls, d, what):
    try:
        m = cls(**d)
    except ValidationError:
        return
    raise Bad(f"{cls.__qualname__} accepts {d!r} for {what}: {dump(m)!r}")


BADS = [
    ("oneOf with a non-null field", 'input A @oneOf { x: Int! y: Int }\ntype Query { q(a: A): Int }', "A"),
    ("oneOf with a non-null list field", 'input A @oneOf { x: [Int]! y: Int }\ntype Query { q(a: A): Int }', "A"),
    ("oneOf with a default", 'input A @oneOf { x: Int = 1 y: Int }\ntype Query { q(a: A): Int }', "A"),
    ("oneOf with a null default", 'input A @oneOf { y: Int x: Int = null }\ntype Query { q(a: A): Int }', "A"),
    ("oneOf over inputs with a non-null member", 'input B { z: Int } input C { z: Int } input A @oneOf { x: B y: C! }\ntype Query { q(a: A): Int }', "A"),
    ("two discriminators in one union", 'input U { _: Int } input B @unionElementOf(union: "U", discriminator: "d", key: "B") { z: Int } input C @unionElementOf(union: "U", discriminator: "e", key: "C") { z: Int }\ntype Query { q(a: U): Int }', "U"),
    ("two keys of one member for one discriminator", 'input U { _: Int } input V { _: Int } input B @unionElementOf(union: "U", discriminator: "d", key: "B") @unionElementOf(union: "V", discriminator: "d", key: "C") { z: Int }\ntype Query { q(a: U, b: V): Int }', "B"),
    ("a membership without key", 'input U { _: Int } input B @unionElementOf(union: "U", discriminator: "d") { z: Int }\ntype Query { q(a: U): Int }', "B"),
    ("a membership without discriminator", 'input U { _: Int } input B @unionElementOf(union: "U", key: "d") { z: Int }\ntype Query { q(a: U): Int }', "B"),
    ("a membership without union", 'input U { _: Int } input B @unionElementOf(discriminator: "U", key: "d") { z: Int }\ntype Query { q(a: U): Int }', "B"),
]


def bad_case(i):
    what, sdl, name = BADS[i // 2 % len(BADS)]
    if "membership" in what:
        d = "directive @oneOf on INPUT_OBJECT\ndirective @unionElementOf(union: String, discriminator: String, key: String) repeatable on INPUT_OBJECT\n"
    else:
        d = DIRS
    op = "query Q($a: U) { q(a: $a) }" if "a: U" in sdl else "query Q($a: A) { q(a: $a) }"
    if "b: V" in sdl:
        op = "query Q($a: U, $b: V) { q(a: $a, b: $b) }"
    return {"seed": i, "sdl": d + sdl, "docs": [op], "cfg": {"pydantic_version": "v2"}, "pcfg": {"inputs": {"skip_unreferenced": bool(i % 2)}}, "plugins": ["enums", "inputs", "operations"], "stylers": [], "what": what, "name": name}


def check_rejected(case):
    from turms.errors import GenerationError

    try:
        generate(case)
    except GenerationError as e:
        need(any(case["name"] in str(x) for x in chain(e)), f"{case['what']}: the error does not name {case['name']}: {str(e)[:200]}")
        return 1
    raise Bad(f"{case['what']} is accepted")
