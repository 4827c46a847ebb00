"""random schemas and documents.  The generator stays inside what the tool
supports (see DESIGN.md, "Scope of the generated inputs")."""
import random

FIELD_NAMES = """id name title fooBar count from class is someValue X None createdAt with_ isActive data URL in def lambda async
import True global items nodeList ownerOf parentId email HTTPCode a1 b2 longFieldName return yield x_y try else kind nonlocal await
size label rank score extra memo note point shape color start stop step unit mode level depth width subtypename typenameOf""".split()
TYPE_NAMES = "Alpha beta GammaDelta snake_type Xray1 Node Person Robot HTTPThing item Leaf Branch Zed Pond Quark Ruler".split()
ENUM_VALUES = "RED GREEN blue None True class from mro name_x VALUE lower fooBar A1 in def Optional".split()
SCALARS = ["Int", "Float", "String", "Boolean", "ID"]


class R(random.Random):
    def p(self, x):
        return self.random() < x

    def some(self, xs, lo, hi):
        xs = list(xs)
        k = min(len(xs), self.randint(lo, hi))
        return self.sample(xs, k)


def norm(n):
    return n.replace("_", "").lower()


class Schema:
    def __init__(self, r, avoid=(), many_enums=False):
        self.r = r
        self.leaf_bias = many_enums
        names = r.sample(TYPE_NAMES, len(TYPE_NAMES))
        pop = lambda suf="": names.pop() + suf
        self.custom = {"Stamp": "str", "Big": "int", "When": "datetime.datetime"} if r.p(0.6) else {}
        self.enums = {}
        for _ in range(r.randint(3, 5) if many_enums else r.randint(1, 3)):
            self.enums[pop("E")] = r.some(ENUM_VALUES, 1, 6)
        self.scalars = SCALARS + list(self.custom)
        self.inputs = {}
        ins = [pop("In") for _ in range(r.randint(1, 4))]
        for i, n in enumerate(ins):
            fs = {}
            for f in self.names(1, 5, avoid):
                base = r.choice(self.scalars + list(self.enums) + ins)
                t = self.wrap(base)
                if base in ins and ins.index(base) >= i:
                    t = base if r.p(0.5) else f"[{base}!]"  # nullable: no infinite values
                d = None
                if r.p(0.3) and base not in ins:
                    d = self.literal(t)
                fs[f] = (t, d, self.dep() if not t.endswith("!") or d is not None else None, self.desc())
            self.inputs[n] = fs
        nobj, nint = r.randint(2, 4), r.randint(0, 2)
        self.interfaces = {}
        self.objects = {}
        self.impl = {}
        inames = [pop("I") for _ in range(nint)]
        onames = [pop() for _ in range(nobj)]
        self.unions = {}
        self.onames, self.inames = onames, inames
        unames = [pop("U")] if r.p(0.6) and nobj > 1 else []
        outs = onames + inames + unames
        allf = {}
        for n in inames:
            self.interfaces[n] = self.fields(outs, 1, 3)
        for n in onames:
            self.objects[n] = self.fields(outs, 2, 5)
            self.impl[n] = []
        for n in inames:
            for o in r.some(onames, 1, len(onames)):
                self.impl[o].append(n)
        for o in onames:
            fs = self.objects[o]
            for n in self.impl[o]:
                for f, d in self.interfaces[n].items():
                    for g in [g for g in fs if norm(g) == norm(f)]:
                        del fs[g]
                    fs[f] = d
            # two interfaces may disagree on one field name: drop the later interface
            bad = []
            for n in self.impl[o]:
                if any(fs.get(f) is not d for f, d in self.interfaces[n].items()):
                    bad.append(n)
            for n in bad:
                self.impl[o].remove(n)
        self.inames = [n for n in inames if any(n in self.impl[o] for o in onames)]
        for n in inames:
            if n not in self.inames:
                # nobody implements it any more: first object does
                del self.interfaces[n]
        gone = [n for n in inames if n not in self.inames]
        for fs in list(self.objects.values()) + list(self.interfaces.values()):
            for f, d in list(fs.items()):
                if base_of(d["type"]) in gone:
                    d["type"] = "Int"
        for u in unames:
            self.unions[u] = r.some(onames, 1, 3)
        outs = onames + self.inames + list(self.unions)
        self.query = self.fields(outs, 3, 6, composite=0.7)
        self.mutation = self.fields(outs, 1, 3, composite=0.6) if r.p(0.6) else {}
        self.subscription = self.fields(outs, 1, 2, composite=0.6) if r.p(0.5) else {}

    def names(self, lo, hi, avoid=()):
        out, seen = [], {norm(a) for a in avoid}
        for n in self.r.sample(FIELD_NAMES, len(FIELD_NAMES)):
            if norm(n) not in seen:
                seen.add(norm(n))
                out.append(n)
        return out[: self.r.randint(lo, hi)]

    def dep(self):
        return self.r.choice(["", 'No "longer" used', "use x"]) if self.r.p(0.12) else None

    def desc(self):
        return self.r.choice(["A description", 'With "quotes" and \\\\ slash', "ünï"]) if self.r.p(0.2) else None

    def wrap(self, base, out=False):
        r = self.r
        t = base
        if r.p(0.5):
            t += "!"
        for _ in range(r.choice([0, 0, 0, 0, 1, 1, 2])):
            t = f"[{t}]"
            if r.p(0.5):
                t += "!"
        return t

    def literal(self, t, depth=0):
        """a GraphQL literal of input type t (never null at top)"""
        r = self.r
        t = t.rstrip("!")
        if t.startswith("["):
            inner = t[1:-1]
            return "[" + ", ".join(self.literal(inner) for _ in range(r.randint(0, 2))) + "]"
        if t in self.enums:
            return r.choice(self.enums[t])
        if t in self.inputs:
            return "{" + ", ".join(f"{f}: {self.literal(ft, depth + 1)}" for f, (ft, d, *_ ) in self.inputs[t].items() if (ft.endswith("!") and d is None) or (depth < 2 and r.p(0.3))) + "}"
        return {
            "Int": str(r.randint(-3, 9)),
            "Float": r.choice(["1.5", "2", "-0.25"]),
            "String": r.choice(['"s"', '""', '"a b"']),
            "Boolean": r.choice(["true", "false"]),
            "ID": r.choice(['"id1"', '"7"']),
            "Stamp": '"st"',
            "Big": "12",
            "When": '"2020-01-01T00:00:00"',
        }[t]

    def fields(self, outs, lo, hi, composite=0.4):
        r = self.r
        fs = {}
        for f in self.names(lo, hi):
            base = r.choice(outs) if r.p(composite) else r.choice(list(self.enums) if self.leaf_bias and r.p(0.7) else self.scalars + list(self.enums))
            args = {}
            if r.p(0.3):
                for a in self.names(1, 3):
                    t = self.wrap(r.choice(self.scalars + list(self.enums) + list(self.inputs)))
                    args[a] = (t, self.literal(t) if r.p(0.2) else None)
            fs[f] = {"type": self.wrap(base), "args": args, "dep": self.dep(), "desc": self.desc()}
        return fs

    def sdl(self):
        o = []
        D = lambda d, ind="": f'{ind}"""{d}"""\n' if d else ""
        Q = lambda s: '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
        dep = lambda d: "" if d is None else (f" @deprecated(reason: {Q(d)})" if d else " @deprecated")
        for s in self.custom:
            o.append(f"scalar {s}")
        for n, vs in self.enums.items():
            o.append(f"enum {n} {{ " + " ".join(v for v in vs if v not in ("True", "None") or True) + " }")

        def body(fs):
            out = []
            for f, d in fs.items():
                a = ""
                if d["args"]:
                    a = "(" + ", ".join(f"{x}: {t}" + (f" = {v}" if v else "") for x, (t, v) in d["args"].items()) + ")"
                out.append(f"{D(d['desc'], '  ')}  {f}{a}: {d['type']}{dep(d['dep'])}")
            return "{\n" + "\n".join(out) + "\n}"

        for n, fs in self.interfaces.items():
            o.append(f"interface {n} " + body(fs))
        for n, fs in self.objects.items():
            i = " implements " + " & ".join(self.impl[n]) if self.impl[n] else ""
            o.append(f"type {n}{i} " + body(fs))
        for n, ms in self.unions.items():
            o.append(f"union {n} = " + " | ".join(ms))
        for n, fs in self.inputs.items():
            o.append(f"input {n} {{\n" + "\n".join(f"{D(ds, '  ')}  {f}: {t}" + (f" = {d}" if d else "") + dep(dp) for f, (t, d, dp, ds) in fs.items()) + "\n}")
        o.append("type Query " + body(self.query))
        if self.mutation:
            o.append("type Mutation " + body(self.mutation))
        if self.subscription:
            o.append("type Subscription " + body(self.subscription))
        return "\n".join(o) + "\n"

    def fields_of(self, t):
        return {"Query": self.query, "Mutation": self.mutation, "Subscription": self.subscription}.get(t) or self.objects.get(t) or self.interfaces.get(t)


def base_of(t):
    return t.replace("[", "").replace("]", "").replace("!", "")


class Docs:
    def __init__(self, s, r):
        self.s, self.r = s, r
        self.used = set()
        self.n = 0
        self.frags = {}  # name -> (type, deps)
        self.texts = []
        self.vars = None
        self.ftext = {}
        for _ in range(r.choice([0, 2, 3, 4, 6])):
            self.fragment()
        self.ops = []
        self.opdeps = set()
        kinds = ["query"] * r.randint(1, 2) + (["mutation"] if s.mutation else []) + (["subscription"] if s.subscription else [])
        for k in kinds:
            self.operation(k)
        live = set().union(*[self.closure(f) for f in self.opdeps]) if self.opdeps else set()
        self.ftext = {f: t for f, t in self.ftext.items() if f in live}
        chunks = list(self.ftext.values()) + self.ops
        r.shuffle(chunks)
        k = r.randint(1, min(3, len(chunks)))
        self.docs = ["\n".join(chunks[i::k]) + r.choice(["", "\n"]) for i in range(k)]

    def fresh(self, base):
        self.n += 1
        return f"{base}{self.n}"

    def fragment(self):
        s, r = self.s, self.r
        t = r.choice(list(s.objects) * 2 + list(s.inames) + list(s.unions))
        name = self.fresh(r.choice(["frag", "Part", "someBit", "Piece_x"]))
        self.cur = set()
        self.vars = None
        if t in s.unions:
            body, deps = self.union_sel(t, 2, infrag=True)
        else:
            body, deps = self.sel(t, 2, infrag=True)
        self.frags[name] = (t, deps)
        self.ftext[name] = f"fragment {name} on {t} {body}"

    def key(self, f, composite, hasargs):
        """response key; composite and argument-taking fields get keys nobody else uses"""
        n = norm(f)
        if not composite and not hasargs:
            if self.r.p(0.15):
                return self.fresh(self.r.choice(["al", "fooAl", "from", "Key"]))
            return f
        if n in self.used or self.r.p(0.3):
            k = self.fresh(self.r.choice(["k", "someKey", "Alias", "class"]))
            return k
        if self.vars is None:
            self.used.add(n)  # inside a fragment: reserved for it
        return f

    def spreads(self, ok, limit=2):
        """independent fragments (none reachable from another)"""
        r = self.r
        c = [f for f, (t, _) in self.frags.items() if ok(t)]
        out, reach = [], set()
        for f in r.some(c, 0, limit):
            cl = self.closure(f)
            if cl & reach:
                continue
            reach |= cl
            out.append(f)
        return out, reach

    def closure(self, f):
        out = {f}
        for d in self.frags[f][1]:
            out |= self.closure(d)
        return out

    def field(self, f, d, depth, infrag):
        """-> text, deps or None"""
        s, r = self.s, self.r
        b = base_of(d["type"])
        comp = b in s.objects or b in s.inames or b in s.unions
        if comp and depth <= 0:
            return None
        args = []
        for a, (t, v) in d["args"].items():
            must = t.endswith("!") and v is None
            if not must and r.p(0.5):
                continue
            if self.vars is None or r.p(0.3):
                args.append(f"{a}: {s.literal(t)}")
            else:
                vn = self.varname(a)
                vt = t
                dflt = ""
                if not t.endswith("!") and r.p(0.3):
                    vt = t + "!"
                if not vt.endswith("!") and r.p(0.4) or vt.endswith("!") and r.p(0.2):
                    dflt = " = " + s.literal(vt)
                elif vt.endswith("!") and v is not None and r.p(0.5):
                    vt = vt[:-1]
                self.vars.append((vn, vt, dflt))
                args.append(f"{a}: ${vn}")
        k = self.key(f, comp, bool(d["args"]))
        text = f + (f"({', '.join(args)})" if args else "")
        if k != f:
            text = f"{k}: {text}"
        deps = set()
        if comp:
            if b in s.unions:
                sub, deps = self.union_sel(b, depth - 1, infrag)
            else:
                sub, deps = self.sel(b, depth - 1, infrag)
            text += " " + sub
        return text, deps

    def varname(self, a):
        if norm(a) in ("data", "variables", "event", "self"):
            a = "arg"
        have = {norm(v) for v, *_ in self.vars}
        while norm(a) in have:
            a = self.fresh(a)
        return a

    def plain_fields(self, t, depth, infrag, taken, lo=1, hi=4, scalars_only=False):
        s, r = self.s, self.r
        fs = s.fields_of(t)
        out, deps = [], set()
        names = r.some(list(fs), lo, hi)
        for f in names:
            x = self.field(f, fs[f], depth, infrag)
            if x is None:
                continue
            k = x[0].split(":")[0] if ":" in x[0].split("(")[0].split("{")[0] else f
            if norm(k) in taken:
                continue
            taken.add(norm(k))
            out.append(x[0])
            deps |= x[1]
        return out, deps

    def leaf(self, t, taken):
        """some selectable leaf, or __typename"""
        for f, d in self.s.fields_of(t).items():
            b = base_of(d["type"])
            if b in self.s.scalars or b in self.s.enums:
                if not any(x.endswith("!") and v is None for x, v in d["args"].values()) and not d["args"]:
                    if norm(f) not in taken:
                        return f
        return "__typename"

    def sel(self, t, depth, infrag=False):
        s, r = self.s, self.r
        out, deps = [], set()
        taken = set()
        root = t in ("Query", "Mutation", "Subscription")
        if t == "Subscription":
            fs, d = self.plain_fields(t, depth, infrag, taken, 1, 1)
            return ("{ " + " ".join(fs) + " }" if fs else None), d
        sp, reach = ([], set())
        if not root:
            if t in s.inames:
                sp, reach = self.spreads(lambda x: x == t or x in s.objects and t in s.impl[x])
            else:
                sp, reach = self.spreads(lambda x: x == t or x in s.inames and x in s.impl[t])
        # response keys already provided by the fragments
        fs, d = self.plain_fields(t, depth, infrag, taken, 0 if sp else 1, 4)
        if sp:
            # selecting a leaf twice is fine when it means the same field
            pass
        deps |= d
        out += fs
        out += ["..." + f for f in sp]
        deps |= set(sp)
        if t in s.inames and r.p(0.5):
            impl = [o for o in s.objects if t in s.impl[o]]
            for o in r.some(impl, 1, 2):
                tk = set(taken)
                xs, d = self.plain_fields(o, depth if not infrag else depth, infrag, tk, 1, 2)
                xs = [x for x in xs]
                if not xs:
                    continue
                deps |= d
                out.append(f"... on {o} {{ " + " ".join(xs) + " }")
        if not out:
            out = [self.leaf(t, taken)]
        if out == ["__typename"] and root:
            return None, deps
        if not root and r.p(0.4 if s.leaf_bias else 0.15) and "__typename" not in out:
            out.insert(r.randint(0, len(out)), "__typename")
        r.shuffle(out)
        return "{ " + " ".join(out) + " }", deps

    def union_sel(self, t, depth, infrag=False):
        s, r = self.s, self.r
        out, deps = [], set()
        if depth < 2 or not infrag:
            sp, _ = self.spreads(lambda x: x == t, 1)
            if sp and r.p(0.6):
                return "{ ..." + sp[0] + " }", set(sp)
        for o in r.some(s.unions[t], 1, 3):
            sp, reach = self.spreads(lambda x: x == o, 1)
            if sp and r.p(0.5) and not infrag:
                out.append("..." + sp[0])
                deps |= set(sp)
                continue
            taken = set()
            xs, d = self.plain_fields(o, depth, infrag, taken, 1, 3)
            deps |= d
            if sp and r.p(0.5):
                xs.append("..." + sp[0])
                deps |= set(sp)
            if not xs:
                xs = [self.leaf(o, taken)]
            out.append(f"... on {o} {{ " + " ".join(xs) + " }")
        return "{ " + " ".join(out) + " }", deps

    def operation(self, kind):
        s, r = self.s, self.r
        self.vars = []
        root = kind.capitalize()
        body, deps = self.sel(root, r.choice([2, 2, 3]))
        if body is None:
            return
        name = self.fresh(r.choice(["Get", "do", "fetchIt", "Load_"]) + kind[0])
        self.opdeps |= deps
        vs = "(" + ", ".join(f"${v}: {t}{d}" for v, t, d in self.vars) + ")" if self.vars else ""
        self.ops.append(f"{kind} {name}{vs} {body}")


STYLERS = [[], ["default"], ["snake"], ["cap"], ["cap", "snake"], ["default", "app"], ["app"], ["snake", "cap", "app"]]


def alone(schema, text):
    """errors of each operation with just the fragments it reaches: graphql-core can miss a
    conflict when the fragments were first compared inside another operation"""
    import graphql

    doc = graphql.parse(text)
    frags = {d.name.value: d for d in doc.definitions if isinstance(d, graphql.FragmentDefinitionNode)}
    ops = [d for d in doc.definitions if isinstance(d, graphql.OperationDefinitionNode)]
    if len(ops) < 2:
        return []

    def spreads(n):
        if isinstance(n, graphql.FragmentSpreadNode):
            return {n.name.value}
        ss = getattr(n, "selection_set", None)
        return set().union(*[spreads(x) for x in ss.selections]) if ss else set()

    for o in ops:
        seen, todo = [], sorted(spreads(o))
        while todo:
            f = todo.pop()
            if f not in seen:
                seen.append(f)
                todo += sorted(spreads(frags[f]))
        for order in (seen, sorted(seen)):
            e = graphql.validate(schema, graphql.DocumentNode(definitions=(o, *[frags[f] for f in order])))
            if e:
                return e
    return []


def pipeline_case(seed, plugins=("enums", "inputs", "fragments", "operations"), cfg=None, pcfg=None, stylers=None, avoid=(), many_enums=False):
    """a valid (schema, documents) pair with a configuration"""
    import graphql

    r = R(seed)
    for attempt in range(200):
        s = Schema(r, avoid, many_enums)
        d = Docs(s, r)
        if not d.ops:
            continue
        sdl = s.sdl()
        try:
            sch = graphql.build_schema(sdl)
            errs = graphql.validate_schema(sch) or graphql.validate(sch, graphql.parse("\n".join(d.docs))) or alone(sch, "\n".join(d.docs))
        except graphql.GraphQLError as e:
            errs = [e]
        if errs or sum(map(len, d.docs)) > 4000:
            continue
        c = {"scalar_definitions": s.custom} if s.custom else {}
        c.update(cfg or {})
        return {"seed": seed, "sdl": sdl, "docs": d.docs, "cfg": c, "pcfg": dict(pcfg or {}), "plugins": list(plugins), "stylers": list(stylers if stylers is not None else r.choice(STYLERS))}
    raise RuntimeError("no valid case")
