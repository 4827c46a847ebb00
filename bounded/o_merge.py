"""merging generated into existing modules (C11)"""
import ast, io, os, random, tokenize

from .pipe import need, scratch


class W:
    """one random module text; comments are unique"""

    def __init__(self, r, comments):
        self.r, self.c, self.n = r, comments, 0

    def com(self, ind=""):
        r = self.r
        if not self.c or r.random() < 0.6:
            return ""
        self.n += 1
        return "\n" * r.randint(0, 2) + f"{ind}# c{self.n}\n"

    def tail(self):
        if not self.c or self.r.random() < 0.7:
            return ""
        self.n += 1
        return f"  # c{self.n}"

    def args(self, meth):
        r = self.r
        xs = (["self"] if meth else []) + r.sample(["a", "b: int", "c: 'List[str]'", "d: Optional[int] = None", "e=3"], r.randint(0, 3))
        xs.sort(key=lambda x: "=" in x)
        if r.random() < 0.2:
            xs.append("*args")
        if r.random() < 0.2:
            xs.append("**kw")
        return ", ".join(xs)

    def func(self, name, ind, meth, deco=True):
        r = self.r
        d = f"{ind}@{r.choice(['classmethod', 'mod.deco(1)'])}\n" if deco and r.random() < 0.15 else ""
        a = "async " if r.random() < 0.3 else ""
        ret = r.choice(["", " -> int", " -> 'Foo'"])
        k = r.randint(0, 99)
        if r.random() < 0.12:
            one = r.choice([f"return {k}", f"x = {k}; return x", "...", f"'doc {k}'"])
            return f"{d}{ind}{a}def {name}({self.args(meth)}){ret}: {one}{self.tail()}\n"
        body = r.choice([
            f"{ind}    return {k}", f'{ind}    """doc {k}"""\n{ind}    x = {k}\n{ind}    return x',
            f"{ind}    if {k}:\n{ind}        return {k}\n{ind}    else:\n{self.com(ind + '        ')}{ind}        pass",
            f"{ind}    def inner(q):\n{ind}        return q + {k}\n{ind}    return inner({k})", f"{ind}    pass",
        ])
        return f"{d}{ind}{a}def {name}({self.args(meth)}){ret}:{self.tail()}\n{self.com(ind + '    ')}{body}{self.tail()}\n"

    def attr(self, name, ind):
        r = self.r
        t = r.choice(["int", "Optional[str]", "'Fwd'", "List['A.B']", "Annotated[int, Deprecated('x # y')]"])
        v = r.choice(["", " = None", f" = Field(alias='n{r.randint(0, 9)}')", " = 3"])
        return f"{ind}{name}: {t}{v}{self.tail()}\n"

    def other(self, ind, top):
        r = self.r
        k = r.randint(0, 999)
        xs = [f"{ind}plain{k} = {k}\n", f"{ind}'text {k}'\n", f"{ind}if {k}:\n{ind}    y{k} = 1\n", f"{ind}for i{k} in ():\n{ind}    pass\n",
              f"{ind}obj.attr{k} = 3\n", f"{ind}try:\n{ind}    z = {k}\n{ind}except E:\n{ind}    pass\n"]
        if top:
            xs += [f"import m{k}\n", f"from a{k} import (\n    b,\n    c,\n)\n", f"conf{k}: int = {k}\n", f"with x{k}:\n    pass\n"]
        else:
            xs += [f"{ind}class Nested{k}:\n{ind}    q: int = {k}\n", f"{ind}model_config = ConfigDict(a={k})\n"]
        return r.choice(xs)

    def cls(self, name, attrs, meths, others):
        r = self.r
        bases = r.choice(["", "(BaseModel)", "(Enum, str)", "(A.B, metaclass=M)"])
        d = "@strawberry.type\n" if r.random() < 0.2 else ""
        items = [("a", x) for x in attrs] + [("m", x) for x in meths] + [("o", None)] * others
        r.shuffle(items)
        if not items:
            if self.c and r.random() < 0.4:
                return f"{d}class {name}{bases}: ...{self.tail()}\n"
            return f"{d}class {name}{bases}:{self.tail()}\n    pass\n"
        out = f"{d}class {name}{bases}:{self.tail()}\n"
        if r.random() < 0.3:
            out += f'    """doc of {name}"""\n'
        for k, x in items:
            out += self.com("    ")
            out += self.attr(x, "    ") if k == "a" else self.func(x, "    ", True) if k == "m" else self.other("    ", False)
        return out + self.com("    ")


def merge_case(seed):
    r = random.Random(seed * 19 + 7)
    cn = ["Alpha", "Beta", "Gamma", "Delta", "Eps"]
    fn = ["one", "two", "three", "four"]
    an = ["a", "b", "c", "d", "e"]
    mn = ["f", "g", "h", "validate", "__call__"]
    texts = []
    keep = r.random() < 0.5
    for com in (True, False):
        w = W(r, com)
        items = []
        cs, fs = r.sample(cn, r.randint(0, 4)), r.sample(fn, r.randint(0, 3))
        for c in cs:
            items.append((c, w.cls(c, r.sample(an, r.randint(0, 4)), r.sample(mn, r.randint(0, 3)), r.randint(0, 2))))
        for f in fs:
            items.append((f, w.func(f, "", False)))
        for _ in range(r.randint(0, 3)):
            items.append((None, w.other("", True)))
        order = {n: i for i, n in enumerate(cn + fn)}
        if keep:
            items.sort(key=lambda x: order.get(x[0], 99))
        else:
            r.shuffle(items)
        t = '"""module doc"""\n' if r.random() < 0.3 else ""
        for _, x in items:
            t += w.com() + x + ("\n" if r.random() < 0.4 else "")
        t += w.com()
        if r.random() < 0.1:
            t = t.rstrip("\n")
        texts.append(t)
    return {"existing": texts[0], "generated": texts[1], "file": r.random() < 0.3}


def comments(t):
    return [x.string for x in tokenize.generate_tokens(io.StringIO(t).readline) if x.type == tokenize.COMMENT]


def key(n):
    if isinstance(n, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
        return n.name
    return None


def member(n):
    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
        return n.target.id
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return n.name
    return None


D = ast.dump


def same_function(out, gen, old, what):
    need(type(out) is type(gen), f"{what}: kind of function differs from the generated one")
    need(D(out.args) == D(gen.args) and (out.returns and D(out.returns)) == (gen.returns and D(gen.returns)), f"{what}: signature is not the generated one")
    need([D(x) for x in out.body] == [D(x) for x in old.body], f"{what}: hand-written body changed")


def check_sequence(out, old, gen, name, merged, what):
    """out holds every old statement in order, and the generated ones exactly once"""
    og = {name(n): n for n in gen if name(n)}
    oldn = {name(n) for n in old if name(n)}
    count = {}
    for n in out:
        if name(n):
            count[name(n)] = count.get(name(n), 0) + 1
    for g in set(og) | oldn:
        need(count.get(g) == 1, f"{what}: {g} is present {count.get(g, 0)} times")
    rest = [n for n in out if not (name(n) in og and name(n) not in oldn)]
    need(len(rest) == len(old), f"{what}: {len(rest)} statements besides the new ones, {len(old)} existed")
    for a, b in zip(rest, old):
        need(name(a) == name(b), f"{what}: order changed, {name(a) or D(a)[:60]} in place of {name(b) or D(b)[:60]}")
        if name(b) in og:
            merged(a, b, og[name(b)])
        else:
            need(D(a) == D(b), f"{what}: statement changed: {ast.unparse(b)[:80]}")
    for n in out:
        if name(n) in og and name(n) not in oldn:
            need(D(n) == D(og[name(n)]), f"{what}: {name(n)} differs from the generated one")


def check_merge(case):
    from turms.config import GeneratorConfig
    from turms.processors.merge import MergeProcessor, MergeProcessorConfig, merge_code

    old, gen = case["existing"], case["generated"]

    def run(existing):
        if not case["file"]:
            return merge_code(existing, gen, MergeProcessorConfig())
        with scratch() as d:
            p = MergeProcessor(config={"type": "x"})
            c = GeneratorConfig(out_dir=d, generated_name="g.py")
            need(p.run(gen, c) == gen, "without an existing file the generated code is changed")
            with open(os.path.join(d, "g.py"), "w", encoding="utf-8") as f:
                f.write(existing)
            res = p.run(gen, c)
            with open(os.path.join(d, "g.py"), encoding="utf-8") as f:
                need(f.read() == existing, "merging changed the existing file itself")
            return res

    out = run(old)
    try:
        to = ast.parse(out)
    except SyntaxError as e:
        need(False, f"merged module does not parse: {e}")
    te, tg = ast.parse(old), ast.parse(gen)

    def attr_or_method(a, b, g):
        if isinstance(b, ast.AnnAssign):
            need(D(a) == D(g), f"attribute {b.target.id} did not take over the generated annotation")
        else:
            same_function(a, g, b, b.name)

    def merged(a, b, g):
        if isinstance(b, ast.ClassDef):
            need(isinstance(a, ast.ClassDef) and [D(x) for x in a.bases + a.keywords + a.decorator_list] == [D(x) for x in b.bases + b.keywords + b.decorator_list], f"class {b.name}: header changed")
            check_sequence(a.body, b.body, g.body, member, attr_or_method, f"class {b.name}")
        else:
            same_function(a, g, b, b.name)

    check_sequence(to.body, te.body, tg.body, key, merged, "module")
    co = [c for c in comments(out) if c.startswith("# c")]
    # the lines above a function that takes over a generated signature are the generated ones
    gone = above_merged(old, te, tg)
    want = [c for c in comments(old) if c not in gone]
    co = [c for c in co if c not in gone]
    need(co == want, f"comments {[c for c in want if c not in co] or 'order'} lost or moved")
    again = run(out)
    need(again == out, "merging the same output again changes the module")
    return 1 + len(te.body)


def above_merged(old, te, tg):
    lines = old.splitlines()
    gone = set()
    gens = {key(n): n for n in tg.body if key(n)}

    def above(n):
        i = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 2
        for j in range(i + 1, n.body[0].lineno - 1):
            if lines[j].strip().startswith("@"):
                gone.update(comments_of(lines[j]))
        while i >= 0 and (not lines[i].strip() or lines[i].strip().startswith("#")):
            gone.update(comments_of(lines[i]))
            i -= 1

    for n in te.body:
        g = gens.get(key(n))
        if g is None:
            continue
        if isinstance(n, ast.ClassDef):
            ms = {member(x) for x in g.body if member(x)}
            for x in n.body:
                if not isinstance(x, ast.AnnAssign) and member(x) in ms:
                    above(x)
        else:
            above(n)
    return gone


def comments_of(line):
    return ["# c" + x.split()[0] for x in line.split("# c")[1:]]
