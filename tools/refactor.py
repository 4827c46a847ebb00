"""refactor.py KINDS DEST: a copy of /repo with behaviour-preserving rewrites applied to every function of turms.
Used to see that the checks stay quiet (nothing refuted) under such edits."""
import ast, os, shutil, sys

PURE = (ast.Name, ast.Constant, ast.Attribute)


class Base(ast.NodeTransformer):
    n = 0

    def fresh(self):
        self.n += 1
        return f"tmp_{self.n}"

    def block(self, body, fn):
        return body

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and self.infn:
                setattr(node, f, self.stmts(b))
        return node

    infn = 0

    def visit_FunctionDef(self, node):
        self.infn += 1
        self.generic_visit(node)
        self.infn -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        return node

    def stmts(self, b):
        out = []
        for i, s in enumerate(b):
            out += self.stmt(s)
        return out

    def stmt(self, s):
        return [s]


class Append(Base):  # x += [e] -> x.append(e)
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.value, ast.List) and isinstance(s.target, ast.Name):
            return [ast.Expr(ast.Call(ast.Attribute(ast.Name(s.target.id, ast.Load()), "append", ast.Load()), [e], [])) for e in s.value.elts]
        return [s]


class Invert(Base):  # if c: A else: B -> if not c: B else: A
    def visit_If(self, s):
        self.generic_visit(s)
        if s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
        return s

    def visit_IfExp(self, s):
        self.generic_visit(s)
        return ast.IfExp(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)


class Ret(Base):  # return e -> result = e; return result
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, PURE):
            v = self.fresh()
            return [ast.Assign([ast.Name(v, ast.Store())], s.value), ast.Return(ast.Name(v, ast.Load()))]
        return [s]


class Comp(Base):  # v = [e for ..] -> loop
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and len(s.value.generators) == 1:
            v, t, g = s.value, self.fresh(), s.value.generators[0]
            new = {y.id: self.fresh() for y in ast.walk(g.target) if isinstance(y, ast.Name)}  # a loop variable outlives the loop
            if any(isinstance(y, (ast.comprehension, ast.Lambda)) and y is not g for y in ast.walk(v)):
                return [s]
            it = g.iter
            for part in ([v.elt] if isinstance(v, ast.ListComp) else [v.key, v.value]) + g.ifs + [g.target]:
                for y in ast.walk(part):
                    if isinstance(y, ast.Name) and y.id in new:
                        y.id = new[y.id]
            if isinstance(v, ast.ListComp):
                init, add = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [v.elt], []))
            else:
                init, add = ast.Dict([], []), ast.Assign([ast.Subscript(ast.Name(t, ast.Load()), v.key, ast.Store())], v.value)
            body = [add]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.Assign([ast.Name(t, ast.Store())], init), ast.For(g.target, g.iter, body, []), ast.Assign(s.targets, ast.Name(t, ast.Load()))]
        return [s]


class Enumerate(Base):  # for x in xs -> for _, x in enumerate(xs)
    def visit_For(self, s):
        self.generic_visit(s)
        return ast.For(ast.Tuple([ast.Name("_position", ast.Store()), s.target], ast.Store()), ast.Call(ast.Name("enumerate", ast.Load()), [s.iter], []), s.body, s.orelse)


class Listed(Base):  # for x in xs -> items = list(xs); for x in items
    def stmt(self, s):
        if isinstance(s, ast.For):
            t = self.fresh()
            return [ast.Assign([ast.Name(t, ast.Store())], ast.Call(ast.Name("list", ast.Load()), [s.iter], [])), ast.For(s.target, ast.Name(t, ast.Load()), s.body, s.orelse)]
        return [s]


class Continue(Base):  # if c: continue; rest -> if not c: rest
    def visit_For(self, s):
        self.generic_visit(s)
        s.body = self.nest(s.body)
        return s

    def nest(self, b):
        for i, x in enumerate(b):
            if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.Continue) and b[i + 1:]:
                return b[:i] + [ast.If(ast.UnaryOp(ast.Not(), x.test), self.nest(b[i + 1:]), [])]
        return b


class IfExp(Base):  # v = a if c else b -> if c: v = a else: v = b
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            v = s.value
            return [ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(s.targets, v.orelse)])]
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            v = s.value
            return [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]
        return [s]


class Elif(Base):  # elif -> else: if ; and if a and b (no else) -> nested
    def visit_If(self, s):
        self.generic_visit(s)
        if not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            body = s.body
            for c in reversed(s.test.values):
                body = [ast.If(c, body, [])]
            return body[0]
        return s


class FString(Base):  # f"a{b}" -> "a" + str(b)
    def visit_JoinedStr(self, s):
        if any(isinstance(v, ast.FormattedValue) and (v.conversion != -1 or v.format_spec) for v in s.values) or not s.values:
            return s
        out = None
        for v in s.values:
            e = v if isinstance(v, ast.Constant) else ast.Call(ast.Name("str", ast.Load()), [v.value], [])
            out = e if out is None else ast.BinOp(out, ast.Add(), e)
        return out


class Format(Base):  # f"a{b}" -> "a{}".format(b)
    def visit_JoinedStr(self, s):
        if any(isinstance(v, ast.FormattedValue) and (v.conversion != -1 or v.format_spec) for v in s.values):
            return s
        text = "".join(v.value.replace("{", "{{").replace("}", "}}") if isinstance(v, ast.Constant) else "{}" for v in s.values)
        return ast.Call(ast.Attribute(ast.Constant(text), "format", ast.Load()), [v.value for v in s.values if not isinstance(v, ast.Constant)], [])


class Helper(Base):  # v = Call(...) -> def build(): return Call(...) ; v = build()
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and not any(isinstance(x, (ast.Await, ast.Yield, ast.NamedExpr)) for x in ast.walk(s)):
            f = self.fresh()
            d = ast.FunctionDef(f, ast.arguments([], [], None, [], [], None, []), [ast.Return(s.value)], [], None, None, [])
            return [d, ast.Assign(s.targets, ast.Call(ast.Name(f, ast.Load()), [], []))]
        return [s]


class Names(Base):  # ast.Name(..) -> module-level helper
    def visit_Call(self, c):
        self.generic_visit(c)
        if self.infn and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "ast" and c.func.attr in ("Name", "Constant", "keyword", "Subscript", "AnnAssign"):
            self.used = True
            return ast.Call(ast.Name("_make_" + c.func.attr, ast.Load()), c.args, c.keywords)
        return c

    def module(self, tree):
        if getattr(self, "used", False):
            i = max([k for k, s in enumerate(tree.body) if isinstance(s, (ast.Import, ast.ImportFrom))], default=0) + 1
            for n in ("Name", "Constant", "keyword", "Subscript", "AnnAssign"):
                tree.body[i:i] = ast.parse(f"def _make_{n}(*args, **kwargs):\n    return ast.{n}(*args, **kwargs)\n").body


class Body(Base):  # the body of a for loop in a nested helper returning nothing (when it assigns only locals of the body)
    def visit_FunctionDef(self, node):
        self.infn += 1
        self.generic_visit(node)
        self.infn -= 1
        self.wrap(node)
        return node

    def wrap(self, fn):
        args = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        for blk in [x for x in ast.walk(fn) if isinstance(getattr(x, "body", None), list)]:
            for i, s in enumerate(list(blk.body)):
                if not isinstance(s, ast.For) or s.orelse or not isinstance(s.target, (ast.Name, ast.Tuple)):
                    continue
                inner = [y for b in s.body for y in ast.walk(b)]
                if any(isinstance(y, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Await, ast.AugAssign, ast.FunctionDef, ast.Nonlocal)) for y in inner):
                    continue
                stored = {y.id for y in inner if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                outside = {y.id for y in ast.walk(fn) if isinstance(y, ast.Name)} if False else set()
                ids_in = {id(y) for y in inner}
                if any(isinstance(y, ast.Name) and y.id in stored and id(y) not in ids_in for y in ast.walk(fn)) or stored & args:
                    continue
                f = self.fresh()
                tn = [y.id for y in ast.walk(s.target) if isinstance(y, ast.Name)]
                d = ast.FunctionDef(f, ast.arguments([], [ast.arg(t) for t in tn], None, [], [], None, []), s.body, [], None, None, [])
                call = ast.Expr(ast.Call(ast.Name(f, ast.Load()), [ast.Name(t, ast.Load()) for t in tn], []))
                loop = ast.For(s.target, s.iter, [call], [])
                k = blk.body.index(s)
                blk.body[k:k + 1] = [d, loop]


class While(Base):  # for x in xs -> index loop (no continue inside)
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and not any(isinstance(y, ast.Continue) for b in s.body for y in ast.walk(b)):
            t, i = self.fresh(), self.fresh()
            return ast.parse(f"{t} = list(__X__)\n{i} = 0").body[:0] + [
                ast.Assign([ast.Name(t, ast.Store())], ast.Call(ast.Name("list", ast.Load()), [s.iter], [])),
                ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
                ast.While(ast.parse(f"{i} < len({t})", mode="eval").body,
                          [ast.Assign([s.target], ast.parse(f"{t}[{i}]", mode="eval").body), *s.body, ast.parse(f"{i} += 1").body[0]], [])]
        return [s]


class Locals(Base):  # ast.X(a=e) -> keyword values (calls) bound to locals first, for assignments and returns
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and not s.value.args:
            out = []
            for k in s.value.keywords:
                if k.arg and isinstance(k.value, (ast.Call, ast.List, ast.ListComp)):
                    v = self.fresh()
                    out.append(ast.Assign([ast.Name(v, ast.Store())], k.value))
                    k.value = ast.Name(v, ast.Load())
            return out + [s]
        return [s]


class Gen(Base):  # v = [e for..] -> v = list(e for ..);   for loops over reversed(reversed)
    def visit_ListComp(self, c):
        self.generic_visit(c)
        return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(c.elt, c.generators)], [])


class Isinst(Base):  # consecutive "if isinstance(..): return" -> if/elif chain
    def stmts(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and not s.orelse and out and isinstance(out[-1], ast.If) and isinstance(last_of(out[-1]).body[-1], (ast.Return, ast.Raise, ast.Continue)) and not last_of(out[-1]).orelse:
                last_of(out[-1]).orelse = [s]
            else:
                out.append(s)
        return out


def last_of(i):
    while len(i.orelse) == 1 and isinstance(i.orelse[0], ast.If):
        i = i.orelse[0]
    return i


class Noop(Base):
    def visit_FunctionDef(self, node):
        super().visit_FunctionDef(node)
        k = 1 if ast.get_docstring(node) else 0
        node.body[k:k] = ast.parse("unused_value = None\n").body
        return node


KINDS = {c.__name__: c for c in [Append, Invert, Ret, Comp, Enumerate, Listed, Continue, IfExp, Elif, FString, Format, Helper, Names, Body, While, Locals, Gen, Isinst, Noop]}


def main(kinds, dest):
    if os.path.exists(dest):
        shutil.rmtree(dest)
    shutil.copytree("/repo", dest, ignore=shutil.ignore_patterns(".git", ".venv", "node_modules"))
    for root, _, files in os.walk(dest + "/turms"):
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(root, f)
                tree = ast.parse(open(p).read())
                for k in kinds:
                    t = KINDS[k]()
                    tree = t.visit(tree)
                    if hasattr(t, "module"):
                        t.module(tree)
                ast.fix_missing_locations(tree)
                open(p, "w").write(ast.unparse(tree) + "\n")


if __name__ == "__main__":
    if len(sys.argv) < 3:
        print(" ".join(KINDS))
    else:
        main(sys.argv[1].split(","), sys.argv[2])
