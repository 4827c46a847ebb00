"""Mechanical instrumentation of the code under verification.

Applied to every function body of every module loaded through `load_package`.
Nothing is dropped; the rewrites are:
  calls           f(a)          -> _vc_.call(f, a)          (except super())
  identity        a is b        -> _vc_.is_(a, b)
  membership      a in b        -> _vc_.in_(a, b)
  f-strings                     -> _vc_.fstr(...)
  displays        [..] {..}     -> _vc_.mklist / mkdict / mkset
  comprehensions                -> _vc_.listcomp/... with the element and guards as lambdas
  for loops                     -> the iterable is wrapped so an unknown-length
                                   iterable is summarised (see engine.Loop)
  subscripts      a[b] (load)   -> _vc_.getitem(a, b)
  unary not                     -> _vc_.not_(x)
Module level code, class bodies, decorators, annotations and defaults are left alone.
"""
import ast, sys, types, os, importlib.abc, importlib.util


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def vc(attr):
    return ast.Attribute(value=name("_vc_"), attr=attr, ctx=ast.Load())


def call(f, *args, keywords=()):
    return ast.Call(func=f, args=list(args), keywords=list(keywords))


def const(v):
    return ast.Constant(value=v)


class Stored(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.names:
            self.names.append(n.id)

    def visit_FunctionDef(self, n):
        if n.name not in self.names:
            self.names.append(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)

    def _comp(self, n):
        for c in ast.walk(n):
            if isinstance(c, ast.NamedExpr):
                self.visit(c.target)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


def args_of(target):
    """lambda taking one value and destructuring it like `target` would"""
    if isinstance(target, ast.Name):
        return ast.arguments(posonlyargs=[], args=[ast.arg(arg=target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), False
    if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in target.elts):
        return (
            ast.arguments(posonlyargs=[], args=[ast.arg(arg=e.id) for e in target.elts], kwonlyargs=[], kw_defaults=[], defaults=[]),
            True,
        )
    return None, None


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.depth = 0
        self.n = 0
        self.fn = []
        self.in_class_fn = []

    # only function bodies
    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        self.depth += 1
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(node))
        node.body = [self.visit(s) for s in node.body]
        node.body = flat(node.body)
        self.depth -= 1
        self.fn.pop()
        if self.depth:
            node.args.defaults = [self.visit(d) for d in node.args.defaults]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        node.body = flat([self.visit(s) for s in node.body])
        self.depth = d
        return node

    def visit_AnnAssign(self, node):
        if not self.depth:
            return node
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
            return node
        return node

    def visit_Lambda(self, node):
        if not self.depth:
            return node
        node.body = self.visit(node.body)
        return node

    def visit_Call(self, node):
        if not self.depth:
            return node
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "vars"):
            return self.generic_visit(node)
        f = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        args2 = []
        for a in args:
            if isinstance(a, ast.Starred):
                a = ast.Starred(value=call(vc("star"), a.value), ctx=ast.Load())
            args2.append(a)
        kws = [
            ast.keyword(arg=None, value=call(vc("starstar"), k.value)) if k.arg is None else k for k in kws
        ]
        return ast.copy_location(ast.Call(func=vc("call"), args=[f, *args2], keywords=kws), node)

    def visit_Compare(self, node):
        if not self.depth:
            return node
        node = self.generic_visit(node)
        if len(node.ops) == 1:
            return ast.copy_location(self.cmp(node.left, node.ops[0], node.comparators[0]), node)
        if any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in node.ops):
            # a op b op c with plain names/constants only
            parts, left = [], node.left
            for o, r in zip(node.ops, node.comparators):
                parts.append(self.cmp(left, o, r))
                left = r
            return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)
        return node

    def cmp(self, a, op, b):
        if isinstance(op, ast.Is):
            return call(vc("is_"), a, b)
        if isinstance(op, ast.IsNot):
            return call(vc("isnot"), a, b)
        if isinstance(op, ast.In):
            return call(vc("in_"), a, b)
        if isinstance(op, ast.NotIn):
            return call(vc("notin"), a, b)
        return ast.Compare(left=a, ops=[op], comparators=[b])

    def visit_UnaryOp(self, node):
        if not self.depth:
            return node
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(call(vc("not_"), node.operand), node)
        return node

    def visit_JoinedStr(self, node):
        if not self.depth:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec else const("")
                parts.append(
                    ast.Tuple(elts=[self.visit(v.value), const(v.conversion), spec], ctx=ast.Load())
                )
        return ast.copy_location(call(vc("fstr"), *parts), node)

    def visit_List(self, node):
        if not self.depth or not isinstance(node.ctx, ast.Load):
            return self.generic_visit(node) if self.depth else node
        return ast.copy_location(call(vc("mklist"), *self.elts(node.elts)), node)

    def visit_Set(self, node):
        if not self.depth:
            return node
        return ast.copy_location(call(vc("mkset"), *self.elts(node.elts)), node)

    def visit_Tuple(self, node):
        if not self.depth or not isinstance(node.ctx, ast.Load):
            return self.generic_visit(node) if self.depth else node
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return ast.copy_location(call(vc("mktuple"), *self.elts(node.elts)), node)
        return self.generic_visit(node)

    def elts(self, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.append(call(vc("spread"), self.visit(e.value)))
            else:
                out.append(self.visit(e))
        return out

    def visit_Dict(self, node):
        if not self.depth:
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(call(vc("spread"), self.visit(v)))
            else:
                items.append(ast.Tuple(elts=[self.visit(k), self.visit(v)], ctx=ast.Load()))
        return ast.copy_location(call(vc("mkdict"), *items), node)

    def visit_Subscript(self, node):
        if not self.depth:
            return node
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                sl = call(name("slice"), sl.lower or const(None), sl.upper or const(None), sl.step or const(None))
            return ast.copy_location(call(vc("getitem"), node.value, sl), node)
        return node

    # comprehensions -------------------------------------------------------
    def comp(self, node, kind, elts):
        ok = all(args_of(g.target)[0] is not None and not g.is_async for g in node.generators)
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(node)):
            ok = False
        if not ok:
            return ast.copy_location(call(vc("untranslated"), const(f"comprehension {ast.unparse(node)[:60]}")), node)
        self.n += 1
        site = f"{self.modname}:{'.'.join(self.fn)}:c{self.n}"
        # build nested runner:  lambda out: _vc_.each(it, lambda x: <guards> and inner, site)
        inner = call(name("__emit"), *[self.visit(e) for e in elts])
        for gi, g in reversed(list(enumerate(node.generators))):
            a, star = args_of(g.target)
            body = inner
            for c in reversed(g.ifs):
                body = ast.IfExp(test=self.visit(c), body=body, orelse=const(None))
            fn = ast.Lambda(args=a, body=body)
            inner = call(vc("each"), self.visit(g.iter), fn, const(star), const(f"{site}.{gi}"))
        emitfn = ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="__emit")], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=inner,
        )
        return ast.copy_location(call(vc(kind), emitfn), node)

    def visit_ListComp(self, node):
        return self.comp(node, "listcomp", [node.elt]) if self.depth else node

    def visit_SetComp(self, node):
        return self.comp(node, "setcomp", [node.elt]) if self.depth else node

    def visit_GeneratorExp(self, node):
        return self.comp(node, "genexp", [node.elt]) if self.depth else node

    def visit_DictComp(self, node):
        return self.comp(node, "dictcomp", [node.key, node.value]) if self.depth else node

    # loops ----------------------------------------------------------------
    def visit_For(self, node):
        if not self.depth:
            return node
        st = Stored()
        for s in node.body:
            st.visit(s)
        tn = Stored()
        tn.visit(node.target)
        names = [n for n in st.names if n not in tn.names]
        self.n += 1
        var = f"__l{self.n}"
        site = f"{self.modname}:{'.'.join(self.fn)}:f{self.n}"
        it = self.visit(node.iter)
        pre = ast.Assign(targets=[name(var, ast.Store())], value=call(vc("loop"), it, const(site), ast.Tuple(elts=[const(n) for n in names], ctx=ast.Load())))
        body = flat([self.visit(s) for s in node.body])
        orelse = flat([self.visit(s) for s in node.orelse])
        loop = ast.For(target=self.visit(node.target), iter=name(var), body=self.restore(var, names) + body, orelse=self.restore(var, names) + orelse)
        ast.copy_location(pre, node)
        ast.copy_location(loop, node)
        return [pre, loop]

    def visit_While(self, node):
        if not self.depth:
            return node
        if node.orelse:
            return ast.copy_location(ast.Expr(value=call(vc("untranslated"), const("while/else"))), node)
        st = Stored()
        for s in node.body:
            st.visit(s)
        self.n += 1
        var = f"__l{self.n}"
        site = f"{self.modname}:{'.'.join(self.fn)}:w{self.n}"
        pre = ast.Assign(targets=[name(var, ast.Store())], value=call(vc("whileloop"), const(site), ast.Tuple(elts=[const(n) for n in st.names], ctx=ast.Load())))
        test = ast.If(
            test=call(ast.Attribute(value=name(var), attr="stop", ctx=ast.Load()), ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=self.visit(node.test))),
            body=[ast.Break()],
            orelse=[],
        )
        body = flat([self.visit(s) for s in node.body])
        loop = ast.For(target=name(var + "_", ast.Store()), iter=name(var), body=self.restore(var, st.names) + [test] + body, orelse=[])
        ast.copy_location(pre, node)
        ast.copy_location(loop, node)
        return [pre, loop]

    def restore(self, var, names):
        out = [
            ast.If(
                test=call(ast.Attribute(value=name(var), attr="has", ctx=ast.Load()), const(n)),
                body=[ast.Assign(targets=[name(n, ast.Store())], value=call(ast.Attribute(value=name(var), attr="get", ctx=ast.Load()), const(n)))],
                orelse=[],
            )
            for n in names
        ]
        return [ast.If(test=ast.Attribute(value=name(var), attr="sym", ctx=ast.Load()), body=out, orelse=[])] if out else []

    def visit_Assert(self, node):
        if not self.depth:
            return node
        return self.generic_visit(node)

    def visit_Global(self, node):
        return node


def walk_own(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out.extend(x)
        elif x is not None:
            out.append(x)
    return out


def instrument(source, modname, filename):
    tree = ast.parse(source, filename)
    tree = Instr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, prefixes, runtime):
        self.prefixes, self.runtime = prefixes, runtime
        self.loaded = {}

    def find_spec(self, fullname, path=None, target=None):
        for pre, root in self.prefixes.items():
            if fullname == pre or fullname.startswith(pre + "."):
                rel = fullname.split(".")
                base = os.path.join(root, *rel)
                if os.path.isdir(base):
                    f = os.path.join(base, "__init__.py")
                    if os.path.exists(f):
                        return importlib.util.spec_from_file_location(
                            fullname, f, loader=self, submodule_search_locations=[base]
                        )
                elif os.path.exists(base + ".py"):
                    return importlib.util.spec_from_file_location(fullname, base + ".py", loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        src = open(fn, encoding="utf-8").read()
        module.__dict__["_vc_"] = self.runtime
        self.loaded[module.__name__] = fn
        code = instrument(src, module.__name__, fn)
        exec(code, module.__dict__)
