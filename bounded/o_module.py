"""C03 C04 C05 C06 C07: the generated module as a whole"""
import ast, builtins, copy, graphql, keyword, subprocess, sys, os, typing, types, hashlib, json, random
from graphql import FieldNode, FragmentSpreadNode, InlineFragmentNode, GraphQLInputObjectType, GraphQLEnumType
from pydantic import BaseModel
from .pipe import *
from .o_inputs import name_ok
from .o_results import opclass


def models(m, seen=None):
    out = []
    for v in list(m.__dict__.values()):
        if isinstance(v, type) and issubclass(v, BaseModel) and v.__module__ == m.__name__:
            out.append(v)
            for w in v.__dict__.values():
                if isinstance(w, type) and issubclass(w, BaseModel) and w.__qualname__.startswith(v.__qualname__ + "."):
                    out.append(w)
    return out


# ---------------------------------------------------------------- C03
def check_names(case):
    g = Gen(case)
    n = 0
    try:
        tree = ast.parse(g.code)
        classes = [c.name for c in tree.body if isinstance(c, ast.ClassDef)]
        for op in g.operations():
            cls = opclass(g, op)
            keys = {(s.alias or s.name).value for s in op.selection_set.selections if isinstance(s, FieldNode)} - {"__typename"}
            have = {(i.alias or f) for f, i in cls.model_fields.items()}
            need(keys <= have, f"{cls.__name__}: response keys {sorted(keys - have)} have no attribute")
            vs = {v.variable.name.value for v in op.variable_definitions}
            have = {(i.alias or f) for f, i in cls.Arguments.model_fields.items()}
            need(vs == have, f"{cls.__name__}.Arguments: wire names {sorted(have)} instead of {sorted(vs)}")
        for m in models(g.m):
            for f, i in m.model_fields.items():
                name_ok(f, i.alias or f)
                n += 1
                key = i.alias or f
                if key == "__typename":
                    continue
                for kind in ("parameter",) if m.__name__ == "Arguments" else ("node",):
                    exp = g.style(kind, key)
                    exp = exp + "_" if keyword.iskeyword(exp) else exp
                    need(f == exp, f"{m.__qualname__}.{f}: the stylers turn {key} into {exp}")
        # one name per class: references use the name of the definition
        docs = g.doc
        for d in docs.definitions:
            if isinstance(d, graphql.FragmentDefinitionNode):
                exp = g.style("fragment", d.name.value)
                t = g.schema.get_type(d.type_condition.name.value)
                if isinstance(t, graphql.GraphQLObjectType):
                    need(exp in classes, f"no class {exp} for fragment {d.name.value}")
                elif isinstance(t, graphql.GraphQLInterfaceType):
                    need(exp + "Base" in classes, f"no class {exp}Base for fragment {d.name.value}")
        for t in g.schema.type_map.values():
            if t.name.startswith("__"):
                continue
            if isinstance(t, GraphQLEnumType) and not pruned(case, "enums"):
                need(g.style("enum", t.name) in classes, f"no class for enum {t.name} under {case['stylers']}")
            if isinstance(t, GraphQLInputObjectType) and not pruned(case, "inputs"):
                need(g.style("input", t.name) in g.m.__dict__, f"no class for input {t.name} under {case['stylers']}")
        n += check_closed(g)
    finally:
        unload(g.m)
    return n


def pruned(case, p):
    return p not in case["plugins"] or bool(case["pcfg"].get(p, {}).get("skip_unreferenced", True) and case.get("docs"))


# ---------------------------------------------------------------- C04
def check_closed(g, rebuilt=True):
    tree = ast.parse(g.code)
    n = 0
    imported = []
    bound = set(dir(builtins)) | {"__name__"}
    for st in tree.body:
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                imported.append(((getattr(st, "module", None) or "") + "." if isinstance(st, ast.ImportFrom) else "") + a.name)
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            bound.add(st.name)
        for x in ast.walk(st):
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                bound.update(a.asname or a.name.split(".")[0] for a in x.names)
            if isinstance(x, ast.Assign) and st is x:
                bound.update(t.id for t in x.targets if isinstance(t, ast.Name))
    need(len(imported) == len(set(imported)), f"a name is imported twice: {sorted(imported)}")
    # names used in function bodies and annotations
    for st in tree.body:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            local = {a.arg for a in st.args.args + st.args.kwonlyargs + st.args.posonlyargs}
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    local.add(x.id)
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    n += 1
                    need(x.id in local or x.id in bound, f"function {st.name} uses unbound name {x.id}")
            f = g.m.__dict__.get(st.name)
            if isinstance(f, types.FunctionType):
                try:
                    typing.get_type_hints(f)
                except NameError as e:
                    raise Bad(f"annotations of {st.name}: {e}")
    if rebuilt:
        # classes naming another one before its definition
        fwd = set()
        for st in tree.body:
            if isinstance(st, ast.ClassDef):
                for x in st.body:
                    if isinstance(x, ast.AnnAssign) and forward_names(x.annotation):
                        fwd.add(st.name)
        for m in models(g.m):
            n += 1
            if m.__qualname__ not in fwd:
                # waits for a class that is itself completed later: pydantic does this on first use
                m.model_rebuild(raise_errors=False, _types_namespace=vars(g.m))
            need(m.__pydantic_complete__, f"{m.__qualname__} is not usable after import (unresolved forward reference)")
            try:
                typing.get_type_hints(m, vars(g.m), vars(m))
            except NameError as e:
                raise Bad(f"annotations of {m.__qualname__}: {e}")
    return n


def forward_names(a):
    """string constants in type position"""
    if isinstance(a, ast.Constant):
        return isinstance(a.value, str)
    if isinstance(a, ast.Subscript):
        v = a.value.id if isinstance(a.value, ast.Name) else ""
        if v == "Literal":
            return False
        if v == "Annotated":
            return forward_names(a.slice.elts[0])
        return forward_names(a.slice)
    if isinstance(a, (ast.Tuple, ast.List)):
        return any(forward_names(e) for e in a.elts)
    return False


def check_module(case):
    g = Gen(case)
    try:
        return check_closed(g, rebuilt=not case["cfg"].get("skip_forwards")) + 1
    finally:
        unload(g.m)


# ---------------------------------------------------------------- C05
def composite(schema, parent, f):
    if f.name.value.startswith("__"):
        return None
    fd = parent.fields[f.name.value]
    t = graphql.get_named_type(fd.type)
    return t if graphql.is_composite_type(t) else None


def check_documents(case):
    g = Gen(case)
    n = 0
    try:
        frags = {d.name.value: d for d in g.doc.definitions if isinstance(d, graphql.FragmentDefinitionNode)}

        def spreads(node, acc):
            for s in node.selection_set.selections if node.selection_set else ():
                if isinstance(s, FragmentSpreadNode):
                    if s.name.value not in acc:
                        acc.add(s.name.value)
                        spreads(frags[s.name.value], acc)
                else:
                    spreads(s, acc)
            return acc

        for op in g.operations():
            cls = opclass(g, op)
            text = cls.Meta.document
            try:
                doc = graphql.parse(text)
            except graphql.GraphQLError as e:
                raise Bad(f"document of {op.name.value} does not parse: {e.message}")
            errs = graphql.validate(g.schema, doc)
            need(not errs, f"document of {op.name.value} is invalid: {errs and errs[0].message}\n{text}")
            names = [(type(d).__name__, d.name.value) for d in doc.definitions]
            want = [("OperationDefinitionNode", op.name.value)] + [("FragmentDefinitionNode", f) for f in spreads(op, set())]
            need(sorted(names) == sorted(want), f"document of {op.name.value} defines {sorted(names)} instead of {sorted(want)}")
            for d in doc.definitions:
                src = op if isinstance(d, graphql.OperationDefinitionNode) else frags[d.name.value]
                root = graphql.get_operation_root_type(g.schema, src) if src is op else g.schema.get_type(src.type_condition.name.value)
                same_def(g.schema, src, d, root, src is op, d.name.value)
                n += 1
    finally:
        unload(g.m)
    return n


def same_def(schema, a, b, root, isop, where):
    for attr in ("name", "variable_definitions", "directives", "type_condition", "operation"):
        x, y = getattr(a, attr, None), getattr(b, attr, None)
        pr = lambda v: [graphql.print_ast(i) for i in v] if isinstance(v, (tuple, list)) else (graphql.print_ast(v) if isinstance(v, graphql.Node) else v)
        need(pr(x) == pr(y), f"{where}: {attr} changed from {pr(x)} to {pr(y)}")
    same_sel(schema, a.selection_set, b.selection_set, root, "root" if isop else "fragment", where)


def is_tn(s):
    return isinstance(s, FieldNode) and s.name.value == "__typename" and s.alias is None and not s.directives


def same_sel(schema, a, b, parent, kind, where):
    sa = [s for s in a.selections if not is_tn(s)]
    sb = [s for s in b.selections if not is_tn(s)]
    ta, tb = len(a.selections) - len(sa), len(b.selections) - len(sb)
    need(len(sa) == len(sb), f"{where}: selections changed from {graphql.print_ast(a)} to {graphql.print_ast(b)}")
    need(tb <= ta + 1 and tb >= ta, f"{where}: __typename selected {tb} times (written {ta} times)")
    if kind == "root":
        need(tb == ta, f"{where}: __typename added at the root")
    if kind in ("field", "fragment"):
        need(tb >= 1, f"{where}: __typename is not requested")
    for x, y in zip(sa, sb):
        need(type(x) is type(y), f"{where}: {graphql.print_ast(x)} became {graphql.print_ast(y)}")
        if isinstance(x, FragmentSpreadNode):
            need(graphql.print_ast(x) == graphql.print_ast(y), f"{where}: {graphql.print_ast(x)} became {graphql.print_ast(y)}")
            continue
        p = lambda n: [graphql.print_ast(i) for i in n.directives]
        need(p(x) == p(y), f"{where}: directives changed")
        if isinstance(x, InlineFragmentNode):
            cond = lambda n: n.type_condition and n.type_condition.name.value
            need(cond(x) == cond(y), f"{where}: type condition changed")
            t = schema.get_type(cond(x)) if cond(x) else parent
            same_sel(schema, x.selection_set, y.selection_set, t, "inline", f"{where}.on {cond(x)}")
            continue
        h = lambda n: ((n.alias and n.alias.value), n.name.value, [graphql.print_ast(i) for i in n.arguments])
        need(h(x) == h(y), f"{where}: field {h(x)} became {h(y)}")
        need((x.selection_set is None) == (y.selection_set is None), f"{where}: sub-selection changed")
        if x.selection_set:
            same_sel(schema, x.selection_set, y.selection_set, composite(schema, parent, x), "field", f"{where}.{h(x)[0] or h(x)[1]}")


# ---------------------------------------------------------------- C06
def check_fragment_order(case):
    g = Gen(case)
    n = 0
    try:
        tree = ast.parse(g.code)
        pos = {}
        for i, st in enumerate(tree.body):
            nm = st.name if isinstance(st, ast.ClassDef) else (st.targets[0].id if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) else None)
            if nm:
                pos.setdefault(nm, []).append(i)
        frags = {d.name.value: d for d in g.doc.definitions if isinstance(d, graphql.FragmentDefinitionNode)}

        def names(f):
            d = frags[f]
            b = g.style("fragment", f)
            t = g.schema.get_type(d.type_condition.name.value)
            if isinstance(t, graphql.GraphQLInterfaceType):
                return [b + "Base"] + [b + x.name for x in g.schema.get_implementations(t).objects]
            if isinstance(t, graphql.GraphQLUnionType):
                return [b] + [b + x.name for x in t.types]
            return [b]

        def deps(node, acc):
            for s in node.selection_set.selections if node.selection_set else ():
                if isinstance(s, FragmentSpreadNode):
                    acc.add(s.name.value)
                else:
                    deps(s, acc)
            return acc

        for f, d in frags.items():
            for c in names(f):
                need(len(pos.get(c, [])) == 1, f"class {c} of fragment {f} is emitted {len(pos.get(c, []))} times")
            for e in deps(d, set()):
                n += 1
                last = max(pos[c][0] for c in names(e) if c in pos)
                first = min(pos[c][0] for c in names(f))
                need(last < first, f"fragment {f} is emitted before {e}, which it uses")
    finally:
        unload(g.m)
    return n + 1


# ---------------------------------------------------------------- C07
def check_determinism(case):
    """the same batch in processes with different hash seeds, and in another order"""
    outs = []
    for seed, rev in (("0", 0), ("1", 1), ("4242", 0), ("77", 1)):
        env = dict(os.environ, PYTHONHASHSEED=seed, VERIF_REPO=REPO)
        p = subprocess.run([sys.executable, "-m", "bounded.worker", str(rev)], input=json.dumps(case["batch"]), capture_output=True, text=True, env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        if p.returncode:
            raise Bad(f"generation fails in a fresh process: {p.stderr[-300:]}")
        outs.append((seed, json.loads(p.stdout)))
    for seed, o in outs[1:]:
        for i, (a, b) in enumerate(zip(outs[0][1], o)):
            if a != b:
                la, lb = a.splitlines(), b.splitlines()
                d = next((k for k, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
                raise Bad(f"output of case {i} differs between PYTHONHASHSEED=0 and {seed}, line {d + 1}: {la[d:d+1]} / {lb[d:d+1]}")
    return len(case["batch"]) * 4


# ---------------------------------------------------------------- every dependency graph of up to four fragments (five: a sample)
def _dags(n):
    import itertools

    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    out = []
    for k in range(2 ** len(pairs)):
        e = [p for i, p in enumerate(pairs) if k >> i & 1]
        left, done = set(range(n)), set()
        while True:
            free = {x for x in left if all(b in done for a, b in e if a == x)}
            if not free:
                break
            done |= free
            left -= free
        if not left:
            out.append(e)
    return out


_graphs = []


def graph_case(seed):
    if not _graphs:
        for n in (1, 2, 3, 4):
            _graphs.extend((n, e) for e in _dags(n))
    n, edges = _graphs[seed % len(_graphs)]
    r = random.Random(seed)
    names = r.sample(["alpha", "Beta", "c3", "delta_x", "aEcho", "zulu", "b"], n)
    order = r.sample(range(n), n)
    defs = []
    for a in order:
        deps = [b for x, b in edges if x == a]
        r.shuffle(deps)
        body, inherit = ["x"], r.random() < 0.5
        for i, b in enumerate(deps):
            if inherit:
                body.append("..." + names[b])
                inherit = False
            else:
                body.append(r.choice([f"n{a}_{i}: child {{ ...{names[b]} }}", f"n{a}_{i}: child {{ x m: child {{ ...{names[b]} }} }}", f"n{a}_{i}: u {{ ... on A {{ ...{names[b]} }} }}",
                                      f"n{a}_{i}: node {{ x ... on A {{ y l{i}: child {{ ...{names[b]} }} }} }}"]))
        r.shuffle(body)
        defs.append("fragment %s on A { %s }" % (names[a], " ".join(body)))
    cut = r.randrange(n + 1)
    docs = [d for d in ("\n".join(defs[:cut]), "\n".join(defs[cut:])) if d]
    docs.append("query q { " + " ".join(f"a{i}: a {{ ...{m} }}" for i, m in enumerate(names)) + " }")
    sdl = "interface Node { x: Int! }\ntype A implements Node { x: Int! y: Int! child: A! u: U node: Node }\ntype B { z: Int! }\nunion U = A | B\ntype Query { a: A! }"
    return {"seed": seed, "sdl": sdl, "docs": docs, "cfg": {}, "pcfg": {}, "plugins": ["fragments"], "stylers": ["default"]}
