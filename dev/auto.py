"""Automatic refactorings of the package (not a registered check): behaviour-preserving rewrites of the syntax tree, each applied
to every function (or to one), on which every check has to stay quiet.  `python3 dev/auto.py [TRANSFORM[:FUNCTION] ...] [-f] [-t]`
(-f: one variant per function, -t: also run the stable tests on the variant, -n: only list)."""

import ast, concurrent.futures, copy, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
FILES = ["omemo/session_manager.py", "omemo/storage.py", "omemo/identity_key_pair.py", "omemo/bundle.py", "omemo/backend.py"]
FUN = (ast.FunctionDef, ast.AsyncFunctionDef)
N = [0]


def fresh(p="tmp"):
    N[0] += 1
    return f"{p}_{N[0]}"


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def assign(n, v):
    return ast.Assign([name(n, True)], v, lineno=0)


def blocks(node):
    for f in ("body", "orelse", "finalbody"):
        b = getattr(node, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield f, b
    for h in getattr(node, "handlers", []):
        yield from blocks(h)


class Stmts:
    """Rewrites statement lists bottom-up: visit(stmt) -> list of statements."""

    def __init__(self, visit):
        self.visit = visit

    def block(self, b):
        out = []
        for s in b:
            self.inside(s)
            out.extend(self.visit(s))
        return out

    def inside(self, s):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(s, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(s, f, self.block(b))
        for h in getattr(s, "handlers", []):
            self.inside(h)


class Expr(ast.NodeTransformer):
    """Expression rewriting that does not enter nested functions twice."""


def negate(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
             ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}
        return ast.Compare(e.left, [m[type(e.ops[0])]()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)


# ------------------------------------------------------------------------------------------------------------ transforms
def t_invert(fn):
    def v(s):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            s.test, s.body, s.orelse = negate(s.test), s.orelse, s.body
        return [s]
    Stmts(v).inside(fn)


def t_elif(fn):
    """guards that leave become if/else"""
    def blk(b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Raise, ast.Break)) and b[i + 1:]:
                s.orelse = blk(b[i + 1:])
                return b[:i + 1]
        return b

    def walk(s):
        for f, b in list(blocks(s)):
            pass
        for f in ("body", "orelse", "finalbody"):
            b = getattr(s, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for x in b:
                    walk(x)
                setattr(s, f, blk(b))
        for h in getattr(s, "handlers", []):
            walk(h)
    walk(fn)


def t_guard(fn):
    """a trailing if in a loop body becomes a guard with continue"""
    def v(s):
        if isinstance(s, (ast.For, ast.AsyncFor)) and s.body and isinstance(s.body[-1], ast.If) and not s.body[-1].orelse:
            i = s.body[-1]
            s.body = s.body[:-1] + [ast.If(negate(i.test), [ast.Continue()], [])] + i.body
        return [s]
    Stmts(v).inside(fn)


def t_nest(fn):
    """a and b in an if without else becomes two ifs"""
    def v(s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            a, r = s.test.values[0], s.test.values[1:]
            s.test = a
            s.body = [ast.If(r[0] if len(r) == 1 else ast.BoolOp(ast.And(), r), s.body, [])]
        return [s]
    Stmts(v).inside(fn)


def t_demorgan(fn):
    class D(ast.NodeTransformer):
        def visit_Compare(self, n):
            return n
        visit_Call = visit_Compare

        def visit_BoolOp(self, n):
            self.generic_visit(n)
            op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [negate(v) for v in n.values]))
    for s in fn.body:
        for x in ast.walk(s):
            if isinstance(x, (ast.If, ast.IfExp, ast.While)):
                x.test = D().visit(x.test)


def t_swapcmp(fn):
    class D(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            m = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            if len(n.ops) == 1 and type(n.ops[0]) in m and not any(isinstance(x, ast.Await) for x in ast.walk(n)):
                return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
            return n
    fn.body = [D().visit(s) for s in fn.body]


def t_ternary(fn):
    def v(s):
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Return)) and isinstance(s.value, ast.IfExp):
            a, b = copy.copy(s), copy.copy(s)
            a.value, b.value = s.value.body, s.value.orelse
            if isinstance(s, ast.AnnAssign):
                b = ast.Assign([s.target], s.value.orelse, lineno=0)
            return [ast.If(s.value.test, [a], [b])]
        return [s]
    Stmts(v).inside(fn)


def first_evaluated(s):
    """(holder, field) of the expression a simple statement evaluates first and alone."""
    if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Return, ast.Expr)) and s.value is not None:
        return s, "value"
    if isinstance(s, ast.If):
        return s, "test"
    if isinstance(s, (ast.For, ast.AsyncFor)):
        return s, "iter"
    return None


def t_args(fn):
    """call arguments and receivers become temporaries"""
    def v(s):
        fe = first_evaluated(s)
        if fe is None:
            return [s]
        h, f = fe
        e = getattr(h, f)
        pre = []
        c = e.value if isinstance(e, ast.Await) else e
        if not isinstance(c, ast.Call) or isinstance(c.func, ast.Name) and c.func.id in ("next", "super", "cast", "isinstance"):
            return [s]
        if "logging" in ast.unparse(c.func):
            return [s]
        for i, a in enumerate(c.args):
            if isinstance(a, (ast.Starred, ast.GeneratorExp, ast.Lambda, ast.Name, ast.Constant)):
                continue
            t = fresh("arg")
            pre.append(assign(t, a))
            c.args[i] = name(t)
        for k in c.keywords:
            if k.arg and not isinstance(k.value, (ast.Name, ast.Constant)):
                t = fresh("arg")
                pre.append(assign(t, k.value))
                k.value = name(t)
        return pre + [s]
    Stmts(v).inside(fn)


def t_cond(fn):
    """conditions become variables"""
    def v(s):
        if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
            t = fresh("cond")
            p = assign(t, s.test)
            s.test = name(t)
            return [p, s]
        return [s]

    def no_elif(s):
        if isinstance(s, ast.If) and len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
            pass
        return [s]
    Stmts(v).inside(fn)


def t_self(fn):
    """attributes of self that are only read become locals at the start (storage, jids)"""
    if not fn.args.args or fn.args.args[0].arg != "self" or not isinstance(fn, ast.AsyncFunctionDef):
        return
    for a in ("__storage", "__own_bare_jid", "__own_device_id", "__undecided_trust_level_name", "__backends"):
        uses = [x for x in ast.walk(fn) if isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.value, ast.Name) and x.value.id == "self"]
        if not uses or any(not isinstance(x.ctx, ast.Load) for x in uses):
            continue
        loc = a.lstrip("_") + "_local"

        class D(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if n.attr == a and isinstance(n.value, ast.Name) and n.value.id == "self":
                    return name(loc)
                return n
        k = 1 if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body[k:] = [assign(loc, ast.Attribute(name("self"), a, ast.Load()))] + [D().visit(s) for s in fn.body[k:]]


def comp_loop(c, t):
    init = {ast.ListComp: ast.List([], ast.Load()), ast.SetComp: ast.Call(name("set"), [], []), ast.DictComp: ast.Dict([], [])}[type(c)]
    if isinstance(c, ast.DictComp):
        body = [ast.Assign([ast.Subscript(name(t), c.key, ast.Store())], c.value, lineno=0)]
    else:
        body = [ast.Expr(ast.Call(ast.Attribute(name(t), "append" if isinstance(c, ast.ListComp) else "add", ast.Load()), [c.elt], []))]
    for g in reversed(c.generators):
        for i in reversed(g.ifs):
            body = [ast.If(i, body, [])]
        body = [(ast.AsyncFor if g.is_async else ast.For)(g.target, g.iter, body, [], lineno=0)]
    return [assign(t, init)] + body


def t_comp(fn):
    """comprehensions that a statement evaluates become loops"""
    def v(s):
        fe = first_evaluated(s)
        if fe is None or "logging" in ast.unparse(getattr(*fe)):
            return [s]
        h, f = fe
        pre = []

        def go(e, set_field):
            if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp)):
                t = fresh("items")
                pre.extend(comp_loop(e, t))
                set_field(name(t))
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("frozenset", "set", "list", "dict", "sorted") and len(e.args) == 1:
                a = e.args[0]
                if isinstance(a, ast.GeneratorExp):
                    a = ast.copy_location((ast.SetComp if e.func.id in ("set", "frozenset") else ast.ListComp)(a.elt, a.generators), a)
                go(a, lambda x: e.args.__setitem__(0, x))
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("update", "extend", "union") and len(e.args) == 1:
                go(e.args[0], lambda x: e.args.__setitem__(0, x))
            elif isinstance(e, ast.Await) and isinstance(e.value, ast.Call):
                for i in range(len(e.value.args)):
                    if all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute, ast.JoinedStr)) for x in e.value.args[:i]):
                        go(e.value.args[i], lambda x, i=i: e.value.args.__setitem__(i, x))
        go(getattr(h, f), lambda x: setattr(h, f, x))
        return pre + [s]
    Stmts(v).inside(fn)


def t_setcomp(fn):
    """frozenset({...}) <-> frozenset(generator), list comprehension inside set()"""
    class D(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in ("frozenset", "set") and len(n.args) == 1:
                a = n.args[0]
                if isinstance(a, (ast.SetComp, ast.GeneratorExp)):
                    n.args[0] = ast.ListComp(a.elt, a.generators)
                elif isinstance(a, ast.ListComp):
                    n.args[0] = ast.SetComp(a.elt, a.generators)
            return n
    D().visit(fn)


def t_filter(fn):
    """filter(lambda x: c, xs) becomes a generator expression"""
    class D(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "filter" and isinstance(n.args[0], ast.Lambda):
                l = n.args[0]
                x = l.args.args[0].arg
                return ast.GeneratorExp(name(x), [ast.comprehension(name(x, True), n.args[1], [l.body], 0)])
            return n
    D().visit(fn)


def t_next(fn):
    """x = next(filter(...), default) becomes a loop with a break"""
    def v(s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call) \
                and isinstance(s.value.func, ast.Name) and s.value.func.id == "next" and len(s.value.args) == 2:
            g, d = s.value.args
            if isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id == "filter" and isinstance(g.args[0], ast.Lambda):
                l = g.args[0]
                x = l.args.args[0].arg
                it, cond, elt = g.args[1], l.body, name(x)
            elif isinstance(g, ast.GeneratorExp) and len(g.generators) == 1:
                q = g.generators[0]
                if not isinstance(q.target, ast.Name):
                    return [s]
                x, it, elt = q.target.id, q.iter, g.elt
                cond = q.ifs[0] if len(q.ifs) == 1 else ast.BoolOp(ast.And(), q.ifs)
            else:
                return [s]
            t = fresh("cand")

            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    return name(t) if n.id == x else n
            return [assign(s.targets[0].id, d), ast.For(name(t, True), it, [ast.If(R().visit(cond), [
                ast.Assign(s.targets, R().visit(elt), lineno=0), ast.Break()], [])], [], lineno=0)]
        return [s]
    Stmts(v).inside(fn)


def t_lambda(fn):
    """lambdas become named functions"""
    def v(s):
        if isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With) + FUN):
            return [s]
        pre = []

        class D(ast.NodeTransformer):
            def visit_Lambda(self, n):
                if n.args.defaults:
                    return n
                t = fresh("pred")
                pre.append(ast.FunctionDef(t, n.args, [ast.Return(n.body)], [], lineno=0))
                return name(t)

            def visit_ListComp(self, n):
                return n
            visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        s = D().visit(s)
        return pre + [s]
    Stmts(v).inside(fn)


def t_rename(fn):
    """every local variable gets another name"""
    params = {a.arg for x in ast.walk(fn) if isinstance(x, FUN + (ast.Lambda,)) for a in x.args.args + x.args.kwonlyargs}
    stored = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
    exc = {h.name for h in ast.walk(fn) if isinstance(h, ast.ExceptHandler) and h.name}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in stored | exc:
            x.id = "v_" + x.id
        if isinstance(x, ast.ExceptHandler) and x.name:
            x.name = "v_" + x.name


def t_enum(fn):
    """for x in xs -> for _, x in enumerate(xs)"""
    def v(s):
        if isinstance(s, ast.For):
            s.target = ast.Tuple([name(fresh("i"), True), s.target], ast.Store())
            s.iter = ast.Call(name("enumerate"), [s.iter], [])
        return [s]
    Stmts(v).inside(fn)


def t_listiter(fn):
    def v(s):
        if isinstance(s, ast.For):
            s.iter = ast.Call(name("list"), [s.iter], [])
        return [s]
    Stmts(v).inside(fn)


def t_result(fn):
    """return e -> result = e; return result"""
    def v(s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            t = fresh("result")
            return [assign(t, s.value), ast.Return(name(t))]
        return [s]
    Stmts(v).inside(fn)


def t_nolog(fn):
    """log statements go"""
    def v(s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and "logging.getLogger" in ast.unparse(s.value.func):
            return []
        return [s]

    class P(Stmts):
        def block(self, b):
            return super().block(b) or [ast.Pass()]
    P(v).inside(fn)


def t_key(fn):
    """f-string keys become variables"""
    def v(s):
        fe = first_evaluated(s)
        if fe is None:
            return [s]
        h, f = fe
        pre = []
        e = getattr(h, f)
        while isinstance(e, (ast.Await, ast.Call, ast.Attribute)):
            if isinstance(e, ast.Call):
                if e.args and isinstance(e.args[0], ast.JoinedStr) and "storage" in ast.unparse(e.func):
                    t = fresh("key")
                    pre.append(assign(t, e.args[0]))
                    e.args[0] = name(t)
                e = e.func
            else:
                e = e.value
        return pre + [s]
    Stmts(v).inside(fn)


def t_aug(fn):
    """x |= e / x += e -> x = x op e on plain names"""
    def v(s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            return [assign(s.target.id, ast.BinOp(name(s.target.id), s.op, s.value))]
        return [s]
    Stmts(v).inside(fn)


def t_add(fn):
    """x.add(e) -> x.update({ e }), x.append(e) -> x.extend([ e ])"""
    def v(s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and len(s.value.args) == 1:
            c = s.value
            if c.func.attr == "add":
                c.func.attr, c.args = "update", [ast.Set(c.args)]
            elif c.func.attr == "append":
                c.func.attr, c.args = "extend", [ast.List(c.args, ast.Load())]
            elif c.func.attr == "remove" and not isinstance(c.func.value, ast.Call):
                c.func.attr = "discard"
        return [s]
    Stmts(v).inside(fn)


def t_truth(fn):
    """len(x) > 0 -> x, len(x) == 0 -> not x"""
    class D(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == "len" \
                    and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value == 0:
                if isinstance(n.ops[0], ast.Gt):
                    return ast.Call(name("bool"), n.left.args, [])
                if isinstance(n.ops[0], ast.Eq):
                    return ast.UnaryOp(ast.Not(), n.left.args[0])
            return n
    D().visit(fn)


def t_anyloop(fn):
    """if any(c for x in xs): -> found flag"""
    def v(s):
        if isinstance(s, ast.If) and isinstance(s.test, ast.Call) and isinstance(s.test.func, ast.Name) and s.test.func.id in ("any", "all") \
                and isinstance(s.test.args[0], (ast.GeneratorExp, ast.ListComp)):
            g = s.test.args[0]
            t = fresh("flag")
            is_any = s.test.func.id == "any"
            body = [ast.If(g.elt if is_any else negate(g.elt), [assign(t, ast.Constant(is_any)), ast.Break()], [])]
            q = g.generators[0]
            if len(g.generators) > 1:
                return [s]
            for i in reversed(q.ifs):
                body = [ast.If(i, body, [])]
            s.test = name(t)
            return [assign(t, ast.Constant(not is_any)), ast.For(q.target, q.iter, body, [], lineno=0), s]
        return [s]
    Stmts(v).inside(fn)


def t_unpack(fn):
    """for a, b in xs -> for p in xs: a, b = p"""
    def v(s):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple):
            t = fresh("pair")
            s.body.insert(0, ast.Assign([s.target], name(t), lineno=0))
            s.target = name(t, True)
        return [s]
    Stmts(v).inside(fn)


def t_items(fn):
    """for k, v in d.items() -> for k in d: v = d[k]   (d a name)"""
    def v(s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" \
                and isinstance(s.iter.func.value, ast.Name) and isinstance(s.target, ast.Tuple):
            d = s.iter.func.value
            k, val = s.target.elts
            if not isinstance(k, ast.Name):
                return [s]
            s.target, s.iter = k, d
            s.body.insert(0, ast.Assign([val], ast.Subscript(d, name(k.id), ast.Load()), lineno=0))
        return [s]
    Stmts(v).inside(fn)


def t_tryelse(fn):
    """try/except/else where the handlers all leave: the else part goes after the try statement"""
    def v(s):
        if isinstance(s, ast.Try) and s.orelse and not s.finalbody and all(
                isinstance(h.body[-1], (ast.Raise, ast.Return, ast.Continue)) for h in s.handlers):
            rest, s.orelse = s.orelse, []
            return [s] + rest
        return [s]
    Stmts(v).inside(fn)


def t_excsplit(fn):
    """except (A, B) -> two handlers with the same body"""
    def v(s):
        if isinstance(s, ast.Try):
            hs = []
            for h in s.handlers:
                if isinstance(h.type, ast.Tuple):
                    for t in h.type.elts:
                        hs.append(ast.ExceptHandler(t, h.name, copy.deepcopy(h.body)))
                else:
                    hs.append(h)
            s.handlers = hs
        return [s]
    Stmts(v).inside(fn)


def t_exctemp(fn):
    """raise E(...) from e -> error = E(...); raise error from e"""
    def v(s):
        if isinstance(s, ast.Raise) and isinstance(s.exc, ast.Call):
            t = fresh("error")
            p = assign(t, s.exc)
            s.exc = name(t)
            return [p, s]
        return [s]
    Stmts(v).inside(fn)


def t_walrus(fn):
    """x = e; if f(x) -> if f(x := e) for the plain test x is None"""
    def blk(b):
        out = []
        for s in b:
            if out and isinstance(s, ast.If) and isinstance(out[-1], ast.Assign) and len(out[-1].targets) == 1 and isinstance(out[-1].targets[0], ast.Name) \
                    and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == out[-1].targets[0].id:
                a = out.pop()
                s.test.left = ast.NamedExpr(a.targets[0], a.value)
            out.append(s)
        return out

    class W(Stmts):
        def block(self, b):
            return blk(super().block(b))
    W(lambda s: [s]).inside(fn)


def t_swap(fn):
    """adjacent independent simple assignments are swapped"""
    def names(s, ctx):
        return {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}

    def pure(s):
        return isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) and not any(
            isinstance(x, (ast.Await, ast.Call, ast.NamedExpr)) for x in ast.walk(s))

    def blk(b):
        b = list(b)
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and (pure(x) or pure(y)) and not any(
                    isinstance(t, ast.Attribute) for q in (x, y) for t in q.targets):
                if not names(x, ast.Store) & (names(y, ast.Load) | names(y, ast.Store)) and not names(y, ast.Store) & names(x, ast.Load):
                    b[i], b[i + 1] = y, x
                    i += 1
            i += 1
        return b

    class W(Stmts):
        def block(self, b):
            return blk(super().block(b))
    W(lambda s: [s]).inside(fn)


def t_ifexp(fn):
    """if c: x = a else: x = b -> x = a if c else b"""
    def v(s):
        if isinstance(s, ast.If) and len(s.body) == 1 == len(s.orelse) and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
                and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
            return [ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value), lineno=0)]
        return [s]
    Stmts(v).inside(fn)


def t_format(fn):
    """f-strings -> str.format (keys handed to the storage only)"""
    class D(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            if any(isinstance(x, ast.FormattedValue) and (x.format_spec or x.conversion != -1) for x in n.values):
                return n
            txt, args = "", []
            for x in n.values:
                if isinstance(x, ast.Constant):
                    txt += x.value.replace("{", "{{").replace("}", "}}")
                else:
                    txt += "{}"
                    args.append(x.value)
            return ast.Call(ast.Attribute(ast.Constant(txt), "format", ast.Load()), args, [])
    D().visit(fn)


def t_concat(fn):
    class D(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            if any(isinstance(x, ast.FormattedValue) and (x.format_spec or x.conversion != -1) for x in n.values):
                return n
            out = None
            for x in n.values:
                y = x if isinstance(x, ast.Constant) else ast.Call(name("str"), [x.value], [])
                out = y if out is None else ast.BinOp(out, ast.Add(), y)
            return out or n
    D().visit(fn)


SIMPLE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}


# ------------------------------------------------------------------------------------------------------------ method extraction
def own_level(b, kinds, loops=(ast.For, ast.While, ast.AsyncFor)):
    """statements of the given kinds that belong to the block itself (not to a loop inside)"""
    for s in b:
        if isinstance(s, kinds):
            yield s
        if isinstance(s, FUN):
            continue
        brk = isinstance(s, loops)
        for f, c in blocks(s):
            k = tuple(x for x in kinds if not (brk and f == "body" and x in (ast.Break, ast.Continue)))
            if k:
                yield from own_level(c, k)


def extractions(fn):
    """(path to the block, description): blocks that can become a method"""
    out = []

    def walk(s, path):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(s, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                if s is not fn and len(b) >= 1 and not isinstance(s, FUN) and not (f == "orelse" and isinstance(b[0], ast.If) and len(b) == 1):
                    out.append(path + [(f, None)])
                for i, x in enumerate(b):
                    walk(x, path + [(f, i)])
        for j, h in enumerate(getattr(s, "handlers", [])):
            for i, x in enumerate(h.body):
                walk(x, path + [("handlers", j), ("body", i)])
            out.append(path + [("handlers", j), ("body", None)])
    walk(fn, [])
    return out


def names_in(nodes, ctx):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ctx):
                out.add(x.id)
            if isinstance(x, ast.ExceptHandler) and x.name and ctx is ast.Store:
                out.add(x.name)
            if isinstance(x, FUN) and ctx is ast.Store:
                out.add(x.name)
    return out


def needed(fn, b, name):
    """May the name's value be used after the block?"""

    end = b[-1].end_lineno
    bound = set()
    for x in ast.walk(fn):
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if any(name in names_in([g.target], ast.Store) for g in x.generators):
                bound |= {id(y) for y in ast.walk(x)} - {id(y) for y in ast.walk(x.generators[0].iter)}
        if isinstance(x, (ast.For, ast.While, ast.AsyncFor)) and x.lineno < b[0].lineno and x.end_lineno >= end:
            return True
    after = sorted((x.lineno, x.col_offset, isinstance(x.ctx, ast.Load)) for x in ast.walk(fn)
                   if isinstance(x, ast.Name) and x.id == name and x.lineno > end and id(x) not in bound)
    if not after:
        return False
    line, col, load = after[0]
    return load or not any(isinstance(x, ast.For) and isinstance(x.target, ast.Name) and x.target.lineno == line and x.target.col_offset == col
                           and name not in names_in([x.iter], ast.Load) for x in ast.walk(fn))


def extract(cls, fn, path, nested=False):
    """Extract the block; None if it cannot be done simply."""
    holder = fn
    for f, i in path:
        if i is None:
            field = f
            break
        holder = getattr(holder, f)[i]
    b = getattr(holder, field)
    isloop = isinstance(holder, ast.For) and field == "body"
    if any(own_level(b, (ast.Return, ast.Break))) or any(isinstance(x, (ast.Yield, ast.Nonlocal) + FUN) for s in b for x in ast.walk(s)):
        return None
    cont = list(own_level(b, (ast.Continue,)))
    if cont and not isloop or any(isinstance(x, ast.Raise) and x.exc is None for s in b for x in ast.walk(s)):
        return None
    params0 = [a.arg for a in fn.args.args + fn.args.kwonlyargs]
    comps = set()
    for s in b:
        for x in ast.walk(s):
            if isinstance(x, ast.comprehension):
                comps |= names_in([x.target], ast.Store)
            if isinstance(x, ast.Lambda):
                comps |= {a.arg for a in x.args.args}
    locs = (names_in(fn.body, ast.Store) | set(params0)) - {a for a in params0[:1] if a in ("self", "cls")}
    targets = {id(n) for s in b for x in ast.walk(s) if isinstance(x, ast.comprehension) for n in ast.walk(x.target)}
    stored = {x.id for s in b for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in targets}
    stored |= {x.name for s in b for x in ast.walk(s) if isinstance(x, ast.ExceptHandler) and x.name}
    loaded = names_in(b, ast.Load)
    keep = copy.deepcopy(b)
    setattr(holder, field, [ast.Pass()])
    outside = names_in(fn.body, ast.Load)
    setattr(holder, field, keep)
    b = keep
    if any(isinstance(x, FUN) and x is not fn and x.lineno <= b[0].lineno <= x.end_lineno for x in ast.walk(fn)):
        return None
    if any(isinstance(x, (ast.For, ast.While)) and x.lineno < b[0].lineno and x.end_lineno >= b[-1].end_lineno for x in ast.walk(fn)):
        outside |= loaded
    outs = sorted(o for o in stored & outside if needed(fn, b, o))
    if isloop:
        # carried from one iteration to the next
        pass
    sure = {t.id for s in b if isinstance(s, (ast.Assign, ast.AnnAssign)) for t in (s.targets if isinstance(s, ast.Assign) else [s.target])
            if isinstance(t, ast.Name)}
    before = set(params0)
    for x in ast.walk(fn):
        if isinstance(x, ast.stmt) and x.lineno < b[0].lineno and not any(x is y for s in b for y in ast.walk(s)):
            if isinstance(x, (ast.Assign, ast.AnnAssign, ast.For)):
                before |= names_in(x.targets if isinstance(x, ast.Assign) else [x.target], ast.Store)
            if isinstance(x, FUN):
                before.add(x.name)
    for x in ast.walk(fn):
        if isinstance(x, ast.ExceptHandler) and x.name and x.lineno <= b[0].lineno <= x.end_lineno:
            before.add(x.name)
    params = sorted(((loaded & locs) | {o for o in outs if o not in sure}) & before)
    if any(o not in sure and o not in before for o in outs) or cont and outs:
        return None
    missing = (loaded & locs) - before - stored - comps
    if missing:
        return None
    isasync = any(isinstance(x, (ast.Await, ast.AsyncFor, ast.AsyncWith)) or isinstance(x, ast.comprehension) and x.is_async for s in b for x in ast.walk(s))
    first = fn.args.args[0].arg if fn.args.args and fn.args.args[0].arg in ("self", "cls") else None
    if first is None and not nested:
        return None

    class C(ast.NodeTransformer):
        def visit_Continue(self, n):
            return ast.Return(None)

        def visit_For(self, n):
            n.orelse = [self.visit(x) for x in n.orelse]
            return n
        visit_While = visit_For
    body = [C().visit(s) for s in copy.deepcopy(b)] if cont else copy.deepcopy(b)
    if outs:
        body.append(ast.Return(name(outs[0]) if len(outs) == 1 else ast.Tuple([name(o) for o in outs], ast.Load())))
    n = fresh("_extracted")
    args = ([] if nested else [ast.arg(first)]) + [ast.arg(p) for p in params]
    deco = [name("classmethod")] if first == "cls" and not nested else []
    d = (ast.AsyncFunctionDef if isasync else ast.FunctionDef)(n, ast.arguments([], args, None, [], [], None, []), body, deco, lineno=0)
    call = ast.Call(name(n) if nested else ast.Attribute(name(first), n, ast.Load()), [name(p) for p in params], [])
    if isasync:
        call = ast.Await(call)
    if outs:
        st = ast.Assign([name(outs[0], True) if len(outs) == 1 else ast.Tuple([name(o, True) for o in outs], ast.Store())], call, lineno=0)
    else:
        st = ast.Expr(call)
    setattr(holder, field, [st])
    if nested:
        k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body.insert(k, d)
    else:
        cls.body.insert(cls.body.index(fn) + 1, d)
    return f"{fn.name}:{b[0].lineno}"


# ------------------------------------------------------------------------------------------------------------ driver
def functions(tree):
    for c in tree.body:
        if isinstance(c, ast.ClassDef):
            for f in c.body:
                if isinstance(f, FUN):
                    yield c, f
        elif isinstance(c, FUN):
            yield None, c


def variants(filters, per_function):
    for path in FILES:
        src = open(os.path.join("/repo", path)).read()
        base = ast.unparse(ast.parse(src))
        for t, go in SIMPLE.items():
            names = [None]
            if per_function:
                names = [f.name for _, f in functions(ast.parse(src))]
            for fname in names:
                tag = f"{t}:{fname}" if fname else t
                if filters and not any(x == tag or x == t or x == f"{t}:{(fname or '').strip('_')}" for x in filters):
                    continue
                tree = ast.parse(src)
                for _, f in functions(tree):
                    if fname is None or f.name == fname:
                        go(f)
                new = ast.unparse(ast.fix_missing_locations(tree))
                if new != base:
                    yield f"{tag} {os.path.basename(path)}", path, new
        for mode in ("extract", "nested"):
            if filters and not any(x.split(":")[0] == mode for x in filters):
                continue
            for c0, f0 in functions(ast.parse(src)):
                if filters and not any(x == mode or x.split(":")[1:2] == [f0.name.strip("_")] for x in filters if x.split(":")[0] == mode):
                    continue
                for p in extractions(f0):
                    tree = ast.parse(src)
                    c, f = next((c, f) for c, f in functions(tree) if f.name == f0.name and (c.name if c else None) == (c0.name if c0 else None))
                    if c is None:
                        continue
                    got = extract(c, f, p, mode == "nested")
                    if got:
                        yield f"{mode} {got} {'/'.join(str(x) for x, _ in p)}", path, ast.unparse(ast.fix_missing_locations(tree))


def run(v):
    tag, path, text = v
    d = tempfile.mkdtemp(prefix="osa_auto_", dir="/tmp")
    try:
        shutil.copytree("/repo/omemo", os.path.join(d, "omemo"))
        open(os.path.join(d, path), "w").write(text)
        pr = subprocess.run(["/opt/venv/bin/python", "-c", "import omemo, omemo.session_manager"], capture_output=True, text=True, cwd=d)
        if pr.returncode:
            return tag, None, pr.stderr[-300:]
        if "-t" in sys.argv:
            shutil.copytree("/repo/tests", os.path.join(d, "tests"))
            pr = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], capture_output=True, text=True, cwd=d,
                                env=dict(os.environ, PYTHONPATH=d))
            if "-T" not in sys.argv and "2 passed" not in pr.stdout:
                return tag, None, "TESTS " + pr.stdout[-600:]
        if "-k" in sys.argv:
            k = "/tmp/auto_" + re.sub(r"\W+", "_", tag)
            shutil.rmtree(k, ignore_errors=True)
            shutil.copytree(d, k)
        p = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), "all", "-v"], capture_output=True, text=True,
                           env=dict(os.environ, OSA_REPO=d, OSA_EVIDENCE=os.path.join(d, "ev")), timeout=3000)
        return tag, p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return tag, None, "TIMEOUT"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    filters = [a for a in sys.argv[1:] if not a.startswith("-")]
    vs = list(variants(filters, "-f" in sys.argv))
    print(len(vs), "variants", flush=True)
    if "-n" in sys.argv:
        for v in vs:
            print(v[0])
        return
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        for tag, rc, out in ex.map(run, vs):
            fired = sorted(set(re.findall(r"VIOLATION property=(\w+)", out)))
            und = [l for l in out.splitlines() if re.match(r"C\d+:", l) and " 0 undecided" not in l]
            ok = rc == 0 and not fired
            bad += not ok
            print("ok " if ok else "BAD", tag, fired, "| undecided:", [l.split(":")[0] + ":" + l.split(", ")[2] for l in und], flush=True)
            if not ok or und:
                seen = 0
                for l in out.splitlines():
                    if (rc is None or re.match(r"   (violated|undecided)|Trace|\w*Error|rc=2|  File", l)) and seen < 12:
                        seen += 1
                        print("      ", l[:330])
    print("bad:", bad, "of", len(vs))


if __name__ == "__main__":
    main()
