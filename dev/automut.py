"""automut.py [FILTER ...] [-n] [-j N]: mechanical mutations of /repo's code (not behaviour-preserving); lists those that neither a
check nor the stable tests notice ("SURVIVOR"), to be reviewed by hand: equivalent, outside of all properties, or a gap."""

import ast, concurrent.futures, copy, os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ("session_manager.py", "storage.py", "identity_key_pair.py", "backend.py")
FUN = (ast.FunctionDef, ast.AsyncFunctionDef)
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Lt: ast.LtE, ast.LtE: ast.Lt,
       ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def islog(s):
    return isinstance(s, ast.Expr) and "logging.getLogger" in ast.unparse(s)


def isdoc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def bodies(fn):
    for x in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield x, f, b


def muts(fn):
    """(description, function that changes the tree)."""

    for x, f, b in bodies(fn):
        real = [s for s in b if not islog(s) and not isdoc(s)]
        for s in real:
            if isinstance(s, (ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.AugAssign)) or \
                    isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name) or \
                    isinstance(s, ast.If):
                yield f"{s.lineno} delete {ast.unparse(s)[:60]!r}", (x, f, s, ast.Pass())
            if isinstance(s, ast.If) and not s.orelse:
                yield f"{s.lineno} always {ast.unparse(s.test)[:60]!r}", (s, "test", None, ast.Constant(True))
            if isinstance(s, ast.Continue):
                yield f"{s.lineno} continue->break", (x, f, s, ast.Break())
            if isinstance(s, ast.Break):
                yield f"{s.lineno} break->pass", (x, f, s, ast.Continue())
        for s, t in zip(real, real[1:]):
            if any(isinstance(y, ast.Await) for y in ast.walk(s)) and any(isinstance(y, ast.Await) for y in ast.walk(t)) \
                    and not isinstance(s, (ast.Assign, ast.AnnAssign)) and not isinstance(t, FUN):
                yield f"{s.lineno} swap with the next {ast.unparse(s)[:40]!r} / {ast.unparse(t)[:40]!r}", (x, f, (s, t), None)
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in CMP:
            yield f"{x.lineno} op {ast.unparse(x)[:70]!r}", (x, "ops", None, [CMP[type(x.ops[0])]()])
        if isinstance(x, ast.BoolOp):
            yield f"{x.lineno} and/or {ast.unparse(x)[:70]!r}", (x, "op", None, ast.Or() if isinstance(x.op, ast.And) else ast.And())
            for i in range(len(x.values)):
                yield f"{x.lineno} drop operand {i} of {ast.unparse(x)[:70]!r}", (x, "values", None, [v for j, v in enumerate(x.values) if j != i])
        if isinstance(x, ast.comprehension) and x.ifs:
            yield f"{x.target.lineno} drop filter {ast.unparse(x.ifs[0])[:60]!r}", (x, "ifs", None, [])
        if isinstance(x, ast.Constant) and type(x.value) is int:
            for d in (1, -1):
                yield f"{x.lineno} const {x.value}{d:+d}", (x, "value", None, x.value + d)
        if isinstance(x, ast.Constant) and type(x.value) is bool:
            yield f"{x.lineno} const not {x.value}", (x, "value", None, not x.value)
        if isinstance(x, ast.IfExp):
            yield f"{x.lineno} ifexp->body {ast.unparse(x)[:60]!r}", (x, "test", None, ast.Constant(True))
            yield f"{x.lineno} ifexp->orelse {ast.unparse(x)[:60]!r}", (x, "test", None, ast.Constant(False))
        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            yield f"{x.lineno} left of {ast.unparse(x)[:60]!r}", (x, "REPLACE", None, x.left)
            yield f"{x.lineno} right of {ast.unparse(x)[:60]!r}", (x, "REPLACE", None, x.right)
        if isinstance(x, ast.ExceptHandler) and isinstance(x.type, ast.Tuple):
            for i in range(len(x.type.elts)):
                yield f"{x.lineno} handler without {ast.unparse(x.type.elts[i])}", (x, "type", None, ast.Tuple([e for j, e in enumerate(x.type.elts) if j != i], ast.Load()))
        if isinstance(x, ast.ExceptHandler) and x.type is not None:
            yield f"{x.lineno} handler for all instead of {ast.unparse(x.type)}", (x, "type", None, ast.Name("Exception", ast.Load()))
        if isinstance(x, ast.JoinedStr) and "/" in ast.unparse(x)[:5]:
            for i, v in enumerate(x.values):
                if isinstance(v, ast.FormattedValue):
                    yield f"{x.lineno} key without {ast.unparse(v.value)} {ast.unparse(x)[:60]}", (x, "values", None, [w for j, w in enumerate(x.values) if j != i])
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("dict", "set", "frozenset", "list") and len(x.args) == 1:
            yield f"{x.lineno} without copy {ast.unparse(x)[:60]!r}", (x, "REPLACE", None, x.args[0])
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("any", "all"):
            yield f"{x.lineno} any/all {ast.unparse(x)[:60]!r}", (x.func, "id", None, "all" if x.func.id == "any" else "any")
        if isinstance(x, ast.Call) and len(x.args) >= 2:
            yield f"{x.lineno} swapped args {ast.unparse(x)[:60]!r}", (x, "args", None, [x.args[1], x.args[0]] + x.args[2:])


def apply(tree, change):
    x, f, s, new = change
    if f == "REPLACE":
        class R(ast.NodeTransformer):
            def visit(self, n):
                return new if n is x else self.generic_visit(n)
        R().visit(tree)
    elif s is None:
        setattr(x, f, new)
    else:
        b = getattr(x, f)
        if isinstance(s, tuple):
            i, j = b.index(s[0]), b.index(s[1])
            b[i], b[j] = b[j], b[i]
        else:
            b[b.index(s)] = new


def variants(filters):
    out = []
    for file in FILES:
        src = open("/repo/omemo/" + file).read()
        base = ast.parse(src)
        fns = [(c.name, f.name) for c in base.body if isinstance(c, ast.ClassDef) for f in c.body if isinstance(f, FUN)]
        for cn, fnn in fns:
            k = 0
            while True:
                tree = ast.parse(src)
                fn = next(f for c in tree.body if isinstance(c, ast.ClassDef) and c.name == cn for f in c.body if isinstance(f, FUN) and f.name == fnn)
                if any(isinstance(d, ast.Name) and d.id == "abstractmethod" for d in fn.decorator_list):
                    break
                if file == "backend.py" and fnn != "__init__":
                    break
                ms = [m for m in muts(fn) if not inlog(fn, m[1][0])]
                if k >= len(ms):
                    break
                d, ch = ms[k]
                k += 1
                tag = f"{file}:{fnn}:{d}"
                if filters and not any(x in tag for x in filters):
                    continue
                apply(tree, ch)
                try:
                    text = ast.unparse(ast.fix_missing_locations(tree))
                    compile(text, file, "exec")
                except Exception:
                    continue
                out.append((tag, file, text))
    return out


def inlog(fn, node):
    return any(islog(s) and any(y is node for y in ast.walk(s)) for s in ast.walk(fn) if isinstance(s, ast.Expr)) or any(
        isinstance(s, ast.Raise) and s is not node and any(y is node for y in ast.walk(s)) for s in ast.walk(fn))


def run(v):
    tag, file, text = v
    d = tempfile.mkdtemp(prefix="osa_am_", dir="/tmp")
    try:
        shutil.copytree("/repo/omemo", d + "/omemo", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{d}/omemo/{file}", "w").write(text)
        env = dict(os.environ, OSA_REPO=d, OSA_EVIDENCE=d + "/ev", PYTHONDONTWRITEBYTECODE="1")
        try:
            p = subprocess.run([sys.executable, ROOT + "/check.py", "all"], env=env, capture_output=True, text=True, timeout=600)
            fired = sorted(set(re.findall(r"VIOLATION property=(\w+)", p.stdout)))
            und = [l.split(":")[0] for l in p.stdout.splitlines() if re.match(r"C\d+:", l) and " 0 undecided" not in l]
            err = "" if p.returncode in (0, 1) else " RC=%s" % p.returncode
        except subprocess.TimeoutExpired:
            return tag, "TIMEOUT", [], []
        if fired:
            return tag, "caught", fired, und
        shutil.copytree("/repo/tests", d + "/tests")
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d,
                               env=dict(env, PYTHONPATH=d), capture_output=True, text=True, timeout=120)
            ok = t.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        return tag, ("SURVIVOR" if ok else "tests") + err, fired, und
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]
    jobs = 6
    if "-j" in args:
        i = args.index("-j")
        jobs = int(args[i + 1])
        args[i:i + 2] = []
    vs = variants([a for a in args if not a.startswith("-")])
    print(len(vs), "mutants", flush=True)
    if "-n" in args:
        for v in vs:
            print(v[0])
        return
    n = {}
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for f in concurrent.futures.as_completed([ex.submit(run, v) for v in vs]):
            tag, res, fired, und = f.result()
            n[res] = n.get(res, 0) + 1
            print(f"{res:9s} {tag} {fired} {'undecided: ' + ' '.join(und) if und else ''}", flush=True)
    print(n)


if __name__ == "__main__":
    main()
