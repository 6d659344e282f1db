"""
Path-sensitive dataflow analysis (abstract interpretation with trace partitioning) over the syntax tree of the
package.

The abstract domain tracks, per program path, the provenance term of every variable, object content and
field, the set of branch conditions (facts) that hold, and the ordered trace of *effects*: calls of backend
methods, of the storage API, of the abstract hooks of the session manager, spawned tasks, sleeps and writes of
manager state.  Package functions, nested functions and lambdas are resolved and inlined; loops are analysed
once for a symbolic element, with loop-carried values generalised.  No code of the package is executed.
"""

from __future__ import annotations

import ast
from typing import Any, Callable, Dict, FrozenSet, Iterable, List, Optional, Sequence, Set, Tuple

from . import terms
from .liveness import Liveness
from .program import AnalysisBroken, Cls, Func, Module, Program
from .terms import (
    FALSE, NONE, SELF, T, TRUE, add, assume, attr, coll, coll_of, conj, const, contains, cval, dict_items,
    dict_keys, dictof, dictv, disj, elem, enum, eq, exists, fresh_part, instantiate, is_const, is_formula, isin, item,
    le, literal_coll, lt, mk, ne, neg, nonempty, nt, param, part, role, scale, simplify, string, subst, tup,
    truthy, typeof
)

MAX_DEPTH = 14
MAX_STATES = 20000

BV = mk("bv")


_NIDS: Dict[int, Tuple[int, Any]] = {}


def nid(node: Any) -> int:
    """A run-independent number of a syntax node."""

    r = _NIDS.get(id(node))
    if r is None:
        r = _NIDS[id(node)] = (len(_NIDS) + 1, node)
    return r[0]


class _Split(list):  # type: ignore
    """The classes of an except clause whose body tells them apart."""


def tells_apart(h: ast.ExceptHandler) -> bool:
    for s in h.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id in ("isinstance", "issubclass", "type") or isinstance(x, ast.Match) \
                    or isinstance(x, ast.Attribute) and x.attr == "__class__":
                return True
    return False


def log_call(s: ast.stmt) -> bool:
    if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
        return True
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in (
        "debug", "info", "warning", "error", "critical", "exception", "log", "warn") and not any(
            isinstance(x, (ast.Await, ast.NamedExpr)) for x in ast.walk(s))


def passes_on(h: ast.ExceptHandler) -> bool:
    """The failure leaves the handler as it came, after nothing but logging."""

    if not h.body or not all(log_call(s) for s in h.body[:-1]):
        return False
    s = h.body[-1]
    return isinstance(s, ast.Raise) and s.cause is None and (
        s.exc is None or isinstance(s.exc, ast.Name) and s.exc.id == h.name)


class Exc:
    __slots__ = ("cls", "val")

    def __init__(self, cls: str, val: T) -> None:
        self.cls = cls
        self.val = val


class Ev:
    """One effect occurrence on a path."""

    __slots__ = ("kind", "name", "recv", "args", "term", "facts", "failed", "line", "fn", "path", "stack", "caught", "held", "shared", "also")

    def __init__(self, kind: str, name: str, recv: T, args: Dict[str, T], term: T, facts: FrozenSet[T],
                 failed: Optional[str], line: int, fn: str, path: str, stack: Tuple[str, ...]) -> None:
        self.caught: FrozenSet[str] = frozenset()
        self.held: Tuple[T, ...] = ()
        self.also: FrozenSet[str] = frozenset()
        self.shared: Dict[str, T] = {}
        self.kind, self.name, self.recv, self.args, self.term = kind, name, recv, args, term
        self.facts, self.failed, self.line, self.fn, self.path, self.stack = facts, failed, line, fn, path, stack

    @property
    def site(self) -> str:
        return f"{self.path}:{self.line} {self.fn}"

    def __repr__(self) -> str:
        f = f" !{self.failed}" if self.failed else ""
        return f"<{self.kind} {self.name}({', '.join(k + '=' + terms.show(v, 4) for k, v in self.args.items())}){f} L{self.line}>"


class Enter:
    __slots__ = ("uid", "chain", "line", "fn")

    def __init__(self, uid: Any, chain: Tuple[T, ...], line: int, fn: str) -> None:
        self.uid, self.chain, self.line, self.fn = uid, chain, line, fn


class BodyPath:
    __slots__ = ("chain", "guards", "cell", "enter", "signal", "facts", "updates", "exc", "value")

    def __init__(self, chain: Tuple[T, ...], guards: FrozenSet[T], cell: "Cell", enter: "Cell", signal: str,
                 facts: FrozenSet[T]) -> None:
        self.chain, self.guards, self.cell, self.enter = chain, guards, cell, enter
        self.signal, self.facts = signal, facts
        self.updates: Dict[str, Tuple[Optional[T], T, T]] = {}
        self.exc: Optional[Exc] = None
        self.value: Optional[T] = None

    def cells(self) -> List["Cell"]:
        out = []
        c = self.cell
        while c is not self.enter and c is not None:
            out.append(c)
            c = c.prev
        out.reverse()
        return out


class LoopNode:
    """``partial``: the loop was left early, only the iterations before that one ran."""

    __slots__ = ("uid", "kind", "paths", "line", "fn", "path", "partial")

    def __init__(self, uid: Any, kind: str, paths: List[BodyPath], line: int, fn: str, path: str, partial: bool = False) -> None:
        self.uid, self.kind, self.paths, self.line, self.fn, self.path = uid, kind, paths, line, fn, path
        self.partial = partial and kind != "while"


class Cell:
    __slots__ = ("prev", "node")

    def __init__(self, prev: Optional["Cell"], node: Any) -> None:
        self.prev, self.node = prev, node


class State:
    __slots__ = ("env", "heap", "fields", "facts", "trace")

    def __init__(self) -> None:
        self.env: Dict[Tuple[Any, str], T] = {}
        self.heap: Dict[T, T] = {}
        self.fields: Dict[Tuple[T, str], T] = {}
        self.facts: FrozenSet[T] = frozenset()
        self.trace: Optional[Cell] = None

    def clone(self) -> "State":
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.fields = dict(self.fields)
        s.facts = self.facts
        s.trace = self.trace
        return s

    def rename(self, m: Dict[T, T]) -> None:
        memo: Dict[Any, Any] = {}
        self.env = {k: subst(v, m, memo) for k, v in self.env.items()}
        self.heap = {subst(k, m, memo): subst(v, m, memo) for k, v in self.heap.items()}
        self.fields = {(subst(k[0], m, memo), k[1]): subst(v, m, memo) for k, v in self.fields.items()}
        self.facts = frozenset(f for f in (subst(f, m, memo) for f in self.facts) if f is not TRUE)


class Out:
    """Outcome of a statement list."""

    __slots__ = ("sig", "st", "val", "exc")

    def __init__(self, sig: str, st: State, val: Optional[T] = None, exc: Optional[Exc] = None) -> None:
        self.sig, self.st, self.val, self.exc = sig, st, val, exc


R = Tuple[State, Optional[T], Optional[Exc]]

FINALLY: List[List[str]] = [["*finally"]]
HOOK_EXC: Dict[str, Tuple[str, ...]] = {
    "_download_bundle": ("BundleDownloadFailed", "BundleNotFound", "UnknownNamespace"),
    "_upload_bundle": ("BundleUploadFailed", "UnknownNamespace"),
    "_delete_bundle": ("BundleDeletionFailed",),
    "_upload_device_list": ("DeviceListUploadFailed", "UnknownNamespace"),
    "_download_device_list": ("DeviceListDownloadFailed", "UnknownNamespace"),
    "_send_message": ("MessageSendingFailed", "UnknownNamespace"),
    "_make_trust_decision": ("TrustDecisionFailed",),
    "_evaluate_custom_trust_level": ("UnknownTrustLevel",),
    "build_session_active": ("KeyExchangeFailed",),
    "build_session_passive": ("KeyExchangeFailed", "DecryptionFailed"),
    "decrypt_key_material": ("TooManySkippedMessageKeys", "DecryptionFailed"),
    "decrypt_plaintext": ("DecryptionFailed",),
    "load_primitive": ("TypeError",), "load_optional": ("TypeError",), "load_list": ("TypeError",), "load_dict": ("TypeError",),
    "load_bytes": ("TypeError",),
}

NONDET = ("secrets", "random", "os", "time", "uuid", "datetime")
EFFECT_CLASSES = {"Backend": "backend", "Storage": "storage"}
MUTATORS = {
    "add", "append", "remove", "discard", "clear", "update", "extend", "pop", "insert", "setdefault", "popitem",
    "difference_update", "intersection_update", "symmetric_difference_update", "sort", "reverse", "appendleft",
    "popleft"
}
PRIM_CLASSES = {"int", "str", "bool", "float", "bytes", "list", "dict", "set", "frozenset", "tuple", "object", "type"}


class Result:
    def __init__(self, entry: str, outs: List[Out], interp: "Interp") -> None:
        self.entry = entry
        self.outs = outs
        self.interp = interp


class Interp:
    def __init__(self, program: Program, self_cls: str, role_fields: Optional[Dict[str, T]] = None,
                 extra_fields: Optional[Dict[Tuple[T, str], T]] = None) -> None:
        self.p = program
        self.self_cls = self_cls
        self.role_fields = role_fields or {}
        self.extra_fields = extra_fields or {}
        # methods judged on their own: calls of them are effects
        self.boundary: FrozenSet[str] = frozenset()
        self.funcs: Dict[T, Tuple[Func, Any, Tuple[Any, ...]]] = {}
        self.parent: Dict[Any, Any] = {}
        self.fmod: Dict[Any, Module] = {}
        self.ffunc: Dict[Any, Func] = {}
        self.handlers: List[List[List[str]]] = []
        self.scope: List[T] = []
        self.stack: List[str] = []
        self.logs: List[Tuple[str, int, T]] = []
        # loops that are never left: the path to the loop, with its body
        self.forever: Dict[Any, State] = {}
        # containers other tasks may modify whenever a coroutine is suspended
        self.volatile: Dict[T, str] = {}
        # calls of functions passed in by the caller are recorded as effects
        self.callbacks = False
        # locks (and other context managers) held; whether they keep other tasks out
        self.held: List[T] = []
        self.exclusive = False
        self.entry_cm = True
        self.unmodelled: Dict[str, int] = {}
        self.functions_seen: Set[str] = set()
        self.call_sites = 0
        self.yield_targets: List[T] = []
        self.widened = False

        self._ids: Dict[Any, int] = {}
        self._loads: Dict[int, Any] = {}
        self._mutating: Dict[str, Set[int]] = {}
        self._mutating_loads: Set[int] = set()
        self.resets: Set[T] = set()
        self.news: Set[T] = set()
        self.factories: Dict[T, str] = {}
        self.depth = 0
        self._copies: Dict[Any, List[ast.stmt]] = {}
        self.dict_depth: Dict[T, int] = {}

    def intern(self, key: Any) -> int:
        i = self._ids.get(key)
        if i is None:
            i = len(self._ids) + 1
            self._ids[key] = i
        return i

    # ----------------------------------------------------------------------------------------------- utils
    def note(self, what: str) -> None:
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1

    def opaque(self, what: str, *a: T) -> T:
        self.note(what)
        return mk("opaque", what, tuple(a))

    def fz(self, st: State, t: T, depth: int = 0, done: FrozenSet[T] = frozenset()) -> T:
        """Freeze: replace references to mutable objects by their current content."""

        if depth > 6:
            return t
        m: Dict[T, T] = {}
        for r, c in st.heap.items():
            if c is not r and r not in done and contains(t, r):
                m[r] = c
                if r.op != "new":
                    # the content is described in terms of the original value
                    done = done | {r}
                    for d in range(3):
                        e = elem(r, d)
                        if contains(t, e):
                            m[e] = e
        if m:
            t2 = subst(t, m)
            if t2 is not t:
                return self.fz(st, t2, depth + 1, done)
        # instances of package classes
        objs = {x for x in terms.subterms(t) if x.op == "new" and x.a[1].startswith("obj:")} if _has_new(t) else ()
        m = {}
        for o in objs:
            fs = tuple(sorted((k[1], v) for k, v in st.fields.items() if k[0] is o))
            m[o] = mk("obj", o.a[1][4:], fs)
        if m:
            t2 = subst(t, m)
            return self.fz(st, t2, depth + 1, done)
        return t

    def alloc(self, st: State, fid: Any, node: Any, kind: str, content: T, tag: Any = 0) -> T:
        ref = mk("new", (fid, nid(node), tag), kind)
        st.heap[ref] = content
        if kind == "dict":
            self.dict_depth[ref] = self.depth
        return ref

    def split(self, st: State, f: T) -> Tuple[Optional[State], Optional[State]]:
        if not is_formula(f):
            f = truthy(f)
        g = simplify(f, st.facts)
        if g is TRUE:
            return st, None
        if g is FALSE:
            return None, st
        ft = assume(f, st.facts)
        ff = assume(neg(f), st.facts)
        a = b = None
        if ft is not None:
            a = st.clone()
            a.facts = instantiate(ft, tuple(self.scope))
        if ff is not None:
            b = st
            b.facts = instantiate(ff, tuple(self.scope))
        if a is None and b is None:
            return None, None
        return a, b

    def assume(self, st: State, f: T) -> bool:
        fs = assume(f, st.facts)
        if fs is None:
            return False
        st.facts = instantiate(fs, tuple(self.scope)) if fs is not st.facts else fs
        return True

    def handled(self, exc: str) -> Optional[Tuple[Any, ...]]:
        """The handlers an exception passes: finally blocks on the way, then the clause that catches it."""

        path: List[Any] = []
        for i in range(len(self.handlers) - 1, -1, -1):
            if self.handlers[i] == FINALLY:
                path.append(i)
                continue
            for j, names in enumerate(self.handlers[i]):
                if any(self.p.is_exc_subclass(exc, n) for n in names):
                    return tuple(path) + ((i, j),)
        return tuple(path) if path else None

    def is_caught(self, exc: str) -> bool:
        return isinstance((self.handled(exc) or (0,))[-1], tuple)

    def merge(self, outs: List[Out]) -> List[Out]:
        """Join paths that differ only in their facts."""

        if len(outs) < 2:
            return outs
        groups: Dict[Any, List[Out]] = {}
        order = []
        for o in outs:
            s = o.st
            k = (o.sig, o.val, o.exc.cls if o.exc else None, o.exc.val if o.exc else None, id(s.trace),
                 frozenset(s.env.items()), frozenset(s.heap.items()), frozenset(s.fields.items()))
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(o)
        res = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                res.append(g[0])
                continue
            common = frozenset.intersection(*[o.st.facts for o in g])
            rests = [o.st.facts - common for o in g]
            o = g[0]
            o.st.facts = common
            if all(rests):
                d = disj(*[conj(*r) for r in rests])
                if d is not TRUE:
                    if d.op == "or" and len(d.a[0]) > 40:
                        pass
                    else:
                        fs = assume(d, common)
                        if fs is not None:
                            o.st.facts = fs
            res.append(o)
        if len(res) > MAX_STATES:
            raise AnalysisBroken(f"too many paths ({len(res)}) in {self.stack[-1] if self.stack else '?'}")
        return res

    # --------------------------------------------------------------------------------------------- entry
    def run(self, cls: str, name: str, fixed: Optional[Dict[str, T]] = None) -> Result:
        f = self.p.require(cls, name)
        st = State()
        for k, v in self.extra_fields.items():
            st.fields[k] = v
        for k2, v in self.role_fields.items():
            st.fields[(SELF, k2)] = v
        for ref, vn in self.volatile.items():
            st.heap[ref] = dictv(later(vn, NONE), ())
        args: Dict[str, T] = {}
        names = f.param_names()
        first = True
        for n in names:
            if first and not f.is_static:
                args[n] = mk("cls", self.self_cls) if f.is_classmethod else SELF
                first = False
                continue
            first = False
            if fixed and n in fixed:
                args[n] = fixed[n]
            else:
                args[n] = param(f.qualname, n)
        # a factory method: the instance it makes is the one that is looked at
        self.entry_cm = f.is_classmethod
        outs = self.invoke(st, f, args, None, (cls, name), raw=True)
        return Result(f.qualname, outs, self)

    # ------------------------------------------------------------------------------------------ functions
    def invoke(self, st: State, f: Func, args: Dict[str, T], parent: Any, site: Any, raw: bool = False) -> Any:
        """Inline a resolved function."""

        if len(self.stack) >= MAX_DEPTH or self.stack.count(f.qualname) >= 2:
            v = self.opaque(f"recursion:{f.qualname}", *args.values())
            return [Out("return", st, v)] if raw else [(st, v, None)]
        self.functions_seen.add(f.qualname)
        fid = self.intern((site, f.qualname))
        self.parent[fid] = parent
        self.fmod[fid] = f.module
        self.ffunc[fid] = f
        for k, v in args.items():
            st.env[(fid, k)] = v
        self.stack.append(f.qualname)
        is_gen = _is_generator(f.node)
        try:
            if isinstance(f.node, ast.Lambda):
                rs = self.ev(f.node.body, st, fid)
                outs = [Out("raise", s, None, e) if e else Out("return", s, v) for s, v, e in rs]
            else:
                if is_gen:
                    tgt = mk("new", (fid, "yield"), "list")
                    st.heap[tgt] = coll("list", ())
                    self.yield_targets.append(tgt)
                try:
                    outs = self.block(f.node.body, st, fid)
                finally:
                    if is_gen:
                        self.yield_targets.pop()
                res = []
                for o in outs:
                    if o.sig == "next":
                        o = Out("return", o.st, NONE)
                    if is_gen and o.sig == "return":
                        o = Out("return", o.st, o.st.heap.pop(tgt, coll("list", ())))
                    res.append(o)
                outs = res
        finally:
            self.stack.pop()
        for o in outs:
            keep = o.val is not None and _has_op(o.val, ("func", "coro"))
            if not keep and not raw:
                dead = [k for k in o.st.env if k[0] == fid]
                for k in dead:
                    del o.st.env[k]
                live_refs(o)
        if not raw:
            outs = self.merge(outs)
            return [(o.st, o.val, o.exc if o.sig == "raise" else None) for o in outs]
        return self.merge(outs)

    def bind_args(self, st: State, f: Func, pos: List[T], kw: Dict[str, T], selfval: Optional[T]) -> Optional[Dict[str, T]]:
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = list(pos)
        if selfval is not None and not f.is_static:
            vals = [selfval] + vals
        out: Dict[str, T] = {}
        for n, v in zip(names, vals):
            out[n] = v
        if len(vals) > len(names):
            if a.vararg is None:
                return None
            out[a.vararg.arg] = tup(*vals[len(names):])
        elif a.vararg is not None:
            out[a.vararg.arg] = tup()
        extra: List[Tuple[str, T]] = []
        allnames = set(names) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in allnames:
                out[k] = v
            else:
                extra.append((k, v))
        if a.kwarg is not None:
            out[a.kwarg.arg] = dictv(None, tuple(mk("put", const(k), v, (), frozenset()) for k, v in extra))
        pairs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) if a.defaults else []
        pairs += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in pairs:
            if n not in out:
                out[n] = self.const_expr(d, f.module, f.cls)
        for n in list(names) + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                out[n] = self.opaque(f"missing-arg:{f.qualname}.{n}")
        return out

    def const_expr(self, node: ast.expr, module: Module, cls: Optional[Cls]) -> T:
        fid = ("const", module.name, nid(node))
        self.parent[fid] = None
        self.fmod[fid] = module
        rs = self.ev(node, State(), fid)
        rs = [r for r in rs if r[2] is None]
        if len(rs) != 1 or rs[0][1] is None:
            return self.opaque("const-expr")
        return self.fz(rs[0][0], rs[0][1])

    # ----------------------------------------------------------------------------------------- statements
    def block(self, body: List[ast.stmt], st: State, fid: Any) -> List[Out]:
        outs = [Out("next", st)]
        for s in body:
            nxt: List[Out] = []
            for o in outs:
                if o.sig == "next":
                    nxt.extend(self.stmt(s, o.st, fid))
                else:
                    nxt.append(o)
            outs = self.merge(nxt)
            if not any(o.sig == "next" for o in outs):
                break
        return outs

    def stmt(self, n: ast.stmt, st: State, fid: Any) -> List[Out]:
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            self.note("stmt:" + type(n).__name__)
            return [Out("next", st)]
        return m(n, st, fid)

    def rs_to_outs(self, rs: List[R], f: Optional[Callable[[State, T], List[Out]]] = None) -> List[Out]:
        out: List[Out] = []
        for s, v, e in rs:
            if e is not None:
                out.append(Out("raise", s, None, e))
            elif f is None:
                out.append(Out("next", s))
            else:
                out.extend(f(s, v))  # type: ignore
        return out

    def st_Expr(self, n: ast.Expr, st: State, fid: Any) -> List[Out]:
        if isinstance(n.value, ast.Constant):
            return [Out("next", st)]
        return self.rs_to_outs(self.ev(n.value, st, fid))

    def st_Pass(self, n: ast.Pass, st: State, fid: Any) -> List[Out]:
        return [Out("next", st)]

    def st_Return(self, n: ast.Return, st: State, fid: Any) -> List[Out]:
        if n.value is None:
            return [Out("return", st, NONE)]
        return self.rs_to_outs(self.ev(n.value, st, fid), lambda s, v: [Out("return", s, v)])

    def st_Break(self, n: ast.Break, st: State, fid: Any) -> List[Out]:
        return [Out("break", st)]

    def st_Continue(self, n: ast.Continue, st: State, fid: Any) -> List[Out]:
        return [Out("continue", st)]

    def st_Assign(self, n: ast.Assign, st: State, fid: Any) -> List[Out]:
        def go(s: State, v: T) -> List[Out]:
            outs = [Out("next", s)]
            for t in n.targets:
                nxt: List[Out] = []
                for o in outs:
                    nxt.extend(self.assign(t, v, o.st, fid) if o.sig == "next" else [o])
                outs = nxt
            return outs
        return self.rs_to_outs(self.ev(n.value, st, fid), go)

    def st_AnnAssign(self, n: ast.AnnAssign, st: State, fid: Any) -> List[Out]:
        if n.value is None:
            return [Out("next", st)]
        return self.rs_to_outs(self.ev(n.value, st, fid), lambda s, v: self.assign(n.target, v, s, fid))

    def st_AugAssign(self, n: ast.AugAssign, st: State, fid: Any) -> List[Out]:
        load = self._loads.setdefault(nid(n), None) or _as_load(n.target)
        self._loads[nid(n)] = load
        if isinstance(load, ast.Subscript):
            self._mutating_loads.add(id(load))

        def go(s: State, cur: T) -> List[Out]:
            def go2(s2: State, rhs: T) -> List[Out]:
                # in-place operators of mutable containers
                if cur.op == "new" and cur.a[1] in ("set", "list", "dict") or self.is_entry(s2, cur):
                    meth = {ast.BitOr: "update", ast.Sub: "difference_update", ast.BitAnd: "intersection_update",
                            ast.Add: "extend"}.get(type(n.op))
                    if meth is not None:
                        return self.rs_to_outs(self.container_method(s2, cur, meth, [rhs], {}, n, fid))
                if any((typeof(x) or "").replace("Optional[", "").split("[")[0] in ("List", "Set", "Dict", "MutableMapping", "MutableSequence", "MutableSet") and x.op != "new"
                       for x in ([v for _, v in cur.a[0]] if cur.op == "ite" else [cur])):
                    self.mutated(s2, cur, "__iop__", [rhs], n, fid)
                v = self.binop(s2, n.op, cur, rhs, n, fid)
                return self.assign(n.target, v, s2, fid)
            return self.rs_to_outs(self.ev(n.value, s, fid), go2)
        return self.rs_to_outs(self.ev(load, st, fid), go)

    def assign(self, t: ast.expr, v: T, st: State, fid: Any) -> List[Out]:
        if isinstance(t, ast.Name):
            st.env[(self.owner(st, fid, t.id), t.id)] = v
            return [Out("next", st)]
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(st, v, t.elts)
            outs = [Out("next", st)]
            for sub, x in zip(t.elts, vals):
                if isinstance(sub, ast.Starred):
                    sub = sub.value
                nxt: List[Out] = []
                for o in outs:
                    nxt.extend(self.assign(sub, x, o.st, fid))
                outs = nxt
            return outs
        if isinstance(t, ast.Attribute):
            def go(s: State, o: T) -> List[Out]:
                self.set_field(s, o, t.attr, v, t, fid)
                return [Out("next", s)]
            return self.rs_to_outs(self.ev(t.value, st, fid), go)
        if isinstance(t, ast.Subscript):
            def go3(s: State, o: T) -> List[Out]:
                def go4(s2: State, k: T) -> List[Out]:
                    self.dict_put(s2, o, k, v, t, fid)
                    return [Out("next", s2)]
                return self.rs_to_outs(self.ev(t.slice, s, fid), go4)
            return self.rs_to_outs(self.ev(t.value, st, fid), go3)
        self.note("assign:" + type(t).__name__)
        return [Out("next", st)]

    def unpack(self, st: State, v: T, elts: List[ast.expr]) -> List[T]:
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        w = v
        if v.op == "new":
            w = self.fz(st, v)
        if w.op == "coll" and all(not p.a[1] and not p.a[2] for p in w.a[1]) and not w.a[2]:
            w = tup(*[p.a[0] for p in w.a[1]])
        if w.op == "coll" and len(elts) == 1 and len(w.a[1]) == 1 and not w.a[2]:
            p = w.a[1][0]
            return [self.open_pick(st, p, None)]
        if w.op == "coll":
            return [mk("opaque", "unpack", (w, const(i))) for i in range(len(elts))]
        if star:
            k = star[0]
            after = len(elts) - k - 1
            if w.op == "tuple":
                n = len(w.a[0])
                return list(w.a[0][:k]) + [tup(*w.a[0][k:n - after])] + list(w.a[0][n - after:])
            return [item(w, const(i)) for i in range(k)] + [mk("opaque", "star", (w,))] + \
                [mk("opaque", "star", (w, const(i))) for i in range(after)]
        return [item(w, const(i)) for i in range(len(elts))]

    def owner(self, st: State, fid: Any, name: str) -> Any:
        """Frame an assignment to a name writes to (nonlocal, walrus in comprehensions)."""

        f = self.ffunc.get(fid)
        if f is not None and not isinstance(f.node, ast.Lambda):
            if name in _nonlocals(f.node):
                p = self.parent.get(fid)
                while p is not None:
                    if (p, name) in st.env:
                        return p
                    p = self.parent.get(p)
        return fid

    def set_field(self, st: State, o: T, name: str, v: T, node: ast.AST, fid: Any) -> None:
        st.fields[(o, name)] = v
        if o is SELF:
            fv = self.fz(st, v)
            self.emit(st, "setfield", name, SELF, {"value": fv}, node, fid)
            r = self.role_fields.get(name)
            if r is not None and r.op == "role" and r.a[0] == "own_device_id" and fv is not r:
                # from here on the value is known by its role
                if fv.op in ("ev", "just", "lin", "ext", "pick", "item", "maybe") and not is_const(fv):
                    st.rename({fv: r})
                st.fields[(o, name)] = r
            elif r is not None and r.op == "role" and r.a[0] == "identity_key_pair":
                st.fields[(o, name)] = r
                if fv.op == "ev":
                    st.rename({fv: r})
        elif o.op not in ("new",):
            self.emit(st, "mutate", "setattr:" + name, o, {"value": self.fz(st, v)}, node, fid)

    def st_Delete(self, n: ast.Delete, st: State, fid: Any) -> List[Out]:
        outs = [Out("next", st)]
        for t in n.targets:
            nxt: List[Out] = []
            for o in outs:
                if o.sig != "next":
                    nxt.append(o)
                elif isinstance(t, ast.Subscript):
                    def go(s: State, ob: T, t: ast.Subscript = t) -> List[Out]:
                        return self.rs_to_outs(
                            self.seq([t.slice], s, fid),
                            lambda s2, ks: self.rs_to_outs(self.container_method(
                                s2, ob, "__delitem__", [ks.a[0][0]], {}, t, fid))
                        )
                    nxt.extend(self.rs_to_outs(self.ev(t.value, o.st, fid), go))
                else:
                    if isinstance(t, ast.Name):
                        o.st.env.pop((fid, t.id), None)
                    nxt.append(o)
            outs = nxt
        return outs

    def st_If(self, n: ast.If, st: State, fid: Any) -> List[Out]:
        def go(s: State, v: T) -> List[Out]:
            a, b = self.split(s, self.cond(s, v))
            out: List[Out] = []
            if a is not None:
                out.extend(self.block(n.body, a, fid))
            if b is not None:
                out.extend(self.block(n.orelse, b, fid))
            return out
        return self.rs_to_outs(self.ev(n.test, st, fid), go)

    def cond(self, st: State, v: T) -> T:
        return truthy(self.fz(st, v))

    def st_Assert(self, n: ast.Assert, st: State, fid: Any) -> List[Out]:
        return self.rs_to_outs(
            self.ev(n.test, st, fid),
            lambda s, v: [Out("next", s)] if self.assume(s, self.cond(s, v)) else []
        )

    def st_Raise(self, n: ast.Raise, st: State, fid: Any) -> List[Out]:
        if n.exc is None:
            cur = st.env.get((fid, "<exc>"))
            if cur is None:
                cur = mk("excobj", "Exception", ())
            return [Out("raise", st, None, Exc(_exc_cls(cur), cur))]

        def go(s: State, v: T) -> List[Out]:
            v = self.fz(s, v)
            if v.op == "cls":
                v = mk("excobj", v.a[0], ())
            return [Out("raise", s, None, Exc(_exc_cls(v), v))]
        return self.rs_to_outs(self.ev(n.exc, st, fid), go)

    def exc_names(self, t: Optional[ast.expr], fid: Any, st: Optional[State] = None) -> List[str]:
        if t is None:
            return ["*"]
        if isinstance(t, ast.Tuple):
            return [x for e in t.elts for x in self.exc_names(e, fid, st)]
        if isinstance(t, ast.Name):
            mod = self.fmod[fid]
            if t.id in mod.assigns and t.id not in mod.classes:
                return self.exc_names(mod.assigns[t.id], fid, st)
            if st is not None:
                v = self.lookup(st, fid, t.id)
                if v is not None and v.op == "tuple":
                    return [x.a[0] for x in v.a[0] if x.op == "cls"]
                if v is not None and v.op == "cls":
                    return [v.a[0]]
            return [t.id]
        if isinstance(t, ast.Attribute):
            for c in self.p.classes.values():
                if t.attr in c.consts:
                    return self.exc_names(c.consts[t.attr], fid, st)
            return [t.attr]
        return ["*"]

    def st_Try(self, n: ast.Try, st: State, fid: Any) -> List[Out]:
        if n.finalbody and not all(log_call(s) for s in n.finalbody):
            # finally observes any failure: make failures of effects visible
            self.handlers.append(FINALLY)
            try:
                res = self.try_clauses(n, st, fid)
            finally:
                self.handlers.pop()
            fin: List[Out] = []
            for o in res:
                for x in self.block(n.finalbody, o.st, fid):
                    fin.append(Out(o.sig, x.st, o.val, o.exc) if x.sig == "next" else x)
            return self.merge(fin)
        return self.merge(self.try_clauses(n, st, fid))

    def try_clauses(self, n: ast.Try, st: State, fid: Any) -> List[Out]:
        if all(passes_on(h) for h in n.handlers):
            return [x for o in self.block(n.body, st, fid) for x in (self.block(n.orelse, o.st, fid) if o.sig == "next" and n.orelse else [o])]
        clauses = [self.exc_names(h.type, fid, st) for h in n.handlers]
        self.handlers.append([_Split(c) if tells_apart(h) else c for c, h in zip(clauses, n.handlers)])
        try:
            outs = self.block(n.body, st, fid)
        finally:
            self.handlers.pop()
        res: List[Out] = []
        for o in outs:
            if o.sig == "raise" and o.exc is not None:
                for h, names in zip(n.handlers, clauses):
                    if any(self.p.is_exc_subclass(o.exc.cls, x) for x in names):
                        s = o.st
                        prev = s.env.get((fid, "<exc>"))
                        if h.name:
                            s.env[(fid, h.name)] = o.exc.val
                        s.env[(fid, "<exc>")] = o.exc.val
                        for x in self.block(h.body, s, fid):
                            x.st.env.pop((fid, "<exc>"), None)
                            if prev is not None:
                                x.st.env[(fid, "<exc>")] = prev
                            if h.name:
                                x.st.env.pop((fid, h.name), None)
                            res.append(x)
                        break
                else:
                    res.append(o)
            elif o.sig == "next" and n.orelse:
                res.extend(self.block(n.orelse, o.st, fid))
            else:
                res.append(o)
        return res

    def st_With(self, n: ast.With, st: State, fid: Any) -> List[Out]:
        suppress: List[str] = []
        held: List[T] = []
        outs = [Out("next", st)]
        for it in n.items:
            ce = it.context_expr
            if isinstance(ce, ast.Call) and ast.unparse(ce.func).split(".")[-1] == "suppress":
                for a in ce.args:
                    suppress += self.exc_names(a, fid, st)
                continue
            nxt: List[Out] = []
            for o in outs:
                def go(s: State, v: T, it: ast.withitem = it) -> List[Out]:
                    held.append(v)
                    self.suspended(s, mk("entered", nid(it), fid))
                    if it.optional_vars is not None:
                        return self.assign(it.optional_vars, mk("ctx", v), s, fid)
                    return [Out("next", s)]
                nxt.extend(self.rs_to_outs(self.ev(ce, o.st, fid), go))
            outs = nxt
        if suppress:
            self.handlers.append([suppress])
        self.held += held
        try:
            res: List[Out] = []
            for o in outs:
                res.extend(self.block(n.body, o.st, fid) if o.sig == "next" else [o])
        finally:
            if held:
                del self.held[-len(held):]
            if suppress:
                self.handlers.pop()
        for o in res:
            if o.sig == "raise" and o.exc and any(self.p.is_exc_subclass(o.exc.cls, x) for x in suppress):
                o.sig, o.exc = "next", None
        return self.merge(res)

    st_AsyncWith = st_With

    def st_FunctionDef(self, n: Any, st: State, fid: Any) -> List[Out]:
        st.env[(fid, n.name)] = self.closure(n, fid, n.name)
        return [Out("next", st)]

    st_AsyncFunctionDef = st_FunctionDef

    def closure(self, n: Any, fid: Any, name: str) -> T:
        outer = self.ffunc.get(fid)
        q = (outer.qualname + "." if outer else "") + name
        t = mk("func", (fid, nid(n)), q)
        if t not in self.funcs:
            f = Func(n, self.fmod[fid], None, q)
            self.funcs[t] = (f, fid, ())
        return t

    def st_ClassDef(self, n: ast.ClassDef, st: State, fid: Any) -> List[Out]:
        c = Cls(n, self.fmod[fid])
        self.p.classes.setdefault(n.name, c)
        st.env[(fid, n.name)] = mk("cls", n.name)
        return [Out("next", st)]

    def st_Import(self, n: ast.Import, st: State, fid: Any) -> List[Out]:
        for a in n.names:
            st.env[(fid, a.asname or a.name.split(".")[0])] = mk("module", a.name if a.asname else a.name.split(".")[0])
        return [Out("next", st)]

    def st_ImportFrom(self, n: ast.ImportFrom, st: State, fid: Any) -> List[Out]:
        for a in n.names:
            v = self.import_value(("." * n.level) + (n.module or ""), a.name)
            st.env[(fid, a.asname or a.name)] = v
        return [Out("next", st)]

    def st_Global(self, n: Any, st: State, fid: Any) -> List[Out]:
        return [Out("next", st)]

    st_Nonlocal = st_Global

    def st_Match(self, n: Any, st: State, fid: Any) -> List[Out]:
        def go(s: State, subj: T) -> List[Out]:
            out: List[Out] = []
            cur: Optional[State] = s
            subj = self.fz(s, subj)
            for c in n.cases:
                if cur is None:
                    break
                f = self.pattern(c.pattern, subj, cur, fid)
                if c.guard is not None:
                    g = [r for r in self.ev(c.guard, cur.clone(), fid) if r[2] is None]
                    f = conj(f, self.cond(g[0][0], g[0][1])) if len(g) == 1 else conj(f, self.opaque("guard"))
                a, cur = self.split(cur, f)
                if a is not None:
                    out.extend(self.block(c.body, a, fid))
            if cur is not None:
                out.append(Out("next", cur))
            return out
        return self.rs_to_outs(self.ev(n.subject, st, fid), go)

    def pattern(self, p: Any, subj: T, st: State, fid: Any) -> T:
        k = type(p).__name__
        if k in ("MatchValue",):
            r = [x for x in self.ev(p.value, st.clone(), fid) if x[2] is None]
            return eq(subj, r[0][1])  # type: ignore
        if k == "MatchSingleton":
            return eq(subj, const(p.value))
        if k == "MatchOr":
            return disj(*[self.pattern(x, subj, st, fid) for x in p.patterns])
        if k == "MatchAs":
            f = TRUE if p.pattern is None else self.pattern(p.pattern, subj, st, fid)
            if p.name:
                st.env[(fid, p.name)] = subj
            return f
        if k == "MatchSequence":
            fs = []
            for i, x in enumerate(p.patterns):
                fs.append(self.pattern(x, item(subj, const(i)), st, fid))
            return conj(*fs)
        if k == "MatchClass":
            return mk("isinstance", subj, mk("cls", ast.unparse(p.cls)))
        return self.opaque("pattern:" + k)

    # ---------------------------------------------------------------------------------------------- loops
    def st_For(self, n: ast.For, st: State, fid: Any) -> List[Out]:
        def go(s: State, it: T) -> List[Out]:
            def body(b: State, e: T) -> List[Out]:
                outs: List[Out] = []
                for o in self.assign(n.target, e, b, fid):
                    outs.extend(self.block(n.body, o.st, fid))
                return outs
            live = self.live_after(n, fid)
            if it.op == "range" and all(is_const(x) and isinstance(cval(x), int) for x in it.a[0]):
                values = range(*[cval(x) for x in it.a[0]])
                if len(values) <= 4:
                    return self.merge(self.unrolled(n, s, fid, [const(v) for v in values]))
            if it.op == "tuple" and len(it.a[0]) <= 3 and all(is_const(x) and not isinstance(cval(x), str) for x in it.a[0]):
                return self.merge(self.unrolled(n, s, fid, list(it.a[0])))
            outs = self.loop(s, it, body, (fid, nid(n)), n, fid, "for", live)
            res: List[Out] = []
            for o in outs:
                if o.sig == "exhaust":
                    res.extend(self.block(n.orelse, o.st, fid) if n.orelse else [Out("next", o.st)])
                elif o.sig == "break":
                    res.append(Out("next", o.st))
                else:
                    res.append(o)
            return self.merge(res)
        return self.rs_to_outs(self.ev(n.iter, st, fid), go)

    st_AsyncFor = st_For

    def unrolled(self, n: ast.For, st: State, fid: Any, values: List[T]) -> List[Out]:
        """A loop over a few constants: one copy of the body for each."""

        done: List[Out] = []
        cur = [st]
        for i, v in enumerate(values):
            nxt: List[Out] = []
            body = self.body_copy(n, i, fid)
            for s in cur:
                for o in self.assign(n.target, v, s, fid):
                    nxt.extend(self.block(body, o.st, fid))
            cur = []
            for o in self.merge(nxt):
                if o.sig in ("next", "continue"):
                    cur.append(o.st)
                elif o.sig == "break":
                    done.append(Out("next", o.st))
                else:
                    done.append(o)
            # both ways of reaching the next iteration
            cur = [o.st for o in self.merge([Out("next", x) for x in cur])]
        for s in cur:
            done.extend(self.block(n.orelse, s, fid) if n.orelse else [Out("next", s)])
        return done

    def body_copy(self, n: ast.For, i: int, fid: Any) -> List[ast.stmt]:
        key = (nid(n), i)
        if key not in self._copies:
            import copy
            body = copy.deepcopy(n.body)
            f = self.ffunc.get(fid)
            self.live_after(n, fid)
            lv = _LIVE.get(nid(f.node)) if f is not None else None
            mod = self.fmod[fid]
            if mod.path not in self._mutating:
                self._mutating[mod.path] = _mutating_uses(mod.tree)
            for a, b in zip(n.body, body):
                for x, y in zip(ast.walk(a), ast.walk(b)):
                    if lv is not None and id(x) in lv.after:
                        lv.after[id(y)] = lv.after[id(x)]
                    if id(x) in self._mutating[mod.path]:
                        self._mutating[mod.path].add(id(y))
            self._copies[key] = body
        return self._copies[key]

    def st_While(self, n: ast.While, st: State, fid: Any) -> List[Out]:
        def body(b: State, e: T) -> List[Out]:
            def go(s: State, v: T) -> List[Out]:
                a, c = self.split(s, self.cond(s, v))
                out: List[Out] = []
                if a is not None:
                    out.extend(self.block(n.body, a, fid))
                if c is not None:
                    out.append(Out("stop", c))
                return out
            return self.rs_to_outs(self.ev(n.test, b, fid), go)
        uid = (fid, nid(n))
        outs = self.loop(st, mk("while", uid), body, uid, n, fid, "while", self.live_after(n, fid))
        res: List[Out] = []
        for o in outs:
            if o.sig == "exhaust":
                res.extend(self.block(n.orelse, o.st, fid) if n.orelse else [Out("next", o.st)])
            elif o.sig == "break":
                res.append(Out("next", o.st))
            else:
                res.append(o)
        return self.merge(res)

    def live_after(self, n: ast.AST, fid: Any) -> Set[str]:
        f = self.ffunc.get(fid)
        if f is None:
            return set()
        lv = _LIVE.get(nid(f.node))
        if lv is None:
            lv = _LIVE[nid(f.node)] = Liveness(f.node)
        return lv.after.get(id(n), set())

    def open_part(self, st: State, p: T) -> Optional[Tuple[State, T, Tuple[T, ...], FrozenSet[T]]]:
        """Bind a part's variables for a loop body: distinct from the variables already in scope."""

        e, chain, guards = p.a
        if chain:
            # (an element that a search before has found keeps its name)
            found = tuple(v for v in chain if v not in self.scope and (
                any(terms.free(f, v) for f in st.facts) or any(terms.free(x, v) for x in st.env.values())))
            e, chain, guards = fresh_part(p, tuple(self.scope) + found).a
        s = st.clone()
        fs: Optional[FrozenSet[T]] = s.facts
        for g in guards:
            fs = assume(g, fs)  # type: ignore
            if fs is None:
                return None
        s.facts = fs  # type: ignore
        return s, e, chain, guards

    def loop(self, st: State, it: T, body: Callable[[State, T], List[Out]], uid: Any, node: ast.AST, fid: Any,
             kind: str, live: Set[str], acc: Optional[T] = None) -> List[Out]:
        entry = st
        if kind == "while":
            wv = elem(it)
            parts: Tuple[T, ...] = (part(wv, (wv,), frozenset()),)
        else:
            c = coll_of(self.fz(st, it))
            parts = self.strip_minus(c)
        carried: Set[Any] = set()
        shrinking: Set[Any] = set()
        # immutable collections rebuilt in every iteration (x = x | {...}, x = x - {...}): initial content; None: something else
        rebuilt: Dict[Any, Optional[T]] = {}
        results: List[Tuple[State, Out, Tuple[T, ...], FrozenSet[T], Cell]] = []
        for _ in range(6):
            start = entry.clone()
            for k in carried:
                if k[0] == "e" and k[1] in entry.env:
                    if k not in rebuilt:
                        v0 = self.fz(entry, entry.env[k[1]])
                        rebuilt[k] = v0 if v0.op == "coll" and v0.a[0] in ("set", "frozenset", "list", "tuple") and kind != "while" else None
                    if rebuilt[k] is not None:
                        start.env[k[1]] = rebuilt[k] if k in shrinking else _mark(rebuilt[k], uid)  # type: ignore
                        continue
                    start.env[k[1]] = mk("lv", uid, k[1][1])
                elif k[0] == "h" and k[1] in entry.heap and k[1] not in shrinking:
                    start.heap[k[1]] = _mark(entry.heap[k[1]], uid)
                elif k[0] == "f" and k[1] in entry.fields:
                    start.fields[k[1]] = mk("lv", uid, "." + k[1][1])
            # facts about carried values do not survive into an arbitrary iteration
            results = []
            for p in parts:
                op = self.open_part(start, p)
                if op is None:
                    continue
                s, e, chain, guards = op
                enter = Cell(entry.trace, Enter(uid, chain, getattr(node, "lineno", 0), self.fn_name(fid)))
                s.trace = enter
                self.scope.extend(chain)
                self.depth += 1
                try:
                    s.facts = instantiate(s.facts, tuple(self.scope))
                    base = s.facts
                    for o in body(s, e):
                        results.append((start, o, chain, (o.st.facts - base) | guards, enter))
                finally:
                    self.depth -= 1
                    if chain:
                        del self.scope[-len(chain):]
            new: Set[Any] = set()
            for stt, o, chv, _, _ in results:
                if o.sig not in ("next", "continue"):
                    continue
                for k, v in o.st.env.items():
                    if stt.env.get(k) is not v and _visible(k[0], fid, self.parent):
                        new.add(("e", k))
                for k2, v in o.st.heap.items():
                    if k2 in stt.heap and stt.heap[k2] is not v:
                        new.add(("h", k2))
                    elif k2 not in stt.heap and k2.op != "new" and not any(contains(k2, cv) for cv in chv):
                        # objects reached through the element of this iteration are not shared with the next
                        new.add(("h", k2))
                for k3, v in o.st.fields.items():
                    if stt.fields.get(k3) is not v and (k3 in stt.fields or k3[0].op != "new"):
                        new.add(("f", k3))
            for x in new:
                if x[0] == "h" and x[1] not in entry.heap:
                    entry.heap[x[1]] = x[1]
            # collections that only ever lose elements: an iteration sees a subset of the initial content
            shrink = set()
            for x in new | carried:
                if x[0] == "h" and entry.heap.get(x[1]) is not None and entry.heap[x[1]].op == "coll":
                    ads = [self.added(stt.heap[x[1]], o.st.heap[x[1]]) for stt, o, _, _, _ in results
                           if o.sig in ("next", "continue") and x[1] in stt.heap and x[1] in o.st.heap]
                    if all(ad is not None and not ad[1] for ad in ads):
                        shrink.add(x[1])
                elif x[0] == "e" and (rebuilt[x] is not None if x in rebuilt else kind != "while" and x[1] in entry.env
                                      and self.fz(entry, entry.env[x[1]]).op == "coll"):
                    ads2 = [self.rebuilt(self.fz(stt, stt.env[x[1]]), self.fz(o.st, o.st.env[x[1]])) for stt, o, _, _, _ in results
                            if o.sig != "stop" and x[1] in stt.env and x[1] in o.st.env]
                    if all(ad is not None and not ad[0] for ad in ads2):
                        shrink.add(x)
            drop = [k for k, v0 in rebuilt.items() if v0 is not None and any(
                self.rebuilt(st2.env[k[1]], self.fz(o.st, o.st.env[k[1]])) is None for st2, o, _, _, _ in results
                if k[1] in o.st.env and o.sig != "stop")]
            for k in drop:
                rebuilt[k] = None
            if new <= carried and shrink >= shrinking and not drop:
                break
            shrinking = {x for x in shrink if x in shrinking or (x if isinstance(x, tuple) else ("h", x)) not in carried}
            carried |= new
        # ------------------------------------------------------------------------------ assemble outcomes
        paths: List[BodyPath] = []
        has_events = False
        for stt, o, chain, guards, enter in results:
            if o.st.trace is not enter:
                has_events = True
            bp = BodyPath(chain, guards, o.st.trace, enter, o.sig, o.st.facts)  # type: ignore
            bp.exc, bp.value = o.exc, o.val
            for k in carried:
                if k[0] == "e" and k[1] in o.st.env and k[1] in entry.env and rebuilt.get(k) is None:
                    bp.updates[k[1][1]] = (entry.env[k[1]], mk("lv", uid, k[1][1]), o.st.env[k[1]])
            paths.append(bp)
        cont = [(stt, o, ch, g) for stt, o, ch, g, _ in results if o.sig in ("next", "continue")]
        lnode = LoopNode(uid, kind, paths, getattr(node, "lineno", 0), self.fn_name(fid), self.fmod[fid].path)

        self.news = self.new_elements(carried, cont)
        heap_after: Dict[T, T] = {}
        for k in carried:
            if k[0] == "h":
                heap_after[k[1]] = self.generalise(entry.heap[k[1]], entry.heap[k[1]] if k[1] in shrinking
                                                   else _mark(entry.heap[k[1]], uid), uid,
                                                   [(o.st.heap.get(k[1], entry.heap[k[1]]), ch, g) for _, o, ch, g in cont],
                                                   k[1])
        # the same when the loop is left early: only some iterations contributed
        heap_left: Dict[T, T] = {}
        for k in carried:
            if k[0] == "h" and kind != "while" and any(o.sig not in ("next", "continue", "stop") for _, o, _, _, _ in results):
                heap_left[k[1]] = self.generalise(entry.heap[k[1]], entry.heap[k[1]] if k[1] in shrinking
                                                  else _mark(entry.heap[k[1]], uid), uid,
                                                  [(o.st.heap.get(k[1], entry.heap[k[1]]), ch, g | {mk("earlier", uid, *ch)})
                                                   for _, o, ch, g in cont], k[1])
        env_after: Dict[Any, T] = {}
        env_left: Dict[Any, T] = {}
        for k, v0 in rebuilt.items():
            if v0 is None:
                continue
            for into, early in ((env_after, False), (env_left, True)):
                cur = v0
                for st2, o, ch, g in cont:
                    plus, minus = self.rebuilt(st2.env[k[1]], self.fz(o.st, o.st.env[k[1]]))  # type: ignore
                    g2 = self.settled(g) | (frozenset({mk("earlier", uid, *ch)}) if early else frozenset())
                    cur = _extend(cur, ("coll", tuple(part(p.a[0], ch + p.a[1], g2 | p.a[2]) for p in plus),
                                        tuple(part(m.a[0], ch + m.a[1], g2 | m.a[2]) for m in minus)))
                into[k] = cur
        outs: List[Out] = []
        # a search over several kinds of elements: which of them was found is a function of the loop variables in scope
        which: Optional[T] = None
        brk = [(ch, g) for _, o, ch, g, enter in results if o.sig == "break" and o.st.trace is enter and ch]
        first = [ch for ch, _ in brk]
        if kind != "while" and len(set(first)) == len(first) > 1 and not any(_has_lv(x) for _, g in brk for x in g):
            which = _choice(entry, coll("gen", [part(ch[-1], ch, g) for ch, g in brk]))
        # --- exhausted
        stops = [(o, ch, g) for _, o, ch, g, _ in results if o.sig == "stop"]
        if kind != "while" or stops:
            ex = entry.clone()
            if kind == "while":
                ex.facts = entry.facts
                if len(stops) == 1:
                    o = stops[0][0]
                    for k in carried:
                        if k[0] == "e" and k[1] in o.st.env:
                            ex.env[k[1]] = o.st.env[k[1]]
                    fs = ex.facts
                    for g in stops[0][2]:
                        r = assume(g, fs)
                        if r is not None:
                            fs = r
                    ex.facts = fs
            for h, v in heap_after.items():
                ex.heap[h] = v
            exits = [(ch, g) for _, o, ch, g, _ in results if o.sig in ("break", "return", "raise")]
            ok = True
            if kind != "while":
                for ch, g in exits:
                    if not ch and not g:
                        ok = False
                        continue
                    f = neg(exists([(ch, g)]))
                    if not _has_lv(f):
                        fs2 = assume(f, ex.facts)
                        if fs2 is None:
                            ok = False
                        else:
                            ex.facts = fs2
            twice = self.repeated(entry, heap_after, exits, uid)
            if ok and twice is not None:
                ok = self.assume(ex, neg(twice))
            if ok and which is not None and len(exits) == len(brk):
                ok = self.assume(ex, eq(which, const(-1)))
            if ok:
                if has_events:
                    ex.trace = Cell(entry.trace, lnode)
                if kind == "while":
                    for k in carried:
                        if k[0] == "f":
                            ex.fields[k[1]] = mk("phi", uid, k[1][1])
                    outs.append(Out("exhaust", ex))
                else:
                    for k, v in env_after.items():
                        ex.env[k[1]] = v
                    rest = {k for k in carried if k not in env_after}
                    outs.extend(Out("exhaust", s) for s in self.after_vars(ex, entry, rest, cont, uid, live))
        # --- left early
        left = LoopNode(uid, kind, [p for p in paths if p.signal in ("next", "continue")], lnode.line, lnode.fn, lnode.path, True)
        for stt, o, chain, g, enter in results:
            if o.sig in ("next", "continue", "stop"):
                continue
            s = o.st
            for h, v in (heap_left or heap_after).items():
                if h in s.heap:
                    added = self.added(stt.heap[h], s.heap[h])
                    s.heap[h] = _extend(v, added) if added is not None else mk("opaque", "loop-object", ())
            for k, v in env_left.items():
                if k[1] in s.env:
                    pm = self.rebuilt(stt.env[k[1]], self.fz(s, s.env[k[1]]))
                    s.env[k[1]] = _extend(v, ("coll",) + pm) if pm is not None else mk("opaque", "loop-object", ())
            pure = s.trace is enter
            if pure:
                s.trace = entry.trace if not has_events else Cell(entry.trace, left)
                if chain and kind != "while":
                    twice = self.repeated(entry, heap_after, [(chain, g)], uid)
                    if twice is not None and not self.assume(s, twice):
                        continue
                    if which is not None and o.sig == "break" and not self.assume(s, eq(which, const(first.index(chain)))):
                        continue
                    self.to_pick(s, o, chain, g, entry, fid, live if o.sig == "break" else None)
            elif any(p.signal in ("next", "continue") and p.cell is not p.enter for p in paths):
                # earlier iterations, then the events of the final one
                pre = Cell(entry.trace, left)
                seg = []
                c2 = s.trace
                while c2 is not enter and c2 is not None:
                    seg.append(c2.node)
                    c2 = c2.prev
                cur = Cell(pre, Enter(uid, chain, lnode.line, lnode.fn))
                for nd in reversed(seg):
                    cur = Cell(cur, nd)
                s.trace = cur
            outs.append(o)
        if kind == "while" and not outs:
            endless = entry.clone()
            endless.trace = Cell(entry.trace, lnode)
            self.forever[(uid, entry.facts)] = endless
        return outs

    def repeated(self, entry: State, after: Dict[T, T], exits: Sequence[Tuple[Tuple[T, ...], FrozenSet[T]]], uid: Any) -> Optional[T]:
        """A loop that is left early (only) when the value of an element is in a collection of those of all elements before: the
        formula "there are fewer different values than elements"."""

        mark = mk("acc", uid)
        if len(exits) != 1 or len(exits[0][0]) != 1 or len(exits[0][1] - {neg(mk("fresh", uid))}) != 1:
            return None
        (v,), (g,) = exits[0][0], tuple(x for x in exits[0][1] if x is not neg(mk("fresh", uid)))
        if g.op != "eq" or mark not in g.a or v.op != "elem":
            return None
        f, = [x for x in g.a if x is not mark] or [None]
        if f is None or not contains(f, v):
            return None
        same = [h for h, c in after.items() if c.op == "coll" and len(c.a[1]) == 1 and not c.a[2] and c.a[1][0] is part(f, (v,), frozenset())
                and entry.heap[h].op == "coll" and not entry.heap[h].a[1]]
        others = [h for h, c in after.items() if c.op == "coll" and h not in same]
        if not same or others:
            return None
        return terms.ne(mk("len", coll("frozenset", [part(f, (v,), frozenset())])), mk("len", v.a[0]))

    def to_pick(self, s: State, o: Out, chain: Tuple[T, ...], guards: FrozenSet[T], entry: State, fid: Any = None,
                live: Optional[Set[str]] = None) -> None:
        cur: Dict[T, T] = {}
        if len(chain) == 1:
            v = chain[0]
            gs = frozenset(subst(g, {v: BV}) for g in guards if contains(g, v))
            cur[v] = mk("pick", v.a[0], gs)
        else:
            p = part(chain[-1], chain, guards)
            for i, v in enumerate(chain):
                cur[v] = mk("pick", subst(v, cur).a[0], frozenset({mk("multi", p.n, _scope(entry, p), i)}))
        free = terms.free
        if len(chain) == 1 and live is not None and not (
                any(free(x, chain[0]) for k, x in s.env.items() if k[0] != fid or k[1] in live)
                or any(free(x, chain[0]) for x in s.heap.values()) or any(free(x, chain[0]) for x in s.fields.values())):
            # only that there is one matters from here on
            s.facts = frozenset(f for f in s.facts if not (f in guards and free(f, chain[0])))
            for k in [k for k, x in s.env.items() if free(x, chain[0])]:
                del s.env[k]
        s.rename(cur)
        if len(chain) == 1:
            self.assume(s, exists([(chain, frozenset(g for g in guards if contains(g, chain[0])))]))
        if o.val is not None:
            o.val = subst(o.val, cur)
        if o.exc is not None:
            o.exc = Exc(o.exc.cls, subst(o.exc.val, cur))

    def strip_minus(self, c: T) -> Tuple[T, ...]:
        if c.a[2] and all(m.a[0].op == "nt" and not m.a[1] and not m.a[2] for m in c.a[2]):
            c = mk("coll", c.a[0], _join_records(c.a[1]), c.a[2])
        return _join_records(self.strip_minus_raw(c))

    def strip_minus_raw(self, c: T) -> Tuple[T, ...]:
        if not c.a[2]:
            return c.a[1]
        out = []
        for p in c.a[1]:
            # a single removed element may be named like a bound variable of the part
            for m in c.a[2]:
                if not m.a[1] and any(contains(m, v) for v in p.a[1]):
                    p = fresh_part(p, p.a[1])
            e, chain, guards = p.a
            g = guards
            for m in c.a[2]:
                me, mch, mg = m.a
                if me is e:
                    extra = mg - guards
                    # variables that only occur in the removed part range over all of their values
                    known = _fixed(e)
                    loose = tuple(v for v in mch if v not in known and any(contains(x, v) for x in extra))
                    if not extra:
                        g = g | {FALSE}
                    elif not any(v in chain for v in loose):
                        g = g | {neg(exists([(loose, extra)]) if loose else conj(*extra))}
                    else:
                        g = g | {neg(isin(e, coll("set", (m,))))}
                else:
                    d = eq(me, e)
                    if d is FALSE:
                        continue
                    f = isin(e, coll("set", (m,)))
                    if f is FALSE:
                        continue
                    g = g | {neg(f)}
            if FALSE not in g:
                out.append(part(e, chain, frozenset(x for x in g if x is not TRUE)))
        return tuple(out)

    def rebuilt(self, before: T, after: T) -> Optional[Tuple[Tuple[T, ...], Tuple[T, ...]]]:
        """What an iteration added to and removed from an immutable collection (None: something else happened)."""

        if after is before:
            return (), ()
        if after.op != "coll" or (after.a[0] in ("set", "frozenset")) != (before.a[0] in ("set", "frozenset")):
            return None
        if any(m not in after.a[2] for m in before.a[2]):
            return None
        rest = list(after.a[1])
        minus: Optional[FrozenSet[T]] = None
        for p in before.a[1]:
            forms = [p] + ([fresh_part(p, tuple(self.scope) + p.a[1])] if p.a[1] else [])
            for q in rest:
                f = next((f for f in forms if q.a[0] is f.a[0] and q.a[1] == f.a[1] and f.a[2] <= q.a[2]), None)
                if f is None:
                    continue
                got = set()
                for g in q.a[2] - f.a[2]:
                    if g.op != "not":
                        return None
                    h = g.a[0]
                    if h.op == "eq" and f.a[0] in h.a:
                        got |= {part(x, (), frozenset()) for x in h.a if x is not f.a[0]}
                    elif h.op == "in" and h.a[0] is f.a[0]:
                        got |= set(coll_of(h.a[1]).a[1])
                    else:
                        return None
                if minus is not None and minus != got:
                    return None
                minus = frozenset(got)
                rest.remove(q)
                break
            else:
                return None
        return tuple(rest), tuple(minus or ()) + tuple(m for m in after.a[2] if m not in before.a[2])

    def added(self, before: T, after: T) -> Optional[Tuple[str, Tuple[T, ...], Tuple[T, ...]]]:
        if before is after:
            return ("coll", (), ())
        if before.op == "coll" and after.op == "coll":
            bp = before.a[1]
            if not all(p in after.a[1] for p in bp) or not all(m in after.a[2] for m in before.a[2]):
                return None
            return ("coll", tuple(p for p in after.a[1] if p not in bp), tuple(m for m in after.a[2] if m not in before.a[2]))
        if before.op == "dictv" and after.op == "dictv":
            if after.a[0] is before.a[0] and after.a[1][:len(before.a[1])] == before.a[1]:
                return ("dict", after.a[1][len(before.a[1]):], ())
            if after.a[0] is before.a[0]:
                rest = list(after.a[1])
                for e in before.a[1]:
                    if e not in rest:
                        return None
                    rest.remove(e)
                return ("dict", tuple(rest), ())
            return None
        if after.op == "dictv" and after.a[0] is before:
            return ("dict", after.a[1], ())
        return None

    def new_elements(self, carried: Set[Any], cont: List[Tuple[State, Out, Tuple[T, ...], FrozenSet[T]]]) -> Set[T]:
        """What an iteration adds to the collections it extends (elements, keys)."""

        out: Set[T] = set()
        for stt, o, _, _ in cont:
            for k in carried:
                if k[0] == "h" and k[1] in stt.heap and k[1] in o.st.heap:
                    a, b = stt.heap[k[1]], o.st.heap[k[1]]
                elif k[0] == "e" and k[1] in stt.env and k[1] in o.st.env:
                    a, b = self.fz(stt, stt.env[k[1]]), self.fz(o.st, o.st.env[k[1]])
                else:
                    continue
                have = set(a.a[1]) if a.op in ("coll", "dictv") else set()
                for p in (b.a[1] if b.op in ("coll", "dictv") else ()):
                    if p not in have and p.op in ("part", "put", "app"):
                        out.add(p.a[0])
        return out

    def settled(self, gs: FrozenSet[T]) -> FrozenSet[T]:
        """Conditions of an iteration for its contribution to what the loop collects. Whether something was collected before
        doesn't matter if it is collected by this iteration otherwise (it's there either way)."""

        keep = {g for g in gs if _has_lv(g) and self.matters(g)}
        if any(_has_op(g, ("acc",)) and g not in keep for g in gs):
            keep = {g for g in keep if _has_op(g, ("lv", "acc"))}
        return frozenset(g for g in gs if not _has_lv(g) or g in keep)

    def matters(self, g: T) -> bool:
        """Whether a condition on carried values has to be kept."""

        rest = [g]
        while rest:
            x = rest.pop()
            if x.op == "truthy" and x.a[0].op == "fresh":
                x = x.a[0]
            if not _has_lv(x) or x.op == "fresh" and _has_op(g, ("lv", "acc")):
                continue
            if x.op in ("and", "or"):
                rest.extend(x.a[0])
            elif x.op == "not":
                rest.append(x.a[0])
            elif x.op == "exists":
                for d in x.a[0]:
                    rest.extend(d.a[1])
            elif x.op in ("eq", "in"):
                sides = [y for y in x.a if not _has_lv(y)]
                if not any(y in self.news or any(attr(n, f) is y for n in self.news if n.op == "nt" for f, _ in n.a[1]) for y in sides):
                    return True
            else:
                return True
        return False

    def generalise(self, init: T, start: T, uid: Any, ends: List[Tuple[T, Tuple[T, ...], FrozenSet[T]]], obj: T) -> T:
        cur = init
        for end, chain, guards in ends:
            ad = self.added(start, end)
            if ad is None:
                return mk("opaque", "loop-object", (obj,))
            kind, plus, minus = ad
            guards = self.settled(guards)
            if kind == "coll":
                gp = [part(p.a[0], chain + p.a[1], guards | p.a[2]) for p in plus]
                gm = [part(p.a[0], chain + p.a[1], guards | p.a[2]) for p in minus]
                cur = _extend(cur, ("coll", tuple(gp), tuple(gm)))
            else:
                es: List[T] = []
                fresh: List[T] = []
                earlier = cur.a[1] if cur.op == "dictv" else ()
                apps = any(e.op == "app" for e in plus + earlier) or any(
                    e.op == "app" for x, _, _ in ends if x.op == "dictv" for e in x.a[1])
                for e in plus:
                    if e.op == "app":
                        a = _binder("app", e.a[0], e.a[1], chain + e.a[2], guards | e.a[3])
                        if a not in earlier and a not in es:
                            es.append(a)
                    elif e.op == "put" and apps:
                        if e.a[0] in self.resets and not (init.op == "dictv" and not any(x.op == "app" for x in init.a[1])
                                                          and _injective(e.a[0], chain)):
                            return self.opaque("entry-reset", obj)
                        a = mk("put", e.a[0], e.a[1], chain + e.a[2], guards | e.a[3])
                        if a not in earlier and a not in fresh:
                            fresh.append(a)
                    elif e.op == "put":
                        es.append(mk("put", e.a[0], e.a[1], chain + e.a[2], guards | e.a[3]))
                    elif e.op == "del":
                        es.append(mk("del", e.a[0], chain + e.a[1], guards | e.a[2]))
                if fresh:
                    cur = mk("dictv", cur.a[0], tuple(fresh) + cur.a[1]) if cur.op == "dictv" else dictv(cur, tuple(fresh))
                cur = _extend(cur, ("dict", tuple(es), ()))
        return cur

    def after_vars(self, ex: State, entry: State, carried: Set[Any],
                   cont: List[Tuple[State, Out, Tuple[T, ...], FrozenSet[T]]], uid: Any, live: Set[str]) -> List[State]:
        groups: Dict[Any, List[Tuple[Tuple[T, ...], FrozenSet[T]]]] = {}
        flags: Set[Any] = set()
        for k in sorted((x for x in carried if x[0] in ("e", "f")), key=lambda x: str(x[1][1])):
            store = (lambda s: s.env) if k[0] == "e" else (lambda s: s.fields)
            key = k[1]
            init = store(entry).get(key)
            lv = mk("lv", uid, key[1] if k[0] == "e" else "." + key[1])
            is_live = (k[0] == "f") or key[1] in live or key[1] == "<acc>"
            if not is_live:
                store(ex).pop(key, None)
                if init is not None:
                    store(ex)[key] = mk("phi", uid, key[1])
                continue
            vals = [(store(o.st).get(key), ch, g) for _, o, ch, g in cont]
            ass = [(v, ch, g) for v, ch, g in vals if v is not None and v is not lv]
            if init is not None:
                # assigned only if smaller (larger) than the current value
                for op, cmp in (("min", lambda v: (lt(v, lv), le(v, lv))), ("max", lambda v: (lt(lv, v), le(lv, v)))):
                    if ass and all(not contains(v, lv) and set(cmp(v)) & g for v, _, g in ass):
                        ass = [(mk(op, frozenset({v, lv})), ch, g - set(cmp(v))) for v, ch, g in ass]
            if init is not None and all(contains(v, lv) for v, _, _ in ass):
                store(ex)[key] = self.fold(init, lv, ass, uid, key[1])
                continue
            if any(contains(v, lv) for v, _, _ in ass):
                store(ex)[key] = mk("phi", uid, key[1])
                continue
            flags.add(k)
        if not flags:
            return [ex]
        # partition: no iteration assigned anything / the assigning paths
        for _, o, ch, g in cont:
            vec = []
            for k in flags:
                src = o.st.env if k[0] == "e" else o.st.fields
                v = src.get(k[1])
                lv = mk("lv", uid, k[1][1] if k[0] == "e" else "." + k[1][1])
                if v is not None and v is not lv:
                    vec.append((k, v))
            if vec:
                groups.setdefault(frozenset(vec), []).append((ch, g))
        out: List[State] = []
        # values first assigned in the loop are unbound when it never assigns
        never = ex.clone()
        ok = True
        for vec, alts in groups.items():
            f = neg(exists([(ch, g) for ch, g in alts]))
            if _has_lv(f):
                continue
            fs = assume(f, never.facts)
            if fs is None:
                ok = False
                break
            never.facts = fs
        if ok:
            out.append(never)
        sets = {frozenset(k for k, _ in vec) for vec in groups}
        for vec, alts in groups.items():
            for ch, g in alts:
                s = ex.clone()
                fs2: Optional[FrozenSet[T]] = s.facts
                for x in g:
                    if _has_lv(x):
                        continue
                    fs2 = assume(x, fs2)  # type: ignore
                    if fs2 is None:
                        break
                if fs2 is None:
                    continue
                s.facts = fs2
                for k, v in vec:
                    (s.env if k[0] == "e" else s.fields)[k[1]] = v
                if len(sets) > 1:
                    mine = {k for k, _ in vec}
                    for k in flags - mine:
                        (s.env if k[0] == "e" else s.fields)[k[1]] = mk("phi", uid, k[1][1])
                # the assigning iteration is some iteration: name its element
                if len(ch) == 1 and any(contains(v, ch[0]) for _, v in vec):
                    gs = frozenset(subst(x, {ch[0]: BV}) for x in g if contains(x, ch[0]) and not _has_lv(x))
                    pk = mk("pick", ch[0].a[0], gs | {mk("lastmatch")})
                    if not any(x.op == "ev" and contains(x, ch[0]) for _, v in vec for x in terms.subterms(v)):
                        s.rename({ch[0]: pk})
                out.append(s)
        return out

    def fold(self, init: T, lv: T, ass: List[Tuple[T, Tuple[T, ...], FrozenSet[T]]], uid: Any, name: str) -> T:
        # min / max
        if all(v.op in ("min", "max") and lv in v.a[0] for v, _, _ in ass):
            ops = {v.op for v, _, _ in ass}
            if len(ops) == 1:
                ps = [part(x, ch, self.settled(gs))
                      for v, ch, gs in ass for x in v.a[0] if x is not lv]
                return mk("fold" + ops.pop(), init, coll("gen", ps))
        # boolean accumulation
        if is_const(init) and isinstance(cval(init), bool):
            tl = mk("truthy", lv)
            if all(v.op == "or" and tl in v.a[0] for v, _, _ in ass):
                return disj(init, *[exists([(ch, self.settled(gs - {tl, neg(tl)}) | {disj(*(v.a[0] - {tl}))})])
                                    for v, ch, gs in ass])
            if all(v.op == "and" and tl in v.a[0] for v, _, _ in ass):
                return conj(init, *[neg(exists([(ch, self.settled(gs - {tl, neg(tl)}) | {neg(conj(*(v.a[0] - {tl})))})]))
                                    for v, ch, gs in ass])
        # x = x | {...}
        el = elem(lv)
        me = part(el, (el,), frozenset())
        if all(v.op == "coll" and me in v.a[1] and not v.a[2] for v, _, _ in ass):
            cur = coll_of(init)
            ps = list(cur.a[1])
            for v, ch, gs in ass:
                for p in v.a[1]:
                    if p is not me:
                        ps.append(part(p.a[0], ch + p.a[1], p.a[2] | self.settled(gs)))
            return coll(ass[0][0].a[0], ps, cur.a[2])
        # x = x - {...} / filtered
        return mk("phi", uid, name)

    # ---------------------------------------------------------------------------------------- expressions
    def ev(self, n: ast.expr, st: State, fid: Any) -> List[R]:
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            return [(st, self.opaque("expr:" + type(n).__name__), None)]
        return m(n, st, fid)

    def seq(self, ns: List[ast.expr], st: State, fid: Any) -> List[R]:
        """Evaluate left to right; the value is a tuple term (starred elements wrapped in 'star')."""

        acc: List[Tuple[State, List[T], Optional[Exc]]] = [(st, [], None)]
        for n in ns:
            nxt: List[Tuple[State, List[T], Optional[Exc]]] = []
            star = isinstance(n, ast.Starred)
            for s, vs, e in acc:
                if e is not None:
                    nxt.append((s, vs, e))
                    continue
                for s2, v, e2 in self.ev(n.value if star else n, s, fid):  # type: ignore
                    nxt.append((s2, vs + [mk("star", v) if star else v], e2))  # type: ignore
            acc = nxt
        return [(s, tup(*vs) if e is None else None, e) for s, vs, e in acc]

    @staticmethod
    def bind(rs: List[R], f: Callable[[State, T], List[R]]) -> List[R]:
        out: List[R] = []
        for s, v, e in rs:
            if e is not None:
                out.append((s, v, e))
            else:
                out.extend(f(s, v))  # type: ignore
        return out

    def ex_Constant(self, n: ast.Constant, st: State, fid: Any) -> List[R]:
        return [(st, const(n.value), None)]

    def lookup(self, st: State, fid: Any, name: str) -> Optional[T]:
        f = fid
        while f is not None:
            v = st.env.get((f, name))
            if v is not None:
                return v
            f = self.parent.get(f)
        return self.global_value(self.fmod[fid], name)

    def global_value(self, mod: Module, name: str) -> Optional[T]:
        if name in mod.classes:
            return mk("cls", name)
        if name in mod.functions:
            f = mod.functions[name]
            t = mk("func", ("mod", f.qualname), f.qualname)
            self.funcs[t] = (f, None, ())
            return t
        if name in mod.assigns:
            if name in ("__all__",):
                return mk("opaque", "__all__", ())
            k = ("gl", mod.name, name)
            if k not in self.parent:
                self.parent[k] = self.const_expr(mod.assigns[name], mod, None)
            return self.parent[k]
        if name in mod.imports:
            m, a = mod.imports[name]
            return self.import_value(m, a)
        return None

    def import_value(self, m: str, a: Optional[str]) -> T:
        if a is None:
            return mk("module", m)
        if a in self.p.classes:
            return mk("cls", a)
        for md in self.p.modules.values():
            if m.lstrip(".") and (md.name.endswith(m.lstrip("."))):
                v = self.global_value(md, a)
                if v is not None:
                    return v
        return mk("ext", m.lstrip(".") + "." + a)

    BUILTINS = {
        "len", "frozenset", "set", "list", "tuple", "dict", "sorted", "reversed", "filter", "map", "next", "iter",
        "any", "all", "min", "max", "sum", "enumerate", "zip", "range", "isinstance", "bool", "int", "str", "bytes",
        "print", "getattr", "hasattr", "type", "repr", "abs", "float", "object", "super", "callable", "id", "hash",
        "anext", "aiter", "setattr", "round", "bytearray", "memoryview", "vars"
    }

    def ex_Name(self, n: ast.Name, st: State, fid: Any) -> List[R]:
        v = self.lookup(st, fid, n.id)
        if v is None:
            if n.id in self.BUILTINS:
                v = mk("cls", n.id) if n.id in PRIM_CLASSES else mk("builtin", n.id)
            elif self.p.is_exc_subclass(n.id, "BaseException"):
                v = mk("cls", n.id)
            else:
                v = mk("opaque", "unbound:" + n.id, ())
        return [(st, v, None)]

    def ex_NamedExpr(self, n: ast.NamedExpr, st: State, fid: Any) -> List[R]:
        def go(s: State, v: T) -> List[R]:
            f = fid
            while isinstance(f, tuple) and len(f) == 3 and f[0] == "comp":
                f = f[1]
            s.env[(self.owner(s, f, n.target.id), n.target.id)] = v
            return [(s, v, None)]
        return self.bind(self.ev(n.value, st, fid), go)

    def ex_Tuple(self, n: ast.Tuple, st: State, fid: Any) -> List[R]:
        def go(s: State, v: T) -> List[R]:
            if any(x.op == "star" for x in v.a[0]):
                return [(s, self.build_coll(s, "tuple", v.a[0]), None)]
            return [(s, v, None)]
        return self.bind(self.seq(n.elts, st, fid), go)

    def build_coll(self, st: State, kind: str, vs: Iterable[T]) -> T:
        ps: List[T] = []
        for v in vs:
            if v.op == "star":
                c = coll_of(self.fz(st, v.a[0]))
                ps.extend(self.strip_minus(c))
            else:
                ps.append(part(v, (), frozenset()))
        return coll(kind, ps)

    def ex_List(self, n: ast.List, st: State, fid: Any) -> List[R]:
        return self.bind(self.seq(n.elts, st, fid), lambda s, v: [
            (s, self.alloc(s, fid, n, "list", self.build_coll(s, "list", v.a[0])), None)])

    def ex_Set(self, n: ast.Set, st: State, fid: Any) -> List[R]:
        return self.bind(self.seq(n.elts, st, fid), lambda s, v: [
            (s, self.alloc(s, fid, n, "set", self.build_coll(s, "set", v.a[0])), None)])

    def ex_Dict(self, n: ast.Dict, st: State, fid: Any) -> List[R]:
        flat: List[ast.expr] = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                flat.append(k)
            flat.append(v)

        def go(s: State, vals: T) -> List[R]:
            it = iter(vals.a[0])
            d = dictv(None, ())
            for k in n.keys:
                if k is None:
                    d = self.dict_merge(d, self.fz(s, next(it)))
                else:
                    kk, vv = next(it), next(it)
                    d = dictv(d, (mk("put", kk, vv, (), frozenset()),))
            return [(s, self.alloc(s, fid, n, "dict", d), None)]
        return self.bind(self.seq(flat, st, fid), go)

    def dict_merge(self, d: T, o: T) -> T:
        if d.op == "dictv" and d.a[0] is None and not d.a[1]:
            return o if o.op == "dictv" else dictv(o, ())
        if d.op == "dictv" and any(e.op == "app" for e in d.a[1]):
            return self.opaque("entry-merge", d, o)
        if o.op == "dictv":
            es = tuple(mk("put", k, v, ch, g) for k, v, ch, g in dict_items(o))
            return dictv(d, es)
        k = elem(o)
        return dictv(d, (mk("put", k, item(o, k), (k,), frozenset()),))

    def ex_JoinedStr(self, n: ast.JoinedStr, st: State, fid: Any) -> List[R]:
        exprs = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        plain = all(v.format_spec is None and v.conversion == -1 for v in n.values if isinstance(v, ast.FormattedValue))

        def go(s: State, vals: T) -> List[R]:
            it = iter(vals.a[0])
            ps: List[Any] = []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    ps.append(v.value)
                else:
                    x = self.fz(s, next(it))
                    ps.append(x if plain else mk("fmt", x, ast.unparse(v)))
            return [(s, string(ps), None)]
        return self.bind(self.seq(exprs, st, fid), go)

    def ex_FormattedValue(self, n: ast.FormattedValue, st: State, fid: Any) -> List[R]:
        return self.ev(n.value, st, fid)

    def ex_Attribute(self, n: ast.Attribute, st: State, fid: Any) -> List[R]:
        return self.bind(self.ev(n.value, st, fid), lambda s, o: self.get_attr(s, o, n.attr, n, fid))

    def get_attr(self, st: State, o: T, name: str, n: ast.AST, fid: Any) -> List[R]:
        v = st.fields.get((o, name))
        if v is not None:
            return [(st, v, None)]
        if o.op == "module":
            full = o.a[0] + "." + name
            for md in self.p.modules.values():
                if md.name == o.a[0] or md.name == full:
                    gv = self.global_value(md, name)
                    if gv is not None:
                        return [(st, gv, None)]
            return [(st, mk("ext", full), None)]
        if o.op == "ext":
            return [(st, mk("ext", o.a[0] + "." + name), None)]
        if o.op == "cls" or (o.op == "builtin"):
            cname = o.a[0]
            if cname in terms._ENUMS and name in terms._ENUMS[cname]:
                return [(st, enum(cname, name), None)]
            if name == "__name__":
                return [(st, const(cname), None)]
            for c in self.p.mro(cname):
                if name in c.methods:
                    return [(st, mk("bound", o, name), None)]
                if name in c.consts:
                    return [(st, self.class_const(c, name), None)]
            return [(st, mk("bound", o, name), None)]
        if o is SELF:
            if name == "__class__":
                return [(st, mk("cls", self.self_cls), None)]
            f = self.p.method(self.self_cls, name)
            if f is not None:
                if f.is_property and not f.is_abstract:
                    return self.invoke(st, f, {f.param_names()[0]: SELF}, None, (fid, nid(n)))
                if f.is_property:
                    return [(st, attr(SELF, name), None)]
                return [(st, mk("bound", SELF, name), None)]
            for c in self.p.mro(self.self_cls):
                if name in c.consts:
                    return [(st, self.class_const(c, name), None)]
            return [(st, attr(SELF, name), None)]
        if o.op == "new" and o.a[1].startswith("obj:"):
            cn = o.a[1][4:]
            if name == "__class__":
                return [(st, mk("cls", cn), None)]
            f = self.p.method(cn, name)
            if f is not None:
                if f.is_property:
                    return self.invoke(st, f, {f.param_names()[0]: o}, None, (fid, nid(n)))
                return [(st, mk("bound", o, name), None)]
            for c in self.p.mro(cn):
                if name in c.consts:
                    return [(st, self.class_const(c, name), None)]
            return [(st, attr(o, name), None)]
        if o.op == "obj":
            for k, v in o.a[1]:
                if k == name:
                    return [(st, v, None)]
        if o.op == "excobj":
            for k, v in o.a[1]:
                if k == name:
                    return [(st, v, None)]
            return [(st, attr(o, name), None)]
        if o.op == "nt":
            for k, v in o.a[1]:
                if k == name:
                    return [(st, v, None)]
            f = self.p.method(o.a[0], name)
            if f is not None and f.is_property:
                return self.invoke(st, f, {f.param_names()[0]: o}, None, (fid, nid(n)))
            return [(st, mk("bound", o, name), None)]
        # Maybe
        if name in ("is_just", "is_nothing"):
            f2 = mk("isjust", o)
            return [(st, f2 if name == "is_just" else neg(f2), None)]
        ty = typeof(o)
        base = ty[9:-1] if ty and ty.startswith("Optional[") else ty
        if base:
            for c in self.p.mro(base):
                f = c.methods.get(name)
                if f is not None:
                    if f.is_property:
                        if f.is_abstract or base in EFFECT_CLASSES:
                            return [(st, attr(o, name), None)]
                        return self.invoke(st, f, {f.param_names()[0]: o}, None, (fid, nid(n)))
                    return [(st, mk("bound", o, name), None)]
                if name in c.annots:
                    return [(st, attr(o, name), None)]
        if self.is_method_name(o, name):
            return [(st, mk("bound", o, name), None)]
        return [(st, attr(o, name), None)]

    def is_method_name(self, o: T, name: str) -> bool:
        return True

    def class_const(self, c: Cls, name: str) -> T:
        return self.const_expr(c.consts[name], c.module, c)

    def ex_Subscript(self, n: ast.Subscript, st: State, fid: Any) -> List[R]:
        def go(s: State, o: T) -> List[R]:
            if isinstance(n.slice, ast.Slice):
                sl = n.slice
                parts = [x for x in (sl.lower, sl.upper, sl.step) if x is not None]

                def go2(s2: State, vs: T) -> List[R]:
                    it = iter(vs.a[0])
                    lo = next(it) if sl.lower is not None else const(0)
                    hi = next(it) if sl.upper is not None else NONE
                    step = next(it) if sl.step is not None else const(1)
                    return self.do_slice(s2, o, lo, hi, step, n, fid)
                return self.bind(self.seq(parts, s, fid), go2)
            return self.bind(self.ev(n.slice, s, fid), lambda s2, k: self.get_item(s2, o, k, n, fid))
        return self.bind(self.ev(n.value, st, fid), go)

    def do_slice(self, st: State, o: T, lo: T, hi: T, step: T, n: ast.AST, fid: Any) -> List[R]:
        f = self.fz(st, o)
        if lo is const(0) and hi is const(1) and step is const(1) and (
                f.op == "ordered" or (f.op == "coll")):
            out: List[R] = []
            for s, v in self.pick_first(st, f):
                out.append((s, literal_coll("list", [v] if v is not None else []), None))
            return out
        if lo is const(0) and hi is NONE and step is const(1):
            return [(st, f, None)]
        if f.op == "tuple" and is_const(lo) and (hi is NONE or is_const(hi)) and step is const(1):
            return [(st, tup(*f.a[0][cval(lo):cval(hi)]), None)]
        return [(st, mk("slice", f, lo, hi, step), None)]

    # collections stored in a local dictionary ------------------------------------------------------------
    def is_mutating(self, n: ast.AST, fid: Any) -> bool:
        """Is the value of this expression a collection which is changed in place afterwards?"""

        if id(n) in self._mutating_loads:
            return True
        mod = self.fmod.get(fid)
        if mod is None:
            return False
        if mod.path not in self._mutating:
            self._mutating[mod.path] = _mutating_uses(mod.tree)
        return id(n) in self._mutating[mod.path]

    def has_entries(self, fid: Any) -> bool:
        mod = self.fmod.get(fid)
        if mod is None:
            return False
        if mod.path not in self._mutating:
            self._mutating[mod.path] = _mutating_uses(mod.tree)
        f = self.ffunc.get(fid)
        if f is None or f.node is None:
            return bool(self._mutating[mod.path])
        uses = self._mutating[mod.path] | self._mutating_loads
        return any(id(x) in uses or isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Subscript) for x in ast.walk(f.node))

    def is_entry(self, st: State, o: T) -> bool:
        return o.op == "item" and o.a[0].op == "new" and o.a[0].a[1] == "dict" and o.a[0] in st.heap and \
            st.heap[o.a[0]].op == "dictv"

    def entry_ref(self, st: State, o: T, k: T, n: ast.AST, fid: Any) -> Optional[T]:
        """A reference to the collection stored for a key of a local dictionary, to be changed in place."""

        if o.op != "new" or o.a[1] != "dict" or not self.is_mutating(n, fid):
            return None
        c = st.heap.get(o)
        if c is None or c.op != "dictv" or c.a[0] is not None:
            return None
        for e in reversed(c.a[1]):
            if e.op == "put" and e.a[0] is k and not e.a[2] and not e.a[3] and e.a[1].op == "new":
                return e.a[1]
            if eq(e.a[0], k) is not FALSE:
                break
        if self.dict_depth.get(o) == self.depth:
            # not in a loop: an object of its own
            rs = self.lookup_item(st.clone(), self.fz(st, o), k)
            if len(rs) == 1 and rs[0][2] is None and rs[0][1] is not None and rs[0][1].op == "coll" and \
                    rs[0][1].a[0] in ("list", "set") and simplify(isin(k, c), st.facts) is TRUE:
                ref = self.alloc(st, fid, n, rs[0][1].a[0], rs[0][1])
                st.heap[o] = mk("dictv", c.a[0], c.a[1] + (mk("put", k, ref, (), frozenset()),))
                return ref
        puts = [e for e in c.a[1] if e.op == "put" and e.a[0].op != "acc"]
        if any(e.op == "del" for e in c.a[1]) or not all(e.a[1].op == "coll" and e.a[1].a[0] in ("list", "set") for e in puts):
            return None
        if not puts and o not in self.factories and not any(e.op in ("app", "put") for e in c.a[1]):
            return None
        return mk("item", o, k)

    def entry_default(self, st: State, o: T, k: T, d: T) -> None:
        """The key is there from now on, with an empty collection if it was not there before."""

        c = st.heap[o]
        e = mk("put", k, coll(d.a[0], ()), (), frozenset())
        if not any(x.op == "put" and x.a[0] is k and not x.a[2] and not x.a[3] for x in c.a[1]):
            st.heap[o] = mk("dictv", c.a[0], (e,) + c.a[1])
        for p in d.a[1]:
            c = st.heap[o]
            st.heap[o] = mk("dictv", c.a[0], c.a[1] + (mk("app", k, p.a[0], p.a[1], p.a[2]),))

    def entry_method(self, st: State, o: T, name: str, pos: List[T], F: List[T]) -> Optional[List[R]]:
        d, k = o.a
        c = st.heap[d]
        if name in ("add", "append", "appendleft") or (name == "insert" and len(F) == 2):
            st.heap[d] = mk("dictv", c.a[0], c.a[1] + (mk("app", k, F[-1], (), frozenset()),))
            return [(st, NONE, None)]
        if name in ("update", "extend"):
            u = self.union_args(st, pos, "set")
            if not u.a[2]:
                st.heap[d] = mk("dictv", c.a[0], c.a[1] + tuple(mk("app", k, p.a[0], p.a[1], p.a[2]) for p in u.a[1]))
                return [(st, NONE, None)]
        if name in MUTATORS:
            st.heap[d] = self.opaque("entry:" + name, c)
            return [(st, self.opaque("entry:" + name, o), None)]
        return None

    def get_item(self, st: State, o: T, k: T, n: ast.AST, fid: Any) -> List[R]:
        f = self.fz(st, o)
        k = self.fz(st, k)
        if o in self.factories and f.op == "dictv" and self.factories[o] in ("list", "set"):
            d = coll(self.factories[o], ())
            r = self.entry_ref(st, o, k, n, fid)
            if r is not None:
                self.entry_default(st, o, k, d)
                return [(st, r, None)]
            a, b = self.split(st, isin(k, f))
            out: List[R] = []
            if a is not None:
                out.extend(self.lookup_item(a, f, k))
            if b is not None:
                out.append((b, d, None))
            return out
        r = self.entry_ref(st, o, k, n, fid)
        if r is not None:
            if not self.is_caught("KeyError"):
                return [(st, r, None)]
            a, b = self.split(st, isin(k, f))
            return ([] if a is None else [(a, r, None)]) + (
                [] if b is None else [(b, None, Exc("KeyError", mk("excobj", "KeyError", (("key", k),))))])
        if f.op in ("ordered",) or (f.op == "coll" and is_const(k) and isinstance(cval(k), int)):
            if cval(k) == 0:
                lit = f.op == "coll" and f.a[1] and not f.a[1][0].a[1] and not f.a[1][0].a[2] and not f.a[2]
                if lit:
                    return [(st, f.a[1][0].a[0], None)]
                out = []
                for s, v in self.pick_first(st, f):
                    if v is not None:
                        out.append((s, v, None))
                    elif self.is_caught("IndexError"):
                        out.append((s, None, Exc("IndexError", mk("excobj", "IndexError", ()))))
                return out
            if f.op == "coll" and all(not p.a[1] and not p.a[2] for p in f.a[1]) and not f.a[2] \
                    and -len(f.a[1]) <= cval(k) < len(f.a[1]):
                return [(st, f.a[1][cval(k)].a[0], None)]
            return [(st, mk("item", f, k), None)]
        ty = typeof(f)
        if self.is_caught("KeyError") and f.op not in ("tuple", "nt") and not (ty or "").startswith("Tuple"):
            a, b = self.split(st, isin(k, f))
            out = []
            if a is not None:
                out.extend(self.lookup_item(a, f, k))
            if b is not None:
                out.append((b, None, Exc("KeyError", mk("excobj", "KeyError", (("key", k),)))))
            return out
        return self.lookup_item(st, f, k)

    def lookup_item(self, st: State, f: T, k: T) -> List[R]:
        d = f
        if d.op == "dictof":
            src = terms.dict_source(d.a[0])
            if src is not None:
                d = src
        if d.op == "dictv" and any(e.op == "app" for e in d.a[1]):
            last = max([i for i, e in enumerate(d.a[1]) if e.op != "app" and simplify(eq(e.a[0], k), st.facts) is not FALSE],
                       default=-1)
            known = terms.dict_lookup(d, k)
            if known is not None:
                return [(st, known, None)]
            early = [e for e in d.a[1][:last + 1] if e.op == "app" and simplify(eq(e.a[0], k), st.facts) is not FALSE]
            if early:
                return [(st, self.opaque("entry", d, k), None)]
            res: List[R] = []
            for s2, v, ex in self.lookup_item(st, terms.without_apps(d)[0], k):
                if v is not None and v.op == "coll":
                    v = terms.extended(v, k, (), [e for e in d.a[1] if e.op == "app"])
                elif v is not None:
                    v = self.opaque("entry", d, k)
                res.append((s2, v, ex))
            return res
        if d.op == "dictv":
            # resolve against the entries, splitting on ambiguous keys
            for e in reversed(d.a[1]):
                same = simplify(eq(e.a[0], k), st.facts)
                un = not e.a[-2] and not e.a[-1]
                if un and same is TRUE:
                    return [(st, e.a[1], None)] if e.op == "put" else [(st, mk("opaque", "deleted-key", ()), None)]
                if same is FALSE:
                    continue
                if un and e.op == "put":
                    a, b = self.split(st, same)
                    out: List[R] = []
                    if a is not None:
                        out.append((a, e.a[1], None))
                    if b is not None:
                        rest = dictv(d.a[0], tuple(x for x in d.a[1] if x is not e))
                        out.extend(self.lookup_item(b, rest, k))
                    return out
                break
            v = terms.dict_lookup(d, k)
            if v is not None:
                return [(st, v, None)]
            last_put = d.a[1][-1] if d.a[1] and d.a[0] is None else None
            if last_put is not None and last_put.op == "put" and len(d.a[1]) == 1 and len(last_put.a[2]) == 1:
                # the (last) element with that key
                kk, v, chain, guards = last_put.a
                gs = guards | {eq(kk, k)}
                if not terms.distinct(kk, chain[0]):
                    gs |= {mk("lastmatch")}
                s2 = st.clone()
                return [(s2, self.open_pick(s2, part(v, chain, frozenset(gs)), None), None)]
        return [(st, item(f, k), None)]

    def ex_Starred(self, n: ast.Starred, st: State, fid: Any) -> List[R]:
        return self.ev(n.value, st, fid)

    def ex_UnaryOp(self, n: ast.UnaryOp, st: State, fid: Any) -> List[R]:
        def go(s: State, v: T) -> List[R]:
            if isinstance(n.op, ast.Not):
                return [(s, neg(self.cond(s, v)), None)]
            if isinstance(n.op, ast.USub):
                return [(s, scale(v, -1), None)]
            return [(s, mk("un", type(n.op).__name__, v), None)]
        return self.bind(self.ev(n.operand, st, fid), go)

    def ex_BoolOp(self, n: ast.BoolOp, st: State, fid: Any) -> List[R]:
        is_and = isinstance(n.op, ast.And)

        def step(i: int, s: State, vals: List[T]) -> List[R]:
            if i == len(n.values):
                return [(s, self.boolval(s, is_and, vals), None)]
            if i == 0:
                return self.bind(self.ev(n.values[0], s, fid), lambda s2, v: step(1, s2, [v]))
            # pure operand?  evaluate it under the assumption that it is reached
            prior = conj(*[self.cond(s, x) for x in vals]) if is_and else \
                conj(*[neg(self.cond(s, x)) for x in vals])
            g = simplify(prior, s.facts)
            if g is FALSE:
                return [(s, self.boolval(s, is_and, vals), None)]
            probe = s.clone()
            if not self.assume(probe, prior):
                return [(s, self.boolval(s, is_and, vals), None)]
            before = (dict(probe.env), dict(probe.heap), probe.trace, probe.facts)
            rs = self.ev(n.values[i], probe, fid)
            if len(rs) == 1 and rs[0][2] is None and rs[0][0].trace is before[2] \
                    and _same_env(rs[0][0].env, before[0]) and rs[0][0].facts == before[3]:
                s.heap = rs[0][0].heap
                v = rs[0][1]
                return step(i + 1, s, vals + [v])  # type: ignore
            out: List[R] = []
            s2 = s.clone()
            if self.assume(s2, neg(prior)):
                out.append((s2, vals[-1] if len(vals) == 1 else (FALSE if is_and else TRUE), None))
            for s3, v3, e3 in rs:
                if e3 is not None:
                    out.append((s3, v3, e3))
                else:
                    out.extend(step(i + 1, s3, [v3]))  # type: ignore
            return out
        return step(0, st, [])

    def boolval(self, st: State, is_and: bool, vals: List[T]) -> T:
        if len(vals) == 1:
            return vals[0]
        if all(is_formula(v) for v in vals):
            return conj(*vals) if is_and else disj(*vals)
        fv = [self.fz(st, v) for v in vals]
        # value-level results are only needed outside of conditions
        return terms.andval(tuple(fv)) if is_and else terms.orval(tuple(fv))

    def ex_IfExp(self, n: ast.IfExp, st: State, fid: Any) -> List[R]:
        def go(s: State, v: T) -> List[R]:
            a, b = self.split(s, self.cond(s, v))
            out: List[R] = []
            if a is not None:
                out.extend(self.ev(n.body, a, fid))
            if b is not None:
                out.extend(self.ev(n.orelse, b, fid))
            return out
        return self.bind(self.ev(n.test, st, fid), go)

    def ex_Compare(self, n: ast.Compare, st: State, fid: Any) -> List[R]:
        def go(s: State, vs: T) -> List[R]:
            xs = [self.fz(s, x) for x in vs.a[0]]
            fs = []
            for op, a, b in zip(n.ops, xs, xs[1:]):
                fs.append(self.compare(s, op, a, b))
            return [(s, conj(*fs), None)]
        return self.bind(self.seq([n.left] + n.comparators, st, fid), go)

    def compare(self, st: State, op: ast.cmpop, a: T, b: T) -> T:
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.eq(a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return neg(self.eq(a, b))
        if isinstance(op, ast.In):
            return isin(a, b)
        if isinstance(op, ast.NotIn):
            return neg(isin(a, b))
        if self.is_setlike(a) or self.is_setlike(b):
            if isinstance(op, (ast.LtE, ast.GtE)):
                x, y = (a, b) if isinstance(op, ast.LtE) else (b, a)
                return neg(nonempty(self.set_op("-", x, y)))
            return mk("truthy", mk("cmp", type(op).__name__, a, b))
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.LtE):
            return le(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        return le(b, a)

    def eq(self, a: T, b: T) -> T:
        if a.op == "coll" and b.op == "coll":
            a, b = _setnorm(a), _setnorm(b)
        # x == (v or default)
        return eq(a, b)

    @staticmethod
    def is_setlike(t: T) -> bool:
        if t.op == "coll":
            return t.a[0] in ("set", "frozenset", "keys")
        ty = typeof(t)
        return bool(ty) and ty.split("[")[0] in ("Set", "FrozenSet")  # type: ignore

    def ex_BinOp(self, n: ast.BinOp, st: State, fid: Any) -> List[R]:
        return self.bind(self.seq([n.left, n.right], st, fid), lambda s, v: [
            (s, self.binop(s, n.op, v.a[0][0], v.a[0][1], n, fid), None)])

    def set_op(self, op: str, a: T, b: T) -> T:
        ca = coll_of(a)
        kind = ca.a[0] if ca.a[0] in ("set", "frozenset") else "frozenset"
        pa = self.strip_minus(ca)
        if op == "|":
            return coll(kind, list(pa) + list(self.strip_minus(coll_of(b))))
        if op == "-" and b.op == "coll" and not b.a[2] and b.a[1] \
                and all(q.a[0].op in ("nt", "acc") and not q.a[1] and not q.a[2] for q in b.a[1]):
            # records taken out of a collection: an equality of records would fall apart into one of its fields each
            content = ca
            for q in b.a[1]:
                content = _remove(content, q.a[0])
            return mk("coll", kind, content.a[1], content.a[2]) if content.op == "coll" else content
        out = []
        for p in pa:
            if p.a[1] and any(contains(b, v) for v in p.a[1]):
                p = fresh_part(p, tuple(self.scope))
            e, ch, g = p.a
            f = isin(e, b)
            if op == "-":
                f = neg(f)
            g2 = g | (f.a[0] if f.op == "and" else {f})
            c = conj(*g2)
            if c is FALSE:
                continue
            out.append(part(e, ch, frozenset(x for x in g2 if x is not TRUE)))
        return coll(kind, out)

    def binop(self, st: State, op: ast.operator, a: T, b: T, n: ast.AST, fid: Any) -> T:
        fa, fb = self.fz(st, a), self.fz(st, b)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            if is_formula(fa) and is_formula(fb) and not isinstance(op, ast.Sub):
                if isinstance(op, ast.BitOr):
                    return disj(fa, fb)
                if isinstance(op, ast.BitAnd):
                    return conj(fa, fb)
            if isinstance(op, ast.BitOr) and (fa.op == "lv" and is_formula(fb)):
                return disj(mk("truthy", fa), fb)
            if isinstance(op, ast.BitAnd) and (fa.op == "lv" and is_formula(fb)):
                return conj(mk("truthy", fa), fb)
            setlike = any(x.op == "coll" or (x.op == "lv" and not isinstance(op, ast.Sub)) or self.is_setlike(x)
                          or (x.op == "new") for x in (fa, fb))
            if fa.op == "dictv" and isinstance(op, ast.BitOr):
                return self.dict_merge(fa, fb)
            if setlike:
                if isinstance(op, ast.BitOr):
                    return self.set_op("|", fa, fb)
                if isinstance(op, ast.BitAnd):
                    return self.set_op("&", fa, fb)
                if isinstance(op, ast.Sub):
                    return self.set_op("-", fa, fb)
                return self.set_op("|", self.set_op("-", fa, fb), self.set_op("-", fb, fa))
        if isinstance(op, ast.Add):
            if fa.op in ("coll", "ordered") or fb.op in ("coll", "ordered"):
                ca, cb = coll_of(fa), coll_of(fb)
                v = coll("list", list(self.strip_minus(ca)) + list(self.strip_minus(cb)))
                return self.alloc(st, fid, n, "list", v)
            if fa.op == "tuple" and fb.op == "tuple":
                return tup(*(fa.a[0] + fb.a[0]))
            if _stringy(fa) or _stringy(fb):
                return string([fa, fb])
            return add(fa, fb)
        if isinstance(op, ast.Sub):
            return add(fa, fb, -1)
        if isinstance(op, ast.Mult):
            if is_const(fa) and is_const(fb) and all(isinstance(cval(x), (int, float)) for x in (fa, fb)):
                return const(cval(fa) * cval(fb))
            if is_const(fa) and isinstance(cval(fa), int):
                return scale(fb, cval(fa))
            if is_const(fb) and isinstance(cval(fb), int):
                return scale(fa, cval(fb))
        if isinstance(op, ast.LShift) and is_const(fb) and isinstance(cval(fb), int) and 0 <= cval(fb) < 64:
            return scale(fa, 1 << cval(fb))
        if isinstance(op, ast.Pow) and is_const(fa) and is_const(fb):
            return const(cval(fa) ** cval(fb))
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and is_const(fa) and is_const(fb) \
                and isinstance(cval(fa), int) and isinstance(cval(fb), int) and cval(fb):
            return const(cval(fa) // cval(fb) if isinstance(op, ast.FloorDiv) else cval(fa) % cval(fb))
        if isinstance(op, ast.Mod) and is_const(fa) and isinstance(cval(fa), str):
            return self.percent(fa, fb)
        return mk("bin", type(op).__name__, fa, fb)

    def percent(self, fmt: T, arg: T) -> T:
        s = cval(fmt)
        args = list(arg.a[0]) if arg.op == "tuple" else [arg]
        ps: List[Any] = []
        i = 0
        while s:
            j = s.find("%")
            if j < 0 or j + 1 >= len(s):
                ps.append(s)
                break
            ps.append(s[:j])
            c = s[j + 1]
            if c == "%":
                ps.append("%")
            elif c in "sdi" and i < len(args):
                ps.append(args[i])
                i += 1
            else:
                return mk("bin", "Mod", fmt, arg)
            s = s[j + 2:]
        return string(ps)

    def ex_Lambda(self, n: ast.Lambda, st: State, fid: Any) -> List[R]:
        return [(st, self.closure(n, fid, "<lambda>"), None)]

    def ex_Yield(self, n: ast.Yield, st: State, fid: Any) -> List[R]:
        def go(s: State, v: T) -> List[R]:
            if self.yield_targets:
                t = self.yield_targets[-1]
                s.heap[t] = _extend(s.heap.get(t, coll("list", ())), ("coll", (part(self.fz(s, v), (), frozenset()),), ()))
            return [(s, NONE, None)]
        if n.value is None:
            return go(st, NONE)
        return self.bind(self.ev(n.value, st, fid), go)

    def ex_YieldFrom(self, n: ast.YieldFrom, st: State, fid: Any) -> List[R]:
        def go(s: State, v: T) -> List[R]:
            if self.yield_targets:
                t = self.yield_targets[-1]
                s.heap[t] = _extend(s.heap.get(t, coll("list", ())),
                                    ("coll", self.strip_minus(coll_of(self.fz(s, v))), ()))
            return [(s, NONE, None)]
        return self.bind(self.ev(n.value, st, fid), go)

    # -------------------------------------------------------------------------------------- comprehensions
    def comprehension(self, n: Any, st: State, fid: Any, kind: str) -> List[R]:
        cfid = ("comp", fid, nid(n))
        self.parent[cfid] = fid
        self.fmod[cfid] = self.fmod[fid]
        if fid in self.ffunc:
            self.ffunc[cfid] = self.ffunc[fid]
        acc = mk("new", (cfid, "acc"), "dict" if kind == "dict" else "list")
        st.heap[acc] = dictv(None, ()) if kind == "dict" else coll("list", ())

        def level(i: int, s: State) -> List[Out]:
            if i == len(n.generators):
                if kind == "dict":
                    def put(s2: State, kv: T) -> List[Out]:
                        k, v = kv.a[0]
                        s2.heap[acc] = dictv(s2.heap[acc], (mk("put", self.fz(s2, k), self.fz(s2, v), (), frozenset()),))
                        return [Out("next", s2)]
                    return self.rs_to_outs(self.seq([n.key, n.value], s, cfid), put)

                def put1(s2: State, v: T) -> List[Out]:
                    s2.heap[acc] = _extend(s2.heap[acc], ("coll", (part(self.fz(s2, v), (), frozenset()),), ()))
                    return [Out("next", s2)]
                return self.rs_to_outs(self.ev(n.elt, s, cfid), put1)
            g = n.generators[i]

            def body(b: State, e: T) -> List[Out]:
                outs = self.assign(g.target, e, b, cfid)
                for c in g.ifs:
                    nxt: List[Out] = []
                    for o in outs:
                        if o.sig != "next" or o.val is FALSE:
                            nxt.append(o)
                            continue

                        def go(s3: State, v: T) -> List[Out]:
                            a, bb = self.split(s3, self.cond(s3, v))
                            r = []
                            if a is not None:
                                r.append(Out("next", a))
                            if bb is not None:
                                r.append(Out("continue", bb))
                            return r
                        nxt.extend(self.rs_to_outs(self.ev(c, o.st, cfid), go))
                    outs = nxt
                res: List[Out] = []
                for o in outs:
                    res.extend(level(i + 1, o.st) if o.sig == "next" else [o])
                for o in res:
                    for k in [k for k in o.st.env if k[0] == cfid]:
                        del o.st.env[k]
                return self.merge(res)

            def run(s4: State, it: T) -> List[Out]:
                outs = self.loop(s4, it, body, (cfid, i), n, fid, "comp", set())
                return [Out("next", o.st) if o.sig == "exhaust" else o for o in outs]
            return self.rs_to_outs(self.ev(g.iter, s, cfid), run)

        out: List[R] = []
        for o in level(0, st):
            if o.sig == "raise":
                out.append((o.st, None, o.exc))
                continue
            content = o.st.heap.pop(acc)
            if kind == "dict":
                out.append((o.st, self.alloc(o.st, fid, n, "dict", content), None))
            elif kind in ("list", "set"):
                out.append((o.st, self.alloc(o.st, fid, n, kind, _kind(content, kind)), None))
            else:
                out.append((o.st, _kind(content, "gen"), None))
        return out

    def ex_ListComp(self, n: ast.ListComp, st: State, fid: Any) -> List[R]:
        return self.comprehension(n, st, fid, "list")

    def ex_SetComp(self, n: ast.SetComp, st: State, fid: Any) -> List[R]:
        return self.comprehension(n, st, fid, "set")

    def ex_GeneratorExp(self, n: ast.GeneratorExp, st: State, fid: Any) -> List[R]:
        return self.comprehension(n, st, fid, "gen")

    def ex_DictComp(self, n: ast.DictComp, st: State, fid: Any) -> List[R]:
        return self.comprehension(n, st, fid, "dict")

    def over(self, st: State, c: T, fn: Callable[[State, T], List[R]], n: ast.AST, fid: Any, mode: str,
             kind: str = "gen") -> List[R]:
        """map / filter / gather: apply ``fn`` to the elements of a collection."""

        cfid = ("comp", fid, nid(n))
        acc = mk("new", (cfid, "acc" + mode), "list")
        st.heap[acc] = coll("list", ())

        def body(b: State, e: T) -> List[Out]:
            def go(s: State, v: T) -> List[Out]:
                if mode == "map":
                    s.heap[acc] = _extend(s.heap[acc], ("coll", (part(self.fz(s, v), (), frozenset()),), ()))
                    return [Out("next", s)]
                a, bb = self.split(s, self.cond(s, v))
                r = []
                if a is not None:
                    a.heap[acc] = _extend(a.heap[acc], ("coll", (part(e, (), frozenset()),), ()))
                    r.append(Out("next", a))
                if bb is not None:
                    r.append(Out("next", bb))
                return r
            return self.merge(self.rs_to_outs(fn(b, e), go))
        outs = self.loop(st, c, body, (cfid, mode), n, fid, "comp", set())
        res: List[R] = []
        for o in outs:
            if o.sig == "raise":
                res.append((o.st, None, o.exc))
            else:
                res.append((o.st, _kind(o.st.heap.pop(acc), kind), None))
        return res

    # -------------------------------------------------------------------------------------------- picking
    def open_pick(self, st: State, p: T, order: Optional[T]) -> T:
        """The element chosen from a part, assuming there is one; facts are added to the state."""

        e, chain, guards = p.a
        m: Dict[T, T] = {}
        if order is not None and len(chain) == 1 and e is chain[0]:
            v = chain[0]
            gs = {subst(g, {v: BV}) for g in guards}
            gs |= {isin(BV, v.a[0])}
            own = isin(BV, order)
            gs = {g for g in gs if g is not own and g is not TRUE}
            pk = mk("pick", order, frozenset(gs))
            m = {v: pk}
            self.assume(st, isin(pk, order))
        elif len(chain) == 1:
            v = chain[0]
            gs2 = frozenset(subst(g, {v: BV}) for g in guards if contains(g, v))
            if order is not None:
                gs2 = gs2 | {mk("orderedby", order)}
            m = {v: mk("pick", v.a[0], gs2)}
        elif chain:
            cur: Dict[T, T] = {}
            for i, v in enumerate(chain):
                v2 = subst(v, cur)
                pk = mk("pick", v2.a[0], frozenset({mk("multi", p.n, _scope(st, p), i)}))
                cur[v] = pk
            m = cur
        for g in guards:
            self.assume(st, subst(g, m))
        return subst(e, m)

    def pick_first(self, st: State, c: T) -> List[Tuple[State, Optional[T]]]:
        order = None
        if c.op == "ordered":
            order, c = c.a
        c = coll_of(c)
        parts = self.strip_minus(c)
        out: List[Tuple[State, Optional[T]]] = []
        f = exists([(p.a[1], p.a[2]) for p in parts])
        rest = st
        g = simplify(f, st.facts)
        if len(parts) > 1 and all(not p.a[1] for p in parts):
            # a literal sequence: first part whose guards hold
            cur: Optional[State] = st
            for p in parts:
                if cur is None:
                    break
                a, cur = self.split(cur, conj(*p.a[2]))
                if a is not None:
                    out.append((a, p.a[0]))
            if cur is not None:
                out.append((cur, None))
            return out
        if g is not FALSE:
            which = _choice(st, c)
            for k, p in enumerate(parts):
                s = st.clone()
                if assume(exists([(p.a[1], p.a[2])]), s.facts) is None:
                    continue
                if len(parts) > 1 and not self.assume(s, eq(which, const(k))):
                    continue
                v = self.open_pick(s, p, order)
                out.append((s, v))
        if g is not TRUE:
            fs2 = assume(neg(f), rest.facts)
            if fs2 is not None and len(parts) > 1:
                fs2 = assume(eq(_choice(rest, c), const(-1)), fs2)
            if fs2 is not None:
                s2 = rest.clone()
                s2.facts = fs2
                out.append((s2, None))
        return out

    # ---------------------------------------------------------------------------------------------- calls
    def ex_Await(self, n: ast.Await, st: State, fid: Any) -> List[R]:
        return self.bind(self.ev(n.value, st, fid), lambda s, v: self.await_value(s, v, n, fid))

    def await_value(self, st: State, v: T, n: ast.AST, fid: Any) -> List[R]:
        if v.op == "coro":
            return self.run_coro(st, v, n, fid)
        if v.op == "task":
            return self.await_value(st, v.a[0], n, fid)
        if v.op == "gathered":
            return self.over(st, v.a[0], lambda s, e: self.await_value(s, e, n, fid), n, fid, "map", "list")
        return [(st, v, None)]

    def run_coro(self, st: State, v: T, n: ast.AST, fid: Any) -> List[R]:
        kind = v.a[0]
        if kind == "func":
            _, fterm, names, vals, par, site = v.a
            f = self.funcs[fterm][0]
            return self.invoke(st, f, dict(zip(names, vals)), par, site)
        _, ek, name, recv, names, vals, site = v.a
        return self.effect(st, ek, name, recv, dict(zip(names, vals)), site[1], site[0])

    def ex_Call(self, n: ast.Call, st: State, fid: Any) -> List[R]:
        self.call_sites += 1
        if self.is_log(n, st, fid):
            return self.log(n, st, fid)
        # super().__init__(...)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) \
                and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
            return self.call_super(n, st, fid)

        def go(s: State, fv: T) -> List[R]:
            def go2(s2: State, av: T) -> List[R]:
                vals = list(av.a[0])
                pos = vals[:len(n.args)]
                kwv = vals[len(n.args):]
                kw: Dict[str, T] = {}
                for k, v in zip(n.keywords, kwv):
                    if k.arg is None:
                        d = self.fz(s2, v)
                        if d.op == "dictv":
                            for kk, vv, ch, g in dict_items(d):
                                if is_const(kk) and not ch:
                                    kw[cval(kk)] = vv
                    else:
                        kw[k.arg] = v
                # expand literal stars
                if any(x.op == "star" for x in pos):
                    npos: List[T] = []
                    for x in pos:
                        if x.op == "star":
                            w = self.fz(s2, x.a[0])
                            if w.op == "tuple":
                                npos.extend(w.a[0])
                                continue
                            if w.op == "coll" and not w.a[2] and all(not p.a[1] and not p.a[2] for p in w.a[1]):
                                npos.extend(p.a[0] for p in w.a[1])
                                continue
                        npos.append(x)
                    pos = npos
                return self.call(s2, fv, pos, kw, n, fid)
            return self.bind(self.seq(list(n.args) + [k.value for k in n.keywords], s, fid), go2)
        return self.bind(self.ev(n.func, st, fid), go)

    def call_super(self, n: ast.Call, st: State, fid: Any) -> List[R]:
        name = n.func.attr  # type: ignore
        f0 = self.ffunc.get(fid)
        selfv = None
        if f0 is not None and f0.cls is not None:
            names = f0.param_names()
            selfv = st.env.get((fid, names[0])) if names else None
            for b in f0.cls.bases:
                m = self.p.method(b, name)
                if m is not None:
                    def go(s: State, av: T) -> List[R]:
                        pos = list(av.a[0][:len(n.args)])
                        kw = {k.arg: v for k, v in zip(n.keywords, av.a[0][len(n.args):]) if k.arg}
                        args = self.bind_args(s, m, pos, kw, selfv)  # type: ignore
                        if args is None:
                            return [(s, NONE, None)]
                        return self.invoke(s, m, args, None, (fid, nid(n)))  # type: ignore
                    return self.bind(self.seq(list(n.args) + [k.value for k in n.keywords], st, fid), go)
        return self.bind(self.seq(list(n.args) + [k.value for k in n.keywords], st, fid), lambda s, v: [(s, NONE, None)])

    # logging -----------------------------------------------------------------------------------------
    def is_log(self, n: ast.Call, st: State, fid: Any) -> bool:
        f = n.func
        if not (isinstance(f, ast.Attribute) and f.attr in (
                "debug", "info", "warning", "error", "critical", "exception", "log", "warn")):
            return False
        root = f.value
        txt = ast.unparse(root)
        if "getLogger" in txt or txt.split(".")[-1].strip("_").lower() in ("logger", "log", "logging"):
            return True
        if isinstance(root, ast.Name):
            v = self.lookup(st, fid, root.id)
            if v is not None and ((v.op == "ext" and "logging" in v.a[0]) or (v.op in ("extcall", "call") and "getLogger" in repr(v))):
                return True
        return False

    def log(self, n: ast.Call, st: State, fid: Any) -> List[R]:
        args = list(n.args) + [k.value for k in n.keywords]
        effectful = any(isinstance(x, (ast.Await, ast.NamedExpr, ast.Yield)) for a in args for x in ast.walk(a)) or any(
            isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS
            for a in args for x in ast.walk(a))
        def record(s: State, v: T) -> List[R]:
            self.logged(s, v, n, fid)
            return [(s, NONE, None)]
        if effectful:
            return self.bind(self.seq(args, st, fid), record)
        self.bind(self.seq(args, st.clone(), fid)[:16], record)
        return [(st, NONE, None)]

    def logged(self, st: State, v: T, n: ast.AST, fid: Any) -> None:
        """Something is written where it can be read by others (a log, the standard output)."""

        e = (f"{self.fmod[fid].path}:{getattr(n, 'lineno', 0)} {self.fn_name(fid)}", getattr(n, "lineno", 0), self.fz(st, v))
        if not self.logs or self.logs[-1] != e:
            self.logs.append(e)

    def fn_name(self, fid: Any) -> str:
        f = self.ffunc.get(fid)
        return f.qualname if f is not None else "?"

    # effects -----------------------------------------------------------------------------------------
    def emit(self, st: State, kind: str, name: str, recv: T, args: Dict[str, T], n: ast.AST, fid: Any,
             failed: Optional[str] = None, term: Optional[T] = None) -> Ev:
        if term is None:
            term = mk("ev", (fid, nid(n)), name, recv, tuple(args.values()))
        e = Ev(kind, name, recv, args, term, st.facts, failed, getattr(n, "lineno", 0), self.fn_name(fid),
               self.fmod[fid].path, tuple(self.stack))
        if self.volatile:
            e.held = tuple(self.held)
            e.shared = {vn: st.heap[ref] for ref, vn in self.volatile.items() if ref in st.heap}
        st.trace = Cell(st.trace, e)
        return e

    def effect(self, st: State, kind: str, name: str, recv: T, args: Dict[str, T], n: ast.AST, fid: Any) -> List[R]:
        args = {k: self.fz(st, v) for k, v in args.items()}
        recv = self.fz(st, recv)
        term = mk("ev", (fid, nid(n)), name, recv, tuple(args.values()))
        out: List[R] = []
        # failures observed by an enclosing handler
        poss = HOOK_EXC.get(name, ()) + ("StorageException", "Exception")
        if kind == "callback":
            poss = tuple(x for h in self.handlers if h is not FINALLY and h != FINALLY for ns in h for x in ns) + ("Exception",)
        seen: Set[Any] = set()
        some = False
        caught = frozenset(x for x in poss if self.is_caught(x))
        for exc in poss:
            h = self.handled(exc)
            if h is None or h in seen:
                continue
            j = h[-1]
            if not (isinstance(j, tuple) and isinstance(self.handlers[j[0]][j[1]], _Split)):
                seen.add(h)
            some = True
            s = st.clone()
            fl = mk("failed", term)
            if not self.assume(s, fl):
                continue
            e = self.emit(s, kind, name, recv, args, n, fid, failed=exc, term=term)
            e.caught = caught
            # the other failures that take the same way
            e.also = frozenset(x for x in poss if self.handled(x) == h) if h in seen else frozenset({exc})
            self.suspended(s, term)
            out.append((s, None, Exc(exc, mk("excobj", exc, (("<from>", term),)))))
        if some:
            if not self.assume(st, neg(mk("failed", term))):
                return out
        self.emit(st, kind, name, recv, args, n, fid, term=term).caught = caught
        self.suspended(st, term)
        val = term
        if name == "_evaluate_custom_trust_level":
            d = args.get("device", NONE)
            val = mk("trust", attr(d, "bare_jid"), attr(d, "identity_key"), attr(d, "trust_level_name"))
        ret = None
        f = self.effect_func(kind, name)
        if f is not None and f.returns == "None":
            val = NONE
        out.append((st, val, None))
        return out

    def suspended(self, st: State, term: T) -> None:
        if self.held and self.exclusive:
            return
        for ref, vn in self.volatile.items():
            st.heap[ref] = dictv(later(vn, term), ())

    def effect_func(self, kind: str, name: str) -> Optional[Func]:
        cn = {"backend": "Backend", "storage": "Storage", "ikp": "IdentityKeyPair"}.get(kind, self.self_cls)
        return self.p.method(cn, name)

    def call(self, st: State, fv: T, pos: List[T], kw: Dict[str, T], n: ast.AST, fid: Any) -> List[R]:
        op = fv.op
        if op == "func":
            f, par, _ = self.funcs[fv]
            args = self.bind_args(st, f, pos, kw, None)
            if args is None:
                return [(st, self.opaque("bad-call:" + f.qualname), None)]
            if f.is_async:
                return [(st, mk("coro", "func", fv, tuple(args), tuple(args.values()), par, (fid, nid(n))), None)]
            return self.invoke(st, f, args, par, (fid, nid(n)))
        if op == "partial":
            return self.call(st, fv.a[0], list(fv.a[1]) + pos, {**dict(fv.a[2]), **kw}, n, fid)
        if op == "bound":
            return self.call_method(st, fv.a[0], fv.a[1], pos, kw, n, fid)
        if op in ("builtin",):
            return self.call_builtin(st, fv.a[0], pos, kw, n, fid)
        if op == "cls":
            return self.construct(st, fv.a[0], pos, kw, n, fid)
        if op == "ext":
            return self.call_ext(st, fv.a[0], pos, kw, n, fid)
        if op == "param" and self.callbacks:
            return self.effect(st, "callback", "call", fv, {f"arg{i}": v for i, v in enumerate(pos)}, n, fid)
        self.note("call:" + op)
        return [(st, mk("call", (fid, nid(n)), fv, tuple(self.fz(st, x) for x in pos)), None)]

    def method_func(self, cls: str, name: str, owner: Optional[str] = None) -> Optional[Func]:
        return self.p.method(cls, name)

    def call_method(self, st: State, o: T, name: str, pos: List[T], kw: Dict[str, T], n: ast.AST, fid: Any) -> List[R]:
        # functions stored in fields
        fv = st.fields.get((o, name))
        if fv is not None:
            return self.call(st, fv, pos, kw, n, fid)
        if o is SELF or (o.op == "cls" and o.a[0] in self.p.classes) or (o.op == "new" and o.a[1].startswith("obj:")):
            cn = self.self_cls if o is SELF else (o.a[0] if o.op == "cls" else o.a[1][4:])
            f = self.p.method(cn, name)
            if f is not None:
                selfv: Optional[T] = o
                p2 = pos
                if o.op == "cls" and not f.is_classmethod and not f.is_static:
                    selfv = None   # Class.method(instance, ...)
                    if pos and pos[0] is SELF:
                        return self.call_method(st, SELF, name, pos[1:], kw, n, fid)
                if f.is_classmethod and o.op != "cls":
                    selfv = mk("cls", cn)
                if f.is_static:
                    selfv = None
                args = self.bind_args(st, f, p2, kw, selfv)
                if args is None:
                    return [(st, self.opaque("bad-call:" + f.qualname), None)]
                is_hook = f.is_abstract and (o is SELF or (o.op == "cls" and f.cls is not None
                                                           and f.cls.name in [c.name for c in self.p.mro(self.self_cls)]))
                if is_hook or o is SELF and name in self.boundary:
                    a2 = {k: v for k, v in args.items() if not (selfv is not None and v is selfv and k == f.param_names()[0])}
                    return self.make_effect(st, "hook", name, SELF, a2, f.is_async, n, fid)
                if cn == "IdentityKeyPair" and name == "get" and self.self_cls == "SessionManager":
                    return self.make_effect(st, "ikp", name, o, args, f.is_async, n, fid)
                if f.is_async:
                    t = mk("func", ("m", f.qualname, nid(f)), f.qualname)
                    self.funcs[t] = (f, None, ())
                    return [(st, mk("coro", "func", t, tuple(args), tuple(args.values()), None, (fid, nid(n))), None)]
                return self.invoke(st, f, args, None, (fid, nid(n)))
            if o.op == "cls" and name == "__init__":
                return [(st, NONE, None)]
        if o.op == "cls" or o.op == "builtin":
            r = self.class_method_builtin(st, o.a[0], name, pos, kw, n, fid)
            if r is not None:
                return r
        ty = typeof(o)
        base = ty[9:-1] if ty and ty.startswith("Optional[") else ty
        if base in EFFECT_CLASSES and self.self_cls not in ("Backend",):
            f = self.p.method(base, name)
            if f is not None:
                return self.typed_effect(st, base, f, o, pos, kw, n, fid)
        if name in ("from_just", "maybe", "fmap") and not (o.op == "new"):
            return self.maybe_method(st, o, name, pos, kw, n, fid)
        if base and base.split("[")[0] in self.p.classes and base.split("[")[0] not in EFFECT_CLASSES:
            cn = base.split("[")[0]
            f = self.p.method(cn, name)
            if f is not None:
                args = self.bind_args(st, f, pos, kw, o)
                if args is not None:
                    if f.is_abstract:
                        names = f.param_names()[1:]
                        t = mk("pure", name, o, tuple(self.fz(st, args[x]) for x in names))
                        return [(st, truthy(t) if f.returns == "bool" else t, None)]
                    if f.is_async:
                        t2 = mk("func", ("m", f.qualname, nid(f)), f.qualname)
                        self.funcs[t2] = (f, None, ())
                        return [(st, mk("coro", "func", t2, tuple(args), tuple(args.values()), None, (fid, nid(n))), None)]
                    return self.invoke(st, f, args, None, (fid, nid(n)))
        if name == "_replace":
            return self.nt_replace(st, o, kw)
        if name == "_asdict" and o.op == "nt":
            return [(st, dictv(None, tuple(mk("put", const(k), v, (), frozenset()) for k, v in o.a[1])), None)]
        r2 = self.container_method_opt(st, o, name, pos, kw, n, fid)
        if r2 is not None:
            return r2
        # resolution by unique method name of the effect interfaces
        for cn in EFFECT_CLASSES:
            if cn == self.self_cls:
                continue
            f = self.p.method(cn, name)
            if f is not None and (base is None or base in ("Any", "object")):
                return self.typed_effect(st, cn, f, o, pos, kw, n, fid)
        if name == "builds_same_session":
            return [(st, truthy(mk("pure", name, o, tuple(self.fz(st, x) for x in pos) + tuple(kw.values()))), None)]
        self.note("method:" + name)
        return [(st, mk("call", (fid, nid(n)), mk("bound", o, name), tuple(self.fz(st, x) for x in pos)), None)]

    def typed_effect(self, st: State, cn: str, f: Func, o: T, pos: List[T], kw: Dict[str, T], n: ast.AST, fid: Any) -> List[R]:
        args = self.bind_args(st, f, pos, kw, o)
        if args is None:
            return [(st, self.opaque("bad-call:" + f.qualname), None)]
        a2 = dict(args)
        if not f.is_static:
            a2.pop(f.param_names()[0], None)
        return self.make_effect(st, EFFECT_CLASSES[cn], f.qualname.split(".")[-1], o, a2, f.is_async, n, fid)

    def make_effect(self, st: State, kind: str, name: str, recv: T, args: Dict[str, T], is_async: bool,
                    n: ast.AST, fid: Any) -> List[R]:
        if is_async:
            vals = tuple(args.values())
            return [(st, mk("coro", "eff", kind, name, recv, tuple(args), vals, (fid, n)), None)]
        return self.effect(st, kind, name, recv, args, n, fid)

    def maybe_method(self, st: State, o: T, name: str, pos: List[T], kw: Dict[str, T], n: ast.AST, fid: Any) -> List[R]:
        just = mk("isjust", o)
        if name == "from_just":
            out: List[R] = []
            if self.is_caught("NothingException"):
                a, b = self.split(st, just)
                if b is not None:
                    out.append((b, None, Exc("NothingException", mk("excobj", "NothingException", ()))))
                if a is not None:
                    out.append((a, mk("just", o), None))
                return out
            if not self.assume(st, just):
                return []
            return [(st, mk("just", o), None)]
        if name == "maybe":
            d = self.fz(st, pos[0] if pos else kw.get("default", NONE))
            if simplify(just, st.facts) is TRUE:
                return [(st, mk("just", o), None)]
            if simplify(just, st.facts) is FALSE:
                return [(st, d, None)]
            if d is NONE and terms.is_non_none(mk("just", o)):
                a, b = self.split(st, just)
                return [(s, v, None) for s, v in ((a, mk("just", o)), (b, NONE)) if s is not None]
            return [(st, mk("maybe", o, d), None)]
        fn = pos[0] if pos else kw.get("function", NONE)
        a, b = self.split(st, just)
        out = []
        if a is not None:
            out.extend(self.bind(self.call(a, fn, [mk("just", o)], {}, n, fid),
                                 lambda s, v: [(s, mk("mjust", self.fz(s, v)), None)]))
        if b is not None:
            out.append((b, mk("mnothing"), None))
        return out

    def nt_replace(self, st: State, o: T, kw: Dict[str, T]) -> List[R]:
        o = self.fz(st, o)
        cn = o.a[0] if o.op == "nt" else (typeof(o) or "")
        if cn.startswith("Optional["):
            cn = cn[9:-1]
        c = self.p.classes.get(cn)
        if c is None:
            cands = [x for x in self.p.classes.values() if "NamedTuple" in x.bases and set(kw) <= set(x.annots)]
            if len(cands) == 1:
                c = cands[0]
            else:
                return [(st, self.opaque("_replace", o), None)]
        fs = []
        for f in c.annots:
            fs.append((f, self.fz(st, kw[f]) if f in kw else attr(o, f)))
        return [(st, nt(c.name, tuple(fs)), None)]

    def construct(self, st: State, cn: str, pos: List[T], kw: Dict[str, T], n: ast.AST, fid: Any) -> List[R]:
        if cn in self.p.classes:
            c = self.p.classes[cn]
            if cn == self.self_cls and self.entry_cm:
                return [(st, SELF, None)]
            if "NamedTuple" in c.bases:
                names = list(c.annots)
                vals: Dict[str, T] = dict(zip(names, pos))
                vals.update({k: v for k, v in kw.items() if k in names})
                fs = []
                for x in names:
                    if x in vals:
                        fs.append((x, self.fz(st, vals[x])))
                    elif x in c.consts:
                        fs.append((x, self.class_const(c, x)))
                    else:
                        fs.append((x, self.opaque(f"missing:{cn}.{x}")))
                return [(st, nt(cn, tuple(fs)), None)]
            if self.p.is_exception(cn):
                init = None
                for k in self.p.mro(cn):
                    if "__init__" in k.methods:
                        init = k.methods["__init__"]
                        break
                fs2: List[Tuple[str, T]] = []
                if init is not None:
                    names = init.param_names()[1:]
                    for x, v in zip(names, pos):
                        fs2.append((x, self.fz(st, v)))
                    for k2, v in kw.items():
                        fs2.append((k2, self.fz(st, v)))
                    fs2 = self.exception_fields(init, fs2)
                else:
                    for i, v in enumerate(pos):
                        fs2.append((f"arg{i}", self.fz(st, v)))
                return [(st, mk("excobj", cn, tuple(fs2)), None)]
            obj = mk("new", (fid, nid(n)), "obj:" + cn)
            init = self.p.method(cn, "__init__")
            if init is not None:
                args = self.bind_args(st, init, pos, kw, obj)
                if args is None:
                    return [(st, obj, None)]
                return self.bind(self.invoke(st, init, args, None, (fid, nid(n))), lambda s, v: [(s, obj, None)])
            names = [x for k in reversed(self.p.mro(cn)) for x in k.annots]
            vals = dict(zip(names, pos))
            vals.update(kw)
            for x in names:
                if x in vals:
                    st.fields[(obj, x)] = vals[x]
                elif x in c.consts:
                    st.fields[(obj, x)] = self.class_const(c, x)
            return [(st, obj, None)]
        if self.p.is_exc_subclass(cn, "BaseException") and cn not in PRIM_CLASSES:
            return [(st, mk("excobj", cn, tuple((f"arg{i}", self.fz(st, v)) for i, v in enumerate(pos))), None)]
        return self.call_builtin(st, cn, pos, kw, n, fid)

    def exception_fields(self, init: Func, args: List[Tuple[str, T]]) -> List[Tuple[str, T]]:
        """The attributes the initializer of an exception sets; arguments it doesn't keep are not attributes."""

        vals, out, kept = dict(args), [], set()
        for x in ast.walk(init.node):
            tgts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AnnAssign) and x.value else []
            for t in tgts:
                if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == init.param_names()[0]):
                    continue
                e = x.value  # type: ignore
                while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("frozenset", "set", "list", "tuple", "cast", "sorted") \
                        and e.args and not e.keywords:
                    e = e.args[-1]
                if isinstance(e, ast.Name) and e.id in vals:
                    out.append((t.attr, vals[e.id]))
                    kept.add(e.id)
                elif any(isinstance(y, ast.Name) and y.id in vals for y in ast.walk(e)):
                    out.append((t.attr, self.opaque("exception-field")))
        names = {k for k, _ in out}
        return out + [(k if k in names else "<arg>" + k, v) for k, v in args if k not in kept]

    # builtins ----------------------------------------------------------------------------------------
    def call_builtin(self, st: State, name: str, pos: List[T], kw: Dict[str, T], n: ast.AST, fid: Any) -> List[R]:
        F = [self.fz(st, x) for x in pos]
        if name in ("frozenset", "set", "list", "tuple"):
            if not F:
                c = coll(name, ())
            else:
                src = F[0]
                if src.op == "ordered":
                    if name in ("list", "tuple"):
                        return [(st, src, None)]
                    src = src.a[1]
                if src.op == "tuple" and name == "tuple":
                    return [(st, src, None)]
                cc = coll_of(src)
                c = coll(name, cc.a[1], cc.a[2])
            if name in ("set", "list"):
                return [(st, self.alloc(st, fid, n, name, c), None)]
            return [(st, c, None)]
        if name == "dict":
            d = dictv(None, ())
            if F:
                x = F[0]
                if x.op == "dictv":
                    d = x
                else:
                    ty = typeof(x) or ""
                    if x.op == "coll":
                        src2 = terms.dict_source(x)
                        d = src2 if src2 is not None else dictv(mk("dictof", x), ())
                    elif ty.startswith(("FrozenSet[", "Set[", "List[", "Iterable[")):
                        d = dictv(dictof(x), ())
                    else:
                        d = dictv(x, ())
            for k, v in kw.items():
                d = dictv(d, (mk("put", const(k), self.fz(st, v), (), frozenset()),))
            return [(st, self.alloc(st, fid, n, "dict", d), None)]
        if name == "len":
            return [(st, self.length(F[0]), None)]
        if name == "bool":
            return [(st, truthy(F[0]) if F else FALSE, None)]
        if name == "str":
            if not F:
                return [(st, const(""), None)]
            x = F[0]
            if is_const(x):
                return [(st, const(str(cval(x))), None)]
            return [(st, string((x,)) if typeof(x) == "int" else x, None)]
        if name in ("int", "float"):
            if F and (typeof(F[0]) == name):
                return [(st, F[0], None)]
            return [(st, mk("conv", name, *F), None)]
        if name in ("bytes",):
            if F and typeof(F[0]) == "bytes":
                return [(st, F[0], None)]
            return [(st, mk("conv", name, *F), None)]
        if name == "sorted":
            return self.do_sorted(st, F[0], kw, n, fid)
        if name == "reversed":
            return [(st, mk("ordered", mk("reversed", F[0]), coll_of(F[0])), None)]
        if name == "iter":
            return [(st, F[0], None)]
        if name == "next":
            return self.do_next(st, F[0], pos[1] if len(pos) > 1 else kw.get("default"), n, fid)
        if name in ("filter", "map"):
            if name == "filter" and (pos[0] is NONE):
                return self.over(st, pos[1], lambda s, e: [(s, e, None)], n, fid, "filter")
            if len(pos) > 2:
                return [(st, self.opaque("map-n"), None)]
            return self.over(st, pos[1], lambda s, e: self.call(s, pos[0], [e], {}, n, fid), n, fid,
                             "map" if name == "map" else "filter")
        if name in ("any", "all"):
            c = coll_of(F[0])
            ps = self.strip_minus(c)
            if name == "any":
                return [(st, exists([(p.a[1], p.a[2] | {truthy(p.a[0])}) for p in ps]), None)]
            return [(st, neg(exists([(p.a[1], p.a[2] | {neg(truthy(p.a[0]))}) for p in ps])), None)]
        if name in ("min", "max"):
            if len(F) == 1:
                key = kw.get("key")
                if name == "min" and key is not None:
                    out: List[R] = []
                    for s, ordc, e in self.do_sorted(st, F[0], {"key": key}, n, fid):
                        if e is not None or ordc is None or ordc.op != "ordered":
                            out.append((s, mk("opaque", "min", tuple(F)), e))
                            continue
                        out.extend(self.do_next(s, ordc, kw.get("default"), n, fid))
                    return out
                c = coll_of(F[0])
                if c.op == "coll" and len(c.a[1]) >= 1 and not c.a[2]:
                    lit = [p.a[0] for p in c.a[1] if not p.a[1] and not p.a[2]]
                    dep = [p for p in c.a[1] if p.a[1] or p.a[2]]
                    if not dep:
                        return [(st, mk(name, frozenset(lit)), None)]
                    init = mk(name, frozenset(lit)) if len(lit) > 1 else (lit[0] if lit else kw.get("default", NONE))
                    if "default" in kw and not lit:
                        init = mk("emptydefault", kw["default"])
                    return [(st, mk("fold" + name, init, coll("gen", dep)), None)]
                return [(st, mk("opaque", name, tuple(F)), None)]
            if all(is_const(x) for x in F):
                return [(st, const((min if name == "min" else max)(cval(x) for x in F)), None)]
            flat: Set[T] = set()
            for x in F:
                if x.op == name:
                    flat |= x.a[0]
                else:
                    flat.add(x)
            cs = [x for x in flat if is_const(x)]
            if len(cs) > 1:
                best = (min if name == "min" else max)(cs, key=cval)
                flat = {x for x in flat if not is_const(x)} | {best}
            return [(st, mk(name, frozenset(flat)), None)]
        if name == "isinstance":
            return [(st, self.isinstance_formula(F[0], pos[1], st), None)]
        if name == "enumerate":
            c = coll_of(F[0])
            ps = [part(tup(mk("index", F[0], p.a[0]), p.a[0]), p.a[1], p.a[2]) for p in c.a[1]]
            return [(st, coll("gen", ps), None)]
        if name == "zip":
            cs2 = [coll_of(x) for x in F]
            if cs2 and all(len(c.a[1]) == 1 and c.a[1][0].a[1] == cs2[0].a[1][0].a[1] for c in cs2):
                p0 = cs2[0].a[1][0]
                g: FrozenSet[T] = frozenset().union(*[c.a[1][0].a[2] for c in cs2])
                return [(st, coll("gen", [part(tup(*[c.a[1][0].a[0] for c in cs2]), p0.a[1], g)]), None)]
            return [(st, self.opaque("zip", *F), None)]
        if name == "range":
            r = mk("range", tuple(F))
            return [(st, r, None)]
        if name == "sum":
            return [(st, mk("sum", *F), None)]
        if name == "type":
            return [(st, mk("typeof", *F), None)]
        if name == "getattr" and len(pos) >= 2 and is_const(F[1]):
            ty = typeof(F[0]) or ""
            if len(pos) == 3 and ty.startswith("Optional["):
                # (the default is what None yields: it has no such attribute)
                none, some = self.split(st, eq(F[0], NONE))
                return ([(none, pos[2], None)] if none is not None else []) + (
                    self.get_attr(some, pos[0], cval(F[1]), n, fid) if some is not None else [])
            return self.get_attr(st, pos[0], cval(F[1]), n, fid)
        if name == "repr":
            return [(st, mk("repr", *F), None)]
        if name == "print":
            for x in F:
                self.logged(st, x, n, fid)
            return [(st, NONE, None)]
        if name in ("id", "hash", "hasattr", "callable", "abs", "round"):
            return [(st, mk("fn", name, tuple(F)), None)]
        return [(st, self.opaque("builtin:" + name, *F), None)]

    def isinstance_formula(self, x: T, c: T, st: State) -> T:
        c = self.fz(st, c)
        if c.op == "tuple":
            return disj(*[self.isinstance_formula(x, y, st) for y in c.a[0]])
        if x.op == "excobj" and c.op == "cls":
            return const(self.p.is_exc_subclass(x.a[0], c.a[0]))
        if x.op in ("new", "obj") and c.op == "cls":
            cn = x.a[1][4:] if x.op == "new" and x.a[1].startswith("obj:") else (x.a[0] if x.op == "obj" else None)
            if cn:
                return const(c.a[0] in [k.name for k in self.p.mro(cn)])
        return mk("isinstance", x, c)

    def length(self, x: T) -> T:
        if x.op == "tuple":
            return const(len(x.a[0]))
        if x.op == "coll" and not x.a[2] and all(not p.a[1] and not p.a[2] for p in x.a[1]) and len(x.a[1]) <= 1:
            return const(len(x.a[1]))
        if x.op == "ordered":
            x = x.a[1]
        if x.op == "coll" and x.a[0] in ("list", "keys") and len(x.a[1]) == 1 and not x.a[2]:
            p = x.a[1][0]
            if not p.a[2] and len(p.a[1]) == 1 and p.a[1][0].op == "elem":
                return mk("len", p.a[1][0].a[0])
        return mk("len", x)

    def do_sorted(self, st: State, c: T, kw: Dict[str, T], n: ast.AST, fid: Any) -> List[R]:
        key = kw.get("key")
        rev = self.fz(st, kw.get("reverse", FALSE))
        cc = coll_of(c.a[1] if c.op == "ordered" else c)
        parts = self.strip_minus(cc)
        cc = coll("list", parts)
        if key is None:
            return [(st, mk("ordered", mk("natural", rev), cc), None)]
        if len(parts) == 1:
            p = parts[0]
            s = st.clone()
            rs = [r for r in self.call(s, key, [p.a[0]], {}, n, fid) if r[2] is None]
            if len(rs) == 1 and rs[0][1] is not None:
                v = rs[0][1]
                if v.op == "index" and v.a[1] is p.a[0]:
                    order = v.a[0]
                    if rev is TRUE:
                        order = mk("reversed", order)
                    return [(st, mk("ordered", order, cc), None)]
                return [(st, mk("ordered", mk("bykey", part(v, p.a[1], frozenset()), rev), cc), None)]
        if not parts:
            return [(st, cc, None)]
        return [(st, mk("ordered", mk("opaque", "sortkey", ()), cc), None)]

    def do_next(self, st: State, c: T, default: Optional[T], n: ast.AST, fid: Any) -> List[R]:
        out: List[R] = []
        for s, v in self.pick_first(st, c):
            if v is not None:
                out.append((s, v, None))
            elif default is not None:
                out.append((s, default, None))
            elif self.is_caught("StopIteration"):
                out.append((s, None, Exc("StopIteration", mk("excobj", "StopIteration", ()))))
        return out

    # external functions --------------------------------------------------------------------------------
    def call_ext(self, st: State, name: str, pos: List[T], kw: Dict[str, T], n: ast.AST, fid: Any) -> List[R]:
        F = [self.fz(st, x) for x in pos]
        last = name.split(".")[-1]
        if last == "cast":
            return [(st, pos[1] if len(pos) > 1 else NONE, None)]
        if last == "assert_never":
            if not F or F[0].op != "enum" and terms._TYPEOF[0](F[0]) not in terms._ENUMS:
                return []
            return [(st, None, Exc("AssertionError", mk("excobj", "AssertionError", ())))]
        if last == "sleep":
            return self.make_effect(st, "sleep", "sleep", NONE, {"framework": const("asyncio"), "seconds": pos[0] if pos else kw.get("delay", NONE)}, True, n, fid)
        if last == "deferLater":
            return self.make_effect(st, "sleep", "sleep", NONE, {"framework": const("twisted"), "seconds": pos[1] if len(pos) > 1 else NONE}, True, n, fid)
        if last in ("ensure_future", "create_task", "ensureDeferred", "fromCoroutine"):
            v = pos[0] if pos else kw.get("coro", NONE)
            fw = "twisted" if last in ("ensureDeferred", "fromCoroutine") else "asyncio"
            tgt, args = "?", {}
            if v.op == "coro" and v.a[0] == "func":
                tgt = v.a[1].a[1]
                args = {k: self.fz(st, x) for k, x in zip(v.a[2], v.a[3])}
            self.emit(st, "spawn", tgt, NONE, {"framework": const(fw), **args}, n, fid)
            return [(st, mk("task", v), None)]
        if last == "gather":
            if len(pos) == 1 and pos[0].op == "star":
                c = self.fz(st, pos[0].a[0])
                if kw.get("return_exceptions") is TRUE:
                    self.note("gather-return-exceptions")
                return [(st, mk("gathered", c), None)]
            return [(st, mk("gathered", literal_coll("list", pos)), None)]
        if last in ("wait_for", "shield"):
            return [(st, pos[0], None)]
        if last == "urlsafe_b64encode":
            return [(st, mk("b64u", F[0]), None)]
        if last in ("b64encode", "standard_b64encode", "encodebytes"):
            alt = kw.get("altchars") or (pos[1] if len(pos) > 1 else None)
            if alt is not None and is_const(alt) and cval(alt) == b"-_":
                return [(st, mk("b64u", F[0]), None)]
            return [(st, mk("b64", F[0]), None)]
        if last == "urlsafe_b64decode":
            return [(st, mk("unb64u", F[0]), None)]
        if last in ("b64decode", "standard_b64decode"):
            return [(st, mk("unb64", F[0]), None)]
        if last in ("deepcopy",):
            return [(st, mk("deepcopy", F[0]), None)]
        if last == "copy" and name.startswith("copy"):
            return [(st, mk("shallowcopy", F[0]), None)]
        if last == "defaultdict" and len(pos) == 1 and not kw:
            ft = pos[0].a[0].split(".")[-1] if pos[0].op in ("builtin", "cls", "ext", "prim") and isinstance(pos[0].a[0], str) else ""
            if ft in ("list", "set"):
                ref = self.alloc(st, fid, n, "dict", dictv(None, ()))
                self.factories[ref] = ft
                return [(st, ref, None)]
        if name in ("itertools.chain.from_iterable", "chain.from_iterable"):
            return [(st, self.flatten(F[0]), None)]
        if name in ("itertools.chain", "chain"):
            return [(st, self.union_args(st, pos, "gen"), None)]
        if last == "count" and "itertools" in name:
            return [(st, mk("extcall", "itertools.count", tuple(F)), None)]
        if last == "partial":
            return [(st, mk("partial", pos[0], tuple(pos[1:]), tuple(kw.items())), None)]
        if last == "attrgetter" and F and is_const(F[0]):
            return [(st, mk("attrgetter", cval(F[0])), None)]
        if name.startswith("typing.") or name.startswith("typing_extensions."):
            return [(st, pos[0] if pos else NONE, None)]
        mod = name.split(".")[0]
        if mod in NONDET:
            return [(st, mk("extcall", name, tuple(F), (fid, nid(n))), None)]
        if mod in ("logging",):
            return [(st, mk("logger"), None)]
        return [(st, mk("extcall", name, tuple(F) + tuple(self.fz(st, v) for v in kw.values())), None)]

    def flatten(self, c: T) -> T:
        ps: List[T] = []
        c = coll_of(c)
        for p in self.strip_minus(c):
            inner = coll_of(p.a[0])
            for q in self.strip_minus(inner):
                if any(v in p.a[1] for v in q.a[1]):
                    q = fresh_part(q, p.a[1])
                ps.append(part(q.a[0], p.a[1] + q.a[1], p.a[2] | q.a[2]))
        return coll("gen", ps)

    def union_args(self, st: State, pos: List[T], kind: str) -> T:
        ps: List[T] = []
        for x in pos:
            if x.op == "star":
                ps.extend(self.flatten(self.fz(st, x.a[0])).a[1])
            else:
                ps.extend(self.strip_minus(coll_of(self.fz(st, x))))
        return coll(kind, ps)

    def class_method_builtin(self, st: State, cn: str, name: str, pos: List[T], kw: Dict[str, T], n: ast.AST, fid: Any) -> Optional[List[R]]:
        if cn in ("set", "frozenset") and name in ("union",):
            return [(st, self.union_args(st, pos, "frozenset" if cn == "frozenset" else "set"), None)]
        if cn == "dict" and name == "fromkeys":
            c = coll_of(self.fz(st, pos[0]))
            v = self.fz(st, pos[1]) if len(pos) > 1 else NONE
            d = dictv(None, tuple(mk("put", p.a[0], v, p.a[1], p.a[2]) for p in c.a[1]))
            return [(st, self.alloc(st, fid, n, "dict", d), None)]
        if cn in ("str", "dict", "list", "set", "frozenset", "bytes") and pos:
            return self.container_method_opt(st, pos[0], name, pos[1:], kw, n, fid)
        return None

    # container methods ---------------------------------------------------------------------------------
    def container_method(self, st: State, o: T, name: str, pos: List[T], kw: Dict[str, T], n: ast.AST, fid: Any) -> List[R]:
        r = self.container_method_opt(st, o, name, pos, kw, n, fid)
        if r is None:
            return [(st, self.opaque("method:" + name), None)]
        return r

    def mutated(self, st: State, o: T, name: str, args: List[T], n: ast.AST, fid: Any) -> None:
        if o.op == "new":
            if o.a[1] in ("list", "set", "dict"):
                # sharing with manager state?
                return
        if o.op in ("coll", "dictv"):
            self.note("a collection inside another one is changed")
        root = o
        self.emit(st, "mutate", name, root, {f"arg{i}": self.fz(st, a) for i, a in enumerate(args)}, n, fid)

    def content(self, st: State, o: T, dictlike: bool = False) -> T:
        c = st.heap.get(o)
        if c is None or c is o:
            if o.op in ("coll", "dictv"):
                return o
            if dictlike:
                return dictv(o, ())
            ty = (typeof(o) or "").split("[")[0]
            return coll_of(o, "list" if ty in ("List", "Sequence", "list") else "set")
        return c

    def dict_put(self, st: State, o: T, k: T, v: T, n: ast.AST, fid: Any) -> None:
        k, v = self.fz(st, k), self.fz(st, v) if v.op != "new" or not v.a[1].startswith("obj:") else v
        self.mutated(st, o, "__setitem__", [k, v], n, fid)
        c = self.content(st, o, True)
        if c.op != "dictv":
            if c.op == "coll" and o.op == "new" and o.a[1] == "list":
                st.heap[o] = mk("opaque", "list-setitem", (c, k, v))
                return
            c = dictv(c, ())
        nested = o.op == "new" and c.a[0] is None and v.op == "coll" and v.a[0] in ("list", "set") and self.has_entries(fid)
        if nested or any(e.op == "app" for e in c.a[1]):
            there = simplify(isin(k, c), st.facts)
            if there is FALSE:
                if nested and not v.a[2]:
                    self.entry_default(st, o, k, v)
                    return
            else:
                self.resets.add(k)
                if any(e.op == "app" and e.a[0] is not k and simplify(eq(e.a[0], k), st.facts) is not FALSE for e in c.a[1]):
                    st.heap[o] = self.opaque("entry-reset", c, k)
                    return
        es = tuple(e for e in c.a[1] if not (e.op in ("put", "app") and e.a[0] is k and not e.a[2] and not e.a[3]))
        st.heap[o] = mk("dictv", c.a[0], es + (mk("put", k, v, (), frozenset()),))

    def container_method_opt(self, st: State, o: T, name: str, pos: List[T], kw: Dict[str, T], n: ast.AST, fid: Any) -> Optional[List[R]]:
        f = self.fz(st, o)
        F = [self.fz(st, x) if x.op != "star" else x for x in pos]
        is_dict = f.op in ("dictv", "dictof") or (typeof(f) or "").split("[")[0] in ("Dict", "Mapping") or \
            (o.op == "new" and o.a[1] == "dict")
        if self.is_entry(st, o):
            r0 = self.entry_method(st, o, name, pos, F)
            if r0 is not None:
                return r0
        # --- strings / bytes
        if name == "decode" and f.op in ("b64u", "b64"):
            return [(st, f, None)]
        if name == "encode":
            return [(st, f, None)]
        if name == "decode":
            return [(st, mk("decode", f), None)]
        if name == "hex":
            return [(st, mk("hex", f), None)]
        if name == "format" and is_const(f) and isinstance(cval(f), str):
            return [(st, self.str_format(cval(f), F, {k: self.fz(st, v) for k, v in kw.items()}), None)]
        if name == "join" and _stringy(f):
            c = F[0]
            if c.op == "coll" and not c.a[2] and all(not p.a[1] and not p.a[2] for p in c.a[1]):
                ps: List[Any] = []
                for i, p in enumerate(c.a[1]):
                    if i:
                        ps.append(f)
                    ps.append(p.a[0])
                return [(st, string(ps), None)]
            if c.op == "tuple":
                ps = []
                for i, x in enumerate(c.a[0]):
                    if i:
                        ps.append(f)
                    ps.append(x)
                return [(st, string(ps), None)]
            return [(st, mk("join", f, c), None)]
        if name in ("lower", "upper", "strip", "split", "startswith", "endswith", "rstrip", "lstrip", "replace", "casefold") and not is_dict:
            return [(st, mk("strm", name, f, tuple(F)), None)]
        if name == "index" or name == "__getitem__" and not is_dict:
            if name == "index":
                return [(st, mk("index", f, F[0]), None)]
        if name == "count" and F:
            return [(st, mk("count", f, F[0]), None)]
        # --- views
        if name == "keys":
            return [(st, _kind(coll_of(f), "keys"), None)]
        if name == "items":
            return [(st, self.items_view(f), None)]
        if name == "values":
            c = self.items_view(f)
            return [(st, coll("gen", [part(p.a[0].a[0][1], p.a[1], p.a[2]) for p in c.a[1]]), None)]
        if name == "copy" and not pos:
            if is_dict:
                return [(st, self.alloc(st, fid, n, "dict", f if f.op == "dictv" else dictv(f, ())), None)]
            c = coll_of(f)
            k = o.a[1] if o.op == "new" else c.a[0]
            if k in ("list", "set"):
                return [(st, self.alloc(st, fid, n, k, c), None)]
            return [(st, c, None)]
        if name in ("get", "__getitem__") and F:
            if name == "__getitem__":
                return self.get_item(st, o, F[0], n, fid)
            k = F[0]
            d = pos[1] if len(pos) > 1 else kw.get("default", NONE)
            a, b = self.split(st, isin(k, f))
            out: List[R] = []
            if a is not None:
                out.extend(self.lookup_item(a, f, k))
            if b is not None:
                out.append((b, d, None))
            return out
        if name == "__contains__":
            return [(st, isin(F[0], f), None)]
        # --- set algebra
        if name == "union":
            return [(st, self.set_result(o, self.union_args(st, [o] + pos, "frozenset")), None)]
        if name == "intersection":
            v = f
            for x in F:
                v = self.set_op("&", v, x)
            return [(st, coll_of(v), None)]
        if name == "difference":
            v = f
            for x in F:
                v = self.set_op("-", v, x.a[0] if x.op == "star" else x)
            return [(st, coll_of(v), None)]
        if name == "symmetric_difference":
            return [(st, self.set_op("|", self.set_op("-", f, F[0]), self.set_op("-", F[0], f)), None)]
        if name == "isdisjoint":
            return [(st, neg(nonempty(self.set_op("&", f, F[0]))), None)]
        if name == "issubset":
            return [(st, neg(nonempty(self.set_op("-", f, F[0]))), None)]
        if name == "issuperset":
            return [(st, neg(nonempty(self.set_op("-", F[0], f))), None)]
        # --- mutation
        if name in ("add", "append", "appendleft") or (name == "insert" and len(F) == 2):
            x = F[-1]
            self.mutated(st, o, name, [x], n, fid)
            c = self.content(st, o)
            if c.op == "coll":
                # re-adding after removal
                c = coll(c.a[0], c.a[1], tuple(m for m in c.a[2] if m.a[0] is not x))
                st.heap[o] = _extend(c, ("coll", (part(x, (), frozenset()),), ()))
            return [(st, NONE, None)]
        if name == "update" and (o in self.volatile or is_dict) and len(F) <= 1 and all(
                x.op == "dictv" and x.a[0] in (None, NONE) and all(e.op == "put" and not e.a[2] and not e.a[3] for e in x.a[1]) for x in F):
            for x in F:
                for e in x.a[1]:
                    self.dict_put(st, o, e.a[0], e.a[1], n, fid)
            for k2, v2 in kw.items():
                self.dict_put(st, o, const(k2), v2, n, fid)
            return [(st, NONE, None)]
        if name in ("update", "extend"):
            self.mutated(st, o, name, F, n, fid)
            if is_dict:
                c = self.content(st, o, True)
                for x in F:
                    c = self.dict_merge(c, x)
                for k2, v2 in kw.items():
                    c = dictv(c, (mk("put", const(k2), self.fz(st, v2), (), frozenset()),))
                st.heap[o] = c
                return [(st, NONE, None)]
            c = self.content(st, o)
            if c.op == "coll":
                u = self.union_args(st, pos, "set")
                st.heap[o] = _extend(c, ("coll", u.a[1], ()))
            return [(st, NONE, None)]
        if name in ("remove", "discard") and F:
            self.mutated(st, o, name, F, n, fid)
            c = self.content(st, o)
            if c.op == "coll":
                st.heap[o] = _remove(c, F[0])
            else:
                st.heap[o] = mk("opaque", "removed", (c, F[0]))
            return [(st, NONE, None)]
        if name in ("difference_update", "intersection_update"):
            self.mutated(st, o, name, F, n, fid)
            c = self.content(st, o)
            st.heap[o] = self.set_op("-" if name[0] == "d" else "&", c, F[0])
            return [(st, NONE, None)]
        if name == "clear":
            self.mutated(st, o, name, F, n, fid)
            st.heap[o] = dictv(None, ()) if is_dict else coll("set", ())
            return [(st, NONE, None)]
        if name == "setdefault" and F:
            k = F[0]
            d = pos[1] if len(pos) > 1 else NONE
            d0 = self.fz(st, d)
            if o.op == "new" and o.a[1] == "dict" and self.is_mutating(n, fid) and d0.op == "coll" and not d0.a[2] and not any(
                    p.a[0].op == "acc" for p in d0.a[1]) and not d0.a[1]:
                c = st.heap.get(o)
                if c is not None and c.op == "dictv" and c.a[0] is None and not any(e.op == "del" for e in c.a[1]) and all(
                        e.a[1].op == "coll" and e.a[1].a[0] in ("list", "set") for e in c.a[1]
                        if e.op == "put" and e.a[0].op != "acc"):
                    self.entry_default(st, o, k, d0)
                    return [(st, mk("item", o, k), None)]
            a, b = self.split(st, isin(k, f))
            out = []
            if a is not None:
                out.extend(self.lookup_item(a, self.fz(a, o), k))
            if b is not None:
                self.dict_put(b, o, k, d, n, fid)
                out.append((b, d, None))
            return out
        if name in ("pop", "__delitem__") and F and (is_dict or typeof(f) is None or name == "__delitem__"):
            k = F[0]
            has_default = len(pos) > 1 or "default" in kw
            d = pos[1] if len(pos) > 1 else kw.get("default", NONE)

            def drop(s: State) -> None:
                self.mutated(s, o, name, [k], n, fid)
                c2 = self.content(s, o, True)
                if c2.op == "dictv" and any(e.op == "app" for e in c2.a[1]):
                    s.heap[o] = self.opaque("entry-removed", c2, k)
                elif c2.op == "dictv":
                    es = tuple(e for e in c2.a[1] if not (e.op == "put" and e.a[0] is k))
                    s.heap[o] = mk("dictv", c2.a[0], es + (mk("del", k, (), frozenset()),)) if c2.a[0] is not None or any(e.a[-2] for e in es) else mk("dictv", None, es)
            if has_default or self.is_caught("KeyError"):
                a, b = self.split(st, isin(k, f))
                out = []
                if a is not None:
                    for a2, v, ex in self.lookup_item(a, self.fz(a, o), k):
                        drop(a2)
                        out.append((a2, v, ex))
                if b is not None:
                    if has_default:
                        out.append((b, d, None))
                    else:
                        out.append((b, None, Exc("KeyError", mk("excobj", "KeyError", (("key", k),)))))
                return out
            if not self.assume(st, isin(k, f)):
                return []
            out = []
            for s2, v, ex in self.lookup_item(st, f, k):
                drop(s2)
                out.append((s2, v, ex))
            return out
        if name == "pop" and not F:
            out = []
            for s, v2 in self.pick_first(st, f):
                if v2 is not None:
                    self.mutated(s, o, name, [], n, fid)
                    c = self.content(s, o)
                    s.heap[o] = _remove(c, v2) if c.op == "coll" else mk("opaque", "popped", (c,))
                    out.append((s, v2, None))
                elif self.is_caught("KeyError") or self.is_caught("IndexError"):
                    out.append((s, None, Exc("KeyError", mk("excobj", "KeyError", ()))))
            return out
        if name == "reverse" and not F:
            self.mutated(st, o, name, F, n, fid)
            st.heap[o] = mk("ordered", mk("reversed", f), coll_of(f))
            return [(st, NONE, None)]
        if name in ("popitem", "symmetric_difference_update", "popleft"):
            self.mutated(st, o, name, F, n, fid)
        if name == "sort":
            self.mutated(st, o, name, F, n, fid)
            rs = self.do_sorted(st, f, kw, n, fid)
            if len(rs) == 1 and rs[0][2] is None:
                rs[0][0].heap[o] = rs[0][1]  # type: ignore
                return [(rs[0][0], NONE, None)]
        return None

    def set_result(self, o: T, c: T) -> T:
        return c

    def items_view(self, f: T) -> T:
        if f.op == "dictof":
            src = terms.dict_source(f.a[0])
            if src is not None:
                f = src
            else:
                e = elem(f.a[0])
                return coll("items", [part(tup(item(e, const(0)), item(e, const(1))), (e,), frozenset())])
        if f.op == "dictv":
            if f.a[0] is not None and f.a[0].op == "dictof" and not f.a[1]:
                return self.items_view(f.a[0])
            return coll("items", [part(tup(k, v), ch, g) for k, v, ch, g in dict_items(f)])
        k = elem(f)
        return coll("items", [part(tup(k, item(f, k)), (k,), frozenset())])

    def str_format(self, s: str, pos: List[T], kw: Dict[str, T]) -> T:
        import string as _s
        ps: List[Any] = []
        auto = 0
        try:
            for lit, field, spec, conv in _s.Formatter().parse(s):
                ps.append(lit)
                if field is None:
                    continue
                if spec or conv:
                    return mk("opaque", "format", tuple(pos))
                if field == "":
                    ps.append(pos[auto])
                    auto += 1
                elif field.isdigit():
                    ps.append(pos[int(field)])
                elif field in kw:
                    ps.append(kw[field])
                else:
                    return mk("opaque", "format", tuple(pos))
        except (ValueError, IndexError):
            return mk("opaque", "format", tuple(pos))
        return string(ps)


# ---------------------------------------------------------------------------------------------------------
def later(name: str, after: T) -> T:
    """The content of a shared container after an effect during which other tasks could run."""

    return mk("later", name, after)


def _exc_cls(v: T) -> str:
    if v.op == "excobj":
        return v.a[0]
    if v.op == "cls":
        return v.a[0]
    if v.op in ("new", "obj"):
        return (v.a[1][4:] if v.op == "new" else v.a[0])
    return "Exception"


def _choice(st: State, c: T) -> T:
    """Which of several alternatives a first-match choice took: a function of the loop variables in scope."""

    return mk("choice", c.n, _scope(st, c))


def _fixed(e: T) -> Set[T]:
    """The bound variables whose values a term determines."""

    if e.op == "elem":
        return {e}
    if e.op == "tuple":
        return set().union(*[_fixed(x) for x in e.a[0]])
    if e.op == "nt":
        return set().union(*[_fixed(x) for _, x in e.a[1]])
    return set()


def _scope(st: State, c: T) -> Tuple[T, ...]:
    """The loop variables in scope that c depends on."""

    scope: List[T] = []
    cell = st.trace
    while cell is not None:
        if isinstance(cell.node, Enter):
            scope += [v for v in cell.node.chain if contains(c, v)]
        cell = cell.prev
    return tuple(scope)


def _has_new(t: T) -> bool:
    return _has_op(t, ("new",))


_HAS: Dict[Tuple[T, Tuple[str, ...]], bool] = {}


def _has_op(t: Any, ops: Tuple[str, ...]) -> bool:
    if isinstance(t, (tuple, frozenset)):
        return any(_has_op(x, ops) for x in t)
    if not isinstance(t, T):
        return False
    k = (t, ops)
    r = _HAS.get(k)
    if r is None:
        r = t.op in ops or any(_has_op(x, ops) for x in t.a)
        _HAS[k] = r
    return r


def _has_lv(t: T) -> bool:
    return _has_op(t, ("lv", "acc", "fresh"))


def _stringy(t: T) -> bool:
    return t.op in ("str", "b64u", "b64", "hex", "fmt") or (is_const(t) and isinstance(cval(t), str)) or typeof(t) == "str"


def _kind(c: T, kind: str) -> T:
    return coll(kind, c.a[1], c.a[2]) if c.op == "coll" else c


def _setnorm(c: T) -> T:
    return mk("coll", "set", tuple(sorted(c.a[1], key=lambda t: t.n)), c.a[2])


def _mark(content: T, uid: Any) -> T:
    """The content together with whatever earlier iterations of the loop added to it (if anything)."""

    some = frozenset({neg(mk("fresh", uid))})
    if content.op == "coll":
        return coll(content.a[0], content.a[1] + (part(mk("acc", uid), (), some),), content.a[2])
    if content.op == "dictv":
        return mk("dictv", content.a[0], content.a[1] + (mk("put", mk("acc", uid), mk("acc", uid, 1), (), some),))
    return content


def _extend(content: T, added: Tuple[str, Tuple[T, ...], Tuple[T, ...]]) -> T:
    kind, plus, minus = added
    if content.op == "coll" and kind == "coll":
        ms = list(content.a[2])
        for m in minus:
            if m not in ms:
                ms.append(m)
        return coll(content.a[0], tuple(content.a[1]) + tuple(plus), tuple(ms))
    if content.op == "dictv":
        if content.a[0] is None and not content.a[1] and len(plus) == 1 and plus[0].op == "put":
            k, v, chain, guards = plus[0].a
            if k.op == "elem" and chain == (k,) and not guards and v is item(k.a[0], k) and k.a[0].op not in ("coll", "dictv"):
                # a copy, entry by entry
                return dictv(k.a[0], ())
        return mk("dictv", content.a[0], content.a[1] + tuple(plus))
    if kind == "dict":
        return dictv(content, tuple(plus))
    return coll(coll_of(content).a[0], coll_of(content).a[1] + tuple(plus), minus)


def _remove(c: T, x: T) -> T:
    lit = part(x, (), frozenset())
    if lit in c.a[1] and not any(p.a[1] for p in c.a[1]):
        return coll(c.a[0], tuple(p for p in c.a[1] if p is not lit), c.a[2])
    return coll(c.a[0], c.a[1], c.a[2] + (lit,))


def _alternatives(rests: List[FrozenSet[T]]) -> T:
    """Disjunction of conjunctions, resolving complementary literals."""

    work = list(dict.fromkeys(rests))
    changed = True
    while changed:
        changed = False
        for i in range(len(work)):
            for j in range(i + 1, len(work)):
                a, b = work[i], work[j]
                if a <= b:
                    work.pop(j)
                elif b <= a:
                    work.pop(i)
                else:
                    d = a ^ b
                    if len(d) != 2:
                        continue
                    x, y = tuple(d)
                    if neg(x) is not y:
                        continue
                    work = [w for k, w in enumerate(work) if k not in (i, j)] + [a & b]
                changed = True
                break
            if changed:
                break
    return disj(*[conj(*w) for w in work])


def _join_defaults(parts: Tuple[T, ...]) -> Tuple[T, ...]:
    """Variants of a record that differ in whether a loaded value exists: its value, or another one otherwise."""

    work = list(parts)
    again = True
    while again:
        again = False
        for i, p in enumerate(work):
            if p.a[0].op != "nt" or not p.a[1]:
                continue
            for j in (g for g in p.a[2] if g.op == "isjust"):
                guards = p.a[2] - {j}
                q = next((q for q in work if q is not p and q.a[0].op == "nt" and q.a[0].a[0] == p.a[0].a[0] and q.a[1] == p.a[1]
                          and q.a[2] == guards | {neg(j)}), None)
                if q is None:
                    continue
                fields = []
                for (name, v), (_, w) in zip(p.a[0].a[1], q.a[0].a[1]):
                    if v is w:
                        fields.append((name, v))
                    elif v.op == "just" and v.a[0] is j.a[0] and w is not NONE and not contains(w, j.a[0]):
                        fields.append((name, mk("maybe", j.a[0], w)))
                    else:
                        break
                if len(fields) == len(p.a[0].a[1]):
                    work[i] = part(nt(p.a[0].a[0], tuple(fields)), p.a[1], guards)
                    work.remove(q)
                    again = True
                    break
            if again:
                break
    return tuple(work)


def _join_records(parts: Tuple[T, ...]) -> Tuple[T, ...]:
    """Join the variants of one record (same class, same bound variables) into a single part whose differing
    fields are conditional terms.  Keeps loops over records from being analysed once per variant."""

    same: Dict[Any, List[T]] = {}
    for p in parts:
        same.setdefault((p.a[0], p.a[1]), []).append(p)
    if any(len(g) > 1 for g in same.values()):
        merged = []
        for (e, chain), g in same.items():
            if len(g) > 1:
                common = frozenset.intersection(*[x.a[2] for x in g])
                gd = _alternatives([x.a[2] - common for x in g])
                merged.append(part(e, chain, common if gd is TRUE else common | {gd}))
            else:
                merged.append(g[0])
        parts = tuple(merged)
    def key(p: T) -> Any:
        # variants that differ in an explicitly listed collection stay apart: tests on it tell them apart
        lits = tuple((n, v) for n, v in p.a[0].a[1] if v.op == "coll" and any(not q.a[1] for q in v.a[1])
                     or v.op == "coll" and not v.a[1])
        return p.a[0].a[0], p.a[1], lits

    parts = _join_defaults(parts)
    groups: Dict[Any, List[T]] = {}
    for p in parts:
        if p.a[0].op == "nt" and p.a[1]:
            groups.setdefault(key(p), []).append(p)
    if all(len(g) < 2 for g in groups.values()):
        return parts
    out: List[T] = []
    for p in parts:
        g = groups.get(key(p)) if p.a[0].op == "nt" and p.a[1] else None
        if g is None or len(g) < 2:
            out.append(p)
            continue
        if p is not g[0]:
            continue
        common = frozenset.intersection(*[x.a[2] for x in g])
        rests = [x.a[2] - common for x in g]
        fields = []
        for i, (name, v0) in enumerate(p.a[0].a[1]):
            vals: Dict[T, List[FrozenSet[T]]] = {}
            for x, r in zip(g, rests):
                vals.setdefault(x.a[0].a[1][i][1], []).append(r)
            if len(vals) == 1:
                fields.append((name, v0))
            else:
                fields.append((name, mk("ite", tuple((_alternatives(rs), v) for v, rs in vals.items()))))
        gd = _alternatives(rests)
        out.append(part(nt(p.a[0].a[0], tuple(fields)), p.a[1], common if gd is TRUE else common | {gd}))
    return tuple(out)


def _same_env(a: Dict[Any, T], b: Dict[Any, T]) -> bool:
    return a == b


def _visible(f: Any, fid: Any, parent: Dict[Any, Any]) -> bool:
    """Variables of the frame executing the loop or of frames it can write to."""

    return True


_LIVE: Dict[int, Liveness] = {}
_NL: Dict[int, Set[str]] = {}


def _nonlocals(node: ast.AST) -> Set[str]:
    k = nid(node)
    if k not in _NL:
        out: Set[str] = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Nonlocal):
                out |= set(x.names)
        _NL[k] = out
    return _NL[k]


_GEN: Dict[int, bool] = {}


def _is_generator(node: ast.AST) -> bool:
    k = nid(node)
    if k not in _GEN:
        r = False
        if not isinstance(node, ast.Lambda):
            todo = list(node.body)  # type: ignore
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    continue
                todo.extend(ast.iter_child_nodes(x))
        _GEN[k] = r
    return _GEN[k]


def _binder(op: str, k: T, x: T, chain: Tuple[T, ...], guards: FrozenSet[T]) -> T:
    p = part(tup(k, x), chain, guards)
    return mk(op, k, x, p.a[1], p.a[2])


def _injective(k: T, chain: Tuple[T, ...]) -> bool:
    """Do different elements give different keys?"""

    if len(chain) != 1:
        return False
    return k is chain[0] or k.op == "attr" and k.a[1] == "namespace" and k.a[0] is chain[0] and chain[0].a[0] is terms.BACKENDS


def _mutating_uses(tree: ast.AST) -> Set[int]:
    """Expressions d[k], d.setdefault(k, ...) whose value is changed in place, directly or through a variable."""

    out: Set[int] = set()
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module)):
            continue
        names: Set[str] = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                v = x.func.value
                if isinstance(v, ast.Name):
                    names.add(v.id)
                elif isinstance(v, (ast.Subscript, ast.Call)):
                    out.add(id(v))
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                names.add(x.target.id)
        if isinstance(fn, ast.Module):
            continue
        for x in ast.walk(fn):
            ts: List[ast.expr] = []
            if isinstance(x, ast.Assign):
                ts = x.targets
            elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)):
                ts = [x.target]
            if any(isinstance(t, ast.Name) and t.id in names for t in ts) and isinstance(x.value, (ast.Subscript, ast.Call)):  # type: ignore
                out.add(id(x.value))  # type: ignore
    return out


def _as_load(t: ast.expr) -> ast.expr:
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)
    return t


def live_refs(o: Out) -> None:
    """Drop heap objects nothing refers to any more."""

    s = o.st
    roots: Set[T] = set()
    pend: List[Any] = list(s.env.values()) + list(s.fields.values())
    if o.val is not None:
        pend.append(o.val)
    if o.exc is not None:
        pend.append(o.exc.val)
    pend.extend(c for r, c in s.heap.items() if r.op != "new")
    while pend:
        t = pend.pop()
        if not _has_new(t):
            continue
        for x in terms.subterms(t):
            if x.op == "new" and x not in roots:
                roots.add(x)
                c = s.heap.get(x)
                if c is not None:
                    pend.append(c)
                for (ob, _), v in s.fields.items():
                    if ob is x:
                        pend.append(v)
    dead = [r for r in s.heap if r.op == "new" and r not in roots and not (isinstance(r.a[0], tuple) and len(r.a[0]) == 2 and isinstance(r.a[0][1], str))]
    for r in dead:
        del s.heap[r]
