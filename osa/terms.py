"""
Value-provenance terms and guard formulas.

The abstract value of an expression is a hash-consed *provenance term*: where the value comes from (a
parameter, a configured role of the session manager, the result of a specific effect, an element of a
collection, ...) and which pure operations were applied.  Conditions are negation-normal-form formulas over
terms.  Nothing here is executed; terms are canonicalised syntactically so that equivalent spellings of one
value get the same term.
"""

from __future__ import annotations

import functools
from typing import Any, Callable, Dict, FrozenSet, Iterable, List, Optional, Tuple

_INTERN: Dict[Any, "T"] = {}
_COUNTER = [0]


class T:
    __slots__ = ("op", "a", "n")

    op: str
    a: Tuple[Any, ...]
    n: int

    def __repr__(self) -> str:
        return show(self)

    def __lt__(self, other: "T") -> bool:
        return self.n < other.n

    def __hash__(self) -> int:
        return self.n


def _key(x: Any) -> Any:
    if isinstance(x, (bool, int, float)):
        return (type(x).__name__, x)
    return x


def mk(op: str, *a: Any) -> T:
    k = (op,) + tuple(_key(x) for x in a)
    t = _INTERN.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _COUNTER[0] += 1
        t.n = _COUNTER[0]
        _INTERN[k] = t
    return t


def const(v: Any) -> T:
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
SELF = mk("self")


def is_const(t: Any) -> bool:
    return isinstance(t, T) and t.op == "const"


def cval(t: T) -> Any:
    return t.a[1]


def role(name: str) -> T:
    return mk("role", name)


def param(fn: str, name: str) -> T:
    return mk("param", fn, name)


def enum(cls: str, member: str) -> T:
    return mk("enum", cls, member)


# ---------------------------------------------------------------------------------------------------------
# type oracle (installed by the program model): term -> annotation-derived type string or None
# ---------------------------------------------------------------------------------------------------------
_TYPEOF: List[Callable[[T], Optional[str]]] = [lambda t: None]
_ENUMS: Dict[str, Tuple[str, ...]] = {}

OBJECT_TYPES = {
    "Backend", "Session", "KeyExchange", "Bundle", "DeviceInformation", "EncryptedKeyMaterial",
    "PlainKeyMaterial", "Content", "Message", "Storage"
}


BACKENDS = role("backends")


def typeof(t: T) -> Optional[str]:
    return _TYPEOF[0](t)


# ---------------------------------------------------------------------------------------------------------
# structural helpers
# ---------------------------------------------------------------------------------------------------------
def children(t: T) -> Iterable[T]:
    stack: List[Any] = list(t.a)
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)


_SUB_CACHE: Dict[Tuple[T, T], bool] = {}


def contains(t: Any, sub: T) -> bool:
    """Whether ``sub`` occurs in ``t``."""

    if isinstance(t, (tuple, frozenset, list, set)):
        return any(contains(x, sub) for x in t)
    if not isinstance(t, T):
        return False
    if t is sub:
        return True
    k = (t, sub)
    r = _SUB_CACHE.get(k)
    if r is None:
        r = False
        for c in children(t):
            if contains(c, sub):
                r = True
                break
        _SUB_CACHE[k] = r
    return r


_FREE_CACHE: Dict[Any, bool] = {}


def free(t: Any, v: T) -> bool:
    """Whether the variable occurs in the term outside of the collections and conditions that bind it."""

    if isinstance(t, (tuple, frozenset, list, set)):
        return any(free(x, v) for x in t)
    if not isinstance(t, T) or not contains(t, v):
        return False
    if t is v:
        return True
    k = (t, v)
    r = _FREE_CACHE.get(k)
    if r is None:
        i = _BINDERS.get(t.op)
        r = (i is None or v not in t.a[i]) and any(free(c, v) for c in children(t))
        _FREE_CACHE[k] = r
    return r


def subterms(t: Any) -> Iterable[T]:
    seen = set()
    stack: List[Any] = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.a)
        elif isinstance(x, (tuple, frozenset, list, set)):
            stack.extend(x)


_COLLECTED: Dict[Tuple[Tuple[str, ...], T], FrozenSet[T]] = {}


def collect(t: T, *ops: str) -> FrozenSet[T]:
    """The subterms with one of the given operators (memoised per term)."""

    r = _COLLECTED.get((ops, t))
    if r is None:
        r = frozenset()
        for c in children(t):
            s = collect(c, *ops)
            if s:
                r = r | s if r else s
        if t.op in ops:
            r = r | {t}
        _COLLECTED[(ops, t)] = r
    return r


_UNK_CACHE: Dict[T, bool] = {}


def has_unknown(t: Any) -> bool:
    """Whether the term contains the result of something the analysis does not model."""

    if isinstance(t, (tuple, frozenset, list, set)):
        return any(has_unknown(x) for x in t)
    if not isinstance(t, T):
        return False
    r = _UNK_CACHE.get(t)
    if r is None:
        r = t.op in ("opaque", "call", "lv", "acc", "fresh", "phi") or any(has_unknown(c) for c in children(t))
        _UNK_CACHE[t] = r
    return r


_MOD_CACHE: Dict[T, bool] = {}


def unmodelled(t: Any) -> bool:
    """Like has_unknown, but whether this is a loop's first iteration is a condition like others."""

    if isinstance(t, (tuple, frozenset, list, set)):
        return any(unmodelled(x) for x in t)
    if not isinstance(t, T) or not has_unknown(t):
        return False
    r = _MOD_CACHE.get(t)
    if r is None:
        r = t.op in ("opaque", "call", "lv", "acc", "phi") or any(unmodelled(c) for c in children(t))
        _MOD_CACHE[t] = r
    return r


_BINDERS = {"part": 1, "ex": 0, "put": 2, "del": 1, "app": 2}


def subst(t: Any, m: Dict[T, T], memo: Optional[Dict[Any, Any]] = None) -> Any:
    """Substitute terms, re-canonicalising on the way up."""

    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple([subst(x, m, memo) for x in t])
        if isinstance(t, frozenset):
            return frozenset([subst(x, m, memo) for x in t])
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    for k in m:
        if contains(t, k):
            break
    else:
        memo[t] = t
        return t
    bi = _BINDERS.get(t.op)
    if bi is not None and t.a[bi]:
        na = _subst_binder(t, bi, m, memo)
    else:
        na = tuple([subst(x, m, memo) for x in t.a])
    r = t if na == t.a else rebuild(t.op, na)
    memo[t] = r
    return r


def _subst_binder(t: T, bi: int, m: Dict[T, T], memo: Dict[Any, Any]) -> Tuple[Any, ...]:
    """Substitution under a binder: its variables shadow, and are renamed where a substituted value would be captured."""

    chain = t.a[bi]
    rel = {k: w for k, w in m.items() if k not in chain}
    if not rel:
        return t.a
    clash = [v for v in chain if v.op == "elem" and any(contains(w, v) for k, w in rel.items() if contains(t, k))]
    if not clash:
        if len(rel) == len(m):
            return tuple(subst(x, m, memo) for x in t.a)
        return subst(t.a, rel)
    cur: Dict[T, T] = {}
    for v in chain:
        v2 = subst(v, cur) if cur else v
        if v in clash:
            d = v2.a[1] + 1
            while True:
                w = mk("elem", v2.a[0], d)
                if not contains(t, w) and not any(contains(x, w) for x in rel.values()):
                    break
                d += 1
            cur[v] = w
        elif v2 is not v:
            cur[v] = v2
    return subst(subst(t.a, cur), rel)


def rebuild(op: str, a: Tuple[Any, ...]) -> T:
    f = _SMART.get(op)
    return f(*a) if f is not None else mk(op, *a)


# ---------------------------------------------------------------------------------------------------------
# data terms
# ---------------------------------------------------------------------------------------------------------
def tup(*xs: T) -> T:
    return mk("tuple", tuple(xs))


def nt(cls: str, fields: Tuple[Tuple[str, T], ...]) -> T:
    return mk("nt", cls, fields)


def attr(t: T, name: str) -> T:
    if t.op == "nt":
        for f, v in t.a[1]:
            if f == name:
                return v
    return mk("attr", t, name)


def item(t: T, k: T) -> T:
    if is_const(k) and isinstance(cval(k), int) and not isinstance(cval(k), bool):
        i = cval(k)
        if t.op == "tuple" and -len(t.a[0]) <= i < len(t.a[0]):
            return t.a[0][i]
        if t.op == "nt" and -len(t.a[1]) <= i < len(t.a[1]):
            return t.a[1][i][1]
    if t.op == "dictof":
        src = dict_source(t.a[0])
        if src is not None:
            return item(src, k)
    if t.op == "dictv":
        v = dict_lookup(t, k)
        if v is not None:
            return v
        if any(e.op == "app" for e in t.a[1]):
            return mk("opaque", "entry", (t, k))
    return mk("item", t, k)


def string(parts: Iterable[Any]) -> T:
    out: List[Any] = []
    for p in parts:
        if isinstance(p, T) and p.op == "str":
            sub: Iterable[Any] = p.a[0]
        else:
            sub = (p,)
        for q in sub:
            if isinstance(q, T) and is_const(q) and isinstance(cval(q), (str, int)) and not isinstance(cval(q), bool):
                q = str(cval(q))
            if isinstance(q, T) and is_const(q):
                q = str(cval(q))
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] = out[-1] + q
            elif q == "":
                continue
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and isinstance(out[0], str):
        return const(out[0])
    if len(out) == 1 and typeof(out[0]) in (None, "str"):
        # a plain str() of a single value: identity for strings
        return out[0]
    return mk("str", tuple(out))


def str_parts(t: T) -> Tuple[Any, ...]:
    if t.op == "str":
        return t.a[0]
    if is_const(t) and isinstance(cval(t), str):
        return (cval(t),)
    return (t,)


# linear integer terms -------------------------------------------------------------------------------------
def to_lin(t: T) -> Tuple[Dict[T, int], int]:
    if is_const(t) and isinstance(cval(t), (int, bool)):
        return {}, int(cval(t))
    if t.op == "lin":
        return dict(t.a[0]), t.a[1]
    return {t: 1}, 0


def from_lin(d: Dict[T, int], k: int) -> T:
    d = {t: c for t, c in d.items() if c != 0}
    if not d:
        return const(k)
    if k == 0 and len(d) == 1:
        (t, c), = d.items()
        if c == 1:
            return t
    return mk("lin", tuple(sorted(d.items(), key=lambda p: p[0].n)), k)


def add(a: T, b: T, sign: int = 1) -> T:
    da, ka = to_lin(a)
    db, kb = to_lin(b)
    for t, c in db.items():
        da[t] = da.get(t, 0) + sign * c
    return from_lin(da, ka + sign * kb)


def scale(a: T, c: int) -> T:
    d, k = to_lin(a)
    return from_lin({t: v * c for t, v in d.items()}, k * c)


# ---------------------------------------------------------------------------------------------------------
# formulas (always in negation normal form; negation is pushed to atoms)
# ---------------------------------------------------------------------------------------------------------
FORMULA_OPS = {"and", "or", "not", "eq", "le0", "in", "exists", "truthy", "isinstance", "isjust", "failed", "earlier"}


def is_formula(t: T) -> bool:
    return t.op in FORMULA_OPS or t is TRUE or t is FALSE


NON_NONE_OPS = {
    "tuple", "nt", "coll", "str", "enum", "func", "new", "dictv", "self", "lin", "b64u", "b64", "elem_nn", "cls",
    "hex", "just_nn", "logger"
}


def is_non_none(t: T) -> bool:
    if t.op in NON_NONE_OPS or is_formula(t):
        return True
    if is_const(t):
        return cval(t) is not None
    if t.op == "item" and any(x.op == "later" for x in (t.a[0], t.a[0].a[0] if t.a[0].op == "dictv" else t.a[0]) if isinstance(x, T)):
        return True
    ty = typeof(t)
    return ty is not None and not ty.startswith("Optional[") and ty not in ("Any", "None") and not ty.startswith("JSON") \
        and not ty.endswith("TypeT") and not (ty.startswith("Union[") and "None" in ty)


def dropped(a: T, b: T) -> Optional[T]:
    """The formula "an element of b is missing in a" where a is b with some elements filtered out, None if it is not."""

    SETS = ("set", "frozenset")
    if a.op == "dictv" and all(e.op == "put" for e in a.a[1]) and len(a.a[1]) == 1 and a.a[0] is None:
        a = dict_keys(a)
    if a.op != "coll" or a.a[0] not in ("set", "frozenset", "list", "keys"):
        return None
    if b.op == "dictv":
        b = dict_keys(b)
    if b.op != "coll":
        if a.a[0] not in ("list", "keys") or len(a.a[1]) != 1 or a.a[1][0].a[0].op != "elem" or a.a[1][0].a[0].a[0] is not b:
            return None
        b = coll(a.a[0], [part(a.a[1][0].a[0], (a.a[1][0].a[0],), frozenset())])
    if not (a.a[0] == b.a[0] or (a.a[0] in SETS and b.a[0] in SETS)) or len(a.a[1]) != 1 or len(b.a[1]) != 1 or b.a[2]:
        return None
    x, y = a.a[1][0], b.a[1][0]
    if len(x.a[1]) != 1 or len(y.a[1]) != 1 or x.a[0] is not x.a[1][0] or y.a[0] is not y.a[1][0]:
        return None
    v, w = x.a[0], y.a[0]
    if v.op != "elem" or w.op != "elem" or v.a[0] is not w.a[0]:
        return None
    gs = x.a[2] if v is w else frozenset(subst(g, {v: w}) for g in x.a[2])
    if not y.a[2] <= gs:
        return None
    return exists([((w,), y.a[2] | {disj(*[neg(g) for g in gs - y.a[2]], *[isin(w, m) for m in a.a[2]])})])


def shorter(t: T) -> Optional[Tuple[T, int]]:
    """(the formula "the filtered collection is shorter", sign) for a difference of lengths of a collection and its filtered form."""

    d, k = to_lin(t)
    d = {v: c for v, c in d.items() if c}
    if k != 0 or len(d) != 2 or any(v.op != "len" for v in d) or sorted(d.values()) != [-1, 1]:
        return None
    a, = [v.a[0] for v, c in d.items() if c == 1]
    b, = [v.a[0] for v, c in d.items() if c == -1]
    f = dropped(a, b)
    if f is not None:
        return f, 1
    f = dropped(b, a)
    return None if f is None else (f, -1)


def eq(a: T, b: T) -> T:
    if a is b:
        return TRUE
    if a.op == "lv" or b.op == "lv":
        x, y = sorted((a, b), key=lambda t: t.n)
        return mk("eq", x, y)
    if is_const(a) and is_const(b):
        return const(cval(a) == cval(b) and (type(cval(a)) is type(cval(b)) or cval(a) == cval(b)))
    if a.op == "enum" and b.op == "enum":
        return FALSE
    if a is NONE or b is NONE:
        o = b if a is NONE else a
        if is_non_none(o):
            return FALSE
        return mk("eq", NONE, o)
    for x, y in ((a, b), (b, a)):
        if x is TRUE:
            return truthy(y)
        if x is FALSE:
            return neg(truthy(y))
    if a.op == "tuple" and b.op == "tuple" and len(a.a[0]) == len(b.a[0]):
        return conj(*[eq(x, y) for x, y in zip(a.a[0], b.a[0])])
    if a.op == "nt" and b.op == "nt":
        if a.a[0] != b.a[0]:
            return FALSE
        return conj(*[eq(x[1], y[1]) for x, y in zip(a.a[1], b.a[1])])
    if a.op == "str" and b.op == "str" and len(a.a[0]) == len(b.a[0]):
        differ = [(x, y) for x, y in zip(a.a[0], b.a[0]) if x is not y and x != y]
        if len(differ) == 1:
            x, y = differ[0]
            if isinstance(x, str) and isinstance(y, str):
                return FALSE
            if isinstance(x, T) and isinstance(y, T):
                return eq(x, y)
    if a.op == "len" and is_const(b) and cval(b) == 0:
        return neg(nonempty(a.a[0]))
    if b.op == "len" and is_const(a) and cval(a) == 0:
        return neg(nonempty(b.a[0]))
    if "lin" in (a.op, b.op):
        d, k = to_lin(add(a, b, -1))
        d = {t: c for t, c in d.items() if c}
        if not d:
            return const(k == 0)
        sh = shorter(add(a, b, -1))
        if sh is not None:
            return neg(sh[0])
        f = min(d, key=lambda t: t.n)
        if d[f] < 0:
            d, k = {t: -c for t, c in d.items()}, -k
        return mk("eq", from_lin(d, 0), const(-k))
    for x, y in ((a, b), (b, a)):
        if x.op == "coll" and not x.a[1] and y.op == "coll":
            return neg(nonempty(y))
        if x.op == "coll" or x.op == "dictv" and len(x.a[1]) == 1 and x.a[1][0].op == "put" and \
                x.a[1][0].a[1] is item(y, x.a[1][0].a[0]):
            f = dropped(x, y)
            if f is not None:
                return neg(f)
    if a.op == "len" and b.op == "len":
        sh = shorter(add(a, b, -1))
        if sh is not None:
            return neg(sh[0])
    x, y = sorted((a, b), key=lambda t: (0 if t.op in ("const", "enum") else 1, t.n))
    return mk("eq", x, y)


def ne(a: T, b: T) -> T:
    return neg(eq(a, b))


def le0(t: T) -> T:
    """t <= 0 over the integers"""

    if is_const(t):
        return const(cval(t) <= 0)
    d, k = to_lin(t)
    if len(d) == 1:
        (v, c), = d.items()
        if v.op == "len":
            # c*len + k <= 0
            if c == -1 and k == 1:
                return nonempty(v.a[0])            # len >= 1
            if c == 1 and k == 0:
                return neg(nonempty(v.a[0]))       # len <= 0
            if c == -1 and k <= 0:
                return TRUE
    if len(d) == 2 and k in (0, 1):
        sh = shorter(add(t, const(k), -1))
        if sh is not None:
            # the filtered collection is never longer
            f, sign = sh
            return (TRUE if k == 0 else f) if sign == 1 else (neg(f) if k == 0 else FALSE)
    return mk("le0", t)


def le(a: T, b: T) -> T:
    return le0(add(a, b, -1))


def lt(a: T, b: T) -> T:
    return le0(add(add(a, b, -1), const(1)))


_NEG: Dict[T, T] = {}


def neg(t: T) -> T:
    r = _NEG.get(t)
    if r is None:
        r = _NEG[t] = _neg(t)
        _NEG.setdefault(r, t) if is_formula(t) else None
    return r


def _neg(t: T) -> T:
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    if t.op == "and":
        return disj(*[neg(x) for x in t.a[0]])
    if t.op == "or":
        return conj(*[neg(x) for x in t.a[0]])
    if t.op == "le0":
        return le0(add(scale(t.a[0], -1), const(1)))
    if not is_formula(t):
        return neg(truthy(t))
    return mk("not", t)


def conj(*fs: T) -> T:
    out = set()
    for f in fs:
        if not is_formula(f):
            f = truthy(f)
        if f is FALSE:
            return FALSE
        if f is TRUE:
            continue
        if f.op == "and":
            out |= f.a[0]
        else:
            out.add(f)
    for f in out:
        if neg(f) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return mk("and", frozenset(out))


def disj(*fs: T) -> T:
    out = set()
    for f in fs:
        if not is_formula(f):
            f = truthy(f)
        if f is TRUE:
            return TRUE
        if f is FALSE:
            continue
        if f.op == "or":
            out |= f.a[0]
        else:
            out.add(f)
    for f in out:
        if neg(f) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return mk("or", frozenset(out))


def truthy(t: T) -> T:
    if is_formula(t):
        return t
    if is_const(t):
        return const(bool(cval(t)))
    if t.op in ("enum", "func", "cls", "self", "nt"):
        return TRUE
    if t.op in ("coll", "dictv"):
        return nonempty(t)
    if t.op == "len":
        return nonempty(t.a[0])
    if t.op == "orval":
        return disj(*[truthy(x) for x in t.a[0]])
    if t.op == "andval":
        return conj(*[truthy(x) for x in t.a[0]])
    if t.op == "str" and any(isinstance(p, str) and p for p in t.a[0]):
        return TRUE
    if t.op == "tuple":
        return const(len(t.a[0]) > 0)
    ty = typeof(t)
    if ty is not None:
        base = ty[9:-1] if ty.startswith("Optional[") else ty
        if base in OBJECT_TYPES:
            return ne(t, NONE)
        if base.split("[")[0] in ("Dict", "List", "Set", "FrozenSet", "Mapping") and base is ty:
            return nonempty(coll_of(t))
        if base == "int" and base is ty:
            return ne(t, const(0))
    return mk("truthy", t)


# ---------------------------------------------------------------------------------------------------------
# collections:  coll(kind, parts, minus)     part(elem, chain, guards)
#   { elem | chain bound variables, guards }
# ---------------------------------------------------------------------------------------------------------
def orval(vals: Tuple[T, ...]) -> T:
    """The value of ``a or b``."""

    out: List[T] = []
    for i, v in enumerate(vals):
        tv = truthy(v)
        if tv is TRUE or i == len(vals) - 1:
            out.append(v)
            break
        if tv is not FALSE:
            out.append(v)
    return out[0] if len(out) == 1 else mk("orval", tuple(out))


def andval(vals: Tuple[T, ...]) -> T:
    out: List[T] = []
    for i, v in enumerate(vals):
        tv = truthy(v)
        if tv is FALSE or i == len(vals) - 1:
            out.append(v)
            break
        if tv is not TRUE:
            out.append(v)
    return out[0] if len(out) == 1 else mk("andval", tuple(out))


def part(elem: T, chain: Tuple[T, ...], guards: FrozenSet[T]) -> T:
    if len(chain) > 1:
        seen: List[T] = []
        for v in chain:
            if v not in seen:
                seen.append(v)
        chain = tuple(seen)
    return mk("part", elem, chain, guards)


def coll(kind: str, parts: Iterable[T], minus: Tuple[T, ...] = ()) -> T:
    ps: List[T] = []
    for p in parts:
        p = normal_part(p)
        if p not in ps:
            ps.append(p)
    return mk("coll", kind, tuple(ps), tuple(minus))


def fresh_part(p: T, avoid: Tuple[T, ...]) -> T:
    """Alpha-rename the bound variables of a part that clash with variables in use."""

    e, chain, guards = p.a
    cur: Dict[T, T] = {}
    new: List[T] = []
    for v in chain:
        v2 = subst(v, {k: w for k, w in cur.items() if k is not v}) if cur else v
        # (not even when the variables in the source of this one are identified with the originals later)
        while v2 in avoid or v2 in new or v in avoid and v2 is not v and v2.a[1] <= v.a[1]:
            v2 = mk("elem", v2.a[0], v2.a[1] + 1)
        if v2 is not v:
            cur[v] = v2
        new.append(v2)
    if not cur:
        return p
    return part(subst(e, cur), tuple(new), subst(guards, cur))


def normal_part(p: T) -> T:
    """Give the bound variables of a part their canonical (lowest free) index."""

    e, chain, guards = p.a
    if all(v.a[1] == 0 for v in chain if v.op == "elem"):
        return p
    cur: Dict[T, T] = {}
    new: List[T] = []
    for v in chain:
        v2 = subst(v, {k: w for k, w in cur.items() if k is not v}) if cur else v
        if v2.op == "elem":
            i = 0
            while i < v2.a[1]:
                c = mk("elem", v2.a[0], i)
                if c not in new and not any(contains(x, c) for x in (e,) + tuple(guards)) and \
                        not any(contains(w, c) for w in chain):
                    break
                i += 1
            v2 = mk("elem", v2.a[0], i)
        if v2 is not v:
            cur[v] = v2
        new.append(v2)
    if not cur:
        return p
    return part(subst(e, cur), tuple(new), subst(guards, cur))


def literal_coll(kind: str, elems: Iterable[T]) -> T:
    return coll(kind, [part(e, (), frozenset()) for e in elems])


def elem(src: T, depth: int = 0) -> T:
    return mk("elem", src, depth)


def coll_of(t: T, kind: str = "gen") -> T:
    """View any term as a collection."""

    if t.op == "coll":
        return t
    if t.op == "dictv":
        return dict_keys(t)
    if t.op == "cls" and t.a[0] in _ENUMS:
        return literal_coll("tuple", [enum(t.a[0], m) for m in _ENUMS[t.a[0]]])
    if t.op == "tuple":
        return literal_coll("tuple", t.a[0])
    if t.op == "ordered":
        return t.a[1]
    if t.op == "nt":
        return literal_coll("tuple", [v for _, v in t.a[1]])
    if t.op == "dictof":
        src = dict_source(t.a[0])
        if src is not None:
            return coll_of(src, kind)
        e2 = elem(t.a[0])
        return coll(kind, [part(item(e2, const(0)), (e2,), frozenset())])
    if t.op == "maybe":
        # Maybe-with-default: elements of the stored value, or of the default
        default = t.a[1]
        ps = [part(elem(t), (elem(t),), frozenset())]
        if default.op == "coll" and default.a[1]:
            ps += list(default.a[1])
        return coll(kind, ps)
    e = elem(t)
    return coll(kind, [part(e, (e,), frozenset())])


def _witnessed(v: T, g: FrozenSet[T]) -> bool:
    """An element of the same collection that is in scope satisfies the conditions."""

    cands = {x for f in g for x in collect(f, "elem") if x.a[0] is v.a[0] and x is not v}
    return any(conj(*subst(g, {v: w})) is TRUE for w in cands)


def _same_backend(f: T, v: T) -> T:
    """Backends have distinct namespaces: equal namespaces are those of the same backend."""

    if f.op == "eq" and v.op == "elem" and v.a[0] is BACKENDS and all(
            x.op == "attr" and x.a[1] == "namespace" and x.a[0].op == "elem" and x.a[0].a[0] is BACKENDS for x in f.a) \
            and v in (f.a[0].a[0], f.a[1].a[0]):
        return mk("eq", *sorted(x.a[0] for x in f.a))
    return f


def exists(alts: Iterable[Tuple[Tuple[T, ...], FrozenSet[T]]]) -> T:
    out = set()
    for chain, guards in alts:
        if FALSE in guards:
            continue
        g = frozenset(x for x in guards if x is not TRUE)
        if not chain:
            if not g:
                return TRUE
            out.add(mk("ex", (), g))
            continue
        # a bound variable constrained to equal a term free of it can be eliminated
        changed = True
        ch = list(chain)
        while changed:
            changed = False
            for v in list(ch):
                for f in g:
                    f = _same_backend(f, v)
                    if f.op == "eq" and v in f.a:
                        o = f.a[1] if f.a[0] is v else f.a[0]
                        if not contains(o, v):
                            g2 = subst(g, {v: o})
                            g2 = frozenset(x for x in g2 if x is not TRUE)
                            inn = isin(o, v.a[0]) if v.op == "elem" else TRUE
                            if inn is not TRUE:
                                g2 = g2 | (inn.a[0] if inn.op == "and" else frozenset({inn}))
                            if FALSE in g2:
                                g = g2
                                ch = []
                                changed = False
                                break
                            g = g2
                            ch.remove(v)
                            ch = [subst(c, {v: o}) for c in ch]
                            changed = True
                            break
                if changed or not ch:
                    break
        if conj(*g) is FALSE:
            continue
        if not ch and not g:
            return TRUE
        if len(ch) == 1 and ch[0].op == "elem" and g and _witnessed(ch[0], g):
            return TRUE
        np = normal_part(part(TRUE, tuple(ch), g))
        out.add(mk("ex", np.a[1], np.a[2]))
    if not out:
        return FALSE
    plain = [x for x in out if not x.a[0]]
    rest2 = frozenset(x for x in out if x.a[0])
    fs = [conj(*x.a[1]) for x in plain]
    if rest2:
        fs.append(mk("exists", rest2))
    return disj(*fs)


def _rebuild_exists(alts: FrozenSet[T]) -> T:
    return exists([(x.a[0], x.a[1]) for x in alts])


def nonempty(c: T) -> T:
    if c.op == "dictv":
        c = dict_keys(c)
    c = coll_of(c)
    if c.a[2]:
        # elements may have been removed: not decidable from the parts alone
        if not c.a[1]:
            return FALSE
        return mk("truthy", mk("minus_nonempty", c))
    return exists([(p.a[1], p.a[2]) for p in c.a[1]])


def isin(x: T, c: T) -> T:
    if c.op == "dictv":
        return dict_has(c, x)
    if c.op == "dictof":
        src = dict_source(c.a[0])
        if src is not None:
            return isin(x, src)
        return mk("in", x, c)
    if c.op == "keysof":
        return isin(x, c.a[0])
    if c.op == "tuple":
        return disj(*[eq(x, e) for e in c.a[0]])
    if c.op != "coll":
        if c.op == "maybe" and c.a[1].op == "coll" and c.a[1].a[1]:
            return disj(mk("in", x, c), isin(x, c.a[1]))
        if x.op in ("elem", "pick") and x.a[0] is c:
            return TRUE
        if c.op == "ordered":
            return isin(x, c.a[1])
        if c.op == "ite":
            return disj(*[conj(g, isin(x, v)) for g, v in c.a[0]])
        return mk("in", x, c)
    if x.op == "pick" and x.a[0] is c:
        return TRUE
    if c.a[2]:
        base = isin(x, coll(c.a[0], c.a[1]))
        gone = isin(x, coll("set", c.a[2]))
        return conj(base, neg(gone)) if gone.op != "exists" else mk("in", x, c)
    alts = []
    for p in c.a[1]:
        clash = tuple(v for v in p.a[1] if contains(x, v))
        e, chain, guards = (fresh_part(p, clash) if clash else p).a
        q = eq(e, x)
        alts.append((chain, guards | (q.a[0] if q.op == "and" else {q})))
    return exists(alts)


# dictionaries:  dictv(base|None, entries)      put(k, v, chain, guards) / del(k, chain, guards)
#                app(k, x, chain, guards): x was added to the collection stored for k
def extended(v: T, k: T, scope: Tuple[T, ...], apps: Iterable[T]) -> T:
    """The collection stored for a key, with what was added to it afterwards."""

    c = coll_of(v)
    ps = list(c.a[1])
    avoid = tuple(scope) + tuple(x for x in subterms(k) if x.op == "elem")
    for e in apps:
        ka, x, chain, guards = e.a
        p = fresh_part(part(tup(x, ka), chain, guards), avoid)
        (x, ka), chain, guards = p.a[0].a[0], p.a[1], p.a[2]
        same = eq(ka, k)
        if same is FALSE:
            continue
        m: Dict[T, T] = {}
        if same is not TRUE and ka in chain and not contains(k, ka):
            m[ka] = k
            same = isin(k, ka.a[0])
        elif ka.op == "attr" and k.op == "attr" and ka.a[1] == k.a[1] == "namespace" and ka.a[0] in chain and \
                ka.a[0].op == "elem" and k.a[0].op == "elem" and ka.a[0].a[0] is k.a[0].a[0] is BACKENDS:
            # the backends have distinct namespaces
            m[ka.a[0]] = k.a[0]
            same = TRUE
        if m:
            x, guards = subst(x, m), subst(guards, m)
            chain = tuple(subst(w, m) for w in chain if w not in m)
        g = conj(same, *guards)
        if g is FALSE:
            continue
        gs = frozenset() if g is TRUE else g.a[0] if g.op == "and" else frozenset((g,))
        ps.append(part(x, chain, gs))
    return coll(c.a[0], ps, c.a[2])


def without_apps(d: T) -> Tuple[T, Tuple[T, ...]]:
    apps = tuple(e for e in d.a[1] if e.op == "app")
    return (mk("dictv", d.a[0], tuple(e for e in d.a[1] if e.op != "app")), apps) if apps else (d, apps)


def dictv(base: Optional[T], entries: Tuple[T, ...]) -> T:
    if base is not None and base.op == "dictv":
        return dictv(base.a[0], base.a[1] + tuple(entries))
    return mk("dictv", base, tuple(entries))


def dict_keys(d: T, kind: str = "keys") -> T:
    base, entries = d.a
    ps: List[T] = []
    dels = [e for e in entries if e.op == "del" and not e.a[1] and not e.a[2]]
    if base is not None:
        for p in coll_of(base).a[1]:
            g = p.a[2] | {ne(p.a[0], e.a[0]) for e in dels}
            if FALSE not in g:
                ps.append(part(p.a[0], p.a[1], frozenset(x for x in g if x is not TRUE)))
    for i, e in enumerate(entries):
        if e.op == "put":
            g = _kept(e, entries[i + 1:])
            if FALSE not in g:
                ps.append(part(e.a[0], e.a[2], g))
    return coll(kind, ps)


def distinct(k: T, v: T) -> bool:
    """Different elements of the collection that v ranges over have different keys k."""

    return k is v or k.op == "attr" and k.a[1] == "namespace" and k.a[0] is v and v.op == "elem" and v.a[0] is BACKENDS


def _kept(e: T, later: Iterable[T]) -> FrozenSet[T]:
    """The condition under which an entry is not deleted again."""

    return frozenset(x for x in e.a[3] | {ne(e.a[0], d.a[0]) for d in later if d.op == "del" and not d.a[1] and not d.a[2]}
                     if x is not TRUE)


def dict_items(d: T) -> List[Tuple[T, T, Tuple[T, ...], FrozenSet[T]]]:
    base, entries = d.a
    out: List[Tuple[T, T, Tuple[T, ...], FrozenSet[T]]] = []
    if base is not None:
        over = [e for e in entries if e.op != "app" and not e.a[-2] and not e.a[-1]]
        for p in coll_of(base).a[1]:
            g = frozenset(x for x in (p.a[2] | {ne(p.a[0], e.a[0]) for e in over}) if x is not TRUE)
            if FALSE not in g:
                out.append((p.a[0], item(base, p.a[0]), p.a[1], g))
    for i, e in enumerate(entries):
        if e.op == "put":
            v = e.a[1]
            apps = [x for x in entries[i + 1:] if x.op == "app"]
            if apps:
                v = extended(v, e.a[0], e.a[2], apps) if v.op == "coll" else mk("opaque", "entry", (d, e.a[0]))
            g = _kept(e, entries[i + 1:])
            loose = [x for x in e.a[2] if not determines(e.a[0], x)]
            lost = [x for x in loose if contains(v, x) and not any(
                f.op == "eq" and any(distinct(a, x) and not any(free(b, y) for y in loose) for a, b in (f.a, f.a[::-1])) for f in e.a[3])]
            if lost and FALSE not in g:
                # entries of other elements may have the same key: only one of them is left
                g = frozenset(g | {mk("truthy", mk("survives", e.a[0], v))})
            if FALSE not in g:
                out.append((e.a[0], v, e.a[2], g))
    return out


def determines(k: T, x: T) -> bool:
    """No two different x have the same k."""

    if distinct(k, x):
        return True
    if k.op in ("tuple", "str"):
        return any(isinstance(y, T) and determines(y, x) for y in k.a[0])
    if k.op in ("nt", "obj"):
        return any(isinstance(y, T) and determines(y, x) for _, y in k.a[1])
    if k.op in ("b64u", "b64"):
        return determines(k.a[0], x)
    if k.op == "ite":
        return all(determines(y, x) for _, y in k.a[0])
    ty = (typeof(k) or "").replace("Optional[", "").rstrip("]")
    return contains(k, x) and (k.op == "opaque" or ty in ("Session", "PlainKeyMaterial", "EncryptedKeyMaterial", "KeyExchange", "Content"))


def dict_lookup(d: T, k: T) -> Optional[T]:
    base, entries = d.a
    if any(e.op == "app" for e in entries):
        last = max([i for i, e in enumerate(entries) if e.op != "app" and eq(e.a[0], k) is not FALSE], default=-1)
        before = [e for e in entries[:last] if e.op == "app" and eq(e.a[0], k) is not FALSE] if last >= 0 else []
        if before and not (eq(entries[last].a[0], k) is TRUE and not entries[last].a[-2] and not entries[last].a[-1]):
            return None
        v = dict_lookup(without_apps(d)[0], k)
        if v is None or v.op != "coll":
            return None
        return extended(v, k, (), [e for e in entries[last + 1:] if e.op == "app"])
    for e in reversed(entries):
        same = eq(e.a[0], k)
        uncond = not e.a[-2] and not e.a[-1]
        if same is TRUE and uncond:
            return e.a[1] if e.op == "put" else None
        if same is FALSE:
            continue
        # ambiguous
        vals = {x.a[1] for x in entries if x.op == "put" and eq(x.a[0], k) is not FALSE}
        if base is None and len(vals) == 1 and all(x.op == "put" for x in entries):
            v, = vals
            if is_const(v) or v.op == "coll" and not v.a[1] and not v.a[2]:
                return v
        if e.op == "put" and e.a[2]:
            # {key(x): value(x) for x in ...}[k] : only when the key is the bound variable itself
            if len(entries) == 1 and base is None and e.a[0].op == "elem" and e.a[2] == (e.a[0],):
                return subst(e.a[1], {e.a[0]: k})
        return None
    if base is not None:
        return item(base, k)
    return None


def dict_has(d: T, k: T) -> T:
    base, entries = d.a
    f = FALSE if base is None else isin(k, base)
    for e in entries:
        if e.op == "put":
            f = disj(f, exists([(e.a[2], e.a[3] | {eq(e.a[0], k)})]))
        elif e.op == "del":
            f = conj(f, neg(exists([(e.a[1], e.a[2] | {eq(e.a[0], k)})])))
    return f


def dict_source(t: T) -> Optional[T]:
    """dict(frozenset(d.items())) is d."""

    if t.op == "dictv":
        return t
    if t.op == "coll" and not t.a[2]:
        entries = []
        base = None
        for p in t.a[1]:
            e, chain, guards = p.a
            if e.op != "tuple" or len(e.a[0]) != 2:
                return None
            k, v = e.a[0]
            if (not guards and chain == (k,) and k.op == "elem" and v is item(k.a[0], k)
                    and len(t.a[1]) == 1):
                base = k.a[0]
            else:
                entries.append(mk("put", k, v, chain, guards))
        return dictv(base, tuple(entries))
    return None


def dictof(t: T) -> T:
    src = dict_source(t)
    return src if src is not None else mk("dictof", t)


# ---------------------------------------------------------------------------------------------------------
_SMART: Dict[str, Callable[..., T]] = {
    "attr": attr, "item": item, "eq": eq, "le0": le0, "not": lambda t: neg(t if is_formula(t) else truthy(t)),
    "and": lambda s: conj(*s), "or": lambda s: disj(*s), "truthy": truthy, "in": isin,
    "exists": _rebuild_exists, "str": string, "dictof": dictof,
    "lin": lambda items, k: _relin(items, k), "orval": orval, "andval": andval, "ite": lambda alts: _reite(alts),
}


def _reite(alts: Tuple[Tuple[T, T], ...]) -> T:
    out = [(g, v) for g, v in alts if g is not FALSE]
    for g, v in out:
        if g is TRUE:
            return v
    if len(out) == 1 and len(alts) > 1:
        return out[0][1]
    return mk("ite", tuple(out))


def _relin(items: Tuple[Tuple[T, int], ...], k: int) -> T:
    acc = const(k)
    for t, c in items:
        acc = add(acc, scale(t, c))
    return acc


# ---------------------------------------------------------------------------------------------------------
# facts
# ---------------------------------------------------------------------------------------------------------
def _enum_cases(f: T) -> Optional[Tuple[T, str, str]]:
    if f.op == "eq" and f.a[0].op == "enum":
        return f.a[1], f.a[0].a[0], f.a[0].a[1]
    return None


_SIMP: Dict[Tuple[T, FrozenSet[T]], T] = {}


def simplify(f: T, facts: FrozenSet[T]) -> T:
    """Simplify a formula under a set of facts (unit propagation only)."""

    if f is TRUE or f is FALSE:
        return f
    k = (f, facts)
    r = _SIMP.get(k)
    if r is None:
        if len(_SIMP) > 400000:
            _SIMP.clear()
        r = _SIMP[k] = _simplify(f, facts)
    return r


def _simplify(f: T, facts: FrozenSet[T]) -> T:
    if f in facts:
        return TRUE
    if neg(f) in facts:
        return FALSE
    if f.op == "and":
        return conj(*[simplify(x, facts) for x in f.a[0]])
    if f.op == "or":
        r = disj(*[simplify(x, facts) for x in f.a[0]])
        if r.op == "or":
            for g in facts:
                if g.op == "or" and g.a[0] <= r.a[0]:
                    return TRUE
        return r
    if f.op == "not":
        return neg(simplify_atom(f.a[0], facts))
    return simplify_atom(f, facts)


def simplify_atom(f: T, facts: FrozenSet[T]) -> T:
    if f in facts:
        return TRUE
    if neg(f) in facts:
        return FALSE
    if f.op == "eq":
        a, b = f.a
        # a known constant value for one side
        for g in facts:
            if g.op == "eq":
                for x, y in ((g.a[0], g.a[1]), (g.a[1], g.a[0])):
                    if y is b and x is not a and x.op in ("const", "enum") and a.op in ("const", "enum"):
                        return eq(a, x)
        if a is NONE:
            for g in facts:
                if g.op == "eq" and b in g.a:
                    o = g.a[1] if g.a[0] is b else g.a[0]
                    if o is not NONE and is_non_none(o):
                        return FALSE
                if g.op == "truthy" and g.a[0] is b:
                    return FALSE
                if g.op == "isinstance" and g.a[0] is b:
                    return FALSE
        ec = _enum_cases(f)
        if ec is not None and ec[1] in _ENUMS:
            t, cls, m = ec
            excluded = {g.a[0].a[0].a[1] for g in facts if g.op == "not" and g.a[0].op == "eq"
                        and g.a[0].a[0].op == "enum" and g.a[0].a[1] is t}
            left = [x for x in _ENUMS[cls] if x not in excluded]
            if left == [m]:
                return TRUE
            if m in excluded:
                return FALSE
    if f.op == "truthy":
        for g in facts:
            if g.op == "eq" and f.a[0] in g.a:
                o = g.a[1] if g.a[0] is f.a[0] else g.a[0]
                if o.op in ("const", "enum"):
                    return truthy(o)
    if f.op == "le0":
        d, k = to_lin(f.a[0])
        for g in facts:
            if g.op == "le0":
                d2, k2 = to_lin(g.a[0])
                if d2 == d and k2 >= k:
                    return TRUE
                if {t: -c for t, c in d2.items()} == d and -k2 < k:
                    return FALSE
            if g.op == "eq" and is_const(g.a[0]) and isinstance(cval(g.a[0]), int) and d == {g.a[1]: 1}:
                return const(cval(g.a[0]) + k <= 0)
    if f.op == "in":
        x, c = f.a
        for g in facts:
            if g.op == "eq" and x in g.a:
                y = g.a[1] if g.a[0] is x else g.a[0]
                h = isin(y, c)
                if h is TRUE or h is FALSE:
                    return h
                if h in facts:
                    return TRUE
                if neg(h) in facts:
                    return FALSE
    if f.op == "exists":
        r = FALSE
        rest = []
        for x in f.a[0]:
            g2 = frozenset(simplify(y, facts) for y in x.a[1])
            if x.a[1] and g2 <= {TRUE} and all(any(contains(y, v) for y in x.a[1]) for v in x.a[0]):
                return TRUE  # the element in scope is a witness
            if x.a[1] and len(x.a[0]) == 1 and x.a[0][0].op == "elem":
                v = x.a[0][0]
                for w in _picks(facts):
                    if w.a[0] is v.a[0] and all(simplify(subst(y, {v: w}), facts) is TRUE for y in x.a[1]):
                        return TRUE  # a chosen element is a witness
            rest.append((x.a[0], g2))
        r = exists(rest)
        return r if r is not f else f
    return f


@functools.lru_cache(maxsize=200000)
def _picks(facts: FrozenSet[T]) -> Tuple[T, ...]:
    return tuple(sorted({t for f in facts if f.op != "not" or f.a[0].op != "exists" for t in collect(f, "pick")}))


def assume(f: T, facts: FrozenSet[T]) -> Optional[FrozenSet[T]]:
    """Add a fact; None when it contradicts what is known."""

    if not is_formula(f):
        f = truthy(f)
    work = [f]
    fs = facts
    while work:
        g = simplify(work.pop(), fs)
        if g is FALSE:
            return None
        if g is TRUE:
            continue
        if g.op == "and":
            work.extend(g.a[0])
            continue
        fs = fs | {g}
        # unit propagation into known disjunctions / negated existentials
        chosen = {w.a[0] for w in collect(g, "pick")} if g.op in ("not", "isinstance") else None
        for h in list(fs):
            if chosen and h.op == "not" and h.a[0].op == "exists" and h is not g:
                if any(len(x.a[0]) == 1 and x.a[0][0].a[0] in chosen for x in h.a[0].a[0]) and simplify(h.a[0], fs - {h}) is TRUE:
                    return None
                continue
            if h.op == "or":
                s = simplify(h, fs - {h})
                if s is FALSE:
                    return None
                if s is not h and s is not TRUE:
                    fs = fs - {h}
                    work.append(s)
            elif g.op == "eq" and h is not g:
                b = h.a[0] if h.op == "not" else h
                if b.op == "in" and b.a[0] in g.a and simplify(h, fs - {h}) is FALSE:
                    return None
    return fs


def _instances(bound: Tuple[T, ...], chain: Tuple[T, ...], scope: Any) -> List[Dict[T, T]]:
    """The ways of reading bound variables as variables in scope that range over the same collections."""

    if set(bound) <= scope:
        return [{}]
    out: List[Dict[T, T]] = [{}]
    for v in bound:
        new = []
        for m in out:
            src = subst(v.a[0], m) if m else v.a[0]
            new += [{**m, v: w} for w in chain if w.op == "elem" and w.a[0] is src]
        out = new
        if not out or len(out) > 4:
            return []
    return out


def instantiate(facts: FrozenSet[T], chain: Tuple[T, ...], depth: int = 2, strict: bool = False) -> FrozenSet[T]:
    """
    Universal facts (negated existentials) instantiated at the bound variables in scope: from
    ``not exists x in S: g1(x) and g2(x)`` with g1 known for the current element, derive ``not g2``.
    """

    fs = facts
    scope = set(chain)
    for _ in range(depth):
        new = []
        for g in fs:
            if g.op == "not" and g.a[0].op == "exists":
                for x in g.a[0].a[0]:
                    for inst in _instances(x.a[0], chain, scope):
                        body = x.a[1] if not inst else subst(x.a[1], inst)
                        rest = [y for y in body if simplify(y, fs) is not TRUE]
                        if len(rest) == 1:
                            new.append(neg(rest[0]))
                        elif rest:
                            new.append(disj(*[neg(y) for y in rest]))
                        elif strict:
                            return fs | {FALSE}
        before = fs
        for n in new:
            r = assume(n, fs)
            if r is not None:
                fs = r
            elif strict:
                return fs | {FALSE}
        if fs == before:
            break
    return fs


def entails(facts: FrozenSet[T], f: T) -> bool:
    if FALSE in facts:
        return True
    if not is_formula(f):
        f = truthy(f)
    r = simplify(f, facts)
    if r is TRUE:
        return True
    if r.op == "and":
        return all(entails(facts, x) for x in r.a[0])
    # refutation by assuming the negation
    return assume(neg(f), facts) is None


# ---------------------------------------------------------------------------------------------------------
# printing
# ---------------------------------------------------------------------------------------------------------
def show(t: Any, depth: int = 6) -> str:
    if isinstance(t, (list, tuple)):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if isinstance(t, frozenset):
        return "{" + ", ".join(sorted(show(x, depth) for x in t)) + "}"
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.a
    if o == "const":
        return repr(a[1])
    if o == "enum":
        return f"{a[0]}.{a[1]}"
    if o == "role":
        return f"${a[0]}"
    if o == "param":
        return f"{a[1]}"
    if o == "self":
        return "self"
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "item":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "tuple":
        return "(" + ", ".join(show(x, d) for x in a[0]) + ")"
    if o == "nt":
        return f"{a[0]}(" + ", ".join(f"{k}={show(v, d)}" for k, v in a[1]) + ")"
    if o == "str":
        return "f'" + "".join(x if isinstance(x, str) else "{" + show(x, d) + "}" for x in a[0]) + "'"
    if o == "elem":
        return f"∈{show(a[0], d)}" + ("'" * a[1])
    if o == "ev":
        return f"{a[1]}({', '.join(show(x, d) for x in a[3])})@{a[0]}"
    if o == "part":
        g = f" | {show(a[2], d)}" if a[2] else ""
        c = f" for {', '.join(show(x, d) for x in a[1])}" if a[1] else ""
        return f"{show(a[0], d)}{c}{g}"
    if o == "coll":
        m = f" minus {show(a[2], d)}" if a[2] else ""
        return f"{a[0]}{{" + "; ".join(show(x, d) for x in a[1]) + "}" + m
    if o == "eq":
        return f"{show(a[0], d)}=={show(a[1], d)}"
    if o == "not":
        return f"¬({show(a[0], d)})"
    if o == "and":
        return "(" + " ∧ ".join(sorted(show(x, d) for x in a[0])) + ")"
    if o == "or":
        return "(" + " ∨ ".join(sorted(show(x, d) for x in a[0])) + ")"
    if o == "in":
        return f"{show(a[0], d)} in {show(a[1], d)}"
    if o == "le0":
        return f"{show(a[0], d)} ≤ 0"
    if o == "lin":
        return "+".join(f"{c}·{show(x, d)}" for x, c in a[0]) + f"+{a[1]}"
    if o == "exists":
        return "∃" + show(a[0], d)
    if o == "ex":
        return f"[{', '.join(show(x, d) for x in a[0])}: {show(a[1], d)}]"
    return f"{o}(" + ", ".join(show(x, d) for x in a) + ")"
