"""Queries over analysed paths: quantified effect occurrences, order, coverage, storage-key schema."""

from __future__ import annotations

import copy
import re
from typing import Any, Callable, Dict, FrozenSet, Iterable, List, Optional, Set, Tuple

from . import terms
from .interp import BodyPath, Cell, Enter, Ev, LoopNode, Out, Result
from .terms import FALSE, NONE, T, TRUE, assume, conj, contains, cval, disj, eq, is_const, mk, neg, simplify


class Item:
    """An effect on a path: executed for every binding of ``chain`` that satisfies ``guards`` (``some``: for one
    particular, final iteration)."""

    __slots__ = ("ev", "chain", "guards", "pos", "cell", "loops", "some")

    def __init__(self, ev: Ev, chain: Tuple[T, ...], guards: FrozenSet[T], pos: Tuple[int, ...], cell: Cell,
                 loops: Tuple[LoopNode, ...], some: bool) -> None:
        self.ev, self.chain, self.guards, self.pos = ev, chain, guards, pos
        self.cell, self.loops, self.some = cell, loops, some

    def __repr__(self) -> str:
        return f"{self.ev!r}@{self.pos}"

    @property
    def name(self) -> str:
        return self.ev.name

    def arg(self, n: str) -> T:
        return self.ev.args.get(n, mk("missing", n))


def items_of(out: Out) -> List[Item]:
    """All effects of a path, in program order."""

    res: List[Item] = []

    def go(cell: Optional[Cell], stop: Optional[Cell], chain: Tuple[T, ...], guards: FrozenSet[T],
           pos: Tuple[int, ...], loops: Tuple[LoopNode, ...], some: bool) -> None:
        cells: List[Cell] = []
        c = cell
        while c is not None and c is not stop:
            cells.append(c)
            c = c.prev
        cells.reverse()
        ch, sm = chain, some
        for i, c in enumerate(cells):
            n = c.node
            if isinstance(n, Ev):
                res.append(Item(n, ch, guards, pos + (i,), c, loops, sm))
            elif isinstance(n, LoopNode):
                for j, b in enumerate(n.paths):
                    left = frozenset([mk("earlier", n.uid, *b.chain)]) if n.partial else frozenset()
                    go(b.cell, b.enter, ch + b.chain, guards | b.guards | left, pos + (i, -1, j), loops + (n,), sm)
            elif isinstance(n, Enter):
                ch = ch + n.chain
                sm = True
    go(out.st.trace, None, (), frozenset(), (), (), False)
    return [_one_backend(i) if len(i.chain) > 1 else i for i in res]


def _one_backend(i: Item) -> Item:
    """Backends have distinct namespaces: loop variables for backends with the same namespace are the same."""

    m: Dict[T, T] = {}
    for g in i.guards:
        if g.op == "eq" and all(x.op == "attr" and x.a[1] == "namespace" and x.a[0].op == "elem" and x.a[0].a[0] is terms.BACKENDS for x in g.a):
            x, y = sorted((x.a[0] for x in g.a), key=lambda t: t.a[1])
            if x is not y:
                m[y] = m.get(x, x)
    if not m:
        return i

    def sub(t: Any) -> Any:
        return terms.subst(t, m)

    ev = copy.copy(i.ev)
    ev.recv, ev.term, ev.facts = sub(ev.recv), sub(ev.term), sub(ev.facts)
    ev.args = {k: sub(v) for k, v in ev.args.items()}
    chain = tuple(dict.fromkeys(sub(v) for v in i.chain))
    return Item(ev, chain, frozenset(g for g in sub(i.guards) if g is not TRUE), i.pos, i.cell, i.loops, i.some)


def all_items(r: Result) -> List[Item]:
    """Every effect occurrence of an entry point, once."""

    seen: Set[int] = set()
    res = []
    for o in r.outs:
        for it in items_of(o):
            if id(it.cell) not in seen:
                seen.add(id(it.cell))
                res.append(it)
    return res


def before(a: Item, b: Item) -> Optional[bool]:
    """Whether a comes before b on the same path; None when they are in alternative loop paths."""

    for i, (x, y) in enumerate(zip(a.pos, b.pos)):
        if x != y:
            if i > 0 and a.pos[i - 1] == -1:
                return None
            return x < y
    return len(a.pos) < len(b.pos)


def certain_before(a: Item, b: Item) -> bool:
    """a is executed before b whenever b is: a lies on b's own prefix, outside loops b is not in."""

    if before(a, b) is not True:
        return False
    return len(a.loops) <= len(b.loops) and all(x is y for x, y in zip(a.loops, b.loops)) and same_path(a, b)


def same_path(a: Item, b: Item) -> bool:
    n = 0
    for i, x in enumerate(a.pos[:-1]):
        if i >= len(b.pos) or b.pos[i] != x:
            return False
        n += 1
    return True


# ---------------------------------------------------------------------------------------------------------
# deciding formulas
# ---------------------------------------------------------------------------------------------------------
def entails(facts: FrozenSet[T], f: T, budget: int = 400) -> bool:
    """Sound, incomplete: unit propagation with case splits, clauses connected to the goal first, within a budget."""

    if terms.entails(facts, f):
        return True
    if f.op == "and":
        return all(entails(facts, x, budget) for x in f.a[0])
    g = neg(f)
    fs = assume(g, facts)
    if fs is None:
        return True
    if not any(x.op == "or" for x in fs):
        return False
    return _unsat(fs, _distances(fs, g), [budget])


def _atoms(f: T) -> FrozenSet[T]:
    r = _ATOMS.get(f)
    if r is None:
        if f.op in ("and", "or"):
            r = frozenset().union(*[_atoms(x) for x in f.a[0]])
        elif f.op == "not":
            r = _atoms(f.a[0])
        else:
            r = frozenset((f,))
        _ATOMS[f] = r
    return r


_ATOMS: Dict[T, FrozenSet[T]] = {}


def _distances(fs: FrozenSet[T], goal: T) -> Dict[T, int]:
    """How far the atoms of the clauses are from those of the goal."""

    dist = {x: 0 for x in _atoms(goal)}
    todo = [_atoms(g) for g in fs if g.op == "or"]
    d = 0
    while todo:
        d += 1
        near = [c for c in todo if any(x in dist for x in c)]
        if not near:
            break
        todo = [c for c in todo if c not in near]
        for c in near:
            for x in c:
                dist.setdefault(x, d)
    return dist


def _unsat(fs: FrozenSet[T], dist: Dict[T, int], budget: List[int]) -> bool:
    cl = [g for g in fs if g.op == "or"]
    if not cl or budget[0] <= 0:
        return False
    g = min(cl, key=lambda c: (min(dist.get(x, 99) for x in _atoms(c)), len(c.a[0]), c.n))
    for x in sorted(g.a[0]):
        budget[0] -= 1
        s = assume(x, fs - {g})
        if s is not None and not _unsat(s, dist, budget):
            return False
    return True


def consistent(facts: FrozenSet[T], f: T) -> bool:
    return assume(f, facts) is not None


# ---------------------------------------------------------------------------------------------------------
# storage keys
# ---------------------------------------------------------------------------------------------------------
KEYS = {
    "list": "/devices/{jid}/list",
    "active": "/devices/{jid}/{id}/active",
    "namespaces": "/devices/{jid}/{id}/namespaces",
    "label": "/devices/{jid}/{id}/label",
    "identity_key": "/devices/{jid}/{id}/identity_key",
    "trust": "/trust/{jid}/{ik}",
    "own_device_id": "/own_device_id",
    "ikp_is_seed": "/ikp/is_seed",
    "ikp_key": "/ikp/key",
    "queue": "/queue/{ns}",
    "queue_jid": "/queue/{ns}/{jid}",
}


def _template(t: str) -> List[Any]:
    out: List[Any] = []
    for p in re.split(r"(\{\w+\})", t):
        if p:
            out.append(("var", p[1:-1]) if p.startswith("{") else p)
    return out


_TEMPLATES = {k: _template(v) for k, v in KEYS.items()}


def key_class(key: T) -> Tuple[Optional[str], Dict[str, T]]:
    """Which schema entry a storage key belongs to, with its components."""

    if is_const(key) and isinstance(cval(key), str):
        parts: List[Any] = [cval(key)]
    elif key.op == "str":
        parts = list(key.a[0])
    else:
        return None, {}
    for name, tmpl in _TEMPLATES.items():
        if len(tmpl) != len(parts):
            continue
        m: Dict[str, T] = {}
        for a, b in zip(tmpl, parts):
            if isinstance(a, tuple):
                if isinstance(b, str):
                    break
                m[a[1]] = b
            elif a != b:
                break
        else:
            return name, m
    return None, {}


def load_of(t: T) -> Tuple[Optional[str], Dict[str, T], Optional[T]]:
    """If t is the value of a storage load: (schema entry, components, load event)."""

    if t.op in ("just", "maybe") and t.a[0].op == "ev" and t.a[0].a[1].startswith("load") and t.a[0].a[3]:
        k, m = key_class(t.a[0].a[3][0])
        return k, m, t.a[0]
    return None, {}, None


def ev_args(t: T, params: Iterable[str]) -> Dict[str, T]:
    return dict(zip(params, t.a[3]))


def key_literal(key: T) -> str:
    if is_const(key):
        return str(cval(key))
    if key.op == "str":
        return "".join(p if isinstance(p, str) else "{}" for p in key.a[0])
    return terms.show(key, 3)
