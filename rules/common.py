"""Vocabulary shared by the rules: devices, identity keys, sessions and bundles as provenance terms."""

from __future__ import annotations

from typing import Any, Callable, Dict, FrozenSet, Iterable, List, Optional, Sequence, Set, Tuple

from osa import terms
from osa.interp import Enter, Ev, LoopNode, Out, Result
from osa.model import BACKENDS, IKP, OWN_ID, OWN_JID, STORAGE, SYNC, THRESHOLD, UNDECIDED, Model
from osa.obligations import HELD, Check, site
from osa.query import (Item, all_items, before, certain_before, consistent, entails, items_of, key_class, key_literal,
                       load_of, same_path)
from osa.terms import (coll, part, add, le, lt, FALSE, NONE, T, TRUE, assume, attr, conj, const, contains, coll_of, cval, dict_items, disj, elem,
                       enum, eq, exists, has_unknown, is_const, isin, item, mk, ne, neg, nonempty, show, unmodelled,
                       simplify, subterms, truthy)

TRUSTED, DISTRUSTED, UNDEC = (enum("TrustLevel", x) for x in ("TRUSTED", "DISTRUSTED", "UNDECIDED"))
ACTIVE, PASSIVE = enum("Initiation", "ACTIVE"), enum("Initiation", "PASSIVE")
B = elem(BACKENDS)


def instantiate(facts, chain):
    """Universal facts specialised to the loop variables; FALSE among the result when they contradict."""

    return terms.instantiate(frozenset(facts), tuple(chain), strict=True)


def P(fn: str, name: str) -> T:
    return terms.param(fn if "." in fn else "SessionManager." + fn, name)


def exc(o: Out) -> str:
    return o.exc.cls if o.exc is not None else ""


def leaves(t: T) -> List[T]:
    """All values a conditional value can take."""

    if t.op == "ite":
        out: List[T] = []
        for _, v in t.a[0]:
            out += leaves(v)
        return out
    return [t]


def is_ev(t: Any, *names: str) -> bool:
    return isinstance(t, T) and t.op == "ev" and t.a[1] in names


def args_of(c: Check, t: T, cls: str) -> Dict[str, T]:
    f = c.m.p.method(cls, t.a[1])
    if f is None:
        return {}
    return dict(zip([n for n in f.param_names() if n not in ("self", "cls")], t.a[3]))


def named(items: Sequence[Item], *names: str, ok: Optional[bool] = None) -> List[Item]:
    return [i for i in items if i.name in names and (ok is None or (i.ev.failed is None) == ok)]


def stores(items: Sequence[Item], cls: str) -> List[Item]:
    return [i for i in items if i.name in ("store", "store_bytes") and i.ev.kind == "storage"
            and key_class(i.arg("key"))[0] == cls]


def deletes(items: Sequence[Item], cls: Optional[str] = None) -> List[Item]:
    return [i for i in items if i.name == "delete" and i.ev.kind == "storage"
            and (cls is None or key_class(i.arg("key"))[0] == cls)]


def is_identity_key(ik: T, jid: T, dev: T) -> bool:
    """ik is the identity key recorded (or being recorded) for the device jid/dev."""

    for v in leaves(ik):
        k, m, _ = load_of(v)
        if k == "identity_key" and m["jid"] is jid and m["id"] is dev:
            continue
        if v.op == "attr" and v.a[1] == "identity_key" and is_ev(v.a[0], "_download_bundle") \
                and v.a[0].a[3][1] is jid and v.a[0].a[3][2] is dev:
            continue
        return False
    return True


def session_origin(s: T) -> Optional[Tuple[str, T, T, T]]:
    """(how, backend, jid, device id) of a session value."""

    if is_ev(s, "load_session"):
        return "load", s.a[2], s.a[3][0], s.a[3][1]
    if s.op == "item" and is_const(s.a[1]) and cval(s.a[1]) == 0 and is_ev(s.a[0], "build_session_active",
                                                                          "build_session_passive"):
        e = s.a[0]
        return ("active" if e.a[1] == "build_session_active" else "passive"), e.a[2], e.a[3][0], e.a[3][1]
    return None


def session_of_use(i: Item) -> T:
    """The session whose ratchet a key-material operation advances."""

    if i.name in ("build_session_active", "build_session_passive"):
        return item(i.ev.term, const(0))
    return i.arg("session")


def device_of_use(i: Item) -> Tuple[Optional[T], Optional[T]]:
    if i.name in ("build_session_active", "build_session_passive"):
        return i.arg("bare_jid"), i.arg("device_id")
    o = session_origin(i.arg("session"))
    return (o[2], o[3]) if o else (None, None)


def trust_terms(fs: Iterable[T]) -> List[T]:
    out: Set[T] = set()
    for f in fs:
        for t in subterms(f):
            if t.op == "trust":
                out.add(t)
    return sorted(out)


def level_load(level: T, jid: T, ik: T) -> Optional[T]:
    """The trust level is what is stored for (jid, ik), or the configured undecided level: the load event."""

    if level.op == "maybe" and level.a[1] is UNDECIDED and is_ev(level.a[0], "load_primitive"):
        k, m = key_class(level.a[0].a[3][0])
        if k == "trust" and m["jid"] is jid and m["ik"].op == "b64u" and m["ik"].a[0] is ik:
            return level.a[0]
    return None


def level_loads(level: T, jid: T, ik: T) -> Optional[List[T]]:
    """As level_load, for a level chosen along with the identity key (both conditional on the same tests)."""

    one = level_load(level, jid, ik)
    if one is not None:
        return [one]
    ls, iks = leaves(level), leaves(ik)
    out = []
    for v in ls:
        hit = next((h for h in (level_load(v, jid, k) for k in iks) if h is not None), None)
        if hit is None:
            return None
        out.append(hit)
    if level.op == "ite" and ik.op == "ite":
        # same guard must select the same key
        gk = {v: g for g, v in ik.a[0]}
        for g, v in level.a[0]:
            k = next((x for x in gk if level_load(v, jid, x) is not None), None)
            if k is None or not entails(frozenset({g}), gk[k]):
                return None
    return out


def items_by_term(items: Sequence[Item]) -> Dict[T, List[Item]]:
    d: Dict[T, List[Item]] = {}
    for i in items:
        d.setdefault(i.ev.term, []).append(i)
    return d


def at(out_facts: FrozenSet[T], i: Item) -> FrozenSet[T]:
    """Everything known about a binding of a loop item: its guards, the facts at the effect, and the path's final
    facts instantiated for its loop variables."""

    return instantiate(frozenset(i.ev.facts | i.guards | out_facts), i.chain)


def covered(i: Item, js: Sequence[Item], facts: FrozenSet[T]) -> Optional[Item]:
    """An item among js that runs whenever i does (for the same loop bindings)."""

    for j in js:
        if set(j.chain) <= set(i.chain) and not j.some and entails(facts, conj(*j.guards)):
            return j
    return None


def covered_by_cases(i: Item, js: Sequence[Item], facts: FrozenSet[T]) -> bool:
    """Together, the items in js run whenever i does."""

    if covered(i, js, facts) is not None:
        return True
    js = [j for j in js if set(j.chain) <= set(i.chain) and not j.some]
    return bool(js) and entails(facts, disj(*[conj(*j.guards) for j in js]))


def path_facts(o: Out) -> FrozenSet[T]:
    """What is known at the end of a path. Elements of iterations that left a loop early are particular ones: they are renamed, since
    rules use the element for any."""

    last: Set[T] = set()
    c = o.st.trace
    while c is not None:
        if isinstance(c.node, Enter):
            last |= {v for v in c.node.chain if v.op == "elem"}
        c = c.prev
    if not last:
        return o.st.facts
    m = {v: mk("final", v.a[0]) for v in last}
    out: FrozenSet[T] = frozenset()
    for f in sorted(terms.subst(f, m) for f in o.st.facts):
        out = terms.assume(f, out) or out
    return out


def ret(r: Result, o: Out) -> T:
    return r.interp.fz(o.st, o.val) if o.val is not None else NONE


def forwarded(o: Out) -> bool:
    """The path ends with the failure of a hook, backend or storage operation, passed on as it is."""

    v = o.exc.val if o.exc is not None else None
    return isinstance(v, T) and v.op == "excobj" and any(k == "<from>" for k, _ in v.a[1])


# ---------------------------------------------------------------------------------------------- completeness
def key(cls: str, **m: T) -> T:
    """The storage key of a schema entry."""

    from osa.query import KEYS, _TEMPLATES
    return terms.string([m[p[1]] if isinstance(p, tuple) else p for p in _TEMPLATES[cls]])


def unify(p: T, t: T, chain: Tuple[T, ...], bind: Dict[T, T], conds: List[T]) -> None:
    """Match an argument of a loop item against a wanted term: loop variables are bound, everything else has to be
    equal (which becomes a condition to prove)."""

    p = terms.subst(p, bind) if bind else p
    if p is t:
        return
    free = [v for v in chain if v not in bind]
    if p in free:
        bind[p] = t
        conds.append(terms.isin(t, p.a[0]) if p.op == "elem" else TRUE)
        return
    if any(contains(p, v) for v in free) and p.op == t.op and len(p.a) == len(t.a):
        if p.op == "str":
            if len(p.a[0]) == len(t.a[0]) and all(isinstance(x, str) == isinstance(y, str) and (not isinstance(x, str) or x == y)
                                                  for x, y in zip(p.a[0], t.a[0])):
                for x, y in zip(p.a[0], t.a[0]):
                    if not isinstance(x, str):
                        unify(x, y, chain, bind, conds)
                return
        elif p.op == "attr" and p.a[1] == t.a[1]:
            return unify(p.a[0], t.a[0], chain, bind, conds)
        elif p.op == "item" and p.a[1] is t.a[1]:
            return unify(p.a[0], t.a[0], chain, bind, conds)
        elif p.op in ("just", "b64u"):
            return unify(p.a[0], t.a[0], chain, bind, conds)
        elif p.op == "maybe":
            unify(p.a[0], t.a[0], chain, bind, conds)
            return unify(p.a[1], t.a[1], chain, bind, conds)
        elif p.op == "ev" and p.a[1] == t.a[1] and len(p.a[3]) == len(t.a[3]):
            b2, c2 = dict(bind), []
            for x, y in zip(p.a[3], t.a[3]):
                unify(x, y, chain, b2, c2)
            if p.a[2] is not t.a[2]:
                unify(p.a[2], t.a[2], chain, b2, c2)
            bind.update(b2)
            conds.extend(c2)
            conds.append(eq(terms.subst(p, bind), t))
            return
    conds.append(eq(p, t))


STORED = ("namespaces", "active", "label")


def stored_ok(fs: Iterable[T]) -> List[T]:
    """The information recorded for a listed device is complete: its loads yield values."""

    out = []
    for f in fs:
        for t in subterms(f):
            if t.op == "isjust" and t.a[0].op == "ev" and t.a[0].a[3] and key_class(t.a[0].a[3][0])[0] in STORED:
                out.append(t)
    return out


def resolve(ts: Iterable[T], fs: FrozenSet[T]) -> Dict[T, T]:
    """Dictionary lookups that are settled by the facts about their keys."""

    out: Dict[T, T] = {}
    for f in ts:
        for t in subterms(f):
            if t.op == "item" and t.a[0].op == "dictv" and t not in out:
                base, puts = t.a[0].a
                while puts:
                    e = puts[-1]
                    if e.op != "put" or e.a[2] or e.a[3]:
                        break
                    if e.a[0] is t.a[1] or entails(fs, eq(e.a[0], t.a[1])):
                        out[t] = e.a[1]
                        break
                    if not entails(fs, ne(e.a[0], t.a[1])):
                        break
                    puts = puts[:-1]
                else:
                    if base is not None:
                        out[t] = item(base, t.a[1])
    return out


def resolved(fs: Iterable[T], more: Iterable[T] = ()) -> FrozenSet[T]:
    fs = frozenset(fs)
    m = resolve(tuple(fs) + tuple(more), fs)
    if not m:
        return fs
    out: FrozenSet[T] = frozenset()
    for f in sorted(terms.subst(f, m) for f in fs):
        r = terms.assume(f, out)
        if r is None:
            return fs | {FALSE}
        out = r
    return out


def occurrence(i: Item, want: Dict[str, T], scope: Iterable[T] = ()) -> Optional[T]:
    """The condition under which item i is executed with the wanted arguments."""

    bind: Dict[T, T] = {}
    conds: List[T] = []
    chain = tuple(v for v in i.chain if v not in set(scope) and not any(contains(t, v) for t in want.values()))
    for k, t in want.items():
        p = i.ev.recv if k == "recv" else i.arg(k)
        unify(p, t, chain, bind, conds)
    if i.some:
        return None
    gs = [terms.subst(g, bind) if bind else g for g in i.guards]
    f = conj(*conds, *gs)
    if any(contains(f, v) for v in chain if v not in bind and v not in set(bind.values())):
        # some element of a further loop: holds if such an element exists
        free = tuple(v for v in chain if v not in bind and contains(f, v))
        return exists([(tuple(terms.subst(v, bind) for v in free), f.a[0] if f.op == "and" else frozenset({f}))])
    return f


def covers(facts: Iterable[T], cond: T, js: Sequence[Item], want: Any, scope: Iterable[T] = ()) -> bool:
    """Whenever cond holds, one of the items is executed with the wanted arguments (which may depend on the item)."""

    fs = terms.assume(cond, frozenset(facts))
    if fs is None:
        return True
    every = always(js, want, scope)
    if every and entails(fs, disj(*every)):
        return True
    occ = [o for o in (occurrence(j, want(j) if callable(want) else want, scope) for j in js) if o is not None]
    occ += [o for o in every if o not in occ]
    for t in stored_ok(occ):
        if fs is not None:
            fs = terms.assume(t, fs)
    if fs is None:
        return True
    m = resolve(tuple(occ) + tuple(fs), fs)
    if m:
        fs = resolved(fs)
        occ = [terms.subst(o, m) for o in occ]
    goal = disj(*occ)
    if entails(fs, goal):
        return True
    d = key_class(want["key"])[1].get("id") if not callable(want) and "key" in want else None
    if d is None or d.op != "elem":
        return False
    for case in (eq(d, OWN_ID), ne(d, OWN_ID)):
        given_ = given(fs, neg(goal), case)
        if FALSE not in given_ and not entails(given_, FALSE) and not entails(congruent(given_), FALSE):
            return False
    return True


def always(js: Sequence[Item], want: Any, scope: Iterable[T]) -> List[T]:
    """The conditions under which an item is executed in an iteration, whichever of many paths through the body of the loop is taken."""

    loops: Dict[Any, Tuple[Any, Dict[int, List[Item]]]] = {}
    for j in js:
        if j.loops and not j.loops[0].partial and not j.some:
            n = j.loops[0]
            loops.setdefault((id(n), n.paths[j.pos[2]].chain), (n, {}))[1].setdefault(j.pos[2], []).append(j)
    out = []
    for (_, chain), (n, by) in loops.items():
        paths = [p for p in n.paths if p.chain == chain]
        rest = [p for k, p in enumerate(n.paths) if p.chain == chain and k not in by]
        if len(by) < 2 or len(rest) > 4:
            continue
        shared = frozenset.intersection(*[frozenset(p.guards) for p in paths])
        # (whenever none of the other paths is taken)
        taken = shared | {neg(conj(*(p.guards - shared))) for p in rest}
        alts = []
        for i, es in sorted(by.items()):
            conds = []
            for j in es:
                free = Item(j.ev, j.chain, (j.guards - n.paths[i].guards) | taken, j.pos, j.cell, j.loops, j.some)
                conds.append(occurrence(free, want(j) if callable(want) else want, scope))
            alts.append(disj(*[x for x in conds if x is not None]))
        out.append(conj(*alts))
    return out


def cover(c: Check, facts: Iterable[T], cond: T, js: Sequence[Item], want: Dict[str, T], what: str, st: str, r: Result,
          scope: Iterable[T] = ()) -> bool:
    facts = frozenset(facts)
    ok = covers(facts, cond, js, want, scope)
    return c.decide(ok, what, st, f"not on every such path (when {terms.show(cond, 4)})",
                    () if ok else tuple(facts) + (cond,) + tuple(g for j in js for g in j.guards), r)


def recorded(items: Sequence[Item], cls: str, **m: T) -> List[T]:
    """The values a path loads for a schema entry (its Just value, or that with a default)."""

    out = set()
    loads = {i.ev.term for i in items if i.name.startswith("load") and i.ev.kind == "storage"
             and key_class(i.arg("key"))[0] == cls and all(key_class(i.arg("key"))[1].get(k) is v for k, v in m.items())}
    for i in items:
        for t in [i.ev.recv, *i.ev.args.values(), *i.guards, *i.chain, *i.ev.facts]:
            for s in terms.collect(t, "maybe", "just"):
                if s.a[0] in loads:
                    out.add(s)
    return sorted(out)


def storage_writes(items: Sequence[Item]) -> List[Item]:
    return [i for i in items if i.ev.kind == "storage" and i.name in ("store", "store_bytes", "delete")]


def network(items: Sequence[Item]) -> List[Item]:
    return named(items, "_upload_bundle", "_delete_bundle", "_upload_device_list", "_send_message")


def normal(o: Out) -> bool:
    return o.sig in ("return", "next")


def last_site(items: Sequence[Item], default: str) -> str:
    return site(items[-1]) if items else default


def once(c: Check, items: Sequence[Item]) -> List[Item]:
    """Items not judged before by this check (shared prefixes of paths)."""

    seen = c.__dict__.setdefault("_once", set())
    out = []
    for i in items:
        if (id(i.cell), c.rule) not in seen:
            seen.add((id(i.cell), c.rule))
            out.append(i)
    return out


def given(facts: Iterable[T], *hyps: T) -> FrozenSet[T]:
    """The facts with hypotheses added; {FALSE} when that's contradictory."""

    fs: Optional[FrozenSet[T]] = frozenset(facts)
    for h in hyps:
        fs = terms.assume(h, fs) if fs is not None else None
    return frozenset({FALSE}) if fs is None else fs


def proves(facts: Iterable[T], goal: T, *at: T) -> bool:
    """As entails, with the loop variables as candidate witnesses of existential goals."""

    fs = given(facts, neg(goal))
    if FALSE not in fs:
        fs = instantiate(fs, at)
    return FALSE in fs or entails(fs, FALSE) or entails(congruent(fs), FALSE)


def congruent(facts: Iterable[T]) -> FrozenSet[T]:
    """Equal device ids, namespaces etc. are replaced by one representative everywhere (so that what depends on them is equal)."""

    fs = frozenset(facts)
    bv = mk("bv")
    for _ in range(3):
        m: Dict[T, T] = {}
        eqs = [f for f in fs if f.op == "eq"]
        eqs += [eq(p, x) for p in {t for f in fs for t in subterms(f) if t.op == "pick"} for g in p.a[1] if g.op == "eq" and bv in g.a
                for x in g.a if x is not bv and not contains(x, bv)]
        for f in eqs:
            if f.op != "eq":
                continue
            x, y = sorted(f.a, key=lambda t: (t.op in ("elem", "pick"), t.op == "pick", t.n))
            while y in m:
                y = m[y]
            if y.op in ("elem", "pick") and x is not y and not contains(x, y):
                m[y] = x
        if not m:
            return fs
        out: Optional[FrozenSet[T]] = frozenset()
        for f in sorted(fs):
            g = terms.subst(f, m)
            if g is not TRUE and out is not None:
                out = terms.assume(g, out)
        if out is None:
            return frozenset({FALSE})
        if out == fs:
            return fs
        fs = out
    return fs


def show_verdicts(c: Check) -> None:
    import collections
    for (w, v), n in sorted(collections.Counter((x.what, x.verdict) for x in c.obligations).items()):
        print(f"{n:4} {v:10} {w}")
    for x in c.obligations:
        if x.verdict != HELD:
            print(x.as_dict())


def snapshot(facts: FrozenSet[T], items: Sequence[Item], classes: Sequence[str]) -> Tuple[FrozenSet[T], List[Item]]:
    """Path and items with loads of the same key read as the same value, provided that nothing is written to a key before it is
    loaded (otherwise unchanged)."""

    import copy
    loads = [i for i in items if i.name.startswith("load") and i.ev.kind == "storage" and key_class(i.arg("key"))[0] in classes]
    writes = [i for i in storage_writes(items) if key_class(i.arg("key"))[0] in classes]
    for i in loads:
        for w in writes:
            if key_class(w.arg("key"))[0] == key_class(i.arg("key"))[0] and before(w, i) is True:
                occ = occurrence(w, {"key": i.arg("key")})
                if occ is None or FALSE not in given(at(facts, i), occ) and not entails(given(at(facts, i), occ), FALSE):
                    return facts, list(items)
    m = {t: mk("ev", ("stored",), *t.a[1:]) for t in {i.ev.term for i in loads}}
    if len({v for v in m.values()}) == len(m) and not any(contains(k.a[3][0], j) for k in m for j in m if j is not k):
        own = [t for t in m if key_class(t.a[3][0])[1].get("id") is OWN_ID]
        if not own:
            return facts, list(items)

    def sub(t: Any) -> Any:
        return terms.subst(t, m)

    out = []
    for i in items:
        ev = copy.copy(i.ev)
        ev.recv, ev.term, ev.facts = sub(ev.recv), sub(ev.term), sub(ev.facts)
        ev.args = {k: sub(v) for k, v in ev.args.items()}
        out.append(Item(ev, tuple(sub(v) for v in i.chain), sub(i.guards), i.pos, i.cell, i.loops, i.some))
    fs: FrozenSet[T] = frozenset()
    for f in sorted(sub(facts)):
        r = terms.assume(f, fs)
        if r is None:
            return frozenset({FALSE}), out
        fs = r
    return fs, out
