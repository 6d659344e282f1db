"""Rules about the storage: its cache, the values it hands out, and typed loads."""

import ast

from osa.interp import Interp, later
from rules.common import *

LOADS = ("load_primitive", "load_optional", "load_list", "load_dict")
COPIES = ("deepcopy",)


class Cached:
    """The storage with the cache enabled or disabled; the cache may change whenever a coroutine is suspended."""

    def __init__(self, c: Check, disabled: bool) -> None:
        self.c = c
        self.disabled = disabled
        self.fields: Dict[str, T] = {}
        self.caches: Dict[T, str] = {}
        self.bad = False
        init = Interp(c.m.p, "Storage").run("Storage", "__init__", {"disable_cache": const(disabled)})
        for o in init.outs:
            for i in items_of(o):
                if i.ev.kind == "setfield":
                    v = i.arg("value")
                    if v.op == "dictv":
                        self.caches[terms.attr(terms.SELF, i.name)] = i.name
                        if v.a[1] or v.a[0] not in (None, NONE):
                            self.bad = True
                    elif is_const(v):
                        self.fields[i.name] = v
                    elif not (v.op == "extcall" and "Lock" in str(v.a[0])):
                        self.bad = True
        self.results: Dict[str, Result] = {}
        self.exclusive = False
        # a lock that is held wherever the cache is written keeps other tasks from writing to it meanwhile
        locks = [bool(i.ev.held) for n in c.m.public("Storage") for i in all_items(self.run(n)) if i.ev.kind == "mutate" and i.ev.recv in self.caches]
        if locks and all(locks):
            self.exclusive = True
            self.results = {}

    def run(self, name: str) -> Result:
        if name not in self.results:
            it = Interp(self.c.m.p, "Storage", dict(self.fields))
            it.volatile = dict(self.caches)
            it.callbacks = True
            it.exclusive = self.exclusive
            r = self.results[name] = it.run("Storage", name)
            self.c.entries[f"Storage.{name} (cache {'disabled' if self.disabled else 'enabled'})"] = (len(r.outs), len(all_items(r)))
        return self.results[name]


def both(c: Check) -> List[Cached]:
    out = [Cached(c, False), Cached(c, True)]
    for k in out:
        if k.bad:
            c.undecided("the fields of the storage are understood", "Storage.__init__", "")
    return out


def strip(t: T) -> T:
    """Values up to copying."""

    while isinstance(t, T) and t.op in COPIES:
        t = t.a[0]
    return t


def maybe_of(v: T, facts: FrozenSet[T]) -> Tuple[str, Optional[T]]:
    """What a Maybe holds: ("just", x), ("nothing", None), or ("same", m) for one that is passed on."""

    if v.op == "mjust":
        return "just", strip(v.a[0])
    if v.op == "mnothing":
        return "nothing", None
    if v.op == "obj" and v.a[0] == "Nothing":
        return "nothing", None
    if v.op == "obj" and v.a[0] == "Just" and len(v.a[1]) == 1:
        return "just", strip(v.a[1][0][1])
    j = mk("isjust", v)
    if entails(facts, j):
        return "just", mk("just", v)
    if entails(facts, neg(j)):
        return "nothing", None
    return "same", v


def effects(items: Sequence[Item]) -> List[Item]:
    return [i for i in items if i.ev.kind == "hook"]


def current(name: str, i: Item) -> T:
    """The content of the cache as found after the last effect before i."""

    return base(i.ev.shared.get(name))


def final(k: Cached, name: str, o: Out) -> T:
    return base(next((o.st.heap.get(ref) for ref, n in k.caches.items() if n == name), None))


def versions(k: Cached, o: Out, items: Sequence[Item]) -> List[T]:
    """What the cache may have contained along a path."""

    out: List[T] = []
    for cn in k.caches.values():
        for x in [final(k, cn, o), *[current(cn, i) for i in reversed(items)], terms.dictv(later(cn, NONE), ())]:
            if x not in out:
                out.append(x)
    return out


def base(d: Optional[T]) -> T:
    while isinstance(d, T) and d.op == "dictv" and isinstance(d.a[0], T):
        d = d.a[0]
    return terms.dictv(d if isinstance(d, T) else later("?", NONE), ())


def c14(c: Check) -> None:
    """The storage with the cache enabled and disabled; the cache's content is havocked at every await. Every write to the cache on every path
    of every public method is justified by the storage operation right before it, and every path of load is compared with the cache's latest content."""

    for k in both(c):
        for name in c.m.public("Storage"):
            r = k.run(name)
            for o in r.outs:
                path(c, k, r, o, name)
        f = k.caches
        if k.disabled:
            continue
        c.decide(len(f) <= 1, "there is one cache", "Storage.__init__", ", ".join(f.values()))


def path(c: Check, k: Cached, r: Result, o: Out, name: str) -> None:
    items = items_of(o)
    facts = path_facts(o)
    st = last_site(items, "Storage." + name)
    eff = effects(items)
    writes = [i for i in items if i.ev.kind == "mutate" and any(i.ev.recv is f for f in k.caches)]
    for i in [i for i in items if i.ev.kind == "setfield"]:
        c.decide(k.fields.get(i.name) is i.arg("value"), "the cache isn't replaced", site(i), "", (i.arg("value"),), r)
    justified: Set[int] = set()
    for w in writes:
        cname = k.caches[w.ev.recv]
        if k.disabled:
            c.decide(False, "nothing is cached while the cache is disabled", site(w), "", (), r)
            continue
        put = w.name == "__setitem__"
        c.decide(put, "cached values are only replaced", site(w), w.name, (), r)
        if not put:
            continue
        last = [e for e in eff if before(e, w) is True][-1:]
        e = last[0] if last else None
        ke, v = w.arg("arg0"), w.arg("arg1")
        same = e is not None and ke is e.arg("key")
        cur = current(cname, w)
        if v is terms.item(cur, ke):
            continue
        c.decide(same and e is not None and e.ev.failed is None, "the cache changes only after a storage operation for the same key succeeded",
                 site(w), terms.show(ke, 4), (ke,), r)
        if e is None or not same:
            continue
        what, x = maybe_of(v, facts)
        if e.name == "_load":
            c.decide(x is e.ev.term or (what == "just" and x is mk("just", e.ev.term)) or (what == "nothing" and v is e.ev.term),
                     "what is cached by a load is what was loaded", site(w), terms.show(v, 4), (v,), r)
            gone = neg(terms.isin(ke, cur))
            c.decide(entails(w.ev.facts, gone), "a load doesn't replace a cached value that is more recent", site(w), "", tuple(w.ev.facts), r)
        elif e.name == "_store":
            c.decide(what == "just" and x is not None and x is strip(e.arg("value")), "what is cached by a store is what was stored", site(w),
                     terms.show(v, 4), (v,), r)
            justified.add(id(e.cell))
        elif e.name == "_delete":
            c.decide(what == "nothing", "what is cached by a delete is that there's no value", site(w), terms.show(v, 4), (v,), r)
            justified.add(id(e.cell))
    for e in eff:
        if e.name in ("_store", "_delete") and e.ev.failed is None and not k.disabled:
            c.decide(id(e.cell) in justified, "a successful store or delete is reflected by the cache", site(e), "", (), r)
    if o.exc is not None and not forwarded(o):
        if name in ("load", "store", "delete", "store_bytes"):
            c.decide(False, "only failures of the storage are reported", st, exc(o), tuple(o.st.facts), r)
    fn = f"Storage.{name}"
    if name in ("store", "delete") and normal(o):
        own = [e for e in eff if e.name == "_" + name and e.ev.failed is None and e.arg("key") is P(fn, "key")]
        good = [e for e in own if name == "delete" or strip(e.arg("value")) is P(fn, "value")]
        c.decide(bool(good) and own[-1:] == good[-1:] and not own[-1].chain, "a store or delete has reached the storage when it returns", st,
                 "", tuple(x for e in eff for x in e.ev.args.values()), r)
        other = [e for e in eff if e not in own and e.name in ("_store", "_delete") and e.ev.failed is None]
        c.decide(not other, "nothing else is stored or deleted", st, ", ".join(e.name for e in other),
                 tuple(x for e in other for x in e.ev.args.values()), r)
    if name == "load" and normal(o):
        v = ret(r, o)
        K = P(fn, "key")
        ls = [e for e in eff if e.name == "_load" and e.ev.failed is None and e.arg("key") is K]
        c.decide(not [e for e in eff if e.name != "_load"], "a load changes nothing in the storage", st, "", (), r)
        if not k.caches or k.disabled:
            c.decide(bool(ls) and same_maybe(v, ls[-1].ev.term, facts), "a load returns what is stored", st, terms.show(v, 4), (v,), r)
            return
        ok = False
        for cname in k.caches.values():
            cur = final(k, cname, o)
            there = terms.isin(K, cur)
            hit = same_maybe(v, terms.item(cur, K), facts) and entails(facts, there)
            miss = bool(ls) and same_maybe(v, ls[-1].ev.term, facts) and entails(facts, neg(there)) and ls[-1] is eff[-1]
            ok = ok or hit or miss
        c.decide(ok, "a load returns the latest value", st, terms.show(v, 4), (v, *facts), r)


def same_maybe(v: T, m: T, facts: FrozenSet[T]) -> bool:
    if v is m:
        return True
    what, x = maybe_of(v, facts)
    if what == "just":
        return x is mk("just", m)
    return what == "nothing" and entails(facts, neg(mk("isjust", m)))


# --------------------------------------------------------------------------------------------------------- isolation
def exposed(t: Any, fields: FrozenSet[T]) -> bool:
    """The value contains the very object that is held, not a copy of it."""

    if isinstance(t, (tuple, frozenset)):
        return any(exposed(x, fields) for x in t)
    if not isinstance(t, T) or t.op in COPIES or t.op in ("eq", "isinstance", "in", "le0", "isjust", "truthy", "len"):
        return False
    if t.op == "obj" and t.a[0] == "Just":
        return any(exposed(x, fields) for _, x in t.a[1])
    return t in fields or exposed(t.a, fields)


def held_values(c: Check, cls: str) -> Dict[str, T]:
    out: Dict[str, T] = {}
    for o in c.run("__init__", cls).outs:
        for i in items_of(o):
            if i.ev.kind == "setfield":
                out[i.name] = i.arg("value")
    return out


def c15(c: Check) -> None:
    """Alias analysis of Just and Nothing: a value is copied when it is put in and each time it is handed out (return values, arguments of
    callbacks), the results and failures of every method are compared with what a Maybe is."""

    V = P("Just.__init__", "value")
    vals = held_values(c, "Just")
    r0 = c.results.get("Just.__init__")
    c.decide(not exposed(tuple(vals.values()), frozenset({V})), "a value is copied when it is put into a Maybe", "Just.__init__",
             ", ".join(terms.show(v, 3) for v in vals.values()), tuple(vals.values()), r0)
    names = [n for n, v in vals.items() if strip(v) is V]
    c.decide(bool(names), "the value is kept", "Just.__init__", "", tuple(vals.values()), r0)
    if not names:
        return
    held = frozenset(terms.attr(terms.SELF, n) for n in names)

    def run(cls: str, name: str) -> Result:
        it = Interp(c.m.p, cls)
        it.callbacks = True
        r = it.run(cls, name)
        c.entries[f"{cls}.{name}"] = (len(r.outs), len(all_items(r)))
        c.results.setdefault(f"{cls}.{name}", r)
        return r

    def check(r: Result, o: Out, st: str) -> None:
        items = items_of(o)
        v = ret(r, o)
        c.decide(not exposed(v, held), "a value is copied when it is handed out", st, terms.show(v, 4), (v,), r)
        for i in items:
            if i.ev.kind == "callback":
                c.decide(not exposed(tuple(i.ev.args.values()), held), "a value is copied before it is handed to a function", site(i), "", tuple(i.ev.args.values()), r)
            if i.ev.kind == "setfield":
                x = i.arg("value")
                c.decide(strip(x) is x or (v is not x and not contains(v, x)), "a copy that is handed out isn't kept", site(i), "", (x,), r)
                c.decide(i.name not in names, "the value that is held never changes", site(i), "", (x,), r)
            if i.ev.kind == "mutate":
                c.decide(not exposed(i.ev.recv, held), "the value that is held never changes", site(i), "", (i.ev.recv,), r)

    def value(t: T) -> bool:
        return strip(t) in held

    for name in [n for n in ("is_just", "is_nothing", "from_just", "maybe", "fmap")]:
        for cls in ("Just", "Nothing"):
            f = c.m.p.method(cls, name)
            st = f"{cls}.{name}"
            if f is None or f.is_abstract:
                c.violated("every method of a Maybe is implemented", st)
                continue
            r = run(cls, name)
            c.some(len(r.outs), "every method of a Maybe is implemented", r, st)
            for o in r.outs:
                check(r, o, st)
                v = ret(r, o)
                facts = path_facts(o)
                calls = [i for i in items_of(o) if i.ev.kind == "callback"]
                if name in ("is_just", "is_nothing"):
                    c.decide(normal(o) and v is const((name == "is_just") == (cls == "Just")), "a Maybe tells whether it holds a value", st, terms.show(v, 3), (v,), r)
                elif name == "from_just" and cls == "Nothing":
                    c.decide(exc(o) == "NothingException", "a missing value raises NothingException", st, terms.show(v, 3), (v,), r)
                elif name in ("from_just", "maybe") and cls == "Just":
                    c.decide(normal(o) and value(v), "the value that is held is handed out", st, terms.show(v, 3), (v,), r)
                elif name == "maybe":
                    c.decide(normal(o) and strip(v) is P("Nothing.maybe", "default"), "the default is used for a missing value", st, terms.show(v, 3), (v,), r)
                elif cls == "Nothing":
                    c.decide(normal(o) and not calls and (maybe_of(v, facts)[0] == "nothing" or v is terms.SELF), "a missing value stays missing", st, terms.show(v, 3), (v,), r)
                else:
                    ok = len(calls) == 1 and calls[0].ev.recv is P("Just.fmap", "function") and len(calls[0].ev.args) == 1 and value(calls[0].arg("arg0"))
                    c.decide(ok or (o.exc is not None and forwarded(o)), "the function is applied to the value once", st, "", tuple(x for i in calls for x in i.ev.args.values()), r)
                    if o.exc is not None:
                        c.decide(forwarded(o), "failures of the function are passed on", st, exc(o), (), r)
                    else:
                        c.decide(ok and maybe_of(v, facts)[0] == "just" and maybe_of(v, facts)[1] is calls[0].ev.term,
                                 "the mapped value is what the function returns", st, terms.show(v, 4), (v,), r)
    # what is kept by the storage is held by a Maybe
    for k in both(c):
        for name in c.m.public("Storage"):
            r = k.run(name)
            for o in r.outs:
                for i in items_of(o):
                    if i.ev.kind != "mutate" or i.ev.recv not in k.caches:
                        continue
                    v = i.arg("arg1")
                    e = [x for x in effects(items_of(o)) if before(x, i) is True][-1:]
                    raw = frozenset(x.arg("value") for x in e)
                    c.decide(v.op != "missing" and not exposed(v, raw), "what is cached is isolated from what was stored", site(i), terms.show(v, 4), (v,), r)


# ----------------------------------------------------------------------------------------------------------- typed loads
def shape(name: str, x: T, prim: T) -> T:
    """When a stored value has the requested type."""

    is_a = lambda y, t: mk("isinstance", y, t)  # noqa: E731
    cls = lambda n: mk("cls", n)  # noqa: E731
    e = terms.elem(x)
    if name == "load_primitive":
        return is_a(x, prim)
    if name == "load_optional":
        return disj(eq(NONE, x), is_a(x, prim))
    if name == "load_list":
        return conj(is_a(x, cls("list")), neg(terms.exists([((e,), frozenset({neg(is_a(e, prim))}))])))
    if name == "load_dict":
        return conj(is_a(x, cls("dict")), neg(terms.exists([((e,), frozenset({neg(is_a(terms.item(x, e), prim))}))])))
    return is_a(x, cls("str"))


DECODES = {"b64u": "unb64u", "b64": "unb64", "hex": "unhex"}


def c16(c: Check) -> None:
    """Path conditions of each typed load: a value is returned exactly under the conditions that describe the requested type, TypeError is raised
    exactly under their negation; the encoding written by store_bytes is inverted by load_bytes."""

    enc: Set[str] = set()
    for k in both(c):
        r = k.run("store_bytes")
        for o in r.outs:
            if not normal(o):
                continue
            items = items_of(o)
            st = last_site(items, "Storage.store_bytes")
            fn = "Storage.store_bytes"
            ss = [e for e in effects(items) if e.name == "_store" and e.ev.failed is None]
            ok = len(ss) == 1 and ss[0].arg("key") is P(fn, "key") and not ss[0].chain
            c.decide(ok, "bytes are stored under the given key", st, "", tuple(x for e in ss for x in e.ev.args.values()), r)
            if not ok:
                continue
            v = ss[0].arg("value")
            good = v.op in DECODES and v.a[0] is P(fn, "value")
            c.decide(good, "bytes are stored in a reversible text encoding", st, terms.show(v, 4), (v,), r)
            if good:
                enc.add(v.op)
        for name in (*LOADS, "load_bytes"):
            typed(c, k, name, enc)


def typed(c: Check, k: Cached, name: str, enc: Set[str]) -> None:
    r = k.run(name)
    fn = f"Storage.{name}"
    K = P(fn, "key")
    prim = P(fn, "primitive")
    n = 0
    for o in r.outs:
        items = items_of(o)
        st = last_site(items, fn)
        facts = path_facts(o)
        if o.exc is not None and forwarded(o):
            continue
        ls = [e for e in effects(items) if e.name == "_load" and e.ev.failed is None]
        c.decide(all(e.arg("key") is K for e in ls), "the value is loaded from the given key", st, "", tuple(e.arg("key") for e in ls), r)
        sources = [terms.item(x, K) for x in versions(k, o, items)] \
            + [e.ev.term for e in ls if e.arg("key") is K]
        used = [L for L in sources if any(contains(f, L) for f in facts) or (o.val is not None and contains(ret(r, o), L))]
        L = next((L for L in sources if entails(facts, mk("isjust", L)) or entails(facts, neg(mk("isjust", L)))), used[0] if used else None)
        c.decide(L is not None, "a typed load loads the value", st, "", tuple(facts), r)
        if L is None:
            continue
        x = mk("just", L)
        there = mk("isjust", L)
        fits = shape(name, x, prim)
        if o.exc is not None:
            c.decide(exc(o) == "TypeError", "a value of the wrong type raises TypeError", st, exc(o), (), r)
            c.decide(entails(facts, conj(there, neg(fits))), "TypeError is raised only for values of the wrong type", st, "", tuple(facts), r)
            n += 1
            continue
        v = ret(r, o)
        what, y = maybe_of(v, facts)
        if what == "nothing":
            c.decide(entails(facts, neg(there)), "only a missing value is reported as missing", st, "", tuple(facts), r)
            continue
        c.decide(entails(facts, conj(there, fits)), "only values of the requested type are returned", st, "", (v, *facts), r)
        if name == "load_bytes":
            good = y is not None and any(y.op == DECODES[e] and y.a[0] is x for e in enc)
            c.decide(good or not enc, "loading bytes inverts how they are stored", st, terms.show(v, 4), (v,), r)
        else:
            c.decide(y is not None and what == "just" and (y is x or entails(facts, eq(y, x)) or (y.op == "coll" and terms.coll_of(x).a[1:] == y.a[1:])), "the stored value is returned", st, terms.show(v, 4), (v,), r)
    c.some(n, "values of the wrong type are rejected", r, fn)


# ------------------------------------------------------------------------------------------- skipped message key limits
class Unknown(Exception):
    pass


def number(t: T, env: Dict[T, Any]) -> Any:
    """A value or condition for given limits."""

    if t in env:
        return env[t]
    if is_const(t):
        return cval(t)
    if t is NONE:
        return None
    n = lambda x: number(x, env)  # noqa: E731
    if t.op == "lin":
        return sum((n(x) * k for x, k in t.a[0]), t.a[1])
    if t.op in ("min", "max") and t.a[0]:
        return (min if t.op == "min" else max)(n(x) for x in t.a[0])
    if t.op in ("orval", "andval"):
        v = None
        for x in t.a[0]:
            v = n(x)
            if bool(v) == (t.op == "orval"):
                return v
        return v
    if t.op == "ite":
        for g, v in t.a[0]:
            if n(g):
                return n(v)
        raise Unknown()
    if t.op == "not":
        return not n(t.a[0])
    if t.op in ("and", "or"):
        return some_of(t.a[0], env, t.op == "or")
    if t.op == "eq":
        return n(t.a[0]) == n(t.a[1])
    if t.op == "truthy":
        return bool(n(t.a[0]))
    if t.op == "le0":
        v = n(t.a[0])
        if v is None:
            raise Unknown()
        return v <= 0
    if t.op == "isinstance" and t.a[1].op == "cls" and t.a[1].a[0] in ("int", "bool", "float"):
        return isinstance(n(t.a[0]), {"int": int, "bool": bool, "float": float}[t.a[1].a[0]])
    raise Unknown()


def some_of(ts: Iterable[T], env: Dict[T, Any], which: bool) -> bool:
    """Whether some (or all) of the conditions hold; those that make no sense for the values are ignored if the others decide."""

    unknown = False
    for x in ts:
        try:
            if bool(number(x, env)) == which:
                return which
        except (Unknown, TypeError):
            unknown = True
    if unknown:
        raise Unknown()
    return not which


def c26(c: Check) -> None:
    """The paths of Backend.__init__ partition the pairs of limits by linear conditions; which of them accept and what they set is evaluated for
    every order of the two limits relative to each other and to the constants in the conditions, and compared with the documented limits."""

    r = c.run("__init__", "Backend")
    f = c.m.p.require("Backend", "__init__")
    fn = "Backend.__init__"
    props = ("max_num_per_session_skipped_keys", "max_num_per_message_skipped_keys")
    for n in props:
        if n not in f.param_names():
            c.undecided("limits are accepted exactly if they are valid", fn, f"no parameter {n}")
            return
    S, M = P(fn, props[0]), P(fn, props[1])
    paths: List[Tuple[Out, FrozenSet[T], Dict[str, T], Dict[str, List[Tuple[FrozenSet[T], T, bool]]]]] = []
    consts: Set[int] = {0}
    for o in r.outs:
        facts = frozenset(o.st.facts)
        fields = {i.name: i.arg("value") for i in items_of(o) if i.ev.kind == "setfield"}
        got: Dict[str, List[Tuple[FrozenSet[T], T, bool]]] = {}
        if normal(o):
            for n in props:
                if c.m.p.method("Backend", n) is None:
                    c.violated("the limits are exposed", f"Backend.{n}")
                    return
                rp = Interp(c.m.p, "Backend", fields).run("Backend", n)
                c.entries[f"Backend.{n}"] = (len(rp.outs), 0)
                got[n] = [(frozenset(p.st.facts), ret(rp, p), normal(p)) for p in rp.outs]
        paths.append((o, facts, fields, got))
        for x in (*facts, *fields.values(), *(y for g in got.values() for fs, v, _ in g for y in (v, *fs))):
            for k in (x, *terms.collect(x, "const"), *terms.collect(x, "lin")):
                v = cval(k) if is_const(k) else k.a[1] if k.op == "lin" else None
                if isinstance(v, int):
                    consts.add(int(v))
    near = sorted({s * k + d for k in consts for d in range(-3, 4) for s in (1, -1)})
    if len(near) > 200:
        near = near[:100] + near[-100:]
    seen: Set[Tuple[str, str]] = set()

    def tell(ok: bool, what: str, s: Any, m: Any) -> None:
        if ok:
            c.held(what, fn)
        elif (what, fn) not in seen:
            seen.add((what, fn))
            c.decide(False, what, fn, f"per-session {s}, per-message {m}", (), r)

    for s in near:
        for m in [None, *near]:
            env = {S: s, M: m}
            valid = s >= 0 and (m is None or (0 <= m <= s and (m > 0 or s == 0)))
            try:
                on = [p for p in paths if some_of(p[1], env, False)]
                if len(on) != 1:
                    raise Unknown()
                o, _, _, got = on[0]
                tell(normal(o) == valid, "valid limits are accepted" if valid else "invalid limits are rejected", s, m)
                if not normal(o):
                    tell(exc(o) == "ValueError", "invalid limits raise ValueError", s, m)
                    continue
                for n, w in ((props[0], s), (props[1], s if m is None else m)):
                    ps = [(v, ok) for fs, v, ok in got[n] if some_of(fs, env, False)]
                    tell(len(ps) == 1 and ps[0][1] and number(ps[0][0], env) == w, "the limits are exposed unchanged" if m is not None or n == props[0]
                         else "the per-message limit defaults to the per-session limit", s, m)
            except (Unknown, TypeError):
                c.undecided("limits are accepted exactly if they are valid", fn, "a condition is outside the modelled language")
                return
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    d = defaults.get(props[1])
    c.decide(d is not None and ast.unparse(d) == "None", "the per-message limit is optional", fn, "", (), r)
