"""Rules about initialization, the identity key pair and background tasks."""

from rules.common import *
from rules.devices import same
from rules.manager import NSB, own_loads, repair, sources

MAXID = 2 ** 31 - 1
LOADED = coll("set", [part(NSB, (B,), frozenset())])


def bounds(t: T) -> Optional[Tuple[Optional[int], Optional[int]]]:
    """Interval of an integer expression; None when it rests on something unknown."""

    if is_const(t) and isinstance(cval(t), int) and not isinstance(cval(t), bool):
        return cval(t), cval(t)
    if t.op == "lin":
        lo: Optional[int] = t.a[1]
        hi: Optional[int] = t.a[1]
        for x, k in t.a[0]:
            b = bounds(x)
            if b is None:
                return None
            a, z = b if k >= 0 else (b[1], b[0])
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or z is None else hi + k * z
        return lo, hi
    if t.op == "extcall" and t.a[1] and all(isinstance(x, T) for x in t.a[1]):
        n, a = t.a[0], t.a[1]
        if n.endswith("randbelow") and bounds(a[0]):
            z = bounds(a[0])[1]  # type: ignore
            return 0, None if z is None else z - 1
        if n.endswith("randint") and len(a) == 2 and bounds(a[0]) and bounds(a[1]):
            return bounds(a[0])[0], bounds(a[1])[1]  # type: ignore
        if n.endswith("randrange") and len(a) == 2 and bounds(a[0]) and bounds(a[1]):
            z = bounds(a[1])[1]  # type: ignore
            return bounds(a[0])[0], None if z is None else z - 1  # type: ignore
        if n.endswith("randbits") or n.endswith("getrandbits"):
            b = bounds(a[0])
            return 0, None if b is None or b[1] is None else 2 ** b[1] - 1
        if n.endswith("choice") and a[0].op == "range" and len(a[0].a[0]) == 2:
            return bounds(mk("extcall", "randrange", a[0].a[0]))
    if t.op in ("pick", "elem") and t.a[0].op == "range" and len(t.a[0].a[0]) == 2:
        return bounds(mk("extcall", "randrange", t.a[0].a[0]))
    if t.op == "ite":
        bs = [bounds(v) for _, v in t.a[0]]
        if any(b is None for b in bs):
            return None
        los, his = [b[0] for b in bs], [b[1] for b in bs]  # type: ignore
        return (None if None in los else min(los), None if None in his else max(his))  # type: ignore
    return None


def unique_namespaces(fs: Iterable[T]) -> Tuple[List[T], bool]:
    """Comparisons of the number of namespaces with the number of backends; whether another condition is about namespaces."""

    out, other = [], False
    for f in fs:
        for t in subterms(f):
            if t.op == "eq" and all(x.op == "len" for x in t.a):
                cs = [coll_of(x.a[0]) for x in t.a]
                if any(len(k.a[1]) == 1 and k.a[1][0].a[0] is NSB and not k.a[1][0].a[2] for k in cs):
                    out.append(t)
        if any(t.op == "attr" and t.a[1] == "namespace" for t in subterms(f)):
            other = True
    return sorted(set(out)), other


def absent(f: FrozenSet[T], x: T, C: T, *at: T) -> bool:
    """x is not an element of C."""

    if proves(f, neg(isin(x, C)), *at):
        return True
    fs = given(f, eq(elem(C), x))
    return FALSE in fs or FALSE in instantiate(fs, at + (elem(C),))


EFFECTS = ("storage", "backend", "hook", "spawn", "ikp")


def id_loads(items: Sequence[Item]) -> List[T]:
    return sorted({i.ev.term for i in items if i.name == "load_primitive" and key_class(i.arg("key"))[0] == "own_device_id"})


def c21(c: Check) -> None:
    """Validation must dominate every effect of create, with exactly the documented failure conditions; the interval of a generated id is
    computed from its expression, and its absence from every downloaded list has to follow from the conditions on the path."""

    fn = "create"
    r = c.run(fn)
    c.decide(not c.m.missing_roles, "the configuration is kept by the session manager", "SessionManager.create", ", ".join(c.m.missing_roles), (), r)
    lo, hi = le(const(25), THRESHOLD), le(THRESHOLD, const(99))
    idf = {k for k, v in c.m.role_fields.items() if v is OWN_ID}
    n = 0
    for o, items in c.paths(fn):
        facts = path_facts(o)
        st = last_site(items, "SessionManager." + fn)
        uniq, other = unique_namespaces(facts)
        if not normal(o):
            if exc(o) == "ValueError":
                ok = entails(facts, disj(*[neg(u) for u in uniq], neg(lo), neg(hi)))
                if not ok and other and not uniq:
                    c.undecided("ValueError is raised only for duplicate namespaces or a threshold outside of 25 to 99", st, "unknown form of test")
                else:
                    c.decide(ok, "ValueError is raised only for duplicate namespaces or a threshold outside of 25 to 99", st, "", tuple(facts), r)
                c.decide(not [i for i in items if i.ev.kind in EFFECTS], "arguments are rejected before anything happens", st, "", (), r)
            else:
                c.decide(forwarded(o), "create doesn't fail for other reasons", st, exc(o), tuple(facts), r)
            continue
        n += 1
        for i in once(c, [i for i in items if i.ev.kind in EFFECTS]):
            f = i.ev.facts | i.guards
            c.prove(f, conj(lo, hi), "the refill threshold is validated before anything happens", site(i))
            u, oth = unique_namespaces(f)
            if not u and oth:
                c.undecided("duplicate namespaces are rejected before anything happens", site(i), "unknown form of test")
            else:
                c.decide(any(entails(f, x) for x in u), "duplicate namespaces are rejected before anything happens", site(i), "", tuple(f), r)
        ls = id_loads(items)
        c.some(len(ls), "create looks for a stored device id", r, st)
        sets = [i for i in items if i.ev.kind == "setfield" and i.name in idf]
        c.some(len(sets), "create sets the own device id", r, st)
        seen = c.__dict__.setdefault("_c21", set())
        for i in sets:
            if id(i.cell) in seen:
                continue
            seen.add(id(i.cell))
            v = i.arg("value")
            for g, x in (v.a[0] if v.op == "ite" else ((TRUE, v),)):
                f = given(i.ev.facts | i.guards, g)
                if x.op == "just" and x.a[0] in ls:
                    c.held("a stored device id is reused", site(i))
                    continue
                c.decide(any(entails(f, neg(mk("isjust", L))) for L in ls), "a stored device id is reused", site(i), terms.show(x, 4), (x,) + tuple(f), r)
                b = bounds(x)
                if b is None:
                    c.undecided("a generated device id is valid", site(i), terms.show(x, 4))
                else:
                    c.decide(b[0] is not None and b[0] >= 1 and b[1] is not None and b[1] <= MAXID, "a generated device id is valid", site(i), str(b), (x,))
                    c.decide(b[0] == b[1] or (b[1] or 0) - (b[0] or 0) >= 2 ** 16, "device ids are spread over the id space", site(i), str(b), (x,))
                dls = [y for y in named(items, "_download_device_list") if y.arg("bare_jid") is OWN_JID and before(y, i) is True]
                cover(c, f, TRUE, dls, {"namespace": NSB}, "the device lists of all loaded backends are consulted", site(i), r)
                c.decide(any(absent(f, x, y.ev.term, B) for y in dls), "a generated device id is not in use", site(i), "", (x,) + tuple(f), r)
        for i in once(c, stores(items, "own_device_id")):
            f = at(facts, i)
            c.decide(any(entails(f, neg(mk("isjust", L))) for L in ls), "a stored device id is never replaced", site(i), "", tuple(f), r)
            v = i.arg("value")
            c.decide(v is OWN_ID or any(v is s.arg("value") for s in sets), "the own device id is stored", site(i), terms.show(v, 4), (v,), r)
    c.some(n, fn + " returns", r)


def extensional(facts: FrozenSet[T], x: T) -> FrozenSet[T]:
    """Collections that are known to be equal have the same elements; what holds for no namespace does not hold for x."""

    hyp = []
    for f in facts:
        if f.op == "eq" and any(t.op in ("coll", "ite") for t in f.a):
            a, b = f.a
            hyp.append(disj(neg(isin(x, a)), isin(x, b)))
            hyp.append(disj(isin(x, a), neg(isin(x, b))))
        if f.op == "not" and f.a[0].op == "exists":
            for q in f.a[0].a[0]:
                if len(q.a[0]) == 1 and q.a[0][0].op == "elem":
                    v = q.a[0][0]
                    if v is B and x is NSB:
                        hyp.append(disj(*[neg(y) for y in q.a[1]]))
                    elif v.a[0] is not terms.BACKENDS and terms.typeof(v) in ("str", None) and v is not x:
                        hyp.append(disj(neg(isin(x, v.a[0])), *[neg(terms.subst(y, {v: x})) for y in q.a[1]]))
    return given(facts, *hyp)


def own_values(items: Sequence[Item], facts: FrozenSet[T], cls: str) -> List[T]:
    """Recorded values of the own device that a path rests on, with the position of their load."""

    out = set(own_loads(items, facts, cls))
    for f in facts:
        for t in terms.collect(f, "maybe", "just"):
            k, m, _ = load_of(t)
            if k == cls and m["jid"] is OWN_JID and same(facts, m["id"], OWN_ID):
                out.add(t)
    return sorted(out)


def load_items(items: Sequence[Item], v: T) -> List[Item]:
    """The loads a value comes from (the device may be known under another name at the load)."""

    e = load_of(v)[2]
    return [i for i in items if e is not None and i.ev.kind == "storage" and i.ev.term.a[:2] == e.a[:2]] if e is not None else []


DEVICE_INFO = ("namespaces", "active", "label", "identity_key", "list")


def consistency(h: T, e: T) -> bool:
    """A condition on what is stored about the own device itself, rather than on the namespace at hand."""

    evs = terms.collect(h, "ev")
    return bool(evs) and not contains(terms.subst(h, {t: NONE for t in evs if t.a[1] == "_download_bundle"}), e) and all(
        t.a[3] and key_class(t.a[3][0])[0] in DEVICE_INFO or t.a[1] == "_download_bundle" for t in evs)


def bundle(i: Item) -> Dict[str, T]:
    return {"bundle": i.arg("bundle")}


def own_stores(items: Sequence[Item], facts: FrozenSet[T], cls: str) -> List[Item]:
    out = []
    for i in stores(items, cls):
        m = key_class(i.arg("key"))[1]
        if m["jid"] is OWN_JID and same(at(facts, i), m["id"], OWN_ID):
            out.append(i)
    return out


def c20(c: Check) -> None:
    """Order of effects on every path through create: what must precede the device id, the publication and the recorded namespaces, for an
    arbitrary loaded backend; the final record is compared with the set of loaded namespaces."""

    fn = "create"
    r = c.run(fn)
    ids = [x for k, x in (("namespaces", None), ("active", None), ("label", P(fn, "initial_own_label")),
                          ("identity_key", attr(IKP, "identity_key")), ("list", None), ("trust", UNDECIDED))]
    n = 0
    for o, items in c.paths(fn):
        if not normal(o):
            c.decide(forwarded(o) or exc(o) == "ValueError", "create doesn't fail for other reasons", "SessionManager.create", exc(o), (), r)
            continue
        n += 1
        facts = path_facts(o)
        st = last_site(items, "SessionManager." + fn)
        ls = id_loads(items)
        first = any(entails(facts, neg(mk("isjust", L))) for L in ls)
        idst = stores(items, "own_device_id")
        # ---- the id is recorded after everything else about the own device
        if first:
            c.some(len(idst), "the device id is stored on the first run", r, st)
        for s in idst:
            what = {"namespaces": "its namespaces", "active": "its activity", "label": "its label", "identity_key": "its identity key",
                    "list": "the device list", "trust": "its trust level"}
            for cls, w in what.items():
                good = False
                kn: Tuple[T, ...] = ()
                for i in stores(items, cls):
                    m = key_class(i.arg("key"))[1]
                    if m["jid"] is not OWN_JID or "id" in m and m["id"] is not OWN_ID or not certain_before(i, s):
                        continue
                    v = i.arg("value")
                    kn += (v, i.arg("key"))
                    good = good or {"namespaces": lambda: entails(facts, neg(nonempty(v))), "active": lambda: True,
                                    "label": lambda: v is P(fn, "initial_own_label"), "identity_key": lambda: v is attr(IKP, "identity_key"),
                                    "list": lambda: entails(facts, isin(OWN_ID, v)),
                                    "trust": lambda: v is UNDECIDED and m["ik"].op == "b64u" and m["ik"].a[0] is attr(IKP, "identity_key")}[cls]()
                c.decide(good, f"the own device id is stored only after {w}", site(s), "", kn, r)
            pub = [i for i in items if i in network([i]) and before(i, s) is True]
            c.decide(not pub, "nothing is published before the own device id is stored", site(s), "", (), r)
        # ---- publishing
        ups = [i for i in named(items, "_upload_bundle") if is_ev(i.arg("bundle"), "get_bundle")]
        own = [i for i in ups if i.arg("bundle").a[3][0] is OWN_JID and i.arg("bundle").a[3][1] is OWN_ID]
        c.decide(len(own) == len(named(items, "_upload_bundle")), "only own bundles are published", st, "", (), r)
        mine = [i for i in own if i.arg("bundle").a[2] is B]
        for i in once(c, own):
            b = i.arg("bundle").a[2]
            f = at(facts, i)
            get = next((x for x in named(items, "get_bundle") if x.ev.term is i.arg("bundle")), None)
            gens = [g for g in named(items, "generate_pre_keys") if g.ev.recv is b and get is not None and before(g, get) is True]
            nvs = [x.ev.term for x in named(items, "get_num_visible_pre_keys") if x.ev.recv is b and get is not None and before(x, get) is True]
            enough = [lt(THRESHOLD, v) for v in nvs]
            for g in gens:
                k = next((v for v in g.ev.args.values()), NONE)
                fg = at(facts, g)
                if any(entails(fg, le(const(100), x)) for x in [k] + [add(k, v) for v in nvs]):
                    oc = occurrence(g, {"recv": b})
                    if oc is not None:
                        enough.append(oc)
            c.decide(proves(f, disj(*enough), b), "pre keys are refilled before a bundle is published", site(i), "", tuple(f) + tuple(enough), r)
        for g in once(c, named(items, "generate_pre_keys")):
            k = next((v for v in g.ev.args.values()), NONE)
            nvs = [x.ev.term for x in named(items, "get_num_visible_pre_keys") if x.ev.recv is g.ev.recv and before(x, g) is True]
            if nvs:
                c.decide(k is add(const(100), nvs[-1], -1), "pre keys are refilled to 100", site(g), terms.show(k, 3), (k,))
                c.prove(at(facts, g), le(nvs[-1], THRESHOLD), "pre keys are refilled only at or below the threshold", site(g))
            else:
                c.decide(k is const(100) and first, "the first pre keys of a backend are 100, later ones are counted", site(g), terms.show(k, 3), (k,), r)
        c.seen_ups = True  # type: ignore
        for i in once(c, named(items, "_upload_device_list")):
            f = at(facts, i)
            v, ns = i.arg("device_list"), i.arg("namespace")
            if entails(f, neg(isin(OWN_ID, v))):
                c.held("the own bundle is published before a device list names the own device", site(i))
                continue
            prior = [u for u in own if before(u, i) is True]
            prior = [u for u in prior if same(f, attr(u.arg("bundle").a[2], "namespace"), ns)]
            ok = covers(f, TRUE, prior, bundle)
            c.decide(ok, "the own bundle is published before a device list names the own device", site(i), terms.show(ns, 3), tuple(f) + (v, ns), r)
        # ---- completeness for a loaded backend
        N = own_values(items, facts, "namespaces")
        A = own_values(items, facts, "active")
        nets = [i for i in items if i in network([i])]
        N0 = [x for x in N if any(all(before(i, j) is True for j in nets) for i in load_items(items, x))]
        A0 = [x for x in A if any(all(before(i, j) is True for j in nets) for i in load_items(items, x))]
        c.some(len(N), "create compares with the recorded namespaces", r, st)
        hyps = [TRUE] if first else [neg(isin(NSB, x)) for x in N0]
        for h in hyps:
            f = given(extensional(facts, NSB), h)
            if FALSE in f or entails(f, FALSE):
                c.held("the bundle of every new backend is published", st)
                continue
            ok = covers(f, TRUE, mine, bundle)
            c.decide(ok, "the bundle of every new backend is published", st, "", tuple(f), r)
            refresh = [d for d in named(items, "_download_device_list") if d.arg("bare_jid") is OWN_JID and any(before(u, d) is True for u in mine)]
            ok = covers(f, TRUE, refresh, {"namespace": NSB})
            c.decide(ok, "the device list of every new backend is refreshed afterwards", st, "", tuple(f), r)
        # ---- vanished backends
        if not first:
            gone = named(items, "_delete_bundle")
            ok = False
            for x in N0:
                for a in A0:
                    e = elem(x)
                    whole = frozenset.intersection(*[frozenset(terms.subst(h, {v: e}) for v in g.chain for h in g.guards) for g in gone]) if gone else ()
                    f = given(extensional(facts, e), neg(isin(e, LOADED)), isin(e, x), isin(e, a), *[h for h in whole if consistency(h, e)])
                    ok = FALSE in f or entails(f, FALSE) or covers(f, TRUE, gone, {"namespace": e})
                    if ok:
                        break
                if ok:
                    break
            c.decide(ok, "backends that vanished are purged", st, "", tuple(facts), r)
            for g in once(c, gone):
                f = at(facts, g)
                ns = g.arg("namespace")
                c.decide(proves(f, neg(isin(ns, LOADED)), B), "loaded backends are not purged", site(g), terms.show(ns, 4),
                         tuple(f & frozenset.intersection(*[x.guards for x in gone if x.arg("namespace") is ns])) + (ns,), r)
        # ---- the record
        nst = own_stores(items, facts, "namespaces")
        ast_ = own_stores(items, facts, "active")
        for i in once(c, nst):
            f = at(facts, i)
            v = i.arg("value")
            if repair(c, i, f):
                continue
            fs = given(f, isin(NSB, v), *[neg(isin(NSB, x)) for x in N if contains(v, x)])
            ok = FALSE in fs or entails(fs, FALSE)
            prior = [u for u in mine if before(u, i) is True]
            if not ok:
                fs = given(extensional(fs, NSB), *[neg(isin(NSB, x)) for x in N0])
                ok = FALSE in fs or covers(fs, TRUE, prior, bundle)
            c.decide(ok, "a namespace is recorded only after the own bundle was published", site(i), terms.show(v, 4), tuple(f) + (v,), r)
        fe = extensional(facts, NSB)
        equal = False
        for x in N:
            for a in A:
                e = elem(x)
                f2 = extensional(facts, e)
                if proves(fe, isin(NSB, x), B) and proves(given(f2, isin(e, a)), isin(e, LOADED), e):
                    equal = True
        if equal:
            c.held("the recorded namespaces are those of the loaded backends", st)
        else:
            last = [i for i in nst if not any(before(i, j) is True for j in nst) and not i.loops]
            good = any(proves(facts, isin(NSB, i.arg("value")), B) and all(proves(given(facts, *p.a[2]), isin(p.a[0], LOADED), *p.a[1])
                                                                         for p in coll_of(i.arg("value")).a[1]) for i in last)
            c.decide(good, "the recorded namespaces are those of the loaded backends", st, "; ".join(terms.show(i.arg("value"), 4) for i in last),
                     tuple(facts) + tuple(i.arg("value") for i in last), r)
            for i in last:
                late = [j for j in items if before(i, j) is True and (j in storage_writes([j]) or j in network([j]) or j.name in (
                    "generate_pre_keys", "purge"))]
                c.decide(not late, "the namespaces are recorded as the last step", site(i), ", ".join(site(j) for j in late[:3]), (), r)
                acts = [j for j in ast_ if before(j, i) is True and not j.loops]
                ok = any(proves(facts, conj(isin(NSB, j.arg("value")), truthy(item(j.arg("value"), NSB))), B) for j in acts)
                c.decide(ok, "the own device is recorded as active for all loaded backends before", site(i), "",
                         tuple(facts) + tuple(j.arg("value") for j in acts), r)
    c.some(n, fn + " returns", r)
