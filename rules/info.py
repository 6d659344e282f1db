"""Rules about reported device information."""

from rules.common import *
from rules.devices import same
from rules.encrypt import pick_parts
from rules.manager import repair


def about(facts: FrozenSet[T], cls: str, jid: T, d: T, *ts: T) -> List[T]:
    """Recorded values of a device that terms mention (as loaded on the path)."""

    return sorted({s for t in (*facts, *ts) for s in subterms(t) if load_of(s)[0] == cls and load_of(s)[1]["jid"] is jid
                   and load_of(s)[1]["id"] is d})


def alternatives(t: T) -> Tuple[Tuple[T, T], ...]:
    return t.a[0] if t.op == "ite" else ((TRUE, t),)


def known_level(facts: FrozenSet[T], level: T, jid: T, ik: T) -> bool:
    """The level is known to be the stored one, or the undecided one as there is none."""

    if FALSE in facts:
        return True
    want = key("trust", jid=jid, ik=mk("b64u", ik))
    loads = {s for t in (*facts, level) for s in subterms(t) if is_ev(s, "load_primitive") and s.a[3][0] is want}
    return any(level is mk("just", s) and entails(facts, mk("isjust", s)) or level is UNDECIDED and entails(facts, neg(mk("isjust", s)))
               or level is mk("maybe", s, UNDECIDED) for s in loads)


def entry(c: Check, r: Result, st: str, e: T, jid: T, d: T, facts: FrozenSet[T]) -> None:
    """One reported device: every field has to be what is recorded for it."""

    f = facts
    kn = (e,) + tuple(f)
    c.decide(attr(e, "bare_jid") is jid, "the entry names the queried JID", st, "", kn, r)
    ik = attr(e, "identity_key")
    c.decide(is_identity_key(ik, jid, d), "the recorded identity key (or the one just obtained from the device's bundle) is reported", st,
             terms.show(ik, 4), kn, r)
    level = attr(e, "trust_level_name")
    known = level_loads(level, jid, ik) is not None or all(
        all(known_level(given(f, g, gi), v, jid, w) for g, v in alternatives(level)) for gi, w in alternatives(ik))
    c.decide(known, "the trust level stored for the reported identity key is reported, or the undecided level", st,
             terms.show(attr(e, "trust_level_name"), 4), kn, r)
    for x in leaves(attr(e, "label")):
        k, m, _ = load_of(x)
        c.decide(k == "label" and m["jid"] is jid and m["id"] is d, "the recorded label is reported", st, terms.show(x, 4), kn, r)
    act, nss = attr(e, "active"), attr(e, "namespaces")
    As = about(f, "active", jid, d, act, nss)
    Ns = about(f, "namespaces", jid, d, nss)
    c.decide(bool(As) and bool(Ns), "activity and namespaces recorded for the device are reported", st, "", kn, r)
    for g, v in (act.a[0] if act.op == "ite" else ((TRUE, act),)):
        fs = given(f, g)
        if FALSE in fs:
            continue
        ps = coll_of(v).a[1]
        for p in ps:
            t = p.a[0]
            ok = t.op == "tuple" and len(t.a[0]) == 2 and any(entails(given(fs, *p.a[2]), conj(isin(t.a[0][0], A), eq(t.a[0][1], item(A, t.a[0][0]))))
                                                             for A in As)
            c.decide(ok, "only recorded activity is reported", st, terms.show(t, 4), kn, r)
        c.decide(any(proves(given(fs), isin(mk("tuple", (elem(A, 9), item(A, elem(A, 9)))), v), elem(A, 9)) for A in As), "all recorded activity is reported",
                 st, terms.show(v, 4), kn, r)
    for g, v in (nss.a[0] if nss.op == "ite" else ((TRUE, nss),)):
        fs = given(f, g)
        if FALSE in fs:
            continue
        for p in coll_of(v).a[1]:
            fp = instantiate(given(fs, *p.a[2]), tuple(p.a[1]))
            c.decide(any(proves(fp, isin(p.a[0], N), *p.a[1]) for N in Ns), "only recorded namespaces are reported", st, terms.show(p.a[0], 4), kn, r)
            c.decide(any(proves(fp, isin(p.a[0], A), *p.a[1]) for A in As), "only namespaces with activity information are reported", st,
                     terms.show(p.a[0], 4), kn, r)
        ok = any(proves(given(fs, isin(elem(N, 9), A)), isin(elem(N, 9), v), elem(N, 9)) for N in Ns for A in As)
        c.decide(ok, "all recorded namespaces with activity information are reported", st, terms.show(v, 4), kn, r)


def reported(c: Check, r: Result, st: str, v: T, jid: T, items: Sequence[Item], facts: FrozenSet[T], want: Callable[[T], T], fn: str) -> None:
    """A set of reported devices: sound entries, and complete over the recorded list (of the devices with ``want``)."""

    Ls = recorded(items, "list", jid=jid)
    occ: List[T] = []
    n = 0
    for gv, w in (v.a[0] if v.op == "ite" else ((TRUE, v),)):
        for p in r.interp.strip_minus(coll_of(w)):
            e = p.a[0]
            d = attr(e, "device_id")
            ok = d.op == "elem" and d.a[0] in Ls and list(p.a[1]).count(d) == 1
            c.decide(ok, "only recorded devices are reported", st, terms.show(d, 4), (e,) + tuple(p.a[2]), r)
            if not ok:
                continue
            n += 1
            f = instantiate(given(facts, gv, *p.a[2]), tuple(p.a[1]))
            if FALSE in f:
                continue
            c.decide(proves(f, want(d), d), "the own device is separated from the others", st, "", tuple(f))
            entry(c, r, st, e, jid, d, f)
            rest = [x for x in p.a[1] if x is not d]
            cond = conj(gv, *p.a[2])
            occ.append(exists([(tuple(rest), frozenset([cond]) if cond.op != "and" else cond.a[0])]) if rest else cond)
    c.some(n, fn + " reports devices", r, st)
    for L in Ls:
        d = elem(L)
        for i in {i.ev.term: i for i in named(items, "load_bytes") if key_class(i.arg("key"))[0] == "identity_key"
                  and key_class(i.arg("key"))[1]["id"] is d}.values():
            fs = given(facts, want(d), mk("isjust", i.ev.term), *stored_ok(occ))
            c.decide(FALSE in fs or proves(fs, disj(*occ), d), "every recorded device with a known identity key is reported", st, "",
                     tuple(fs) + tuple(occ), r)
            dls = {x.ev.term: x for x in named(items, "_download_bundle") if x.arg("device_id") is d and x.arg("bare_jid") is jid}
            c.some(len(dls), "unknown identity keys are looked up in the device's bundles", r, st)
            for x in dls.values():
                ns = x.arg("namespace")
                ok = ns.op == "elem" and load_of(ns.a[0])[0] == "namespaces" and load_of(ns.a[0])[1]["id"] is d
                c.decide(ok, "bundles of the device's recorded namespaces are tried", site(x), terms.show(ns, 4), (ns,), r)
                fs = given(facts, want(d), neg(mk("isjust", i.ev.term)), neg(mk("failed", x.ev.term)), *stored_ok(occ))
                c.decide(FALSE in fs or proves(fs, disj(*occ), d, ns), "every device whose identity key can be obtained from a bundle is reported",
                         st, "", tuple(fs) + tuple(occ), r)


def c31(c: Check) -> None:
    """Every field of every reported entry is traced to its origin (a load of the device's own storage key, or its bundle); membership is
    compared with the recorded list in both directions; the repairs of the record are exactly the documented ones."""

    for fn in ("get_device_information", "get_own_device_information"):
        own = fn.startswith("get_own")
        jid = OWN_JID if own else P(fn, "bare_jid")
        r = c.run(fn)
        n = 0
        for o, items in c.paths(fn):
            facts = path_facts(o)
            st = last_site(items, "SessionManager." + fn)
            for i in once(c, items):
                f = at(facts, i)
                if i in storage_writes([i]):
                    c.decide(i.name != "delete" and repair(c, i, f), "only missing identity keys and dangling namespaces are repaired", site(i),
                             key_literal(i.arg("key")), tuple(f) + (i.arg("key"),), r)
                elif i.name == "_download_bundle":
                    known = {x.ev.term for x in named(items, "load_bytes") if key_class(x.arg("key"))[1].get("id") is i.arg("device_id")}
                    c.decide(any(entails(f, neg(mk("isjust", x))) for x in known), "bundles are only downloaded for unknown identity keys", site(i),
                             "", tuple(f), r)
                    c.decide({"BundleDownloadFailed", "BundleNotFound"} <= i.ev.caught, "a bundle that isn't available is tolerated", site(i))
                else:
                    c.decide(i.name.startswith("load") or i.ev.kind not in ("storage", "backend", "hook", "setfield", "spawn"),
                             "queries do nothing else", site(i), repr(i.ev), (), r)
            if not normal(o):
                c.decide(forwarded(o) and exc(o) not in ("BundleDownloadFailed", "BundleNotFound"), "the query doesn't fail by itself", st, exc(o), (), r)
                continue
            n += 1
            v = ret(r, o)
            if own:
                if v.op != "tuple" or len(v.a[0]) != 2:
                    c.decide(False, "a pair is returned", st, "", (v,), r)
                    continue
                e, v = v.a[0]
                for x in leaves(attr(e, "device_id")):
                    src, pred = pick_parts(x)
                    ok = src is not None and src in recorded(items, "list", jid=jid) and entails(frozenset(pred), eq(mk("bv"), OWN_ID))
                    ok = ok or x.op == "elem" and x.a[0] in recorded(items, "list", jid=jid) and entails(facts, eq(x, OWN_ID))
                    c.decide(ok or x is OWN_ID, "the entry of the own device comes first", st, terms.show(x, 4), (x,), r)
                    if src is not None:
                        known = [t for p in pred for t in subterms(p) if t.op == "isjust"]
                        c.decide(entails(given([], eq(mk("bv"), OWN_ID), *known), conj(*pred)), "the recorded own device is always found", st,
                                 "; ".join(terms.show(p, 4) for p in pred), tuple(pred), r)
                    f = facts
                    if src is not None:
                        f = given(facts, *[terms.subst(p, {mk("bv"): x}) for p in pred])
                    entry(c, r, st, e, jid, x, f)
            reported(c, r, st, v, jid, items, facts, (lambda d: ne(d, OWN_ID)) if own else (lambda d: TRUE), fn)
            # repairs happen whenever something is missing
            for i in [x for x in items if x.name == "load_primitive" and key_class(x.arg("key"))[0] == "trust"]:
                k = key_class(i.arg("key"))[1]["ik"]
                k = k.a[0] if k.op == "b64u" else k
                for x in leaves(k):
                    if x.op == "attr" and is_ev(x.a[0], "_download_bundle"):
                        ss = [s for s in stores(items, "identity_key") if s.arg("value") is x and certain_before(s, i)]
                        c.decide(bool(ss), "an identity key obtained from a bundle is recorded", site(i), "", (x,) + tuple(i.ev.facts), r)
            for L in recorded(items, "list", jid=jid):
                d = elem(L)
                for A in recorded(items, "active", jid=jid, id=d):
                    for N in recorded(items, "namespaces", jid=jid, id=d):
                        gap = exists([((elem(N),), frozenset({neg(isin(elem(N), A))}))])
                        iks = [mk("isjust", x.ev.term) for x in named(items, "load_bytes") if key_class(x.arg("key"))[1].get("id") is d]
                        cover(c, given(facts, *iks[:1]), gap, stores(items, "namespaces"), {"key": key("namespaces", jid=jid, id=d)},
                              "namespaces without activity information are removed from the record", st, r)
        c.some(n, fn + " returns", r)


HEX = 64    # characters of the hexadecimal form of a Curve25519 public key


def number(t: T, env: Dict[T, int], H: T) -> Optional[int]:
    """The value of an integer term, given the length of the string; None if it isn't determined."""

    if t in env:
        return env[t]
    if is_const(t):
        return cval(t) if isinstance(cval(t), int) else None
    if t.op == "len":
        return HEX if t.a[0] is H else HEX // 2 if H.op == "hex" and t.a[0] is H.a[0] else None
    if t.op == "lin":
        vs = [(number(x, env, H), k) for x, k in t.a[0]]
        return None if any(v is None for v, _ in vs) else sum(v * k for v, k in vs) + t.a[1]
    if t.op == "bin" and len(t.a) == 3 and t.a[0] in ("FloorDiv", "Mult", "Mod", "Add", "Sub"):
        x, y = number(t.a[1], env, H), number(t.a[2], env, H)
        if x is None or y is None or t.a[0] in ("FloorDiv", "Mod") and y == 0:
            return None
        return {"FloorDiv": lambda: x // y, "Mult": lambda: x * y, "Mod": lambda: x % y, "Add": lambda: x + y, "Sub": lambda: x - y}[t.a[0]]()
    return None


def spans(v: T, H: T) -> Optional[List[Tuple[int, int]]]:
    """The parts of the string a list consists of, in order; None if the value has another form."""

    if v.op == "tuple":
        parts = [terms.part(x, (), frozenset()) for x in v.a[0]]
    elif v.op == "coll" and v.a[0] in ("list", "tuple"):
        parts = coll_of(v).a[1]
    else:
        return None
    out = []
    for p in parts:
        e, ch, gs = p.a[0], p.a[1], p.a[2]
        if e.op != "slice" or e.a[0] is not H or e.a[3] is not const(1) or gs or len(ch) > 1:
            return None
        rng = [None]
        if ch:
            src = ch[0].a[0] if ch[0].op == "elem" else None
            if src is None or src.op != "range":
                return None
            args = [number(x, {}, H) for x in (src.a[0] if isinstance(src.a[0], tuple) else src.a)]
            if any(x is None for x in args) or not args or len(args) == 3 and args[2] == 0:
                return None
            rng = list(range(*args))
            if len(rng) > 4 * HEX:
                return None
        for x in rng:
            env = {} if x is None else {ch[0]: x}
            lo = number(e.a[1], env, H)
            hi = HEX if e.a[2] is NONE else number(e.a[2], env, H)
            if lo is None or hi is None:
                return None
            out.append(slice(lo, hi).indices(HEX)[:2])
    return out


def format_spec(b: T) -> Optional[str]:
    """How a key that was converted to a number is formatted."""

    if b.op == "fmt" and len(b.a) == 2 and any(x.op == "bound" and x.a[1] == "from_bytes" for x in subterms(b.a[0])):
        return str(b.a[1]).rstrip("}").rpartition(":")[2]
    return None


def c37(c: Check) -> None:
    """The returned value is traced to the identity key; the bounds of the groups are folded to constants for the fixed length of a key."""

    fn = "format_identity_key"
    r = c.run(fn)
    H = mk("hex", mk("extcall", "xeddsa.ed25519_pub_to_curve25519_pub", (P(fn, "identity_key"),)))
    n = 0
    for o, items in c.paths(fn):
        st = last_site(items, "SessionManager." + fn)
        v = ret(r, o)
        if not normal(o):
            c.decide(False, "every identity key can be formatted", st, exc(o), tuple(path_facts(o)), r)
            continue
        n += 1
        bases = {x.a[0] for x in subterms(v) if x.op == "slice"}
        if any(b.op in ("lv", "acc", "fresh", "slice") for b in bases) or not bases:
            c.undecided("the groups are those of the key's Curve25519 form", st, "the groups aren't slices of one string")
            continue
        for b in sorted(bases):
            digits = format_spec(b)
            if digits is not None:
                c.decide(digits.startswith("0"), "leading zeros of the key are kept", st, "a number is formatted as " + digits)
                continue
            simple = all(x.op in ("hex", "extcall", "param", "strm", "const", "concat", "bytes") for x in subterms(b))
            if b is H:
                c.held("the groups are those of the key's Curve25519 form", st)
            elif simple and not any(x.op == "strm" and x.a[0] == "lower" for x in subterms(b)):
                c.decide(False, "the groups are those of the key's Curve25519 form", st, terms.show(b, 6), (b,), r)
            else:
                c.undecided("the groups are those of the key's Curve25519 form", st, terms.show(b, 6))
        sp = spans(v, H) if bases == {H} else None
        if sp is None:
            c.undecided("there are eight groups of eight characters each, in order", st, terms.show(v, 6))
        else:
            c.decide(list(sp) == [(i, i + 8) for i in range(0, HEX, 8)], "there are eight groups of eight characters each, in order", st, str(list(sp)), (v,), r)
    c.some(n, fn + " returns", r)
