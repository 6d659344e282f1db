"""Rules about SessionManager.encrypt."""

from rules.common import *

PER_DEVICE = {"BundleDownloadFailed", "BundleNotFound", "KeyExchangeFailed"}
USES = ("build_session_active", "encrypt_key_material")
ORDER = P("encrypt", "backend_priority_order")
JIDS = P("encrypt", "bare_jids")


def encrypt_paths(c: Check):
    r = c.run("encrypt")
    return r, c.paths("encrypt")


def fresh_trust(c: Check, items, use_facts, jid, dev):
    """Trust evaluations in the facts that concern (jid, dev) and its recorded identity key, with the load of the level."""

    out = []
    for t in trust_terms(use_facts):
        j, ik, lvl = t.a
        if j is not jid or not is_identity_key(ik, jid, dev):
            continue
        lds = level_loads(lvl, jid, ik)
        if lds is None:
            continue
        out.append((t, lds))
    return out


def is_fresh(loads, items, i) -> bool:
    """Every load of the level happens after each trust decision that precedes i."""

    by = items_by_term(items)
    decisions = [d for d in named(items, "_make_trust_decision") if before(d, i) is True]
    for ld in loads:
        sites = by.get(ld, [])
        for d in decisions:
            if not any(before(d, x) is True for x in sites):
                return False
    return True


def c01(c: Check) -> None:
    """Trust gate."""

    r, paths = encrypt_paths(c)
    n = 0
    seen = set()
    for o, items in paths:
        for i in named(items, *USES):
            if id(i.cell) in seen:
                continue
            seen.add(id(i.cell))
            n += 1
            jid, dev = device_of_use(i)
            if jid is None:
                c.decide(False, "key material is encrypted for a session of an identifiable device", site(i), "",
                         (i.arg("session"),))
                continue
            facts = i.ev.facts | i.guards
            cands = [eq(t, TRUSTED) for t, lds in fresh_trust(c, items, facts, jid, dev) if is_fresh(lds, items, i)]
            c.prove_any(facts, cands, "key material is encrypted only for a device whose current trust level (stored for "
                        "its own identity key, read after any trust decision) evaluates to TRUSTED", site(i))
    c.some(n, "encrypt encrypts key material for recipient devices", r)

    # decisions: at most one, on exactly the undecided devices; nothing undecided afterwards
    for o, items in paths:
        ds = named(items, "_make_trust_decision")
        for d in ds:
            c.decide(not d.loops and not d.chain, "the trust decision is requested once for all devices", site(d))
            c.prove(d.ev.facts, nonempty(coll_of(d.arg("undecided"))),
                    "a trust decision is requested only if there are undecided devices", site(d))
            c.decide(d.arg("identifier") is P("encrypt", "identifier"), "the caller's identifier is handed to the decision",
                     site(d), "", (d.arg("identifier"),))
            u = coll_of(d.arg("undecided"))
            for p in u.a[1]:
                e, chain, guards = p.a
                jid, dev = attr(e, "bare_jid"), attr(e, "device_id")
                fs = d.ev.facts | guards
                cands = [eq(t, UNDEC) for t, _ in fresh_trust(c, items, fs, jid, dev)]
                c.prove_any(fs, cands, "only undecided devices are handed to the trust decision", site(d))
                c.decide(not (u.a[2]), "no undecided device is taken out of the decision", site(d), "", (u,))
        c.decide(len(ds) <= 1, "at most one trust decision per call", site(ds[-1]) if ds else "")
        if o.sig != "return" and exc(o) not in ("NoEligibleDevices",):
            continue
        done = set()
        for i in named(items, *USES):
            jid, dev = device_of_use(i)
            if jid is None or (jid, dev) in done:
                continue
            done.add((jid, dev))
            facts = i.ev.facts | i.guards
            for t, lds in fresh_trust(c, items, facts, jid, dev):
                if not is_fresh(lds, items, i) or not entails(facts, eq(t, TRUSTED)):
                    continue
                base = frozenset(f for f in facts | o.st.facts if not contains(f, t) or f.op == "not" and f.a[0].op == "exists")
                c.prove(instantiate(base, i.chain), ne(t, UNDEC),
                        "with an undecided recipient device left, encrypt raises StillUndecided", site(i))
                break
            if ds:
                # the same device, had it been undecided before, was part of the decision
                u = coll_of(ds[0].arg("undecided"))
                ok = False
                for p in u.a[1]:
                    e, chain, guards = p.a
                    if attr(e, "bare_jid") is jid and attr(e, "device_id") is dev:
                        pre = [t for t, _ in fresh_trust(c, items, guards, jid, dev)]
                        fs = facts | {eq(t, UNDEC) for t in pre}
                        ok = ok or entails(fs, conj(*guards))
                c.decide(ok, "every undecided recipient device is part of the trust decision", site(ds[0]), "", (u,))
    for o, items in paths:
        if exc(o) == "StillUndecided":
            good = False
            for f in o.st.facts:
                if f.op == "exists" and all(any(entails(x.a[1], eq(t, UNDEC)) and is_fresh(lds, items, items[-1])
                                                 for t in trust_terms(x.a[1])
                                                 for lds in [level_loads(t.a[2], t.a[0], t.a[1])] if lds)
                                             for x in f.a[0]):
                    good = True
            c.decide(good, "StillUndecided is raised only if a device is still undecided after the decision",
                     site(items[-1]) if items else "encrypt", "", tuple(o.st.facts))
    c.some(sum(exc(o) == "StillUndecided" for o, _ in paths), "encrypt raises StillUndecided", r)


# ---------------------------------------------------------------------------------------------------------
def bundle_bindings(facts, bundle, backend, jid, dev):
    """Formulas saying that the bundle was published for namespace/jid/dev."""

    if is_ev(bundle, "_download_bundle"):
        ns, j, d = bundle.a[3][:3]
        return [conj(eq(ns, attr(backend, "namespace")), eq(j, jid), eq(d, dev)),
                conj(eq(attr(bundle, "namespace"), attr(backend, "namespace")), eq(attr(bundle, "bare_jid"), jid),
                     eq(attr(bundle, "device_id"), dev)),
                conj(eq(attr(bundle, "namespace"), attr(backend, "namespace")), eq(j, jid), eq(d, dev))]
    return [conj(eq(attr(bundle, "namespace"), attr(backend, "namespace")), eq(attr(bundle, "bare_jid"), jid),
                 eq(attr(bundle, "device_id"), dev))]


def c03(c: Check) -> None:
    """Identity key binding."""

    seen = set()
    n = m = 0
    for entry in c.m.public():
        r = c.run(entry)
        for i in all_items(r):
            if i.name == "build_session_active":
                n += 1
                facts = i.ev.facts | i.guards
                jid, dev, bundle = i.arg("bare_jid"), i.arg("device_id"), i.arg("bundle")
                cands = []
                pool = {t for f in facts for t in subterms(f) if t.op in ("ite", "attr", "just")}
                ours = attr(bundle, "identity_key")
                for t in sorted(pool):
                    if is_identity_key(t, jid, dev) and t is not ours:
                        cands.append(eq(t, ours))
                c.prove_any(facts, cands, "a session is built only from a bundle whose identity key equals the device's "
                            "recorded identity key", site(i))
                c.prove_any(facts, bundle_bindings(facts, bundle, i.ev.recv, jid, dev),
                            "a session is built only from a bundle of the same namespace, bare JID and device id", site(i))
            elif i.name == "build_session_passive":
                m += 1
                facts = i.ev.facts | i.guards
                jid, dev, kex = i.arg("bare_jid"), i.arg("device_id"), i.arg("key_exchange")
                pool = {t for f in facts for t in subterms(f) if t.op in ("ite", "attr", "just")}
                cands = [eq(t, attr(kex, "identity_key")) for t in sorted(pool) if is_identity_key(t, jid, dev)]
                c.prove_any(facts, cands, "a session is built from a received key exchange only if its identity key equals "
                            "the sending device's recorded identity key", site(i))
    c.some(n, "sessions are built actively", c.run("encrypt"))
    c.some(m, "sessions are built passively", c.run("decrypt"))
    # an existing record is never replaced by a different key
    k = 0
    for entry in c.m.public():
        if entry == "create":
            continue
        for i in all_items(c.run(entry)):
            if i.name in ("store", "store_bytes") and key_class(i.arg("key"))[0] == "identity_key":
                k += 1
                _, comp = key_class(i.arg("key"))
                lds = [t for f in i.ev.facts for t in subterms(f) if is_ev(t, "load_bytes")
                       and key_class(t.a[3][0])[0] == "identity_key" and key_class(t.a[3][0])[1] == comp]
                c.prove_any(i.ev.facts, [neg(mk("isjust", t)) for t in lds],
                            "the identity key of a device is recorded only if none is recorded yet", site(i))
                v = i.arg("value")
                c.decide(v.op == "attr" and v.a[1] == "identity_key" and is_ev(v.a[0], "_download_bundle")
                         and v.a[0].a[3][1] is comp["jid"] and v.a[0].a[3][2] is comp["id"],
                         "the identity key recorded for a device is the one of a bundle of that device", site(i), "", (v,))


def chosen_namespaces(facts, backend):
    """Terms known to equal the backend's namespace."""

    ns = attr(backend, "namespace")
    out = [ns]
    for f in facts:
        if f.op == "eq" and ns in f.a:
            out.append(f.a[1] if f.a[0] is ns else f.a[0])
    return out


def pick_parts(t: T):
    """(source collection, predicate atoms over bv) of a first-match choice."""

    if t.op == "pick":
        return t.a[0], t.a[1]
    if t.op == "attr" and t.a[1] == "namespace" and t.a[0].op == "pick" and t.a[0].a[0] is BACKENDS:
        # the first loaded backend whose namespace qualifies
        bv = mk("bv")
        return terms.coll("list", [terms.part(attr(B, "namespace"), (B,), frozenset())]), \
            frozenset(terms.subst(p, {attr(bv, "namespace"): bv}) for p in t.a[0].a[1])
    return None, None


def active_load(t: T, x: T, jid: T, dev: T) -> bool:
    v = t.a[1] if t.op == "in" and t.a[0] is x else t.a[0].a[0] if t.op == "truthy" and t.a[0].op == "item" and t.a[0].a[1] is x else None
    k, m, _ = load_of(v) if v is not None else (None, {}, None)
    return k == "active" and m["jid"] is jid and m["id"] is dev


def supported_by(p: T, x: T, jid: T, dev: T, facts: FrozenSet[T] = frozenset()) -> bool:
    """p says that x is one of the namespaces recorded for the device (possibly restricted to those with a status)."""

    if p.op == "exists":
        return all(len(y.a[0]) == 1 and y.a[0][0].op == "elem" and load_of(y.a[0][0].a[0])[0] == "namespaces"
                   and load_of(y.a[0][0].a[0])[1] == {"jid": jid, "id": dev} and eq(y.a[0][0], x) in y.a[1] for y in p.a[0])
    if p.op in ("or", "and"):
        # a combination over several loads of the record: every way of satisfying it supports x, and being supported satisfies it
        about = [t for t in subterms(p) if t.op in ("in", "truthy", "exists") and x in set(subterms(t))]
        yes = [t for t in about if t.op != "truthy" and supported_by(t, x, jid, dev, facts)]
        act = [t for t in about if t not in yes and t.op in ("in", "truthy") and active_load(t, x, jid, dev)]
        return bool(yes) and len(yes) + len(act) == len(about) and entails(frozenset([p]), disj(*yes)) \
            and entails(facts | frozenset(yes + act), p)
    if p.op != "in" or p.a[0] is not x:
        return False
    for v in leaves(p.a[1]):
        k, m, _ = load_of(v)
        if k == "namespaces" and m["jid"] is jid and m["id"] is dev:
            continue
        if v.op != "coll" or v.a[2] or not v.a[1]:
            return False
        for q in v.a[1]:
            k, m, _ = load_of(q.a[0].a[0]) if q.a[0].op == "elem" else (None, {}, None)
            if k != "namespaces" or m["jid"] is not jid or m["id"] is not dev:
                return False
            for g in q.a[2]:
                ok = g.op == "in" and g.a[0] is q.a[0]
                k, m, _ = load_of(g.a[1]) if ok else (None, {}, None)
                if k != "active" or m["jid"] is not jid or m["id"] is not dev:
                    return False
    return True


def c04(c: Check) -> None:
    """Recipient and backend selection."""

    r, paths = encrypt_paths(c)
    own_ns = exists([((B,), frozenset({eq(attr(B, "namespace"), elem(ORDER))}))])
    unavailable = exists([((elem(ORDER),), frozenset({neg(own_ns)}))])
    seen = set()
    n = 0
    for o, items in paths:
        last = site(items[-1]) if items else "SessionManager.encrypt"
        if forwarded(o):
            continue
        if exc(o) == "UnknownNamespace":
            c.prove(o.st.facts, conj(ne(ORDER, NONE), unavailable),
                    "UnknownNamespace is raised only for a priority order naming a namespace without loaded backend", last)
            c.decide(not items, "an unknown namespace is rejected before anything else happens", last)
            continue
        c.prove(o.st.facts, disj(eq(ORDER, NONE), neg(unavailable)),
                "a priority order naming a namespace without loaded backend is rejected with UnknownNamespace", last)
        lists = [i for i in items if i.name == "load_list" and key_class(i.arg("key"))[0] == "list"]
        own = [i for i in lists if key_class(i.arg("key"))[1]["jid"] is OWN_JID and not i.chain]
        ok = any(entails(o.st.facts, conj(*i.guards)) for i in own)
        c.decide(ok, "the devices of the own bare JID are always considered", last, "", (), r)
        X = elem(JIDS)
        oth = [i for i in lists if key_class(i.arg("key"))[1]["jid"] is X and i.chain == (X,)]
        ok = any(entails(o.st.facts | {ne(X, OWN_JID)}, conj(*i.guards)) for i in oth)
        c.decide(ok, "the devices of every recipient bare JID are considered", last, "", (), r)
        for i in named(items, *USES):
            if id(i.cell) in seen:
                continue
            seen.add(id(i.cell))
            n += 1
            jid, dev = device_of_use(i)
            if jid is None:
                continue
            facts = i.ev.facts | i.guards
            c.decide(jid is OWN_JID or (jid.op == "elem" and jid.a[0] is JIDS),
                     "key material is encrypted only for devices of the recipients and the own bare JID", site(i), "", (jid,))
            ok = dev.op == "elem" and any(k == "list" and m["jid"] is jid for s in [dev.a[0]] for k, m, _ in [load_of(s)])
            c.decide(ok, "recipient devices come from the stored device list of their bare JID", site(i), "", (dev,))
            c.prove(facts, disj(ne(jid, OWN_JID), ne(dev, OWN_ID)), "the own device is never a recipient", site(i))
            b = i.ev.recv
            cands = []
            for ns in chosen_namespaces(facts, b):
                for t in {t for f in facts for t in subterms(f) if is_ev(t, "load_dict")}:
                    k, m = key_class(t.a[3][0])
                    if k == "active" and m["jid"] is jid and m["id"] is dev:
                        cands.append(truthy(item(mk("just", t), ns)))
            c.prove_any(facts, cands, "a device is only addressed via a namespace it is active on", site(i))
            # the first namespace in priority order that the device supports and is active on
            good, terms_ = False, []
            for ns in chosen_namespaces(facts, b):
                src, pred = pick_parts(ns)
                if src is None:
                    continue
                terms_.append(ns)
                order_ok = False
                while src.op == "coll" and src.a[0] in ("list", "tuple") and len(src.a[1]) == 1 and not src.a[2] \
                        and src.a[1][0].a[0].op == "elem" and src.a[1][0].a[1] == (src.a[1][0].a[0],) and src.a[1][0].a[0].a[0] is not BACKENDS:
                    # a copy of a sequence, maybe with some elements left out
                    pred = pred | terms.subst(src.a[1][0].a[2], {src.a[1][0].a[0]: mk("bv")})
                    src = src.a[1][0].a[0].a[0]
                if src is ORDER:
                    order_ok = entails(facts, ne(ORDER, NONE))
                else:
                    s = coll_of(src)
                    order_ok = len(s.a[1]) == 1 and s.a[1][0].a[0] is attr(B, "namespace") and not s.a[1][0].a[2] \
                        and entails(facts, eq(ORDER, NONE))
                bv = mk("bv")
                whole = conj(*pred)
                about = [t for t in subterms(whole) if t.op in ("in", "truthy", "exists") and bv in set(subterms(t))
                         and not (t.op == "exists" and not supported_by(t, bv, jid, dev, facts))]
                yes = [t for t in about if t.op != "truthy" and supported_by(t, bv, jid, dev, facts)]
                act = [t for t in about if t not in yes and t.op in ("in", "truthy") and active_load(t, bv, jid, dev)]
                on = [t for t in act if t.op == "truthy"]
                if bool(yes) and bool(on) and len(yes) + len(act) == len(about) and entails(facts | pred, conj(disj(*yes), disj(*on))) \
                        and entails(facts | frozenset(yes + act), whole):
                    good = good or order_ok
                    continue
                act = sup = False
                rest = []
                for p in pred:
                    if p.op == "truthy" and p.a[0].op == "item" and p.a[0].a[1] is bv:
                        k, m, _ = load_of(p.a[0].a[0])
                        if k == "active" and m["jid"] is jid and m["id"] is dev:
                            act = True
                            continue
                    if supported_by(p, bv, jid, dev, facts):
                        sup = True
                        continue
                    rest.append(p)
                if order_ok and act and sup and not rest:
                    good = True
            c.decide(good, "a device is addressed via the first namespace in priority order that it supports and is active on",
                     site(i), "", tuple(terms_) if terms_ else tuple(facts))
    # nobody but the own device is left out for its id or bare JID
    for i in all_items(r):
        if i.name != "load_session" or not i.loops:
            continue
        jid, dev = i.arg("bare_jid"), i.arg("device_id")
        fs = i.ev.facts | i.guards
        for f in ([conj(ne(jid, OWN_JID), eq(dev, OWN_ID))] if jid is not OWN_JID else []):
            c.decide(not entails(fs, neg(f)), "a device of another bare JID is addressed even if it shares the own device's id",
                     site(i), "", tuple(fs))
    own = [i for i in all_items(r) if i.name == "load_session" and not entails(
        given(i.ev.facts | i.guards, eq(i.arg("bare_jid"), OWN_JID), ne(i.arg("device_id"), OWN_ID)), FALSE)]
    c.decide(bool(own), "the other devices of the own account are addressed", "SessionManager.encrypt", "", (), r)
    c.some(n, "encrypt encrypts key material for recipient devices", r)


def c05(c: Check) -> None:
    """Sessions advanced by encrypt are persisted before it returns; a refused call persists nothing."""

    r, paths = encrypt_paths(c)
    n = 0
    for o, items in paths:
        sts = named(items, "store_session", ok=True)
        if o.sig != "return":
            if exc(o) in ("NoEligibleDevices", "StillUndecided", "UnknownNamespace"):
                c.decide(not sts, f"no session is persisted by a call that raises {exc(o)}", site(sts[0]) if sts else "encrypt")
            continue
        for i in named(items, *USES, ok=True):
            n += 1
            s = session_of_use(i)
            facts = i.ev.facts | i.guards | o.st.facts
            cover = [x for x in sts if x.arg("session") is s and x.ev.recv is i.ev.recv and before(i, x) is not False]
            c.decide(covered_by_cases(i, cover, facts),
                     "every session used to encrypt key material is stored, in its own backend, before encrypt returns",
                     site(i), "a path leaves the advanced session unsaved", tuple(x.arg("session") for x in sts), r)
        for x in sts:
            src = session_origin(x.arg("session"))
            c.decide(src is not None and src[1] is x.ev.recv, "a session is stored in the backend it belongs to", site(x), "",
                     (x.arg("session"), x.ev.recv))
    c.some(n, "encrypt uses sessions on a returning path", r)


def _returned(r, o):
    v = ret(r, o)
    if v.op == "tuple" and len(v.a[0]) == 2:
        return v.a[0]
    return None


def _messages(d):
    out = []
    for k, v, chain, guards in dict_items(d):
        out.append((k, v, chain, guards))
    return out


def nt_fields(t: T):
    return dict(t.a[1]) if t.op == "nt" else {}


def key_parts(msgs):
    """(message, key pair term, chain, guards) of every key in every message."""

    for k, v, chain, guards in msgs:
        f = nt_fields(k)
        if "keys" not in f:
            continue
        for p in coll_of(f["keys"]).a[1]:
            yield k, v, p.a[0], chain + p.a[1], guards | p.a[2]


def c06(c: Check) -> None:
    """Per-device failures."""

    r, paths = encrypt_paths(c)
    allowed = {"UnknownNamespace", "StillUndecided", "NoEligibleDevices"}
    for o, items in paths:
        if o.sig == "raise":
            c.decide(exc(o) in allowed or forwarded(o) and exc(o) not in PER_DEVICE, "a problem with a single device does not abort encrypt",
                     site(items[-1]) if items else "SessionManager.encrypt", f"raises {exc(o)}")
    need = {"_download_bundle": {"BundleDownloadFailed", "BundleNotFound"}, "build_session_active": {"KeyExchangeFailed"}}
    for i in all_items(r):
        if i.name in need:
            c.decide(need[i.name] <= i.ev.caught, f"{', '.join(sorted(need[i.name]))} of a single device is handled", site(i),
                     "the exception escapes encrypt")
        if i.name == "build_session_active":
            facts = i.ev.facts | i.guards
            c.prove_any(facts, bundle_bindings(facts, i.arg("bundle"), i.ev.recv, i.arg("bare_jid"), i.arg("device_id")),
                        "whether a device can be reached depends on its own bundle only", site(i))
    n = 0
    X = elem(JIDS)
    for o, items in paths:
        if o.sig != "return":
            continue
        v = _returned(r, o)
        if v is None:
            c.decide(False, "encrypt returns messages and errors", "SessionManager.encrypt", "", (ret(r, o),))
            continue
        errs = coll_of(v[1])
        if unmodelled(v[0]) or unmodelled(v[1]):
            c.undecided("every eligible device is either addressed or reported", "SessionManager.encrypt",
                        "the returned collections contain unmodelled constructs")
            continue
        msgs = _messages(v[0])
        eps = []
        for p in errs.a[1]:
            f = nt_fields(p.a[0])
            if p.a[0].op != "nt" or p.a[0].a[0] != "EncryptionError":
                c.decide(False, "errors are reported as EncryptionError", "SessionManager.encrypt", "", (p.a[0],))
                continue
            eps.append((f, p.a[1], p.a[2]))
        keys = list(key_parts(msgs))
        for i in named(items, "load_session"):
            if not i.loops:
                continue
            n += 1
            jid, dev, b = i.arg("bare_jid"), i.arg("device_id"), i.ev.recv
            cases = []
            for k, mv, e, chain, guards in keys:
                s = _key_session(e)
                if s is not None and s[1] is b and s[2] is jid and s[3] is dev and set(chain) <= set(i.chain):
                    cases.append(conj(*guards))
            for f, chain, guards in eps:
                if f["namespace"] is attr(b, "namespace") and f["bare_jid"] is jid and f["device_id"] is dev \
                        and set(chain) <= set(i.chain):
                    cases.append(conj(*guards))
            facts = i.ev.facts | i.guards
            c.decide(not any(g.op == "earlier" and any(contains(x, v) for v in g.a[1:] for x in (jid, dev, b)) for g in i.guards),
                     "the loop over the recipient devices runs to its end", site(i), "the devices left over when the loop is "
                     "left early neither get key material nor are reported", tuple(facts))
            c.decide(entails(facts, disj(*cases)), "every eligible, trusted device either gets key material in the message of "
                     "its namespace or is reported as an EncryptionError with its namespace, bare JID and device id", site(i),
                     "a device can be dropped silently", tuple(facts))
            for x in items:
                if x.ev.failed is None or x.name not in need or not certain_before(i, x):
                    continue
                xf = x.ev.facts | x.guards
                rep = []
                for f, chain, guards in eps:
                    e = f["exception"]
                    if e.op == "excobj" and e.a[0] == x.ev.failed and dict(e.a[1]).get("<from>") is x.ev.term \
                            and f["namespace"] is attr(b, "namespace") and f["bare_jid"] is jid and f["device_id"] is dev \
                            and set(chain) <= set(x.chain):
                        rep.append(conj(*guards))
                c.decide(bool(rep) and entails(xf, disj(*rep)), f"a {x.ev.failed} of a single device is reported with its cause",
                         site(x), "", tuple(xf) + tuple(f["exception"] for f, _, _ in eps))
            c.decide(all(eligibility_atom(g, jid, dev) for g in i.ev.facts - o.st.facts),
                     "no device is left out for a reason other than namespace, activity, trust or missing data", site(i),
                     "; ".join(show(g, 4) for g in i.ev.facts - o.st.facts if not eligibility_atom(g, jid, dev))[:300],
                     tuple(i.ev.facts))
        # recipients without a single device
        F = assume(ne(X, OWN_JID), instantiate(o.st.facts, (X,))) or frozenset({FALSE})
        good = False
        for D in F:
            if D.op == "exists" and all(_successful(y, X, eps, F) for y in D.a[0]):
                good = True
        c.decide(good, "encrypt returns only if each recipient other than the own bare JID has a device that was encrypted for",
                 "SessionManager.encrypt", "a recipient can end up without any device and no error", tuple(o.st.facts), r)
    c.some(n, "encrypt looks up sessions of recipient devices", r)
    k = 0
    for o, items in paths:
        if exc(o) != "NoEligibleDevices":
            continue
        k += 1
        args = dict(o.exc.val.a[1]) if o.exc.val.op == "excobj" else {}
        js = args.get("bare_jids")
        st = site(items[-1]) if items else "SessionManager.encrypt"
        if js is None:
            c.decide(False, "NoEligibleDevices carries the affected bare JIDs", st, "", (o.exc.val,))
            continue
        cl = coll_of(r.interp.fz(o.st, js))
        c.prove(o.st.facts, nonempty(cl), "NoEligibleDevices is raised only for a non-empty set of recipients", st)
        for p in cl.a[1]:
            e, chain, guards = p.a
            c.prove(guards, ne(e, OWN_JID), "the own bare JID never causes NoEligibleDevices", st)
            c.decide(e is X, "NoEligibleDevices names recipients", st, "", (e,))
            bad = []
            for i in named(items, *USES, ok=True):
                jid, dev = device_of_use(i)
                if jid is e and consistent_all(one_backend(instantiate(guards | i.ev.facts | i.guards, i.chain), i.chain)):
                    bad.append(i)
            c.decide(not bad, "a recipient with a device that was encrypted for is not reported as ineligible",
                     site(bad[0]) if bad else st, "", tuple(guards))
    c.some(k, "encrypt raises NoEligibleDevices", r)


def eligibility_atom(g: T, jid: T, dev: T) -> bool:
    """g restricts recipients only by membership, own device, data availability, activity, trust or namespace."""

    if g.op in ("and", "or"):
        return all(eligibility_atom(x, jid, dev) for x in g.a[0])
    if g.op == "not":
        return eligibility_atom(g.a[0], jid, dev)
    if g.op in ("isjust", "failed", "exists", "in"):
        return True
    if g.op == "eq":
        if any(x.op == "trust" for x in g.a):
            return True
        if set(g.a) <= {jid, dev, OWN_JID, OWN_ID} or OWN_JID in g.a or OWN_ID in g.a:
            return True
        if any(x.op == "attr" and x.a[1] == "namespace" for x in g.a):
            return True
        return False
    if g.op == "truthy":
        t = g.a[0]
        if t.op == "item":
            k, m, _ = load_of(t.a[0])
            return k == "active"
        return False
    return False


def one_backend(fs: FrozenSet[T], chain: Sequence[T]) -> FrozenSet[T]:
    """Loaded backends have distinct namespaces: "some backend with this namespace" is the one in scope with the namespace."""

    ns = {}
    for b in chain:
        if b.op == "elem" and b.a[0] is BACKENDS:
            for f in fs:
                if f.op == "eq" and attr(b, "namespace") in f.a:
                    ns[f.a[1] if f.a[0] is attr(b, "namespace") else f.a[0]] = b
    m = {}
    for d in {t for f in fs for t in subterms(f) if t.op == "exists"} if ns else ():
        alts, new = [], []
        for y in d.a[0]:
            v = y.a[0][0] if len(y.a[0]) == 1 and y.a[0][0].op == "elem" and y.a[0][0].a[0] is BACKENDS else None
            b = next((ns[x] for g in y.a[1] if v is not None and g.op == "eq" and attr(v, "namespace") in g.a for x in g.a if x in ns), None)
            if b is None:
                alts.append((y.a[0], y.a[1]))
            else:
                new.append(conj(*[terms.subst(g, {v: b}) for g in y.a[1]]))
        if new:
            m[d] = disj(exists(alts), *new) if alts else disj(*new)
    if not m:
        return fs
    out = frozenset()
    for f in sorted(fs):
        g = terms.subst(f, m)
        if g is not TRUE:
            out = assume(g, out)
            if out is None:
                return frozenset({FALSE})
    return out


def consistent_all(fs) -> bool:
    return not entails(frozenset(fs), FALSE)


def together(a, b):
    """Both sets of facts, propagated; None when they contradict."""

    fs = frozenset(a)
    for g in b:
        r = assume(g, fs)
        if r is None:
            return None
        fs = r
    return None if entails(fs, FALSE) else fs


def _key_session(e: T):
    if e.op != "tuple" or len(e.a[0]) != 2:
        return None
    ek = e.a[0][0]
    if is_ev(ek, "encrypt_key_material"):
        return session_origin(ek.a[3][0])
    if ek.op == "item" and is_ev(ek.a[0], "build_session_active") and is_const(ek.a[1]) and cval(ek.a[1]) == 1:
        return session_origin(item(ek.a[0], const(0)))
    return None


def _successful(y, X, eps, F) -> bool:
    """Every binding of the alternative is a device of X without a reported error."""

    chain, guards = y.a
    fs = instantiate(guards | F, chain)
    if not consistent_all(fs):
        return True
    if not any(entails(guards, eq(t, TRUSTED)) for t in trust_terms(guards)):
        return False
    for f, ch, eg in eps:
        if f["bare_jid"] is not X:
            continue
        if f["device_id"] in chain and together(fs, eg) is not None \
                and consistent_all(instantiate(together(fs, eg), tuple(chain) + tuple(v for v in ch if v not in chain))):
            return False
    return any(f["device_id"] in chain for f, _, _ in eps if f["bare_jid"] is X)


def c07(c: Check) -> None:
    """Message composition."""

    r, paths = encrypt_paths(c)
    n = 0
    for o, items in paths:
        if o.sig != "return":
            continue
        v = _returned(r, o)
        if v is None or has_unknown(v[0]):
            c.undecided("messages are well-formed", "SessionManager.encrypt", "unmodelled construct in the returned value")
            continue
        msgs = _messages(v[0])
        for k, val, chain, guards in msgs:
            n += 1
            f = nt_fields(k)
            st = "SessionManager.encrypt"
            if k.op != "nt" or k.a[0] != "Message":
                c.decide(False, "messages are Message objects", st, "", (k,))
                continue
            ep = val.a[0] if val.op == "item" else val
            if not is_ev(ep, "encrypt_plaintext"):
                c.decide(False, "each message is returned with the key material of its own content", st, "", (val,))
                continue
            b = ep.a[2]
            c.decide(val is item(ep, const(1)) and f["content"] is item(ep, const(0)),
                     "each message is returned with the key material of its own content", st, "", (val, f["content"]))
            c.decide(b.op == "elem" and b.a[0] is BACKENDS and f["namespace"] is attr(b, "namespace"),
                     "a message carries the namespace of the backend that encrypted it", st, "", (f["namespace"], b))
            c.decide(f["bare_jid"] is OWN_JID and f["device_id"] is OWN_ID, "a message names the own device as sender", st, "",
                     (f["bare_jid"], f["device_id"]))
            c.decide(ep.a[3][0] is item(P("encrypt", "plaintext"), attr(b, "namespace")),
                     "the plaintext given for the backend's namespace is encrypted", st, "", (ep.a[3][0],))
            for p in coll_of(f["keys"]).a[1]:
                e, ch, g = p.a
                check_key_pair(c, e, guards | g | o.st.facts, b, item(ep, const(1)), st)
        keys = list(key_parts(msgs))
        for i in named(items, *USES, ok=True):
            s = session_of_use(i)
            want = item(i.ev.term, const(1)) if i.name == "build_session_active" else i.ev.term
            cases = [conj(*g) for k, mv, e, ch, g in keys if e.op == "tuple" and e.a[0][0] is want and set(ch) <= set(i.chain)]
            facts = i.ev.facts | i.guards | o.st.facts
            c.decide(bool(cases) and entails(facts, disj(*cases)),
                     "all encrypted key material ends up in a returned message", site(i), "", tuple(facts))
    c.some(n, "encrypt returns messages", r)
    # empty messages, in every entry point
    k = 0
    for entry in c.m.public():
        for i in all_items(c.run(entry)):
            if i.name == "_send_message":
                k += 1
                f = nt_fields(i.arg("message"))
                if not f:
                    c.decide(False, "empty messages are Message objects", site(i), "", (i.arg("message"),))
                    continue
                ct = f["content"]
                ep = ct.a[0] if ct.op == "item" else ct
                if not is_ev(ep, "encrypt_empty"):
                    c.decide(False, "automatically sent messages are empty messages", site(i), "", (ct,))
                    continue
                b = ep.a[2]
                c.decide(ct is item(ep, const(0)) and f["namespace"] is attr(b, "namespace") and f["bare_jid"] is OWN_JID
                         and f["device_id"] is OWN_ID, "an empty message names its backend's namespace and the own device",
                         site(i), "", (f["namespace"], f["bare_jid"], f["device_id"]))
                ks = coll_of(f["keys"])
                c.decide(len(ks.a[1]) == 1, "an empty message has one recipient", site(i), "", (ks,))
                for p in ks.a[1]:
                    check_key_pair(c, p.a[0], i.ev.facts | i.guards | p.a[2], b, item(ep, const(1)), site(i),
                                   to=i.arg("bare_jid"))
    c.some(k, "empty messages are sent", c.run("decrypt"))


def check_key_pair(c: Check, e: T, facts, b: T, pkm: T, st: str, to=None) -> None:
    if e.op != "tuple" or len(e.a[0]) != 2:
        c.decide(False, "keys are pairs of encrypted key material and optional key exchange", st, "", (e,))
        return
    ek, kx = e.a[0]
    if is_ev(ek, "encrypt_key_material"):
        s, mat, recv = ek.a[3][0], ek.a[3][1], ek.a[2]
    elif ek.op == "item" and is_ev(ek.a[0], "build_session_active") and is_const(ek.a[1]) and cval(ek.a[1]) == 1:
        s, mat, recv = item(ek.a[0], const(0)), ek.a[0].a[3][3], ek.a[0].a[2]
    else:
        c.decide(False, "keys contain key material encrypted by the backend", st, "", (ek,))
        return
    c.decide(mat is pkm and recv is b, "the key material in a message belongs to the message's content and backend", st, "",
             (mat, recv))
    if to is not None:
        org = session_origin(s)
        c.decide(to is attr(s, "bare_jid") or (org is not None and org[2] is to),
                 "an empty message is sent to the peer of its session", st, "", (to, s))
    cond = conj(eq(attr(s, "initiation"), ACTIVE), neg(truthy(attr(s, "confirmed"))))
    built = ek.op == "item"
    alts = kx.a[0] if kx.op == "ite" else ((TRUE, kx),)
    for g, v in alts:
        fs = assume(g, frozenset(facts))
        if fs is None:
            continue
        if v is attr(s, "key_exchange"):
            if built:
                c.held("the key exchange is included for a session that was just built", st)
            else:
                c.prove(fs, cond, "the key exchange is included only while an actively built session is unconfirmed", st)
        elif v is NONE:
            c.prove(fs, neg(cond), "the key exchange is left out only if the session is confirmed or was built passively", st)
        else:
            c.decide(False, "the key exchange in a message is the one of its session", st, "", (v, s))
