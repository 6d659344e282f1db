"""Rules about stored device information: device lists, purges, labels, queries."""

from rules.common import *


def lists(items, jid):
    """The recorded device list of a JID, as loaded on the path."""

    return recorded(items, "list", jid=jid)


def c18(c: Check) -> None:
    """For a symbolic device of the recorded list, every key of the inferred layout that belongs to the JID has to be deleted, the
    JID removed from every queue, and every backend told; no key of another JID may be written."""

    jid = P("purge_bare_jid", "bare_jid")
    r = c.run("purge_bare_jid")
    n = 0
    for o, items in c.paths("purge_bare_jid"):
        facts = path_facts(o)
        st = last_site(items, "SessionManager.purge_bare_jid")
        for i in once(c, storage_writes(items)):
            cls, m = key_class(i.arg("key"))
            f = at(facts, i)
            if cls == "queue":
                if i.name == "delete":
                    c.undecided("the queue of a namespace keeps the entries of other JIDs", site(i), "deleted")
                    continue
                v = i.arg("value")
                q = recorded(items, "queue", ns=m["ns"])
                c.decide(entails(f, neg(terms.isin(jid, v))), "the queue is stored without the purged JID", site(i), "", tuple(f) + (v,))
                ok = any(x.op == "maybe" and entails(f | {ne(elem(x), jid)}, terms.isin(elem(x), v)) for x in q)
                c.decide(ok, "the queue of a namespace keeps the entries of other JIDs", site(i), "", tuple(f) + (v,))
                src = {p.a[0] for p in coll_of(v).a[1]}
                c.decide(all(x.op == "elem" and x.a[0] in q for x in src), "nothing is added to a queue by purging", site(i), "", (v,))
                continue
            c.decide(cls is not None and "jid" in m and (m["jid"] is jid or entails(f, eq(m["jid"], jid))) and i.name == "delete",
                     "purging a bare JID only deletes information of that JID", site(i), key_literal(i.arg("key")), (i.arg("key"),))
        c.decide(not network(items), "purging a bare JID publishes and sends nothing", st)
        if not normal(o):
            c.decide(forwarded(o), "purging a bare JID doesn't fail by itself", st, exc(o), (), r)
            continue
        n += 1
        ls = lists(items, jid)
        c.some(len(ls), "purge_bare_jid loads the device list of the JID", r, st)
        for L in ls[:1]:
            d = elem(L)
            for cls in ("namespaces", "active", "label", "identity_key"):
                cover(c, facts, TRUE, deletes(items, cls), {"key": key(cls, jid=jid, id=d)},
                      f"the {cls.replace('_', ' ')} of every recorded device of the JID is deleted", st, r)
            iks = [i for i in named(items, "load_bytes") if key_class(i.arg("key"))[0] == "identity_key"]
            c.some(len(iks), "purge_bare_jid loads the identity keys of the JID's devices", r, st)
            for i in iks:
                m = key_class(i.arg("key"))[1]
                if m["id"] is not d:
                    continue
                ik = mk("just", i.ev.term)
                cover(c, facts, mk("isjust", i.ev.term), deletes(items, "trust"), {"key": key("trust", jid=jid, ik=mk("b64u", ik))},
                      "the trust assigned to every known identity key of the JID's devices is deleted", st, r)
                early = [x for x in deletes(items, "identity_key") if before(x, i) is True]
                c.decide(not early, "identity keys are loaded before they are deleted", site(i))
            cover(c, facts, TRUE, deletes(items, "list"), {"key": key("list", jid=jid)}, "the device list of the JID is deleted", st, r)
            early = [x for x in deletes(items, "list") for i in named(items, "load_list")
                     if key_class(i.arg("key"))[0] == "list" and before(x, i) is True]
            c.decide(not early, "the device list is loaded before it is deleted", st)
        ns = attr(B, "namespace")
        cover(c, facts, TRUE, deletes(items, "queue_jid"), {"key": key("queue_jid", ns=ns, jid=jid)},
              "the queued devices of the JID are deleted for every backend", st, r)
        for q in recorded(items, "queue", ns=ns):
            if q.op == "maybe":
                cover(c, facts, terms.isin(jid, q), stores(items, "queue"), {"key": key("queue", ns=ns)},
                      "the JID is removed from the queue of every backend", st, r)
        c.some(len(recorded(items, "queue", ns=ns)), "purge_bare_jid loads the queues", r, st)
        cover(c, facts, TRUE, named(items, "purge_bare_jid"), {"recv": B, "bare_jid": jid}, "every loaded backend is told to purge the JID", st, r)
    c.some(n, "purge_bare_jid returns", r)


def c13(c: Check) -> None:
    """Stored values and their guards are compared with the specified update, for a symbolic listed, new and known device."""

    fn = "update_device_list"
    update(c, fn, P(fn, "namespace"), P(fn, "bare_jid"), lambda items: P(fn, "device_list"))


def c36(c: Check) -> None:
    """refresh_device_list is analysed like an update (C13) whose list is the one a download for the given namespace and JID returned;
    refresh_device_lists has to refresh (or download and update) the list of every loaded backend, and do nothing else."""

    fn = "refresh_device_list"
    NS, JID = P(fn, "namespace"), P(fn, "bare_jid")

    def downloaded(items):
        return next((i.ev.term for i in named(items, "_download_device_list", ok=True)
                     if i.arg("namespace") is NS and i.arg("bare_jid") is JID), None)

    update(c, fn, NS, JID, downloaded)
    fn = "refresh_device_lists"
    NS, JID = attr(B, "namespace"), P(fn, "bare_jid")
    r = c.m.run(fn, boundary=("refresh_device_list", "update_device_list"))
    c.entries["SessionManager." + fn] = (len(r.outs), len(all_items(r)))
    whole = "update_device_list" in {i.name for i in all_items(r)} or "refresh_device_list" in {i.name for i in all_items(r)}
    inside = [i for i in all_items(r) if i in storage_writes([i])]
    for o in r.outs:
        items = items_of(o)
        st = last_site(items, "SessionManager." + fn)
        facts = path_facts(o)
        if not normal(o):
            c.decide(forwarded(o), "refreshing doesn't fail for other reasons", st, exc(o), (), r)
            continue
        if not whole and inside:
            c.undecided("the device list of every loaded backend is refreshed", st, "the update isn't processed by update_device_list")
            continue
        ok = []
        for i in once(c, items):
            f = at(facts, i)
            if i.ev.failed is not None:
                continue
            if i.name == "refresh_device_list":
                ok.append(i)
            elif i.name == "update_device_list":
                d = i.arg("device_list")
                good = is_ev(d, "_download_device_list") and any(
                    x.ev.term is d and same(f, x.arg("namespace"), i.arg("namespace")) and same(f, x.arg("bare_jid"), i.arg("bare_jid"))
                    for x in named(items, "_download_device_list", ok=True))
                c.decide(good, "the list that is recorded is the one downloaded for the same namespace and JID", site(i), terms.show(d, 4), (d,), r)
                ok.append(i)
            elif i.name != "_download_device_list":
                c.decide(i.name.startswith("load") or i.ev.kind not in ("storage", "backend", "hook", "setfield", "spawn"),
                         "refreshing does nothing else", site(i), repr(i.ev), (), r)
        for i in ok:
            c.decide(same(at(facts, i), i.arg("bare_jid"), JID), "only the lists of the JID are refreshed", site(i), "", tuple(i.ev.args.values()), r)
        cover(c, facts, TRUE, named(items, "refresh_device_list", "update_device_list", ok=True), {"namespace": NS, "bare_jid": JID},
              "the device list of every loaded backend is refreshed", st, r)


def update(c: Check, fn: str, NS: T, JID: T, the_list: Any) -> None:
    """Judges an entry point that processes a device list."""

    r = c.run(fn)
    loaded = exists([((B,), frozenset({eq(attr(B, "namespace"), NS)}))]) if NS is not attr(B, "namespace") else TRUE
    n = 0
    for o, items in c.paths(fn):
        facts = path_facts(o)
        st = last_site(items, "SessionManager." + fn)
        writes = storage_writes(items)
        if exc(o) == "UnknownNamespace" and not forwarded(o):
            c.prove(facts, neg(loaded), "an update is rejected with UnknownNamespace only if no backend for the namespace is loaded", st)
            c.decide(not writes and not [x for x in network(items) if not x.name.startswith("_download")], "a rejected update has no effect", st)
            continue
        if not normal(o):
            c.decide(forwarded(o), "updates of loaded namespaces aren't rejected", st, exc(o), (), r)
            continue
        n += 1
        c.prove(facts, loaded, "an update for a namespace that isn't loaded is rejected with UnknownNamespace", st)
        LST = the_list(items)
        if LST is None:
            c.decide(False, "the device list of the JID is downloaded", st, "", tuple(facts), r)
            continue
        if LST.op == "ev":
            cover(c, facts, TRUE, named(items, "_download_device_list", ok=True), {"namespace": NS, "bare_jid": JID},
                  "the device list of the JID is downloaded", st, r)
        ls = lists(items, JID)
        if not c.some(len(ls), fn + " loads the recorded device list", r, st):
            continue
        old = next((x for x in ls if x.op == "maybe"), ls[0])

        def listed(d):
            return terms.isin(d, LST)

        def is_own(d):
            return conj(eq(JID, OWN_JID), eq(d, OWN_ID))

        own_label = [x for x in recorded(items, "label") if load_of(x)[1]["jid"] in (OWN_JID, JID) and load_of(x)[1]["id"] is OWN_ID]
        # ---- soundness of every write
        for i in writes:
            k, m = key_class(i.arg("key"))
            f = at(facts, i)
            v = i.arg("value")
            kn = tuple(f) + (i.arg("key"), v)
            c.decide(i.name == "store" and k in ("active", "namespaces", "label", "list") and same(f, m["jid"], JID),
                     "an update only changes the activity, namespaces, labels and device list of the JID", site(i),
                     key_literal(i.arg("key")), kn)
            if k == "list":
                d1, d2 = elem(LST), elem(old)
                c.decide(entails(f, terms.isin(d2, v)), "no device is removed from the recorded device list", site(i), "", kn)
                c.decide(entails(f, terms.isin(d1, v)), "all listed devices are added to the recorded device list", site(i), "", kn)
                ok = all(p.a[0].op == "elem" and p.a[0].a[0] in (LST, old) or p.a[0] is OWN_ID for p in coll_of(v).a[1])
                c.decide(ok, "only listed devices are added to the recorded device list", site(i), "", kn)
                late = [x for x in writes if key_class(x.arg("key"))[0] in STORED and before(i, x) is not False and x is not i
                        and entails(at(facts, x), neg(terms.isin(key_class(x.arg("key"))[1]["id"], old)))]
                c.decide(not late, "a new device is added to the recorded list after its information was stored", site(i),
                         site(late[0]) if late else "")
                continue
            if k not in STORED:
                continue
            d = m["id"]
            isold, isnew = terms.isin(d, old), neg(terms.isin(d, old))
            c.decide(entails(f, disj(isold, listed(d))), "only known and listed devices are updated", site(i), "", kn)
            if k == "active":
                for case, fs in split(f, listed(d)) if not entails(f, is_own(d)) else [(True, f)]:
                    want = case
                    base, puts = flat_dict(v)
                    got = terms.dict_lookup(v, NS) if v.op == "dictv" else None
                    got = simplify_value(got, fs)
                    if not want and entails(fs, is_own(d)):
                        continue
                    c.decide(got is const(want) or got is (TRUE if want else FALSE),
                             "a device is recorded as active exactly if it is listed" + (" (or the own device)" if want else ""), site(i),
                             f"stored {terms.show(got, 4) if got is not None else v.op}", kn)
                    c.decide(all(x is NS or same(fs, x, NS) for x in puts), "the activity of other namespaces is left alone", site(i), "", kn)
                    if base is not None:
                        b = load_of(base)
                        c.decide(b[0] == "active" and b[1]["jid"] is m["jid"] and b[1]["id"] is d,
                                 "the recorded activity of the same device is updated", site(i), "", kn)
                    else:
                        c.decide(entails(fs, isnew), "the activity of other namespaces is kept for known devices", site(i), "", kn)
                    if not want:
                        stored = recorded(items, "namespaces", id=d)
                        acts = recorded(items, "active", id=d)
                        c.decide(any(entails(fs, disj(terms.isin(NS, x))) for x in stored + acts),
                                 "only devices supporting the namespace are marked inactive", site(i), "", kn)
            elif k == "namespaces":
                c.decide(entails(f, disj(listed(d), is_own(d))), "the namespace is only added to listed devices", site(i), "", kn)
                c.decide(entails(f, terms.isin(NS, v)), "the namespace is added", site(i), "", kn)
                for p in coll_of(v).a[1]:
                    e = p.a[0]
                    ok = same(f, e, NS) or e.op == "elem" and load_of(e.a[0])[0] == "namespaces" and load_of(e.a[0])[1]["id"] is d
                    c.decide(ok, "no other namespace is added", site(i), "", kn)
                if not entails(f, isnew):
                    keep = [x for x in recorded(items, "namespaces", id=d)]
                    c.decide(any(entails(f, terms.isin(elem(x), v)) for x in keep), "recorded namespaces are kept", site(i), "", kn)
            elif k == "label":
                alts = v.a[0] if v.op == "ite" else ((TRUE, v),)
                for g, x, (_, fs) in [(g, x, y) for g, x in alts for y in split(f, conj(g, eq(d, OWN_ID)))]:
                    fs = terms.assume(g, fs)
                    if fs is None or entails(fs, FALSE):
                        continue
                    x = resolve([x], fs).get(x, x)
                    fs = resolved(fs)
                    if entails(fs, FALSE):
                        continue
                    own = x in own_label and entails(fs, conj(is_own(d), neg(listed(OWN_ID))))
                    ann = x is item(LST, d) and entails(fs, listed(d)) or x is not None and x.op == "item" and x.a[0] is LST and entails(fs, eq(x.a[1], d))
                    c.decide(own or ann, "the recorded label is the one announced for the device", site(i), terms.show(x, 4), kn)
                    if not own and not entails(fs, isnew):
                        c.decide(entails(fs, ne(x, NONE)), "a missing label never replaces a recorded one", site(i), "", kn)
        # ---- completeness
        d = elem(LST)
        new = neg(terms.isin(d, old))
        for k in STORED:
            cover(c, facts, new, stores(items, k), {"key": key(k, jid=JID, id=d)}, f"the {k} of every new device is stored", st, r)
        cover(c, facts, terms.nonempty(coll("set", [terms.part(d, (d,), frozenset({new}))])), stores(items, "list"),
              {"key": key("list", jid=JID)}, "the device list is stored when there are new devices", st, r)
        d = elem(old)
        here = disj(listed(d), is_own(d))
        path = facts, items
        facts, items = snapshot(facts, items, STORED)
        loads = [i for i in items if i.name.startswith("load") and i.ev.kind == "storage" and key_class(i.arg("key"))[1].get("id") is d]
        for i in {x.ev.term: x for x in loads}.values():
            k = key_class(i.arg("key"))[0]
            v = mk("just", i.ev.term)
            if k == "active":
                cond = conj(here, disj(neg(terms.isin(NS, v)), neg(truthy(item(v, NS)))))
                cover(c, facts, cond, stores(items, "active"), {"key": key("active", jid=JID, id=d)},
                      "every listed known device that isn't active is marked active", st, r)
                for s in [x for x in loads if key_class(x.arg("key"))[0] == "namespaces"]:
                    cond = conj(neg(here), terms.isin(NS, mk("just", s.ev.term)), terms.isin(NS, v), truthy(item(v, NS)))
                    cover(c, facts, cond, stores(items, "active"), {"key": key("active", jid=JID, id=d)},
                          "every known device that isn't listed any more is marked inactive", st, r)
            elif k == "namespaces":
                cover(c, facts, conj(here, neg(terms.isin(NS, v))), stores(items, "namespaces"), {"key": key("namespaces", jid=JID, id=d)},
                      "the namespace is added to every listed known device", st, r)
            elif k == "label":
                cond = conj(listed(d), ne(item(LST, d), NONE), ne(item(LST, d), v))
                cover(c, facts, cond, stores(items, "label"), {"key": key("label", jid=JID, id=d)},
                      "a changed label of a listed known device is stored", st, r)
        for k in STORED:
            c.some(sum(key_class(x.arg("key"))[0] == k for x in loads), f"the recorded {k} of known devices is considered", r, st)
        # ---- the own device
        facts, items = path
        ups = named(items, "_upload_device_list")
        missing = conj(eq(JID, OWN_JID), neg(listed(OWN_ID)))
        cover(c, facts, missing, ups, {"namespace": NS}, "the list is published again if the own device is missing from it", st, r)
        for i in ups:
            f = at(facts, i)
            v = i.arg("device_list")
            c.prove(f, missing, "a device list is published only if the own device is missing", site(i))
            c.decide(same(f, i.arg("namespace"), NS), "the list is published for the updated namespace", site(i))
            base, puts = flat_dict(v)
            c.decide(base is LST and all(x is OWN_ID for x in puts), "the published list keeps all listed devices", site(i), "", (v,))
            c.decide(terms.dict_lookup(v, OWN_ID) in own_label if v.op == "dictv" else False,
                     "the own device is published with its recorded label", site(i), "", (v,))
        c.decide(not named(items, "_upload_bundle", "_delete_bundle", "_send_message"), "an update publishes nothing else", st)
    c.some(n, "update_device_list accepts updates", r)


def same(facts, a, b) -> bool:
    return a is b or entails(frozenset(facts), eq(a, b))


def split(f, cond):
    """The consistent cases of a condition."""

    out = []
    for b, g in ((True, cond), (False, neg(cond))):
        fs = terms.assume(g, f)
        if fs is not None and not entails(fs, FALSE):
            out.append((b, fs))
    return out


def flat_dict(v):
    """(base, keys written) of a dictionary value."""

    if v.op != "dictv":
        return v, []
    return v.a[0], [e.a[0] for e in v.a[1]]


def simplify_value(v, fs):
    if v is None:
        return None
    if v.op == "ite":
        for g, x in v.a[0]:
            if entails(fs, g):
                return x
    return v
