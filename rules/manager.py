"""Rules about managing the own device and the loaded backends."""

from rules.common import *
from rules.devices import flat_dict, lists, same, split

NSB = attr(B, "namespace")


def sources(v, depth=6):
    """Where the elements of a collection ultimately come from (terms that aren't built by the code)."""

    out = set()
    if depth <= 0:
        return {v}
    if v.op == "ite":
        for _, x in v.a[0]:
            out |= sources(x, depth - 1)
        return out
    if v.op in ("coll", "dictv", "keysof", "dictof", "ordered"):
        for p in coll_of(v).a[1]:
            e = p.a[0]
            out |= sources(e.a[0], depth - 1) if e.op == "elem" else {e}
        return out
    return {v}


def own_loads(items, facts, cls):
    """Recorded values of the own device: loads whose device id is (known to be) the own one."""

    out = []
    for x in {t for t in recorded(items, cls)} | {s for i in items for a in i.ev.args.values() for s in terms.collect(a, "maybe", "just")
                                                 if load_of(s)[0] == cls}:
        m = load_of(x)[1]
        if m["jid"] is OWN_JID and same(facts, m["id"], OWN_ID):
            out.append(x)
    return sorted(set(out))


def repair(c, i, f):
    """A store that get_device_information makes to repair the record of a listed device: namespaces without activity
    are dropped, an identity key obtained from a bundle is recorded."""

    k, m = key_class(i.arg("key"))
    v = i.arg("value")
    if k == "namespaces" and i.name == "store":
        src = sources(v)
        return all(load_of(x)[0] == "namespaces" and load_of(x)[1]["jid"] is m["jid"] and load_of(x)[1]["id"] is m["id"] for x in src) \
            and all(entails(given(f, *p.a[2]), disj(*[terms.isin(p.a[0], x) for x in
                                               {s for g in p.a[2] for s in subterms(g) if load_of(s)[0] == "active" and load_of(s)[1]["id"] is m["id"]}]))
                    for p in coll_of(v).a[1])
    if k == "identity_key" and i.name == "store_bytes":
        return v.op == "attr" and v.a[1] == "identity_key" and is_ev(v.a[0], "_download_bundle") and v.a[0].a[3][1] is m["jid"] \
            and v.a[0].a[3][2] is m["id"]
    return False


def pairs(v):
    return dict_items(v) if v.op == "dictv" else [(elem(v), item(v, elem(v)), (elem(v),), frozenset())]


def c19(c: Check) -> None:
    """Every effect on every path is compared with the specified purge: the published list minus the own id, the own record minus the
    namespace, the loaded backends minus those of the namespace; order and completeness on every returning path."""

    fn = "purge_backend"
    NS = P(fn, "namespace")
    r = c.run(fn)
    n = 0
    for o, items in c.paths(fn):
        facts = path_facts(o)
        st = last_site(items, "SessionManager." + fn)
        dls = [i for i in named(items, "_download_device_list") if same(at(facts, i), i.arg("namespace"), NS)]
        dl = {i.ev.term for i in dls}
        bundle = named(items, "_delete_bundle")
        ups = named(items, "_upload_device_list")
        fields = [i for i in items if i.ev.kind == "setfield"]
        purges = [i for i in named(items, "purge") if i.ev.kind == "backend"]
        # ---- soundness
        for i in ups:
            f = at(facts, i)
            v = i.arg("device_list")
            base, keys = flat_dict(v)
            c.decide(same(f, i.arg("namespace"), NS), "only the device list of the purged namespace is published", site(i), "", (i.arg("namespace"),))
            ok = base in dl and all(e.op == "del" for e in (v.a[1] if v.op == "dictv" else ())) and all(same(f, x, OWN_ID) for x in keys)
            if not ok and v.op == "dictv" and base is None:
                # rebuilt from the downloaded list
                ok = all(k.op == "elem" and k.a[0] in dl and val is item(k.a[0], k) and tuple(ch) == (k,) and
                         entails(given(f, *g), ne(k, OWN_ID)) for k, val, ch, g in pairs(v)) and \
                    any(entails(given(f, ne(elem(x), OWN_ID)), terms.isin(elem(x), v)) for x in dl)
            c.decide(ok, "the published list keeps all other devices and their labels", site(i), "", (v,))
            c.decide(entails(f, neg(terms.isin(OWN_ID, v))), "the published list doesn't contain the own device", site(i), "", (v,))
        for i in once(c, storage_writes(items)):
            f = at(facts, i)
            k, m = key_class(i.arg("key"))
            v = i.arg("value")
            kn = tuple(f) + (i.arg("key"), v)
            if repair(c, i, f):
                c.held("the records of listed devices are only repaired", site(i))
                continue
            ok = i.name == "store" and k in ("active", "namespaces") and m["jid"] is OWN_JID and same(f, m["id"], OWN_ID)
            c.decide(ok, "purging a backend only changes the activity and namespaces of the own device", site(i), key_literal(i.arg("key")), kn)
            if not ok:
                continue
            rec = own_loads(items, f, k)
            c.decide(entails(f, neg(terms.isin(NS, v))), "the purged namespace is removed from the own record", site(i), k, kn)
            if k == "active":
                vals = [v2 for v2 in leaves(v)]
                ok = all(load_of(x)[0] == "active" and x in rec for x in sources(v))
                ok = ok and all(val is item(x.a[0], x) if x.op == "elem" else False for y in vals for x, val, _, _ in pairs(y))
                c.decide(ok, "the recorded activity of other namespaces is kept as it is", site(i), "", kn)
            else:
                c.decide(all(load_of(x)[0] in ("namespaces", "active") and load_of(x)[1]["jid"] is OWN_JID and same(f, load_of(x)[1]["id"], OWN_ID)
                             for x in sources(v)), "no namespace is added to the own record", site(i), "", kn)
            keep = False
            for x in rec:
                d = elem(x)
                hyp = [ne(d, NS)] + ([] if k == "active" else [terms.isin(d, y) for y in own_loads(items, f, "active")])
                keep = keep or entails(given(f, *hyp), terms.isin(d, v))
            c.decide(keep, "all other recorded namespaces of the own device are kept", site(i), k, kn)
        for i in fields:
            f = at(facts, i)
            v = i.arg("value")
            c.decide(c.m.role_fields.get(i.name) is BACKENDS, "purging a backend only changes the loaded backends", site(i), i.name)
            if c.m.role_fields.get(i.name) is BACKENDS:
                src = sources(v)
                c.decide(src <= {BACKENDS}, "no backend is added", site(i), "", (v,))
                fs = instantiate(f, (B,))
                c.decide(entails(given(fs, ne(NSB, NS)), terms.isin(B, v)), "other backends stay loaded", site(i), "", (v,) + tuple(fs))
                c.decide(entails(given(fs, eq(NSB, NS)), neg(terms.isin(B, v))), "the purged backend is unloaded", site(i), "", (v,) + tuple(fs))
        for i in purges:
            f = at(facts, i)
            b = i.ev.recv
            c.decide(b.op in ("elem", "pick") and b.a[0] is BACKENDS and entails(f, eq(attr(b, "namespace"), NS)),
                     "only the backend of the purged namespace is purged", site(i), terms.show(b, 4), (b,) + tuple(f))
        for i in bundle:
            c.decide(same(at(facts, i), i.arg("namespace"), NS) and i.arg("device_id") is OWN_ID,
                     "only the own bundle of the purged namespace is deleted", site(i))
        c.decide(not named(items, "_upload_bundle", "_send_message"), "purging a backend publishes and sends nothing else", st)
        later = [i for i in storage_writes(items) + purges + fields + bundle if any(before(i, d) is not False for d in dls)]
        early = [i for i in purges + fields + bundle for u in ups if before(i, u) is True]
        c.decide(not early, "the own device is taken off the published list before anything is purged", site(early[0]) if early else st)
        late = [i for b in bundle for i in storage_writes(items) + purges + fields + ups if before(i, b) is False and i is not b]
        c.decide(not late, "the own bundle is deleted last", site(late[0]) if late else st)
        if not normal(o):
            c.decide(forwarded(o) or _broken_record(o), "purging a backend doesn't fail by itself", st, exc(o), (), r)
            continue
        n += 1
        # ---- completeness
        if c.some(len(dls), "purge_backend downloads the device list", r, st):
            x = dls[0].ev.term
            c.decide(all(d.arg("bare_jid") is OWN_JID for d in dls), "the own device list is downloaded", site(dls[0]))
            cover(c, facts, terms.isin(OWN_ID, x), ups, {"namespace": NS}, "the own device is removed from the published device list", st, r)
        for k in ("active", "namespaces"):
            w = [i for i in stores(items, k) if key_class(i.arg("key"))[1]["jid"] is OWN_JID and not repair(c, i, at(facts, i))
                 and same(at(facts, i), key_class(i.arg("key"))[1]["id"], OWN_ID)]
            rec = [x for i in items for x in own_loads([i], facts, k)]
            ok = any(covers(facts, terms.isin(NS, x), w, {}) for x in rec) if rec else covers(facts, TRUE, w, {})
            c.decide(ok, f"the {k} of the own device is updated", st, "", tuple(facts), r)
        w = [i for i in fields if c.m.role_fields.get(i.name) is BACKENDS]
        loaded = exists([((B,), frozenset({eq(NSB, NS)}))])
        cover(c, facts, loaded, w, {}, "the backend is unloaded if it is loaded", st, r)
        cover(c, facts, loaded, purges, {}, "the data of a loaded backend is purged", st, r)
        cover(c, facts, TRUE, bundle, {"namespace": NS, "device_id": OWN_ID}, "the own bundle is deleted", st, r)
    c.some(n, "purge_backend returns", r)


def _broken_record(o: Out) -> bool:
    """StopIteration and the like of a storage without the own device: outside the documented states."""

    return exc(o) in ("StopIteration", "NothingException", "KeyError")


# ------------------------------------------------------------------------------------------------- history synchronization
def sync_writes(c, items, name=None):
    return [i for i in items if i.ev.kind == "setfield" and (c.m.role_fields.get(i.name) is SYNC or i.name == c.m.sync_field)]


def c12(c: Check) -> None:
    """The mode flag is found from create / after_history_sync; all its writes in the program are enumerated. Effects of
    after_history_sync are compared with the recorded queues, for a symbolic backend, JID and device."""

    if c.m.sync_field is None:
        c.undecided("the synchronization mode is recognised", "SessionManager.after_history_sync")
        return
    # ---- the mode
    want = {"before_history_sync": TRUE, "create": TRUE, "after_history_sync": FALSE}
    for name in c.m.public():
        r = c.run(name)
        for i in all_items(r):
            if sync_writes(c, [i]):
                v = i.arg("value")
                c.decide(name in want and v is want[name], "only entering and leaving change the synchronization mode", site(i),
                         f"{name} sets it to {terms.show(v, 3)}", (v,))
        if name not in want:
            c.held("an operation leaves the synchronization mode alone", f"SessionManager.{name}")
            continue
        for o in r.outs:
            if normal(o):
                its = items_of(o)
                w = [i for i in sync_writes(c, its) if not i.loops and not i.guards]
                c.decide(bool(w), f"{name} {'enters' if want[name] is TRUE else 'leaves'} the synchronization mode",
                         last_site(its, "SessionManager." + name), "", (), r)
                if name == "before_history_sync":
                    rest = [i for i in its if i not in w]
                    c.decide(not rest, "before_history_sync only enters the synchronization mode", last_site(rest, ""))
    # ---- leaving it
    r = c.run("after_history_sync")
    n = sent = 0
    for o, items in c.paths("after_history_sync"):
        facts = path_facts(o)
        st = last_site(items, "SessionManager.after_history_sync")
        w = sync_writes(c, items)
        rest = [i for i in items if i not in w and i.ev.kind in ("storage", "backend", "hook")]
        early = [i for i in rest if not any(certain_before(x, i) for x in w)]
        c.decide(not early, "the synchronization mode is left before anything else happens", site(early[0]) if early else st)
        for i in storage_writes(items):
            k, m = key_class(i.arg("key"))
            c.decide(i.name == "delete" and k in ("queue", "queue_jid") and m["ns"] is NSB, "only queues are changed", site(i),
                     key_literal(i.arg("key")), (i.arg("key"),))
            if k == "queue_jid":
                q = recorded(items, "queue", ns=m["ns"])
                c.decide(any(entails(at(facts, i), terms.isin(m["jid"], x)) for x in q), "only queues of queued JIDs are deleted", site(i), "",
                         (i.arg("key"),))
            loads = [x for x in named(items, "load_list") if x.arg("key") is i.arg("key")]
            c.decide(any(before(x, i) is True for x in loads) and not any(before(i, x) is True for x in loads),
                     "a queue is loaded before it is deleted", site(i))
        for i in named(items, "_send_message", "store_session", "encrypt_key_material"):
            sent += i.name == "_send_message"
            if i.name == "_send_message":
                ss = {s.a[3][0] for s in subterms(i.arg("message")) if is_ev(s, "encrypt_key_material")}
            else:
                ss = {i.arg("session")}
            ok = bool(ss)
            for s in ss:
                so = session_origin(s)
                ok = ok and so is not None and so[0] == "load"
                if ok:
                    _, b, j, d = so
                    f = at(facts, i)
                    ok = b is B and any(entails(f, terms.isin(j, x)) for x in recorded(items, "queue", ns=NSB)) and \
                        any(entails(f, terms.isin(d, x)) for x in recorded(items, "queue_jid", ns=NSB, jid=j))
            c.decide(ok, "only sessions of queued devices are used", site(i), "", tuple(i.ev.args.values()))
        others = named(items, "_upload_bundle", "_delete_bundle", "_upload_device_list", "build_session_active")
        c.decide(not others, "leaving the synchronization mode publishes nothing", site(others[0]) if others else st)
        if not normal(o):
            c.decide(forwarded(o), "leaving the synchronization mode doesn't fail by itself", st, exc(o), (), r)
            continue
        n += 1
        cover(c, facts, TRUE, named(items, "delete_hidden_pre_keys"), {"recv": B}, "the hidden pre keys of every backend are deleted", st, r)
        cover(c, facts, TRUE, deletes(items, "queue"), {"key": key("queue", ns=NSB)}, "the queue of every backend is deleted", st, r)
        qs = [x for x in recorded(items, "queue", ns=NSB) if x.op == "maybe"] or recorded(items, "queue", ns=NSB)
        c.some(len(qs), "after_history_sync loads the queues", r, st)
        for q in qs:
            j = elem(q)
            cover(c, facts, TRUE, deletes(items, "queue_jid"), {"key": key("queue_jid", ns=NSB, jid=j)},
                  "the queue of every queued JID is deleted", st, r)
            ds = [x for x in recorded(items, "queue_jid", ns=NSB, jid=j) if x.op == "maybe"] or recorded(items, "queue_jid", ns=NSB, jid=j)
            c.some(len(ds), "after_history_sync loads the queued devices", r, st)
            for x in ds:
                d = elem(x)
                cover(c, facts, TRUE, named(items, "load_session"), {"recv": B, "bare_jid": j, "device_id": d},
                      "the session of every queued device is loaded", st, r)
                for s in {i.ev.term for i in named(items, "load_session") if i.ev.recv is B and i.arg("bare_jid") is j and i.arg("device_id") is d}:
                    live = ne(s, NONE)
                    cover(c, facts, live, named(items, "encrypt_key_material"), {"recv": B, "session": s},
                          "an empty message is encrypted for every queued device with a session", st, r)
                    sends = [i for i in named(items, "_send_message") if contains(i.arg("message"), s)]
                    cover(c, facts, live, sends, {}, "an empty message is sent to every queued device with a session", st, r, (B, j, d))
                    sts = named(items, "store_session")
                    cover(c, facts, live, sts, {"recv": B, "session": s}, "the session of every queued device is stored", st, r)
                    for i in sts:
                        e = [x2 for x2 in named(items, "encrypt_key_material") if x2.arg("session") is i.arg("session")]
                        c.decide(any(certain_before(x2, i) for x2 in e), "the session is stored after it was used", site(i))
    c.some(n, "after_history_sync returns", r)
    c.some(sent, "after_history_sync sends empty messages", r)


# ------------------------------------------------------------------------------------------------------ publishing
def c24(c: Check) -> None:
    """Per backend (symbolic), on every path: the downloads, comparison and upload of ensure_data_consistency."""

    fn = "ensure_data_consistency"
    r = c.run(fn)
    n = 0
    for i in all_items(r):
        if i.name == "_download_bundle":
            c.decide({"BundleDownloadFailed", "BundleNotFound"} <= i.ev.caught, "an undownloadable or missing bundle is handled", site(i))
    for o, items in c.paths(fn):
        facts = path_facts(o)
        st = last_site(items, "SessionManager." + fn)
        downs = [i for i in named(items, "_download_bundle") if i.arg("bare_jid") is OWN_JID and i.arg("device_id") is OWN_ID]
        locals_ = [i for i in named(items, "get_bundle") if i.ev.kind == "backend"]
        ups = named(items, "_upload_bundle")
        for i in ups:
            v = i.arg("bundle")
            ok = is_ev(v, "get_bundle") and v.a[3][0] is OWN_JID and v.a[3][1] is OWN_ID and v.a[2].op in ("elem", "pick") and v.a[2].a[0] is BACKENDS
            c.decide(ok, "only the current own bundle of a loaded backend is uploaded", site(i), "", (v,))
            if not ok:
                continue
            f = at(facts, i)
            alts = [disj(mk("failed", d.ev.term), ne(d.ev.term, v)) for d in downs if same(f, d.arg("namespace"), attr(v.a[2], "namespace"))]
            c.prove_any(f, alts or [FALSE], "a bundle is uploaded only if the published one is missing or differs", site(i))
        c.decide(not named(items, "_delete_bundle", "_send_message"), "ensuring consistency publishes nothing else", st)
        if not normal(o):
            c.decide(forwarded(o) and exc(o) not in ("BundleDownloadFailed", "BundleNotFound"), "ensuring consistency doesn't fail by itself", st,
                     exc(o), (), r)
            continue
        n += 1
        dls = named(items, "_download_device_list")
        cover(c, facts, TRUE, dls, {"namespace": NSB, "bare_jid": OWN_JID}, "the own device list of every backend is refreshed", st, r)
        for x in {i.ev.term for i in dls if i.arg("namespace") is NSB}:
            d = elem(x)
            for old in [y for y in lists(items, OWN_JID) if y.op == "maybe"]:
                cover(c, facts, neg(terms.isin(d, old)), stores(items, "active"), {"key": key("active", jid=OWN_JID, id=d)},
                      "the refreshed device list is recorded", st, r)
            if not lists(items, OWN_JID):
                c.decide(False, "the refreshed device list is recorded", st, "", (), r)
        cover(c, facts, TRUE, locals_, {"recv": B, "bare_jid": OWN_JID, "device_id": OWN_ID}, "the current bundle of every backend is considered", st, r)
        cover(c, facts, TRUE, downs, {"namespace": NSB}, "the published bundle of every backend is considered", st, r)
        for l in {i.ev.term for i in locals_ if i.ev.recv is B}:
            for d in {i.ev.term for i in downs if i.arg("namespace") is NSB}:
                fl = mk("failed", d)
                cover(c, facts, fl, ups, {"bundle": l}, "a bundle that can't be downloaded is uploaded again", st, r)
                cover(c, facts, conj(neg(fl), ne(d, l)), ups, {"bundle": l}, "a bundle that differs from the published one is uploaded", st, r)
    c.some(n, fn + " returns", r)


def c30(c: Check) -> None:
    """The stored label and every published device list are compared with the downloaded list plus the new label."""

    fn = "set_own_label"
    LABEL = P(fn, "own_label")
    r = c.run(fn)
    n = 0
    for o, items in c.paths(fn):
        facts = path_facts(o)
        st = last_site(items, "SessionManager." + fn)
        dls = named(items, "_download_device_list")
        ups = named(items, "_upload_device_list")
        for i in storage_writes(items):
            k, m = key_class(i.arg("key"))
            c.decide(i.name == "store" and i.arg("key") is key("label", jid=OWN_JID, id=OWN_ID) and i.arg("value") is LABEL,
                     "only the own label is stored", site(i), key_literal(i.arg("key")), (i.arg("key"), i.arg("value")))
        for i in ups:
            f = at(facts, i)
            v = i.arg("device_list")
            base, keys = flat_dict(v)
            if any(k.op == "acc" for k in keys):
                c.decide(False, "the published list is the downloaded one with only the own entry changed", site(i),
                         "entries of the lists of other backends are published as well")
                continue
            c.decide(base is not None and is_ev(base, "_download_device_list") and base.a[3][1] is OWN_JID
                     and same(f, base.a[3][0], i.arg("namespace")) and all(x is OWN_ID for x in keys),
                     "the published list is the downloaded one with only the own entry changed", site(i), "", (v,))
            c.decide(v.op == "dictv" and terms.dict_lookup(v, OWN_ID) is LABEL, "the own device is published with the new label", site(i), "", (v,))
        c.decide(not named(items, "_upload_bundle", "_delete_bundle", "_send_message"), "changing the label publishes nothing else", st)
        if not normal(o):
            c.decide(forwarded(o), "changing the label doesn't fail by itself", st, exc(o), (), r)
            continue
        n += 1
        cover(c, facts, TRUE, stores(items, "label"), {}, "the new label is stored", st, r)
        cover(c, facts, TRUE, dls, {"namespace": NSB, "bare_jid": OWN_JID}, "the device list of every backend is downloaded", st, r)
        cover(c, facts, TRUE, ups, {"namespace": NSB}, "the device list of every backend is published", st, r)
    c.some(n, fn + " returns", r)


# -------------------------------------------------------------------------------------------------------- sessions
def device_records(items, cls, jid, d):
    return sorted({s for i in items for t in [*i.ev.args.values(), *i.guards, *i.ev.facts] for s in subterms(t)
                   if load_of(s)[0] == cls and load_of(s)[1]["jid"] is jid and load_of(s)[1]["id"] is d})


def supports(items, b, jid, d):
    """The device's recorded namespaces (with activity information) include the backend's."""

    ns = attr(b, "namespace")
    rec = device_records(items, "namespaces", jid, d)
    act = device_records(items, "active", jid, d)
    return [terms.isin(ns, x) for x in rec], conj(*[terms.isin(ns, x) for x in rec + act]) if rec else None


def has_session(items, b, jid, d):
    """Forms of: the backend has a session with the device."""

    out = []
    for t in {i.ev.term for i in named(items, "load_session")} | {s for i in items for g in [*i.guards, *i.ev.facts] for s in subterms(g)
                                                                    if is_ev(s, "load_session")}:
        if t.a[3][0] is not jid or t.a[3][1] is not d:
            continue
        if t.a[2] is b:
            out.append(ne(t, NONE))
        if t.a[2].op == "elem" and t.a[2].a[0] is BACKENDS:
            v = t.a[2]
            w = elem(BACKENDS, 7)
            t2 = terms.subst(t, {v: w})
            out.append(exists([((w,), frozenset({eq(attr(w, "namespace"), attr(b, "namespace")), ne(t2, NONE)}))]))
    return out


def c25(c: Check) -> None:
    """Effects of replace_sessions per backend (symbolic): which sessions are attempted, what has to precede storing one, and the
    returned failures compared with the failing operations."""

    from osa.interp import HOOK_EXC
    fn = "replace_sessions"
    DEV = P(fn, "device")
    JID, ID = attr(DEV, "bare_jid"), attr(DEV, "device_id")
    r = c.run(fn)
    n = 0
    OPS = ("encrypt_empty", "_download_bundle", "build_session_active", "_send_message", "store_session")
    for o, items in c.paths(fn):
        facts = path_facts(o)
        st = last_site(items, "SessionManager." + fn)
        for i in once(c, storage_writes(items)):
            c.decide(repair(c, i, at(facts, i)) and key_class(i.arg("key"))[1]["jid"] is JID, "stored information is only repaired", site(i),
                     key_literal(i.arg("key")), (i.arg("key"), i.arg("value")))
        builds = named(items, "build_session_active")
        work = [i for i in items if i.name in OPS and (i.ev.kind == "backend" or i.name == "_send_message"
                                                       or i.name == "_download_bundle" and any(contains(b.arg("bundle"), i.ev.term) for b in builds))]
        for i in builds:
            f = at(facts, i)
            b, d = i.ev.recv, i.arg("device_id")
            c.decide(b.op == "elem" and b.a[0] is BACKENDS and i.arg("bare_jid") is JID and same(f, d, ID), "a session with the given device is replaced",
                     site(i), "", tuple(i.ev.args.values()))
            bundle = i.arg("bundle")
            c.decide(is_ev(bundle, "_download_bundle") and bundle.a[3][0] is attr(b, "namespace") and bundle.a[3][1] is JID and bundle.a[3][2] is d,
                     "the new session is built with a freshly downloaded bundle of the device", site(i), "", (bundle,))
            sup, _ = supports(items, b, JID, d)
            c.prove_any(f, sup or [FALSE], "sessions are only replaced for backends the device supports", site(i))
            c.prove_any(f, has_session(items, b, JID, d) or [FALSE], "sessions are only replaced for backends that have one", site(i))
        for i in named(items, "store_session"):
            s = i.arg("session")
            so = session_origin(s)
            c.decide(so is not None and so[0] == "active" and so[1] is i.ev.recv, "only a newly built session is stored", site(i), "", (s,))
            if so is None:
                continue
            sends = [x for x in named(items, "_send_message", ok=True) if contains(x.arg("message"), item(s.a[0], const(1)))
                     and same(at(facts, x), x.arg("bare_jid"), JID)]
            c.decide(any(certain_before(x, i) for x in sends), "the new session is stored only after its message was sent", site(i))
        for i in work:
            need = set(HOOK_EXC.get(i.name, ())) - {"DecryptionFailed"}
            if i.ev.kind == "backend":
                need |= {"StorageException"}
            c.decide(need <= i.ev.caught, "the failure of one backend doesn't stop the others", site(i), f"{', '.join(sorted(need - i.ev.caught))} escapes")
        c.decide(not named(items, "_upload_bundle", "_delete_bundle", "_upload_device_list"), "replacing sessions publishes nothing", st)
        if not normal(o):
            c.decide(forwarded(o) and exc(o) not in ("KeyExchangeFailed", "MessageSendingFailed", "BundleNotFound", "BundleDownloadFailed"),
                     "replacing sessions doesn't fail by itself", st, exc(o), (), r)
            continue
        n += 1
        res = ret(r, o)
        if res.op != "dictv":
            c.decide(False, "the failures are returned", st, "", (res,), r)
            continue
        for k, v, ch, g in dict_items(res):
            f = instantiate(given(facts, *g), tuple(ch))
            src = dict(v.a[1]).get("<from>") if v.op == "excobj" else None
            b = next((x for x in ch if x.op == "elem" and x.a[0] is BACKENDS), None)
            c.decide(b is not None and k is attr(b, "namespace"), "failures are reported under the namespace of their backend", st, "", (k,))
            if src is not None:
                ok = entails(f, mk("failed", src)) and b is not None and (src.a[2] is b or any(contains(a, b) for a in src.a[3]))
                c.decide(ok, "exactly the failure of the backend is reported", st, terms.show(v, 4), (v,) + tuple(f))
            elif v.op == "excobj":
                mism = [ne(attr(i.arg("bundle"), "identity_key"), y) for i in builds for g2 in i.guards | g for s in subterms(g2)
                        for y in [s] if load_of(s)[0] == "identity_key" or s.op == "ite"]
                ik = [t for g2 in g for t in subterms(g2) if t.op == "eq" and any(x.op == "attr" and x.a[1] == "identity_key" for x in t.a)]
                c.decide(any(entails(f, neg(t)) for t in ik) or any(entails(f, m) for m in mism),
                         "a failure is reported only for a failed operation or a mismatching identity key", st, terms.show(v, 4), (v,) + tuple(f))
            else:
                c.decide(False, "the failure itself is reported", st, terms.show(v, 4), (v,), r)
        ids = {i.arg("device_id") for i in named(items, "load_session")}
        c.some(len(ids), "replace_sessions looks for existing sessions", r, st)
        done = [i for i in named(items, "store_session", ok=True)]
        for d in ids:
            _, sup = supports(items, B, JID, d)
            hs = has_session(items, B, JID, d)
            if sup is None or not hs:
                continue
            occ = [x for x in (occurrence(i, {"recv": B}) for i in done) if x is not None]
            good = disj(terms.isin(NSB, res), *occ)
            # the namespaces of loaded backends are unique: all forms of "has a session" are equivalent
            ok = any(proves(given(facts, sup, h), good, B) for h in hs)
            c.decide(ok, "every backend the device supports and has a session with is attempted", st, "", tuple(facts) + (good, sup), r)
    c.some(n, fn + " returns", r)


def c32(c: Check) -> None:
    """Effects and the returned mapping of the queries."""

    for fn in ("get_sending_chain_length", "format_identity_key"):
        r = c.run(fn)
        for i in all_items(r):
            bad = i in storage_writes([i]) or i in network([i]) or i.ev.kind == "setfield" or i.name in (
                "store_session", "generate_pre_keys", "rotate_signed_pre_key", "delete_pre_key", "hide_pre_key", "delete_hidden_pre_keys",
                "purge", "purge_bare_jid", "build_session_active", "build_session_passive", "encrypt_key_material", "decrypt_key_material")
            c.decide(not bad or repair(c, i, i.ev.facts | i.guards), f"{fn} changes nothing", site(i), repr(i.ev))
        c.held(f"{fn} was analysed", "SessionManager." + fn)
    fn = "get_sending_chain_length"
    DEV = P(fn, "device")
    r = c.run(fn)
    n = 0
    for o, items in c.paths(fn):
        facts = path_facts(o)
        st = last_site(items, "SessionManager." + fn)
        if not normal(o):
            c.decide(forwarded(o), "the query doesn't fail by itself", st, exc(o), (), r)
            continue
        n += 1
        res = ret(r, o)
        if res.op != "dictv":
            c.decide(False, "a mapping is returned", st, "", (res,), r)
            continue
        named_ = terms.isin(NSB, attr(DEV, "namespaces"))
        fs = given(facts, named_)
        c.decide(proves(fs, terms.isin(NSB, res), B), "every loaded backend the device supports is reported", st, "", tuple(fs) + (res,), r)
        for k, v, ch, g in dict_items(res):
            b = next((x for x in ch if x.op == "elem" and x.a[0] is BACKENDS), None)
            f = instantiate(given(facts, *g), tuple(ch))
            c.decide(b is not None and k is attr(b, "namespace") and entails(f, terms.isin(k, attr(DEV, "namespaces"))),
                     "only loaded backends the device supports are reported", st, terms.show(k, 4), (k,) + tuple(f))
            for gv, x in (v.a[0] if v.op == "ite" else ((TRUE, v),)):
                fs = given(f, gv)
                ls = {s for t in (*fs, x) for s in subterms(t) if is_ev(s, "load_session") and s.a[2] is b and s.a[3][0] is attr(DEV, "bare_jid")
                      and s.a[3][1] is attr(DEV, "device_id")}
                if is_const(x):
                    c.decide(x is NONE and any(entails(fs, eq(s, NONE)) for s in ls), "None is reported exactly without a session", st,
                             terms.show(x, 3), (x,) + tuple(fs))
                else:
                    c.decide(any(x is attr(s, "sending_chain_length") and entails(fs, ne(s, NONE)) for s in ls),
                             "the sending chain length of the stored session is reported", st, terms.show(x, 4), (x,) + tuple(fs))
    c.some(n, fn + " returns", r)
