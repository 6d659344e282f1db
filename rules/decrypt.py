"""Rules about SessionManager.decrypt."""

from rules.common import *

MSG = P("decrypt", "message")
USES = ("build_session_passive", "decrypt_key_material")
KEYS_ = attr(MSG, "keys")
CONTENT = attr(MSG, "content")
EMPTY = truthy(attr(CONTENT, "empty"))
ENTRY = "SessionManager.decrypt"


def decrypt_paths(c: Check):
    r = c.run("decrypt")
    return r, c.paths("decrypt")


def same(facts, a: T, b: T) -> bool:
    return a is b or entails(frozenset(facts), eq(a, b))


def uses(items):
    return named(items, *USES)


def key_entry(i: Item):
    """The element of message.keys a key-material operation works on, or None."""

    ek = i.arg("encrypted_key_material")
    if ek.op == "item" and is_const(ek.a[1]) and cval(ek.a[1]) == 0:
        k = ek.a[0]
        if k.op in ("pick", "elem") and k.a[0] is KEYS_:
            return k
    return None


def entries_in(facts, items):
    """Every element of message.keys the path refers to."""

    out = {k for i in uses(items) for k in [key_entry(i)] if k is not None}
    for f in facts:
        if f.op == "not" and f.a[0].op == "exists":
            continue
        for t in subterms(f):
            if t.op in ("pick", "elem") and t.a[0] is KEYS_:
                out.add(t)
    return sorted(out)


def sender_trust(facts):
    """Trust evaluations of the sending device, at the level stored for its identity key."""

    out = []
    for t in trust_terms(facts):
        j, ik, lvl = t.a
        if not same(facts, j, attr(MSG, "bare_jid")):
            continue
        for v in sorted({d for d in device_ids(ik)}):
            if same(facts, v, attr(MSG, "device_id")) and is_identity_key(ik, j, v) and level_loads(lvl, j, ik):
                out.append(t)
    return out


def device_ids(ik: T):
    """The device ids mentioned by the leaves of an identity key."""

    for v in leaves(ik):
        k, m, _ = load_of(v)
        if k == "identity_key":
            yield m["id"]
        elif v.op == "attr" and is_ev(v.a[0], "_download_bundle"):
            yield v.a[0].a[3][2]


def c02(c: Check) -> None:
    """Distrusted senders."""

    r, paths = decrypt_paths(c)
    n = 0
    seen = set()
    for o, items in paths:
        for i in named(items, *USES, "decrypt_plaintext", "store_session", "hide_pre_key", "delete_pre_key", "_send_message"):
            if id(i.cell) in seen:
                continue
            seen.add(id(i.cell))
            n += 1
            facts = i.ev.facts | i.guards
            c.prove_any(facts, [ne(t, DISTRUSTED) for t in sender_trust(facts)],
                        "nothing of a message is decrypted, stored or answered unless the trust level stored for the sending "
                        "device's identity key evaluates to something other than DISTRUSTED", site(i))
        st = site(items[-1]) if items else ENTRY
        if exc(o) == "SenderDistrusted":
            c.prove_any(o.st.facts, [eq(t, DISTRUSTED) for t in sender_trust(o.st.facts)],
                        "SenderDistrusted is raised only if the sending device's trust level evaluates to DISTRUSTED", st)
        elif o.sig == "raise" and not forwarded(o):
            bad = [t for t in sender_trust(o.st.facts) if entails(o.st.facts, eq(t, DISTRUSTED))]
            c.decide(not bad, "a message of a distrusted device is rejected with SenderDistrusted", st, exc(o))
    c.some(n, "decrypt decrypts key material", r)
    c.some(sum(exc(o) == "SenderDistrusted" for o, _ in paths), "decrypt raises SenderDistrusted", r)


def c08(c: Check) -> None:
    """Routing."""

    r, paths = decrypt_paths(c)
    n = 0
    ns, jid, did = (attr(MSG, x) for x in ("namespace", "bare_jid", "device_id"))
    loaded = exists([((B,), frozenset({eq(attr(B, "namespace"), ns)}))])
    K = elem(KEYS_)
    ours = exists([((K,), frozenset({eq(attr(item(K, const(0)), "bare_jid"), OWN_JID),
                                     eq(attr(item(K, const(0)), "device_id"), OWN_ID)}))])
    for o, items in paths:
        facts = path_facts(o)
        st = site(items[-1]) if items else ENTRY
        e = exc(o)
        if o.sig == "raise":
            c.decide(forwarded(o) or e in ("UnknownNamespace", "MessageNotForUs", "SenderNotFound", "SenderDistrusted", "NoSession",
                           "PublicDataInconsistency"), "decrypt rejects messages only for documented reasons", st, e, (), r)
            touched = named(items, "store_session", "hide_pre_key", "delete_pre_key", "generate_pre_keys", "_upload_bundle",
                            "_send_message")
            c.decide(not touched, "a rejected message leaves sessions and pre keys untouched", site(touched[0]) if touched else st)
        if forwarded(o):
            continue
        if e == "UnknownNamespace":
            c.prove(facts, neg(loaded), "UnknownNamespace is raised only if no backend for the message's namespace is loaded", st)
            c.decide(not items, "a message in an unknown namespace is rejected before anything else happens", st)
            continue
        if e == "MessageNotForUs":
            c.prove(facts, neg(ours), "MessageNotForUs is raised only if the message has no key material for the own device", st)
            c.decide(not items, "a message for other devices is rejected before anything else happens", st)
            continue
        if e == "NoSession":
            ks = entries_in(facts, items)
            c.prove_any(facts, [conj(eq(item(k, const(1)), NONE), eq(i.ev.term, NONE))
                                for k in ks for i in named(items, "load_session")],
                        "NoSession is raised only without session and without key exchange", st)
        elif e == "PublicDataInconsistency":
            ks = entries_in(facts, items)
            pool = sorted({t for f in facts for t in subterms(f) if t.op in ("ite", "attr", "just")})
            iks = [t for t in pool for d in device_ids(t) if same(facts, d, did) and is_identity_key(t, jid, d)]
            c.prove_any(facts, [conj(ne(item(k, const(1)), NONE), ne(t, attr(item(k, const(1)), "identity_key")))
                                for k in ks for t in iks],
                        "PublicDataInconsistency is raised only if the key exchange's identity key differs from the recorded "
                        "one", st)
        elif e == "SenderNotFound":
            dl = [i for i in named(items, "_download_device_list") if same(facts, i.arg("namespace"), ns)
                  and same(facts, i.arg("bare_jid"), jid)]
            c.decide(bool(dl), "before giving up on an unknown sender its device list is downloaded", st, "", (), r)
            if dl:
                again = [i for i in items if i.name == "load_list" and key_class(i.arg("key"))[0] == "list"
                         and same(facts, key_class(i.arg("key"))[1]["jid"], jid) and before(dl[0], i) is True]
                c.decide(bool(again), "the sender is looked up again after the device list update", st, "", (), r)
                present = set()
                for f in facts:
                    if f.op == "not" and f.a[0].op == "exists":
                        continue
                    for t in subterms(f):
                        if t.op == "isjust":
                            k, m = key_class(t.a[0].a[3][0])
                            if m.get("id") is did:
                                present.add(t)
                        elif t.op == "in" and t.a[0] is did and load_of(t.a[1])[0] == "list":
                            present.add(t)
                fs = facts
                for f in sorted(present):
                    fs = assume(f, fs) if fs is not None else None
                c.decide(bool(present) and (fs is None or entails(fs, FALSE)),
                         "SenderNotFound is raised only if the sending device is still unknown", st, "", tuple(facts), r)
        if o.sig != "return":
            continue
        us = uses(items)
        if not us:
            c.decide(False, "a returned message was decrypted", st, "", (ret(r, o),), r)
            continue
        n += 1
        c.decide(len(us) == 1, "the key material of a message is decrypted once", site(us[-1]), "", (), r)
        u = us[0]
        b = u.ev.recv
        f = u.ev.facts | u.guards
        c.decide(b.op in ("pick", "elem") and b.a[0] is BACKENDS and same(f, attr(b, "namespace"), ns),
                 "a message is decrypted by the backend of its namespace", site(u), "", (b,))
        k = key_entry(u)
        c.decide(k is not None and same(f, attr(item(k, const(0)), "bare_jid"), OWN_JID)
                 and same(f, attr(item(k, const(0)), "device_id"), OWN_ID),
                 "the key material addressed to the own device is decrypted", site(u), "", (u.arg("encrypted_key_material"),))
        if k is None:
            continue
        kx = item(k, const(1))
        j, d = device_of_use(u)
        c.decide(j is not None and same(f, j, jid) and same(f, d, did),
                 "the session of the sending device is used", site(u), "", (u.arg("session"),))
        if j is None:
            continue
        pkm = u.ev.term if u.name == "decrypt_key_material" else item(u.ev.term, const(1))
        lds = [i for i in named(items, "load_session") if i.ev.recv is b and before(i, u) is True
               and same(f, i.arg("bare_jid"), jid) and same(f, i.arg("device_id"), did)]
        samesess = [conj(ne(i.ev.term, NONE), eq(attr(i.ev.term, "initiation"), PASSIVE),
                         truthy(mk("pure", "builds_same_session", attr(i.ev.term, "key_exchange"), (kx,)))) for i in lds]
        if u.name == "build_session_passive":
            c.decide(u.arg("key_exchange") is kx, "a session is built from the key exchange next to the own key material", site(u),
                     "", (u.arg("key_exchange"),))
            c.prove(f, ne(kx, NONE), "a session is built only if the message contains a key exchange", site(u))
            if not lds:
                c.decide(False, "a key exchange replaces the session only if it does not build the existing one", site(u),
                         "the existing session is not looked up", (), r)
            for i, s in zip(lds[-1:], samesess[-1:]):
                c.prove(f, neg(s), "a key exchange replaces the session only if it does not build the existing one", site(u))
        else:
            org = session_origin(u.arg("session"))
            c.decide(org is not None and org[0] == "load" and org[1] is b, "key material is decrypted with the stored session",
                     site(u), "", (u.arg("session"),))
            c.prove_any(f, [conj(eq(kx, NONE), ne(i.ev.term, NONE)) for i in lds] + samesess,
                        "the stored session is used only without key exchange, or if the key exchange builds that same session",
                        site(u))
        dp = named(items, "decrypt_plaintext")
        v = ret(r, o)
        parts = v.a[0] if v.op == "tuple" else ()
        c.decide(len(parts) == 3 and parts[2] is pkm, "decrypt returns the decrypted key material", st, "", (v,))
        for i in dp:
            c.decide(i.ev.recv is b and i.arg("content") is CONTENT and i.arg("plain_key_material") is pkm,
                     "the content of the message is decrypted with its own key material", site(i), "",
                     (i.ev.recv, i.arg("content"), i.arg("plain_key_material")))
        if len(parts) == 3:
            if dp:
                c.prove(dp[0].ev.facts | facts, neg(EMPTY), "the content of empty messages is not decrypted", site(dp[0]))
                c.decide(parts[0] is dp[0].ev.term, "decrypt returns the decrypted plaintext", st, "", (parts[0],))
            else:
                c.prove(facts, EMPTY, "the content of every message that is not empty is decrypted", st)
                c.decide(parts[0] is NONE, "decrypt returns no plaintext for an empty message", st, "", (parts[0],))
            dv = parts[1]
            c.decide(same(facts, attr(dv, "bare_jid"), jid) and same(facts, attr(dv, "device_id"), did)
                     and any(attr(dv, "identity_key") is t.a[1] and attr(dv, "trust_level_name") is t.a[2]
                             for t in sender_trust(facts)),
                     "decrypt returns the sending device that was subject to the trust check", st, "", (dv,))
    c.some(n, "decrypt returns decrypted messages", r)
    for x in ("UnknownNamespace", "MessageNotForUs", "SenderNotFound", "NoSession", "PublicDataInconsistency"):
        c.some(sum(exc(o) == x for o, _ in paths), f"decrypt raises {x}", r)


def same_session(facts, s: T, u: Item) -> bool:
    """s is the session the key-material operation u works on."""

    return s is session_of_use(u) or entails(frozenset(facts), eq(s, session_of_use(u)))


def c09(c: Check) -> None:
    """Persistence order in decrypt."""

    r, paths = decrypt_paths(c)
    n = 0
    for o, items in paths:
        st = site(items[-1]) if items else ENTRY
        us = uses(items)
        ok_us = [u for u in us if u.ev.failed is None]
        done = ok_us + named(items, "decrypt_plaintext", ok=True)
        sts = named(items, "store_session")
        if o.sig == "raise":
            c.decide(not sts, "no session is stored by a call that does not decrypt the message", site(sts[0]) if sts else st)
            continue
        failed = [i for i in us + named(items, "decrypt_plaintext") if i.ev.failed is not None]
        c.decide(not failed, "a failure to decrypt is not turned into a result", site(failed[0]) if failed else st)
        if not ok_us:
            continue
        u = ok_us[-1]
        n += 1
        facts = o.st.facts | u.ev.facts
        own = [s for s in sts if same_session(facts, s.arg("session"), u) and s.ev.recv is u.ev.recv]
        for s in sts:
            c.decide(s in own, "decrypt stores the session the message was decrypted with, in its backend", site(s), "",
                     (s.arg("session"), s.ev.recv))
            c.decide(all(before(d, s) is True for d in done), "the session is stored only after key material and content were "
                     "decrypted", site(s))
        c.decide(bool(own) and any(not s.loops for s in own), "the advanced session is stored before decrypt returns", st,
                 "a path returns without storing the session", (), r)
        for i in named(items, "hide_pre_key", "delete_pre_key"):
            c.decide(any(certain_before(s, i) for s in own), "the session is stored before its pre key is given up", site(i),
                     "", (), r)
            c.decide(same_session(facts, i.arg("session"), u) and i.ev.recv is u.ev.recv,
                     "the pre key of the session the message was decrypted with is given up", site(i), "", (i.arg("session"),))
        for i in named(items, "encrypt_key_material", ok=True):
            c.decide(any(certain_before(i, s) or before(i, s) and not s.loops for s in own if s.arg("session") is i.arg("session")),
                     "a session advanced by an automatic answer is stored again", site(i), "", (), r)
        for i in named(items, "_send_message", "_upload_bundle", "encrypt_key_material") + \
                [x for k in ("queue", "queue_jid") for x in stores(items, k)]:
            c.decide(any(certain_before(s, i) for s in own), "the session is stored before anything is published, sent or queued",
                     site(i), "", (), r)
    c.some(n, "decrypt decrypts key material", r)


def c10(c: Check) -> None:
    """Pre keys used by a received key exchange."""

    r, paths = decrypt_paths(c)
    n = 0
    for o, items in paths:
        if o.sig != "return":
            continue
        facts = path_facts(o)
        st = site(items[-1]) if items else ENTRY
        us = uses(items)
        k = key_entry(us[0]) if us else None
        if k is None:
            c.undecided("pre key handling", st, "the decrypted key material is not recognised")
            continue
        n += 1
        b = us[0].ev.recv
        kx = item(k, const(1))
        gone = named(items, "hide_pre_key", "delete_pre_key")
        if not gone:
            c.prove(facts, eq(kx, NONE), "a message with key exchange makes decrypt give up the pre key it used", st)
        for i in gone:
            c.prove(i.ev.facts, ne(kx, NONE), "a pre key is given up only for a message with key exchange", site(i))
            c.prove(i.ev.facts, SYNC if i.name == "hide_pre_key" else neg(SYNC),
                    "during history synchronization used pre keys are hidden, otherwise they are deleted", site(i))
        c.decide(len(gone) <= 1, "a pre key is given up once", st)
        if not gone:
            continue
        ch = truthy(gone[0].ev.term)
        changed = entails(facts, ch)
        if not changed and not entails(facts, neg(ch)):
            ups = named(items, "_upload_bundle")
            c.decide(bool(ups), "the bundle is republished after a pre key was used up", st, "", (), r)
        if entails(facts, neg(ch)):
            continue
        check_republish(c, r, facts, [i for i in items if before(gone[0], i) is True], b, st,
                        "after a pre key was used up")
    c.some(n, "decrypt decrypts key material", r)


def check_republish(c: Check, r, facts, items, b: T, st: str, when: str) -> None:
    """Refill to 100 if at or below the threshold, then publish the resulting bundle."""

    ups = [i for i in named(items, "_upload_bundle") if is_ev(i.arg("bundle"), "get_bundle")
           and i.arg("bundle").a[2] is b]
    c.decide(bool(ups), f"the bundle is republished {when}", st, "", (), r)
    if not ups:
        return
    gb = i_of(items, ups[-1].arg("bundle"))
    a = ups[-1].arg("bundle").a[3]
    c.decide(a[0] is OWN_JID and a[1] is OWN_ID, "the published bundle is the one of the own device", site(ups[-1]), "", a)
    nums = [i for i in named(items, "get_num_visible_pre_keys") if i.ev.recv is b]
    gens = [i for i in named(items, "generate_pre_keys") if i.ev.recv is b]
    if not nums:
        c.decide(False, f"visible pre keys are counted {when}", st, "", (), r)
        return
    num = nums[-1].ev.term
    low = le(num, THRESHOLD)
    for g in gens:
        c.prove(g.ev.facts, low, "pre keys are refilled only at or below the threshold", site(g))
        c.decide(g.arg("num_pre_keys") is add(const(100), num, -1), "pre keys are refilled to 100", site(g), "",
                 (g.arg("num_pre_keys"),))
        c.decide(any(before(nums[-1], g) is True for _ in (1,)), "pre keys are counted before refilling", site(g))
        c.decide(gb is not None and before(g, gb) is True, "the bundle is published with the refilled pre keys", site(g), "", (), r)
    if not gens:
        c.prove(facts, neg(low), f"pre keys are refilled at or below the threshold {when}", st)


def i_of(items, term: T):
    xs = [i for i in items if i.ev.term is term]
    return xs[-1] if xs else None


def chain_value(facts, s: T, v) -> bool:
    """Whether the path is possible with the session's receiving chain length being v."""

    m = {attr(s, "receiving_chain_length"): const(v)}
    fs = frozenset()
    for f in facts:
        if f.op == "not" and f.a[0].op == "exists":
            continue
        g = terms.subst(f, m)
        nx = assume(g, fs)
        if nx is None:
            return False
        fs = nx
    return not entails(fs, FALSE)


STALE = (54, 55, 56, 1000, 10 ** 9)
FRESH = (None, 0, 1, 52, 53)


def c11(c: Check) -> None:
    """Session completion and staleness prevention."""

    r, paths = decrypt_paths(c)
    n = sent = queued = 0
    ns, jid, did = (attr(MSG, x) for x in ("namespace", "bare_jid", "device_id"))
    for o, items in paths:
        if o.sig != "return":
            continue
        facts = path_facts(o)
        st = site(items[-1]) if items else ENTRY
        us = uses(items)
        k = key_entry(us[0]) if us else None
        if k is None:
            c.undecided("session completion", st, "the decrypted key material is not recognised")
            continue
        n += 1
        u = us[0]
        s = session_of_use(u)
        kx = item(k, const(1))
        sends = named(items, "_send_message", ok=True)
        q1, q2 = stores(items, "queue"), stores(items, "queue_jid")
        nss, jids, ids = {attr(s, "namespace"), attr(u.ev.recv, "namespace"), ns}, \
            {attr(s, "bare_jid"), jid}, {attr(s, "device_id"), did}
        # the lists already have it, there is nothing to store
        there1 = any(_queued(f, "queue", nss, jids, jids, facts) for f in facts)
        there2 = any(_queued(f, "queue_jid", nss, jids, ids, facts) for f in facts)
        if not sends and not q1 and not q2 and not (there1 and there2 and entails(facts, SYNC)):
            c.prove(facts, eq(kx, NONE), "a message with key exchange is answered by an empty message, now or after "
                    "synchronization", st)
            bad = [v for v in STALE if chain_value(facts, s, v)]
            c.decide(not bad, "a session with more than 53 messages received in a row is answered by an empty message", st,
                     f"possible with {bad[:1]}", tuple(facts))
        elif sends or q1 or q2:
            i0 = (sends + q1 + q2)[0]
            if not entails(facts, ne(kx, NONE)):
                f2 = assume(eq(kx, NONE), facts)
                bad = [v for v in FRESH if f2 is not None and chain_value(f2, s, v)]
                c.decide(not bad, "empty messages are sent only for key exchanges and stale sessions", site(i0),
                         f"possible with a receiving chain of {bad[:1]}", tuple(facts))
        for i in sends:
            sent += 1
            c.prove(i.ev.facts, neg(SYNC), "no empty message is sent during history synchronization", site(i))
            f = dict(i.arg("message").a[1]) if i.arg("message").op == "nt" else {}
            ks = coll_of(f["keys"]).a[1] if "keys" in f else ()
            ok = len(ks) == 1 and ks[0].a[0].op == "tuple" and is_ev(ks[0].a[0].a[0][0], "encrypt_key_material") \
                and same_session(facts, ks[0].a[0].a[0][0].a[3][0], u)
            c.decide(ok, "the empty message answers on the session the message was received on", site(i), "",
                     (i.arg("message"),))
        if q1 or q2:
            queued += 1
            c.decide((bool(q1) or there1) and (bool(q2) or there2), "a postponed empty message is queued for the bare JID and its device",
                     site((q1 + q2)[0]), "", (), r)
            for i in q1 + q2:
                c.prove(i.ev.facts, SYNC, "empty messages are queued only during history synchronization", site(i))
                kc, mm = key_class(i.arg("key"))
                c.decide(any(same(facts, mm["ns"], x) for x in nss), "the queue of the session's namespace is used", site(i), "",
                         (i.arg("key"),))
                if kc == "queue_jid":
                    c.decide(any(same(facts, mm["jid"], x) for x in jids), "the queue of the session's bare JID is used", site(i),
                             "", (i.arg("key"),))
                check_append(c, i, facts, jids if kc == "queue" else ids, items)
    c.some(n, "decrypt decrypts key material", r)
    c.some(sent, "decrypt sends empty messages", r)
    c.some(queued, "decrypt queues empty messages", r)


def check_append(c: Check, i: Item, facts, new, items) -> None:
    """The stored list is what was stored before, plus the new element."""

    v = coll_of(i.arg("value"))
    kept = added = False
    for p in v.a[1]:
        e, ch, g = p.a
        if ch and e is ch[-1] and e.op == "elem" and len(ch) == 1:
            src = e.a[0]
            if src.op == "maybe" and is_ev(src.a[0], "load_list") and src.a[0].a[3][0] is i.arg("key") \
                    and entails(facts, conj(*[x for x in g if not (x.op == "not" and x.a[0].op == "eq")])):
                # elements equal to the new one may be left out, they are added anyway
                rest = [x for x in g if x.op == "not" and x.a[0].op == "eq"]
                kept = kept or all(any(same(facts, y, w) for y in x.a[0].a for w in new) for x in rest)
                continue
        if not ch and any(same(facts, e, w) for w in new):
            absent = assume(conj(*g), facts)
            cond = [x for x in g if not entails(facts, x)]
            # may be skipped only if it is already part of the list
            added = added or not cond or all(_already(x, i.arg("key"), new, facts) for x in cond)
    f0 = facts | i.ev.facts
    if not added and any(f.op == "in" and _in_queue(f, i.arg("key"), new, f0) for f in f0):
        added = True
    c.decide(kept and not v.a[2], "queueing keeps what is queued already", site(i), "", (v,))
    c.decide(added, "queueing adds the session's device", site(i), "", (v,))


def _in_queue(f: T, key: T, new, facts) -> bool:
    src = f.a[1]
    return any(same(facts, f.a[0], w) for w in new) and src.op == "maybe" and is_ev(src.a[0], "load_list") \
        and src.a[0].a[3][0] is key


def _queued(f: T, kind: str, nss, jids, new, facts) -> bool:
    """Is this the fact that a queue has the element?"""

    if f.op != "in" or f.a[1].op != "maybe" or not is_ev(f.a[1].a[0], "load_list"):
        return False
    kc, mm = key_class(f.a[1].a[0].a[3][0])
    return kc == kind and any(same(facts, mm["ns"], x) for x in nss) and any(same(facts, f.a[0], x) for x in new) and (
        kind == "queue" or any(same(facts, mm["jid"], x) for x in jids))


def _already(x: T, key: T, new, facts) -> bool:
    return x.op == "not" and x.a[0].op == "in" and _in_queue(x.a[0], key, new, facts)
