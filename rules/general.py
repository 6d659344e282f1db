"""Rules about the package as a whole: key layout, failures, arguments, deletions."""

import ast
import builtins

from rules.common import *
from rules.rotation import background, started
from rules.storage import both

SM = "SessionManager"


def entries(c: Check, tasks: bool = True) -> List[Tuple[str, str, Result]]:
    out = [(SM, n, c.run(n)) for n in c.m.public()]
    out += [("IdentityKeyPair", n, c.run(n, "IdentityKeyPair")) for n in c.m.public("IdentityKeyPair")]
    for name, _, r, loops in background(c, *started(c)) if tasks else ():
        if r is not None:
            out.append((SM, name.rpartition(".")[2], Result(r.entry, list(r.outs) + [Out("next", s) for s in loops], r.interp)))
    return out


# ---------------------------------------------------------------------------------------------------------- C17 key layout
def kinds(t: T) -> Set[str]:
    """What a component of a storage key is: a namespace, a JID, a device id or an identity key."""

    out: Set[str] = set()
    for x in leaves(t):
        if x.op in ("just", "maybe"):
            k = load_of(x)[0]
            out |= {"identity_key": {"ik"}, "own_device_id": {"id"}}.get(k or "", set())
        elif x is OWN_JID:
            out.add("jid")
        elif x is OWN_ID:
            out.add("id")
        elif x.op == "b64u":
            out |= {"ik"} if "ik" in kinds(x.a[0]) else set()
        elif x.op in ("attr", "param"):
            out |= {"namespace": {"ns"}, "bare_jid": {"jid"}, "sender_bare_jid": {"jid"}, "device_id": {"id"}, "sender_device_id": {"id"},
                    "identity_key": {"ik"}, "own_bare_jid": {"jid"}, "recipient_bare_jid": {"jid"}}.get(str(x.a[1]), set())
        elif x.op in ("elem", "pick"):
            k = load_of(x.a[0])[0] if x.a[0].op in ("just", "maybe") else None
            out |= {"list": {"id"}, "namespaces": {"ns"}, "queue": {"jid"}, "queue_jid": {"id"}}.get(k or "", set())
    return out


def fits(v: T, how: Tuple[str, str]) -> Optional[bool]:
    """Whether a stored value has the type it is loaded as (None: unknown)."""

    kind, prim = how
    if kind in ("load_primitive", "load_optional"):
        if v is NONE:
            return kind == "load_optional"
        if v.op == "ite":
            rs = [fits(x, how) for _, x in v.a[0]]
            return False if False in rs else None if None in rs else True
        ty = terms.typeof(v)
        if terms.is_formula(v):
            ty = "bool"
        if v.op in ("coll", "dictv"):
            return False
        if ty is None or ty == "Any" or "JSON" in ty:
            return None
        if ty.startswith("Optional["):
            return ty[9:-1] == prim if kind == "load_optional" else False
        return ty == prim
    if kind == "load_list":
        if v.op == "coll":
            if v.a[0] not in ("list", "gen", "ordered", "keys") and v.a[0] in ("set", "frozenset"):
                return False
            rs = [fits(p.a[0], ("load_primitive", prim)) for p in v.a[1]]
            return False if False in rs else None if None in rs else True
        if v.op == "dictv":
            return False
        ty = terms.typeof(v)
        if ty is None or "Any" in ty or "JSON" in ty:
            return None
        return ty in (f"List[{prim}]", f"Sequence[{prim}]")
    if kind == "load_dict":
        if v.op == "dictv":
            rs = [fits(e.a[1], ("load_primitive", prim)) for e in v.a[1] if e.op == "put"]
            return False if False in rs else None if None in rs else True
        if v.op == "coll":
            return False
        ty = terms.typeof(v)
        if ty is None or "Any" in ty or "JSON" in ty:
            return None
        return ty.startswith(("Dict[", "Mapping[")) and ty.endswith(f", {prim}]")
    if kind == "load_bytes":
        return None if v.op == "opaque" else True
    return None


def layout(key_: T) -> Optional[Tuple[Any, ...]]:
    """The shape of a key: its constant parts."""

    if is_const(key_) and isinstance(cval(key_), str):
        return (cval(key_),)
    if key_.op == "str":
        return tuple(x if isinstance(x, str) else None for x in key_.a[0])
    return None


def encoding(t: T) -> Optional[Tuple[Any, ...]]:
    """How a component of a key is written: the functions applied to it (None: it was read from storage in this form)."""

    out: List[Any] = []
    while t.op in ("strm", "b64u", "b64", "hex", "fmt"):
        out.append((t.op,) + tuple(x for x in t.a if not isinstance(x, T)))
        t = next((x for x in t.a if isinstance(x, T)), NONE)
    if t.op == "elem" or has_unknown(t):
        return None
    return tuple(out)


def c17(c: Check) -> None:
    """Every storage access of every entry point: keys are classified by their layout, the components by where they come from, and for each class
    the ways it is loaded are compared with each other and with what is stored."""

    loads: Dict[Any, Dict[Tuple[str, str], str]] = {}
    puts: Dict[Any, List[Tuple[Item, Result]]] = {}
    seen: Set[Any] = set()
    forms: Dict[Any, Dict[Any, str]] = {}
    for cls, name, r in entries(c):
        for i in all_items(r):
            if i.ev.kind != "storage":
                continue
            k = i.arg("key")
            kc, comp = key_class(k)
            shape = kc or layout(k)
            if shape is None:
                c.undecided("every storage key belongs to the layout", site(i), terms.show(k, 4))
                continue
            for slot, t in comp.items():
                got = kinds(t)
                if (site(i), slot, t) in seen:
                    continue
                seen.add((site(i), slot, t))
                for x in leaves(t):
                    w = encoding(x)
                    if w is not None:
                        forms.setdefault((shape, slot), {}).setdefault(w, site(i))
                c.decide(not got or got == {slot}, "the components of a key are what the layout says", site(i), f"{slot}: {terms.show(t, 4)}", (t,))
                if slot == "ik":
                    c.decide(t.op == "b64u" and (not kinds(t.a[0]) or kinds(t.a[0]) == {"ik"}), "trust is stored under the encoded identity key", site(i), terms.show(t, 4), (t,))
            if i.name.startswith("load"):
                prim = i.arg("primitive")
                how = (i.name, str(prim.a[0]) if prim.op == "cls" else "")
                loads.setdefault(shape, {}).setdefault(how, site(i))
            elif i.name in ("store", "store_bytes"):
                puts.setdefault(shape, []).append((i, r))
    for (shape, slot), ws in sorted(forms.items(), key=str):
        c.decide(len(ws) == 1, "the components of a key are written in the same form everywhere", next(iter(ws.values())),
                 f"{shape} {slot}: " + ", ".join(f"{'as is' if not w else ' '.join(str((x + (x[0],))[1]) for x in w)} at {s}" for w, s in ws.items()))
    for shape, hows in sorted(loads.items(), key=str):
        st = next(iter(hows.values()))
        c.decide(len(hows) == 1 or {h[0] for h in hows} == {"load"}, "a value is loaded as the same type everywhere", st, ", ".join(f"{a} {b} at {s}" for (a, b), s in hows.items()))
        c.decide(shape in puts, "what is loaded is stored under the same key", st, str(shape))
    done: Set[Any] = set()
    for shape, items in sorted(puts.items(), key=str):
        hows = loads.get(shape, {})
        c.decide(bool(hows), "what is stored is loaded from the same key", site(items[0][0]), str(shape))
        for i, r in items:
            v = i.arg("value")
            if (site(i), v) in done:
                continue
            done.add((site(i), v))
            for how in hows:
                if how[0] == "load":
                    continue
                c.decide((i.name == "store_bytes") == (how[0] == "load_bytes"), "bytes are stored and loaded in the same encoding", site(i), f"{i.name}, {how[0]}")
                ok = fits(v, how)
                if ok is not None:
                    c.decide(ok, "a value is stored as the type it is loaded as", site(i), f"{terms.show(v, 4)} is loaded by {how[0]} {how[1]}", (v,))
    # ---- set_trust
    fn = "set_trust"
    r = c.run(fn)
    want_ik = mk("b64u", P(fn, "identity_key"))
    want = key("trust", jid=P(fn, "bare_jid"), ik=want_ik)
    for o, items in c.paths(fn):
        st = last_site(items, f"{SM}.{fn}")
        if not normal(o):
            c.decide(forwarded(o), "assigning trust doesn't fail by itself", st, exc(o), (), r)
            continue
        ws = storage_writes(items)
        good = [i for i in ws if i.name == "store" and i.arg("key") is want and i.arg("value") is P(fn, "trust_level_name") and not i.chain and i.ev.failed is None]
        # (nothing has to be stored if exactly that level is stored already)
        held = {x for f in o.st.facts for x in terms.collect(f, "maybe", "just") if is_ev(x.a[0], "load_primitive") and x.a[0].a[3][0] is want}
        same = [v for v in held if entails(o.st.facts, eq(v, P(fn, "trust_level_name"))) and (v.op == "just" or v.a[1] is NONE)]
        c.decide(bool(good) or bool(same) and not ws, "exactly the given trust level is assigned to the given identity key", st, "", tuple(x for i in ws for x in (i.arg("key"), i.arg("value"))), r)
        for i in ws:
            c.decide(i in good, "assigning trust changes nothing else", site(i), "", (i.arg("key"), i.arg("value")), r)


# ----------------------------------------------------------------------------------------------------------- C27 failures
# failures that may be dealt with by the operation itself; None: by every operation
TOLERATED: Dict[Tuple[str, str], Optional[Tuple[str, ...]]] = {
    ("_download_bundle", "BundleDownloadFailed"): None, ("_download_bundle", "BundleNotFound"): None,
    ("build_session_active", "KeyExchangeFailed"): ("encrypt",),
}
REPORTED = ("replace_sessions",)  # returns the failures
OWN: Dict[str, Tuple[str, ...]] = {
    "create": ("ValueError",), "update_device_list": ("UnknownNamespace",),
    "encrypt": ("UnknownNamespace", "StillUndecided", "NoEligibleDevices"),
    "decrypt": ("UnknownNamespace", "MessageNotForUs", "SenderNotFound", "SenderDistrusted", "NoSession", "PublicDataInconsistency"),
}


def tolerated(c: Check, entry: str, call: str, e: str, background: bool) -> bool:
    if background:
        return call == "_upload_bundle" and e == "BundleUploadFailed"
    if entry in REPORTED and c.m.p.is_exc_subclass(e, "OMEMOException"):
        return True
    for (cl, x), where in TOLERATED.items():
        if cl == call and c.m.p.is_exc_subclass(e, x) and (where is None or entry in where):
            return True
    return False


def swallowed(o: Out, i: Item) -> bool:
    """The path goes on after the failure, or ends with something else."""

    if o.exc is None or not isinstance(o.exc.val, T):
        return True
    v = o.exc.val
    return not (v.op == "excobj" and any(k == "<from>" and x is i.ev.term for k, x in v.a[1]))


def failures(c: Check, entry: str, r: Result, o: Out, items: Sequence[Item], background: bool, seen: Set[Any]) -> None:
    what = "only failures the operation is documented to tolerate are suppressed"
    for i in items:
        if i.ev.kind not in ("storage", "backend", "hook", "ikp", "callback"):
            continue
        if i.ev.failed is None:
            if (id(i.cell), "ok") not in seen:
                seen.add((id(i.cell), "ok"))
                if not i.ev.caught:
                    c.held(what, site(i))
            continue
        sw = bool(i.loops) and not i.some or swallowed(o, i)
        # in a loop, the failure may end it
        if sw and i.loops and not i.some:
            sw = not any(b.signal == "raise" and any(x is i.cell for x in b.cells()) for b in i.loops[-1].paths)
        for e in sorted(i.ev.also or {i.ev.failed}):
            if (id(i.cell), e, sw) in seen:
                continue
            seen.add((id(i.cell), e, sw))
            c.decide(not sw or tolerated(c, entry, i.name, e, background), what, site(i), f"{e} of {i.name} is suppressed", (), r)


def c27(c: Check) -> None:
    """Every storage, backend and hook call of every entry point with every failure it may report: the failure leaves the entry point as it is, or the
    pair of call and failure is one that the entry point is documented to tolerate. Exceptions raised by the package itself are compared with the
    documented ones."""

    for cls, name, r in entries(c, False):
        seen: Set[Any] = set()
        spawn: Set[Any] = set()
        for o in r.outs:
            items = items_of(o)
            failures(c, name, r, o, items, False, seen)
            st = last_site(items, f"{cls}.{name}")
            if o.exc is not None and not forwarded(o):
                ok = any(c.m.p.is_exc_subclass(exc(o), x) for x in OWN.get(name, ())) or documented(c, cls, name, exc(o))
                c.decide(ok, "only documented exceptions are raised", st, exc(o), tuple(o.st.facts), r)
            for i in items:
                if i.ev.kind == "spawn" and id(i.cell) not in spawn:
                    spawn.add(id(i.cell))
                    c.decide(name == "create", "nothing runs in the background where its failures are lost", site(i), "", (), r)
    for name, _, br, loops in background(c, *started(c)):
        if br is None:
            continue
        seen = set()
        for o in br.outs:
            failures(c, name, br, o, items_of(o), True, seen)
        for s in loops:
            o = Out("next", s)
            failures(c, name, br, o, items_of(o), True, seen)
    for k in both(c):
        for n in c.m.public("Storage"):
            r = k.run(n)
            seen = set()
            for o in r.outs:
                failures(c, n, r, o, items_of(o), False, seen)
    # results of concurrent operations that are thrown away together with their failures
    for cl in c.m.p.classes.values():
        for f in cl.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Expr):
                    for g in ast.walk(n):
                        if isinstance(g, ast.Call) and ast.unparse(g.func).split(".")[-1] == "gather" and any(
                                k.arg == "return_exceptions" and ast.unparse(k.value) == "True" for k in g.keywords):
                            c.violated("the failures of concurrent operations are looked at", f"{f.module.path}:{g.lineno} {f.qualname}", "return_exceptions")


def documented(c: Check, cls: str, name: str, e: str) -> bool:
    f = c.m.p.method(cls, name)
    doc = ast.get_docstring(f.node) if f is not None else None
    if not doc or "Raises:" not in doc:
        return False
    return any(w in doc.split("Raises:")[1] for w in (e + ":", e + " "))


# ----------------------------------------------------------------------------------------------------------- C28 arguments
def root(t: T) -> Set[T]:
    """The objects a value may be, or be part of."""

    out: Set[T] = set()
    for x in leaves(t):
        while x.op in ("elem", "item", "attr", "pick", "values") and isinstance(x.a[0], T):
            x = x.a[0]
        if x.op == "ite":
            for _, y in x.a[0]:
                out |= root(y)
        elif x.op == "dictv" and isinstance(x.a[0], T):
            out |= root(x.a[0])
        else:
            out.add(x)
    return out


def c28(c: Check) -> None:
    """Every in-place modification of a container in every entry point is traced back to where the container comes from: it may not be an argument,
    a part of one, or a value the manager was created with."""

    what = "arguments are not modified"
    todo = [(cls, n, r) for cls, n, r in entries(c)] + [("Storage", n, k.run(n)) for k in both(c) for n in c.m.public("Storage")]
    for cls, name, r in todo:
        seen: Set[Any] = set()
        for i in all_items(r):
            if i.ev.kind != "mutate" or i.ev.recv is None:
                continue
            bad = {x for x in root(i.ev.recv) if x.op == "param" or (x.op == "role" and x in (BACKENDS, OWN_JID))}
            if (site(i), i.ev.recv) in seen:
                continue
            seen.add((site(i), i.ev.recv))
            c.decide(not bad, what, site(i), f"{i.name} on {', '.join(terms.show(x, 3) for x in bad)}", (i.ev.recv,))
        c.held(what + " (operation analysed)", f"{cls}.{name}")


# ----------------------------------------------------------------------------------------------------------- C29 deletions
DELETES = {"purge_bare_jid": ("list", "active", "namespaces", "label", "identity_key", "trust", "queue_jid", "queue"), "after_history_sync": ("queue", "queue_jid")}
BACKEND_DELETES = {"purge": ("create", "purge_backend"), "purge_bare_jid": ("purge_bare_jid",), "delete_pre_key": ("decrypt", "after_history_sync"),
                   "hide_pre_key": ("decrypt",), "delete_hidden_pre_keys": ("after_history_sync",)}


def c29(c: Check) -> None:
    """All deletions reachable from each entry point, by what they delete; all writes of the own device id."""

    what = "only the documented operations delete"
    for cls, name, r in entries(c):
        seen: Set[Any] = set()
        for i in all_items(r):
            k, comp = key_class(i.arg("key")) if i.ev.kind == "storage" else (None, {})
            if i.ev.kind == "storage" and i.name == "delete":
                if (site(i), i.arg("key")) in seen:
                    continue
                seen.add((site(i), i.arg("key")))
                c.decide(k in DELETES.get(name, ()), what, site(i), f"{name} deletes {terms.show(i.arg('key'), 4)}", (i.arg("key"),), r)
                if name == "purge_bare_jid" and k is not None:
                    j = comp.get("jid")
                    c.decide(j is None or j is P(name, "bare_jid"), "purging a JID deletes nothing of others", site(i), terms.show(i.arg("key"), 4), (i.arg("key"),), r)
            if i.ev.kind == "backend" and i.name in BACKEND_DELETES:
                c.decide(name in BACKEND_DELETES[i.name], what, site(i), f"{name} calls {i.name}", (), r)
                if i.name == "purge_bare_jid":
                    c.decide(i.arg("bare_jid") is P(name, "bare_jid"), "purging a JID deletes nothing of others", site(i), "", (i.arg("bare_jid"),), r)
            if k == "own_device_id" and i.name != "load_primitive":
                if i.name == "store":
                    fs = i.ev.facts
                    ls = {t for f in fs for t in subterms(f) if is_ev(t, "load_primitive") and key_class(t.a[3][0])[0] == "own_device_id"}
                    c.decide(any(entails(fs, neg(mk("isjust", L))) for L in ls), "the own device id is written only if none is stored", site(i), "", tuple(fs), r)
        c.held(what + " (operation analysed)", f"{cls}.{name}")
    for o, items in c.paths("create"):
        n = [i for i in items if i.ev.kind == "storage" and i.name == "store" and key_class(i.arg("key"))[0] == "own_device_id"]
        c.decide(len(n) <= 1 and not any(i.chain for i in n), "the own device id is written once", last_site(n, f"{SM}.create"), "")


# ----------------------------------------------------------------------------------------------------------- C38 exceptions
INTERACTION = ("BundleUploadFailed", "BundleDownloadFailed", "BundleNotFound", "BundleDeletionFailed", "DeviceListUploadFailed",
               "DeviceListDownloadFailed", "MessageSendingFailed")
PARENTS: Dict[str, Tuple[str, ...]] = {
    "OMEMOException": ("SessionManagerException", "BackendException", "StorageException"),
    "SessionManagerException": ("TrustDecisionFailed", "StillUndecided", "NoEligibleDevices", "MessageNotForUs", "SenderNotFound", "SenderDistrusted",
                                "NoSession", "PublicDataInconsistency", "UnknownTrustLevel", "UnknownNamespace", "XMPPInteractionFailed"),
    "XMPPInteractionFailed": INTERACTION,
    "BackendException": ("DecryptionFailed", "KeyExchangeFailed", "TooManySkippedMessageKeys"),
}
APART = (INTERACTION, ("DecryptionFailed", "KeyExchangeFailed", "TooManySkippedMessageKeys"),
         ("TrustDecisionFailed", "StillUndecided", "NoEligibleDevices", "UnknownNamespace", "UnknownTrustLevel"),
         ("MessageNotForUs", "SenderNotFound", "SenderDistrusted", "NoSession", "PublicDataInconsistency", "UnknownNamespace", "UnknownTrustLevel"),
         ("SessionManagerException", "BackendException", "StorageException"))


def c38(c: Check) -> None:
    """The class of every exception that leaves an entry point or is documented for a hook, a backend or the storage: its ancestors, computed from the
    class definitions, and whether the package exports it."""

    p = c.m.p

    def where(n: str) -> str:
        k = p.classes[n]
        return f"{k.module.path}:{k.node.lineno} {n}"

    def sub(n: str, parent: str, what: str, st: str) -> None:
        odd = [b for k in p.mro(n) for b in k.bases if b not in p.classes and not hasattr(builtins, b)]
        if odd and not p.is_exc_subclass(n, parent):
            c.undecided(what, st, f"{n} rests on {odd[0]}")
        else:
            c.decide(p.is_exc_subclass(n, parent), what, st, f"{n} is no {parent}")

    raised: Dict[str, str] = {}
    for cls, name, r in entries(c, False):
        for o in r.outs:
            if o.exc is not None and not forwarded(o) and exc(o) in p.classes:
                raised.setdefault(exc(o), last_site(items_of(o), f"{cls}.{name}"))
    for n, st in sorted(raised.items()):
        sub(n, "OMEMOException", "exceptions raised by operations are OMEMO exceptions", st)
    c.some(len(raised), "operations raise exceptions", c.run("encrypt"))
    for parent, names in PARENTS.items():
        for n in names:
            if n not in p.classes or parent not in p.classes:
                c.undecided("exceptions have the documented parents", "", f"{n} or {parent} isn't defined as a class")
                continue
            sub(n, parent, "exceptions have the documented parents", where(n))
    if "OMEMOException" in p.classes:
        sub("OMEMOException", "Exception", "exceptions have the documented parents", where("OMEMOException"))
    for names in APART:
        for a in names:
            for b in names:
                if a != b and a in p.classes and b in p.classes:
                    c.decide(not p.is_exc_subclass(a, b), "different failures of one operation can be told apart", where(a), f"each {a} is a {b}")
    top = p.modules.get("omemo")
    if top is None or any(isinstance(n, ast.ImportFrom) and any(x.name == "*" for x in n.names) for n in ast.walk(top.tree)):
        c.undecided("exceptions are exported by the package", "", "imports of the package are not known")
        return
    public = {x.asname or x.name for n in ast.walk(top.tree) if isinstance(n, ast.ImportFrom) for x in n.names} | {
        t.id for n in ast.walk(top.tree) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
    for n in sorted(set(raised) | {x for xs in PARENTS.values() for x in xs} | {"OMEMOException"}):
        if n in p.classes:
            c.decide(n in public, "exceptions are exported by the package", where(n), f"omemo.{n}")
