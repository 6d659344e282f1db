"""Rules about the identity key pair."""

import ast

from osa.interp import Interp
from rules.common import *

KINDS = ("IdentityKeyPairSeed", "IdentityKeyPairPriv")
SECRET_ATTRS = ("seed", "priv")
# what is printed of these doesn't tell the value
OPAQUE = {"len", "eq", "isin", "isjust", "truthy", "typeof", "le", "lt", "not", "and", "or", "exists", "failed", "isinstance", "cls"}


def is_public(t: T) -> bool:
    return t.op in OPAQUE or (t.op == "extcall" and str(t.a[0]).endswith("_pub")) or (t.op == "fn" and t.a[0] in ("id", "hash", "callable")) \
        or t.op == "obj" or (t.op == "ev" and t.a[1] in ("get",))


def secret(t: Any, fields: FrozenSet[T]) -> Optional[T]:
    """A part of the value from which seed or private key can be read."""

    if isinstance(t, (tuple, frozenset)):
        return next((s for x in t for s in [secret(x, fields)] if s is not None), None)
    if not isinstance(t, T):
        return None
    if t in fields:
        return t
    if t.op in ("attr", "bound") and t.a[1] in SECRET_ATTRS and any(x is IKP for x in (t.a[0], *terms.collect(t.a[0], "role"))):
        return t
    if t.op in ("just", "maybe") and load_of(t)[0] == "ikp_key":
        return t
    if t.op == "ev" and t.a[1].startswith("load") and t.a[3] and key_class(t.a[3][0])[0] == "ikp_key":
        return None
    if is_public(t):
        return None
    return secret(t.a, fields)


def stored_fields(c: Check, cls: str) -> Dict[str, T]:
    """The fields of a key pair and the argument they are initialised with."""

    out: Dict[str, T] = {}
    for o in c.run("__init__", cls).outs:
        for i in items_of(o):
            if i.ev.kind == "setfield":
                out[i.name] = i.arg("value")
    return out


def prop(c: Check, cls: str, name: str, fields: Dict[str, T]) -> Result:
    r = Interp(c.m.p, cls, dict(fields)).run(cls, name)
    c.entries.setdefault(f"{cls}.{name}", (len(r.outs), len(all_items(r))))
    return r


def leaks(c: Check, name: str, r: Result, fields: FrozenSet[T]) -> None:
    seen = set()
    for st, _, v in r.interp.logs:
        if (st, v) in seen:
            continue
        seen.add((st, v))
        s = secret(v, fields)
        c.decide(s is None, "no seed or private key is logged", st, terms.show(s, 4) if s is not None else "", (), r)
    for o in r.outs:
        if o.exc is not None:
            s = secret(o.exc.val, fields) if o.exc.val is not None else None
            c.decide(s is None, "no seed or private key is part of an exception", name, terms.show(s, 4) if s is not None else "", (), r)
    for i in once(c, [i for o in r.outs for i in items_of(o)]):
        if i.ev.kind == "hook":
            s = secret(tuple(i.ev.args.values()), fields)
            c.decide(s is None, "no seed or private key is handed to a hook", site(i), "", (), r)
        if i.ev.kind == "storage" and i.name in ("store", "store_bytes") and key_class(i.arg("key"))[0] != "ikp_key":
            s = secret((i.arg("key"), i.arg("value")), fields)
            c.decide(s is None, "the seed is stored nowhere else", site(i), "", (), r)


def c22(c: Check) -> None:
    """Paths of IdentityKeyPair.get classified by what is stored; the kinds of key pairs and what they derive are compared with what they are
    built from; seed and private key are tainted and may not reach log calls, exceptions, object representations, hooks or other storage keys."""

    r = c.run("get", "IdentityKeyPair")
    fields = {k: stored_fields(c, k) for k in KINDS}
    fresh: Set[T] = set()
    n = 0
    for o, items in c.paths("get", "IdentityKeyPair"):
        st = last_site(items, "IdentityKeyPair.get")
        if not normal(o):
            c.decide(forwarded(o), "getting the identity key pair doesn't fail for other reasons", st, exc(o), tuple(o.st.facts), r)
            continue
        n += 1
        facts = path_facts(o)
        loads = {k: sorted({i.ev.term for i in items if i.name.startswith("load") and key_class(i.arg("key"))[0] == k}) for k in ("ikp_is_seed", "ikp_key")}
        c.some(len(loads["ikp_is_seed"]), "the stored identity key pair is looked up", r, st)
        missing = disj(*[neg(mk("isjust", L)) for k in loads for L in loads[k]])
        ws = [i for i in storage_writes(items)]
        for i in once(c, ws):
            k = key_class(i.arg("key"))[0]
            c.decide(k in loads, "only the identity key pair is written", site(i), str(k), (i.arg("key"),), r)
            c.decide(i.name != "delete", "a stored identity key pair isn't deleted", site(i), "", (), r)
            c.decide(entails(at(facts, i), missing), "an identity key pair is generated only if none is stored", site(i), "", tuple(at(facts, i)), r)
        v = ret(r, o)
        c.decide(v.op == "obj" and v.a[0] in KINDS, "an identity key pair is returned", st, terms.show(v, 3), (v,), r)
        if v.op != "obj" or v.a[0] not in KINDS:
            continue
        vals = [x for _, x in v.a[1]]
        kind = truthy(TRUE) if v.a[0] == KINDS[0] else FALSE
        ks = [i for i in ws if key_class(i.arg("key"))[0] == "ikp_key"]
        ss = [i for i in ws if key_class(i.arg("key"))[0] == "ikp_is_seed"]
        if ks or ss or not all(entails(facts, mk("isjust", L)) for k in loads for L in loads[k]):
            c.decide(entails(facts, missing), "a stored identity key pair is used", st, "", tuple(facts), r)
            ok = any(i.name == "store_bytes" and len(vals) == 1 and same_value(i, vals[0]) for i in ks[-1:])
            c.decide(ok, "the generated key is stored before it is used", st, "", tuple(vals) + tuple(i.arg("value") for i in ks), r)
            ok = any(i.name == "store" and entails(facts, truthy(i.arg("value")) if kind is TRUE else neg(truthy(i.arg("value")))) for i in ss[-1:])
            c.decide(ok, "the kind of the generated key is stored before it is used", st, "", tuple(i.arg("value") for i in ss), r)
            for x in vals:
                g = x.op == "extcall" and str(x.a[0]).startswith(("secrets.", "os.urandom", "random.SystemRandom"))
                size = x.a[1][0] if g and x.a[1] else NONE
                c.decide(g and size is const(32), "32 bytes from a cryptographic random source are generated", st, terms.show(x, 4), (x,), r)
                fresh.add(x)
            continue
        c.decide(len(vals) == 1 and any(vals[0] is mk("just", L) for L in loads["ikp_key"]) if vals else False, "the stored key is used", st,
                 ", ".join(terms.show(x, 4) for x in vals), tuple(vals), r)
        ok = any(entails(facts, x if kind is TRUE else neg(x)) for L in loads["ikp_is_seed"] for x in [truthy(mk("just", L))])
        c.decide(ok, "the stored key is loaded as the kind it was stored as", st, v.a[0], tuple(facts), r)
    c.some(n, "get returns", r)
    leaks(c, "IdentityKeyPair.get", r, frozenset(fresh))

    # ---- the two kinds
    for cls, secret_prop, derive, pub in ((KINDS[0], "seed", "seed_to_priv", "seed_to_ed25519_pub"), (KINDS[1], "priv", None, "priv_to_ed25519_pub")):
        fs = fields[cls]
        init = c.run("__init__", cls)
        ps = [x for x in fs.values() if x.op == "param"]
        c.decide(len(ps) == 1, "a key pair keeps the key it is built from", cls, "", tuple(fs.values()), init)
        if len(ps) != 1:
            continue
        K = ps[0]
        tainted = frozenset({K})
        leaks(c, cls + ".__init__", init, tainted)
        want: Dict[str, Callable[[T], bool]] = {
            "is_seed": lambda v: v is const(cls == KINDS[0]), "is_priv": lambda v: v is const(cls == KINDS[1]),
            secret_prop: lambda v: v is K, "identity_key": lambda v: v.op == "extcall" and str(v.a[0]).endswith("." + pub) and v.a[1] == (K,),
            "as_priv": (lambda v: v.op == "obj" and v.a[0] == KINDS[1] and [x for _, x in v.a[1]] == [mk("extcall", "xeddsa.bindings.seed_to_priv", (K,))])
            if derive else (lambda v: v is terms.SELF or (v.op == "obj" and v.a[0] == KINDS[1] and [x for _, x in v.a[1]] == [K]))}
        what = {"is_seed": "the kind of a key pair is reported", "is_priv": "the kind of a key pair is reported", secret_prop: "the key is handed out unchanged",
                "identity_key": "the identity key is the public part of the key", "as_priv": "the private key is derived from the key"}
        for name, ok in want.items():
            f = c.m.p.method(cls, name)
            if f is None or f.is_abstract:
                c.violated(what[name], f"{cls}.{name}", "not implemented")
                continue
            rp = prop(c, cls, name, fs)
            leaks(c, f"{cls}.{name}", rp, tainted)
            for o in rp.outs:
                v = ret(rp, o)
                c.decide(normal(o) and ok(v), what[name], f"{cls}.{name}", terms.show(v, 4), (v,), rp)
        for name in ("__repr__", "__str__", "__format__"):
            f = c.m.p.method(cls, name)
            if f is None:
                c.held("no seed or private key is part of a representation", f"{cls}.{name}")
                continue
            rp = prop(c, cls, name, fs)
            for o in rp.outs:
                v = ret(rp, o)
                c.decide(secret(v, tainted) is None, "no seed or private key is part of a representation", f"{cls}.{name}", terms.show(v, 4), (v,), rp)
        k = c.m.p.cls(cls)
        gen = [d for d in map(ast.unparse, k.node.decorator_list) if "dataclass" in d or d.startswith("attr")]
        gen += [b for b in k.bases if b in ("NamedTuple", "tuple", "TypedDict", "dict", "SimpleNamespace")]
        c.decide(not gen, "no representation with the key is generated", cls, ", ".join(gen))

    # ---- all other code
    for name in c.m.public():
        rr = c.run(name)
        leaks(c, name, rr, frozenset())
        for i in once(c, [i for o in rr.outs for i in items_of(o)]):
            if i.ev.kind == "storage" and i in storage_writes([i]):
                c.decide(key_class(i.arg("key"))[0] not in ("ikp_key", "ikp_is_seed"), "the identity key pair is written by its own code only", site(i), "", (i.arg("key"),), rr)


def same_value(i: Item, v: T) -> bool:
    return i.arg("value") is v
