"""Rules about the rotation of signed pre keys in the background."""

from osa.interp import BodyPath, Cell, Interp, State
from rules.common import *

HOUR = 3600


def evaluate(t: T, env: Dict[T, int]) -> Optional[int]:
    """A delay expression for known values of what it rests on."""

    if t in env:
        return env[t]
    if is_const(t):
        return cval(t) if isinstance(cval(t), (int, float)) else None
    if t.op == "lin":
        tot = t.a[1]
        for x, k in t.a[0]:
            v = evaluate(x, env)
            if v is None:
                return None
            tot += k * v
        return tot
    if t.op in ("min", "max"):
        vs = [evaluate(x, env) for x in t.a[0]]
        return None if any(v is None for v in vs) else (min if t.op == "min" else max)(vs)  # type: ignore
    if t.op == "ite":
        for g, v in t.a[0]:
            h = holds(g, env)
            if h is None:
                return None
            if h:
                return evaluate(v, env)
    return None


def holds(g: T, env: Dict[T, int]) -> Optional[bool]:
    g = terms.subst(g, {k: const(v) for k, v in env.items()})
    g = simplify(g, frozenset())
    return True if g is TRUE else False if g is FALSE else None


def body_items(bp: BodyPath) -> Tuple[Out, List[Item]]:
    """The effects of one iteration."""

    cell: Optional[Cell] = None
    for c in bp.cells():
        cell = Cell(cell, c.node)
    st = State()
    st.facts = bp.facts
    st.trace = cell
    o = Out("next", st)
    return o, items_of(o)


def delays(i: Item, sleep: Item) -> Optional[List[int]]:
    """The delays of consecutive failures, by propagating the values carried by the retry loop."""

    loop = i.loops[-1]
    bps = [b for b in loop.paths if any(c is i.cell for c in b.cells())]
    if not bps:
        return None
    ups = bps[0].updates
    env: Dict[T, int] = {}
    for init, lv, _ in ups.values():
        v = evaluate(init, {}) if init is not None else None
        if v is not None:
            env[lv] = v
    out: List[int] = []
    for _ in range(40):
        d = evaluate(sleep.arg("seconds"), env)
        if d is None:
            return None
        out.append(d)
        new: Dict[T, int] = {}
        for _, lv, upd in ups.values():
            v = evaluate(upd, env)
            if v is not None:
                new[lv] = v
        for k, v in env.items():
            if k not in {lv for _, lv, _ in ups.values()}:
                new[k] = v
        env = new
    return out


def while_loops(bp: BodyPath) -> List[LoopNode]:
    out: List[LoopNode] = []
    for c in bp.cells():
        if isinstance(c.node, LoopNode):
            if c.node.kind == "while":
                out.append(c.node)
            for b in c.node.paths:
                out += while_loops(b)
    return out


def settled(facts: Iterable[T], loops: Sequence[LoopNode]) -> FrozenSet[T]:
    """Conditions on values that a retry loop carries are decided by propagating constants: those met in some iteration are dropped, and FALSE
    is among the result if they are met in none."""

    fs = frozenset(facts)
    for loop in loops:
        for b in loop.paths:
            ups = [u for u in b.updates.values() if u[0] is not None]
            mine = [f for f in fs if any(contains(f, lv) for _, lv, _ in ups)]
            if not mine or b.signal not in ("next", "continue"):
                continue
            env = {lv: v for init, lv, _ in ups for v in [evaluate(init, {})] if v is not None}
            met: Optional[bool] = False
            for _ in range(40):
                hs = [holds(f, env) for f in mine]
                if all(h is True for h in hs):
                    met = True
                    break
                if None in hs:
                    met = None
                    break
                env = {lv: v for _, lv, upd in ups for v in [evaluate(upd, env)] if v is not None}
            if met is True:
                fs = fs - set(mine)
            elif met is False:
                return frozenset({FALSE})
    return fs


def framework_of(f: Iterable[T], fw: T, name: str) -> bool:
    want = eq(fw, enum("AsyncFramework", name.upper()))
    other = [n for n in ("ASYNCIO", "TWISTED") if n != name.upper()]
    return entails(f, want) or entails(f, neg(eq(fw, enum("AsyncFramework", other[0]))))


def spawned(c: Check) -> List[Tuple[Item, Out]]:
    out = []
    for o, items in c.paths("create"):
        if normal(o):
            out += [(i, o) for i in items if i.ev.kind == "spawn"]
    return out


def started(c: Check) -> Tuple[Dict[Tuple[Any, ...], Tuple[str, Dict[str, T]]], Dict[str, Set[T]]]:
    """The background tasks of a new session manager, and the values of its further fields."""

    tasks: Dict[Tuple[Any, ...], Tuple[str, Dict[str, T]]] = {}
    kept: Dict[str, Set[T]] = {}
    for o, items in c.paths("create"):
        if not normal(o):
            continue
        for i in items:
            if i.ev.kind == "setfield" and i.name not in c.m.role_fields:
                kept.setdefault(i.name, set()).add(i.arg("value"))
            if i.ev.kind == "spawn":
                args = {k: v for k, v in i.ev.args.items() if k not in ("self", "framework")}
                tasks[(i.name, *args.items())] = (i.name, args)
    return tasks, kept


def background(c: Check, tasks: Any, kept: Any) -> List[Tuple[str, Dict[str, T], Optional[Result], List[State]]]:
    """The tasks started, analysed; with their endless loops."""

    out: List[Tuple[str, Dict[str, T], Optional[Result], List[State]]] = []
    config = {k: next(iter(vs)) for k, vs in kept.items() if len(vs) == 1 and next(iter(vs)).op == "param"}
    for name, args in tasks.values():
        cls, _, fn = name.rpartition(".")
        if cls != "SessionManager" or c.m.p.method(cls, fn) is None:
            out.append((name, args, None, []))
            continue
        it = Interp(c.m.p, cls, {**config, **c.m.role_fields})
        r = it.run(cls, fn, args)
        out.append((name, args, r, [s for s in it.forever.values() if not has_enter(s.trace.prev if s.trace else None)]))
    return out


def c23(c: Check) -> None:
    """The endless loop of the task started by create: obligations per iteration for an arbitrary loaded backend and key age; the retry delays by
    constant propagation, the time of the next check as a folded minimum."""

    rc = c.run("create")
    period, fw = P("create", "signed_pre_key_rotation_period"), P("create", "async_framework")
    tasks, kept = started(c)
    n = 0
    for o, items in c.paths("create"):
        if not normal(o):
            continue
        n += 1
        mine = [i for i in items if i.ev.kind == "spawn"]
        good = [i for i in mine if not i.loops and not i.some]
        c.decide(bool(good), "every started session manager manages its signed pre keys", last_site(items, "SessionManager.create"), "", (), rc)
        for i in once(c, mine):
            c.decide(framework_of(at(path_facts(o), i), fw, str(cval(i.arg("framework")))), "the task runs in the configured framework", site(i), "",
                     tuple(o.st.facts), rc)
    c.some(n, "create returns", rc)
    for name, args, r, loops in background(c, tasks, kept):
        if r is None:
            c.undecided("the background task manages signed pre keys", name, "unknown function")
            continue
        c.entries[name] = (len(r.outs) + sum(len(s.trace.node.paths) for s in loops), 0)
        for o in r.outs:
            c.decide(not normal(o), "signed pre keys are managed forever", name, "the task can end", tuple(o.st.facts), r)
        c.some(len(loops), "signed pre keys are managed forever", r, name)
        for s in loops:
            for bp in s.trace.node.paths:
                iteration(c, r, name, bp, args, period, fw)


def has_enter(cell: Optional[Cell]) -> bool:
    while cell is not None:
        if isinstance(cell.node, Enter):
            return True
        cell = cell.prev
    return False


def iteration(c: Check, r: Result, name: str, bp: BodyPath, args: Dict[str, T], period: T, fw: T) -> None:
    o, items = body_items(bp)
    facts = o.st.facts
    st = last_site(items, name)
    wl = while_loops(bp)
    ages = [i for i in named(items, "signed_pre_key_age")]
    rots = named(items, "rotate_signed_pre_key")
    ups = named(items, "_upload_bundle")
    done = [neg(mk("failed", u.ev.term)) for u in ups]
    # ---- rotation when due
    cover(c, given(facts, *done), TRUE, ages, {"recv": B}, "the age of the signed pre key of every loaded backend is checked", st, r)
    mine = sorted({i.ev.term for i in ages if i.ev.recv is B})
    for a in mine:
        cover(c, given(facts, *done), lt(period, a), rots, {"recv": B}, "a signed pre key older than the period is rotated", st, r)
    for i in rots:
        f = settled(at(facts, i), wl)
        if FALSE in f:
            continue
        c.decide(any(entails(f, le(period, a.ev.term)) for a in ages if a.ev.recv is i.ev.recv), "only signed pre keys due are rotated", site(i), "",
                 tuple(f), r)
        # ---- publication
        after = [u for u in ups if u.ev.failed is None and before(i, u) is True and u.loops == i.loops]
        good = []
        for u in after:
            g = next((x for x in named(items, "get_bundle") if x.ev.term is u.arg("bundle") and x.loops == u.loops and before(i, x) is True
                      and before(x, u) is True), None)
            e = u.arg("bundle")
            if g is not None and g.ev.recv is i.ev.recv and e.a[3][0] is OWN_JID and e.a[3][1] is OWN_ID:
                good.append(u)
        c.decide(bool(good), "the bundle is published after its signed pre key was rotated", site(i),
                 "; ".join(terms.show(u.arg("bundle"), 4) for u in after), tuple(f) + tuple(u.arg("bundle") for u in after), r)
        own = [x for x in ups if x.loops[:len(i.loops)] == i.loops]
        for u in own:
            if u.ev.failed is None:
                continue
            lp = u.loops[len(i.loops):]
            if not (lp and lp[-1].kind == "while"):
                g = settled(u.guards, wl)
                c.decide(FALSE in g, "a failed upload is retried", site(u), "", tuple(g), r)
                continue
            pth = [b for b in lp[-1].paths if any(x is u.cell for x in b.cells())]
            c.decide(bool(pth) and all(b.signal in ("next", "continue") for b in pth), "a failed upload is retried", site(u), "", tuple(u.guards), r)
            sl = [x for x in items if x.ev.kind == "sleep" and x.loops == u.loops and before(u, x) is True and same_path(u, x)]
            if not c.decide(bool(sl), "retries are delayed", site(u), "", tuple(u.guards), r):
                continue
            for x in sl[:1]:
                ds = delays(u, x)
                if ds is None:
                    c.undecided("the delay between retries is positive and at most an hour", site(x), terms.show(x.arg("seconds"), 4))
                    continue
                c.decide(all(0 < d <= HOUR for d in ds), "the delay between retries is positive and at most an hour", site(x), str(ds[:10]), (), r)
                grow = all(a < b or (a == b and all(d == a for d in ds[k:])) for k, (a, b) in enumerate(zip(ds, ds[1:])))
                c.decide(grow and ds[0] < ds[-1], "the delay between retries grows", site(x), str(ds[:10]), (), r)
    # ---- the next check
    sleeps = [i for i in items if i.ev.kind == "sleep"]
    for i in sleeps:
        f = at(facts, i)
        c.decide(framework_of(f, fw, str(cval(i.arg("framework")))), "waiting uses the configured framework", site(i), "", tuple(f), r)
    last = [i for i in sleeps if not i.loops and all(before(x, i) is True for x in ages)]
    if not c.decide(len(last) == 1, "the task waits for the next check", st, f"{len(last)} waits", (), r):
        return
    i = last[0]
    s = add(i.arg("seconds"), const(-60))
    alts = s.a[0] if s.op == "ite" else ((TRUE, s),)
    for g, v in alts:
        f = given(at(facts, i), g, *done)
        if FALSE in f:
            continue
        carried = {lv: (init, upd) for init, lv, upd in bp.updates.values() if init is not None}
        if v.op == "foldmin":
            init, parts = v.a[0], coll_of(v.a[1]).a[1]
            ps = [(x, (), frozenset()) for x in (init.a[0] if init.op == "min" else (init,))] + [p.a for p in parts]
        elif v.op == "min":
            ps = [(x, (), frozenset()) for x in v.a[0]]
        elif v is period:
            ps = [(v, (), frozenset())]
        else:
            c.decide(False, "the next check is a minute after the next expiry", site(i), terms.show(i.arg("seconds"), 5),
                     (i.arg("seconds"),) if v.op in ("lin", "foldmax", "max", "const") else (mk("opaque", "delay", ()),), r)
            continue
        # what an earlier check left
        ps = [(y, ch, gs) for x, ch, gs in ps for y in ((carried[x][0], terms.subst(carried[x][1], {x: carried[x][0]})) if x in carried else (x,))]
        why = terms.show(i.arg("seconds"), 6)
        c.decide(any(x is period and not ch and not gs for x, ch, gs in ps), "the next check is at most a period away", site(i), why, (v,), r)
        for x, ch, gs in ps:
            ok = x is period or any(entails(given(f, *gs), eq(x, add(period, terms.subst(a, {B: b}), -1))) for a in mine
                                    for b in (ch or (B,)))
            c.decide(ok, "checks are scheduled by the expiry of signed pre keys only", site(i), terms.show(x, 5), (x,), r)
        for a in mine:
            due = given(f, le(a, period))
            rot = [oc for oc in (occurrence(x, {"recv": B}) for x in rots) if oc is not None]
            due = given(due, *[neg(oc) for oc in rot])
            ok = FALSE in due
            for x, ch, gs in ps:
                m = {ch[0]: B} if len(ch) == 1 else {}
                ok = ok or (entails(due, conj(*[terms.subst(y, m) for y in gs])) and entails(due, le(terms.subst(x, m), add(period, a, -1))))
            c.decide(ok, "the next check is not after the next expiry", site(i), why, tuple(due) + (v,), r)
