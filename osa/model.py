"""
The session manager as seen by the rules: which private field plays which role, and the analysed entry points.

Roles are discovered from ``SessionManager.create`` (what each field is initialised from), never from private
names, so renaming or moving private state does not matter.
"""

from __future__ import annotations

from typing import Any, Dict, Iterable, List, Optional, Set, Tuple

from . import terms
from .interp import BodyPath, Cell, Enter, Ev, Interp, LoopNode, Out, Result
from .program import AnalysisBroken, Program
from .terms import FALSE, SELF, T, TRUE, cval, is_const, mk, role

ROLE_PARAMS = ("backends", "storage", "own_bare_jid", "undecided_trust_level_name", "pre_key_refill_threshold")

STORAGE = role("storage")
BACKENDS = terms.BACKENDS
OWN_JID = role("own_bare_jid")
OWN_ID = role("own_device_id")
UNDECIDED = role("undecided_trust_level_name")
THRESHOLD = role("pre_key_refill_threshold")
IKP = role("identity_key_pair")
SYNC = role("synchronizing")


def walk_cells(cell: Optional[Cell], stop: Optional[Cell] = None) -> List[Cell]:
    out = []
    while cell is not None and cell is not stop:
        out.append(cell)
        cell = cell.prev
    out.reverse()
    return out


class Model:
    def __init__(self, root: str = "/repo") -> None:
        self.p = Program(root)
        for c in ("SessionManager", "Storage", "Backend", "IdentityKeyPair", "Maybe", "Just", "Nothing"):
            self.p.cls(c)
        self.results: Dict[str, Result] = {}
        self.role_fields: Dict[str, T] = {}
        self.own_id_values: Set[T] = set()
        self._discover()

    # ------------------------------------------------------------------------------------------------ roles
    def _fixed(self) -> Dict[str, T]:
        return {n: role(n) for n in ROLE_PARAMS}

    def _discover(self) -> None:
        f = self.p.require("SessionManager", "create")
        missing = [n for n in ROLE_PARAMS if n not in f.param_names()]
        if missing:
            raise AnalysisBroken(f"SessionManager.create lost its parameter(s) {missing}")
        it = Interp(self.p, "SessionManager")
        r = it.run("SessionManager", "create", self._fixed())
        first: Dict[str, List[T]] = {}
        seen: Set[int] = set()
        for o in r.outs:
            for e in all_events(o, seen):
                if e.kind == "setfield":
                    first.setdefault(e.name, []).append(e.args["value"])
        true_fields = set()
        for name, vals in first.items():
            v = vals[0]
            if v.op == "role":
                self.role_fields[name] = v
            elif v.op == "coll" and len(v.a[1]) == 1 and v.a[1][0].a[0] is terms.elem(BACKENDS) and not v.a[1][0].a[2]:
                self.role_fields[name] = BACKENDS
            elif v.op == "ev" and v.a[1] == "get":
                self.role_fields[name] = IKP
            elif v is TRUE:
                true_fields.add(name)
            if any(is_own_id_load(x) for x in vals):
                self.role_fields[name] = OWN_ID
                self.own_id_values |= {x for x in vals if not is_own_id_load(x)}
        # the mode flag: set by before_history_sync / create, cleared by after_history_sync
        for m in ("before_history_sync", "after_history_sync"):
            self.p.require("SessionManager", m)
        it2 = Interp(self.p, "SessionManager", dict(self.role_fields))
        cleared = set()
        for o in it2.run("SessionManager", "after_history_sync").outs:
            for e in all_events(o, set()):
                if e.kind == "setfield" and e.args["value"] is FALSE:
                    cleared.add(e.name)
        flag = true_fields & cleared
        if len(flag) == 1:
            self.sync_field: Optional[str] = next(iter(flag))
        elif len(true_fields) == 1:
            self.sync_field = next(iter(true_fields))
        else:
            self.sync_field = None
        if self.sync_field is not None:
            self.role_fields[self.sync_field] = SYNC
        have = {v.a[0] for v in self.role_fields.values()}
        self.missing_roles = sorted(
            {"storage", "backends", "own_bare_jid", "own_device_id", "undecided_trust_level_name",
             "pre_key_refill_threshold", "identity_key_pair", "synchronizing"} - have)

    # ---------------------------------------------------------------------------------------------- analyse
    def run(self, name: str, cls: str = "SessionManager", boundary: Iterable[str] = ()) -> Result:
        key = f"{cls}.{name}" + "".join("|" + b for b in sorted(boundary))
        if key not in self.results:
            if cls == "SessionManager":
                fixed = None
                if name == "create":
                    fixed = self._fixed()
                rf = dict(self.role_fields)
                if name == "create" and self.sync_field is not None:
                    rf.pop(self.sync_field)
                it = Interp(self.p, cls, rf)
                it.boundary = frozenset(boundary)
                self.results[key] = it.run(cls, name, fixed)
            else:
                self.results[key] = Interp(self.p, cls).run(cls, name)
        return self.results[key]

    def public(self, cls: str = "SessionManager") -> List[str]:
        """Concrete public methods (coroutines and plain), found in the source."""

        out = []
        for n, f in self.p.cls(cls).methods.items():
            if n.startswith("_") or f.is_abstract or f.is_property:
                continue
            out.append(n)
        return out


def is_own_id_load(v: T) -> bool:
    return v.op == "just" and v.a[0].op == "ev" and any(is_const(x) and cval(x) == "/own_device_id" for x in v.a[0].a[3]) \
        or v is OWN_ID


def all_events(o: Out, seen: Set[int]) -> List[Ev]:
    out: List[Ev] = []

    def go(cell: Optional[Cell], stop: Optional[Cell]) -> None:
        c = cell
        while c is not None and c is not stop and id(c) not in seen:
            seen.add(id(c))
            if isinstance(c.node, Ev):
                out.append(c.node)
            elif isinstance(c.node, LoopNode):
                for b in c.node.paths:
                    go(b.cell, b.enter)
            c = c.prev
    go(o.st.trace, None)
    out.reverse()
    return out
