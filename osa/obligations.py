"""Obligations: what a rule decided, about which construct, and with which verdict."""

from __future__ import annotations

from typing import Any, Callable, Dict, FrozenSet, Iterable, List, Optional, Sequence, Tuple

from . import terms
from .interp import Ev, Out, Result
from .model import Model
from .program import AnalysisBroken
from .query import Item, all_items, entails, items_of
from .terms import T, conj, has_unknown

HELD, VIOLATED, UNDECIDED_ = "held", "violated", "undecided"


class Obligation:
    __slots__ = ("rule", "what", "site", "verdict", "why")

    def __init__(self, rule: str, what: str, site: str, verdict: str, why: str = "") -> None:
        self.rule, self.what, self.site, self.verdict, self.why = rule, what, site, verdict, why

    def as_dict(self) -> Dict[str, str]:
        return {"rule": self.rule, "what": self.what, "site": self.site, "verdict": self.verdict, "why": self.why}


class Check:
    """One property's run: rules add obligations, each tied to a construct in the source."""

    def __init__(self, m: Model, pid: str) -> None:
        self.m, self.pid = m, pid
        self.obligations: List[Obligation] = []
        self.entries: Dict[str, Tuple[int, int]] = {}
        self.results: Dict[str, Result] = {}
        self.rule = pid

    # ------------------------------------------------------------------------------------------ verdicts
    def held(self, what: str, site: str = "") -> None:
        self.obligations.append(Obligation(self.rule, what, site, HELD))

    def violated(self, what: str, site: str = "", why: str = "") -> None:
        self.obligations.append(Obligation(self.rule, what, site, VIOLATED, why))

    def undecided(self, what: str, site: str = "", why: str = "") -> None:
        self.obligations.append(Obligation(self.rule, what, site, UNDECIDED_, why))

    def decide(self, ok: bool, what: str, site: str = "", why: str = "", known: Iterable[Any] = (),
               result: Optional[Result] = None) -> bool:
        """``ok``: held.  Otherwise violated -- unless one of the terms the decision rests on is outside the modelled
        language, in which case nothing is claimed."""

        if ok:
            self.held(what, site)
            return True
        if any(has_unknown(k) for k in known):
            self.undecided(what, site, "rests on a construct the analysis does not model")
        elif result is not None and result.interp.unmodelled:
            self.undecided(what, site, "the entry point contains constructs the analysis does not model: "
                           + ", ".join(sorted(result.interp.unmodelled)[:5]))
        else:
            self.violated(what, site, why)
        return False

    def prove(self, facts: Iterable[T], f: T, what: str, site: str = "", why: str = "") -> bool:
        fs = frozenset(facts)
        ok = entails(fs, f)
        return self.decide(ok, what, site, why or f"not implied by the conditions on the path: {terms.show(f, 5)}",
                           () if ok else self.open(fs, (f,)) + (f,))

    def prove_any(self, facts: Iterable[T], fs: Sequence[T], what: str, site: str = "", why: str = "") -> bool:
        facts = frozenset(facts)
        ok = any(entails(facts, f) for f in fs)
        return self.decide(ok, what, site, why or "no accepted form of the condition is implied on this path",
                           () if ok else self.open(facts, fs) + tuple(fs))

    def open(self, facts: Iterable[T], goals: Sequence[T]) -> Tuple[T, ...]:
        """What a failed proof rests on. The first iteration of a loop is a possible one: a proof that fails for it has failed."""

        fs = tuple(facts)
        fresh = {t for f in fs for t in terms.collect(f, "fresh")}
        if fresh:
            first: Optional[FrozenSet[T]] = frozenset()
            for f in sorted(terms.subst(f, {t: terms.TRUE for t in fresh}) for f in fs):
                first = terms.assume(f, first) if first is not None else None
            if first is not None and not any(has_unknown(f) for f in first) and not any(entails(first, g) for g in goals):
                return tuple(first)
        return fs

    # ------------------------------------------------------------------------------------------- analysed
    def run(self, name: str, cls: str = "SessionManager") -> Result:
        r = self.m.run(name, cls)
        key = f"{cls}.{name}"
        if key not in self.entries:
            self.entries[key] = (len(r.outs), len(all_items(r)))
            self.results[key] = r
        return r

    def paths(self, name: str, cls: str = "SessionManager") -> List[Tuple[Out, List[Item]]]:
        return [(o, items_of(o)) for o in self.run(name, cls).outs]

    def some(self, n: int, what: str, result: Optional[Result] = None, site: str = "") -> bool:
        """An anchor of the rule must exist in the code: n constructs were found."""

        if n > 0:
            return True
        if any(x.verdict == UNDECIDED_ for x in self.obligations):
            # (it may be there, in a form that is not modelled)
            self.undecided(what, site, "parts of the code were not decided")
            return False
        self.decide(False, what, site, "no such construct is left in the code", (), result)
        return False


def site(it: Any) -> str:
    e = it.ev if isinstance(it, Item) else it
    return e.site if isinstance(e, Ev) else str(e)
