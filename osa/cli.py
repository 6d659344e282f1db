"""Command line, evidence and known findings."""

from __future__ import annotations

import importlib
import json
import os
import signal
import sys
import time
import traceback
from collections import Counter
from typing import Any, Callable, Dict, List, Tuple

from .model import Model
from .obligations import HELD, UNDECIDED_, VIOLATED, Check
from .program import AnalysisBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OSA_REPO", "/repo")
LIMIT = 700
EVID = os.environ.get("OSA_EVIDENCE", os.path.join(HERE, "evidence"))


class OutOfTime(Exception):
    pass


def alarm(*_: Any) -> None:
    raise OutOfTime()


def rules() -> Dict[str, Callable[[Check], None]]:
    from rules import REGISTRY
    return REGISTRY


def known(pid: str) -> List[Dict[str, str]]:
    path = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: "):
                d = json.loads(line[len("finding: "):])
                if d["property"] == pid:
                    out.append(d)
    return out


def evaluate(m: Model, pid: str) -> Check:
    c = Check(m, pid)
    try:
        rules()[pid](c)
    except AnalysisBroken:
        if not c.obligations:
            raise
        c.undecided("the rest of the rule", pid, "the analysis could not be completed")
    except (RecursionError, OutOfTime, MemoryError) as e:
        c.undecided("the rest of the rule", pid, f"analysis limit reached: {type(e).__name__}")
    except Exception as e:  # a construct the rule does not expect: nothing is claimed about it
        if os.environ.get("OSA_DEBUG"):
            raise
        tb = traceback.extract_tb(e.__traceback__)[-1]
        c.undecided("the rest of the rule", pid, f"unexpected construct: {type(e).__name__} {e} at {tb.name}:{tb.lineno}")
    return c


def write_evidence(pid: str, c: Check, tier: str, wall: float, violations: int) -> None:
    os.makedirs(EVID, exist_ok=True)
    n = Counter(o.verdict for o in c.obligations)
    by: Dict[str, Counter] = {}
    sites: Dict[str, set] = {}
    for o in c.obligations:
        by.setdefault(o.what, Counter())[o.verdict] += 1
        sites.setdefault(o.what, set()).add(o.site)
    cov: Dict[str, Any] = {
        "explanation": "Static analysis of /repo's current source: path- and effect-sensitive abstract interpretation "
                       "of the entry points below (helpers inlined), each rule decided on every path / call site.",
        "entry_points": {k: {"paths": a, "effect_sites": b} for k, (a, b) in sorted(c.entries.items())},
        "obligations": len(c.obligations),
        "discharged": n[HELD],
        "undecided": n[UNDECIDED_],
        "rules": [{"rule": w, "obligations": dict(k), "sites": sorted(sites[w])[:8]} for w, k in by.items()],
        "undecided_obligations": [o.as_dict() for o in c.obligations if o.verdict == UNDECIDED_][:20],
        "unmodelled_constructs": {k: dict(r.interp.unmodelled) for k, r in sorted(c.results.items()) if r.interp.unmodelled},
    }
    with open(os.path.join(EVID, pid + ".json"), "w", encoding="utf-8") as f:
        json.dump({
            "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": cov,
            "assumptions": [
                "A backend, storage or hook honours the contract documented in its abstract method.",
                "Public coroutines of one session manager are not interleaved with each other.",
                "Undecided obligations (constructs outside the modelled language) are reported here and claim nothing.",
            ],
            "wall_s": round(wall, 2), "violations": violations,
        }, f, indent=1, sort_keys=True)
        f.write("\n")


def main(argv: List[str]) -> int:
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    verbose = "-v" in argv
    ids = [a for a in argv if not a.startswith("-")]
    if ids == ["all"]:
        ids = list(rules())
    try:
        m = Model(REPO)
    except AnalysisBroken as e:
        print(f"analysis not possible: {e}", file=sys.stderr)
        return 2
    rc = 0
    for pid in ids:
        t1 = time.time()
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(LIMIT)
        try:
            c = evaluate(m, pid)
        except AnalysisBroken as e:
            print(f"{pid}: analysis not possible: {e}", file=sys.stderr)
            rc = max(rc, 2)
            continue
        finally:
            signal.alarm(0)
        bad = [o for o in c.obligations if o.verdict == VIOLATED]
        kn = known(pid)
        new = []
        for o in bad:
            hit = next((k for k in kn if k["what"] == o.what and k["function"] in o.site), None)
            if hit is None:
                new.append(o)
        for k in kn:
            if any(k["what"] == o.what and k["function"] in o.site for o in bad):
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
        write_evidence(pid, c, tier, time.time() - (t0 if len(ids) == 1 else t1), len(new))
        n = Counter(o.verdict for o in c.obligations)
        if verbose or not new:
            print(f"{pid}: {len(c.obligations)} obligations, {n[HELD]} discharged, {n[UNDECIDED_]} undecided, "
                  f"{len(new)} violated ({time.time() - t1:.1f}s)")
        if verbose:
            shown = set()
            for o in c.obligations:
                if o.verdict != HELD and (o.what, o.site) not in shown:
                    shown.add((o.what, o.site))
                    print(f"   {o.verdict}: {o.what} [{o.site}] {o.why[:300]}")
        if new:
            path = os.path.join(EVID, pid + ".violation.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump({"property": pid, "violations": [o.as_dict() for o in new]}, f, indent=1)
            seen = set()
            for o in new:
                if (o.what, o.site) in seen:
                    continue
                seen.add((o.what, o.site))
                print(f"  {o.site}: NOT: {o.what}" + (f" ({o.why[:200]})" if o.why else ""))
            print(f"VIOLATION property={pid} replay={path}")
            rc = max(rc, 1) if rc != 2 else 2
    return rc
