"""Syntax-directed backwards liveness of local names, recorded at every loop exit."""

from __future__ import annotations

import ast
from typing import Dict, Iterable, List, Set


def loads(n: ast.AST) -> Set[str]:
    """Names read by an expression (comprehension and lambda variables excluded)."""

    if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        bound: Set[str] = set()
        out: Set[str] = set()
        for g in n.generators:
            out |= loads(g.iter) - bound
            bound |= targets(g.target)
            for i in g.ifs:
                out |= loads(i) - bound
        if isinstance(n, ast.DictComp):
            out |= (loads(n.key) | loads(n.value)) - bound
        else:
            out |= loads(n.elt) - bound
        return out
    if isinstance(n, ast.Lambda):
        a = n.args
        ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        out = loads(n.body) - ps
        for d in list(a.defaults) + [x for x in a.kw_defaults if x is not None]:
            out |= loads(d)
        return out
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        out = set()
        for st in n.body:
            out |= loads(st)
        return out - {x.arg for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
    if isinstance(n, ast.Name):
        return {n.id} if isinstance(n.ctx, ast.Load) else set()
    out = set()
    for c in ast.iter_child_nodes(n):
        out |= loads(c)
    return out


def targets(t: ast.AST) -> Set[str]:
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


class Liveness:
    def __init__(self, fn: ast.AST) -> None:
        self.after: Dict[int, Set[str]] = {}
        self.exc: Set[str] = set()  # live where a raised exception is handled
        body = getattr(fn, "body", [])
        if isinstance(body, list):
            self.block(body, set(), set(), set())

    def block(self, body: Iterable[ast.stmt], out: Set[str], brk: Set[str], cont: Set[str]) -> Set[str]:
        for s in reversed(list(body)):
            out = self.stmt(s, out, brk, cont) | self.exc
        return out

    def stmt(self, s: ast.stmt, out: Set[str], brk: Set[str], cont: Set[str]) -> Set[str]:
        if isinstance(s, ast.Assign):
            kill: Set[str] = set()
            use = loads(s.value)
            for t in s.targets:
                kill |= targets(t)
                use |= loads(t)
            return (out - kill) | use
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return out
            return (out - targets(s.target)) | loads(s.value) | loads(s.target)
        if isinstance(s, ast.AugAssign):
            return out | targets(s.target) | loads(s.target) | loads(s.value)
        if isinstance(s, ast.If):
            return loads(s.test) | self.block(s.body, out, brk, cont) | self.block(s.orelse, out, brk, cont)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            exhaust = self.block(s.orelse, out, brk, cont)
            self.after[id(s)] = self.after.get(id(s), set()) | exhaust | out
            kill = targets(s.target) if not isinstance(s, ast.While) else set()
            head = set(exhaust) | (loads(s.test) if isinstance(s, ast.While) else set())
            for _ in range(3):
                b = self.block(s.body, head, out, head) - kill
                if b <= head:
                    break
                head |= b
            return head | (loads(s.iter) if not isinstance(s, ast.While) else set())
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, out, brk, cont) if s.finalbody else out
            hs: Set[str] = set()
            for h in s.handlers:
                x = self.block(h.body, fin, brk, cont)
                if h.name:
                    x = x - {h.name}
                hs |= x | (loads(h.type) if h.type is not None else set())
            els = self.block(s.orelse, fin, brk, cont) if s.orelse else fin
            outer, self.exc = self.exc, self.exc | hs | (fin if s.finalbody else set())
            b = self.block(s.body, els, brk, cont)
            self.exc = outer
            return b | hs
        if isinstance(s, (ast.With, ast.AsyncWith)):
            x = self.block(s.body, out, brk, cont)
            for i in s.items:
                if i.optional_vars is not None:
                    x = x - targets(i.optional_vars)
                x = x | loads(i.context_expr)
            return x | out
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            free: Set[str] = set()
            own: Set[str] = {x.arg for x in s.args.posonlyargs + s.args.args + s.args.kwonlyargs}
            shared: Set[str] = set()
            for st in s.body:
                free |= loads(st)
                own |= targets(st)
                for x in ast.walk(st):
                    if isinstance(x, (ast.Nonlocal, ast.Global)):
                        shared |= set(x.names)
            for d in list(s.args.defaults) + [x for x in s.args.kw_defaults if x is not None]:
                out = out | loads(d)
            return (out - {s.name}) | (free - (own - shared))
        if isinstance(s, ast.Return):
            return loads(s.value) if s.value is not None else set()
        if isinstance(s, ast.Raise):
            return (loads(s.exc) if s.exc else set()) | (loads(s.cause) if s.cause else set()) | self.exc
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, ast.Match):
            x = loads(s.subject) | out
            for c in s.cases:
                x |= self.block(c.body, out, brk, cont)
                if c.guard is not None:
                    x |= loads(c.guard)
            return x
        return out | loads(s)
