"""
The resolved program: every module of the ``omemo`` package in the working tree, parsed from source, with its
classes, functions, imports and annotations.
"""

from __future__ import annotations

import ast
import builtins
import hashlib
import os
from typing import Dict, List, Optional, Set, Tuple, Union

from . import terms
from .terms import T, is_const, cval


class AnalysisBroken(Exception):
    """The analysis can not give an answer (an anchor vanished, a file does not parse, ...)."""


FuncNode = Union[ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda]


class Func:
    def __init__(self, node: FuncNode, module: "Module", cls: Optional["Cls"], qualname: str) -> None:
        self.node = node
        self.module = module
        self.cls = cls
        self.qualname = qualname
        decs = []
        for d in getattr(node, "decorator_list", []):
            decs.append(ast.unparse(d).split(".")[-1].split("(")[0])
        self.decorators = decs

    @property
    def is_async(self) -> bool:
        return isinstance(self.node, ast.AsyncFunctionDef)

    @property
    def is_abstract(self) -> bool:
        return "abstractmethod" in self.decorators

    @property
    def is_property(self) -> bool:
        return "property" in self.decorators or "cached_property" in self.decorators

    @property
    def is_static(self) -> bool:
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self) -> bool:
        return "classmethod" in self.decorators

    def annotation(self, name: str) -> Optional[str]:
        a = self.node.args
        for arg in a.posonlyargs + a.args + a.kwonlyargs:
            if arg.arg == name and arg.annotation is not None:
                return norm_type(arg.annotation)
        return None

    @property
    def returns(self) -> Optional[str]:
        r = getattr(self.node, "returns", None)
        return norm_type(r) if r is not None else None

    def param_names(self) -> List[str]:
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    @property
    def where(self) -> str:
        return f"{self.module.path}:{getattr(self.node, 'lineno', 0)}"


class Cls:
    def __init__(self, node: ast.ClassDef, module: "Module") -> None:
        self.node = node
        self.module = module
        self.name = node.name
        self.bases = [ast.unparse(b).split("[")[0].split(".")[-1] for b in node.bases]
        self.methods: Dict[str, Func] = {}
        self.consts: Dict[str, ast.expr] = {}
        self.annots: Dict[str, str] = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = Func(s, module, self, f"{node.name}.{s.name}")
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.annots[s.target.id] = norm_type(s.annotation)
                if s.value is not None:
                    self.consts[s.target.id] = s.value


class Module:
    def __init__(self, path: str, relpath: str, name: str, source: str) -> None:
        self.path = relpath
        self.name = name
        self.source = source
        self.tree = ast.parse(source, path)
        self.classes: Dict[str, Cls] = {}
        self.functions: Dict[str, Func] = {}
        self.imports: Dict[str, Tuple[str, Optional[str]]] = {}
        self.assigns: Dict[str, ast.expr] = {}
        self._scan(self.tree.body)

    def _scan(self, body: List[ast.stmt]) -> None:
        for s in body:
            if isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(s, self)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[s.name] = Func(s, self, None, f"{self.name}.{s.name}")
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(s, ast.ImportFrom):
                mod = ("." * s.level) + (s.module or "")
                for a in s.names:
                    self.imports[a.asname or a.name] = (mod, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.assigns[s.target.id] = s.value
            elif isinstance(s, ast.Try):
                self._scan(s.body)
                for h in s.handlers:
                    self._scan([x for x in h.body if not isinstance(x, ast.Pass)])
            elif isinstance(s, ast.If):
                self._scan(s.body)
                self._scan(s.orelse)


def norm_type(node: Optional[ast.expr]) -> str:
    if node is None:
        return "Any"
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        try:
            return norm_type(ast.parse(node.value, mode="eval").body)
        except SyntaxError:
            return "Any"
    if isinstance(node, ast.Constant) and node.value is None:
        return "None"
    if isinstance(node, ast.Name):
        return {"dict": "Dict", "list": "List", "set": "Set", "frozenset": "FrozenSet", "tuple": "Tuple"}.get(
            node.id, node.id)
    if isinstance(node, ast.Attribute):
        return node.attr
    if isinstance(node, ast.Subscript):
        base = norm_type(node.value)
        sl = node.slice
        args = [norm_type(x) for x in sl.elts] if isinstance(sl, ast.Tuple) else [norm_type(sl)]
        if base == "Union" and "None" in args and len(args) == 2:
            return f"Optional[{[x for x in args if x != 'None'][0]}]"
        return f"{base}[{', '.join(args)}]"
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        l, r = norm_type(node.left), norm_type(node.right)
        if r == "None":
            return f"Optional[{l}]"
        if l == "None":
            return f"Optional[{r}]"
        return f"Union[{l}, {r}]"
    return "Any"


def type_args(t: str) -> List[str]:
    if "[" not in t:
        return []
    inner = t[t.index("[") + 1:-1]
    out, depth, cur = [], 0, ""
    for ch in inner:
        if ch == "[":
            depth += 1
        elif ch == "]":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Program:
    def __init__(self, root: str, package: str = "omemo") -> None:
        self.root = root
        self.package = package
        self.modules: Dict[str, Module] = {}
        pkg = os.path.join(root, package)
        if not os.path.isdir(pkg):
            raise AnalysisBroken(f"package directory {pkg} not found")
        digest = hashlib.sha256()
        for dirpath, dirnames, filenames in os.walk(pkg):
            dirnames[:] = sorted(d for d in dirnames if d != "__pycache__")
            for fn in sorted(filenames):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(path, encoding="utf-8") as f:
                    src = f.read()
                digest.update(rel.encode() + b"\0" + src.encode() + b"\0")
                try:
                    self.modules[name] = Module(path, rel, name, src)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{rel} does not parse: {e}") from e
        self.digest = digest.hexdigest()
        self.classes: Dict[str, Cls] = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)
        for c in self.classes.values():
            if any(b in ("Enum", "IntEnum") for b in c.bases):
                terms._ENUMS[c.name] = tuple(k for k in c.consts if not k.startswith("_"))
        self.ann_fields: Dict[Tuple[str, str], str] = {}
        for c in self.classes.values():
            for f in c.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) \
                            and isinstance(n.target.value, ast.Name) and n.target.value.id == "self":
                        self.ann_fields.setdefault((c.name, n.target.attr), norm_type(n.annotation))
        self.role_types = {
            "storage": "Storage", "backends": "List[Backend]", "own_bare_jid": "str", "own_device_id": "int",
            "undecided_trust_level_name": "str", "pre_key_refill_threshold": "int", "synchronizing": "bool",
            "identity_key_pair": "IdentityKeyPair"
        }
        self._type_cache: Dict[T, Optional[str]] = {}
        terms._TYPEOF[0] = self.typeof

    # ---------------------------------------------------------------------------------------------------
    def cls(self, name: str) -> Cls:
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken(f"class {name} not found in the package")
        return c

    def mro(self, name: str) -> List[Cls]:
        out: List[Cls] = []
        todo = [name]
        while todo:
            n = todo.pop(0)
            c = self.classes.get(n)
            if c is not None and c not in out:
                out.append(c)
                todo.extend(c.bases)
        return out

    def method(self, cls: str, name: str) -> Optional[Func]:
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def require(self, cls: str, name: str) -> Func:
        f = self.method(cls, name)
        if f is None:
            raise AnalysisBroken(f"{cls}.{name} not found: the public entry point this rule is anchored to vanished")
        return f

    def subclasses(self, name: str) -> List[Cls]:
        return [c for c in self.classes.values() if name in [x.name for x in self.mro(c.name)]]

    def is_exc_subclass(self, name: str, of: str) -> bool:
        if of in ("*", "BaseException") or name == of:
            return True
        seen: Set[str] = set()
        todo = [name]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if n == of:
                return True
            if n in self.classes:
                todo.extend(self.classes[n].bases)
            else:
                b = getattr(builtins, n, None)
                if isinstance(b, type) and issubclass(b, BaseException):
                    todo.extend(x.__name__ for x in b.__mro__[1:])
        return False

    def is_exception(self, name: str) -> bool:
        return self.is_exc_subclass(name, "Exception")

    # ---------------------------------------------------------------------------------------------------
    def typeof(self, t: T) -> Optional[str]:
        if t in self._type_cache:
            return self._type_cache[t]
        self._type_cache[t] = None
        r = self._typeof(t)
        self._type_cache[t] = r
        return r

    def _typeof(self, t: T) -> Optional[str]:
        op, a = t.op, t.a
        if op == "const":
            return type(cval(t)).__name__ if cval(t) is not None else "None"
        if op == "role":
            return self.role_types.get(a[0])
        if op == "param":
            fn = self._func_by_qual(a[0])
            return fn.annotation(a[1]) if fn is not None else None
        if op == "trust":
            return "TrustLevel"
        if op == "enum":
            return a[0]
        if op == "nt":
            return a[0]
        if op == "str":
            return "str"
        if op in ("b64u", "b64", "hex"):
            return "str"
        if op == "len":
            return "int"
        if op == "ev":
            name, recv = a[1], a[2]
            if name.startswith("load") and name != "load_session":
                return "Maybe[Any]"
            for cn in ("SessionManager", "Backend", "Storage", "IdentityKeyPair"):
                f = self.method(cn, name)
                if f is not None and f.returns is not None:
                    if cn == "SessionManager" and recv.op not in ("self", "cls"):
                        continue
                    return f.returns
            return None
        if op in ("just", "maybe"):
            ld = a[0]
            if ld.op == "ev":
                prim = "Any"
                if len(ld.a[3]) > 1 and ld.a[3][1].op == "cls":
                    prim = ld.a[3][1].a[0]
                return {
                    "load_primitive": prim, "load_optional": f"Optional[{prim}]", "load_list": f"List[{prim}]",
                    "load_dict": f"Dict[str, {prim}]", "load_bytes": "bytes"
                }.get(ld.a[1])
            return None
        if op == "attr":
            ty = self.typeof(a[0])
            if a[0] is terms.SELF:
                return self.ann_fields.get(("SessionManager", a[1]))
            if ty is None:
                return None
            if ty.startswith("Optional["):
                ty = ty[9:-1]
            for c in self.mro(ty):
                if a[1] in c.annots:
                    return c.annots[a[1]]
                if a[1] in c.methods and c.methods[a[1]].is_property:
                    return c.methods[a[1]].returns
            return None
        if op == "ite":
            tys = {self.typeof(v) for _, v in a[0]}
            return tys.pop() if len(tys) == 1 else None
        if op == "coll":
            tys = {self.typeof(p.a[0]) for p in a[1]}
            return f"List[{tys.pop()}]" if len(tys) == 1 and None not in tys else None
        if op in ("elem", "pick"):
            ty = self.typeof(a[0])
            if ty is None:
                return None
            if ty.startswith("Optional["):
                ty = ty[9:-1]
            base, args = ty.split("[")[0], type_args(ty)
            if base in ("List", "Set", "FrozenSet", "Dict", "Mapping", "Sequence", "Iterable") and args:
                return args[0]
            if base == "Tuple" and len(args) == 2 and args[1] == "...":
                return args[0]
            return None
        if op == "item":
            ty = self.typeof(a[0])
            if ty is None:
                return None
            base, args = ty.split("[")[0], type_args(ty)
            if base == "Tuple" and is_const(a[1]) and isinstance(cval(a[1]), int) and cval(a[1]) < len(args):
                return args[cval(a[1])]
            if base in ("Dict", "Mapping") and len(args) == 2:
                return args[1]
            if base == "List" and args:
                return args[0]
            return None
        return None

    def _func_by_qual(self, q: str) -> Optional[Func]:
        if "." in q:
            cn, m = q.split(".", 1)
            if cn in self.classes:
                return self.classes[cn].methods.get(m)
        for mod in self.modules.values():
            for f in mod.functions.values():
                if f.qualname == q:
                    return f
        return None
