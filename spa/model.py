"""Program model: parsed modules, symbols, classes (with MRO), functions and name resolution.

Nothing of the analysed program is imported or executed: everything below is built from the
syntax trees of the files found under REPO at the time of the run.
"""

from __future__ import annotations

import ast
import os
from pathlib import Path

REPO = Path(os.environ.get("SPA_REPO", "/repo"))
PKG = "surface_potential_analysis"


class AnalysisBroken(Exception):
    """The analysed program no longer has a shape this analysis understands."""


class Ext:
    """A name that belongs to a third party or standard library module."""

    __slots__ = ("name",)

    def __init__(self, name: str) -> None:
        self.name = name

    def __repr__(self) -> str:
        return f"Ext({self.name})"

    def __eq__(self, o: object) -> bool:
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self) -> int:
        return hash(("Ext", self.name))


class Import:
    __slots__ = ("attr", "node", "target", "type_only")

    def __init__(self, target: str, attr: str | None, type_only: bool, node: ast.AST) -> None:
        self.target = target
        self.attr = attr
        self.type_only = type_only
        self.node = node


class Assign:
    """A module level assignment."""

    __slots__ = ("module", "name", "node", "value")

    def __init__(self, module: "Module", name: str, node: ast.AST, value: ast.expr | None) -> None:
        self.module = module
        self.name = name
        self.node = node
        self.value = value

    @property
    def qual(self) -> str:
        return f"{self.module.name}.{self.name}"


class Param:
    __slots__ = ("annotation", "default", "has_default", "kind", "name")

    def __init__(self, name: str, kind: str, annotation: ast.expr | None, default: ast.expr | None) -> None:
        self.name = name
        self.kind = kind  # pos | kw | var | varkw | posonly
        self.annotation = annotation
        self.default = default
        self.has_default = default is not None


class Func:
    def __init__(self, node: ast.FunctionDef, module: "Module", cls: "Class | None", parent: "Func | None") -> None:
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = node.name
        self.children: dict[str, Func] = {}
        self.overloads: list[Func] = []
        self.decorators = [d for d in node.decorator_list]
        a = node.args
        ps: list[Param] = []
        pos = [*a.posonlyargs, *a.args]
        nd = len(pos) - len(a.defaults)
        for i, x in enumerate(pos):
            d = a.defaults[i - nd] if i >= nd else None
            ps.append(Param(x.arg, "posonly" if i < len(a.posonlyargs) else "pos", x.annotation, d))
        if a.vararg:
            ps.append(Param(a.vararg.arg, "var", a.vararg.annotation, None))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            ps.append(Param(x.arg, "kw", x.annotation, d))
        if a.kwarg:
            ps.append(Param(a.kwarg.arg, "varkw", a.kwarg.annotation, None))
        self.params = ps

    @property
    def qual(self) -> str:
        base = self.module.name
        if self.cls is not None:
            return f"{self.cls.qual}.{self.name}"
        if self.parent is not None:
            return f"{self.parent.qual}.{self.name}"
        return f"{base}.{self.name}"

    @property
    def short(self) -> str:
        return self.qual.removeprefix(PKG + ".")

    def has_decorator(self, *names: str) -> bool:
        for d in self.decorators:
            t = d.func if isinstance(d, ast.Call) else d
            n = t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", None)
            if n in names:
                return True
        return False

    @property
    def is_property(self) -> bool:
        return self.has_decorator("property", "cached_property")

    @property
    def is_static(self) -> bool:
        return self.has_decorator("staticmethod")

    @property
    def is_classmethod(self) -> bool:
        return self.has_decorator("classmethod")

    @property
    def is_abstract(self) -> bool:
        return self.has_decorator("abstractmethod")

    @property
    def is_public(self) -> bool:
        if self.parent is not None:
            return False
        if self.name.startswith("_") and not (self.name.startswith("__") and self.name.endswith("__")):
            return False
        if self.cls is not None and self.cls.name.startswith("_") and False:
            return False
        return True

    @property
    def bound_params(self) -> list[Param]:
        """Parameters as seen by a caller of the bound method or function."""
        if self.cls is not None and not self.is_static and self.params and self.params[0].kind in ("pos", "posonly"):
            return self.params[1:]
        return self.params

    @property
    def loc(self) -> str:
        return f"{self.module.rel}:{self.node.lineno}"

    def param(self, name: str) -> Param | None:
        for p in self.params:
            if p.name == name:
                return p
        return None

    def __repr__(self) -> str:
        return f"Func({self.qual})"


class Class:
    def __init__(self, node: ast.ClassDef, module: "Module") -> None:
        self.node = node
        self.module = module
        self.name = node.name
        self.methods: dict[str, Func] = {}
        self.fields: dict[str, ast.expr] = {}
        self.class_assigns: dict[str, ast.expr | None] = {}

    @property
    def qual(self) -> str:
        return f"{self.module.name}.{self.name}"

    @property
    def short(self) -> str:
        return self.qual.removeprefix(PKG + ".")

    def __repr__(self) -> str:
        return f"Class({self.qual})"


class Module:
    def __init__(self, name: str, path: Path, root: Path) -> None:
        self.name = name
        self.path = path
        self.rel = str(path.relative_to(root))
        self.is_pkg = path.name == "__init__.py"
        self.src = path.read_text(encoding="utf8")
        self.tree = ast.parse(self.src, filename=str(path))
        self.symbols: dict[str, object] = {}
        self.imports: list[Import] = []
        self.funcs: list[Func] = []
        self.classes: list[Class] = []

    @property
    def package(self) -> str:
        return self.name if self.is_pkg else self.name.rpartition(".")[0]

    def __repr__(self) -> str:
        return f"Module({self.name})"


def is_type_checking(test: ast.expr) -> bool:
    return (isinstance(test, ast.Name) and test.id == "TYPE_CHECKING") or (
        isinstance(test, ast.Attribute) and test.attr == "TYPE_CHECKING"
    )


class Project:
    def __init__(self, root: Path | None = None) -> None:
        self.root = Path(root or REPO)
        base = self.root / PKG
        if not base.is_dir():
            raise AnalysisBroken(f"no package {PKG} in {self.root}")
        self.modules: dict[str, Module] = {}
        for path in sorted(base.rglob("*.py")):
            rel = path.relative_to(self.root).with_suffix("")
            parts = list(rel.parts)
            if parts[-1] == "__init__":
                parts = parts[:-1]
            name = ".".join(parts)
            self.modules[name] = Module(name, path, self.root)
        for m in self.modules.values():
            self._collect(m)
        self.funcs: list[Func] = [f for m in self.modules.values() for f in m.funcs]
        self.classes: list[Class] = [c for m in self.modules.values() for c in m.classes]
        self._mro: dict[int, list[Class]] = {}
        self._base_cache: dict[int, list[object]] = {}
        self.methods_by_name: dict[str, list[Func]] = {}
        for c in self.classes:
            for n, f in c.methods.items():
                self.methods_by_name.setdefault(n, []).append(f)
        self._locals_cache: dict[int, dict[str, list[ast.AST]]] = {}

    # ------------------------------------------------------------------ symbols
    def _import_target(self, m: Module, node: ast.ImportFrom) -> str:
        if not node.level:
            return node.module or ""
        pkg = m.package.split(".")
        up = node.level - 1
        pkg = pkg[: len(pkg) - up] if up else pkg
        return ".".join([*pkg, node.module] if node.module else pkg)

    def _collect(self, m: Module) -> None:
        pending: dict[str, list[Func]] = {}

        def add_import(node: ast.AST, table: dict[str, object], type_only: bool) -> None:
            if isinstance(node, ast.Import):
                for a in node.names:
                    imp = Import(a.name if a.asname else a.name.split(".")[0], None, type_only, node)
                    m.imports.append(Import(a.name, None, type_only, node))
                    table[a.asname or a.name.split(".")[0]] = imp
            elif isinstance(node, ast.ImportFrom):
                tgt = self._import_target(m, node)
                for a in node.names:
                    imp = Import(tgt, a.name, type_only, node)
                    m.imports.append(imp)
                    if a.name != "*":
                        table[a.asname or a.name] = imp

        def visit(body: list[ast.stmt], type_only: bool) -> None:
            for st in body:
                if isinstance(st, (ast.Import, ast.ImportFrom)):
                    add_import(st, m.symbols, type_only)
                elif isinstance(st, ast.If):
                    visit(st.body, type_only or is_type_checking(st.test))
                    visit(st.orelse, type_only)
                elif isinstance(st, ast.Try):
                    for b in (st.body, st.orelse, st.finalbody, *[h.body for h in st.handlers]):
                        visit(b, type_only)
                elif isinstance(st, (ast.With,)):
                    visit(st.body, type_only)
                elif isinstance(st, ast.FunctionDef):
                    f = Func(st, m, None, None)
                    if f.has_decorator("overload"):
                        pending.setdefault(st.name, []).append(f)
                        continue
                    f.overloads = pending.pop(st.name, [])
                    m.funcs.append(f)
                    m.symbols[st.name] = f
                    self._nested(m, f)
                elif isinstance(st, ast.ClassDef):
                    c = Class(st, m)
                    m.classes.append(c)
                    m.symbols[st.name] = c
                    for b in st.body:
                        if isinstance(b, ast.FunctionDef):
                            f = Func(b, m, c, None)
                            if f.has_decorator("overload"):
                                continue
                            if f.has_decorator("setter"):
                                continue
                            c.methods[b.name] = f
                            m.funcs.append(f)
                            self._nested(m, f)
                        elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                            c.fields[b.target.id] = b.annotation
                            if b.value is not None:
                                c.class_assigns[b.target.id] = b.value
                        elif isinstance(b, ast.Assign):
                            for t in b.targets:
                                if isinstance(t, ast.Name):
                                    c.class_assigns[t.id] = b.value
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                m.symbols[n.id] = Assign(m, n.id, st, st.value if isinstance(t, ast.Name) else None)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    m.symbols[st.target.id] = Assign(m, st.target.id, st, st.value)
                elif hasattr(ast, "TypeAlias") and isinstance(st, ast.TypeAlias):
                    m.symbols[st.name.id] = Assign(m, st.name.id, st, st.value)

        visit(m.tree.body, False)

    def _nested(self, m: Module, f: Func) -> None:
        for node in walk_own(f.node):
            if isinstance(node, ast.FunctionDef) and node is not f.node:
                g = Func(node, m, None, f)
                if g.has_decorator("overload"):
                    continue
                f.children[node.name] = g
                m.funcs.append(g)
                self._nested(m, g)

    # --------------------------------------------------------------- resolution
    def lookup_module_attr(self, modname: str, attr: str, _seen: frozenset = frozenset()) -> object | None:
        """What `from modname import attr` binds (repo object, Ext, Module) or None."""
        if (modname, attr) in _seen:
            return None
        if modname in self.modules:
            m = self.modules[modname]
            if attr in m.symbols:
                return self._deref(m.symbols[attr], _seen | {(modname, attr)})
            sub = f"{modname}.{attr}"
            if sub in self.modules:
                return self.modules[sub]
            for imp in m.imports:
                if imp.attr == "*":
                    r = self.lookup_module_attr(imp.target, attr, _seen | {(modname, attr)})
                    if r is not None:
                        return r
            return None
        if modname.split(".")[0] == PKG:
            return None
        return Ext(f"{modname}.{attr}")

    def _deref(self, sym: object, seen: frozenset = frozenset()) -> object | None:
        if isinstance(sym, Import):
            if sym.attr is None:
                if sym.target in self.modules:
                    return self.modules[sym.target]
                if sym.target.split(".")[0] == PKG:
                    return None
                return Ext(sym.target)
            return self.lookup_module_attr(sym.target, sym.attr, seen)
        return sym

    def resolve_global(self, m: Module, name: str) -> object | None:
        if name in m.symbols:
            return self._deref(m.symbols[name])
        for imp in m.imports:
            if imp.attr == "*":
                r = self.lookup_module_attr(imp.target, name)
                if r is not None:
                    return r
        return None

    def func_locals(self, f: Func) -> dict[str, list[ast.AST]]:
        """Names bound inside the function (parameters included)."""
        key = id(f.node)
        if key not in self._locals_cache:
            out: dict[str, list[ast.AST]] = {}
            for p in f.params:
                out.setdefault(p.name, []).append(f.node)
            for n in walk_own(f.node):
                if n is f.node:
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.setdefault(n.id, []).append(n)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.setdefault(n.name, []).append(n)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        out.setdefault(a.asname or a.name.split(".")[0], []).append(n)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    out.setdefault(n.name, []).append(n)
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    out.setdefault(n.name, []).append(n)
            self._locals_cache[key] = out
        return self._locals_cache[key]

    def resolve(self, m: Module, expr: ast.expr, f: Func | None = None) -> object | None:
        """Resolve a Name/Attribute/Subscript expression to a program object, if it denotes one statically."""
        if isinstance(expr, ast.Subscript):  # TupleBasis[Any](...)
            return self.resolve(m, expr.value, f)
        if isinstance(expr, ast.Constant) and isinstance(expr.value, str):
            try:
                return self.resolve(m, ast.parse(expr.value, mode="eval").body, f)
            except SyntaxError:
                return None
        if isinstance(expr, ast.Name):
            g = f
            while g is not None:
                loc = self.func_locals(g)
                if expr.id in loc:
                    if expr.id in g.children:
                        return g.children[expr.id]
                    for d in loc[expr.id]:
                        if isinstance(d, ast.ImportFrom):
                            tgt = self._import_target(m, d)
                            for a in d.names:
                                if (a.asname or a.name) == expr.id:
                                    return self.lookup_module_attr(tgt, a.name)
                        elif isinstance(d, ast.Import):
                            for a in d.names:
                                if (a.asname or a.name.split(".")[0]) == expr.id:
                                    t = a.name if a.asname else a.name.split(".")[0]
                                    return self.modules.get(t) or Ext(t)
                    return None
                g = g.parent
            r = self.resolve_global(m, expr.id)
            if r is None and expr.id in BUILTINS:
                return Ext("builtins." + expr.id)
            return r
        if isinstance(expr, ast.Attribute):
            b = self.resolve(m, expr.value, f)
            if isinstance(b, Module):
                return self.lookup_module_attr(b.name, expr.attr)
            if isinstance(b, Ext):
                return Ext(f"{b.name}.{expr.attr}")
            if isinstance(b, Class):
                return self.find_method(b, expr.attr)
            return None
        return None

    # ------------------------------------------------------------------ classes
    def bases(self, c: Class) -> list[object]:
        if id(c) not in self._base_cache:
            out = []
            for b in c.node.bases:
                r = self.resolve(c.module, b)
                if r is not None:
                    out.append(r)
            self._base_cache[id(c)] = out
        return self._base_cache[id(c)]

    def mro(self, c: Class) -> list[Class]:
        """C3 linearisation over repo classes (external bases dropped)."""
        if id(c) in self._mro:
            return self._mro[id(c)]
        seqs = [list(self.mro(b)) for b in self.bases(c) if isinstance(b, Class)]
        seqs.append([b for b in self.bases(c) if isinstance(b, Class)])
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise AnalysisBroken(f"inconsistent class hierarchy at {c.qual}")
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        self._mro[id(c)] = out
        return out

    def find_method(self, c: Class, name: str) -> Func | None:
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def ext_bases(self, c: Class) -> set[str]:
        out: set[str] = set()
        for k in self.mro(c):
            for b in self.bases(k):
                if isinstance(b, Ext):
                    out.add(b.name)
        return out

    def is_subclass(self, c: Class, d: Class) -> bool:
        return d in self.mro(c)

    def subclasses(self, d: Class) -> list[Class]:
        return [c for c in self.classes if d in self.mro(c)]

    def is_typeddict(self, c: Class) -> bool:
        return any(n.endswith("TypedDict") for n in self.ext_bases(c))

    def is_protocol(self, c: Class) -> bool:
        return any(isinstance(b, Ext) and b.name.endswith(".Protocol") for b in self.bases(c))

    def func(self, qual: str) -> Func | None:
        if not qual.startswith(PKG):
            qual = f"{PKG}.{qual}"
        for f in self.funcs:
            if f.qual == qual:
                return f
        return None

    def cls(self, name: str) -> Class | None:
        for c in self.classes:
            if c.name == name or c.qual == name:
                return c
        return None


import builtins as _b

BUILTINS = set(dir(_b))


def walk_own(node: ast.AST):
    """All nodes of a function body without entering nested functions/classes/lambdas' own scopes.

    Nested definitions themselves are yielded; comprehensions are entered.
    """
    stack = [node]
    first = True
    while stack:
        n = stack.pop()
        yield n
        if not first and isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            stack.extend(n.decorator_list)
            continue
        first = False
        stack.extend(ast.iter_child_nodes(n))


def body_without_doc(f: ast.FunctionDef) -> list[ast.stmt]:
    b = f.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        return b[1:]
    return b


def is_stub(f: ast.FunctionDef) -> bool:
    """Protocol style body: only docstring / ... / pass / raise NotImplementedError."""
    for st in body_without_doc(f):
        if isinstance(st, ast.Pass):
            continue
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and st.value.value is Ellipsis:
            continue
        if isinstance(st, ast.Raise):
            continue
        return False
    return True
