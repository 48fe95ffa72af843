"""Reading type annotations of the analysed program as layout types."""

from __future__ import annotations

import ast

from . import terms as T
from .model import Assign, Class, Ext, Func, Module, Project

NUMERIC = {
    "int", "float", "complex", "np.int_", "np.float64", "np.complex128", "numpy.int_", "numpy.float64", "numpy.complex128",
    "builtins.int", "builtins.float", "builtins.complex", "IntLike_co", "FloatLike_co", "numpy.complexfloating", "bool", "builtins.bool",
}
INDEX_ALIASES = {"SingleFlatIndexLike", "SingleIndexLike", "FlatIndexLike", "IntLike_co", "FloatLike_co", "ComplexLike_co", "_IntLike_co", "_FloatLike_co"}


GENERIC = ("BasisLike", "BasisWithLengthLike", "StackedBasisLike", "StackedBasisWithVolumeLike", "TupleBasisLike", "TupleBasisWithLengthLike")
# mixins that only say how a basis converts, not what it enumerates
CONVERTIBLE = ("AsFundamentalBasis", "AsTransformedBasis", "FromFundamentalBasis", "IntoFundamentalBasis", "FromTransformedBasis", "IntoTransformedBasis")


class A:
    """A parsed annotation: kind plus payload."""

    __slots__ = ("args", "kind", "obj")

    def __init__(self, kind: str, obj=None, args=()) -> None:
        self.kind = kind
        self.obj = obj
        self.args = args

    def __repr__(self) -> str:
        return f"A({self.kind},{self.obj},{self.args})"


class Annotations:
    def __init__(self, project: Project) -> None:
        self.p = project
        self._tv: dict[tuple[str, str], ast.expr | None] = {}
        self._params: dict[int, list[str]] = {}
        self.classes: dict = {}  # basis terms of the annotations parsed so far -> the class they are declared to be
        self._basis_like: dict[int, bool] = {}

    # ------------------------------------------------------------ helpers
    def is_basis_class(self, c: object) -> bool:
        if not isinstance(c, Class):
            return False
        if id(c) not in self._basis_like:
            self._basis_like[id(c)] = any(x.name == "BasisLike" for x in self.p.mro(c))
        return self._basis_like[id(c)]

    def space(self, c: Class) -> str | None:
        """Whether every basis of the class is in position ('x') or momentum ('k') space."""
        names = {x.name for x in self.p.mro(c)}
        return "k" if names & {"TransformedBasis", "EvenlySpacedTransformedBasis"} else "x" if "FundamentalPositionBasis" in names else None

    def is_tuple_basis(self, c: Class) -> bool:
        return any(x.name == "TupleBasisLike" for x in self.p.mro(c))

    def typevar(self, m: Module, name: str) -> tuple[str, ast.expr | None] | None:
        """('TypeVar'|'TypeVarTuple', bound) when the name is a type variable."""
        s = self.p.resolve_global(m, name)
        if not isinstance(s, Assign) or not isinstance(s.value, ast.Call):
            return None
        f = s.value.func
        fn = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        if fn not in ("TypeVar", "TypeVarTuple"):
            return None
        bound = next((k.value for k in s.value.keywords if k.arg == "bound"), None)
        return fn, bound

    def tv_is_basis(self, m: Module, name: str) -> bool:
        tv = self.typevar(m, name)
        if tv is None or tv[0] != "TypeVar" or tv[1] is None:
            return False
        s = self.p.resolve_global(m, name)
        return self._mentions_basis(s.module if isinstance(s, Assign) else m, tv[1])

    def _tv_space(self, m: Module, name: str) -> str | None:
        s = self.p.resolve_global(m, name)
        bound = self.typevar(m, name)[1]
        a = self.parse(s.module if isinstance(s, Assign) else m, bound, {}, name)
        return T.representation(a.obj) if a.kind == "basis" else None

    def _tv_class(self, m: Module, name: str) -> Class | None:
        s = self.p.resolve_global(m, name)
        bound = self.typevar(m, name)[1]
        while isinstance(bound, ast.Constant) and isinstance(bound.value, str):
            bound = ast.parse(bound.value, mode="eval").body
        r = self.p.resolve(s.module if isinstance(s, Assign) else m, bound.value if isinstance(bound, ast.Subscript) else bound)
        return r if isinstance(r, Class) else None

    def _weak_tv(self, m: Module, name: str) -> bool:
        """Whether the bound already fixes what kind of basis it is."""
        s = self.p.resolve_global(m, name)
        bound = self.typevar(m, name)[1]
        a = self.parse(s.module if isinstance(s, Assign) else m, bound, {}, name)
        return not (a.kind == "basis" and a.obj[0] == "par" and not a.obj[2]) and "Any" not in ast.unparse(bound).split("TupleBasis")[-1]

    def _mentions_basis(self, m: Module, e: ast.expr) -> bool:
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return False
        if isinstance(e, ast.Subscript):
            r = self.p.resolve(m, e.value)
            if isinstance(r, Assign) and r.value is not None:
                return self._mentions_basis(r.module, r.value)
            return self.is_basis_class(r)
        if isinstance(e, ast.BinOp):
            return self._mentions_basis(m, e.left) or self._mentions_basis(m, e.right)
        r = self.p.resolve(m, e)
        if isinstance(r, Assign) and r.value is not None:
            return self._mentions_basis(r.module, r.value)
        return self.is_basis_class(r)

    def _tvs_in(self, m: Module, e: ast.expr) -> list[str]:
        out: list[str] = []
        for n in _ordered_names(e):
            if n not in out and self.typevar(m, n) is not None:
                out.append(n)
        return out

    def class_params(self, c: Class) -> list[str]:
        if id(c) not in self._params:
            out: list[str] = []
            for b in c.node.bases:
                if isinstance(b, ast.Subscript) and getattr(b.value, "id", getattr(b.value, "attr", "")) in ("Generic", "Protocol"):
                    out = self._tvs_in(c.module, b.slice)
                    break
            else:
                for b in c.node.bases:
                    if isinstance(b, ast.Subscript):
                        for x in self._tvs_in(c.module, b.slice):
                            if x not in out:
                                out.append(x)
            self._params[id(c)] = out
        return self._params[id(c)]

    # ------------------------------------------------------------ parsing
    def element_kind(self, m, e: ast.expr) -> str | None:
        """As :func:`_dtype`; a type variable bound to every (or a complex and a real) element type is real or complex."""
        k = _dtype(e)
        if k is None and isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Tuple) and len(e.slice.elts) == 2:
            for x in ast.walk(e.slice.elts[1]):
                if isinstance(x, ast.Name):
                    r = self.p.resolve(m, x)
                    v = getattr(r, "value", None)
                    if isinstance(v, ast.Call) and ast.unparse(v.func).endswith("TypeVar"):
                        bound = next((ast.unparse(kw.value) for kw in v.keywords if kw.arg == "bound"), "Any")
                        if "complex" in bound or bound in ("np.dtype[Any]", "np.generic", "np.number[Any]"):
                            return "p"
        return k

    def parse(self, m: Module, e: ast.expr | None, subst: dict | None = None, path: str = "?") -> A:
        """Parse an annotation.  ``subst`` maps type variable names to parsed annotations."""
        subst = subst or {}
        if e is None:
            return A("any")
        if isinstance(e, ast.Constant):
            if e.value is None:
                return A("none")
            if isinstance(e.value, str):
                try:
                    return self.parse(m, ast.parse(e.value, mode="eval").body, subst, path)
                except SyntaxError:
                    return A("any")
            return A("any")
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self._union([self.parse(m, e.left, subst, path), self.parse(m, e.right, subst, path)])
        if isinstance(e, ast.Name):
            if e.id in subst:
                return subst[e.id]
            tv = self.typevar(m, e.id)
            if tv is not None:
                if tv[0] == "TypeVar" and self.tv_is_basis(m, e.id):
                    space = self._tv_space(m, e.id)
                    bound = self._tv_class(m, e.id)
                    if bound is not None:
                        self.classes["tv", e.id] = bound
                    return A("basis", ("tv", e.id, self._weak_tv(m, e.id)) if space is None else ("tv", e.id, self._weak_tv(m, e.id), space))
                return A("tvar", e.id)
        if isinstance(e, ast.Starred):
            return A("star", self.parse(m, e.value, subst, path))
        head = e.value if isinstance(e, ast.Subscript) else e
        args: list[ast.expr] = []
        if isinstance(e, ast.Subscript):
            args = list(e.slice.elts) if isinstance(e.slice, ast.Tuple) else [e.slice]
        r = self.p.resolve(m, head)
        name = getattr(head, "id", getattr(head, "attr", ""))
        if name in INDEX_ALIASES:
            return A("num")
        if name in ("Optional",):
            return self._union([self.parse(m, args[0], subst, path), A("none")])
        if name in ("Union",):
            return self._union([self.parse(m, a, subst, path) for a in args])
        if isinstance(r, Ext):
            n = r.name
            last = n.split(".")[-1]
            if n in NUMERIC or last in ("int_", "float64", "complex128", "Literal") or n in ("builtins.int", "builtins.float", "builtins.complex", "builtins.bool"):
                if last == "Literal":
                    return A("literal", [a.value for a in args if isinstance(a, ast.Constant)])
                return A("num", last)
            if last == "Unpack" and args:
                return A("star", self.parse(m, args[0], subst, path))
            if last in ("tuple", "Tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return A("list", self.parse(m, args[0], subst, path + "[]"))
                return A("tuple", None, tuple(self.parse(m, a, subst, f"{path}[{i}]") for i, a in enumerate(args)))
            if last in ("list", "List", "Iterable", "Iterator", "Sequence", "Generator", "Collection"):
                return A("list", self.parse(m, args[0], subst, path + "[]") if args else A("any"))
            if last == "ndarray":
                return A("arr", self.element_kind(m, e))
            if last == "slice":
                return A("slice")
            if last == "Callable":
                return A("callable", self.parse(m, args[1], subst, path + "()") if len(args) == 2 else A("any"))
            return A("any")
        if isinstance(r, Assign) and r.value is not None and not isinstance(r.value, ast.Call):
            params = self._tvs_in(r.module, r.value)
            parsed = [self.parse(m, a, subst, f"{path}.{i}") for i, a in enumerate(args)]
            if isinstance(r.value, ast.Name) and not params:
                # alias of a generic class without arguments: arguments go to the class
                c = self.p.resolve(r.module, r.value)
                if isinstance(c, Class):
                    return self._class(c, parsed, path)
            sub = {p: (parsed[i] if i < len(parsed) else A("basis", ("par", f"{path}.{p}", True))) for i, p in enumerate(params)}
            return self.parse(r.module, r.value, sub, path)
        if isinstance(r, Class):
            if self.is_basis_class(r):
                return self._basis(m, r, args, subst, path)
            return self._class(r, [self.parse(m, a, subst, f"{path}.{i}") for i, a in enumerate(args)], path)
        return A("any")

    def _union(self, parts: list[A]) -> A:
        flat: list[A] = []
        for x in parts:
            flat.extend(x.args if x.kind == "union" else [x])
        rest = [x for x in flat if x.kind != "none"]
        if len(rest) == len(flat):
            return A("union", None, tuple(rest)) if len(rest) > 1 else rest[0]
        if not rest:
            return A("none")
        inner = rest[0] if len(rest) == 1 else A("union", None, tuple(rest))
        return A("opt", inner)

    def _basis(self, m: Module, c: Class, args: list[ast.expr], subst: dict, path: str) -> A:
        if c.name in ("TupleBasisLike", "TupleBasis", "TupleBasisWithLengthLike", "TupleBasisWithLength") and args:
            items = []
            for i, a in enumerate(args):
                x = self.parse(m, a, subst, f"{path}[{i}]")
                if x.kind == "star":
                    inner = x.obj
                    if inner.kind == "tuple":
                        items.extend(y.obj if y.kind == "basis" else ("par", f"{path}[{i}]", True) for y in inner.args)
                    elif len(args) == 1:
                        weak = not (inner.kind == "list" and inner.obj.kind == "basis" and _generic_basis(inner.obj.obj))
                        space = T.representation(inner.obj.obj) if inner.kind == "list" and inner.obj.kind == "basis" else None
                        return A("basis", ("par", path, weak) if space is None else ("par", path, weak, space))
                    else:
                        items.append(("splat", ("par", f"{path}[{i}]", True)))
                elif x.kind == "basis":
                    items.append(x.obj)
                else:
                    items.append(("par", f"{path}[{i}]", True))
            return A("basis", T.tup(items))
        generic = c.name in GENERIC
        space = self.space(c)
        if c.name not in GENERIC:
            self.classes["par", path] = c
        return A("basis", ("par", path, not generic) if space is None else ("par", path, not generic, space))

    def _class(self, c: Class, args: list[A], path: str) -> A:
        if self.p.is_typeddict(c):
            return A("rec", c, tuple(args))
        return A("inst", c, tuple(args))

    # ------------------------------------------------------------ typed dictionaries
    def record_field(self, c: Class, args: tuple, name: str, path: str) -> A | None:
        """The parsed annotation of one field of a (generic) typed dictionary."""
        params = self.class_params(c)
        sub = {p: (args[i] if i < len(args) else A("basis", ("par", f"{path}.{p}", True))) for i, p in enumerate(params)}
        return self._field(c, sub, name, path)

    def _field(self, c: Class, sub: dict, name: str, path: str) -> A | None:
        if name in c.fields:
            return self.parse(c.module, c.fields[name], sub, f"{path}['{name}']")
        for b in c.node.bases:
            head = b.value if isinstance(b, ast.Subscript) else b
            r = self.p.resolve(c.module, head)
            if isinstance(r, Class) and self.p.is_typeddict(r):
                params = self.class_params(r)
                args = []
                if isinstance(b, ast.Subscript):
                    elts = b.slice.elts if isinstance(b.slice, ast.Tuple) else [b.slice]
                    args = [self.parse(c.module, x, sub, path) for x in elts]
                s2 = {p: (args[i] if i < len(args) else A("basis", ("par", f"{path}.{p}", True))) for i, p in enumerate(params)}
                out = self._field(r, s2, name, path)
                if out is not None:
                    return out
        return None

    def fields(self, c: Class) -> dict[str, bool]:
        """Field name -> required."""
        out: dict[str, bool] = {}
        for k in reversed(self.p.mro(c)):
            total = True
            for kw in k.node.keywords:
                if kw.arg == "total" and isinstance(kw.value, ast.Constant):
                    total = bool(kw.value.value)
            for name, ann in k.fields.items():
                h = ann.value if isinstance(ann, ast.Subscript) else ann
                hn = getattr(h, "id", getattr(h, "attr", ""))
                out[name] = True if hn == "Required" else False if hn == "NotRequired" else total
        return out

    def param(self, f: Func, name: str) -> A:
        p = f.param(name)
        if p is None:
            return A("any")
        a = self.parse(f.module, p.annotation, {}, name)
        if p.kind == "var":
            return A("list", a)
        return a


def _generic_basis(b) -> bool:
    return b[0] == "tv" or (b[0] == "par" and not b[2])


def _ordered_names(e: ast.expr) -> list[str]:
    out: list[str] = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n: ast.Name) -> None:
            out.append(n.id)

        def visit_Constant(self, n: ast.Constant) -> None:
            if isinstance(n.value, str):
                try:
                    V().visit(ast.parse(n.value, mode="eval"))
                except SyntaxError:
                    pass

    V().visit(e)
    return out


def _dtype(e: ast.expr) -> str | None:
    """The element kind declared by np.ndarray[..., np.dtype[X]]: c, f, i, or p (real or complex)."""
    s = ast.unparse(e)
    kinds = set()
    if "complex" in s:
        kinds.add("c")
    if "float" in s:
        kinds.add("f")
    if "int_" in s.split("dtype")[-1] if "dtype" in s else False:
        kinds.add("i")
    if len(kinds) > 1 and "c" in kinds:
        return "p"
    return kinds.pop() if len(kinds) == 1 else None
