"""Layout type inference: which basis every array axis runs over, through every function body.

The interpreter below assigns layout types (terms.py) to the expressions of a function, starting from the types its
signature declares.  Every path through the function is typed separately (tests on optional arguments are resolved), calls
inside the library are typed by typing the callee's body with the types of the arguments.  Whatever it has no rule for is
unknown, and unknown never violates anything.
"""

from __future__ import annotations

import ast
import re
from dataclasses import dataclass

from . import terms as T
from .annot import A, CONVERTIBLE, GENERIC, Annotations
from .model import Assign, Class, Ext, Func, Module, Project
from .terms import EQ, NE, NO_CHARGE, UNK, UNKNOWN_AXIS, Arr, Axis, Leaf, Star


# ---------------------------------------------------------------- values
@dataclass(frozen=True)
class Unknown:
    pass


U = Unknown()


@dataclass(frozen=True)
class BV:
    t: tuple


@dataclass(frozen=True)
class Num:
    size: tuple | None = None
    ch: frozenset | None = NO_CHARGE
    dt: str | None = None
    key: tuple | None = None  # symbolic identity of an index


@dataclass(frozen=True)
class C:
    v: object


@dataclass(frozen=True)
class Tup:
    items: tuple
    mutable: bool = False


@dataclass(frozen=True)
class Splat:
    v: object


@dataclass(frozen=True)
class Rec:
    cls: Class | None
    fields: tuple  # ((name, value), ...)

    def get(self, k):
        for n, v in self.fields:
            if n == k:
                return v
        return None

    def put(self, k, v) -> "Rec":
        return Rec(self.cls, (*((n, x) for n, x in self.fields if n != k), (k, v)))


@dataclass(frozen=True)
class ListOf:
    elem: object
    n: tuple | None = None


@dataclass(frozen=True)
class Nested:
    """An array as nested lists; dims is its number of dimensions where only that is known."""

    a: Arr
    dims: int | None = None


@dataclass(frozen=True)
class Shp:
    b: tuple
    fund: bool = False


@dataclass(frozen=True)
class AxesV:
    key: tuple
    off: int = 0


@dataclass(frozen=True)
class Rng:
    size: tuple | None
    ndim: tuple | None = None  # range(b.ndim)


@dataclass(frozen=True)
class UtilV:
    b: tuple


@dataclass(frozen=True)
class FnV:
    f: Func
    env: object = None
    self_: object = None


@dataclass(frozen=True)
class ClsV:
    c: Class


@dataclass(frozen=True)
class ExtV:
    n: str


@dataclass(frozen=True)
class ModV:
    n: str


@dataclass(frozen=True)
class Sl:
    full: bool
    key: str = ""


@dataclass(frozen=True)
class Maybe:
    v: object


@dataclass(frozen=True)
class CallbackV:
    """A function the caller supplies, known by the kind of its result."""

    a: A


@dataclass(frozen=True)
class Each:
    """One value per factor of a product basis (possibly only for selected factors)."""

    elem: object
    src: tuple
    filt: tuple | None = None  # (how, key)


@dataclass(frozen=True)
class Enum:
    v: object


@dataclass(frozen=True)
class Zip:
    vs: tuple


@dataclass(frozen=True)
class Meth:
    obj: object
    name: str


HOLE = ("hole",)
SCALAR = Num(None)

# role of each index of the data of a record: K ket, B bra, N neither, D diagonal
def outer_calls(s: ast.stmt) -> list[ast.Call]:
    """The calls a statement makes itself, exactly once."""
    out: list[ast.Call] = []
    todo: list[ast.AST] = [s]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.Call):
            out.append(n)
        todo.extend(ast.iter_child_nodes(n))
    return out


def conjugate_pair(x: ast.expr, y: ast.expr) -> bool:
    """conj(z) * z, in either order."""
    for a, b in ((x, y), (y, x)):
        if isinstance(a, ast.Call) and not a.keywords:
            name = a.func.attr if isinstance(a.func, ast.Attribute) else a.func.id if isinstance(a.func, ast.Name) else ""
            if name in ("conj", "conjugate"):
                z = a.args[0] if len(a.args) == 1 else a.func.value if not a.args and isinstance(a.func, ast.Attribute) else None
                if z is not None and ast.dump(z) == ast.dump(b):
                    return True
    return False


ROLES = {
    "StateVector": "K",
    "StateDualVector": "B",
    "StateVectorList": ("N", "K"),
    "Operator": ("K", "B"),
    "OperatorList": ("N", ("K", "B")),
    "DiagonalOperator": "D",
    "DiagonalOperatorList": ("N", "D"),
    "NoiseKernel": (("K", "B"), ("K", "B")),
    "DiagonalNoiseKernel": ("D", "D"),
}
CHARGES = {
    "StateVector": 1, "StateVectorList": 1, "StateDualVector": -1,
    "NoiseOperatorList": 1, "DiagonalNoiseOperatorList": 1, "NoiseKernel": 0, "DiagonalNoiseKernel": 0, "IsotropicNoiseKernel": 0,
    "OperatorList": None, "DiagonalOperatorList": None,
}
VAR = {"K": 1, "B": -1, "N": 0}

CONV = {
    "stacked_basis_as_fundamental_position_basis": "x",
    "basis_as_fundamental_position_basis": "x",
    "stacked_basis_as_fundamental_momentum_basis": "k",
    "basis_as_fundamental_momentum_basis": "k",
    "stacked_basis_as_fundamental_transformed_basis": "t",
    "basis_as_fundamental_transformed_basis": "t",
    "stacked_basis_as_fundamental_basis": "f",
    "basis_as_fundamental_basis": "f",
}


class TooDeep(Exception):
    pass


class Violation:
    __slots__ = ("chain", "func", "message", "node", "rule", "snippet")

    def __init__(self, rule: str, func: Func, node: ast.AST, message: str, chain: tuple, snippet: str) -> None:
        self.rule = rule
        self.func = func
        self.node = node
        self.message = message
        self.chain = chain
        self.snippet = snippet


class State:
    __slots__ = ("env",)

    def __init__(self, env: dict) -> None:
        self.env = env

    def copy(self) -> "State":
        return State(dict(self.env))


class Frame:
    """One function being typed."""

    __slots__ = ("chain", "closure", "func", "returns", "stores", "top")

    def __init__(self, func: Func, chain: tuple, closure: dict | None) -> None:
        self.func = func
        self.chain = chain
        self.closure = closure or {}
        self.returns: list = []
        self.stores: dict = {}
        self.top = not chain


MAX_STATES = 24
MAX_DEPTH = 9


class Interp:
    def __init__(self, project: Project) -> None:
        self.p = project
        self.ann = Annotations(project)
        T.CLASS_SPACE.clear()
        T.CLASS_SPACE.update({c.name: s for c in project.classes if self.ann.is_basis_class(c) and (s := self.ann.space(c)) is not None})
        self.ctx = T.Ctx()
        self.violations: list[Violation] = []
        self.stats: dict[str, int] = {}
        self.seen: dict[str, set] = {}
        self.memo: dict = {}
        self.outcomes: dict[int, tuple] = {}
        self.callstack: list[str] = []
        self.frame: Frame | None = None
        self.budget = 0
        self.native: dict = {}  # routines of extension modules
        self.native_calls: list = []

    # ------------------------------------------------------------ reporting
    def stat(self, name: str, node: ast.AST | None = None) -> None:
        """Count a decided construct (once per source construct)."""
        if node is not None:
            s = self.seen.setdefault(name, set())
            k = (self.frame.func.module.rel, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
            if k in s:
                return
            s.add(k)
        self.stats[name] = self.stats.get(name, 0) + 1

    def report(self, rule: str, node: ast.AST, message: str) -> None:
        f = self.frame
        try:
            snip = ast.unparse(node)
        except Exception:  # noqa: BLE001
            snip = type(node).__name__
        self.violations.append(Violation(rule, f.func, node, message, f.chain, snip[:160]))

    # ------------------------------------------------------------ values from annotations
    def from_annotation(self, a: A, name: str, charge_of: str | None = None, weak: bool = False):
        k = a.kind
        if k == "basis":
            return BV(a.obj)
        if k == "num":
            return Num(T.atom(("num", name)), NO_CHARGE, {"int": "i", "int_": "i", "float": "f", "float64": "f", "complex": "c", "complex128": "c"}.get(a.obj))
        if k == "literal":
            return Num(T.atom(("num", name))) if a.obj and all(isinstance(x, int) and not isinstance(x, bool) for x in a.obj) else U
        if k == "opt":
            v = self.from_annotation(a.obj, name, charge_of)
            return Maybe(v)
        if k == "union":
            vs = [self.from_annotation(x, name, charge_of) for x in a.args]
            if all(isinstance(v, Num) for v in vs):
                return vs[0]
            recs = [v for v in vs if isinstance(v, Rec)]
            if len(recs) == len(vs):
                return recs[0] if len({self.role_class(r.cls) for r in recs}) == 1 else U
            return U
        if k == "tuple":
            if a.args and all(x.kind in ("num", "star", "any", "literal") for x in a.args):
                if any(x.kind == "star" for x in a.args):
                    return U
                return Tup(tuple(Num(T.atom(("num", f"{name}[{i}]"))) for i in range(len(a.args))))
            return Tup(tuple(self.from_annotation(x, f"{name}[{i}]", charge_of) for i, x in enumerate(a.args)))
        if k == "list":
            if a.obj.kind == "num":
                return AxesV((name,)) if "ax" in name else ListOf(Num(T.atom(T.fresh())), T.atom(("len", name)))
            return ListOf(self.from_annotation(a.obj, name + "[]", charge_of), T.atom(("len", name)))
        if k == "slice":
            return Sl(False, name)
        if k == "arr":
            return Arr(None, NO_CHARGE if charge_of is None else None, a.obj)
        if k == "callable" and a.obj is not None and a.obj.kind in ("arr", "num"):
            return CallbackV(a.obj)
        if k == "rec":
            return self.record(a.obj, a.args, name, charge_of)
        if k == "inst" and a.obj.name == "BasisUtil" and a.args and a.args[0].kind == "basis":
            return UtilV(a.args[0].obj)
        return U

    def role_class(self, c: Class | None) -> str | None:
        if c is None:
            return None
        for x in self.p.mro(c):
            if x.name in ROLES:
                return x.name
        return None

    def charge_class(self, c: Class | None) -> int | None:
        for x in self.p.mro(c) if c is not None else ():
            if x.name in CHARGES:
                return CHARGES[x.name]
        return 0

    def role_leaves(self, role, b: tuple) -> list[Leaf]:
        """Leaves of data laid out in basis b with the given index roles."""
        if role == "D":
            if b[0] == "tup" and len(b[1]) == 2:
                x, y = b[1]
                if len(T.flatten(x)) == len(T.flatten(y)):
                    return [Leaf(("diag", p, q), 0) for p, q in zip(T.flatten(x), T.flatten(y))]
                return [Leaf(("diag", x, y), 0)]
            return [Leaf(T.fresh(), None)]
        if isinstance(role, tuple):
            if b[0] == "tup" and len(b[1]) == len(role) and not any(x[0] == "splat" for x in b[1]):
                return [y for r, x in zip(role, b[1]) for y in self.role_leaves(r, x)]
            return [Leaf(x, None) for x in T.flatten(b)]
        return [Leaf(x, VAR.get(role, 0)) for x in T.flatten(b)]

    def union_diag(self, role, b: tuple) -> None:
        if role == "D":
            if b[0] == "tup" and len(b[1]) == 2:
                self.ctx.union(T.n_of(b[1][0]), T.n_of(b[1][1]))
        elif isinstance(role, tuple) and b[0] == "tup" and len(b[1]) == len(role):
            for r, x in zip(role, b[1]):
                self.union_diag(r, x)

    def basis_of_annotation(self, a: A, name: str):
        f = self.ann.record_field(a.obj, a.args, "basis", name)
        if f is None:
            return None
        return f.obj if f.kind == "basis" else ("par", f"{name}['basis']", True)

    def record(self, c: Class, args: tuple, name: str, charge_of: str | None) -> object:
        fields = []
        basis = None
        if "basis" in self.ann.fields(c):
            a = self.ann.record_field(c, args, "basis", name)
            basis = a.obj if a is not None and a.kind == "basis" else ("par", f"{name}['basis']", True)
            fields.append(("basis", BV(basis)))
        role_c = self.role_class(c)
        role = ROLES.get(role_c, "N")
        for fname in self.ann.fields(c):
            if fname == "basis":
                continue
            a = self.ann.record_field(c, args, fname, name)
            if basis is None or a is None:
                fields.append((fname, self.from_annotation(a, f"{name}['{fname}']") if a is not None else U))
                continue
            if fname == "data":
                self.union_diag(role, basis)
                ch = self.charge_class(c)
                charge = NO_CHARGE if not ch else (frozenset({(charge_of or name, ch)}) if charge_of is not False else None)
                fields.append((fname, Arr((Axis(tuple(self.role_leaves(role, basis))),), charge, a.obj if a.kind == "arr" else "c")))
            else:
                fields.append((fname, self.extra_field(c, fname, basis, a, name)))
        return Rec(c, tuple(fields))

    def extra_basis(self, c: Class | None, fname: str, basis: tuple):
        """The basis a further field of a record runs over (None: a scalar, False: unknown)."""
        role = self.role_class(c)
        names = {x.name for x in self.p.mro(c)} if c is not None else set()
        if fname == "eigenvalue":
            if role in ("StateVectorList", "OperatorList", "DiagonalOperatorList"):
                return T.comp(basis, 0)
            return None if role in ("StateVector", "Operator") else False
        if fname == "standard_deviation" and names & {"StatisticalValueList", "StatisticalDiagonalOperator"}:
            return T.comp(basis, 0) if "StatisticalDiagonalOperator" in names else basis
        return False

    def extra_field(self, c: Class, fname: str, basis: tuple, a: A, name: str):
        b = self.extra_basis(c, fname, basis)
        dt = a.obj if a.kind == "arr" else None
        if b is None:
            return Num(None, NO_CHARGE, dt)
        if b is False:
            return self.from_annotation(a, f"{name}['{fname}']")
        return Arr((Axis(tuple(Leaf(x, 0) for x in T.flatten(b))),), NO_CHARGE, dt or "c")

    # ------------------------------------------------------------ joins
    def join(self, vs: list):
        vs = [v for v in vs]
        if not vs:
            return U
        first = vs[0]
        if all(v == first for v in vs):
            return first
        if all(isinstance(v, Num) for v in vs):
            ch = {v.ch for v in vs}
            return Num(None, ch.pop() if len(ch) == 1 else None, T.join_dt(*[v.dt for v in vs]))
        if all(isinstance(v, Arr) for v in vs):
            return self.join_arr(vs)
        if all(isinstance(v, Rec) for v in vs):
            keys = [k for k, _ in first.fields]
            if all([k for k, _ in v.fields] == keys for v in vs):
                return Rec(first.cls if all(v.cls is first.cls for v in vs) else None, tuple((k, self.join([v.get(k) for v in vs])) for k in keys))
            return U
        if all(isinstance(v, BV) for v in vs):
            return BV(T.fresh())
        if all(isinstance(v, Tup) and len(v.items) == len(first.items) for v in vs if isinstance(first, Tup)) and isinstance(first, Tup):
            return Tup(tuple(self.join([v.items[i] for v in vs]) for i in range(len(first.items))), first.mutable)
        if all(isinstance(v, ListOf) for v in vs):
            return ListOf(self.join([v.elem for v in vs]), first.n if all(v.n == first.n for v in vs) else None)
        return U

    def join_arr(self, vs: list[Arr]) -> Arr:
        first = vs[0]
        ch = {v.ch for v in vs}
        nonzero = {c for c in ch if c != NO_CHARGE}
        charge = ch.pop() if len(ch) == 1 else None
        del nonzero
        dts = {v.dt for v in vs}
        dt = dts.pop() if len(dts) == 1 else None
        if any(v.axes is None for v in vs) or len({len(v.axes) for v in vs}) != 1:
            return Arr(None, charge, dt)
        axes = []
        for i in range(len(first.axes)):
            col = [v.axes[i] for v in vs]
            axes.append(col[0] if all(x == col[0] for x in col) else UNKNOWN_AXIS)
        if any(isinstance(x, Star) for v in vs for x in v.axes) and UNKNOWN_AXIS in axes:
            return Arr(None, charge, dt)
        return Arr(tuple(axes), charge, dt)

    # ------------------------------------------------------------ functions
    def run_top(self, f: Func) -> None:
        """Type one function from its declared signature."""
        self.ctx = T.Ctx()
        self.memo = {}
        self.budget = 4000
        self.reported: set = set()
        self.ann.classes = {}
        frame = Frame(f, (), None)
        env: dict = {}
        params = f.params
        if f.cls is not None and not f.is_static and params:
            env[params[0].name] = ("self", f.cls)
            params = params[1:]
        for p in params:
            a = self.ann.param(f, p.name)
            if p.kind in ("var", "varkw"):
                env[p.name] = self.from_annotation(a, p.name, p.name) if p.kind == "var" else U
                continue
            v = self.from_annotation(a, p.name, p.name)
            if isinstance(p.default, ast.Constant) and p.default.value is None and not isinstance(v, Maybe) and v is not U:
                v = Maybe(v)
            env[p.name] = v
        self.known_classes = self.ann.classes
        self.ann.classes = {}
        ret = self.ann.parse(f.module, f.node.returns, {}, "return")
        self.union_return(ret)
        old, self.frame = self.frame, frame
        self.callstack.append(f.qual)
        try:
            self.exec_block(f.node.body, [State(env)])
        finally:
            self.callstack.pop()
            self.frame = old

    def union_return(self, a: A) -> None:
        if a.kind == "rec":
            b = self.basis_of_annotation(a, "return")
            if b is not None:
                self.union_diag(ROLES.get(self.role_class(a.obj), "N"), b)
        elif a.kind in ("list", "opt"):
            self.union_return(a.obj)
        elif a.kind in ("tuple", "union"):
            for x in a.args:
                self.union_return(x)

    def call_func(self, f: Func, args: list, kwargs: dict, node: ast.AST, self_=None, closure: dict | None = None):
        """Type a call of a library function by typing its body."""
        env: dict = {}
        params = list(f.params)
        if f.cls is not None and not f.is_static and params:
            env[params[0].name] = self_ if self_ is not None else ("self", f.cls)
            params = params[1:]
        pos = [p for p in params if p.kind in ("pos", "posonly")]
        if any(isinstance(x, Splat) for x in args) or None in kwargs:
            return self.fallback(f)
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i].name] = v
        var = next((p for p in params if p.kind == "var"), None)
        if var is not None:
            env[var.name] = Tup(tuple(args[len(pos):]))
        for k, v in kwargs.items():
            env[k] = v
        for p in params:
            if p.name not in env and p.kind != "varkw":
                env[p.name] = self.const_default(f, p) if p.has_default else U
        known = isinstance(self_, tuple) and self_[0] == "self"
        for p in params:
            v = env.get(p.name, U)
            if v is U or (isinstance(v, Arr) and v.axes is None and False):
                a = self.ann.param(f, p.name)
                if a.kind == "rec" and p.kind not in ("var", "varkw"):
                    env[p.name] = self.blur(self.from_annotation(a, p.name, False))
            else:
                known = True
        key = None
        try:
            key = (f.qual, self_, tuple((p.name, env.get(p.name, U)) for p in params), closure is None)
            if key in self.memo and closure is None:
                out, ways = self.memo[key]
                if ways:
                    self.outcomes[id(node)] = ways
                return out
        except TypeError:
            key = None
        for p in params:
            if p.kind not in ("var", "varkw"):
                self.check_argument(f, p, env.get(p.name, U), node)
        if not known or f.qual in self.callstack or len(self.callstack) > MAX_DEPTH or self.budget <= 0:
            return self.fallback(f)
        self.budget -= 1
        frame = Frame(f, (*self.frame.chain, (self.frame.func, node)), closure)
        old, self.frame = self.frame, frame
        self.callstack.append(f.qual)
        try:
            self.exec_block(f.node.body, [State(env)])
        finally:
            self.callstack.pop()
            self.frame = old
        rets = frame.returns
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            out = self.fallback(f)
        else:
            out = self.join(rets) if rets else U
            if out is U:
                out = self.fallback(f)
        ways = self.ways(rets, out)
        if ways:
            self.outcomes[id(node)] = ways
        if key is not None and closure is None:
            self.memo[key] = out, ways
        return out

    @staticmethod
    def ways(rets: list, out) -> tuple:
        """The different values a call may return, where taking them together loses what each of them is."""
        each: list = []
        for r in rets:
            if not any(r == x for x in each):
                each.append(r)
        if not 2 <= len(each) <= 3 or any(x == out for x in each) or not all(isinstance(x, (BV, Rec, Arr)) for x in each):
            return ()
        return tuple(each)

    def fallback(self, f: Func):
        """What the declared return type alone says (bases unknown)."""
        return self.blur(self.from_annotation(self.ann.parse(f.module, f.node.returns, {}, "result"), "result", False))

    def blur(self, v):
        """Replace every basis of a declared type by an unknown one, and every charge by an unknown one."""
        if isinstance(v, BV):
            return BV(self.blur_basis(v.t))
        if isinstance(v, Rec):
            return Rec(v.cls, tuple((k, self.blur_field(v, k, x)) for k, x in v.fields))
        if isinstance(v, ListOf):
            return ListOf(self.blur(v.elem), T.atom(T.fresh("len")))
        if isinstance(v, Tup):
            return Tup(tuple(self.blur(x) for x in v.items), v.mutable)
        if isinstance(v, Maybe):
            return U
        if isinstance(v, Num):
            return Num(None, None, v.dt)
        if isinstance(v, Arr):
            return Arr(None, None, v.dt)
        return U

    def blur_basis(self, t: tuple) -> tuple:
        if t[0] == "tup":
            return T.tup(self.blur_basis(x) for x in t[1])
        return T.fresh()

    def blur_field(self, r: Rec, k: str, x):
        if isinstance(x, Arr):
            return Arr(None, None if k == "data" else NO_CHARGE, x.dt)
        return self.blur(x)

    def const_default(self, f: Func, p):
        d = p.default
        if isinstance(d, ast.Constant):
            if isinstance(d.value, (int, float, complex)) and not isinstance(d.value, bool):
                return self.const(d.value)
            return C(d.value)
        if isinstance(d, (ast.Tuple, ast.UnaryOp)):
            try:
                v = ast.literal_eval(d)
            except ValueError:
                return U
            if isinstance(v, tuple):
                return Tup(tuple(self.const(x) for x in v))
            return self.const(v)
        return U

    @staticmethod
    def const(v):
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return C(v)
        if isinstance(v, int):
            return Num(T.size_int(v), NO_CHARGE, "i", ("int", v))
        if isinstance(v, float):
            return Num(None, NO_CHARGE, "f")
        if isinstance(v, complex):
            return Num(None, NO_CHARGE, "c")
        return C(v) if v is Ellipsis else U

    # ------------------------------------------------------------ statements
    def exec_block(self, body: list[ast.stmt], states: list[State]) -> list[State]:
        for s in body:
            if not states:
                return []
            nxt: list[State] = []
            for st in states:
                for fk in self.fork(s, st):
                    for one in self.fork_choices(s, fk):
                        nxt.extend(self.exec_outcomes(s, one))
            if len(nxt) > MAX_STATES:
                nxt = [self.merge(nxt)]
            states = self.dedup(nxt)
        return states

    def fork_choices(self, s: ast.stmt, st: State) -> list[State]:
        """Split the state on the choice ``a if c else b`` of the statement, as an if statement would."""
        for k in [k for k in st.env if k.startswith("$if")]:
            del st.env[k]
        if not isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Return, ast.Expr)):
            return [st]
        out = [st]
        todo: list[ast.AST] = [s]
        choices: list[ast.IfExp] = []
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(n, ast.IfExp):
                choices.append(n)
                continue
            todo.extend(ast.iter_child_nodes(n))
        for n in choices[:2]:
            if self.truth(n.test, st) is not None:
                continue
            a, b = self.ev(n.body, st), self.ev(n.orelse, st)
            if a == b or not all(isinstance(x, (Arr, BV, Rec)) for x in (a, b)):
                continue
            nxt = []
            for x in out:
                for v in (True, False):
                    y = x.copy()
                    y.env[f"$if{id(n)}"] = C(v)
                    nxt.append(y)
            out = nxt
        return out

    def exec_outcomes(self, s: ast.stmt, st: State) -> list[State]:
        """Execute a statement once for each way the library functions it calls may return."""
        if not isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Return, ast.Expr)):
            return self.exec_stmt(s, st)
        before, self.outcomes = self.outcomes, {}
        n = len(self.frame.returns)
        out = self.exec_stmt(s, st.copy())
        found, self.outcomes = self.outcomes, before
        if not found:
            return out
        calls = [(f"$call{id(c)}", found[id(c)]) for c in outer_calls(s) if id(c) in found][:2]
        if not calls:
            return out
        states = [st]
        for k, values in calls:
            nxt = []
            for x in states:
                for v in values:
                    y = x.copy()
                    y.env[k] = v
                    nxt.append(y)
            states = nxt
        del self.frame.returns[n:]
        return [y for x in states for y in self.exec_stmt(s, x)]

    @staticmethod
    def dedup(states: list[State]) -> list[State]:
        out: list[State] = []
        for s in states:
            for k in [k for k in s.env if k.startswith(("$if", "$call"))]:
                del s.env[k]
            if not any(s.env == t.env for t in out):
                out.append(s)
        return out

    def merge(self, states: list[State]) -> State:
        env = {}
        for k in states[0].env:
            if all(k in s.env for s in states):
                env[k] = self.join([s.env[k] for s in states])
        return State(env)

    def fork(self, s: ast.stmt, st: State) -> list[State]:
        """Split the state on the optional names the statement tests."""
        exprs: list[ast.AST]
        if isinstance(s, (ast.If, ast.While)):
            exprs = [s.test]
        elif isinstance(s, (ast.For, ast.With, ast.Try, ast.FunctionDef, ast.ClassDef, ast.Match)):
            exprs = [s.iter] if isinstance(s, ast.For) else []
        else:
            exprs = [s]
        names = []
        for e in exprs:
            for n in ast.walk(e):
                if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                    if isinstance(st.env.get(n.left.id), Maybe) and n.left.id not in names:
                        names.append(n.left.id)
        out = [st]
        for nm in names[:3]:
            nxt = []
            for x in out:
                a, b = x.copy(), x.copy()
                b.env[nm] = x.env[nm].v
                a.env[nm] = C(None)
                nxt.extend([a, b])
            out = nxt
        return out

    def truth(self, e: ast.expr, st: State) -> bool | None:
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            v = self.ev(e.left, st)
            if isinstance(v, C) and v.v is None:
                return isinstance(e.ops[0], ast.Is) if isinstance(e.ops[0], (ast.Is, ast.IsNot)) else None
            if v is U or isinstance(v, Maybe):
                return None
            if isinstance(e.ops[0], (ast.Is, ast.IsNot)):
                return isinstance(e.ops[0], ast.IsNot)
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(e.operand, st)
            return None if t is None else not t
        if isinstance(e, ast.BoolOp):
            ts = [self.truth(x, st) for x in e.values]
            if isinstance(e.op, ast.And):
                return False if False in ts else (True if all(ts) else None)
            return True if True in ts else (False if all(t is False for t in ts) else None)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
            v = self.ev(e.args[0], st)
            if isinstance(e.args[1], ast.Name) and e.args[1].id == "tuple":
                if isinstance(v, (Tup, AxesV)):
                    return True
                if isinstance(v, Num) and v.key is not None and v.key[0] == "int":
                    return False
            return None
        v = self.ev(e, st)
        if isinstance(v, C) and isinstance(v.v, (bool, type(None))):
            return bool(v.v)
        return None

    def exec_stmt(self, s: ast.stmt, st: State) -> list[State]:
        try:
            return self._exec_stmt(s, st)
        except RecursionError:
            raise TooDeep from None

    def _exec_stmt(self, s: ast.stmt, st: State) -> list[State]:
        if isinstance(s, ast.Return):
            v = self.ev(s.value, st) if s.value is not None else C(None)
            self.frame.returns.append(v)
            if s.value is not None:
                self.check_return(v, s)
            return []
        if isinstance(s, ast.Raise):
            return []
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, st)
            for t in s.targets:
                self.assign(t, v, st, s)
            return [st]
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return [st]
            v = self.ev(s.value, st)
            self.ann.classes = {}
            a = self.ann.parse(self.frame.func.module, s.annotation, {}, ast.unparse(s.target))
            if isinstance(v, Rec):
                self.check_complete(v, a, s.value, f"'{ast.unparse(s.target)}'")
            if a.kind == "rec" and isinstance(v, Rec):
                v = Rec(a.obj, v.fields)
                self.check_record(v, a, s.value)
            self.assign(s.target, v, st, s)
            return [st]
        if isinstance(s, ast.AugAssign):
            tgt = ast.copy_location(_as_load(s.target), s.target)
            old = self.ev(tgt, st)
            v = self.binop(s.op, old, self.ev(s.value, st), s)
            if isinstance(old, Arr) and isinstance(v, Arr):
                if old.dt in ("f", "i") and v.dt == "c":
                    pass
                v = Arr(old.axes if v.axes is None else v.axes, v.ch, v.dt)
            self.assign(s.target, v, st, s)
            return [st]
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name):
                nm = s.value.func.value.id
                if s.value.func.attr in ("pop", "update", "setdefault", "clear", "popitem") and isinstance(st.env.get(nm), Rec):
                    if s.value.func.attr == "pop" and s.value.args:
                        self.forget_key(st, nm, s.value.args[0])
                        return [st]
                    more = self.merged(st.env[nm], [self.ev(x, st) for x in s.value.args], {k.arg: self.ev(k.value, st) for k in s.value.keywords}) if s.value.func.attr == "update" else U
                    st.env[nm] = more
                    return [st]
                if s.value.func.attr in ("append", "extend", "insert") and nm in st.env:
                    arg = self.ev(s.value.args[-1], st) if s.value.args else U
                    cur = st.env[nm]
                    if s.value.func.attr == "append" and isinstance(cur, (Tup, ListOf)):
                        if isinstance(cur, Tup) and not cur.items:
                            st.env[nm] = ListOf(arg, T.atom(T.fresh("len")))
                        elif isinstance(cur, ListOf):
                            st.env[nm] = ListOf(self.join([cur.elem, arg]), T.atom(T.fresh("len")))
                        else:
                            st.env[nm] = U
                    else:
                        st.env[nm] = U
                    return [st]
            self.ev(s.value, st)
            return [st]
        if isinstance(s, ast.If):
            t = self.truth(s.test, st)
            out = []
            if t is not False:
                out.extend(self.exec_block(s.body, [st.copy()]))
            if t is not True:
                out.extend(self.exec_block(s.orelse, [st.copy()]))
            return out
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, st)
        if isinstance(s, ast.With):
            for i in s.items:
                self.ev(i.context_expr, st)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, U, st, s)
            return self.exec_block(s.body, [st])
        if isinstance(s, ast.Try):
            pre = st.copy()
            out = self.exec_block(s.body, [st])
            out = self.exec_block(s.orelse, out) if s.orelse else out
            for h in s.handlers:
                hst = pre.copy()
                for k in list(hst.env):
                    if any(k in o.env and o.env[k] != hst.env[k] for o in out):
                        hst.env[k] = U
                if h.name:
                    hst.env[h.name] = U
                out.extend(self.exec_block(h.body, [hst]))
            if s.finalbody:
                out = self.exec_block(s.finalbody, out)
            return out
        if isinstance(s, ast.Match):
            self.ev(s.subject, st)
            out = []
            for c in s.cases:
                cst = st.copy()
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        cst.env[n.name] = U
                out.extend(self.exec_block(c.body, [cst]))
            return [*out, st] if not any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in s.cases) else out
        if isinstance(s, ast.FunctionDef):
            g = self.frame.func.children.get(s.name)
            if g is not None:
                st.env[s.name] = FnV(g, _EnvKey(st.env))
                if self.frame.top:
                    self.nested(g, st)
            return [st]
        if isinstance(s, ast.Assert):
            return [st]
        if isinstance(s, (ast.Break, ast.Continue)):
            return [st]
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
                elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    self.forget_key(st, t.value.id, t.slice)
            return [st]
        return [st]

    def forget_key(self, st: State, name: str, key: ast.expr) -> None:
        """``del name[key]`` and ``name.pop(key)``."""
        r = st.env.get(name, U)
        if isinstance(r, Rec) and isinstance(key, ast.Constant):
            st.env[name] = Rec(r.cls, tuple((k, x) for k, x in r.fields if k != key.value))
        else:
            st.env[name] = U

    def nested(self, g: Func, st: State) -> None:
        env = {}
        for p in g.params:
            a = self.ann.param(g, p.name)
            env[p.name] = self.from_annotation(a, f"{g.name}.{p.name}", p.name) if p.kind not in ("var", "varkw") else U
        frame = Frame(g, self.frame.chain, {**self.frame.closure, **st.env})
        old, self.frame = self.frame, frame
        try:
            self.exec_block(g.node.body, [State(env)])
        finally:
            self.frame = old

    def loop(self, s, st: State) -> list[State]:
        pre = st.copy()
        body = st.copy()
        if isinstance(s, ast.For):
            it = self.ev(s.iter, body)
            items = self.iteration(it, s)
            self.assign(s.target, items, body, s)
        outs = self.exec_block(s.body, [body])
        # names changed by the body hold either value afterwards: type the body again with the joined state
        merged = self.merge_loop(pre, outs)
        second = merged.copy()
        if isinstance(s, ast.For):
            self.assign(s.target, self.iteration(self.ev(s.iter, second), s), second, s)
        saved = self.violations
        n = len(saved)
        outs2 = self.exec_block(s.body, [second])
        del saved[n:]
        merged = self.merge_loop(merged, outs2)
        if s.orelse:
            return self.exec_block(s.orelse, [merged])
        return [merged]

    def iteration(self, it, node):
        """The element a loop binds; a counter is a number of its own."""
        v = self.iterate(it)
        counter = Num(T.atom(("num", ("loop", node.lineno, node.col_offset, it.size if isinstance(it, Rng) else None))), NO_CHARGE, "i")
        if isinstance(it, Rng):
            return counter
        if isinstance(it, Enum) and isinstance(v, Tup):
            return Tup((counter, *v.items[1:]))
        return v

    def merge_loop(self, pre: State, outs: list[State]) -> State:
        env = dict(pre.env)
        for o in outs:
            for k, v in o.env.items():
                if k not in env:
                    env[k] = v
                elif env[k] != v:
                    env[k] = self.widen(env[k], v)
        return State(env)

    def widen(self, a, b):
        """Join of a value before and after a loop body; a buffer that is filled in keeps its refined labels."""
        if isinstance(a, Arr) and isinstance(b, Arr) and "buffer" in a.flags and a.axes is not None and b.axes is not None and len(a.axes) == len(b.axes):
            return b
        return self.join([a, b])

    # ------------------------------------------------------------ assignment
    def assign(self, t: ast.expr, v, st: State, node: ast.AST) -> None:
        if isinstance(t, ast.Name):
            if isinstance(v, Num) and v.size is None and v.key is None and v.dt in ("i", None) and isinstance(node, ast.Assign) and isinstance(node.value, ast.BinOp):
                v = Num(T.atom(("num", ("var", t.id, node.lineno))), v.ch, v.dt)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(v, len(t.elts), any(isinstance(x, ast.Starred) for x in t.elts))
            for x, y in zip(t.elts, parts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, U, st, node)
                else:
                    self.assign(x, y, st, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            self.costore(t, v, st, node)
            if isinstance(base, Rec) and isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                if isinstance(t.value, ast.Name):
                    st.env[t.value.id] = base.put(t.slice.value, v)
                return
            if isinstance(base, Arr):
                self.store(t, base, v, st, node)
                return
            self.ev(t.slice, st)
            if isinstance(t.value, ast.Name) and not isinstance(base, (Arr, Rec)):
                st.env[t.value.id] = U
        elif isinstance(t, ast.Attribute):
            self.ev(t.value, st)

    def costore(self, t: ast.Subscript, v, st: State, node: ast.AST) -> None:
        """Parts of one item written to one position of several buffers must come from the same item."""
        if not marks_of(v):
            return
        where = []
        x: ast.expr = t
        while isinstance(x, ast.Subscript):
            where.append(self.ev(x.slice, st) if not isinstance(x.slice, ast.Slice) else Sl(False))
            x = x.value
        flat = [z for w in reversed(where) for z in (w.items if isinstance(w, Tup) else (w,))]
        if not flat or any(not isinstance(w, Num) or ident(w) is None for w in flat):
            return
        key = tuple(ident(w) for w in flat)
        for w, other in self.frame.stores.get(key, ()):
            if w != ast.unparse(x):
                m = misaligned(v, other)
                if m is not None:
                    self.report("aligned", node, f"{m} of one list are stored at one position of '{ast.unparse(x)}' and '{w}'")
        self.frame.stores.setdefault(key, []).append((ast.unparse(x), v))

    def keep_complex(self, source: str | None, target: str | None, node: ast.AST, how: str) -> None:
        """Values that are (or may be) complex reach only complex storage."""
        if source in ("c", "p") and target in ("f", "i", "r", "m"):
            self.report("drops-imaginary", node, f"{'complex' if source == 'c' else 'possibly complex'} values are {how}, which drops their imaginary part")
        elif source is not None and target is not None:
            self.stat("element kinds decided", node)

    def store(self, t: ast.Subscript, base: Arr, v, st: State, node: ast.AST) -> None:
        target = self.index(base, t.slice, st, t)
        new = base
        if isinstance(v, Arr) and isinstance(target, Arr):
            if target.axes is not None and v.axes is not None:
                ax = self.broadcast(target, v, node, "assigned", "assign")
                if ax is not None and base.axes is not None and not base.has_star and not v.has_star:
                    new = self.refine(base, t.slice, ax, st)
            ch = v.ch if base.ch in (NO_CHARGE, v.ch) else None
            new = Arr(new.axes, ch, new.dt, new.flags)
            self.keep_complex(v.dt, base.dt, node, "stored in an array of real numbers")
        elif isinstance(v, Num):
            self.keep_complex(v.dt, base.dt, node, "stored in an array of real numbers")
        elif v is U:
            new = Arr(base.axes, None, base.dt, base.flags)
        if isinstance(t.value, ast.Name):
            st.env[t.value.id] = new
        elif isinstance(t.value, ast.Subscript) and isinstance(t.value.value, ast.Name) and isinstance(t.value.slice, ast.Constant) and isinstance(t.value.slice.value, str):
            r = st.env.get(t.value.value.id)
            if isinstance(r, Rec):
                st.env[t.value.value.id] = r.put(t.value.slice.value, new)

    def refine(self, base: Arr, sl: ast.expr, axes: tuple, st: State) -> Arr:
        """Give size-only axes of a buffer the label of what is written into them."""
        items = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
        out = list(base.axes)
        k = 0
        pos = 0
        for it in items:
            if pos >= len(out):
                return base
            v = self.ev(it, st) if not isinstance(it, ast.Slice) else Sl(it.lower is None and it.upper is None and it.step is None)
            if isinstance(v, Num):
                pos += 1
            elif isinstance(v, Sl) and v.full:
                if k < len(axes):
                    out[pos] = self.more_precise(out[pos], axes[k])
                k += 1
                pos += 1
            else:
                return base
        for x in axes[k:]:
            if pos >= len(out):
                return base
            out[pos] = self.more_precise(out[pos], x)
            pos += 1
        return Arr(tuple(out), base.ch, base.dt, base.flags)

    def more_precise(self, a, b):
        if isinstance(a, Axis) and isinstance(b, Axis) and a.leaves is not None and b.leaves is not None:
            if all(x.label[0] == "sz" for x in a.leaves) and self.ctx.cmp_size(a.size, b.size) == EQ:
                return b
        return a

    def unpack(self, v, n: int, starred: bool) -> list:
        if isinstance(v, Tup) and len(v.items) == n and not starred and not any(isinstance(x, Splat) for x in v.items):
            return list(v.items)
        if isinstance(v, ListOf):
            return [v.elem] * n
        if isinstance(v, Arr) and v.axes and not starred:
            return [self.drop_first(v)] * n
        if isinstance(v, BV) and not starred:
            return [BV(T.comp(v.t, i)) for i in range(n)]
        if isinstance(v, Enum):
            return [U] * n
        if isinstance(v, AxesV):
            return [Num(None, NO_CHARGE, "i", ("axis", v.key, v.off, i)) for i in range(n)]
        return [U] * n

    def iterate(self, it):
        """The value of one element."""
        if isinstance(it, ListOf):
            return it.elem
        if isinstance(it, Tup):
            return self.join(list(it.items)) if it.items and not any(isinstance(x, Splat) for x in it.items) else U
        if isinstance(it, Arr):
            return self.drop_first(it)
        if isinstance(it, BV):
            return BV(T.comp(it.t, T.fresh()) if it.t[0] != "tup" else T.fresh())
        if isinstance(it, (Rng, AxesV)):
            return Num(None, NO_CHARGE, "i")
        if isinstance(it, Enum):
            return Tup((Num(None, NO_CHARGE, "i"), self.iterate(it.v)))
        if isinstance(it, Zip):
            return Tup(tuple(self.iterate(x) for x in it.vs))
        return U

    def drop_first(self, a: Arr):
        out = self._drop_first(a)
        if a.axes and isinstance(a.axes[0], Axis) and a.axes[0].leaves:
            out = with_marks(out, {*marks_of(a), ("at", tuple(x.label for x in a.axes[0].leaves), ("each",))})
        return out

    def _drop_first(self, a: Arr):
        if a.axes is None or not a.axes or isinstance(a.axes[0], Star):
            return Arr(None, a.ch, a.dt) if a.axes is None or a.axes else U
        rest = a.axes[1:]
        return Arr(rest, a.ch, a.dt) if rest else Num(None, a.ch, a.dt)

    # ------------------------------------------------------------ expressions
    def ev(self, e: ast.expr | None, st: State):
        if e is None:
            return C(None)
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, st)
            return U
        return m(e, st)

    def ev_Constant(self, e, st):
        return self.const(e.value)

    def ev_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        if e.id in self.frame.closure:
            return self.frame.closure[e.id]
        r = self.p.resolve(self.frame.func.module, e, self.frame.func)
        return self.obj(r)

    def obj(self, r):
        if isinstance(r, Func):
            return FnV(r)
        if isinstance(r, Class):
            return ClsV(r)
        if isinstance(r, Ext):
            if r.name in ("numpy.pi", "numpy.e", "numpy.inf", "numpy.nan", "math.pi", "math.e", "math.tau"):
                return Num(None, NO_CHARGE, "f")
            if r.name.startswith("scipy.constants.") and r.name.split(".")[2] not in ("value", "unit", "precision", "find", "physical_constants", "codata", "constants"):
                return Num(None, NO_CHARGE, "f")
            return ExtV(r.name)
        if isinstance(r, Module):
            return ModV(r.name)
        if isinstance(r, Assign) and isinstance(r.value, ast.Constant):
            return self.const(r.value.value)
        return U

    def ev_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def ev_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                if isinstance(v, Tup):
                    out.extend(v.items)
                elif isinstance(v, BV) and v.t[0] == "tup":
                    out.extend(BV(y) if y[0] != "splat" else Splat(BV(y[1])) for y in v.t[1])
                else:
                    out.append(Splat(v))
            else:
                out.append(self.ev(x, st))
        return Tup(tuple(out), isinstance(e, ast.List))

    ev_List = ev_Tuple

    def ev_Dict(self, e, st):
        fields = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                inner = self.ev(v, st)
                if isinstance(inner, Rec):
                    for kk, vv in inner.fields:
                        fields = [(a, b) for a, b in fields if a != kk]
                        fields.append((kk, vv))
                    continue
                return U
            if not (isinstance(k, ast.Constant) and isinstance(k.value, str)):
                self.ev(v, st)
                return U
            fields.append((k.value, self.ev(v, st)))
        return Rec(None, tuple(fields))

    @staticmethod
    def merged(base, others: list, kw: dict):
        """The record with the fields of further records laid over it."""
        out = base
        for o in others:
            if not isinstance(o, Rec) or not isinstance(out, Rec):
                return U
            for k, v in o.fields:
                out = out.put(k, v)
        if None in kw:
            return U
        for k, v in kw.items():
            out = out.put(k, v)
        return out

    def ev_IfExp(self, e, st):
        chosen = st.env.get(f"$if{id(e)}")
        t = self.truth(e.test, st) if chosen is None else chosen.v
        if t is True:
            return self.ev(e.body, st)
        if t is False:
            return self.ev(e.orelse, st)
        return self.join([self.ev(e.body, st), self.ev(e.orelse, st)])

    def ev_BoolOp(self, e, st):
        return self.join([self.ev(x, st) for x in e.values])

    def ev_Compare(self, e, st):
        l = self.ev(e.left, st)
        rs = [self.ev(c, st) for c in e.comparators]
        if isinstance(l, Arr):
            return Arr(l.axes, NO_CHARGE, "b")
        del rs
        return U

    def ev_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.USub) and isinstance(v, Num):
            if v.key is not None and v.key[0] == "int":
                return self.const(-v.key[1])
            return Num(None, v.ch, v.dt)
        if isinstance(v, Arr):
            return v
        return U

    def ev_Lambda(self, e, st):
        return U

    def ev_JoinedStr(self, e, st):
        return U

    def ev_Yield(self, e, st):
        f = self.frame.func
        v = self.ev(e.value, st)
        a = self.ann.parse(f.module, f.node.returns, {}, "return")
        if a.kind == "list":
            self.check_value(v, a.obj, e.value, self.frame.top)
        return U

    def ev_Starred(self, e, st):
        return Splat(self.ev(e.value, st))

    def ev_Slice(self, e, st):
        full = e.lower is None and e.upper is None and e.step is None
        return Sl(full, ast.unparse(e))

    def ev_BinOp(self, e, st):
        return self.binop(e.op, self.ev(e.left, st), self.ev(e.right, st), e)

    def binop(self, op, a, b, node):
        if isinstance(op, ast.MatMult):
            return self.matmul(a, b, node)
        if isinstance(a, Maybe):
            a = a.v
        if isinstance(b, Maybe):
            b = b.v
        if isinstance(op, ast.BitOr) and isinstance(a, Rec):
            return self.merged(Rec(None, a.fields), [b], {})
        if isinstance(a, Num) and isinstance(b, Num):
            dt = T.join_dt(a.dt, b.dt) if a.dt and b.dt else ("c" if "c" in (a.dt, b.dt) else None)
            if isinstance(op, ast.Mult):
                return Num(T.mul(a.size, b.size), T.add_charge(a.ch, b.ch), dt)
            if isinstance(op, ast.Div):
                return Num(None, T.add_charge(a.ch, b.ch, -1), "f" if dt in ("i", "f") else dt)
            if isinstance(op, (ast.Add, ast.Sub)):
                k = None
                if a.key and b.key and a.key[0] == b.key[0] == "int":
                    return self.const(a.key[1] + b.key[1] if isinstance(op, ast.Add) else a.key[1] - b.key[1])
                for x, y in ((a, b), (b, a)):
                    if isinstance(op, ast.Add) and x.key and x.key[0] == "axis" and len(x.key) == 3 and y.key and y.key[0] == "int":
                        k = ("axis", x.key[1], x.key[2] + y.key[1])
                size = None
                for x, y in ((a, b), (b, a)):
                    if y.key and y.key[0] == "int" and x.size is not None and (x is a or isinstance(op, ast.Add)):
                        size = T.plus(x.size, y.key[1] if isinstance(op, ast.Add) else -y.key[1])
                return Num(size, a.ch if a.ch == b.ch else None, dt, k)
            if isinstance(op, ast.Pow):
                return Num(None, self.pow_charge(a.ch, b), dt)
            if isinstance(op, ast.FloorDiv) or isinstance(op, ast.Mod):
                size = T.atom(("num", (type(op).__name__, a.size, b.size))) if a.size is not None and b.size is not None else None
                return Num(size, NO_CHARGE, dt)
            return Num(None, None, dt)
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return Tup((*a.items, *b.items), a.mutable)
        if isinstance(a, Tup) and isinstance(b, Num) and isinstance(op, ast.Mult) and b.key and b.key[0] == "int":
            return Tup(a.items * max(b.key[1], 0), a.mutable)
        if not isinstance(a, (Arr, Num)) or not isinstance(b, (Arr, Num)):
            if isinstance(a, Arr) or isinstance(b, Arr):
                x, y = (a, b) if isinstance(a, Arr) else (b, a)
                return Arr(None, None, "c" if x.dt == "c" else None)
            return U
        out = self.elementwise(op, a, b, node)
        if (isinstance(op, ast.Mult) and isinstance(node, ast.BinOp) and conjugate_pair(node.left, node.right)) or (out.dt in ("r", "m") and isinstance(op, (ast.Mult, ast.Pow))):
            return Arr(out.axes, out.ch, "f")  # a square modulus is a real quantity, not part of a complex one
        return out

    @staticmethod
    def pow_charge(ch, b):
        if ch == NO_CHARGE:
            return NO_CHARGE
        if isinstance(b, Num) and b.key and b.key[0] == "int":
            return T.scale_charge(ch, b.key[1])
        return None

    def elementwise(self, op, a, b, node) -> Arr:
        da = a.dt
        db = b.dt
        dt = "c" if "c" in (da, db) else (T.join_dt(da, db) if da and db else None)
        if isinstance(op, ast.Div) and dt in ("i", "b"):
            dt = "f"
        if isinstance(op, (ast.Mult, ast.Div)):
            ch = T.add_charge(a.ch, b.ch, 1 if isinstance(op, ast.Mult) else -1)
        elif isinstance(op, (ast.Add, ast.Sub)):
            ch = a.ch if a.ch == b.ch else None
        elif isinstance(op, ast.Pow):
            ch = self.pow_charge(a.ch, b)
        else:
            ch = NO_CHARGE if a.ch == b.ch == NO_CHARGE else None
        if isinstance(a, Num) or isinstance(b, Num):
            x = a if isinstance(a, Arr) else b
            axes = x.axes
            if isinstance(op, ast.Pow) or (isinstance(op, ast.Div) and isinstance(a, Num)):
                axes = T.revar(x, lambda v: 0 if v == 0 else None)
            return Arr(axes, ch, dt)
        how = "mul" if isinstance(op, ast.Mult) else "div" if isinstance(op, ast.Div) else "add" if isinstance(op, (ast.Add, ast.Sub)) else "other"
        axes = self.broadcast(a, b, node, {"mul": "multiplied", "div": "divided", "add": "added"}.get(how, "combined"), how)
        return Arr(axes, ch, dt)

    # ------------------------------------------------------------ array rules
    def broadcast(self, a: Arr, b: Arr, node, verb: str, how: str) -> tuple | None:
        if a.axes is None or b.axes is None:
            return None
        if a.has_star or b.has_star:
            if len(a.axes) == len(b.axes) and all(isinstance(x, Star) == isinstance(y, Star) for x, y in zip(a.axes, b.axes)):
                pass
            elif not b.axes:
                return a.axes
            elif not a.axes:
                return b.axes
            else:
                return None
        n = max(len(a.axes), len(b.axes))
        one = Axis(())
        aa = [one] * (n - len(a.axes)) + list(a.axes)
        bb = [one] * (n - len(b.axes)) + list(b.axes)
        out = []
        for x, y in zip(aa, bb):
            out.append(self.pair(x, y, node, verb, how))
        return tuple(out)

    def pair(self, x, y, node, verb: str, how: str):
        """Two axes brought together elementwise."""
        if isinstance(x, Star) and isinstance(y, Star):
            r = self.ctx.cmp(x.label, y.label)
            if r == NE:
                self.report("pairing", node, f"axes over {T.show(x.label)} and {T.show(y.label)} are {verb} elementwise")
            elif r == EQ:
                self.stat("axis pairs decided", node)
            return Star(x.label, self.var2(x.var, y.var, how))
        if x.leaves is None or y.leaves is None:
            return UNKNOWN_AXIS if x.leaves is None and y.leaves is None else (y if x.leaves is None else x)
        if not x.leaves:
            return y
        if not y.leaves:
            return x
        if x.size == T.size_int(1):
            return y
        if y.size == T.size_int(1):
            return x
        lx, ly = [l.label for l in x.leaves], [l.label for l in y.leaves]
        r = self.ctx.cmp_lists(lx, ly)
        if how in ("mul", "div"):
            self.check_order(lx, ly, node, f"{verb} elementwise")
        if r == NE:
            self.report("pairing", node, f"axes over {self.show_list(lx)} and {self.show_list(ly)} are {verb} elementwise")
        elif r == EQ:
            self.stat("axis pairs decided", node)
        if r != NE and len(lx) == len(ly) == 1:
            self.check_points(lx[0], ly[0], node, "combined with data")
            self.check_points(ly[0], lx[0], node, "combined with data")
        if len(lx) != len(ly):
            return x if self.definite(lx) else y
        leaves = []
        for p, q in zip(x.leaves, y.leaves):
            if how in ("add", "assign") and p.var and q.var and p.var == -q.var:
                self.report("bra-ket", node, f"a bra index and a ket index over {T.show(p.label)} are {verb}")
            leaves.append(Leaf(self.better(p.label, q.label), self.var2(p.var, q.var, how)))
        return Axis(tuple(leaves))

    @staticmethod
    def show_list(labels) -> str:
        return T.show(labels[0]) if len(labels) == 1 else "(" + ", ".join(T.show(x) for x in labels) + ")"

    @staticmethod
    def definite(labels) -> bool:
        return all(x[0] not in ("sz", "unk") for x in labels)

    @staticmethod
    def better(a, b):
        order = {"diag": 0, "tv": 1, "par": 1, "app": 1, "comp": 1, "sel": 1, "take": 1, "map": 1}
        return a if order.get(a[0], 2 if a[0] not in ("sz", "unk") else 3) <= order.get(b[0], 2 if b[0] not in ("sz", "unk") else 3) else b

    @staticmethod
    def var2(x, y, how: str):
        if x is None or y is None:
            return None
        if how in ("add", "assign"):
            return x if x == y else (x or y)
        if how == "mul":
            s = x + y
            return s if abs(s) <= 1 else None
        if how == "div":
            return x if y == 0 else None
        return 0 if x == y == 0 else None

    def reshape(self, a: Arr, dims: list, node) -> Arr:
        return with_marks(self._reshape(a, dims, node), marks_of(a))

    def _reshape(self, a: Arr, dims: list, node) -> Arr:
        """dims: ('sz', size) | ('star', basis, fund) | ('auto',) | ('?',)"""
        if len(dims) == 1 and dims[0][0] == "auto":
            return Arr((Axis(tuple(a.leaves)),), a.ch, a.dt) if a.leaves is not None else Arr((UNKNOWN_AXIS,), a.ch, a.dt)
        unknown = Arr(None, a.ch, a.dt) if any(d[0] == "star" for d in dims) or any(d[0] == "many" for d in dims) else Arr(
            tuple(UNKNOWN_AXIS for _ in dims), a.ch, a.dt
        )
        leaves = a.leaves
        if leaves is None:
            return self.reshape_unknown(a, dims, unknown)
        if any(d[0] in ("many",) for d in dims):
            return unknown
        autos = [i for i, d in enumerate(dims) if d[0] == "auto"]
        if len(autos) > 1:
            return unknown
        k = autos[0] if autos else len(dims)
        rest = list(leaves)
        left = []
        ok = True
        for d in dims[:k]:
            ax, rest, ok = self.take(d, rest, node, False)
            if not ok:
                break
            left.append(ax)
        if not ok:
            return unknown
        right = []
        for d in reversed(dims[k + 1:]):
            ax, rest, ok = self.take(d, rest, node, True)
            if not ok:
                return unknown
            right.append(ax)
        if autos:
            self.stat("reshapes decided", node)
            return Arr((*left, Axis(tuple(rest)), *reversed(right)), a.ch, a.dt)
        if rest:
            r = self.ctx.cmp_size(T.prod(T.n_of(x.label) for x in rest), T.size_int(1))
            if r == NE:
                self.report("layout", node, f"data over {self.show_list([x.label for x in leaves])} is reshaped into a shape without {self.show_list([x.label for x in rest])}")
            return unknown
        self.stat("reshapes decided", node)
        return Arr(tuple(left), a.ch, a.dt)

    def reshape_unknown(self, a: Arr, dims: list, unknown: Arr) -> Arr:
        """Nothing is known about the data: only the sizes of the result."""
        if any(d[0] in ("many", "star") for d in dims):
            return unknown
        axes = []
        for d in dims:
            if d[0] == "sz" and d[1] is not None:
                axes.append(Axis((Leaf(("sz", d[1]), None),)) if d[1] != T.size_int(1) else Axis(()))
            else:
                axes.append(UNKNOWN_AXIS)
        return Arr(tuple(axes), a.ch, a.dt)

    def take(self, d, rest: list, node, from_end: bool):
        """Consume the leaves that make up one dimension."""
        if d[0] == "star":
            if not rest:
                return None, rest, False
            l = rest[-1] if from_end else rest[0]
            want = d[1] if not d[2] else T.app("f", d[1])
            r = self.ctx.cmp(l.label, want)
            if r == NE:
                self.report("layout", node, f"data over {T.show(l.label)} is reshaped into the shape of {T.show(want)}")
                return None, rest, False
            if r != EQ:
                return None, rest, False
            return Star(l.label, l.var), (rest[:-1] if from_end else rest[1:]), True
        if d[0] != "sz" or d[1] is None:
            return None, rest, False
        want = self.ctx.canon(d[1])
        if want == T.size_int(1):
            return Axis(()), rest, True
        got = T.size_int(1)
        used: list = []
        rest = list(rest)
        while True:
            if self.ctx.canon(got) == want and used:
                return Axis(tuple(reversed(used)) if from_end else tuple(used)), rest, True
            if not rest:
                if self.ctx.cmp_size(got, want) == NE:
                    self.report("layout", node, f"data is reshaped to a dimension of {T.show_size(d[1])}, but only {T.show_size(got)} of it is left" if used or got[1] else f"data is reshaped to a dimension of {T.show_size(d[1])} it does not have")
                return None, rest, False
            l = rest.pop() if from_end else rest.pop(0)
            if l.label[0] == "sz":
                parts = self.split_size(l, want, got)
                if parts is not None:
                    l, left = parts
                    if from_end:
                        rest.append(left)
                    else:
                        rest.insert(0, left)
            used.append(l)
            got = T.mul(got, T.n_of(l.label))
            g = self.ctx.canon(got)
            if g == want:
                continue
            extra = list(g[1])
            for x in want[1]:
                if x in extra:
                    extra.remove(x)
            if extra:  # consumed something that is not a factor of the wanted size
                if all(self.ctx.generic(x) for x in (*g[1], *want[1])) and g[0] == want[0] == 1:
                    self.report("layout", node, f"data over {self.show_list([x.label for x in used])} is reshaped to a dimension of {T.show_size(d[1])}")
                return None, rest, False

    def split_size(self, l: Leaf, want, got):
        """Split a dimension known only by its size so that the first part completes the wanted size."""
        size = self.ctx.canon(l.label[1])
        got = self.ctx.canon(got)
        if size is None or not size[1]:
            return None
        need = list(want[1])
        for x in got[1]:
            if x not in need:
                return None
            need.remove(x)
        if not need or got[0] == 0 or want[0] % got[0]:
            return None
        left = list(size[1])
        for x in need:
            if x not in left:
                return None
            left.remove(x)
        k = want[0] // got[0]
        if size[0] % k:
            return None
        if not left and size[0] == k:
            return None
        return Leaf(("sz", (k, tuple(need))), l.var), Leaf(("sz", (size[0] // k, tuple(left))), l.var)

    # ------------------------------------------------------------ indexing
    def index(self, a: Arr, sl: ast.expr, st: State, node):
        items = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
        vals = []
        for i in items:
            if isinstance(i, ast.Slice):
                for part in (i.lower, i.upper, i.step):
                    if part is not None:
                        self.ev(part, st)
                vals.append(Sl(i.lower is None and i.upper is None and i.step is None, ast.unparse(i)))
            elif isinstance(i, ast.Starred):
                self.ev(i.value, st)
                vals.append(U)
            else:
                v = self.ev(i, st)
                if isinstance(v, Tup):
                    vals.extend(v.items)
                else:
                    vals.append(v)
        return self.index_vals(a, vals, node)

    def index_vals(self, a: Arr, vals: list, node):
        out = self._index_vals(a, vals, node)
        marks = set(marks_of(a))
        if a.axes is not None and not a.has_star and not any(v is U or isinstance(v, (Splat, Maybe, Arr, Tup, ListOf)) or (isinstance(v, C) and v.v is Ellipsis) for v in vals):
            axes = iter(a.axes)
            for v in vals:
                if isinstance(v, C) and v.v is None:
                    continue
                ax = next(axes, None)
                if ax is None:
                    break
                if isinstance(v, Num) and ax.leaves:
                    self.check_range(v, ax, node)
                    marks.add(("at", tuple(x.label for x in ax.leaves), ident(v)))
        if isinstance(out, Arr):
            marks |= {f for f in a.flags if isinstance(f, tuple) and f[0] == "space"}
        return with_marks(out, marks)

    def check_range(self, v: Num, ax: Axis, node) -> None:
        """A loop over the positions of one list does not index another."""
        if v.size is None or v.size[0] != 1 or len(v.size[1]) != 1 or v.size[1][0][0] != "num":
            return
        what = v.size[1][0][1]
        if not (isinstance(what, tuple) and what[0] == "loop" and what[3] is not None):
            return
        if all(self.ctx.generic(x) for x in what[3][1]) and what[3][1] and self.ctx.cmp_size(what[3], ax.size) == NE:
            self.report("layout", node, f"a counter up to {T.show_size(what[3])} is used as an index over {self.show_list([x.label for x in ax.leaves])}")

    def _index_vals(self, a: Arr, vals: list, node):
        unknown = Arr(None, a.ch, a.dt)
        if a.axes is None:
            return unknown
        axes = list(a.axes)
        out: list = []
        pos = 0
        n_ell = sum(1 for v in vals if isinstance(v, C) and v.v is Ellipsis)
        if n_ell > 1 or any(v is U or isinstance(v, (Splat, Maybe)) for v in vals):
            return unknown
        used = sum(1 for v in vals if not (isinstance(v, C) and v.v in (None, Ellipsis)))
        if n_ell and any(isinstance(x, Star) for x in axes):
            return unknown
        adv = [v for v in vals if isinstance(v, (Arr, Tup, ListOf))]
        if len(adv) > 1:
            return unknown
        for v in vals:
            if isinstance(v, C) and v.v is Ellipsis:
                k = len(axes) - used
                out.extend(axes[pos:pos + k])
                pos += k
                continue
            if isinstance(v, C) and v.v is None:
                out.append(Axis(()))
                continue
            if pos >= len(axes):
                return unknown
            ax = axes[pos]
            if isinstance(ax, Star):
                return unknown
            pos += 1
            if isinstance(v, Num):
                continue
            if isinstance(v, Sl):
                if v.full:
                    out.append(ax)
                elif ax.leaves is None or not ax.leaves:
                    out.append(ax)
                elif len(ax.leaves) == 1 or v.key == "::-1":
                    # reversing a flattened axis reverses each of its factors
                    out.append(Axis(tuple(Leaf(("slice", x.label, v.key), x.var) for x in ax.leaves)))
                else:
                    out.append(Axis((Leaf(("slice", T.tup(x.label for x in ax.leaves), v.key), None),)))
                continue
            if isinstance(v, Arr):
                if v.dt == "b" or v.axes is None or len(v.axes) != 1:
                    return unknown
                if ax.leaves and len(ax.leaves) == 1:
                    n = v.axes[0].size if isinstance(v.axes[0], Axis) else None
                    listed = ("perm", ("list", n), "subset") if n is not None and len(n[1]) == 1 and n[1][0][0] == "len" else T.fresh()
                    key = next((f for f in v.flags if isinstance(f, tuple) and f[0] == "perm"), listed)
                    out.append(Axis((Leaf(("perm", ax.leaves[0].label, key), ax.leaves[0].var),)))
                else:
                    out.append(UNKNOWN_AXIS)
                continue
            return unknown
        out.extend(axes[pos:])
        if not out:
            return Num(None, a.ch, a.dt)
        return Arr(tuple(out), a.ch, a.dt)

    def ev_Subscript(self, e, st):
        v = self.ev(e.value, st)
        if isinstance(v, Maybe):
            v = v.v
        if isinstance(v, (ClsV, FnV)):
            return v
        if isinstance(v, Rec):
            k = self.ev(e.slice, st)
            if isinstance(k, C) and isinstance(k.v, str):
                got = v.get(k.v)
                return got if got is not None else U
            return U
        if isinstance(v, Arr):
            out = self.index(v, e.slice, st, e)
            perm = next((f for f in v.flags if isinstance(f, tuple) and f[0] == "perm"), None)
            if perm is not None and isinstance(out, Arr) and not isinstance(e.slice, ast.Tuple):
                part = ("subset",) if len(perm) > 2 or not (isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.upper is None) else ()
                if part and len(perm) < 3:
                    inner = self.ev(e.slice, st) if not isinstance(e.slice, ast.Slice) else U
                    if isinstance(inner, Arr) and (inner.dt == "b" or any(isinstance(f, tuple) and f[0] == "perm" for f in inner.flags)):
                        part = ()
                out = Arr(out.axes if out.axes is not None else (UNKNOWN_AXIS,), out.ch, out.dt, frozenset({("perm", (perm[1], ast.unparse(e.slice)), *part)}))
            return out
        if isinstance(e.slice, ast.Slice):
            return self.slice_seq(v, e.slice, st)
        k = self.ev(e.slice, st)
        i = k.key[1] if isinstance(k, Num) and k.key is not None and k.key[0] == "int" else None
        if isinstance(v, BV):
            if i is not None:
                return BV(T.comp(v.t, i))
            if isinstance(k, Num) and k.key is not None:
                return BV(T.comp(v.t, k.key))
            return BV(T.fresh()) if isinstance(k, Num) else U
        if isinstance(v, UtilV) and isinstance(k, Num):
            return BV(T.comp(v.b, i if i is not None else (k.key or T.fresh())))
        if isinstance(v, Tup):
            if i is not None and -len(v.items) <= i < len(v.items) and not any(isinstance(x, Splat) for x in v.items):
                return v.items[i]
            if isinstance(k, Num) and v.items and not any(isinstance(x, Splat) for x in v.items):
                return self.join(list(v.items))
            return U
        if isinstance(v, ListOf):
            return v.elem if isinstance(k, Num) else U
        if isinstance(v, Shp):
            c = T.comp(v.b, i if i is not None else (k.key if isinstance(k, Num) and k.key is not None else T.fresh()))
            return Num(T.fn_of(c) if v.fund else T.n_of(c), NO_CHARGE, "i")
        if isinstance(v, AxesV):
            return Num(None, NO_CHARGE, "i", ("axis", v.key, v.off, i)) if i is not None else Num(None, NO_CHARGE, "i")
        if isinstance(v, Each):
            return U
        return U

    def slice_seq(self, v, sl: ast.Slice, st):
        def c(x):
            if x is None:
                return None
            y = self.ev(x, st)
            if isinstance(y, Num) and y.key is not None and y.key[0] == "int":
                return y.key[1]
            raise ValueError

        try:
            s = slice(c(sl.lower), c(sl.upper), c(sl.step))
        except ValueError:
            return U
        if isinstance(v, Tup) and not any(isinstance(x, Splat) for x in v.items):
            return Tup(v.items[s], v.mutable)
        if isinstance(v, ListOf):
            n = v.n
            if s != slice(None):
                n = T.plus(n, -s.start) if n is not None and s.stop is None and s.step is None and s.start > 0 else T.plus(n, s.stop) if n is not None and s.start is None and s.step is None and s.stop < 0 else T.atom(T.fresh("len"))
            return ListOf(v.elem, n)
        if isinstance(v, BV) and v.t[0] == "tup" and not any(x[0] == "splat" for x in v.t[1]):
            return BV(T.tup(v.t[1][s]))
        return U

    # ------------------------------------------------------------ comprehensions
    def ev_ListComp(self, e, st):
        if len(e.generators) != 1:
            sub = st.copy()
            for g in e.generators:
                self.assign(g.target, self.iteration(self.ev(g.iter, sub), e), sub, e)
            return ListOf(self.ev(e.elt, sub), T.atom(T.fresh("len")))
        g = e.generators[0]
        it = self.ev(g.iter, st)
        sub = st.copy()

        def elt(bind):
            self.assign(g.target, bind, sub, e)
            for c in g.ifs:
                self.ev(c, sub)
            return self.ev(e.elt, sub)

        enum = isinstance(it, Enum)
        inner = it.v if enum else it
        if isinstance(inner, BV):
            src = inner.t
            filt = self.filter_of(g, enum, st)
            if filt is False:
                elt(Tup((SCALAR, U)) if enum else U)
                return U
            if src[0] == "tup" and not any(x[0] == "splat" for x in src[1]):
                idx = range(len(src[1]))
                if filt is not None:
                    if filt[1][0] == "const":
                        keep = {i % len(src[1]) if src[1] else i for i in filt[1][1]}
                        idx = [i for i in idx if (i in keep) == (filt[0] == "in")]
                    else:
                        r = elt(Tup((Num(None), BV(T.comp(("selhole",), HOLE)))) if enum else U)
                        return Each(r, src, filt) if r == BV(T.comp(("selhole",), HOLE)) else U
                out = []
                for i in idx:
                    b = BV(src[1][i])
                    out.append(elt(Tup((self.const(i), b)) if enum else b))
                return Tup(tuple(out))
            hole = BV(T.comp(src, HOLE))
            r = elt(Tup((Num(None, NO_CHARGE, "i", HOLE), hole)) if enum else hole)
            return Each(r, src, filt)
        if isinstance(inner, AxesV) and not enum and not g.ifs:
            r = elt(Num(None, NO_CHARGE, "i", ("axis", inner.key, inner.off)))
            if isinstance(r, Num) and r.key is not None and r.key[0] == "axis" and len(r.key) == 3:
                return AxesV(r.key[1], r.key[2])
            return ("peraxis", inner.key, r) if isinstance(r, BV) else U
        if isinstance(inner, Rng) and inner.ndim is not None and not g.ifs and not enum:
            r = elt(Num(None, NO_CHARGE, "i", HOLE))
            return Each(r, inner.ndim, None)
        if isinstance(inner, Tup) and not g.ifs and not any(isinstance(x, Splat) for x in inner.items):
            out = []
            for i, x in enumerate(inner.items):
                out.append(elt(Tup((self.const(i), x)) if enum else x))
            return Tup(tuple(out), isinstance(e, ast.ListComp))
        if isinstance(inner, Zip) and not enum and not g.ifs and all(isinstance(x, Tup) and not any(isinstance(y, Splat) for y in x.items) for x in inner.vs) and len({len(x.items) for x in inner.vs}) == 1:
            return Tup(tuple(elt(Tup(tuple(x.items[i] for x in inner.vs))) for i in range(len(inner.vs[0].items))))
        if isinstance(inner, ListOf):
            n = inner.n if not g.ifs else T.atom(T.fresh("len"))
        elif isinstance(inner, Arr) and inner.axes and not isinstance(inner.axes[0], Star) and not g.ifs:
            n = inner.axes[0].size
        elif isinstance(inner, Rng) and not g.ifs:
            n = inner.size
        else:
            n = None
        one = self.iterate(inner)
        r = elt(Tup((Num(None, NO_CHARGE, "i"), one)) if enum else one)
        return ListOf(r, n if n is not None else T.atom(T.fresh("len")))

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e, st):
        self.ev_ListComp(e, st)
        return U

    def ev_DictComp(self, e, st):
        return U

    def filter_of(self, g, enum: bool, st):
        """None: unfiltered; (how, key); False: some other filter."""
        if not g.ifs:
            return None
        if len(g.ifs) != 1 or not enum or not isinstance(g.target, ast.Tuple) or not isinstance(g.target.elts[0], ast.Name):
            return False
        c = g.ifs[0]
        neg = False
        while isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            neg = not neg
            c = c.operand
        if not (isinstance(c, ast.Compare) and isinstance(c.left, ast.Name) and c.left.id == g.target.elts[0].id and len(c.ops) == 1):
            return False
        if not isinstance(c.ops[0], (ast.In, ast.NotIn)):
            return False
        how = "in" if isinstance(c.ops[0], ast.In) != neg else "notin"
        v = self.ev(c.comparators[0], st)
        key = self.axes_key(v)
        return (how, key) if key is not None else False

    @staticmethod
    def axes_key(v):
        if isinstance(v, AxesV) and v.off == 0:
            return v.key
        if isinstance(v, Tup) and all(isinstance(x, Num) and x.key is not None and x.key[0] == "int" for x in v.items):
            return ("const", tuple(x.key[1] for x in v.items))
        return None

    # ------------------------------------------------------------ attributes and calls
    def ev_Attribute(self, e, st):
        v = self.ev(e.value, st)
        if isinstance(v, Maybe):
            v = v.v
        a = e.attr
        if isinstance(v, (ExtV, ModV)):
            r = self.p.resolve(self.frame.func.module, e, self.frame.func)
            if r is None and isinstance(v, ExtV):
                return ExtV(f"{v.n}.{a}")
            if isinstance(r, Ext) and r.name in ("numpy.pi", "numpy.e", "numpy.inf", "numpy.nan"):
                return Num(None, NO_CHARGE, "f")
            if isinstance(r, Ext) and r.name == "numpy.newaxis":
                return C(None)
            return self.obj(r)
        if isinstance(v, BV):
            return self.basis_attr(v.t, a, v)
        if isinstance(v, UtilV):
            return self.util_attr(v, a)
        if isinstance(v, Arr):
            return self.arr_attr(v, a, e)
        if isinstance(v, Num):
            if a == "size":
                return Num(T.size_int(1), NO_CHARGE, "i")
            if a in ("real", "imag"):
                return Num(None, NO_CHARGE if v.ch == NO_CHARGE else None, "r" if v.dt in ("c", "p", "r") else "f")
            return Meth(v, a)
        if isinstance(v, ClsV):
            f = self.p.find_method(v.c, a)
            return FnV(f) if f is not None else U
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "self":
            return self.self_attr(v, a, e)
        if isinstance(v, EigResult) and a in ("eigenvalues", "eigenvectors"):
            return v.items[a == "eigenvectors"]
        if isinstance(v, (ListOf, Tup, Rec)):
            return Meth(v, a)
        if isinstance(v, FnV):
            return Meth(v, a)
        return U

    def self_attr(self, v, a: str, e):
        """An attribute of the object a method was called on: a property, a method, or what the constructor stored."""
        f = self.p.find_method(v[1], a)
        if f is not None:
            if f.is_property:
                return self.call_func(f, [], {}, e, self_=v)
            return FnV(f, None, v)
        for c in self.p.mro(v[1]):
            init = c.methods.get("__init__")
            if init is None:
                continue
            for n in ast.walk(init.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and init.param(n.value.id) is not None:
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr == a and isinstance(t.value, ast.Name) and t.value.id == init.params[0].name:
                            return self.from_annotation(self.ann.param(init, n.value.id), f"self.{a}")
        return U

    def basis_attr(self, b: tuple, a: str, v):
        if a == "n":
            return Num(T.n_of(b), NO_CHARGE, "i")
        if a == "fundamental_n":
            return Num(T.fn_of(b), NO_CHARGE, "i")
        if a in ("shape", "fundamental_shape"):
            fund = a == "fundamental_shape"
            if b[0] == "tup":
                out = []
                for x in b[1]:
                    if x[0] == "splat":
                        out.append(Splat(Shp(x[1], fund)))
                    else:
                        out.append(Num(T.fn_of(x) if fund else T.n_of(x), NO_CHARGE, "i"))
                return Tup(tuple(out))
            return Shp(b, fund)
        if a == "ndim":
            if b[0] == "tup" and not any(x[0] == "splat" for x in b[1]):
                return self.const(len(b[1]))
            return Num(T.atom(("ndim", b)), NO_CHARGE, "i", ("ndim", b))
        if a == "delta_x_stacked":
            return Arr((spatial(b), spatial(b)), NO_CHARGE, "f")
        if a == "delta_x":
            return Arr((spatial(b),), NO_CHARGE, "f")
        return Meth(v, a)

    def util_attr(self, v: UtilV, a: str):
        b = v.b
        if a in ("n", "fundamental_n", "shape", "fundamental_shape", "ndim"):
            return self.basis_attr(b, a, v)
        size = T.fn_of(b) if a.startswith("fundamental_") else T.n_of(b)
        base = a.removeprefix("fundamental_")
        space = "k" if "k_points" in base else "x" if "x_points" in base else None
        leaf = Axis((Leaf(("sz", size) if space is None else ("sz", size, space), 0),))
        if base in ("nx_points", "nk_points"):
            return Arr((leaf,), NO_CHARGE, "i")
        if base in ("stacked_nx_points", "stacked_nk_points"):
            n = len(b[1]) if b[0] == "tup" and not any(x[0] == "splat" for x in b[1]) else None
            arr = Arr((leaf,), NO_CHARGE, "i")
            return Tup((arr,) * n) if n is not None else ListOf(arr, T.atom(("ndim", b)))
        if a == "vectors":
            return Arr((leaf, Axis((Leaf(("sz", T.fn_of(b)), 0),))), None, "c")
        if base in ("x_points", "k_points", "x_points_stacked", "stacked_k_points", "stacked_x_points"):
            return Arr((spatial(b), leaf), NO_CHARGE, "f")
        if base in ("dx", "dk", "delta_x", "delta_k"):
            return Arr((spatial(b),), NO_CHARGE, "f")
        if base in ("dx_stacked", "dk_stacked", "delta_x_stacked", "delta_k_stacked"):
            # one row per direction, each a vector in space
            return Arr((spatial(b), spatial(b)), NO_CHARGE, "f")
        return Meth(v, a)

    def arr_attr(self, v: Arr, a: str, node):
        if a == "T":
            return Arr(tuple(reversed(v.axes)) if v.axes is not None else None, v.ch, v.dt)
        if a == "shape":
            if v.axes is None:
                return U
            return Tup(tuple(Splat(Shp(x.label)) if isinstance(x, Star) else Num(x.size, NO_CHARGE, "i") for x in v.axes))
        if a == "size":
            ls = v.leaves
            return Num(T.prod(T.n_of(x.label) for x in ls) if ls is not None else None, NO_CHARGE, "i")
        if a == "ndim":
            return self.const(len(v.axes)) if v.axes is not None and not v.has_star else Num(None)
        if a in ("real", "imag"):
            return self.real_part(v)
        if a == "dtype":
            return C(("dtype", v.dt))
        return Meth(v, a)

    def real_part(self, v: Arr) -> Arr:
        return Arr(T.revar(v, lambda x: 0 if x == 0 else None), NO_CHARGE if v.ch == NO_CHARGE else None, "m" if v.dt == "m" else "r" if v.dt in ("c", "p", "r") else "f")

    def modulus(self, v: Arr) -> Arr:
        return Arr(T.revar(v, lambda x: 0), NO_CHARGE, "m" if v.dt in ("c", "p", "r", "m") else "f")

    def args_of(self, e: ast.Call, st):
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                if isinstance(v, Tup):
                    args.extend(v.items)
                elif isinstance(v, BV) and v.t[0] == "tup":
                    args.extend(BV(y) if y[0] != "splat" else Splat(BV(y[1])) for y in v.t[1])
                else:
                    args.append(Splat(v))
            else:
                args.append(self.ev(x, st))
        kw = {k.arg: self.ev(k.value, st) for k in e.keywords}
        args = [x.v if isinstance(x, Maybe) and False else x for x in args]
        return args, kw

    def ev_Call(self, e, st):
        chosen = st.env.get(f"$call{id(e)}")
        if chosen is not None:
            return chosen
        fn = self.ev(e.func, st)
        args, kw = self.args_of(e, st)
        return self.apply(fn, args, kw, e, st)

    def apply(self, fn, args, kw, e, st):
        if isinstance(fn, FnV):
            return self.call_library(fn, args, kw, e)
        if isinstance(fn, ClsV):
            return self.construct(fn.c, args, kw, e)
        if isinstance(fn, ExtV):
            return self.external(fn.n, args, kw, e, st)
        if isinstance(fn, Meth):
            return self.method(fn.obj, fn.name, args, kw, e, st)
        if isinstance(fn, CallbackV):
            return self.of_kind(fn.a)
        return U

    @staticmethod
    def of_kind(a: A):
        """A value known only by its declared element kind."""
        if a.kind == "arr":
            return Arr(None, None, a.obj)
        if a.kind == "num":
            return Num(None, None, {"complex": "c", "complex128": "c", "float": "f", "float64": "f"}.get(a.obj))
        return U

    def call_library(self, fn: FnV, args, kw, e):
        f = fn.f
        h = getattr(self, "lib_" + f.name, None)
        if h is not None and f.parent is None and f.cls is None:
            return h(f, args, kw, e)
        if f.name in CONV and f.cls is None and args and isinstance(args[0], BV):
            return BV(T.app(CONV[f.name], args[0].t))
        closure = fn.env.env if isinstance(fn.env, _EnvKey) else None
        out = self.call_func(f, args, kw, e, fn.self_, closure)
        ret = f.node.returns
        if isinstance(out, Rec) and out.cls is None and ret is not None:
            a = self.ann.parse(f.module, ret, {}, "result")
            if a.kind == "rec":
                out = Rec(a.obj, out.fields)
        elif isinstance(out, (ListOf, Tup)) and ret is not None:
            out = self.with_class(out, self.ann.parse(f.module, ret, {}, "result"))
        elif (out is U or (isinstance(out, BV) and out.t[0] == "unk")) and ret is not None:
            a = self.ann.parse(f.module, ret, {}, "result")
            if a.kind == "basis" or isinstance(out, BV):
                try:
                    key = ("call", f.qual, tuple(args), tuple(sorted(kw.items(), key=lambda x: str(x[0]))))
                    hash(key)
                    space = T.representation(a.obj) if a.kind == "basis" else None
                    return BV(key if space is None else (*key, space))
                except TypeError:
                    return BV(T.fresh())
            return self.of_kind(a)
        elif isinstance(out, Arr) and out.dt is None and ret is not None:
            a = self.ann.parse(f.module, ret, {}, "result")
            if a.kind == "arr" and a.obj in ("c", "f"):
                out = Arr(out.axes, out.ch, a.obj, out.flags)
        return out

    def with_class(self, v, a: A):
        if isinstance(v, ListOf) and a.kind == "list" and isinstance(v.elem, Rec) and v.elem.cls is None and a.obj.kind == "rec":
            return ListOf(Rec(a.obj.obj, v.elem.fields), v.n)
        if isinstance(v, Tup) and a.kind == "tuple" and len(a.args) == len(v.items):
            return Tup(tuple(Rec(x.obj, y.fields) if x.kind == "rec" and isinstance(y, Rec) and y.cls is None else y for x, y in zip(a.args, v.items)), v.mutable)
        if isinstance(v, Tup) and a.kind == "list" and a.obj.kind == "rec":
            return Tup(tuple(Rec(a.obj.obj, y.fields) if isinstance(y, Rec) and y.cls is None else y for y in v.items), v.mutable)
        return v

    def construct(self, c: Class, args, kw, e):
        if c.name == "BasisUtil":
            return UtilV(args[0].t) if args and isinstance(args[0], BV) else U
        if c.name in ("TupleBasis", "TupleBasisWithLength"):
            items = []
            if len(args) == 1 and isinstance(args[0], Splat):
                one = self.basis_of_each(args[0].v)
                if one is not None:
                    return BV(one)
            for x in args:
                if isinstance(x, BV):
                    items.append(x.t)
                elif isinstance(x, Splat):
                    one = self.basis_of_each(x.v)
                    items.append(("splat", one if one is not None else T.fresh()))
                else:
                    items.append(T.fresh())
            return BV(T.tup(items))
        if self.p.is_typeddict(c):
            return Rec(c, tuple(kw.items())) if not args and None not in kw else U
        init = self.p.find_method(c, "__init__")
        if init is not None and not any(isinstance(x, Splat) for x in args) and None not in kw:
            for prm, v in (*zip([x for x in init.params[1:] if x.kind in ("pos", "posonly")], args), *((init.param(k), v) for k, v in kw.items())):
                if prm is not None and isinstance(v, Rec):
                    self.check_complete(v, self.ann.param(init, prm.name), e, f"the record passed to {c.name} as '{prm.name}'")
        elif init is None and "dataclass" in " ".join(ast.unparse(d) for d in c.node.decorator_list):
            for k, v in (*zip(c.fields, args), *kw.items()):
                if k in c.fields and isinstance(v, Rec):
                    self.check_complete(v, self.ann.parse(c.module, c.fields[k], {}, k), e, f"the record passed to {c.name} as '{k}'")
        if self.ann.is_basis_class(c):
            size = None
            if init is not None:
                params = [p.name for p in init.params[1:]]
                bound = dict(zip(params, args))
                bound.update({k: v for k, v in kw.items() if k})
                v = bound.get("n")
                if isinstance(v, Num):
                    size = v.size
            names = {x.name for x in self.p.mro(c)}
            key = (tuple(args), tuple(sorted(kw.items(), key=lambda x: str(x[0]))))
            try:
                hash(key)
            except TypeError:
                key = T.fresh()
            if names & {"FundamentalBasis", "FundamentalTransformedBasis"}:
                return BV(("fund", c.name, size, key))
            return BV(("cons", c.name, size, key))
        for a in (*args, *kw.values()):
            del a
        return U

    def basis_of_each(self, v):
        """The product basis made of a sequence of factors (None: unknown)."""
        if isinstance(v, BV):
            return v.t
        if isinstance(v, Tup) and all(isinstance(x, BV) for x in v.items):
            return T.tup(x.t for x in v.items)
        if isinstance(v, Each) and isinstance(v.elem, BV):
            t = v.elem.t
            if t == T.comp(v.src, HOLE) or t == T.comp(("selhole",), HOLE):
                if v.filt is None:
                    return v.src
                if v.filt[1] == ("all", v.src):
                    return v.src if v.filt[0] == "in" else T.tup(())
                return ("sel", v.src, *v.filt)
            if v.filt is None:
                if t[0] == "app" and t[2] == T.comp(v.src, HOLE):
                    return T.app(t[1], v.src)
                space = T.representation(t)
                return ("map", repr(t), v.src) if space is None else ("map", repr(t), v.src, space)
            return None
        if isinstance(v, tuple) and v and v[0] == "peraxis" and isinstance(v[2], BV):
            t = v[2].t
            if t[0] == "comp" and t[2] == ("axis", v[1], 0):
                return ("take", t[1], v[1])
        return None

    # ------------------------------------------------------------ library functions with a rule of their own
    def bind(self, f: Func, args, kw) -> dict:
        names = [p.name for p in f.params]
        out = dict(zip(names, args))
        out.update({k: v for k, v in kw.items() if k})
        for p in f.params:
            if p.name not in out:
                out[p.name] = self.const_default(f, p) if p.has_default else U
        return out

    def convert_axis(self, a, initial, final, axis, node, dual: bool):
        """Change of basis along one axis."""
        if not isinstance(a, Arr):
            return U
        if a.axes is None or not isinstance(axis, Num) or axis.key is None or axis.key[0] != "int":
            return Arr(None, a.ch, "c" if a.dt == "c" else None)
        if a.has_star or not -len(a.axes) <= axis.key[1] < len(a.axes):
            return Arr(None, a.ch, "c" if a.dt == "c" else None)
        i = axis.key[1] % len(a.axes)
        ax = a.axes[i]
        var = None
        if ax.leaves is not None and isinstance(initial, BV):
            labels = [x.label for x in ax.leaves]
            r = self.ctx.cmp_lists(labels, T.flatten(initial.t))
            if r == NE:
                self.report("source", node, f"data over {self.show_list(labels)} is converted as if it were in {T.show(initial.t)}")
            elif r == EQ:
                self.stat("conversions decided", node)
        if ax.leaves:
            vs = {x.var for x in ax.leaves}
            if len(vs) == 1:
                var = vs.pop()
                bad = 1 if dual else -1
                if dual and var == 0 and a.ch == NO_CHARGE and len(ax.leaves) and all(x.label[0] in ("tv", "comp", "app", "par") for x in ax.leaves):
                    self.report("bra-ket", node, "the index of plain (not dual) data is converted with the conjugate transformation of a bra")
                elif var == bad:
                    self.report("bra-ket", node, f"a {'ket' if dual else 'bra'} index is converted with the {'conjugate ' if dual else ''}transformation of a {'bra' if dual else 'ket'}")
                elif var is not None:
                    self.stat("conversion directions decided", node)
        if isinstance(final, BV):
            self.check_diagonal(ax, final, node)
            new = Axis(tuple(Leaf(x, var) for x in T.flatten(final.t)))
        else:
            new = Axis((Leaf(T.fresh(), var),))
        return Arr((*a.axes[:i], new, *a.axes[i + 1:]), a.ch, "c" if a.dt == "c" else None)

    def check_points(self, p: tuple, q: tuple, node, how: str) -> None:
        """The points of a basis belong to data in their own representation only."""
        if p[0] != "sz" or len(p) < 3:
            return
        for x in q[1:] if q[0] == "diag" else (q,):
            if T.representation(x) is None and (T.root(x) or "?")[0] in ("tv", "par") and T.root(p[1][1][0][1]) == T.root(x):
                self.report("representation", node, f"the {'positions' if p[2] == 'x' else 'wave numbers'} of the points are {how} over {T.show(x)}, which need not be in {'position' if p[2] == 'x' else 'momentum'} space")
                return

    def check_diagonal(self, ax: Axis, final: BV, node) -> None:
        """The diagonal of an operator is no vector: it only means something in the basis it was taken in."""
        labels = [x.label for x in ax.leaves or ()]
        if not labels or any(x.label[0] != "diag" or x.var != 0 for x in ax.leaves) or T.space_of(final.t) not in ("x", "k"):
            return
        res = self.ctx.cmp_lists(labels, T.flatten(final.t))
        sides = [y for x in labels for y in x[1:]]
        if res == NE or (res == UNK and all(T.representation(y) is None and y[0] in ("tv", "comp", "par") and owned(y) for y in sides)):
            self.report("diagonal", node, f"the diagonal over {self.show_list(labels)} is converted to {T.show(final.t)} as if it were a vector")
        elif res == EQ:
            self.stat("diagonals decided", node)

    def lib_convert_vector(self, f, args, kw, e):
        b = self.bind(f, args, kw)
        return self.convert_axis(b.get("vector"), b.get("initial_basis"), b.get("final_basis"), b.get("axis"), e, False)

    def lib_convert_dual_vector(self, f, args, kw, e):
        b = self.bind(f, args, kw)
        return self.convert_axis(b.get("co_vector"), b.get("initial_basis"), b.get("final_basis"), b.get("axis"), e, True)

    def lib_convert_matrix(self, f, args, kw, e):
        b = self.bind(f, args, kw)
        ax = b.get("axes")
        if not isinstance(ax, Tup) or len(ax.items) != 2:
            return U
        one = self.convert_axis(b.get("matrix"), b.get("initial_basis"), b.get("final_basis"), ax.items[0], e, False)
        return self.convert_axis(one, b.get("initial_dual_basis"), b.get("final_dual_basis"), ax.items[1], e, True)

    def lib_get_measured_data(self, f, args, kw, e):
        a = args[0] if args else U
        if not isinstance(a, Arr):
            return U
        return Arr(T.revar(a, lambda v: 0 if v == 0 else None), NO_CHARGE if a.ch == NO_CHARGE else None, "f", in_space(*drawn_in(a)))

    def lib_get_data_in_axes(self, f, args, kw, e):
        b = self.bind(f, args, kw)
        a, axes = b.get("data"), b.get("axes")
        if not isinstance(a, Arr):
            return U
        if a.axes is None or not a.axes or not isinstance(a.axes[0], Star):
            return Arr(None, a.ch, a.dt)
        star = a.axes[0]
        if isinstance(axes, AxesV) and axes.off == 0 and len(a.axes) == 1:
            return Arr((Star(("take", star.label, axes.key), star.var),), a.ch, a.dt)
        if isinstance(axes, Tup) and len(axes.items) == 2 and isinstance(axes.items[0], Splat) and isinstance(axes.items[0].v, AxesV) and len(a.axes) == 2:
            last = axes.items[1]
            if isinstance(last, Num) and last.key == ("ndim", star.label):
                return Arr((Star(("take", star.label, axes.items[0].v.key), star.var), a.axes[1]), a.ch, a.dt)
        return Arr(None, a.ch, a.dt, in_space(*drawn_in(Arr(a.axes))))

    def coordinates_in_axes(self, f, args, kw, space: str):
        """Positions (or wave numbers) of the points of a basis, one row per chosen axis."""
        b = self.bind(f, args, kw)
        basis, axes = b.get("basis"), b.get("axes")
        if not isinstance(basis, BV):
            return U
        rep = T.space_of(basis.t)
        t = basis.t if rep == space else T.app(space, basis.t)
        if isinstance(axes, AxesV) and axes.off == 0:
            return Arr((UNKNOWN_AXIS, Star(("take", t, axes.key))), NO_CHARGE, "f", in_space(space))
        return Arr(None, NO_CHARGE, "f", in_space(space))

    def lib_get_k_coordinates_in_axes(self, f, args, kw, e):
        return self.coordinates_in_axes(f, args, kw, "k")

    def lib_get_x_coordinates_in_axes(self, f, args, kw, e):
        return self.coordinates_in_axes(f, args, kw, "x")

    def lib_plot_data_1d(self, f, args, kw, e):
        b = self.bind(f, args, kw)
        x, y = drawn_in(b.get("coordinates")), drawn_in(b.get("data"))
        if x and y:
            if not x & y:
                names = {"x": "position", "k": "momentum"}
                self.report("representation", e, f"{names[min(y)]}-space data is drawn against {names[min(x)]}-space coordinates")
            else:
                self.stat("representations decided", e)
        return self.call_func(f, args, kw, e)

    lib_plot_data_2d = lib_plot_data_1d

    # ------------------------------------------------------------ methods
    def method(self, o, name, args, kw, e, st):
        if isinstance(o, Arr):
            out = self.arr_method(o, name, args, kw, e, st)
            return with_marks(out, {f for f in o.flags if isinstance(f, tuple) and f[0] == "space"}) if isinstance(out, Arr) else out
        if isinstance(o, Num):
            if name in ("astype", "item", "conj", "conjugate", "copy"):
                return Num(o.size, T.scale_charge(o.ch, -1) if name.startswith("conj") else o.ch, o.dt if name != "astype" else self.dtype_of(args, kw, o.dt))
            return U
        if isinstance(o, UtilV):
            if name == "get_flat_index":
                return Num(None, NO_CHARGE, "i")
            if name in ("get_x_points_at_index", "get_k_points_at_index"):
                return Arr(None, NO_CHARGE, "f")
            return U
        if isinstance(o, Rec):
            if name == "get" and args and isinstance(args[0], C):
                return o.get(args[0].v) or U
            if name == "copy":
                return o
            return U
        if isinstance(o, FnV):
            if name in ("call_uncached", "call_cached", "load_or_call_cached", "call_and_save"):
                return self.call_library(o, args, kw, e)
            return U
        return U

    @staticmethod
    def dtype_of(args, kw, default=None):
        for v in (*args, *kw.values()):
            if isinstance(v, ExtV):
                last = v.n.split(".")[-1]
                if "complex" in last:
                    return "c"
                if "float" in last:
                    return "f"
                if "int" in last:
                    return "i"
                if last == "bool_" or last == "bool":
                    return "b"
            if isinstance(v, C) and isinstance(v.v, tuple) and v.v[0] == "dtype":
                return v.v[1]
        return default

    def arr_method(self, a: Arr, name, args, kw, e, st):
        if name in ("ravel", "flatten"):
            return self.reshape(a, [("auto",)], e)
        if name == "reshape":
            dims = self.dims(args)
            return self.reshape(a, dims, e) if dims is not None else Arr(None, a.ch, a.dt)
        if name == "astype":
            dt = self.dtype_of([*args, *kw.values()], {}, None)
            self.keep_complex(a.dt, dt, e, "cast to real numbers")
            return Arr(a.axes, a.ch, narrowed(a.dt, dt) or a.dt, a.flags)
        if name == "copy":
            return a
        if name == "fill" and args and isinstance(args[0], (Num, Arr)):
            self.keep_complex(args[0].dt, a.dt, e, "stored in an array of real numbers")
        if name in ("conj", "conjugate"):
            return T.conj(a)
        if name == "transpose":
            if not args:
                return Arr(tuple(reversed(a.axes)) if a.axes is not None else None, a.ch, a.dt)
            return self.transpose(a, args[0] if len(args) == 1 and isinstance(args[0], (Tup, ListOf)) else Tup(tuple(args)))
        if name == "swapaxes":
            return self.swapaxes(a, args)
        if name in ("sum", "mean", "prod", "max", "min", "argmax", "argmin", "any", "all", "std", "var"):
            return self.reduce(a, args[0] if args else kw.get("axis"), name, e)
        if name == "item":
            return Num(None, a.ch, a.dt)
        if name == "tolist":
            return Nested(a)
        if name == "dot":
            return self.matmul(a, args[0], e) if args else U
        return U

    def dims(self, args):
        if len(args) == 1 and isinstance(args[0], Tup):
            args = list(args[0].items)
        out = []
        for x in args:
            if isinstance(x, Splat):
                v = x.v
                if isinstance(v, Shp):
                    out.append(("star", v.b, v.fund))
                elif isinstance(v, Tup):
                    sub = self.dims([v])
                    out.extend(sub)
                else:
                    out.append(("many",))
            elif isinstance(x, Shp):
                out.append(("star", x.b, x.fund))
            elif isinstance(x, Num):
                if x.key is not None and x.key[0] == "int" and x.key[1] == -1:
                    out.append(("auto",))
                elif x.size is not None:
                    out.append(("sz", x.size))
                else:
                    out.append(("?",))
            elif len(args) == 1:
                return None
            else:
                out.append(("?",))
        return out

    @staticmethod
    def ints(v):
        if isinstance(v, Num) and v.key is not None and v.key[0] == "int":
            return [v.key[1]]
        if isinstance(v, Tup) and all(isinstance(x, Num) and x.key is not None and x.key[0] == "int" for x in v.items):
            return [x.key[1] for x in v.items]
        return None

    def transpose(self, a: Arr, axes) -> Arr:
        if a.axes is None or a.has_star:
            return Arr(None, a.ch, a.dt)
        idx = self.ints(axes)
        if idx is None or len(idx) != len(a.axes) or sorted(i % len(a.axes) for i in idx) != list(range(len(a.axes))):
            return Arr(tuple(UNKNOWN_AXIS for _ in a.axes), a.ch, a.dt)
        return Arr(tuple(a.axes[i] for i in idx), a.ch, a.dt)

    def swapaxes(self, a: Arr, args) -> Arr:
        if a.axes is None or a.has_star or len(args) < 2:
            return Arr(None, a.ch, a.dt)
        i, j = self.ints(args[0]), self.ints(args[1])
        if i is None or j is None or not all(-len(a.axes) <= x < len(a.axes) for x in (i[0], j[0])):
            return Arr(tuple(UNKNOWN_AXIS for _ in a.axes), a.ch, a.dt)
        ax = list(a.axes)
        ax[i[0]], ax[j[0]] = ax[j[0]], ax[i[0]]
        return Arr(tuple(ax), a.ch, a.dt)

    def reduce(self, a: Arr, axis, name, e, keepdims: bool = False):
        dt = a.dt
        ch = a.ch
        linear = name in ("sum", "mean", "average", "cumsum")
        if not linear:
            ch = NO_CHARGE if ch == NO_CHARGE or name in ("argmax", "argmin", "any", "all", "norm") else None
        if name in ("argmax", "argmin"):
            dt = "i"
        if name in ("norm", "std", "var"):
            dt = "f"
        if axis is None or (isinstance(axis, C) and axis.v is None):
            return Num(None, ch, dt)
        if a.axes is None:
            return Arr(None, ch, dt)
        idx = self.ints(axis)
        if idx is not None:
            if keepdims:
                return Arr(None, ch, dt)
            n = len(a.axes)
            if a.has_star:
                k = next(i for i, x in enumerate(a.axes) if isinstance(x, Star))
                tail = n - 1 - k
                if all(0 <= i < k for i in idx):
                    out = [x for i, x in enumerate(a.axes) if i not in idx]
                elif all(-tail <= i < 0 for i in idx):
                    out = [x for i, x in enumerate(a.axes) if i - n not in idx]
                else:
                    return Arr(None, ch, dt)
            else:
                if not all(-n <= i < n for i in idx):
                    return Arr(None, ch, dt)
                gone = {i % n for i in idx}
                out = [x for i, x in enumerate(a.axes) if i not in gone]
            return Arr(tuple(out), ch, dt) if out else Num(None, ch, dt)
        if isinstance(axis, AxesV) and a.has_star and sum(isinstance(x, Star) for x in a.axes) == 1:
            k = next(i for i, x in enumerate(a.axes) if isinstance(x, Star))
            star = a.axes[k]
            if axis.key[0] == "all" and axis.key[1] != star.label and self.ctx.cmp(axis.key[1], star.label) == NE:
                self.report("layout", e, f"the factors of {T.show(star.label)} are selected by the number of factors of {T.show(axis.key[1])}")
                return Arr(None, ch, dt)
            if axis.off != k:
                self.report("layout", e, f"axis numbers count the factors of {T.show(star.label)}, which start at axis {k} of the array, but are applied from axis {axis.off}")
                return Arr(None, ch, dt)
            self.stat("axis selections decided", e)
            if axis.key == ("all", star.label):
                out = [x for i, x in enumerate(a.axes) if i != k]
            else:
                out = [*a.axes[:k], Star(("sel", star.label, "notin", axis.key), star.var), *a.axes[k + 1:]]
            return Arr(tuple(out), ch, dt) if out else Num(None, ch, dt)
        return Arr(None, ch, dt)

    # ------------------------------------------------------------ products
    def contract_var(self, label, vs: list, node) -> None:
        if any(v is None for v in vs):
            return
        s = sum(vs)
        if abs(s) >= 2:
            kind = "ket" if s > 0 else "bra"
            self.report("bra-ket", node, f"two {kind} indices over {T.show(label)} are contracted with each other (one of them should be conjugated)")
        elif 1 in vs and -1 in vs:
            self.stat("contraction directions decided", node)

    def contract(self, axes: list, node) -> None:
        """Axes summed over together."""
        for i in range(len(axes)):
            for j in range(i):
                x, y = axes[j], axes[i]
                if isinstance(x, Star) or isinstance(y, Star) or x.leaves is None or y.leaves is None or not x.leaves or not y.leaves:
                    continue
                lx, ly = [l.label for l in x.leaves], [l.label for l in y.leaves]
                r = self.ctx.cmp_lists(lx, ly)
                self.check_order(lx, ly, node, "contracted")
                if r == NE:
                    self.report("pairing", node, f"axes over {self.show_list(lx)} and {self.show_list(ly)} are contracted")
                    return
                if r == EQ:
                    self.stat("axis pairs decided", node)
        if all(not isinstance(x, Star) and x.leaves for x in axes) and len({len(x.leaves) for x in axes}) == 1:
            for k in range(len(axes[0].leaves)):
                self.contract_var(axes[0].leaves[k].label, [x.leaves[k].var for x in axes], node)

    def matmul(self, a, b, node):
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            return U
        ch = T.add_charge(a.ch, b.ch)
        dt = "c" if "c" in (a.dt, b.dt) else T.join_dt(a.dt, b.dt)
        if a.axes is None or b.axes is None or a.has_star or b.has_star or not (1 <= len(a.axes) <= 2 and 1 <= len(b.axes) <= 2):
            return Arr(None, ch, dt)
        self.contract([a.axes[-1], b.axes[0]], node)
        out = (*a.axes[:-1], *b.axes[1:])
        return Arr(out, ch, dt) if out else Num(None, ch, dt)

    def tensordot(self, a, b, axes, node):
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            return Arr(None, None, None)
        ch = T.add_charge(a.ch, b.ch)
        dt = "c" if "c" in (a.dt, b.dt) else (T.join_dt(a.dt, b.dt) if a.dt and b.dt else None)
        unknown = Arr(None, ch, dt)
        if a.axes is None or b.axes is None or a.has_star or b.has_star:
            return unknown
        if isinstance(axes, Tup) and len(axes.items) == 2:
            i, j = self.ints(axes.items[0]), self.ints(axes.items[1])
        else:
            k = self.ints(axes) if axes is not None else [2]
            if k is None or len(k) != 1:
                return unknown
            i, j = list(range(len(a.axes) - k[0], len(a.axes))), list(range(k[0]))
        if i is None or j is None or len(i) != len(j):
            return unknown
        na, nb = len(a.axes), len(b.axes)
        if not all(-na <= x < na for x in i) or not all(-nb <= x < nb for x in j):
            return unknown
        i, j = [x % na for x in i], [x % nb for x in j]
        for x, y in zip(i, j):
            self.contract([a.axes[x], b.axes[y]], node)
        out = [ax for k, ax in enumerate(a.axes) if k not in i] + [ax for k, ax in enumerate(b.axes) if k not in j]
        return Arr(tuple(out), ch, dt) if out else Num(None, ch, dt)

    def einsum(self, spec: str, ops: list, node):
        ch = NO_CHARGE
        dts = []
        ops = [self.stack(o) if isinstance(o, (ListOf, Tup)) else o for o in ops]
        for o in ops:
            ch = T.add_charge(ch, o.ch if isinstance(o, (Arr, Num)) else None)
            dts.append(getattr(o, "dt", None))
        dt = "c" if "c" in dts else (T.join_dt(*dts) if dts else None)
        unknown = Arr(None, ch, dt)
        spec = spec.replace(" ", "")
        if "..." in spec:
            return unknown
        ins, _, out = spec.partition("->")
        if "->" not in spec:
            letters = ins.replace(",", "")
            out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
        terms = ins.split(",")
        if len(terms) != len(ops):
            return unknown
        where: dict[str, list] = {}
        for o, (t, op) in enumerate(zip(terms, ops)):
            if isinstance(op, Num) and t == "":
                continue
            if not isinstance(op, Arr) or op.axes is None or op.has_star or len(op.axes) != len(t):
                for c in t:
                    where.setdefault(c, []).append((o, None))
                continue
            for c, ax in zip(t, op.axes):
                where.setdefault(c, []).append((o, ax))
        result: dict[str, object] = {}
        for c, uses in where.items():
            known = [ax for _, ax in uses if ax is not None and ax.leaves is not None]
            operands = [o for o, _ in uses]
            if c not in out:
                if len(set(operands)) == len(operands):
                    if len(known) == len(uses):
                        self.contract(known, node)
                    else:
                        for i in range(len(known)):
                            for j in range(i):
                                self.contract_labels(known[j], known[i], node)
                continue
            ax = None
            same = len(set(operands)) < len(operands)
            for k in known:
                if ax is None:
                    ax = k
                elif same:
                    ax = self.diagonal(ax, k)
                else:
                    ax = self.pair(ax, k, node, "multiplied", "mul")
            if ax is not None and len(known) < len(uses):
                ax = Axis(tuple(Leaf(x.label, None) for x in ax.leaves)) if ax.leaves is not None else ax
            result[c] = ax if ax is not None else UNKNOWN_AXIS
        axes = tuple(result.get(c, UNKNOWN_AXIS) for c in out)
        return Arr(axes, ch, dt) if axes else Num(None, ch, dt)

    def contract_labels(self, x, y, node) -> None:
        if x.leaves and y.leaves:
            lx, ly = [l.label for l in x.leaves], [l.label for l in y.leaves]
            self.check_order(lx, ly, node, "contracted")
            if self.ctx.cmp_lists(lx, ly) == NE:
                self.report("pairing", node, f"axes over {self.show_list(lx)} and {self.show_list(ly)} are contracted")

    def check_order(self, lx: list, ly: list, node, verb: str) -> None:
        """One list in two different orders."""
        if len(lx) != len(ly):
            return
        for x, y in zip(lx, ly):
            (rx, cx), (ry, cy) = selection([x]), selection([y])
            if rx == ry and cx != cy and all(reordering(k) for k in (*cx, *cy)):
                self.report("aligned", node, f"one list in two different orders is {verb} ({T.show(rx[0])})")

    def diagonal(self, x, y):
        if isinstance(x, Star) or isinstance(y, Star) or x.leaves is None or y.leaves is None or len(x.leaves) != len(y.leaves):
            return UNKNOWN_AXIS
        return Axis(tuple(Leaf(("diag", p.label, q.label) if p.label != q.label else ("diag", p.label, p.label), 0) for p, q in zip(x.leaves, y.leaves)))

    # ------------------------------------------------------------ external routines
    def external(self, n: str, args, kw, e, st):
        short = n.removeprefix("numpy.").removeprefix("lib.scimath.").removeprefix("emath.")
        if n.startswith("builtins."):
            return self.builtin(n[9:], args, kw, e, st)
        if n in ("typing.cast",):
            return args[1] if len(args) == 2 else U
        if n == "itertools.chain" or n.startswith("itertools"):
            return U
        if n in self.native:
            return self.native_call(n, args, kw, e, st)
        if n in ("numpy.float64", "numpy.float32", "numpy.float_", "numpy.int_", "numpy.int64", "numpy.fft.rfft", "numpy.fft.rfftn", "numpy.fft.rfft2", "scipy.fft.rfft", "scipy.fft.rfftn") and args and isinstance(args[0], (Num, Arr)):
            self.keep_complex(args[0].dt, "f", e, f"passed to {n.replace('numpy', 'np')}")
        elif "dtype" in kw and args and isinstance(args[0], (Num, Arr)) and n not in ("numpy.array", "numpy.asarray") and "_like" not in n and n.startswith("numpy."):
            self.keep_complex(args[0].dt, self.dtype_of([], {"dtype": kw["dtype"]}), e, "computed as real numbers")
        h = getattr(self, "np_" + short.replace(".", "_"), None) if n.startswith("numpy.") else getattr(self, "sp_" + n.removeprefix("scipy.").replace(".", "_"), None) if n.startswith("scipy.") else None
        if h is not None:
            return h(args, kw, e)
        if n.startswith("numpy.") and short in ELEMENTWISE:
            return self.unary(short, args, e)
        return U

    def native_call(self, n: str, args, kw, e, st):
        """A routine of an extension module: its result has the dimensions and element kind the native code declares."""
        sig = self.native[n]
        self.native_calls.append((self.frame.func, n, tuple(args), dict(kw), e))
        depth, t = 0, sig.ret
        while t[0] == "list":
            depth, t = depth + 1, t[1]
        dt = {"float": "f", "int": "i", "complex": "c", "bool": "b"}.get(t[0])
        if depth == 0:
            return Num(None, None, dt) if dt is not None else U
        axes = (UNKNOWN_AXIS,) * depth
        given = {p[0]: a for p, a in zip(sig.params, args)} | kw
        r = given.get("resolution")
        if isinstance(r, Tup):
            for b in (v.t for v in st.env.values() if isinstance(v, BV) and v.t[0] == "tup"):
                if len(b[1]) != len(r.items) or len(set(b[1])) != len(b[1]) or any(x[0] == "splat" for x in b[1]):
                    continue
                sizes = [T.n_of(x) for x in b[1]]
                for i, x in enumerate(r.items):
                    if isinstance(x, Num) and x.size is not None and x.size != sizes[i] and sizes.count(x.size) == 1:
                        self.report("native", e, f"entry {i} of the resolution is the size of component {sizes.index(x.size)} of the basis")
        if depth == 2 and isinstance(r, Tup) and all(isinstance(x, Num) and x.size is not None for x in r.items):
            # rows and columns run over the coordinates of the resolution, in order
            axis = Axis(tuple(Leaf(("sz", x.size), 0) for x in r.items))
            axes = (axis, axis)
        return Nested(Arr(axes, None, dt))

    def builtin(self, n, args, kw, e, st):
        a = args[0] if args else None
        if n in ("tuple", "list"):
            if a is None:
                return Tup((), n == "list")
            if isinstance(a, (Each, AxesV, ListOf)) or (isinstance(a, tuple) and a and a[0] == "peraxis"):
                return a
            if isinstance(a, Tup):
                return Tup(a.items, n == "list")
            if isinstance(a, BV):
                if a.t[0] == "tup":
                    return Tup(tuple(BV(x) if x[0] != "splat" else Splat(BV(x[1])) for x in a.t[1]))
                return Each(BV(T.comp(a.t, HOLE)), a.t, None)
            if isinstance(a, Rng) and a.ndim is not None:
                return AxesV(("all", a.ndim))
            if isinstance(a, Rng) and a.size is not None and not a.size[1] and a.size[0] <= 6:
                return Tup(tuple(self.const(i) for i in range(a.size[0])))
            if isinstance(a, Arr):
                return ListOf(self.drop_first(a), a.axes[0].size if a.axes else None)
            if isinstance(a, Shp):
                return a
            return U
        if n == "range":
            if len(args) == 1 and isinstance(a, Num):
                if a.key is not None and a.key[0] == "ndim":
                    return Rng(a.size, a.key[1])
                return Rng(a.size)
            if len(args) == 2 and isinstance(a, Num) and a.key == ("int", 0) and isinstance(args[1], Num):
                return Rng(args[1].size)
            return Rng(None)
        if n == "enumerate":
            return Enum(a) if a is not None else U
        if n == "zip":
            return Zip(tuple(args)) if not any(isinstance(x, Splat) for x in args) else U
        if n == "len":
            if isinstance(a, ListOf):
                return Num(a.n, NO_CHARGE, "i")
            if isinstance(a, Tup) and not any(isinstance(x, Splat) for x in a.items):
                return self.const(len(a.items))
            if isinstance(a, Arr) and a.axes and not isinstance(a.axes[0], Star):
                return Num(a.axes[0].size, NO_CHARGE, "i")
            if isinstance(a, Shp):
                return Num(T.atom(("ndim", a.b)), NO_CHARGE, "i", ("ndim", a.b))
            if isinstance(a, BV):
                return self.basis_attr(a.t, "ndim", a)
            return Num(None)
        if n in ("int", "float", "complex", "abs", "round"):
            if n in ("int", "float") and isinstance(a, (Num, Arr)):
                self.keep_complex(a.dt, n[0], e, f"converted with {n}()")
            if isinstance(a, Num):
                if n == "abs":
                    return Num(a.size, NO_CHARGE, "f")
                return Num(a.size if n == "int" else None, a.ch, {"int": "i", "float": "f", "complex": "c"}.get(n, a.dt), a.key if n == "int" else None)
            if isinstance(a, Arr) and n == "abs":
                return self.modulus(a)
            return Num(None, None)
        if n == "next":
            return self.iterate(a) if a is not None else U
        if n == "iter":
            return a if a is not None else U
        if n == "reversed" and isinstance(a, Tup) and not any(isinstance(x, Splat) for x in a.items):
            return Tup(tuple(reversed(a.items)))
        if n == "dict":
            if a is None:
                return self.merged(Rec(None, ()), [], kw)
            return self.merged(Rec(None, a.fields), list(args[1:]), kw) if isinstance(a, Rec) else U
        if n == "slice":
            return Sl(len(args) == 1 and isinstance(a, C) and a.v is None, ast.unparse(e))
        if n in ("min", "max", "sum") and len(args) > 1:
            return Num(None, None)
        return U

    def unary(self, fn: str, args, e):
        a = args[0] if args else U
        if isinstance(a, Num):
            if fn == "conj":
                return Num(a.size, T.scale_charge(a.ch, -1), a.dt)
            if fn in ("abs", "absolute"):
                return Num(a.size, NO_CHARGE, "f")
            if fn in ("real", "imag"):
                return Num(None, NO_CHARGE if a.ch == NO_CHARGE else None, "r" if a.dt in ("c", "p", "r") else "f")
            if fn == "angle":
                return Num(None, NO_CHARGE if a.ch == NO_CHARGE else None, "f")
            if fn == "square":
                return Num(None, T.scale_charge(a.ch, 2), "f" if a.dt in ("r", "m") else a.dt)
            return Num(None, NO_CHARGE if a.ch == NO_CHARGE else None, a.dt if a.dt in ("c", "f", "p") else ("f" if a.dt else None))
        if not isinstance(a, Arr):
            return U
        if fn in ("conj", "conjugate"):
            return T.conj(a)
        if fn in ("abs", "absolute"):
            return self.modulus(a)
        if fn in ("real", "imag", "real_if_close"):
            r = self.real_part(a)
            return r if fn != "real_if_close" else Arr(r.axes, r.ch, None)
        if fn == "angle":
            return Arr(T.revar(a, lambda v: 0 if v == 0 else None), None if a.ch != NO_CHARGE else NO_CHARGE, "f")
        if fn == "square":
            return Arr(T.revar(a, lambda v: 0 if v == 0 else None), T.scale_charge(a.ch, 2), "f" if a.dt in ("r", "m") else a.dt)
        if fn in ("negative", "positive", "copy", "ascontiguousarray"):
            return a
        dt = a.dt if a.dt in ("c", "f", "p") else ("f" if a.dt in ("i", "b", "r", "m") else None)
        return Arr(T.revar(a, lambda v: 0 if v == 0 else None), NO_CHARGE if a.ch == NO_CHARGE else None, dt)

    def _unary2(self, op, args, e):
        if len(args) < 2:
            return U
        return self.binop(op, args[0], args[1], e)

    def np_multiply(self, args, kw, e):
        return self._unary2(ast.Mult(), args, e)

    def np_add(self, args, kw, e):
        return self._unary2(ast.Add(), args, e)

    def np_subtract(self, args, kw, e):
        return self._unary2(ast.Sub(), args, e)

    def np_divide(self, args, kw, e):
        return self._unary2(ast.Div(), args, e)

    np_true_divide = np_divide

    def np_remainder(self, args, kw, e):
        return self._unary2(ast.Mod(), args, e)

    np_mod = np_fmod = np_remainder

    def np_floor_divide(self, args, kw, e):
        return self._unary2(ast.FloorDiv(), args, e)

    def np_power(self, args, kw, e):
        return self._unary2(ast.Pow(), args, e)

    def np_einsum(self, args, kw, e):
        if args and isinstance(args[0], C) and isinstance(args[0].v, str) and not any(isinstance(x, Splat) for x in args):
            return self.einsum(args[0].v, args[1:], e)
        return Arr(None, None, None)

    def np_tensordot(self, args, kw, e):
        axes = args[2] if len(args) > 2 else kw.get("axes")
        return self.tensordot(args[0] if args else U, args[1] if len(args) > 1 else U, axes, e)

    def np_matmul(self, args, kw, e):
        return self.matmul(args[0], args[1], e) if len(args) >= 2 else U

    np_dot = np_matmul

    def np_vdot(self, args, kw, e):
        if len(args) == 2 and isinstance(args[0], Arr):
            return self.matmul(T.conj(args[0]), args[1], e)
        return U

    def np_linalg_multi_dot(self, args, kw, e):
        if not args or not isinstance(args[0], Tup) or not args[0].items:
            return U
        out = args[0].items[0]
        for x in args[0].items[1:]:
            out = self.matmul(out, x, e)
        return out

    def np_outer(self, args, kw, e):
        if len(args) == 2 and all(isinstance(x, Arr) and x.leaves is not None for x in args[:2]):
            a, b = args
            return Arr((Axis(tuple(a.leaves)), Axis(tuple(b.leaves))), T.add_charge(a.ch, b.ch), "c" if "c" in (a.dt, b.dt) else None)
        return U

    def np_transpose(self, args, kw, e):
        a = args[0] if args else U
        if not isinstance(a, Arr):
            return U
        axes = args[1] if len(args) > 1 else kw.get("axes")
        if axes is None:
            return Arr(tuple(reversed(a.axes)) if a.axes is not None else None, a.ch, a.dt)
        return self.transpose(a, axes)

    def np_swapaxes(self, args, kw, e):
        return self.swapaxes(args[0], args[1:]) if args and isinstance(args[0], Arr) else U

    def np_moveaxis(self, args, kw, e):
        if len(args) < 3 or not isinstance(args[0], Arr):
            return U
        a = args[0]
        i, j = self.ints(args[1]), self.ints(args[2])
        if a.axes is None or a.has_star or i is None or j is None or len(i) != 1:
            return Arr(None, a.ch, a.dt)
        ax = list(a.axes)
        x = ax.pop(i[0])
        n = len(a.axes)
        ax.insert(j[0] % n, x)
        return Arr(tuple(ax), a.ch, a.dt)

    def np_reshape(self, args, kw, e):
        if not args or not isinstance(args[0], Arr):
            return U
        d = self.dims(args[1:])
        return self.reshape(args[0], d, e) if d is not None else Arr(None, args[0].ch, args[0].dt)

    def np_ravel(self, args, kw, e):
        return self.reshape(args[0], [("auto",)], e) if args and isinstance(args[0], Arr) else U

    def _red(self, name, args, kw, e):
        if not args or not isinstance(args[0], Arr):
            return U
        ax = args[1] if len(args) > 1 and name != "average" else kw.get("axis")
        if name == "average" and len(args) > 1:
            ax = args[1]
        return self.reduce(args[0], ax, name, e, "keepdims" in kw)

    def np_sum(self, args, kw, e):
        return self._red("sum", args, kw, e)

    def np_average(self, args, kw, e):
        return self._red("average", args, kw, e)

    def np_mean(self, args, kw, e):
        return self._red("mean", args, kw, e)

    def np_max(self, args, kw, e):
        return self._red("max", args, kw, e)

    def np_min(self, args, kw, e):
        return self._red("min", args, kw, e)

    def np_std(self, args, kw, e):
        return self._red("std", args, kw, e)

    def np_argmax(self, args, kw, e):
        return self._red("argmax", args, kw, e)

    def np_argmin(self, args, kw, e):
        return self._red("argmin", args, kw, e)

    def np_prod(self, args, kw, e):
        a = args[0] if args else U
        if isinstance(a, Shp):
            return Num(T.fn_of(a.b) if a.fund else T.n_of(a.b), NO_CHARGE, "i")
        if isinstance(a, Tup) and a.items and all(isinstance(x, Num) for x in a.items):
            return Num(T.prod(x.size for x in a.items), NO_CHARGE, "i")
        if isinstance(a, Arr):
            return self.reduce(a, kw.get("axis"), "prod", e)
        return Num(None)

    def np_linalg_norm(self, args, kw, e):
        if not args or not isinstance(args[0], Arr):
            return Num(None, NO_CHARGE, "f")
        return self.reduce(args[0], kw.get("axis"), "norm", e)

    def np_size(self, args, kw, e):
        a = args[0] if args else U
        return self.arr_attr(a, "size", e) if isinstance(a, Arr) else Num(None)

    def np_diag(self, args, kw, e):
        a = args[0] if args else U
        if not isinstance(a, Arr) or a.axes is None or a.has_star or len(args) > 1 or kw:
            return Arr(None, getattr(a, "ch", None), getattr(a, "dt", None))
        if len(a.axes) == 1:
            ax = a.axes[0]
            if ax.leaves is None:
                return Arr((UNKNOWN_AXIS, UNKNOWN_AXIS), a.ch, a.dt)
            left, right = [], []
            for l in ax.leaves:
                if l.label[0] == "diag":
                    left.append(Leaf(l.label[1], 1))
                    right.append(Leaf(l.label[2], -1))
                else:
                    left.append(Leaf(l.label, None))
                    right.append(Leaf(l.label, None))
            return Arr((Axis(tuple(left)), Axis(tuple(right))), a.ch, a.dt)
        if len(a.axes) == 2:
            return Arr((self.diagonal(a.axes[0], a.axes[1]),), a.ch, a.dt)
        return Arr(None, a.ch, a.dt)

    def np_eye(self, args, kw, e):
        d = [x.size if isinstance(x, Num) else None for x in args[:2]]
        if len(d) == 1:
            d = d * 2
        dt = self.dtype_of(args[2:], {k: v for k, v in kw.items() if k == "dtype"}, "f")
        return Arr(tuple(Axis((Leaf(("sz", s), 0),)) if s is not None else UNKNOWN_AXIS for s in d), NO_CHARGE, dt)

    def np_identity(self, args, kw, e):
        return self.np_eye(args[:1], kw, e)

    def _alloc(self, args, kw, e):
        shape = args[0] if args else kw.get("shape")
        dt = self.dtype_of(args[1:], {k: v for k, v in kw.items() if k == "dtype"}, "f" if "dtype" not in kw and len(args) < 2 else None)
        d = self.dims([shape]) if isinstance(shape, (Num, Tup, Shp)) else None
        if d is None:
            return Arr(None, NO_CHARGE, dt, frozenset({"buffer"}))
        if any(x[0] == "many" for x in d):
            return Arr(None, NO_CHARGE, dt)
        axes = []
        for x in d:
            if x[0] == "star":
                axes.append(Star(x[1] if not x[2] else T.app("f", x[1]), None))
            elif x[0] == "sz" and x[1] is not None:
                axes.append(Axis((Leaf(("sz", x[1]), None),)))
            else:
                axes.append(UNKNOWN_AXIS)
        return Arr(tuple(axes), NO_CHARGE, dt, frozenset({"buffer"}))

    np_zeros = np_ones = np_empty = _alloc

    def np_full(self, args, kw, e):
        v = args[1] if len(args) > 1 else kw.get("fill_value", U)
        out = self._alloc(args[:1], kw, e)
        if isinstance(v, (Num, Arr)):
            self.keep_complex(v.dt, self.dtype_of(args[2:], {"dtype": kw["dtype"]} if "dtype" in kw else {}), e, "filled into an array of real numbers")
        return Arr(out.axes, NO_CHARGE if isinstance(v, Num) and v.ch == NO_CHARGE else None, self.dtype_of([], kw, getattr(v, "dt", None)))

    def np_broadcast_to(self, args, kw, e):
        """The values repeated to a shape: it must be the shape of the values where those are not repeated."""
        a = args[0] if args else U
        shape = args[1:2] or [kw[k] for k in ("shape",) if k in kw]
        out = self._alloc(shape, {}, e)
        ch, dt = (a.ch, a.dt) if isinstance(a, (Arr, Num)) else (None, None)
        axes = out.axes
        if isinstance(a, Arr) and a.axes is not None and axes is not None and not a.has_star and not out.has_star and len(a.axes) <= len(axes):
            k = len(axes) - len(a.axes)
            axes = (*axes[:k], *(y if x.leaves == () or x.leaves is None else x for x, y in zip(a.axes, axes[k:])))
        return Arr(axes, ch, dt)

    def _alloc_like(self, args, kw, e):
        a = args[0] if args else U
        dt = self.dtype_of(args[1:], {k: v for k, v in kw.items() if k == "dtype"}, None)
        if isinstance(a, Arr):
            return Arr(T.revar(a, lambda v: None), NO_CHARGE, dt or a.dt, frozenset({"buffer"}))
        return Arr(None, NO_CHARGE, dt)

    np_zeros_like = np_ones_like = np_empty_like = _alloc_like

    def np_array(self, args, kw, e):
        a = args[0] if args else U
        dt = self.dtype_of(args[1:], {k: v for k, v in kw.items() if k == "dtype"}, None)
        out = self.stack(a)
        self.keep_complex(out.dt, dt, e, "converted to real numbers")
        return Arr(out.axes, out.ch, narrowed(out.dt, dt) or out.dt, out.flags)

    np_asarray = np_array

    def stack(self, a) -> Arr:
        if isinstance(a, Arr):
            return a
        if isinstance(a, Nested):
            return a.a
        if isinstance(a, Num):
            return Arr((), a.ch, a.dt)
        if isinstance(a, ListOf):
            n = Axis((Leaf(("list", a.n), 0),)) if a.n is not None else UNKNOWN_AXIS
            if a.n is not None:
                n = Axis((Leaf(("sz", a.n), 0),))
            if isinstance(a.elem, Num):
                return Arr((n,), a.elem.ch, a.elem.dt)
            if isinstance(a.elem, (Arr, ListOf, Tup)):
                inner = self.stack(a.elem)
                return Arr((n, *inner.axes) if inner.axes is not None else None, inner.ch, inner.dt)
            return Arr(None, None, None)
        if isinstance(a, Tup) and a.items and not any(isinstance(x, Splat) for x in a.items):
            parts = [self.stack(x) for x in a.items]
            j = self.join_arr(parts)
            n = Axis((Leaf(("sz", T.size_int(len(parts))), 0),))
            return Arr((n, *j.axes) if j.axes is not None else None, j.ch, T.join_dt(*[x.dt for x in parts]))
        return Arr(None, None, None)

    def np_stack(self, args, kw, e):
        if len(args) == 1 and not kw:
            return self.stack(args[0])
        return Arr(None, None, None)

    def np_linspace(self, args, kw, e):
        n = args[2] if len(args) > 2 else kw.get("num")
        if isinstance(n, Num) and n.size is not None:
            return Arr((Axis((Leaf(("sz", n.size), 0),)),), NO_CHARGE, "f")
        return Arr((UNKNOWN_AXIS,), NO_CHARGE, "f")

    def np_arange(self, args, kw, e):
        pos = [x for x in args if isinstance(x, Num)]
        size = None
        if len(args) == 1 and pos:
            size = pos[0].size
        elif len(args) == 2 and len(pos) == 2 and pos[0].key == ("int", 0):
            size = pos[1].size
        return Arr((Axis((Leaf(("sz", size), 0),)) if size is not None else UNKNOWN_AXIS,), NO_CHARGE, None)

    def np_roll(self, args, kw, e):
        return args[0] if args and isinstance(args[0], Arr) else U

    def np_flip(self, args, kw, e):
        return U

    def np_sort(self, args, kw, e):
        a = args[0] if args else U
        if isinstance(a, Arr) and a.axes is not None and len(a.axes) == 1 and isinstance(a.axes[0], Axis) and a.axes[0].leaves and len(a.axes[0].leaves) == 1:
            x = a.axes[0].leaves[0]
            return Arr((Axis((Leaf(("perm", x.label, ("perm", ast.unparse(e))), x.var),)),), NO_CHARGE, a.dt)
        return Arr(None, None, a.dt if isinstance(a, Arr) else None)

    def np_argsort(self, args, kw, e):
        a = args[0] if args else U
        if isinstance(a, Arr) and a.axes is not None and len(a.axes) == 1:
            return Arr(a.axes, NO_CHARGE, "i", frozenset({("perm", ast.unparse(e))}))
        return Arr(None, NO_CHARGE, "i")

    def np_linalg_inv(self, args, kw, e):
        a = args[0] if args else U
        if not isinstance(a, Arr) or a.axes is None or len(a.axes) != 2 or a.has_star:
            return Arr(None, None, getattr(a, "dt", None))
        ax = tuple(reversed(a.axes))
        return Arr(T.revar(Arr(ax), lambda v: None if v is None else -v), T.scale_charge(a.ch, -1), a.dt)

    def eig(self, a, hermitian: bool, subset: bool = False):
        n = T.fresh("u")
        size = T.atom(("num", n))
        if not subset and isinstance(a, Arr) and a.axes is not None and len(a.axes) == 2 and not a.has_star and a.axes[0].size is not None:
            size = a.axes[0].size
        lab = ("eig", n, size)
        if isinstance(a, Arr) and a.axes is not None and len(a.axes) == 2 and not a.has_star and a.axes[0].leaves is not None:
            vecs = Arr((Axis(tuple(Leaf(x.label, x.var) for x in a.axes[0].leaves)), Axis((Leaf(lab, 0),))), frozenset({(f"eigenvectors{n[1]}", 1)}), "c" if a.dt == "c" or not hermitian else a.dt)
        else:
            vecs = Arr((UNKNOWN_AXIS, Axis((Leaf(lab, 0),))), None, None)
        vals = Arr((Axis((Leaf(lab, 0),)),), NO_CHARGE, "f" if hermitian else "c")
        return vals, vecs

    def np_linalg_eigh(self, args, kw, e):
        vals, vecs = self.eig(args[0] if args else U, True)
        return EigResult(vals, vecs)

    def np_linalg_eig(self, args, kw, e):
        vals, vecs = self.eig(args[0] if args else U, False)
        return EigResult(vals, vecs)

    def np_linalg_eigvals(self, args, kw, e):
        return self.eig(args[0] if args else U, False)[0]

    def np_linalg_eigvalsh(self, args, kw, e):
        return self.eig(args[0] if args else U, True)[0]

    def sp_linalg_eigh(self, args, kw, e):
        if "eigvals_only" in kw:
            return U
        sub = [k for k in ("subset_by_index", "subset_by_value", "eigvals") if k in kw and not (isinstance(kw[k], C) and kw[k].v is None)]
        vals, vecs = self.eig(args[0] if args else U, True, bool(sub))
        return EigResult(vals, vecs)

    sp_linalg_eig = sp_linalg_eigh

    def _svd(self, args, kw, e):
        a = args[0] if args else U
        lab = ("sz", T.atom(("num", T.fresh("u"))))
        s = Arr((Axis((Leaf(lab, 0),)),), NO_CHARGE, "f")
        if isinstance(a, Arr) and a.axes is not None and len(a.axes) == 2 and not a.has_star:
            u = Arr((a.axes[0], Axis((Leaf(lab, 0),))), None, a.dt)
            v = Arr((Axis((Leaf(lab, 0),)), a.axes[1]), None, a.dt)
            return Tup((u, s, v))
        return Tup((U, s, U))

    np_linalg_svd = sp_linalg_svd = _svd

    def np_where(self, args, kw, e):
        if len(args) == 3:
            x, y = args[1], args[2]
            return self.elementwise(ast.Add(), x, y, e) if isinstance(x, Arr) and isinstance(y, (Arr, Num)) else U
        return U

    def np_meshgrid(self, args, kw, e):
        return U

    def _fft(self, args, kw, e):
        a = args[0] if args else U
        if isinstance(a, Arr):
            return Arr(tuple(UNKNOWN_AXIS for _ in a.axes) if a.axes is not None and not a.has_star else None, a.ch, "c")
        return Arr(None, None, "c")

    def _half(self, args, kw, e):
        """The half spectrum of real points: complex, but the points it stands for are real."""
        a = self._fft(args, kw, e)
        return Arr(a.axes, a.ch, None)

    def _unhalf(self, args, kw, e):
        """The real points of a half spectrum; of a full spectrum they are only part of the points."""
        a = args[0] if args else U
        return Arr(None, None, "r" if isinstance(a, Arr) and a.dt in ("c", "p") else None)

    np_fft_fft = np_fft_ifft = np_fft_fftn = np_fft_ifftn = np_fft_fft2 = np_fft_ifft2 = _fft
    sp_fft_fft = sp_fft_ifft = sp_fft_fftn = sp_fft_ifftn = sp_fft_fft2 = sp_fft_ifft2 = _fft
    np_fft_rfft = np_fft_rfftn = np_fft_rfft2 = sp_fft_rfft = sp_fft_rfftn = sp_fft_rfft2 = _half
    np_fft_irfft = np_fft_irfftn = np_fft_irfft2 = sp_fft_irfft = sp_fft_irfftn = sp_fft_irfft2 = _unhalf

    def np_fft_fftshift(self, args, kw, e):
        a = args[0] if args else U
        return a if isinstance(a, Arr) else U

    np_fft_ifftshift = np_fft_fftshift

    # ------------------------------------------------------------ results
    def check_return(self, v, s: ast.Return) -> None:
        f = self.frame.func
        self.ann.classes = {}
        a = self.ann.parse(f.module, f.node.returns, {}, "return")
        top = self.frame.top
        if a.kind == "any" and isinstance(v, Rec) and f.overloads:
            declared = [self.ann.parse(g.module, g.node.returns, {}, "return") for g in f.overloads]
            if all(x.kind == "rec" for x in declared):
                self.check_complete(v, A("union", None, tuple(declared)), s.value, "the result")
        self.check_value(v, a, s.value, top)
        if top:
            self.check_space(v, a.obj if a.kind == "opt" else a, s.value, "the result")
            if a.kind == "basis" and isinstance(v, BV):
                self.check_classes(v.t, [a.obj], self.ann.classes, s.value, "the result")
            self.check_named_space(v, f, s.value)

    def check_value(self, v, a: A, node, top: bool) -> None:
        if a.kind == "opt":
            a = a.obj
        if isinstance(v, Rec):
            self.check_complete(v, a, node, "the result")
        if a.kind == "rec" and isinstance(v, Rec):
            self.check_record(v, a, node)
        elif a.kind == "list" and isinstance(v, ListOf):
            self.check_value(v.elem, a.obj, node, top)
        elif a.kind == "list" and isinstance(v, Tup):
            for x in v.items:
                self.check_value(x, a.obj, node, top)
        elif a.kind == "tuple" and isinstance(v, Tup) and len(a.args) == len(v.items):
            for x, y in zip(v.items, a.args):
                self.check_value(x, y, node, top)
        elif isinstance(v, Rec) and a.kind in ("any", "union") and isinstance(v.get("basis"), BV):
            self.check_record(v, None, node)
            if top and a.kind == "union" and all(x.kind == "rec" for x in a.args):
                ds = [d for x in a.args for d in [self.basis_of_annotation(x, "return")] if d is not None]
                if len(ds) == len(a.args):
                    self.check_classes(v.get("basis").t, ds, self.ann.classes, node, "the result")
        elif a.kind == "arr" and a.obj == "c" and isinstance(v, Arr):
            if v.dt in ("r", "m"):
                self.report("real-part", node, "the result is declared complex but is only the real (or imaginary) part of complex values")
            elif v.dt == "c":
                self.stat("record kinds decided", node)

    def check_complete(self, r: Rec, a: A, node, what: str) -> None:
        """Every field the declared record type requires is there, and (for a new record) nothing else."""
        if a.kind == "opt":
            a = a.obj
        options = a.args if a.kind == "union" else (a,)
        if not options or any(x.kind != "rec" for x in options):
            return
        have = {k for k, _ in r.fields}
        problems = []
        for x in options:
            fields = self.ann.fields(x.obj)
            missing = [k for k, need in fields.items() if need and k not in have]
            extra = sorted(have - set(fields)) if r.cls is None else []
            if not missing and not extra:
                self.stat("records complete", node)
                return
            problems.append((x.obj, missing, extra))
        c, missing, extra = min(problems, key=lambda p: len(p[1]) + len(p[2]))
        if missing:
            self.report("incomplete", node, f"{what} lacks {', '.join(repr(k) for k in missing)}, which {c.name} declares")
        if extra:
            self.report("undeclared", node, f"{what} has {', '.join(repr(k) for k in extra)}, which {c.name} does not declare")

    def check_space(self, v, a: A, node, what: str) -> None:
        """A basis (or a record over one) declared to be in position (momentum) space is."""
        b = v.t if isinstance(v, BV) else v.get("basis").t if isinstance(v, Rec) and isinstance(v.get("basis"), BV) else None
        d = a.obj if a.kind == "basis" else self.basis_of_annotation(a, "declared") if a.kind == "rec" else None
        if b is None or d is None:
            return
        if T.space_conflict(b, d) or (what == "the result" and unconverted(b, d)):
            self.report("representation", node, f"{what} is in {T.show(b)}, where {'momentum' if 'k' in spaces(d) else 'position'} space is declared")
        elif T.space_of(b) is not None and T.space_of(d) is not None:
            self.stat("representations decided", node)

    def check_classes(self, b: tuple, ds: list, declared: dict, node, what: str) -> None:
        """Each factor of a basis is of the class declared in its place (by at least one of the alternatives)."""
        wrong = [self.class_conflict(b, d, declared) for d in ds]
        if wrong and all(wrong):
            self.report("declared-class", node, f"{what} has {wrong[0]} is declared")
        elif ds:
            self.stat("classes decided", node)

    def class_conflict(self, b: tuple, d: tuple, declared: dict) -> str | None:
        if b[0] == d[0] == "tup":
            if len(b[1]) == len(d[1]) and not any(x[0] == "splat" for x in (*b[1], *d[1])):
                return next((w for w in (self.class_conflict(x, y, declared) for x, y in zip(b[1], d[1])) if w), None)
            return None
        want = declared.get(d[:2])
        if want is None or b == d:
            return None
        if b[0] in ("fund", "cons"):
            have = next((c for c in self.p.classes if c.name == b[1]), None)
            wrong = have is not None and not self.p.is_subclass(have, want) and not self.related(have, want)
        elif b[0] == "tup":
            wrong = not any(c.name == "TupleBasis" for c in self.subclasses(want))
        else:
            have = self.known_classes.get(b[:2])
            wrong = have is not None and not any(self.p.is_subclass(c, have) for c in self.subclasses(want)) and not self.related(have, want)
        return f"{T.show(b)} where {want.name}" if wrong else None

    def related(self, c: Class, d: Class) -> bool:
        """Whether two classes are of one kind beyond both being a basis."""
        return any(x.name not in GENERIC + CONVERTIBLE and x in self.p.mro(d) for x in self.p.mro(c))

    def subclasses(self, c: Class) -> list[Class]:
        return [x for x in self.p.classes if self.p.is_subclass(x, c)]

    def check_named_space(self, v, f: Func, node) -> None:
        """A conversion named for a representation returns data in it."""
        m = re.fullmatch(r"(?:get_|convert_|as_)?.*_(?:to|in)_(?:fundamental_)?(position|momentum|transformed)_basis", f.name)
        if m is None:
            return
        want = "x" if m.group(1) == "position" else "k"
        for r in v.items if isinstance(v, Tup) else (v,):
            b = r.get("basis") if isinstance(r, Rec) else r
            if not isinstance(b, BV):
                continue
            have = spaces(b.t)
            if want in have and len(have - {None}) == 1:
                self.stat("representations decided", node)
            elif (have - {None}) or all(x[0] in ("tv", "comp", "par") for x in T.flatten(b.t)):
                self.report("representation", node, f"{f.name} returns data in {T.show(b.t)}")

    def check_argument(self, f: Func, p, v, node) -> None:
        """Record types of one shape are interchangeable for the type checker (full for diagonal data, states for duals)."""
        self.ann.classes = {}
        a = self.ann.param(f, p.name)
        if a.kind == "opt":
            a = a.obj
        self.check_space(v, a, node, f"'{p.name}' of {f.name}")
        b = v.t if isinstance(v, BV) else v.get("basis").t if isinstance(v, Rec) and isinstance(v.get("basis"), BV) else None
        d = a.obj if a.kind == "basis" else self.basis_of_annotation(a, p.name) if a.kind == "rec" else None
        if b is not None and d is not None:
            self.check_classes(b, [d], self.ann.classes, node, f"'{p.name}' of {f.name}")
        if isinstance(v, Rec):
            self.check_complete(v, a, node, f"the record passed to {f.name} as '{p.name}'")
        if a.kind != "rec" or not isinstance(v, Rec):
            return
        basis, data = v.get("basis"), v.get("data")
        role = ROLES.get(self.role_class(a.obj))
        if role is None or not isinstance(basis, BV) or not isinstance(data, Arr) or data.leaves is None:
            return
        got, want = data.leaves, self.role_leaves(role, basis.t)
        res = self.ctx.cmp_lists([x.label for x in got], [x.label for x in want])
        if v.cls is None:
            self.check_extras(v, a.obj, node)
        if res == NE:
            pair = (tuple(x.label for x in got), tuple(x.label for x in want))
            if pair not in self.reported:
                self.reported.add(pair)
                self.report("layout", node, f"data over {self.show_list([x.label for x in got]) if got else 'nothing'} is passed to {f.name}, which expects data over {self.show_list([x.label for x in want]) if want else 'nothing'}")
        elif res == EQ:
            self.stat("arguments decided", node)
        if res != NE and len(got) == len(want) == 1:
            self.check_points(got[0].label, want[0].label, node, "stored as data")
        if len(got) == len(want):
            for x, y in zip(got, want):
                if x.var and y.var and x.var == -y.var:
                    self.report("bra-ket", node, f"the index over {T.show(x.label)} is a {'ket' if x.var > 0 else 'bra'} but {f.name} expects a {'ket' if y.var > 0 else 'bra'} there")

    def check_record(self, r: Rec, a: A | None, node) -> None:
        basis = r.get("basis")
        data = r.get("data")
        c = a.obj if a is not None else r.cls
        if isinstance(basis, BV) and isinstance(data, Arr):
            role_c = self.role_class(c)
            role = ROLES.get(role_c, "N")
            self.union_diag(role, basis.t)
            want = self.role_leaves(role, basis.t)
            got = data.leaves
            if got is not None:
                res = self.ctx.cmp_lists([x.label for x in got], [x.label for x in want])
                if not any(k not in ("basis", "data") for k, _ in r.fields):
                    self.check_order([x.label for x in got], [x.label for x in want], node, "stored as the data of a record")
                pair = (tuple(x.label for x in got), tuple(x.label for x in want))
                if res == NE and pair not in self.reported:
                    self.reported.add(pair)
                    self.report("layout", node, f"the data runs over {self.show_list([x.label for x in got]) if got else 'nothing'} but is tagged with {self.show_list([x.label for x in want]) if want else 'an empty basis'}")
                elif res == EQ:
                    self.stat("results decided", node)
                if res != NE and len(got) == len(want) == 1:
                    self.check_points(got[0].label, want[0].label, node, "stored as data")
                if len(got) == len(want):
                    for x, y in zip(got, want):
                        if x.var and y.var and x.var == -y.var:
                            self.report("bra-ket", node, f"the index over {T.show(x.label)} is a {'ket' if x.var > 0 else 'bra'} but the result declares a {'ket' if y.var > 0 else 'bra'} there")
            self.check_charge(c, data, node)
        if a is not None and isinstance(basis, BV) and self.frame.top:
            declared = self.basis_of_annotation(a, "return")
            if declared is not None:
                self.check_classes(basis.t, [declared], self.ann.classes, node, "the result")
            if declared is not None and (declared[0] in ("tup", "tv") or T.representation(declared) is not None):
                if self.ctx.cmp(basis.t, declared) == NE:
                    self.report("declared", node, f"the result is tagged with {T.show(basis.t)} but declared to be in {T.show(declared)}")
        self.check_extras(r, c, node)
        self.check_kinds(r, c, node)
        self.check_flat(r, node)

    def check_flat(self, r: Rec, node) -> None:
        """The fields of a record hold flat arrays, as declared."""
        for k, x in r.fields:
            if k == "basis" or not isinstance(x, Arr) or x.axes is None:
                continue
            if len(x.axes) == 1 and not isinstance(x.axes[0], Star):
                self.stat("flat fields decided", node)
            elif len(x.axes) > 1 and sum(not isinstance(y, Star) for y in x.axes) > 1:
                self.report("flat", node, f"'{k}' of the record is an array of {len(x.axes)} axes, where a flat array is declared")

    def check_kinds(self, r: Rec, c, node) -> None:
        """The data of a record of complex amplitudes is not the real part of such amplitudes."""
        declared = self.ann.record_field(c, (), "data", "result") if c is not None and "data" in self.ann.fields(c) else None
        data = r.get("data")
        if declared is not None and declared.kind == "arr" and declared.obj == "f" and isinstance(data, Arr):
            if data.dt == "c":
                self.report("real-part", node, "the data of the result is declared real but holds complex values")
            elif data.dt is not None:
                self.stat("record kinds decided", node)
        amplitudes = self.role_class(c) is not None or any(x.name in ("Overlap", "SingleOverlap", "IsotropicNoiseKernel") for x in (self.p.mro(c) if c is not None else ()))
        if not amplitudes and not any(x.name == "Potential" for x in (self.p.mro(c) if c is not None else ())):
            return
        if declared is not None and declared.kind == "arr" and declared.obj == "c" and isinstance(data, Arr):
            if data.dt == "r" or (data.dt == "m" and amplitudes):
                self.report("real-part", node, "the complex data of the result is only the real (or imaginary) part of complex values")
            elif data.dt is not None:
                self.stat("record kinds decided", node)

    def check_extras(self, r: Rec, c, node) -> None:
        """Further fields run over the list the record is tagged with, in the order of its data."""
        basis, data = r.get("basis"), r.get("data")
        for k, x in r.fields:
            if k not in ("basis", "data"):
                m = misaligned(x, data)
                if m is not None:
                    self.report("aligned", node, f"'{k}' and 'data' of one record are {m}")
        if isinstance(basis, BV):
            for k, x in r.fields:
                if k in ("basis", "data"):
                    continue
                b = self.extra_basis(c, k, basis.t)
                if b is False or b is None or not isinstance(x, Arr):
                    continue
                got = x.leaves
                if got is None:
                    continue
                res = self.ctx.cmp_lists([l.label for l in got], T.flatten(b))
                if not isinstance(data, Arr) or data.leaves is None or all(selection([l.label])[0] != selection([m.label])[0] for l in got for m in data.leaves):
                    self.check_order([l.label for l in got], T.flatten(b), node, f"stored as '{k}' of a record")
                if res == NE:
                    self.report("layout", node, f"'{k}' runs over {self.show_list([l.label for l in got])} but belongs to {T.show(b)}")
                elif res == EQ:
                    self.stat("results decided", node)
                if isinstance(data, Arr) and data.leaves:
                    self.check_aligned(k, got, data.leaves, node)

    def check_aligned(self, k, got, leaves, node) -> None:
        """Selections and permutations of the list index must be the same for every field."""

        def chain(labels):
            out = []
            for l in labels:
                x = l.label
                while x[0] in ("perm", "slice"):
                    out.append((x[0], x[2]))
                    x = x[1]
            return tuple(out)

        g, d = chain(got), chain(leaves[: len(got)])
        if g == d:
            self.stat("field orders decided", node)
        if g != d and all(x[0] in ("perm", "slice") for x in (*g, *d)):
            strip = [x.label for x in got]
            self.report("aligned", node, f"'{k}' and 'data' of one record are selected or ordered differently ({[x[1] for x in g]} against {[x[1] for x in d]})")
            del strip

    def check_charge(self, c, data: Arr, node) -> None:
        if c is None or data.ch is None or not data.ch or not self.frame.top:
            return
        want = self.charge_class(c)
        if want is None:
            power = sum(v for _, v in data.ch)
            if abs(power) == 2 and all(abs(v) <= 2 for _, v in data.ch) and not any(k.startswith("eigenvectors") for k, _ in data.ch):
                self.stat("phases decided", node)
                self.report("phase", node, f"two states are combined into a {c.name} without conjugating one of them")
            returns = self.frame.func.node.returns
            inner = returns is not None and any(isinstance(x, ast.Name) and x.id in ("Overlap", "SingleOverlap") for x in ast.walk(returns))
            ch = dict(data.ch)
            states = [p.name for p in self.frame.func.params if p.name in ch]
            if power == 0 and inner and len(states) == 2 and sorted(ch.values()) == [-1, 1]:
                self.stat("phases decided", node)
                if ch[states[0]] != -1:
                    self.report("phase", node, f"the overlap is linear in `{states[0]}` and antilinear in `{states[1]}`")
            return
        net = sum(v for _, v in data.ch)
        if "NoiseOperatorList" in c.name:
            # the phase of an eigenvector of the kernel is arbitrary
            net = sum(v for k, v in data.ch if not k.startswith("eigenvectors"))
            if not any(not k.startswith("eigenvectors") for k, _ in data.ch):
                return
        self.stat("phases decided", node)
        if want > 0 and net > 0 and all(v > 0 for _, v in data.ch):
            return  # linear in every state, e.g. a superposition with the coefficients of another
        if net != want:
            self.report("phase", node, f"a global phase of the input state appears to the power {net} in the result, where {want} is required of {c.name}")


def spaces(b: tuple) -> set:
    """The representations of the factors of a basis."""
    return {T.representation(x) for x in T.flatten(b)}


def owned(b: tuple) -> bool:
    """Whether a basis is (part of) one the caller passes in."""
    r = T.root(b) or ("?",)
    return r[0] == "tv" or (r[0] == "par" and not str(r[1]).startswith(("?", "return")))


def unconverted(b: tuple, d: tuple) -> bool:
    """Whether some factor declared in position (momentum) space is still a basis the caller passed in, in any space."""
    if b[0] == d[0] == "tup" and len(b[1]) == len(d[1]) and not any(x[0] == "splat" for x in (*b[1], *d[1])):
        return any(unconverted(x, y) for x, y in zip(b[1], d[1]))
    return T.space_of(d) is not None and all(x[0] in ("tv", "comp", "par") and T.representation(x) is None and owned(x) for x in T.flatten(b))


def spatial(b: tuple) -> Axis:
    """An axis with one entry per dimension of the volume."""
    return Axis((Leaf(("sz", T.atom(("ndim", b))), 0),))


def in_space(*spaces: str) -> frozenset:
    return frozenset(("space", x) for x in spaces)


def drawn_in(v) -> set:
    """The representations of the points an array runs over."""
    if not isinstance(v, Arr):
        return set()
    out = {f[1] for f in v.flags if isinstance(f, tuple) and f[0] == "space"}
    for a in v.axes or ():
        for label in (a.label,) if isinstance(a, Star) else [x.label for x in a.leaves or ()]:
            rep = T.representation(label)
            if rep is not None:
                out.add(rep)
    return out


def ident(v: Num):
    """What identifies the item an index selects (None: unknown)."""
    if v.key is not None and v.key[0] == "int":
        return v.key
    return v.size


def marks_of(v) -> frozenset:
    """Which items of which lists the value was taken from."""
    if isinstance(v, Arr):
        return frozenset(f for f in v.flags if isinstance(f, tuple) and f[0] == "at")
    if isinstance(v, Num) and v.key is not None and v.key[0] == "marks":
        return v.key[1]
    return frozenset()


def with_marks(v, marks):
    if not marks:
        return v
    if isinstance(v, Arr):
        return Arr(v.axes, v.ch, v.dt, v.flags | frozenset(marks))
    if isinstance(v, Num) and v.key is None:
        return Num(v.size, v.ch, v.dt, ("marks", frozenset(marks)))
    return v


def selection(labels) -> tuple:
    """(root label, selections and permutations applied) of the list an item was taken from."""
    chain = []
    root = []
    for x in labels:
        while x[0] in ("perm", "slice") or (x[0] == "diag" and len(x) == 3 and x[1] == x[2]):
            if x[0] != "diag":
                chain.append((x[0], x[2]))
            x = x[1]
        root.append(x)
    return tuple(root), tuple(chain)


def reordering(k: tuple) -> bool:
    """Whether a step of a selection puts the whole list in another order."""
    kind, key = k
    if kind == "slice":
        return key == "::-1"
    return key[0] == "perm" and len(key) == 2 and (isinstance(key[1], str) or key[1][1] == "::-1")


def narrowed(source: str | None, target: str | None) -> str | None:
    """The kind after an explicit cast: values of unknown kind forced to be real may have lost an imaginary part."""
    return "r" if target == "f" and source in (None, "r") else target


def misaligned(a, b) -> str | None:
    """Whether two values were taken from different items of one list."""
    for x in marks_of(a):
        for y in marks_of(b):
            (rx, cx), (ry, cy) = selection(x[1]), selection(y[1])
            if rx != ry or x[2] is None or y[2] is None:
                continue
            if x[2] == y[2] and cx != cy and all(isinstance(k, str) or k[0] == "perm" for _, k in (*cx, *cy)):
                return "items of differently ordered lists"
            if cx == cy and x[2] != y[2] and ("each",) not in (x[2], y[2]):
                return "different items"
    return None


class EigResult(Tup):
    """(eigenvalues, eigenvectors), also by attribute."""

    def __init__(self, vals, vecs) -> None:
        Tup.__init__(self, (vals, vecs))


ELEMENTWISE = {
    "conj", "conjugate", "abs", "absolute", "real", "imag", "real_if_close", "angle", "square", "sqrt", "exp", "log", "log10", "sin", "cos", "tan",
    "sinh", "cosh", "tanh", "arcsin", "arccos", "arctan", "negative", "positive", "floor", "ceil", "rint", "round", "sign", "copy",
    "ascontiguousarray", "nan_to_num", "unwrap", "reciprocal", "cbrt", "sinc", "expm1", "log1p",
}


class _EnvKey:
    """The variables a nested function sees (compared by identity)."""

    def __init__(self, env: dict) -> None:
        self.env = env


def _as_load(t: ast.expr) -> ast.expr:
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(t.value, t.slice, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    return t
