"""Numbers of axes: every array expression with bounds on how many axes it has, per function from its annotations."""

from __future__ import annotations

import ast

from .annot import Annotations
from .model import Class, Ext, Func, Project

# fields of the records, all declared as arrays of one axis
FIELDS = ("data", "eigenvalue", "standard_deviation")
TWO_FACTORS = ("StateVectorList", "Operator", "OperatorList", "DiagonalOperator", "DiagonalOperatorList", "NoiseKernel", "DiagonalNoiseKernel", "ValueList", "ProbabilityVectorList")

SAME = {
    "exp", "abs", "absolute", "conj", "conjugate", "real", "imag", "sqrt", "square", "angle", "sin", "cos", "tan", "sinh", "cosh", "tanh", "log", "log10", "sign",
    "rint", "floor", "ceil", "round", "nan_to_num", "real_if_close", "zeros_like", "ones_like", "empty_like", "full_like", "ascontiguousarray", "fftshift", "ifftshift",
    "fft", "ifft", "fftn", "ifftn", "fft2", "ifft2", "rfft", "irfft", "flip", "roll", "sort", "transpose", "swapaxes", "moveaxis", "rollaxis", "pad", "copy", "clip",
    "negative", "reciprocal", "logical_not", "isclose", "mod", "argsort", "shift", "erf", "tril", "triu", "inv", "astype", "byteswap", "repeat_axis",
}
PAIR = {"add", "subtract", "multiply", "divide", "true_divide", "power", "maximum", "minimum", "arctan2", "fmod", "remainder", "floor_divide", "logical_and", "logical_or", "less", "greater", "equal"}
REDUCE = {"sum", "prod", "mean", "average", "max", "min", "amax", "amin", "argmax", "argmin", "any", "all", "std", "var", "median", "nansum", "nanmean", "ptp", "count_nonzero", "norm"}
ONE = {"ravel", "flatten", "arange", "linspace", "logspace", "fftfreq", "rfftfreq", "diagonal_of_matrix", "flatnonzero"}


class R:
    """Between lo and hi axes; hi None is unbounded. Any is set where there is an axis per factor of an arbitrary product basis."""

    __slots__ = ("any", "hi", "lo")

    def __init__(self, lo: int, hi: int | None, any_: bool = False) -> None:
        self.lo, self.hi = max(lo, 0), hi
        self.any = any_ and hi is None

    def __eq__(self, o: object) -> bool:
        return isinstance(o, R) and (self.lo, self.hi, self.any) == (o.lo, o.hi, o.any)

    def __hash__(self) -> int:
        return hash((self.lo, self.hi, self.any))

    @property
    def exact(self) -> int | None:
        return self.lo if self.lo == self.hi else None


def up(a: R, k: int) -> R:
    return R(a.lo + k, None if a.hi is None else max(a.hi + k, 0), a.any)


def broadcast(a: R, b: R) -> R:
    return R(max(a.lo, b.lo), None if a.hi is None or b.hi is None else max(a.hi, b.hi), a.any or b.any)


UNKNOWN = ("par", "?", True)


def component(b, i: int):
    if b is not None and b[0] == "tup" and not any(x[0] == "splat" for x in b[1][: i + 1]) and 0 <= i < len(b[1]):
        return b[1][i]
    return None if b is None else UNKNOWN if b[0] == "tup" or (b[0] == "par" and b[2]) else ("comp", b, i)


def axes_of(b) -> R:
    """One axis per factor."""
    if b is None or (b[0] == "par" and b[2]):
        return R(1, None)
    if b[0] == "tup":
        n = sum(x[0] != "splat" for x in b[1])
        return R(n, n) if n == len(b[1]) else R(n, None, True)
    return R(1, None, True)


class Ranks:
    def __init__(self, project: Project) -> None:
        self.p = project
        self.ann = Annotations(project)
        self.found: list[tuple[str, Func, ast.AST, str]] = []
        self.decided = 0
        self.operations = 0
        self._memo: dict[tuple, object] = {}
        self._stack: list[Func] = []

    # ------------------------------------------------------------ annotations
    def declared(self, m, e: ast.expr | None):
        """R, ('tv', name) or None for an annotation."""
        if e is None:
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(e, (ast.Name, ast.Attribute)):
            name = e.id if isinstance(e, ast.Name) else e.attr
            return R(0, 0) if name in ("int", "float", "complex", "float64", "complex128", "int_", "IntLike_co", "FloatLike_co", "SingleFlatIndexLike") else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr) and isinstance(e.right, ast.Constant) and e.right.value is None:
            x = self.declared(m, e.left)
            return ("opt", x) if isinstance(x, R) else None
        if isinstance(e, ast.Subscript):
            head = e.value.attr if isinstance(e.value, ast.Attribute) else e.value.id if isinstance(e.value, ast.Name) else ""
            if head == "ndarray" and isinstance(e.slice, ast.Tuple) and e.slice.elts:
                s = e.slice.elts[0]
                if isinstance(s, ast.Name):
                    return ("tv", s.id) if self.ann.typevar(m, s.id) is not None else None
                if isinstance(s, ast.Subscript) and isinstance(s.value, ast.Name) and s.value.id == "tuple":
                    parts = s.slice.elts if isinstance(s.slice, ast.Tuple) else [s.slice]
                    fixed = 0
                    for x in parts:
                        if isinstance(x, ast.Starred) or (isinstance(x, ast.Subscript) and ast.unparse(x.value).endswith("Unpack")):
                            return R(len(parts) - 1, None)
                        if isinstance(x, ast.Constant) and x.value is Ellipsis:
                            return None
                        fixed += 1
                    return R(fixed, fixed)
            return None
        return None

    def record_factors(self, a):
        """('rec', its basis) for a parsed record annotation, ('b', basis) for that of a basis."""
        if a.kind == "rec" and isinstance(a.obj, Class) and "basis" in self.ann.fields(a.obj):
            f = self.ann.record_field(a.obj, a.args, "basis", "record")
            b = f.obj if f is not None and f.kind == "basis" else None
            if (b is None or b[0] != "tup") and any(c.name in TWO_FACTORS for c in self.p.mro(a.obj)):
                b = ("tup", (UNKNOWN, UNKNOWN))
            return ("rec", b)
        if a.kind == "basis":
            return ("b", a.obj)
        return None

    # ------------------------------------------------------------ running
    def run(self) -> None:
        for f in self.p.funcs:
            Body(self, f).run()

    def result(self, f: Func, args: dict):
        """What a function returns, from its body for these arguments where known, else from its annotation."""
        key = (id(f), tuple(sorted(args.items(), key=lambda x: x[0])))
        if key not in self._memo:
            self._memo[key] = None
            if len(self._stack) < 6:
                self._stack.append(f)
                mark = (len(self.found), self.decided, self.operations)
                v = Body(self, f).run(dict(args))
                del self.found[mark[0]:]
                self.decided, self.operations = mark[1:]
                self._stack.pop()
                self._memo[key] = None if v == "none" else v
        return self._memo[key]


class Body:
    def __init__(self, a: Ranks, f: Func) -> None:
        self.a = a
        self.p = a.p
        self.f = f
        self.seen: set[tuple] = set()
        self.returned: object = "none"

    def report(self, rule: str, node: ast.AST, message: str) -> None:
        k = (rule, id(node))
        if k not in self.seen:
            self.seen.add(k)
            self.a.found.append((rule, self.f, node, message))

    def run(self, args: dict | None = None):
        env: dict[str, object] = {}
        for q in self.f.params:
            d = self.a.declared(self.f.module, q.annotation)
            if q.kind in ("var", "varkw"):
                continue
            if isinstance(d, R) or (isinstance(d, tuple) and d[0] == "opt"):
                env[q.name] = d
            else:
                n = self.a.record_factors(self.a.ann.param(self.f, q.name))
                if n is not None:
                    env[q.name] = n
        if args:
            env.update(args)
        self.block(self.f.node.body, env)
        return self.returned

    # ------------------------------------------------------------ statements
    @staticmethod
    def either(x, y):
        if x == y:
            return x
        if isinstance(x, R) and isinstance(y, R):
            return R(min(x.lo, y.lo), None if x.hi is None or y.hi is None else max(x.hi, y.hi), x.any and y.any)
        return None

    def join(self, a: dict, b: dict) -> dict:
        out = {}
        for k in a:
            if k in b:
                v = self.either(a[k], b[k])
                if v is not None:
                    out[k] = v
        return out

    def block(self, body: list[ast.stmt], env: dict) -> dict | None:
        """The environment afterwards, or None when the end is not reached."""
        for s in body:
            r = self.stmt(s, env)
            if r is None:
                return None
            env = r
        return env

    def forget(self, body: list[ast.stmt], env: dict) -> dict:
        out = dict(env)
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.pop(n.id, None)
        return out

    def stmt(self, s: ast.stmt, env: dict) -> dict | None:
        if isinstance(s, ast.Return):
            if s.value is not None:
                v = self.ev(s.value, env)
                self.returned = v if self.returned == "none" else self.either(self.returned, v)
                d = self.a.declared(self.f.module, self.f.node.returns)
                if isinstance(d, R) and d.exact is not None and isinstance(v, R):
                    self.a.operations += 1
                    if d.exact and (v.lo > d.exact or (v.hi is not None and v.hi < d.exact)):
                        self.report("returned-axes", s, f"the result has {self.words(v)}, where an array of {d.exact} is declared")
            return None
        if isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            if isinstance(s, ast.Raise):
                return None
            return None
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            env = dict(env)
            for t in s.targets:
                self.assign(t, v, env, s.value)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                v = self.ev(s.value, env)
                env = dict(env)
                self.assign(s.target, v, env, s.value)
            return env
        if isinstance(s, ast.AugAssign):
            self.ev(s.value, env)
            return env  # the storage keeps its axes
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return env
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            a = self.block(s.body, dict(self.tested(s.test, env, True)))
            b = self.block(s.orelse, dict(self.tested(s.test, env, False)))
            if a is None or b is None:
                return a if b is None else b
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.While)):
            inner = self.forget([s], env)
            if isinstance(s, ast.For):
                it = self.ev(s.iter, env)
                self.bind_loop(s.target, it, inner, s.iter)
            else:
                self.ev(s.test, inner)
            end = self.block(s.body, dict(inner))
            out = self.forget([s], env)
            self.block(s.orelse, dict(out))
            del end
            return out
        if isinstance(s, ast.With):
            for i in s.items:
                self.ev(i.context_expr, env)
            return self.block(s.body, self.forget([ast.Expr(i.optional_vars) for i in s.items if i.optional_vars is not None], env))
        if isinstance(s, ast.Try):
            a = self.block(s.body, dict(env))
            before = self.forget(s.body, env)
            ends = [self.block(s.orelse, a) if a is not None else None]
            ends += [self.block(h.body, dict(before)) for h in s.handlers]
            live = [x for x in ends if x is not None]
            if not live:
                return None
            out = live[0]
            for x in live[1:]:
                out = self.join(out, x)
            return self.block(s.finalbody, out)
        if isinstance(s, ast.Match):
            live = []
            for c in s.cases:
                r = self.block(c.body, self.forget(c.body, env))
                if r is not None:
                    live.append(r)
            live.append(self.forget([s], env))
            out = live[0]
            for x in live[1:]:
                out = self.join(out, x)
            return out
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            env = dict(env)
            env.pop(s.name, None)
            return env
        return env

    def assign(self, t: ast.expr, v, env: dict, value: ast.expr) -> None:
        if isinstance(t, ast.Name):
            if v is None:
                env.pop(t.id, None)
            else:
                env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = v[1] if isinstance(v, tuple) and v[0] == "t" and len(v[1]) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                part = parts[i] if parts is not None else up(v, -1) if isinstance(v, R) and v.lo >= 1 else None
                self.assign(x.value if isinstance(x, ast.Starred) else x, None if isinstance(x, ast.Starred) else part, env, value)
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, env)
            if isinstance(t.slice, ast.Constant) and t.slice.value in FIELDS and self.is_record(t.value, env):
                self.field(t.slice.value, v, value)

    def bind_loop(self, t: ast.expr, it, env: dict, e: ast.expr) -> None:
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "enumerate" and isinstance(t, ast.Tuple) and len(t.elts) == 2 and e.args:
            if isinstance(t.elts[0], ast.Name):
                env[t.elts[0].id] = R(0, 0)
            self.bind_loop(t.elts[1], self.ev(e.args[0], env), env, e.args[0])
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "zip" and isinstance(t, ast.Tuple) and len(t.elts) == len(e.args):
            for x, a in zip(t.elts, e.args):
                self.bind_loop(x, self.ev(a, env), env, a)
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "range" and isinstance(t, ast.Name):
            env[t.id] = R(0, 0)
            return
        v = up(it, -1) if isinstance(it, R) and it.lo >= 1 else it[1] if isinstance(it, tuple) and it[0] == "l" else None
        self.assign(t, v, env, e)

    # ------------------------------------------------------------ records
    def is_record(self, e: ast.expr, env: dict) -> bool:
        return True

    @staticmethod
    def words(v: R) -> str:
        if v.any:
            return "an axis per factor of an arbitrary basis"
        return f"{v.lo} axes" if v.exact is not None else f"at least {v.lo} axes" if v.hi is None else f"{v.lo} to {v.hi} axes"

    def field(self, k: str, v, node: ast.AST) -> None:
        if not isinstance(v, R):
            return
        if v.lo >= 2 or v.any:
            self.report("flat", node, f"'{k}' of the record has {self.words(v)}, where a flat array is declared")
        elif v.hi == 0 and k == "data":
            self.report("flat", node, f"'{k}' of the record is a single number, where a flat array is declared")
        elif v.exact == 1:
            self.a.decided += 1

    # ------------------------------------------------------------ expressions
    def ev(self, e: ast.expr | None, env: dict):
        if e is None:
            return None
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return None

    def ev_Constant(self, e, env):
        return R(0, 0) if isinstance(e.value, (int, float, complex)) and not isinstance(e.value, bool) else None

    def ev_Name(self, e, env):
        return env.get(e.id)

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        if v is None:
            env.pop(e.target.id, None)
        else:
            env[e.target.id] = v
        return v

    def ev_Lambda(self, e, env):
        return None

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        return v if isinstance(v, R) else None

    def ev_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if isinstance(e.op, ast.MatMult):
            if isinstance(a, R) and isinstance(b, R) and a.exact is not None and b.exact is not None and 1 <= a.exact <= 2 and 1 <= b.exact <= 2:
                n = a.exact + b.exact - 2
                return R(n, n)
            return None
        if isinstance(a, R) and isinstance(b, R):
            return broadcast(a, b)
        one = a if isinstance(a, R) else b if isinstance(b, R) else None
        other = e.right if isinstance(a, R) else e.left
        if one is not None and one.lo >= 1 and not isinstance(other, (ast.List, ast.Tuple, ast.ListComp, ast.Constant)):
            return R(one.lo, None)
        return None

    def ev_Compare(self, e, env):
        vs = [self.ev(x, env) for x in (e.left, *e.comparators)]
        if all(isinstance(v, R) for v in vs):
            out = vs[0]
            for v in vs[1:]:
                out = broadcast(out, v)
            return out if out.lo else None
        return None

    def ev_BoolOp(self, e, env):
        for x in e.values:
            self.ev(x, env)
        return None

    def ev_IfExp(self, e, env):
        self.ev(e.test, env)
        a, b = self.ev(e.body, self.tested(e.test, env, True)), self.ev(e.orelse, self.tested(e.test, env, False))
        return self.either(a, b)

    def tested(self, test: ast.expr, env: dict, truth: bool) -> dict:
        """What is known where an optional value has been tested against None."""
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            v = env.get(test.left.id)
            if isinstance(v, tuple) and v[0] == "opt" and isinstance(test.ops[0], ast.Is if not truth else ast.IsNot):
                env = dict(env)
                env[test.left.id] = v[1]
        return env

    def ev_Tuple(self, e, env):
        vs = [self.ev(x, env) for x in e.elts]
        return None if any(isinstance(x, ast.Starred) for x in e.elts) else ("t", tuple(vs))

    ev_List = ev_Tuple

    def ev_Starred(self, e, env):
        self.ev(e.value, env)
        return None

    def ev_Dict(self, e, env):
        keys = [k.value if isinstance(k, ast.Constant) else None for k in e.keys]
        for k, x in zip(keys, e.values):
            v = self.ev(x, env)
            if k in FIELDS and "basis" in keys:
                self.field(k, v, x)
        return None

    def comprehension(self, e, env):
        inner = dict(env)
        for g in e.generators:
            it = self.ev(g.iter, inner)
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    inner.pop(n.id, None)
            self.bind_loop(g.target, it, inner, g.iter)
            for c in g.ifs:
                self.ev(c, inner)
        return self.ev(e.elt, inner)

    def ev_ListComp(self, e, env):
        v = self.comprehension(e, env)
        return ("l", v)

    ev_GeneratorExp = ev_ListComp
    ev_SetComp = ev_ListComp

    def ev_Attribute(self, e, env):
        v = self.ev(e.value, env)
        if e.attr in ("T", "real", "imag"):
            return v if isinstance(v, R) else None
        if e.attr == "size" and isinstance(v, R):
            return R(0, 0)
        if e.attr in ("n", "fundamental_n", "ndim"):
            return R(0, 0)
        return None

    def ev_Subscript(self, e, env):
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
            if e.slice.value in FIELDS:
                self.ev(e.value, env)
                return R(1, 1)
            v = self.ev(e.value, env)
            return ("b", v[1]) if e.slice.value == "basis" and isinstance(v, tuple) and v[0] == "rec" else None
        v = self.ev(e.value, env)
        if isinstance(v, tuple) and v[0] == "b":
            i = e.slice.value if isinstance(e.slice, ast.Constant) else None
            return ("b", component(v[1], i)) if isinstance(i, int) else None
        items = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        for x in items:
            self.ev(x, env) if not isinstance(x, ast.Slice) else None
        if isinstance(v, tuple):
            if v[0] == "t" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(v[1]) <= e.slice.value < len(v[1]):
                return v[1][e.slice.value]
            if v[0] == "l" and isinstance(v[1], R) and isinstance(e.slice, ast.Constant):
                return v[1]
            return None
        new = taken = kept = 0
        known = True
        arrays: list[R] = []
        dots = False
        for x in items:
            if isinstance(x, ast.Slice):
                kept += 1
            elif self.is_none(x):
                new += 1
            elif isinstance(x, ast.Constant) and x.value is Ellipsis:
                dots = True
            elif isinstance(x, ast.Starred):
                known = False
            else:
                i = self.ev(x, env)
                if isinstance(i, R) and i.exact == 0:
                    taken += 1
                elif isinstance(i, R) and not self.mask(x, env):
                    arrays.append(i)
                else:
                    known = False
        if known and isinstance(v, R):
            need = kept + taken + len(arrays)
            self.a.operations += 1
            if v.hi is not None and need > v.hi and not arrays:
                self.report("axes", e, f"{ast.unparse(e.value)} has {self.words(v)} but is indexed along {need}")
            if not arrays:
                return R(max(v.lo - taken, kept) + new, None if v.hi is None else v.hi - taken + new)
            hi = None if v.hi is None or any(x.hi is None for x in arrays) else v.hi - taken - len(arrays) + max(x.hi for x in arrays) + new
            return R(max(v.lo - taken - len(arrays), kept) + new + max(x.lo for x in arrays), hi)
        if isinstance(v, R):
            return R(kept + new, None)
        if (kept or dots) and new and known and not arrays and not taken:
            return R(kept + new, None)
        return None

    def mask(self, x: ast.expr, env: dict) -> bool:
        """Whether an index may be a boolean array, which stands for as many axes as it has."""
        if isinstance(x, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
            return True
        return not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("argsort", "arange", "argmax", "argmin"))

    def is_none(self, x: ast.expr) -> bool:
        return (isinstance(x, ast.Constant) and x.value is None) or (isinstance(x, ast.Attribute) and x.attr == "newaxis")

    # ------------------------------------------------------------ calls
    def shape_length(self, args: list[ast.expr], env: dict):
        """The number of sizes in the shape given to reshape, zeros, ..."""
        if len(args) == 1 and isinstance(args[0], (ast.Tuple, ast.List)):
            args = args[0].elts
        elif len(args) == 1 and not isinstance(args[0], ast.Starred):
            one = args[0]
            v = self.ev(one, env)
            if isinstance(v, R) and v.exact == 0:
                return R(1, 1)
            if isinstance(v, tuple) and v[0] == "t":
                return R(len(v[1]), len(v[1]))
            return self.length(one, env)
        lo, exact, many = 0, True, False
        for x in args:
            if isinstance(x, ast.Starred):
                n = self.length(x.value, env)
                lo += n.lo if n is not None else 0
                many = many or (n is not None and n.any)
                exact = exact and n is not None and n.exact is not None
            else:
                self.ev(x, env)
                lo += 1
        return R(lo, lo if exact else None, many)

    def length(self, e: ast.expr, env: dict):
        """The length of a shape: of a record's basis, of an array."""
        if isinstance(e, ast.Attribute) and e.attr in ("shape", "fundamental_shape"):
            v = self.ev(e.value, env)
            if isinstance(v, R):
                return v
            return axes_of(v[1] if isinstance(v, tuple) and v[0] == "b" else None)
        return None

    def ev_Call(self, e, env):
        name = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
        kw = {k.arg: k.value for k in e.keywords if k.arg}
        target = self.p.resolve(self.f.module, e.func, self.f) if not (isinstance(e.func, ast.Name) and e.func.id in env) else None
        if isinstance(target, Func):
            vals = [self.ev(x, env) for x in e.args]
            for x in kw.values():
                self.ev(x, env)
            return self.summary(target, e, vals, env)
        numeric = isinstance(target, Ext) and target.name.split(".")[0] in ("numpy", "scipy")
        if numeric:
            return self.library(name, e.args, kw, e, env)
        if isinstance(e.func, ast.Attribute) and target is None:
            obj = self.ev(e.func.value, env)
            if name in ("reshape", "ravel", "flatten", "astype", "conj", "conjugate", "copy", "transpose", "swapaxes", "round", "clip", "repeat", "squeeze", *REDUCE):
                return self.method(name, obj, e, kw, env)
        for x in (*e.args, *kw.values()):
            self.ev(x.value if isinstance(x, ast.Starred) else x, env)
        if isinstance(e.func, ast.Name) and e.func.id in ("int", "float", "complex", "len"):
            return R(0, 0)
        if isinstance(e.func, ast.Name) and e.func.id == "abs" and len(e.args) == 1:
            v = self.ev(e.args[0], env)
            return v if isinstance(v, R) else None
        if isinstance(e.func, ast.Name) and e.func.id in ("tuple", "list") and len(e.args) == 1:
            v = self.ev(e.args[0], env)
            return v if isinstance(v, tuple) else None
        if name == "BasisUtil" and len(e.args) == 1:
            v = self.ev(e.args[0], env)
            return v if isinstance(v, tuple) and v[0] == "b" else None
        if name == "cast" and len(e.args) == 2:
            return self.ev(e.args[1], env)
        return None

    def method(self, name, obj, e, kw, env):
        if name in ("ravel", "flatten"):
            return R(1, 1)
        if name == "reshape":
            return self.shape_length(e.args, env)
        if name in ("astype", "conj", "conjugate", "copy", "transpose", "swapaxes", "round", "clip"):
            for x in e.args:
                self.ev(x, env)
            return obj if isinstance(obj, R) else None
        if name in REDUCE:
            return self.reduce(obj, e.args[0] if e.args else kw.get("axis"), kw, e, env)
        return None

    def reduce(self, v, axis, kw, e, env):
        keep = kw.get("keepdims")
        if keep is not None:
            return None
        if axis is None or (isinstance(axis, ast.Constant) and axis.value is None):
            return R(0, 0) if isinstance(v, R) and "where" not in kw else None
        n = 1
        a = self.ev(axis, env)
        if isinstance(axis, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in axis.elts):
            n = len(axis.elts)
        elif not (isinstance(a, R) and a.exact == 0):
            return R(0, None, True) if isinstance(v, R) and v.any and not isinstance(axis, ast.Tuple) else None
        if isinstance(v, R):
            self.a.operations += 1
            if v.hi is not None and v.hi < n:
                self.report("axes", e, f"{ast.unparse(e)[:60]} reduces {n} axes of an array of {v.hi}")
                return None
            return up(v, -n)
        return None

    def stacked(self, v):
        """The array made of a list."""
        if isinstance(v, R):
            return v
        if isinstance(v, tuple) and v[0] == "l":
            return up(v[1], 1) if isinstance(v[1], R) else R(1, None)
        if isinstance(v, tuple) and v[0] == "t":
            parts = [self.stacked(x) if isinstance(x, tuple) else x for x in v[1]]
            known = [x for x in parts if isinstance(x, R)]
            if known:
                lo = max(x.lo for x in known)
                hi = None if len(known) < len(parts) or any(x.hi is None for x in known) else max(x.hi for x in known)
                return up(R(lo, hi), 1)
            return R(1, None)
        return None

    def library(self, name, args, kw, e, env):
        if name in ("reshape",):
            self.ev(args[0], env) if args else None
            return self.shape_length(args[1:] or [x for k, x in kw.items() if k in ("newshape", "shape")], env)
        vals = [self.ev(x, env) for x in args]
        for x in kw.values():
            self.ev(x, env)
        first = vals[0] if vals else None
        if any(isinstance(x, ast.Starred) for x in args) and name not in ("einsum",):
            return None
        if name in ONE:
            return R(1, 1)
        if name in ("zeros", "ones", "empty", "full"):
            return self.shape_length([args[0]], env) if args else None
        if name in ("eye", "identity", "outer"):
            return R(2, 2)
        if name in ("array", "asarray", "ascontiguousarray", "atleast_1d"):
            return self.stacked(first)
        if name in ("diag",):
            if isinstance(first, R) and first.exact in (1, 2):
                n = 3 - first.exact
                return R(n, n)
            return None
        if name in ("diagonal",):
            return up(first, -1) if isinstance(first, R) and first.lo >= 2 else None
        if name in ("trace",):
            return up(first, -2) if isinstance(first, R) and first.lo >= 2 else None
        if name in SAME:
            return first if isinstance(first, R) else None
        if name in PAIR and len(vals) >= 2:
            return broadcast(vals[0], vals[1]) if isinstance(vals[0], R) and isinstance(vals[1], R) else None
        if name in REDUCE:
            axis = kw.get("axis", args[2] if name == "norm" and len(args) > 2 else args[1] if name != "norm" and len(args) > 1 else None)
            v = self.stacked(first)
            return self.reduce(v, axis, kw, e, env)
        if name in ("cumsum", "cumprod"):
            return (first if isinstance(first, R) else None) if "axis" in kw or len(args) > 1 else R(1, 1)
        if name == "stack":
            v = self.stacked(first)
            return v
        if name in ("broadcast_to",) and len(args) > 1:
            return self.shape_length([args[1]], env)
        if name in ("concatenate", "append", "hstack") and vals:
            v = first[1][0] if isinstance(first, tuple) and first[0] == "t" and first[1] else first[1] if isinstance(first, tuple) and first[0] == "l" else first if name == "append" and "axis" in kw else None
            return v if isinstance(v, R) and v.lo >= 1 else None
        if name == "solve" and len(vals) >= 2:
            return vals[1] if isinstance(vals[1], R) else None
        if name == "meshgrid" and vals and not kw.get("sparse"):
            return ("t", tuple(R(len(vals), len(vals)) for _ in vals))
        if name == "expand_dims":
            return up(first, 1) if isinstance(first, R) else None
        if name in ("where",) and len(vals) == 3 and all(isinstance(x, R) for x in vals):
            return broadcast(broadcast(vals[0], vals[1]), vals[2])
        if name in ("eigh", "eig"):
            return ("t", (R(1, 1), R(2, 2)))
        if name in ("eigvals", "eigvalsh"):
            return R(1, 1)
        if name == "tensordot" and len(args) >= 2:
            axes = kw.get("axes", args[2] if len(args) > 2 else None)
            n = None
            if axes is None:
                n = 2
            elif isinstance(axes, ast.Constant) and isinstance(axes.value, int):
                n = axes.value
            elif isinstance(axes, ast.Tuple) and len(axes.elts) == 2:
                x = axes.elts[0]
                n = 1 if not isinstance(x, (ast.Tuple, ast.List)) else len(x.elts)
                y = self.ev(x, env)
                if not isinstance(x, (ast.Tuple, ast.List)) and not (isinstance(y, R) and y.exact == 0):
                    n = None
            if n is not None and isinstance(vals[0], R) and isinstance(vals[1], R):
                a, b = vals[0], vals[1]
                self.a.operations += 1
                for x, q in ((a, args[0]), (b, args[1])):
                    if x.hi is not None and x.hi < n:
                        self.report("axes", e, f"{ast.unparse(q)[:60]} has {self.words(x)} but is contracted over {n}")
                        return None
                return R(a.lo + b.lo - 2 * n, None if a.hi is None or b.hi is None else a.hi + b.hi - 2 * n)
            return None
        if name == "einsum" and args and isinstance(args[0], ast.Constant) and isinstance(args[0].value, str):
            spec = args[0].value.replace(" ", "")
            ins, _, out = spec.partition("->")
            operands = ins.split(",")
            if not any(isinstance(x, ast.Starred) for x in args) and len(operands) == len(args) - 1:
                for s, v, q in zip(operands, vals[1:], args[1:]):
                    if "." in s or not isinstance(v, R):
                        continue
                    self.a.operations += 1
                    if v.lo > len(s) or (v.hi is not None and v.hi < len(s)):
                        self.report("axes", e, f"{ast.unparse(q)[:60]} has {self.words(v)} but is given {len(s)} subscripts")
            if "->" in spec and "." not in spec:
                return R(len(out), len(out))
            return None
        return None

    def summary(self, f: Func, e: ast.Call, vals: list, env: dict):
        args: dict[str, object] = {}
        if not any(isinstance(x, ast.Starred) for x in e.args) and all(k.arg for k in e.keywords):
            params = [q for q in f.params if q.kind in ("pos", "posonly")]
            if f.cls is not None and params and params[0].name in ("self", "cls"):
                params = params[1:]
            for q, v in zip(params, vals):
                if isinstance(v, R):
                    args[q.name] = v
            for k in e.keywords:
                v = self.ev(k.value, env)
                if isinstance(v, R):
                    args[k.arg] = v
        d = self.a.declared(f.module, f.node.returns)
        own = self.a.result(f, args) if not f.overloads or f.node.body else None
        if isinstance(own, R) and own.exact is not None:
            return own
        if isinstance(own, tuple) and own[0] == "t":
            return own
        if isinstance(d, R):
            return d if not isinstance(own, R) or (d.lo >= own.lo and (own.hi is None or (d.hi is not None and d.hi <= own.hi))) else own
        if isinstance(d, tuple) and d[0] == "tv":
            for q in f.params:
                if q.name in args and self.a.declared(f.module, q.annotation) == d:
                    return args[q.name]
        if own is not None:
            return own
        return self.a.record_factors(self.a.ann.parse(f.module, f.node.returns, {}, "return")) if f.node.returns is not None else None
