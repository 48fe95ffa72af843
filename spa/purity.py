"""C01: may-alias + effect analysis.  No public operation writes to storage owned by its caller.

Every value carries the set of *roots* - (parameter, access path) pairs of the function under analysis - it may
share storage with.  Views (reshape, slicing, transpose, real part, asarray ...) keep the roots, computations and copies
drop them.  A store, an in-place operator, a mutating method or a numpy routine writing one of its arguments applied to a
value with roots is a write to the caller's data.  Functions are summarised (which parameter paths are written, what the
result shares with the parameters) and summaries are instantiated at every call, so helpers are transparent.
"""

from __future__ import annotations

import ast
from dataclasses import dataclass, field, replace

from .model import Class, Ext, Func, Module, Project, walk_own

Root = tuple[str, tuple[str, ...]]
E: frozenset = frozenset()
MAXPATH = 3


@dataclass(frozen=True)
class Val:
    own: frozenset = E  # roots this object may be (part of)
    elem: frozenset = E  # roots its elements / attributes may be (part of)
    kind: str | None = None  # scalar array dict list tuple obj func mpl rng
    nd: int | None = None  # array rank when known (2 = two or more)
    ncontig: bool = False
    parts: tuple | None = None  # ((key, Val), ...) for records / tuples created here
    cls: str | None = None
    fn: object = None

    def part(self, k: str) -> "Val | None":
        if self.parts is not None:
            for kk, v in self.parts:
                if kk == k:
                    return v
        return None


FRESH = Val()
SCALAR = Val(kind="scalar")
ARRAY = Val(kind="array")


def ext(root: Root, key: str) -> Root:
    p, path = root
    if len(path) >= MAXPATH:
        return root
    return (p, (*path, key))


def all_roots(v: Val) -> frozenset:
    r = v.own | v.elem
    if v.parts is not None:
        for _, x in v.parts:
            r |= all_roots(x)
    return r


def join(a: Val, b: Val) -> Val:
    if a is b or a == b:
        return a
    parts = None
    extra = E
    if a.parts is not None and b.parts is not None:
        da, db = dict(a.parts), dict(b.parts)
        parts = tuple((k, join(da.get(k, FRESH), db.get(k, FRESH))) for k in [*da, *[k for k in db if k not in da]])
    elif a.parts is not None or b.parts is not None:
        src = a if a.parts is not None else b
        other = b if src is a else a
        if not other.own and not other.elem:
            parts = src.parts
        else:
            for _, x in src.parts:  # type: ignore[union-attr]
                extra |= all_roots(x)
    kind = a.kind if a.kind == b.kind else ("scalar" if {a.kind, b.kind} == {"scalar"} else _joinkind(a, b))
    return Val(
        a.own | b.own,
        a.elem | b.elem | extra,
        kind,
        a.nd if a.nd == b.nd else None,
        a.ncontig and b.ncontig,
        parts,
        a.cls if a.cls == b.cls else None,
        a.fn if a.fn is b.fn else None,
    )


def _joinkind(a: Val, b: Val) -> str | None:
    # a None / scalar default joined with a real value keeps the kind of the value
    if a.kind == "scalar" and not a.own:
        return b.kind
    if b.kind == "scalar" and not b.own:
        return a.kind
    return None


SCALAR_ATTRS = {
    "n", "ndim", "size", "shape", "dtype", "fundamental_n", "fundamental_shape", "itemsize", "nbytes", "name", "nx", "nk",
    "n_bands", "n_terms", "offset", "step", "volume", "dt", "fundamental_dt", "dtype", "__name__", "value",
}
VIEW_ATTRS = {"T", "real", "imag", "flat", "base", "mT"}
VIEW_METHODS = {"reshape", "ravel", "view", "transpose", "swapaxes", "squeeze", "diagonal", "__array__"}
SWAP = {"transpose", "swapaxes", "moveaxis", "rollaxis", "T", "mT", "rot90", "fliplr", "flip", "flipud"}
NP_VIEW = {
    "asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "reshape", "ravel", "real", "imag", "swapaxes", "transpose",
    "moveaxis", "rollaxis", "squeeze", "atleast_1d", "atleast_2d", "atleast_3d", "broadcast_to", "expand_dims", "diagonal",
    "rot90", "flip", "fliplr", "flipud", "require", "asarray_chkfinite", "as_strided", "sliding_window_view", "matrix_transpose", "permute_dims",
}
NP_MUT_FIRST = {"fill_diagonal", "put", "place", "copyto", "put_along_axis", "putmask", "shuffle"}
MUT_METHODS = {
    "sort", "fill", "partition", "resize", "put", "itemset", "setfield", "setflags", "append", "extend", "insert", "remove", "pop",
    "clear", "reverse", "update", "setdefault", "popitem", "add", "discard", "__setitem__", "__iadd__", "__imul__", "__isub__", "__itruediv__", "__delitem__",
}
FRESH_METHODS = {
    "astype", "conj", "conjugate", "flatten", "sum", "mean", "std", "var", "min", "max", "dot", "round", "clip", "cumsum", "cumprod", "prod",
    "repeat", "take", "argsort", "argmax", "argmin", "nonzero", "tolist", "item", "tobytes", "any", "all", "trace", "searchsorted", "choose", "compress", "ptp",
}
UFUNCS = {
    "add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "power", "float_power", "remainder", "mod", "fmod", "maximum", "minimum",
    "arctan2", "hypot", "matmul", "equal", "logical_and", "logical_or", "exp", "log", "sin", "cos", "sqrt", "square", "abs", "absolute", "conj", "conjugate", "negative",
}
UNARY_UFUNCS = {"exp", "log", "sin", "cos", "sqrt", "square", "abs", "absolute", "conj", "conjugate", "negative"}
SCALAR_ANN = {
    "int", "float", "str", "bool", "complex", "bytes", "IntLike_co", "FloatLike_co", "ComplexLike_co", "Path", "Literal", "SingleFlatIndexLike",
    "SingleStackedIndexLike", "SingleIndexLike", "Scale", "Measure", "CallType", "Distribution", "ArrayFlatIndexLike_", "Number", "integer", "floating",
}
MPL_ANN = {"Axes", "Figure", "Line2D", "QuadMesh", "ArtistAnimation", "Axis", "Artist", "Colorbar", "Animation", "Text", "ScalarMappable", "AxesImage", "Path3DCollection", "Norm", "Normalize"}
LISTY_ANN = {"list", "Sequence", "Iterable", "List", "Iterator", "Generator"}


@dataclass
class Site:
    leaf: str  # function containing the write
    what: str  # parameter + path in terms of the leaf
    loc: str
    text: str
    chain: tuple[str, ...] = ()


@dataclass
class Summary:
    writes: dict[Root, list[Site]] = field(default_factory=dict)
    ret: Val = FRESH
    done: bool = False


def path_str(r: Root) -> str:
    p, path = r
    return p + "".join(f"[{k}]" if not k.startswith(".") else k for k in path)


class Purity:
    def __init__(self, project: Project) -> None:
        self.p = project
        self.summaries: dict[int, Summary] = {}
        self.stats = {"writes_examined": 0, "calls_resolved": 0, "calls_external": 0}
        self.field_kinds: dict[str, set[str]] = {}
        for c in project.classes:
            if project.is_typeddict(c):
                for k, ann in c.fields.items():
                    self.field_kinds.setdefault(k, set()).add(self.ann_kind(c.module, ann)[0] or "?")
        self.instances: dict[str, Class] = {c.qual: c for c in project.classes}

    # ------------------------------------------------------------- annotations
    def ann_kind(self, m: Module, ann: ast.expr | None, depth: int = 0) -> tuple[str | None, int | None]:
        if ann is None or depth > 6:
            return (None, None)
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.ann_kind(m, ast.parse(ann.value, mode="eval").body, depth + 1)
                except SyntaxError:
                    return (None, None)
            return ("scalar", None)  # None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            a, b = self.ann_kind(m, ann.left, depth + 1), self.ann_kind(m, ann.right, depth + 1)
            if a == b:
                return a
            if a[0] == "scalar":
                return b
            if b[0] == "scalar":
                return a
            return (None, None)
        if isinstance(ann, ast.Subscript):
            base = ann.value
            name = base.attr if isinstance(base, ast.Attribute) else getattr(base, "id", "")
            if name == "ndarray":
                nd = None
                sl = ann.slice.elts[0] if isinstance(ann.slice, ast.Tuple) and ann.slice.elts else None
                if isinstance(sl, ast.Subscript) and getattr(sl.value, "id", "") == "tuple":
                    e = sl.slice.elts if isinstance(sl.slice, ast.Tuple) else [sl.slice]
                    if not any(isinstance(x, ast.Starred) or (isinstance(x, ast.Constant) and x.value is Ellipsis) for x in e):
                        nd = min(len(e), 2)
                return ("array", nd)
            if name in ("tuple", "Tuple"):
                e = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                ks = {self.ann_kind(m, x.value if isinstance(x, ast.Starred) else x, depth + 1)[0] for x in e if not (isinstance(x, ast.Constant) and x.value is Ellipsis)}
                return ("scalar", None) if ks <= {"scalar"} else ("tuple", None)
            if name in ("Literal", "type", "Callable"):
                return ("scalar", None)
            return self.ann_kind(m, base, depth + 1)
        name = ann.attr if isinstance(ann, ast.Attribute) else getattr(ann, "id", "")
        if name in SCALAR_ANN or name.endswith(("IndexLike", "LengthInv")):
            return ("scalar", None)
        if name in MPL_ANN:
            return ("mpl", None)
        if name == "Generator":
            return ("rng", None)
        if name in LISTY_ANN:
            return ("list", None)
        if name in ("dict", "Mapping", "MutableMapping"):
            return ("dict", None)
        r = self.p.resolve(m, ann)
        if isinstance(r, Class):
            return ("dict", None) if self.p.is_typeddict(r) else ("obj", None)
        from .model import Assign

        if isinstance(r, Assign) and r.value is not None:
            v = r.value
            if isinstance(v, ast.Call):
                fn = v.func.id if isinstance(v.func, ast.Name) else getattr(v.func, "attr", "")
                if fn in ("TypeVar",):
                    for k in v.keywords:
                        if k.arg == "bound":
                            return self.ann_kind(r.module, k.value, depth + 1)
                    return (None, None)
                return (None, None)
            return self.ann_kind(r.module, v, depth + 1)
        return (None, None)

    def ann_class(self, m: Module, ann: ast.expr | None) -> Class | None:
        if ann is None:
            return None
        if isinstance(ann, ast.Subscript):
            return self.ann_class(m, ann.value)
        from .model import Assign

        r = self.p.resolve(m, ann)
        for _ in range(4):
            if isinstance(r, Assign) and isinstance(r.value, ast.Subscript):
                r = self.p.resolve(r.module, r.value.value)
        return r if isinstance(r, Class) else None

    def field_kind(self, cls: str | None, k: str) -> tuple[str | None, int | None] | None:
        """The declared kind of a field of a record class."""
        c = self.instances.get(cls) if cls else None
        if c is None or not self.p.is_typeddict(c):
            return None
        for b in self.p.mro(c):
            if isinstance(b, Class) and k in b.fields:
                return self.ann_kind(b.module, b.fields[k])
        return None

    # --------------------------------------------------------------- summaries
    def summary(self, f: Func) -> Summary:
        s = self.summaries.get(id(f))
        if s is None:
            s = Summary()
            self.summaries[id(f)] = s
            Interp(self, f, s).run()
            s.done = True
        return s


class Interp:
    def __init__(self, an: Purity, f: Func, s: Summary, captured: dict[str, Val] | None = None) -> None:
        self.an = an
        self.p = an.p
        self.f = f
        self.m = f.module
        self.s = s
        self.captured = captured or {}
        self.ret: Val | None = None
        self.globals_used = False

    def param_val(self, prm) -> Val:
        kind, nd = self.an.ann_kind(self.m, prm.annotation)
        if kind in ("scalar", "mpl", "rng"):
            return Val(kind=kind)
        if prm.kind == "varkw":
            return Val(elem=frozenset({(prm.name, ("*",))}), kind="dict")
        if prm.kind == "var":
            return Val(elem=frozenset({(prm.name, ("*",))}), kind="tuple")
        c = self.an.ann_class(self.m, prm.annotation)
        return Val(own=frozenset({(prm.name, ())}), kind=kind, nd=nd, cls=c.qual if c else None)

    def run(self) -> None:
        env: dict[str, Val] = dict(self.captured)
        for i, prm in enumerate(self.f.params):
            v = self.param_val(prm)
            if i == 0 and self.f.cls is not None and not self.f.is_static:
                v = Val(own=frozenset({(prm.name, ())}), kind="obj", cls=self.f.cls.qual)
            env[prm.name] = v
        self.block(self.f.node.body, env)
        self.s.ret = self.ret or FRESH

    # ------------------------------------------------------------------ writes
    def write(self, v: Val, node: ast.AST, text: str) -> None:
        self.an.stats["writes_examined"] += 1
        for r in v.own:
            self.record(r, Site(self.f.short, path_str(r), f"{self.m.rel}:{getattr(node, 'lineno', 0)}", text))

    def record(self, r: Root, site: Site) -> None:
        if r[0] == "self" and self.f.name in ("__init__", "__post_init__", "__new__", "__setstate__") and len(r[1]) <= 1:
            # constructing the object itself; writing into an argument stored on it is still seen through the argument's root
            return
        lst = self.s.writes.setdefault(r, [])
        if all((x.leaf, x.what, x.loc) != (site.leaf, site.what, site.loc) for x in lst):
            lst.append(site)

    # -------------------------------------------------------------- statements
    def block(self, body: list[ast.stmt], env: dict[str, Val]) -> None:
        for st in body:
            self.stmt(st, env)

    def merge(self, env: dict[str, Val], *others: dict[str, Val]) -> None:
        keys = set().union(*others)
        out = {}
        for k in keys:
            vals = [o[k] for o in others if k in o]
            v = vals[0]
            for x in vals[1:]:
                v = join(v, x)
            out[k] = v
        env.clear()
        env.update(out)

    def terminates(self, body: list[ast.stmt]) -> bool:
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def stmt(self, st: ast.stmt, env: dict[str, Val]) -> None:
        if isinstance(st, ast.Assign):
            v = self.ev(st.value, env)
            for t in st.targets:
                self.assign(t, v, env, st)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                v = self.ev(st.value, env)
                k, nd = self.an.ann_kind(self.m, st.annotation)
                if v.kind is None and k is not None:
                    v = replace(v, kind=k)
                self.assign(st.target, v, env, st)
        elif isinstance(st, ast.AugAssign):
            rhs = self.ev(st.value, env)
            t = st.target
            if isinstance(t, ast.Name):
                cur = env.get(t.id, FRESH)
                if cur.kind == "list" or (cur.kind == "array" and cur.nd != 0) or cur.kind in ("dict", "obj"):
                    self.write(cur, st, f"'{ast.unparse(st)}' updates it in place")
                if cur.kind == "list":
                    cur = replace(cur, elem=cur.elem | all_roots(rhs))
                elif cur.kind is None:
                    cur = replace(cur)
                env[t.id] = cur
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, env)
                self.ev(t.slice, env)
                self.write(base, st, f"'{ast.unparse(st)}' updates it in place")
                inner = self.index(base, t.slice, env)
                if base.kind in ("dict", "list", "tuple") and inner.kind in ("array", "list"):
                    self.write(inner, st, f"'{ast.unparse(st)}' updates it in place")
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, env)
                self.write(base, st, f"'{ast.unparse(st)}' updates it in place")
                inner = self.attr(base, t.attr, env)
                if inner.kind in ("array", "list"):
                    self.write(inner, st, f"'{ast.unparse(st)}' updates it in place")
        elif isinstance(st, ast.Expr):
            self.ev(st.value, env)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                v = self.ev(st.value, env)
                self.ret = v if self.ret is None else join(self.ret, v)
        elif isinstance(st, ast.If):
            self.ev(st.test, env)
            a, b = dict(env), dict(env)
            self.block(st.body, a)
            self.block(st.orelse, b)
            if self.terminates(st.body):
                env.clear()
                env.update(b)
            elif st.orelse and self.terminates(st.orelse):
                env.clear()
                env.update(a)
            else:
                self.merge(env, a, b)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(st.iter, env)
            for _ in range(2):
                e = dict(env)
                self.assign(st.target, self.item(it), e, st, loop=True)
                self.block(st.body, e)
                self.merge(env, env.copy(), e)
            self.block(st.orelse, env)
        elif isinstance(st, ast.While):
            self.ev(st.test, env)
            for _ in range(2):
                e = dict(env)
                self.block(st.body, e)
                self.merge(env, env.copy(), e)
            self.block(st.orelse, env)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, st)
            self.block(st.body, env)
        elif isinstance(st, ast.Try) or st.__class__.__name__ == "TryStar":
            a = dict(env)
            self.block(st.body, a)
            outs = [a]
            for h in st.handlers:
                b = dict(env)
                for k, v in a.items():
                    b[k] = join(b[k], v) if k in b else v
                if h.name:
                    b[h.name] = FRESH
                self.block(h.body, b)
                if not self.terminates(h.body):
                    outs.append(b)
            self.block(st.orelse, a)
            self.merge(env, *outs)
            self.block(st.finalbody, env)
        elif isinstance(st, ast.Match):
            subj = self.ev(st.subject, env)
            outs = [dict(env)]
            for c in st.cases:
                e = dict(env)
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        e[n.name] = subj if n is c.pattern else replace(self.item(subj))
                if c.guard:
                    self.ev(c.guard, e)
                self.block(c.body, e)
                if not self.terminates(c.body):
                    outs.append(e)
            self.merge(env, *outs)
        elif isinstance(st, ast.FunctionDef):
            g = self.f.children.get(st.name) if self.f else None
            if g is not None and g.node is st:
                env[st.name] = Val(kind="func", fn=(g, dict(env)))
                self.call_nested(g, dict(env), None, None)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.write(self.ev(t.value, env), st, f"'{ast.unparse(st)}' deletes from it")
                elif isinstance(t, ast.Attribute):
                    self.write(self.ev(t.value, env), st, f"'{ast.unparse(st)}' deletes from it")
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(st, (ast.Assert,)):
            self.ev(st.test, env)
        elif isinstance(st, ast.Raise):
            if st.exc:
                self.ev(st.exc, env)

    def assign(self, t: ast.expr, v: Val, env: dict[str, Val], st: ast.stmt, *, loop: bool = False) -> None:
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, Val(elem=all_roots(v), kind="list"), env, st)
                else:
                    pv = v.part(f"#{i}")
                    self.assign(x, pv if pv is not None else self.item(v), env, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.write(base, st, f"'{ast.unparse(t)} = ...' stores into it")
            # the container now holds the value
            if isinstance(t.value, ast.Name) and t.value.id in env and base.kind != "array":
                k = t.slice.value if isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str) else None
                if base.parts is not None and k is not None:
                    d = dict(base.parts)
                    d[k] = v
                    env[t.value.id] = replace(base, parts=tuple(d.items()))
                else:
                    env[t.value.id] = replace(base, elem=base.elem | all_roots(v))
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env)
            self.write(base, st, f"'{ast.unparse(t)} = ...' sets an attribute of it")
            if isinstance(t.value, ast.Name) and t.value.id in env:
                env[t.value.id] = replace(base, elem=base.elem | all_roots(v))

    # -------------------------------------------------------------- navigation
    def item(self, v: Val) -> Val:
        """One element obtained by iterating or by an unknown index."""
        if v.kind == "array":
            if v.nd == 1:
                return Val(kind="scalar")
            return Val(own=v.own, elem=v.elem, kind="array" if v.nd else None, nd=None)
        if v.parts is not None:
            out = None
            for _, x in v.parts:
                out = x if out is None else join(out, x)
            base = out or FRESH
            return replace(base, own=base.own | v.elem)
        if v.kind == "scalar":
            return SCALAR
        if v.kind in ("obj", "mpl", "rng", "func") and not v.own:
            return Val(own=v.elem, elem=v.elem)
        return Val(own=frozenset(ext(r, "*") for r in v.own) | v.elem, elem=v.elem, kind=None)

    def key(self, v: Val, k: str) -> Val:
        pv = v.part(k)
        if pv is not None:
            return pv
        kinds = self.an.field_kinds.get(k, set())
        kind, nd = None, None
        declared = self.an.field_kind(v.cls, k) if len(kinds) > 1 else None
        if declared is not None and declared[0] in ("array", "scalar"):
            kinds = {declared[0]}
        if kinds == {"array"}:
            kind, nd = "array", 1
        elif kinds == {"scalar"}:
            return SCALAR
        elif "obj" in kinds or k == "basis":
            kind = "obj"
        return Val(own=frozenset(ext(r, k) for r in v.own) | v.elem, elem=v.elem, kind=kind, nd=nd)

    def nav(self, v: Val, path: tuple[str, ...]) -> Val:
        for k in path:
            if k == "*":
                v = self.item(v)
            elif k.startswith("."):
                v = self.attr(v, k[1:], {})
            else:
                v = self.key(v, k)
        return v

    def is_basic_index(self, s: ast.expr, env: dict[str, Val]) -> bool | None:
        """True: certainly a view-producing index; False: fancy (copy) index; None: unknown."""
        if isinstance(s, ast.Slice):
            return True
        if isinstance(s, ast.Tuple):
            rs = [self.is_basic_index(x, env) for x in s.elts]
            if False in rs:
                return False
            return None if None in rs else True
        if isinstance(s, ast.Constant):
            return True
        if isinstance(s, ast.Starred):
            return self.is_basic_index(s.value, env)
        if isinstance(s, (ast.List, ast.ListComp, ast.Compare)):
            return False
        if isinstance(s, ast.UnaryOp):
            return self.is_basic_index(s.operand, env)
        if isinstance(s, ast.Attribute) and s.attr == "newaxis":
            return True
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id in ("slice", "int", "len", "slice_along_axis", "slice_ignoring_axes"):
            return True
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id == "tuple":
            return None
        v = self.ev(s, env)
        if v.kind == "scalar":
            return True
        if v.kind in ("array", "list"):
            return False
        return None

    def index(self, base: Val, s: ast.expr, env: dict[str, Val]) -> Val:
        if isinstance(s, ast.Constant) and isinstance(s.value, str):
            return self.key(base, s.value)
        if base.kind == "array":
            b = self.is_basic_index(s, env)
            if b is False:
                return Val(kind="array")
            elts = s.elts if isinstance(s, ast.Tuple) else [s]
            newax = sum(1 for x in elts if (isinstance(x, ast.Attribute) and x.attr == "newaxis") or (isinstance(x, ast.Constant) and x.value is None))
            starred = any(isinstance(x, ast.Starred) for x in elts)
            ints = 0
            slices = 0
            for x in elts:
                if isinstance(x, ast.Slice) or (isinstance(x, ast.Constant) and x.value is Ellipsis):
                    slices += 1
                elif isinstance(x, ast.Starred) or newax and ((isinstance(x, ast.Attribute) and x.attr == "newaxis") or (isinstance(x, ast.Constant) and x.value is None)):
                    pass
                else:
                    ints += 1
            if b is None:
                # unknown index object: a view only if it turns out to be basic; stores through it still hit the caller
                return Val(own=E, elem=E, kind="array")
            if slices or newax:
                return Val(own=base.own, kind="array", nd=None, ncontig=True if slices and len(elts) > 1 else base.ncontig)
            if base.nd == 1 and not starred:
                return SCALAR
            if base.nd == 2 and ints == 1 and not starred:
                return Val(own=base.own, kind="array", nd=None, ncontig=base.ncontig)
            return Val(own=base.own, kind=None)
        if base.kind in ("tuple", "list") or base.parts is not None:
            if isinstance(s, ast.Constant) and isinstance(s.value, int):
                pv = base.part(f"#{s.value}")
                if pv is not None:
                    return pv
            if isinstance(s, ast.Slice):
                return Val(elem=all_roots(base), kind="list")
            return self.item(base)
        if base.kind == "scalar":
            return SCALAR
        if base.kind == "obj":
            return Val(own=frozenset(ext(r, "*") for r in base.own) | base.elem, elem=base.elem, kind="obj")
        b = self.is_basic_index(s, env)
        if b is False:
            return Val()
        return self.item(base)

    def attr(self, base: Val, name: str, env: dict[str, Val]) -> Val:
        if base.kind in ("mpl", "rng", "func"):
            return Val(kind=base.kind if base.kind != "func" else None)
        if name in VIEW_ATTRS and base.kind != "obj":
            return Val(own=base.own, elem=base.elem, kind="array" if base.kind in ("array", None) else base.kind, nd=base.nd, ncontig=base.ncontig or name in SWAP)
        if name in SCALAR_ATTRS:
            return SCALAR
        if base.kind == "array":
            return SCALAR
        if base.cls is not None and base.cls in self.an.instances:
            c = self.an.instances[base.cls]
            cands = []
            mth = self.p.find_method(c, name)
            if mth is not None:
                cands = [mth]
            for sub in self.p.subclasses(c):
                if name in sub.methods and sub.methods[name] not in cands:
                    cands.append(sub.methods[name])
        else:
            cands = [x for x in self.p.methods_by_name.get(name, [])]
        props = [x for x in cands if x.is_property]
        if props:
            out = None
            for x in props:
                if x.node.body and _is_stub(x):
                    continue
                v = self.instantiate(x, self.an.summary(x), {x.params[0].name: base} if x.params else {}, None)
                if x.has_decorator("cached_property"):
                    v = Val(own=v.own | frozenset(ext(r, "." + name) for r in base.own), elem=v.elem | base.elem, kind=v.kind)
                k, nd = self.an.ann_kind(x.module, x.node.returns)
                if k is not None and v.kind is None:
                    v = replace(v, kind=k, nd=nd)
                out = v if out is None else join(out, v)
            if out is not None:
                return out
            k, nd = self.an.ann_kind(props[0].module, props[0].node.returns)
            if k == "scalar":
                return SCALAR
            return Val(own=frozenset(ext(r, "." + name) for r in base.own) | base.elem, elem=base.elem, kind=k, nd=nd)
        if cands:
            return Val(kind="func", fn=("bound", tuple(cands), base))
        return Val(own=frozenset(ext(r, "." + name) for r in base.own) | base.elem, elem=base.elem, kind=None)

    # ------------------------------------------------------------- expressions
    def ev(self, e: ast.expr, env: dict[str, Val]) -> Val:
        t = type(e)
        if t is ast.Name:
            if e.id in env:
                return env[e.id]
            r = self.p.resolve(self.m, e, self.f)
            if isinstance(r, (Func, Class, Ext, Module)):
                return Val(kind="func", fn=r)
            return Val()
        if t is ast.Constant:
            return SCALAR
        if t is ast.Attribute:
            r = self.p.resolve(self.m, e, self.f) if self.root_is_global(e, env) else None
            if isinstance(r, (Func, Class, Ext, Module)):
                return Val(kind="func", fn=r)
            return self.attr(self.ev(e.value, env), e.attr, env)
        if t is ast.Subscript:
            base = self.ev(e.value, env)
            if base.kind == "func" and base.fn is not None:
                return base
            self.ev(e.slice, env)
            return self.index(base, e.slice, env)
        if t is ast.Call:
            return self.call(e, env)
        if t in (ast.Tuple, ast.List):
            parts, elem, starred = [], E, False
            for i, x in enumerate(e.elts):
                if isinstance(x, ast.Starred):
                    starred = True
                    elem |= all_roots(self.ev(x.value, env))
                else:
                    v = self.ev(x, env)
                    parts.append((f"#{i}", v))
            k = "tuple" if t is ast.Tuple else "list"
            if starred:
                for _, v in parts:
                    elem |= all_roots(v)
                return Val(elem=elem, kind=k)
            return Val(kind=k, parts=tuple(parts))
        if t is ast.Dict:
            parts, elem = [], E
            for k, v in zip(e.keys, e.values):
                vv = self.ev(v, env)
                if k is None:
                    if vv.parts is not None:
                        parts = [(a, b) for a, b in parts if a not in dict(vv.parts)] + list(vv.parts)
                    elem |= vv.elem | vv.own
                else:
                    self.ev(k, env)
                    if isinstance(k, ast.Constant) and isinstance(k.value, str):
                        parts = [(a, b) for a, b in parts if a != k.value] + [(k.value, vv)]
                    else:
                        elem |= all_roots(vv)
            return Val(kind="dict", parts=tuple(parts), elem=elem)
        if t is ast.Set:
            el = E
            for x in e.elts:
                el |= all_roots(self.ev(x, env))
            return Val(kind="list", elem=el)
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp):
            e2 = dict(env)
            for g in e.generators:
                self.assign(g.target, self.item(self.ev(g.iter, e2)), e2, e)  # type: ignore[arg-type]
                for c in g.ifs:
                    self.ev(c, e2)
            v = self.ev(e.elt, e2)
            for g in e.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        e2.pop(n.id, None)
            return Val(kind="list", elem=all_roots(v))
        if t is ast.DictComp:
            e2 = dict(env)
            for g in e.generators:
                self.assign(g.target, self.item(self.ev(g.iter, e2)), e2, e)  # type: ignore[arg-type]
                for c in g.ifs:
                    self.ev(c, e2)
            self.ev(e.key, e2)
            return Val(kind="dict", elem=all_roots(self.ev(e.value, e2)))
        if t is ast.IfExp:
            self.ev(e.test, env)
            return join(self.ev(e.body, env), self.ev(e.orelse, env))
        if t is ast.BoolOp:
            v = self.ev(e.values[0], env)
            for x in e.values[1:]:
                v = join(v, self.ev(x, env))
            return v
        if t is ast.BinOp:
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if a.kind == "scalar" and b.kind == "scalar":
                return SCALAR
            if a.kind in ("list", "tuple") and isinstance(e.op, ast.Add):
                return Val(kind=a.kind, elem=all_roots(a) | all_roots(b))
            return Val(kind="array") if "array" in (a.kind, b.kind) else Val()
        if t is ast.UnaryOp:
            v = self.ev(e.operand, env)
            return SCALAR if v.kind == "scalar" or isinstance(e.op, ast.Not) else Val(kind=v.kind)
        if t is ast.Compare:
            self.ev(e.left, env)
            for x in e.comparators:
                self.ev(x, env)
            return Val()
        if t is ast.NamedExpr:
            v = self.ev(e.value, env)
            self.assign(e.target, v, env, e)  # type: ignore[arg-type]
            return v
        if t is ast.Lambda:
            self.lambda_body(e, env)
            return Val(kind="func", fn=("lambda", e, dict(env)))
        if t is ast.Starred:
            return self.ev(e.value, env)
        if t is ast.JoinedStr or t is ast.FormattedValue:
            return SCALAR
        if t is ast.Slice:
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(x, env)
            return SCALAR
        if t in (ast.Yield, ast.YieldFrom, ast.Await):
            if e.value is not None:
                v = self.ev(e.value, env)
                w = Val(kind="list", elem=all_roots(v))
                self.ret = w if self.ret is None else join(self.ret, w)
            return Val()
        return Val()

    def root_is_global(self, e: ast.expr, env: dict[str, Val]) -> bool:
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
        return isinstance(e, ast.Name) and (e.id not in env or (env[e.id].kind == "func" and env[e.id].fn is not None and not isinstance(env[e.id].fn, tuple)))

    def lambda_body(self, e: ast.Lambda, env: dict[str, Val], args: list[Val] | None = None) -> Val:
        e2 = dict(env)
        for i, a in enumerate([*e.args.posonlyargs, *e.args.args]):
            e2[a.arg] = args[i] if args is not None and i < len(args) else Val()
        for a in e.args.kwonlyargs:
            e2[a.arg] = Val()
        return self.ev(e.body, e2)

    def call_nested(self, g: Func, cap: dict[str, Val], args: list[Val] | None, kws: dict[str, Val] | None) -> Val:
        key = (id(g.node),)
        if key in self._stack:
            return Val()
        self._stack.append(key)
        try:
            sub = Interp(self.an, g, Summary(), dict(cap))
            sub._stack = self._stack
            env = dict(cap)
            for i, prm in enumerate(g.params):
                if args is not None and prm.kind in ("pos", "posonly") and i < len(args):
                    env[prm.name] = args[i]
                elif kws is not None and prm.name in kws:
                    env[prm.name] = kws[prm.name]
                else:
                    env[prm.name] = Val()
            sub.block(g.node.body, env)
            for r, sites in sub.s.writes.items():
                for s in sites:
                    self.record(r, s)
            return sub.ret or FRESH
        finally:
            self._stack.pop()

    _stack: list = []

    # ------------------------------------------------------------------- calls
    def call(self, e: ast.Call, env: dict[str, Val]) -> Val:
        fn = e.func
        recv: Val | None = None
        callee: object = None
        mname = ""
        if isinstance(fn, ast.Attribute):
            r = self.p.resolve(self.m, fn, self.f) if self.root_is_global(fn, env) else None
            if isinstance(r, (Func, Class, Ext)):
                callee = r
            elif isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                recv = env.get("self", Val(kind="obj"))
                mname = fn.attr
                if self.f.cls is not None:
                    for k in self.p.mro(self.f.cls)[1:]:
                        if mname in k.methods:
                            callee = k.methods[mname]
                            break
                if callee is None:
                    for a in e.args:
                        self.ev(a, env)
                    for k2 in e.keywords:
                        self.ev(k2.value, env)
                    return Val()
            else:
                recv = self.ev(fn.value, env)
                mname = fn.attr
        else:
            v = self.ev(fn, env)
            callee = v.fn
            if callee is None and isinstance(fn, ast.Name):
                callee = self.p.resolve(self.m, fn, self.f)
        args: list[Val] = []
        star = False
        for a in e.args:
            v = self.ev(a, env)
            if isinstance(a, ast.Starred):
                star = True
                args.append(Val(own=all_roots(v), elem=all_roots(v)) if v.kind != "scalar" else SCALAR)
            else:
                args.append(v)
        kws: dict[str, Val] = {}
        starkw: list[Val] = []
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                starkw.append(v)
            else:
                kws[k.arg] = v
        if recv is not None and callee is None:
            return self.method_call(e, recv, mname, args, kws, env)
        if recv is not None and isinstance(callee, Func):  # super()
            return self.apply(callee, [recv, *args], kws, e, star)
        return self.dispatch(callee, args, kws, e, star, env)

    def dispatch(self, callee: object, args: list[Val], kws: dict[str, Val], e: ast.Call, star: bool, env: dict[str, Val]) -> Val:
        if isinstance(callee, tuple):
            if callee and callee[0] == "lambda":
                return self.lambda_body(callee[1], callee[2], args)
            if callee and callee[0] == "bound":
                out = None
                for f in callee[1]:
                    v = self.apply(f, [callee[2], *args], kws, e, star)
                    out = v if out is None else join(out, v)
                return out or Val()
            g, cap = callee
            return self.call_nested(g, {**cap, **{k: v for k, v in env.items() if k in cap}}, args, kws)
        if isinstance(callee, Func):
            return self.apply(callee, args, kws, e, star)
        if isinstance(callee, Class):
            self.an.stats["calls_resolved"] += 1
            init = self.p.find_method(callee, "__init__")
            el = E
            for v in [*args, *kws.values()]:
                el |= all_roots(v)
            if init is not None:
                self.apply(init, [Val(kind="obj", elem=el, cls=callee.qual), *args], kws, e, star)
            if self.p.is_typeddict(callee):
                return Val(kind="dict", elem=el, parts=tuple(kws.items()) if kws else None)
            return Val(kind="obj", elem=el, cls=callee.qual)
        self.an.stats["calls_external"] += 1
        if isinstance(callee, Ext):
            return self.ext_call(callee.name, args, kws, e, env)
        return Val()

    def apply(self, f: Func, args: list[Val], kws: dict[str, Val], e: ast.Call, star: bool) -> Val:
        self.an.stats["calls_resolved"] += 1
        bind: dict[str, Val] = {}
        pos = [p for p in f.params if p.kind in ("pos", "posonly")]
        if star:
            for i, a in enumerate(e.args):
                if isinstance(a, ast.Starred):
                    break
            off = len(args) - len(e.args)
            for j in range(min(i + off, len(pos))):
                bind[pos[j].name] = args[j]
            rest = Val()
            for v in args[i + off :]:
                rest = join(rest, Val(own=all_roots(v), elem=all_roots(v)))
            for p in pos[i + off :]:
                bind[p.name] = rest
            var = [p for p in f.params if p.kind == "var"]
            if var:
                bind[var[0].name] = Val(kind="tuple", elem=rest.own)
        else:
            for i, v in enumerate(args):
                if i < len(pos):
                    bind[pos[i].name] = v
            var = [p for p in f.params if p.kind == "var"]
            if var:
                el = E
                for v in args[len(pos) :]:
                    el |= all_roots(v)
                bind[var[0].name] = Val(kind="tuple", elem=el)
        for k, v in kws.items():
            bind[k] = v
        return self.instantiate(f, self.an.summary(f), bind, e)

    def instantiate(self, f: Func, s: Summary, bind: dict[str, Val], e: ast.AST | None) -> Val:
        for r, sites in s.writes.items():
            if r[0] not in bind:
                continue
            v = self.nav(bind[r[0]], r[1])
            for root in v.own:
                for site in sites:
                    if len(site.chain) < 8:
                        self.record(root, Site(site.leaf, site.what, site.loc, site.text, (self.f.short, *site.chain)))
        return self.subst(s.ret, bind)

    def subst(self, v: Val, bind: dict[str, Val]) -> Val:
        own, elem, kind, nd, cls = E, E, v.kind, v.nd, v.cls
        for r in v.own:
            if r[0] in bind:
                x = self.nav(bind[r[0]], r[1])
                own |= x.own
                elem |= x.elem
                if x.parts is not None:
                    for _, y in x.parts:
                        elem |= all_roots(y)
                if kind is None:
                    kind = x.kind
        for r in v.elem:
            if r[0] in bind:
                x = self.nav(bind[r[0]], r[1])
                elem |= all_roots(x)
        parts = None
        if v.parts is not None:
            parts = tuple((k, self.subst(x, bind)) for k, x in v.parts)
        if not v.parts and len(v.own) == 1 and not v.elem:
            (r,) = v.own
            if r[0] in bind and not r[1] and v.kind in (None, "dict", "obj"):
                x = bind[r[0]]
                if x.parts is not None:
                    return x
        return Val(own, elem, kind, nd, v.ncontig, parts, cls, None)

    def method_call(self, e: ast.Call, recv: Val, name: str, args: list[Val], kws: dict[str, Val], env: dict[str, Val]) -> Val:
        if recv.kind in ("mpl",):
            return Val(kind="mpl")
        if recv.kind == "rng":
            if name == "shuffle" and args:
                self.write(args[0], e, f"'{ast.unparse(e)[:80]}' shuffles it in place")
            return Val(kind="array")
        if "out" in kws:
            o = kws["out"]
            self.write(o, e, f"'{ast.unparse(e)[:80]}' uses it as output buffer")
        candidates: list[Func] = []
        if recv.kind == "obj" or recv.kind is None or recv.cls:
            if recv.cls is not None and recv.cls in self.an.instances:
                c = self.an.instances[recv.cls]
                m = self.p.find_method(c, name)
                if m is not None:
                    candidates = [m]
                for sub in self.p.subclasses(c):
                    if name in sub.methods and sub.methods[name] not in candidates:
                        candidates.append(sub.methods[name])
            elif name not in MUT_METHODS | VIEW_METHODS | FRESH_METHODS | {"copy", "get", "items", "values", "keys"}:
                candidates = [m for m in self.p.methods_by_name.get(name, []) if not m.is_property]
        if candidates:
            out = None
            for m in candidates:
                if _is_stub(m):
                    continue
                recv_args = args if m.is_static else [recv, *args]
                v = self.apply(m, recv_args, kws, e, any(isinstance(a, ast.Starred) for a in e.args))
                out = v if out is None else join(out, v)
            return out or Val()
        if recv.kind == "func":
            if isinstance(recv.fn, (Class,)):
                m = self.p.find_method(recv.fn, name)
                if m is not None:
                    return self.apply(m, args, kws, e, False)
            return Val()
        if name == "sort" and recv.kind == "scalar":
            return Val()
        if name in MUT_METHODS and recv.kind not in ("scalar",):
            if recv.kind == "obj" and recv.cls is None and name in ("add", "update"):
                pass
            self.write(recv, e, f"'{ast.unparse(e)[:80]}' modifies it")
            if name in ("append", "extend", "insert", "update", "add", "setdefault"):
                el = E
                for v in [*args, *kws.values()]:
                    el |= all_roots(v)
                base = e.func.value  # type: ignore[union-attr]
                if isinstance(base, ast.Name) and base.id in env:
                    env[base.id] = replace(env[base.id], elem=env[base.id].elem | el, parts=None if env[base.id].kind == "list" else env[base.id].parts)
            if name in ("pop", "setdefault", "popitem"):
                return self.item(recv)
            return Val()
        if name in VIEW_METHODS:
            if name in ("reshape", "ravel") and recv.ncontig:
                return Val(kind="array", nd=1 if name == "ravel" else None)
            nd: int | None = None
            if name == "ravel":
                nd = 1
            elif name == "reshape":
                ea = [a for a in e.args]
                if len(ea) == 1 and isinstance(ea[0], (ast.UnaryOp, ast.Constant)):
                    nd = 1
                else:
                    nd = 2
            else:
                nd = recv.nd
            return Val(own=recv.own, elem=E if recv.kind == "array" else recv.elem, kind="array", nd=nd, ncontig=recv.ncontig or name in SWAP)
        if name == "astype":
            if any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                return Val(own=recv.own, kind="array", nd=recv.nd)
            return Val(kind="array", nd=recv.nd)
        if name == "byteswap":
            if args:
                self.write(recv, e, "byteswap in place")
            return Val(kind="array")
        if name == "copy":
            if recv.kind == "array":
                return Val(kind="array", nd=recv.nd)
            if recv.kind == "list":
                return Val(kind="list", elem=all_roots(recv))
            if recv.kind == "dict":
                return Val(kind="dict", elem=frozenset(recv.own) | recv.elem, parts=recv.parts)
            return Val()
        if name in FRESH_METHODS:
            return Val(kind="array" if recv.kind == "array" else None)
        if name == "get" and e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
            return self.key(recv, e.args[0].value)
        if name in ("items",):
            it = self.item(recv)
            return Val(kind="list", elem=all_roots(it))
        if name in ("values", "get"):
            return Val(kind="list", elem=all_roots(self.item(recv))) if name == "values" else self.item(recv)
        return Val()

    def ext_call(self, name: str, args: list[Val], kws: dict[str, Val], e: ast.Call, env: dict[str, Val]) -> Val:
        last = name.rsplit(".", 1)[-1]
        top = name.split(".", 1)[0]
        if "out" in kws:
            o = kws["out"]
            self.write(o, e, f"'{ast.unparse(e)[:80]}' uses it as output buffer")
            if o.parts is not None:
                for _, x in o.parts:
                    self.write(x, e, f"'{ast.unparse(e)[:80]}' uses it as output buffer")
        for k in e.keywords:
            if k.arg and k.arg.startswith("overwrite_") and isinstance(k.value, ast.Constant) and k.value.value is True:
                i = {"overwrite_b": 1}.get(k.arg, 0)
                if len(args) > i:
                    self.write(args[i], e, f"'{k.arg}=True' lets the routine destroy it")
        if top == "numpy":
            if last in NP_MUT_FIRST and args:
                self.write(args[0], e, f"'{ast.unparse(e)[:80]}' writes into it")
                return Val()
            if last == "at" and name.count(".") >= 2 and args:
                self.write(args[0], e, f"'{ast.unparse(e)[:80]}' writes into it")
                return Val()
            if last in UFUNCS:
                n = 1 if last in UNARY_UFUNCS else 2
                if len(args) > n:
                    self.write(args[n], e, f"'{ast.unparse(e)[:80]}' uses it as output buffer")
            if last == "einsum":
                # einsum may return a view of its operand when nothing is summed or multiplied
                ops = [a for a in args[1:]]
                if len(ops) == 1 and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
                    sub = e.args[0].value.replace(" ", "").replace("...", "")
                    if "->" in sub:
                        i, o = sub.split("->")
                        if set(i) == set(o):
                            return Val(own=ops[0].own, kind="array", ncontig=True)
                return Val(kind="array")
            if last == "nan_to_num":
                if any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords) and args:
                    self.write(args[0], e, "nan_to_num(copy=False) rewrites it")
                return Val(kind="array")
            if last == "array":
                if any(k.arg == "copy" and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords) and args:
                    return Val(own=args[0].own if args[0].kind != "list" else E, kind="array")
                return Val(kind="array")
            if last in NP_VIEW and args:
                a = args[0]
                if a.kind in ("list", "tuple", "scalar"):
                    return Val(kind="array")
                if last in ("reshape", "ravel") and a.ncontig:
                    return Val(kind="array")
                nd = 1 if last == "ravel" else (a.nd if last in ("asarray", "asanyarray", "real", "imag", "ascontiguousarray") else (2 if last == "reshape" else None))
                return Val(own=a.own, kind="array", nd=nd, ncontig=a.ncontig or last in SWAP)
            if last in ("split", "array_split", "hsplit", "vsplit", "broadcast_arrays", "meshgrid") and args:
                el = E
                if last != "meshgrid":
                    for a in args:
                        el |= all_roots(a)
                return Val(kind="list", elem=el)
            if last in ("apply_along_axis", "vectorize", "frompyfunc"):
                return Val(kind="array")
            if last in ("default_rng", "RandomState"):
                return Val(kind="rng")
            return Val(kind="array")
        if top == "builtins":
            if last in ("list", "tuple", "sorted", "reversed", "iter", "set", "frozenset", "filter"):
                el = E
                src = args[-1] if last == "filter" and args else (args[0] if args else FRESH)
                it = self.item(src)
                el = all_roots(it)
                if src.kind == "scalar":
                    return Val(kind="list")
                return Val(kind="list", elem=el)
            if last == "enumerate" and args:
                return Val(kind="list", elem=E, parts=None) if args[0].kind == "scalar" else _tuple_iter([SCALAR, self.item(args[0])])
            if last == "zip":
                return _tuple_iter([self.item(a) for a in args])
            if last == "map" and args:
                its = [self.item(a) for a in args[1:]]
                v = self.dispatch(args[0].fn, its, {}, ast.Call(func=e.func, args=[], keywords=[]), False, env) if args[0].fn is not None else Val()
                return Val(kind="list", elem=all_roots(v))
            if last == "dict":
                el = E
                parts = tuple(kws.items())
                for a in args:
                    el |= a.own | a.elem
                    if a.parts is not None:
                        parts = (*[x for x in a.parts if x[0] not in kws], *parts)
                return Val(kind="dict", elem=el, parts=parts if parts else None)
            if last == "next" and args:
                return self.item(args[0])
            if last in ("range", "len", "int", "float", "complex", "str", "bool", "repr", "isinstance", "hash", "print", "round", "abs", "sum", "min", "max", "any", "all", "type", "callable", "format", "id"):
                return SCALAR if last not in ("sum", "min", "max", "abs", "round") else Val(kind="scalar" if all(a.kind == "scalar" for a in args) else None)
            if last == "getattr" and args:
                return Val(own=args[0].own, elem=args[0].elem)
            if last == "setattr" and args:
                self.write(args[0], e, "setattr on it")
                return Val()
            if last == "slice":
                return SCALAR
            return Val()
        if name in ("typing.cast",) and len(args) > 1:
            return args[1]
        if name in ("copy.copy",) and args:
            a = args[0]
            return Val(kind=a.kind, elem=frozenset(a.own) | a.elem, parts=a.parts) if a.kind in ("dict", "obj", "list", None) else Val(kind=a.kind)
        if name == "copy.deepcopy":
            return Val(kind=args[0].kind if args else None)
        if name == "random.shuffle" and args:
            self.write(args[0], e, "random.shuffle reorders it in place")
            return Val()
        if name in ("heapq.heappush", "heapq.heappop", "heapq.heapify", "bisect.insort") and args:
            self.write(args[0], e, f"{name} modifies it")
            return Val()
        if top == "itertools":
            el = E
            for a in args:
                el |= all_roots(self.item(a))
            return Val(kind="list", elem=el)
        if top in ("scipy", "math", "cmath"):
            return Val(kind="array")
        if top == "matplotlib":
            return Val(kind="mpl")
        return Val()


def _tuple_iter(items: list[Val]) -> Val:
    """An iterable whose items are tuples of the given values."""
    return Val(kind="tupleiter", parts=(("#it", Val(kind="tuple", parts=tuple((f"#{i}", v) for i, v in enumerate(items)))),))


_stubs: dict[int, bool] = {}


def _is_stub(f: Func) -> bool:
    from .model import is_stub

    if id(f) not in _stubs:
        _stubs[id(f)] = is_stub(f.node)
    return _stubs[id(f)]


def analyse(project: Project, tier: str):
    from .report import Result

    res = Result()
    an = Purity(project)
    publics = 0
    params = 0
    for f in project.funcs:
        if f.parent is None:
            an.summary(f)
    seen: dict[tuple[str, str], tuple[Site, Func, Root]] = {}
    for f in project.funcs:
        if not f.is_public or f.parent is not None:
            continue
        publics += 1
        params += len(f.bound_params)
        for r, sites in an.summary(f).writes.items():
            prm = f.param(r[0])
            if prm is None:
                continue
            if f.cls is not None and f.params and r[0] == f.params[0].name and f.name in ("__init__",):
                continue
            for s in sites:
                k = (s.leaf, s.what)
                if k not in seen or len(s.chain) < len(seen[k][0].chain):
                    seen[k] = (s, f, r)
    for (leaf, what), (s, f, r) in sorted(seen.items()):
        via = "" if f.short == leaf else f" (reached from public {f.short} through argument '{path_str(r)}'" + (
            f": {' -> '.join([*s.chain, leaf])})" if s.chain else ")"
        )
        res.add("writes-argument", leaf, what, s.loc, f"writes to the caller's '{what}': {s.text}{via}")
    res.counts = {
        "public_functions": publics,
        "parameters": params,
        "functions_summarised": len(an.summaries),
        **an.stats,
    }
    res.floors = {"public_functions": 600, "writes_examined": 120, "calls_resolved": 1500}
    for f in project.funcs:
        if f.is_public and f.parent is None:
            s = an.summary(f)
            if all_roots(s.ret):
                res.count("results_sharing_storage_with_arguments")
                res.sample(f"{f.short}: result may share {', '.join(sorted(path_str(x) for x in all_roots(s.ret))[:4])}; writes none of its arguments" if not s.writes else f"{f.short} writes {sorted(path_str(x) for x in s.writes)}")
    res.explanation = (
        "Interprocedural may-alias and effect analysis of every function in the package: for each public function, the set of "
        "parameter paths that any statement reachable from it may write (element/attribute/key stores, in-place operators on arrays and "
        "lists, mutating methods, numpy routines that write an argument, out=/overwrite_* buffers) must be empty."
    )
    res.assumptions = [
        "callables passed in by the user do not modify what they are given",
        "an index whose kind cannot be determined is taken to be a fancy (copying) index",
        "third-party routines not in the writer table do not write their arguments",
    ]
    return res
