"""C14: no result contains storage that was never written, and writes reach the storage they are meant for."""

from __future__ import annotations

import ast

from .model import Ext, Func, Project, walk_own
from .report import Result

# ------------------------------------------------------------------------------ sizes as linear forms
Lin = tuple  # ((atom, coefficient), ...) sorted; atom "" is the constant


def lin(d: dict) -> Lin:
    return tuple(sorted((k, v) for k, v in d.items() if v))


def const(n: int) -> Lin:
    return lin({"": n})


def add(a: Lin, b: Lin, sign: int = 1) -> Lin:
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + sign * v
    return lin(d)


def difference(a: Lin, b: Lin) -> int | None:
    """a - b if it is a known number."""
    d = dict(add(a, b, -1))
    if not d:
        return 0
    if set(d) == {""}:
        return d[""]
    return None


class Sizes:
    """Normalises size expressions of one function, following names that are assigned once."""

    def __init__(self, f: Func, project: Project) -> None:
        self.f = f
        self.p = project
        self.single: dict[str, ast.expr | None] = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self._bind(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self._bind(n.target, n.value)
            elif isinstance(n, ast.NamedExpr):
                self._bind(n.target, n.value)
            elif isinstance(n, (ast.AugAssign, ast.For)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self.single[x.id] = None

    def _bind(self, t: ast.expr, v: ast.expr) -> None:
        if isinstance(t, ast.Name):
            self.single[t.id] = None if t.id in self.single else v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                if vs is not None:
                    self._bind(x, vs[i])
                elif isinstance(x, ast.Name) and x.id not in self.single:
                    sub = ast.Subscript(value=v, slice=ast.Constant(value=i), ctx=ast.Load())
                    self.single[x.id] = sub
                elif isinstance(x, ast.Name):
                    self.single[x.id] = None
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in self.single:
                self.single[x.id] = None

    def value(self, e: ast.expr, depth: int = 6) -> ast.expr:
        """Follow names to what they were assigned."""
        while isinstance(e, ast.Name) and depth and self.single.get(e.id) is not None:
            e = self.single[e.id]
            depth -= 1
        return e

    def lin(self, e: ast.expr | None, depth: int = 6) -> Lin | None:
        if e is None:
            return None
        e = self.value(e, depth)
        if isinstance(e, ast.Constant):
            return const(e.value) if isinstance(e.value, int) and not isinstance(e.value, bool) else None
        if isinstance(e, ast.BinOp) and depth:
            a, b = self.lin(e.left, depth - 1), self.lin(e.right, depth - 1)
            if a is None or b is None:
                return None
            if isinstance(e.op, (ast.Add, ast.Sub)):
                return add(a, b, 1 if isinstance(e.op, ast.Add) else -1)
            if isinstance(e.op, ast.Mult):
                for x, y in ((a, b), (b, a)):
                    if set(dict(x)) <= {""}:
                        k = dict(x).get("", 0)
                        return lin({n: v * k for n, v in y})
            return lin({self.atom(e): 1})
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            a = self.lin(e.operand, depth)
            return None if a is None else add(const(0), a, -1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "int" and len(e.args) == 1:
            return self.lin(e.args[0], depth)
        return lin({self.atom(e): 1})

    def storage(self, e: ast.expr) -> str:
        """The array whose elements these are, whatever its current shape."""
        e = self.value(e)
        while isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("reshape", "ravel", "flatten", "swapaxes", "transpose", "copy", "astype", "conj"):
            e = self.value(e.func.value)
        return self.atom(e)

    def atom(self, e: ast.expr) -> str:
        e2 = self.value(e)
        if isinstance(e2, ast.Call) and isinstance(e2.func, ast.Name) and e2.func.id == "len" and len(e2.args) == 1:
            a = self.value(e2.args[0])
            return f"{self.atom(a)}.shape[0]"
        if isinstance(e2, ast.BinOp) and isinstance(e2.op, ast.FloorDiv):
            return f"quot({self.atom(e2.left)};{self.atom(e2.right)})"
        if isinstance(e2, ast.Attribute) and e2.attr == "size":
            return f"size({self.storage(e2.value)})"
        if isinstance(e2, ast.Attribute):
            return f"{self.atom(e2.value)}.{e2.attr}"
        if isinstance(e2, ast.Subscript) and isinstance(e2.value, ast.Attribute) and e2.value.attr == "shape" and isinstance(e2.slice, ast.Constant) and e2.slice.value == 0:
            v = self.value(e2.value.value)
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "reshape" and len(v.args) == 2 and ast.unparse(v.args[0]) == "-1":
                return f"quot(size({self.storage(v.func.value)});{self.atom(v.args[1])})"
        if isinstance(e2, ast.Subscript):
            return f"{self.atom(e2.value)}[{self.atom(e2.slice)}]"
        return ast.unparse(e2)


# ------------------------------------------------------------------------------ regions
ALL = ("all",)


class Buffer:
    def __init__(self, name: str, dims: list[Lin | None] | None, node: ast.AST, how: str) -> None:
        self.name = name
        self.dims = dims  # None: rank unknown
        self.node = node
        self.how = how


def covers_axis(iv: list[tuple[Lin | None, Lin | None]], dim: Lin | None, other_dims: list[Lin | None]) -> bool:
    """Do the half-open intervals cover [0, dim)? Bounds that cannot be compared are given the benefit of the doubt."""
    cur: Lin = const(0)
    rest = list(iv)
    while True:
        nxt = None
        for x in rest:
            lo, hi = x
            d = None if lo is None else difference(lo, cur)
            if lo is not None and d is not None and d <= 0:
                nxt = x
                # prefer the one that reaches furthest
                if hi == ("end",):
                    break
        if nxt is None:
            return False
        rest.remove(nxt)
        hi = nxt[1]
        if hi == ("end",):
            return True
        if hi is None:
            return True
        if len(hi) == 1 and hi[0][0].startswith(("min(", "np.minimum(", "np.min(")):
            return False  # by construction it may stop short
        if dim is None:
            return True
        d = difference(hi, dim)
        if d is not None and d >= 0:
            return True
        if d is None and len(hi) == 1 and dim is not None and len(dim) == 1 and hi[0][0].startswith("quot(") and dim[0][0].startswith("quot(") and hi[0][0].split(";")[0] == dim[0][0].split(";")[0]:
            return False  # the same elements split along another axis
        if d is None:
            # not comparable with this axis: does it end somewhere else on purpose?
            if any(o is not None and difference(hi, o) == 0 for o in other_dims):
                return False
            if rest and any(lo is not None and difference(lo, hi) is not None for lo, _ in rest):
                cur = hi
                continue
            return not rest or True
        cur = hi


def full(regions: list[tuple], buf: Buffer) -> bool:
    regions = [tuple(r) for r in regions]
    if any(all(x == ALL for x in r) for r in regions):
        return True
    rank = max((len(r) for r in regions), default=0)
    dims = buf.dims
    padded = [tuple([*r, *[ALL] * (rank - len(r))]) for r in regions]

    def axis_dim(i: int) -> Lin | None:
        return dims[i] if dims is not None and i < len(dims) else None

    # reduce one axis at a time: regions that agree elsewhere are merged along the axis
    changed = True
    while changed:
        changed = False
        for ax in range(rank):
            groups: dict[tuple, list] = {}
            for r in padded:
                if r[ax] != ALL:
                    groups.setdefault(r[:ax] + (None,) + r[ax + 1 :], []).append(r[ax])
            for key, ivs in groups.items():
                others = [d for i, d in enumerate(dims or []) if i != ax]
                if all(x[0] == "iv" for x in ivs) and covers_axis([(x[1], x[2]) for x in ivs], axis_dim(ax), others):
                    new = key[:ax] + (ALL,) + key[ax + 1 :]
                    if new not in padded:
                        padded.append(new)
                        changed = True
    return any(all(x == ALL for x in r) for r in padded)


class Coverage:
    def __init__(self, f: Func, project: Project, buf: Buffer, sizes: Sizes, an: "Analysis") -> None:
        self.f, self.p, self.buf, self.sizes, self.an = f, project, buf, sizes, an
        self.aliases = {buf.name}
        self.parts: dict[str, list[ast.expr]] = {}  # names of views of a part of the buffer
        self.reads: list[ast.AST] = []

    def rooted(self, e: ast.expr) -> list[ast.expr] | None:
        """Index expressions (outermost dimension first) if e denotes part of the buffer."""
        idx: list[ast.expr] = []
        while isinstance(e, ast.Subscript):
            s = e.slice
            idx = [*(s.elts if isinstance(s, ast.Tuple) else [s]), *idx] if not idx else [*(s.elts if isinstance(s, ast.Tuple) else [s]), *idx]
            e = e.value
        if isinstance(e, ast.Name) and e.id in self.aliases:
            return idx
        if isinstance(e, ast.Name) and e.id in self.parts:
            return self.parts[e.id]
        return None

    def written_name(self, name: str) -> bool:
        """Is something stored in (or output to) the storage this name refers to?"""
        for n in walk_own(self.f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                b = n.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Name) and b.id == name:
                    return True
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                return True
            elif isinstance(n, ast.keyword) and n.arg == "out" and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.value)):
                return True
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr == "fill" and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                    return True
                if any(isinstance(a, ast.Name) and a.id == name for a in n.args):
                    r = self.p.resolve(self.f.module, n.func, self.f)
                    if isinstance(r, Ext) and r.name.startswith("numpy."):
                        if r.name.endswith("copyto") and isinstance(n.args[0], ast.Name) and n.args[0].id == name:
                            return True
                        if self.an.third_is_out(r.name, len(n.args)) and isinstance(n.args[-1], ast.Name) and n.args[-1].id == name:
                            return True
                    elif isinstance(r, Func):
                        from .calls import bind_args

                        if any(isinstance(a, ast.Name) and a.id == name and self.an.fills(r, q) for q, a in bind_args(r, n)[0].items()):
                            return True
        return False

    def region(self, idx: list[ast.expr], loops: dict[str, tuple]) -> tuple | None:
        out = []
        for i, x in enumerate(idx):
            if isinstance(x, ast.Constant) and x.value is Ellipsis:
                if i == len(idx) - 1:
                    break
                return None
            if isinstance(x, ast.Slice):
                if x.step is not None and not (isinstance(x.step, ast.Constant) and x.step.value in (1, -1, None)):
                    return None
                if x.lower is None and x.upper is None:
                    out.append(ALL)
                    continue
                lo = const(0) if x.lower is None else self.sizes.lin(x.lower)
                if x.upper is None:
                    hi = ("end",)
                else:
                    hi = self.sizes.lin(x.upper)
                    if hi is not None and not [k for k, _ in hi if k] and dict(hi).get("", 0) < 0:
                        dim = self.buf.dims[i] if self.buf.dims is not None and i < len(self.buf.dims) else None
                        hi = add(dim, hi) if dim is not None else None
                        if hi is None:
                            return None
                out.append(("iv", lo, hi))
                continue
            names = [n.id for n in ast.walk(x) if isinstance(n, ast.Name) and n.id in loops]
            if len(names) == 1:
                kind = loops[names[0]]
                if isinstance(x, ast.Name):
                    out.append(("var", x.id, const(0)))
                    continue
                l = self.sizes.lin(x)
                if l is not None and dict(l).get(names[0]) == 1:
                    out.append(("var", names[0], add(l, lin({names[0]: 1}), -1)))
                    continue
                return None
            l = self.sizes.lin(x)
            if l is not None and not names and isinstance(self.sizes.value(x), (ast.Constant, ast.BinOp, ast.UnaryOp)):
                if not [k for k, _ in l if k] and dict(l).get("", 0) < 0:
                    dim = self.buf.dims[i] if self.buf.dims is not None and i < len(self.buf.dims) else None
                    if dim is None:
                        return None
                    l = add(dim, l)
                out.append(("iv", l, add(l, const(1))))
                continue
            if isinstance(x, ast.Tuple) or not isinstance(x, ast.Name):
                return None
            return None
        return tuple(out) or (ALL,)

    def writes_in_expr(self, e: ast.AST, loops: dict) -> list[tuple]:
        out = []
        for c in ast.walk(e):
            if not isinstance(c, ast.Call):
                continue
            for k in c.keywords:
                if k.arg == "out":
                    for v in k.value.elts if isinstance(k.value, ast.Tuple) else [k.value]:
                        idx = self.rooted(v)
                        if idx is not None:
                            r = self.region(idx, loops)
                            if r is not None:
                                out.append(r)
            if isinstance(c.func, ast.Attribute) and c.func.attr == "fill":
                idx = self.rooted(c.func.value)
                if idx is not None:
                    r = self.region(idx, loops)
                    if r is not None:
                        out.append(r)
            r = self.p.resolve(self.f.module, c.func, self.f)
            if isinstance(r, Ext) and r.name.startswith("numpy.") and r.name.split(".")[-1] == "copyto" and c.args:
                idx = self.rooted(c.args[0])
                if idx is not None and not any(k.arg == "where" for k in c.keywords):
                    g = self.region(idx, loops)
                    if g is not None:
                        out.append(g)
            elif isinstance(r, Ext) and r.name.startswith("numpy.") and c.args:
                idx = self.rooted(c.args[-1])
                if idx is not None and self.an.third_is_out(r.name, len(c.args)):
                    g = self.region(idx, loops)
                    if g is not None:
                        out.append(g)
            elif isinstance(r, Func):
                from .calls import bind_args

                bound, _ = bind_args(r, c)
                for q, a in bound.items():
                    idx = self.rooted(a)
                    if idx is not None and self.an.fills(r, q):
                        g = self.region(idx, loops)
                        out.append(g if g is not None else (ALL,))
        return out

    def read_in(self, e: ast.AST | None) -> bool:
        """Is the buffer's content used in e (other than its shape or as a place to write to)?"""
        if e is None:
            return False
        skip: set[int] = set()
        for c in ast.walk(e):
            if isinstance(c, ast.Attribute) and c.attr in ("shape", "size", "ndim", "dtype", "nbytes", "itemsize"):
                skip |= {id(x) for x in ast.walk(c.value)}
            if isinstance(c, ast.Call):
                for k in c.keywords:
                    if k.arg == "out":
                        skip |= {id(x) for x in ast.walk(k.value)}
                if isinstance(c.func, ast.Attribute) and c.func.attr == "fill":
                    skip |= {id(x) for x in ast.walk(c.func.value)}
                if isinstance(c.func, ast.Name) and c.func.id == "len":
                    skip |= {id(x) for a in c.args for x in ast.walk(a)}
                r = self.p.resolve(self.f.module, c.func, self.f)
                if isinstance(r, Ext) and r.name.startswith("numpy.") and c.args and (r.name.endswith("copyto") or r.name.split(".")[-1] in ("shape", "size", "ndim", "empty_like", "zeros_like", "ones_like", "full_like")):
                    skip |= {id(x) for x in ast.walk(c.args[0])}
                elif isinstance(r, Ext) and r.name.startswith("numpy.") and c.args and self.an.third_is_out(r.name, len(c.args)):
                    skip |= {id(x) for x in ast.walk(c.args[-1])}
                elif isinstance(r, Func):
                    from .calls import bind_args

                    bound, _ = bind_args(r, c)
                    for q, a in bound.items():
                        if self.rooted(a) is not None and self.an.fills(r, q):
                            skip |= {id(x) for x in ast.walk(a)}
        for c in ast.walk(e):
            if isinstance(c, ast.Name) and c.id in self.aliases and isinstance(c.ctx, ast.Load) and id(c) not in skip:
                return True
        return False

    # statements: returns regions definitely written by the block, or None if the block never completes
    def block(self, body: list[ast.stmt], loops: dict, have: list[tuple]) -> list[tuple] | None:
        got: list[tuple] = []
        for st in body:
            r = self.stmt(st, loops, [*have, *got])
            if r is None:
                return None
            got += r
        return got

    def check_read(self, e: ast.AST | None, have: list[tuple], node: ast.AST) -> None:
        if self.read_in(e) and not full(have, self.buf):
            self.reads.append(node)

    def stmt(self, st: ast.stmt, loops: dict, have: list[tuple]) -> list[tuple] | None:
        if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            v = st.value
            if v is None:
                return []
            targets = st.targets if isinstance(st, ast.Assign) else [st.target]
            # a view of the buffer under another name
            root = self.view_root(v)
            if root and len(targets) == 1 and isinstance(targets[0], ast.Name):
                self.aliases.add(targets[0].id)
                return []
            if isinstance(v, ast.Subscript) and len(targets) == 1 and isinstance(targets[0], ast.Name) and self.rooted(v) is not None and self.written_name(targets[0].id):
                self.parts[targets[0].id] = self.rooted(v)
                return []
            self.check_read(v, have, st)
            out = self.writes_in_expr(v, loops)
            for t in targets:
                if isinstance(t, (ast.Tuple, ast.List)):
                    subs = t.elts
                else:
                    subs = [t]
                for x in subs:
                    if isinstance(x, ast.Subscript):
                        idx = self.rooted(x)
                        if idx is not None:
                            if isinstance(st, ast.AugAssign):
                                if not full(have, self.buf) and not self.within(self.region(idx, loops), have):
                                    self.reads.append(st)
                                continue
                            r = self.region(idx, loops)
                            if r is not None:
                                out.append(r)
                    elif isinstance(x, ast.Name) and isinstance(st, ast.AugAssign) and x.id in self.aliases and not full(have, self.buf):
                        self.reads.append(st)
            return out
        if isinstance(st, ast.Expr):
            self.check_read(st.value, have, st)
            return self.writes_in_expr(st.value, loops)
        if isinstance(st, ast.Return):
            self.check_read(st.value, have, st)
            return None
        if isinstance(st, ast.Raise):
            return None
        if isinstance(st, ast.If):
            self.check_read(st.test, have, st)
            a = self.block(st.body, loops, have)
            b = self.block(st.orelse, loops, have)
            if a is None:
                return b
            if b is None:
                return a
            both = [r for r in a if r in b]
            if full([*have, *a], self.buf) and full([*have, *b], self.buf):
                both.append((ALL,))
            return both
        if isinstance(st, (ast.For, ast.AsyncFor)):
            rows = self.row_targets(st)
            if rows is None:
                self.check_read(st.iter, have, st)
            else:
                self.parts.update(rows)
            inner = dict(loops)
            bounds = self.loop_vars(st.target, st.iter)
            inner.update(bounds)
            stored = any(isinstance(x, (ast.Subscript,)) and isinstance(x.ctx, ast.Store) and self.rooted(x) is not None for x in ast.walk(st))
            r = self.block(st.body, inner, have)
            if r is None:
                return []
            if any(isinstance(x, (ast.Break, ast.Continue)) for s in st.body for x in ast.walk(s)) and stored:
                return self.block(st.orelse, loops, have) or []
            out = []
            for reg in r:
                new = []
                ok = True
                vs = [x[1] for x in reg if x[0] == "var" and x[1] in bounds]
                for x in reg:
                    if x[0] == "var" and x[1] in bounds:
                        b = bounds[x[1]]
                        if b[0] == "unknown" or vs.count(x[1]) > 1:
                            ok = False
                            break
                        lo, hi = b[1], b[2]
                        new.append(("iv", None if lo is None else add(lo, x[2]), None if hi is None else add(hi, x[2])))
                    else:
                        new.append(x)
                if not ok:
                    continue
                # loop variables moving in lockstep only cover a diagonal
                grp = [bounds[v][3] for v in vs]
                if len(grp) > 1 and len(set(grp)) < len(grp):
                    continue
                if not vs and not bounds:
                    out.append(tuple(new))
                elif not vs:
                    continue  # the loop may run zero times
                else:
                    out.append(tuple(new))
            return out
        if isinstance(st, ast.While):
            self.check_read(st.test, have, st)
            self.block(st.body, loops, have)
            # how often a while loop runs is not decided: one that fills the buffer is taken to fill it
            stored = any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and self.rooted(x) is not None for x in ast.walk(st))
            return [(ALL,)] if stored else []
        if isinstance(st, (ast.With, ast.AsyncWith)):
            return self.block(st.body, loops, have)
        if isinstance(st, ast.Try):
            a = self.block(st.body, loops, have)
            hs = [self.block(h.body, loops, have) for h in st.handlers]
            if a is None:
                return next((h for h in hs if h is not None), None)
            live = [h for h in hs if h is not None]
            return a if not live else [r for r in a if all(r in h for h in live)]
        if isinstance(st, ast.FunctionDef):
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and x.id in self.aliases and isinstance(x.ctx, ast.Load):
                    return []
            return []
        if isinstance(st, ast.Match):
            outs = [self.block(c.body, loops, have) for c in st.cases]
            live = [o for o in outs if o is not None]
            exhaustive = any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in st.cases)
            return [r for r in live[0] if all(r in o for o in live)] if live and exhaustive else []
        return []

    def row_targets(self, st: ast.For) -> dict[str, list[ast.expr]] | None:
        """Iterating over the rows of the buffer in order to write to them (or just to count them) reads nothing."""
        it, t = st.iter, st.target
        pairs: list[tuple[ast.expr, ast.expr, ast.expr | None]] = []
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and len(it.args) == 1 and isinstance(t, ast.Tuple) and len(t.elts) == 2:
            pairs = [(t.elts[1], it.args[0], t.elts[0])]
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip" and isinstance(t, ast.Tuple) and len(t.elts) == len(it.args):
            pairs = [(a, b, None) for a, b in zip(t.elts, it.args)]
        else:
            pairs = [(t, it, None)]
        out: dict[str, list[ast.expr]] = {}
        found = False
        for tgt, src, index in pairs:
            if not (isinstance(src, ast.Name) and src.id in self.aliases):
                if self.read_in(src):
                    return None
                continue
            found = True
            if not isinstance(tgt, ast.Name):
                return None
            used = any(isinstance(n, ast.Name) and n.id == tgt.id and isinstance(n.ctx, ast.Load) for s in st.body for n in ast.walk(s))
            if used and not self.written_name(tgt.id):
                return None
            if used:
                # each row is visited once
                out[tgt.id] = [index] if index is not None else [ast.Slice()]
        return out if found else None

    def within(self, r: tuple | None, have: list[tuple]) -> bool:
        return r is not None and r in have

    def view_root(self, v: ast.expr) -> bool:
        """A fresh contiguous buffer reshaped, transposed or renamed is still the same storage."""
        e = v
        moved = False
        while isinstance(e, (ast.Call, ast.Attribute)):
            if isinstance(e, ast.Call):
                if not isinstance(e.func, ast.Attribute):
                    return False
                name = e.func.attr
                if name in ("reshape", "ravel"):
                    pass
                elif name in ("swapaxes", "transpose", "view", "squeeze"):
                    moved = moved or name in ("swapaxes", "transpose")
                else:
                    return False
                e = e.func.value
            else:
                if e.attr != "T":
                    return False
                e = e.value
        return isinstance(e, ast.Name) and e.id in self.aliases and not self.an.copying_chain(v)

    def loop_vars(self, target: ast.expr, it: ast.expr) -> dict[str, tuple]:
        """name -> ('range', lo, hi, group) or ('unknown',)."""
        out: dict[str, tuple] = {}
        gid = id(it)

        def range_of(c: ast.expr) -> tuple | None:
            c = self.sizes.value(c)
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "range" and not c.keywords:
                a = c.args
                if len(a) == 1:
                    return ("range", const(0), self.sizes.lin(a[0]), gid)
                if len(a) == 2:
                    return ("range", self.sizes.lin(a[0]), self.sizes.lin(a[1]), gid)
                if len(a) == 3 and isinstance(a[2], ast.UnaryOp) and ast.unparse(a[2]) == "-1" and ast.unparse(a[1]) == "-1":
                    l = self.sizes.lin(a[0])
                    return ("range", const(0), None if l is None else add(l, const(1)), gid)
                return None
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "reversed" and len(c.args) == 1:
                return range_of(c.args[0])
            r = self.p.resolve(self.f.module, c.func, self.f) if isinstance(c, ast.Call) else None
            if isinstance(r, Ext) and r.name == "numpy.arange" and len(c.args) == 1:
                return ("range", const(0), self.sizes.lin(c.args[0]), gid)
            return None

        def length(c: ast.expr) -> Lin | None:
            r = range_of(c)
            if r is not None:
                return add(r[2], r[1], -1) if r[1] is not None and r[2] is not None else None
            c2 = self.sizes.value(c)
            if isinstance(c2, ast.Subscript) and isinstance(c2.slice, ast.Slice):
                lo, hi = c2.slice.lower, c2.slice.upper
                n = length(c2.value)
                if n is None:
                    n = lin({f"{self.sizes.atom(c2.value)}.shape[0]": 1})
                if hi is not None:
                    h = self.sizes.lin(hi)
                    if h is not None and not [k for k, _ in h if k] and dict(h).get("", 0) < 0:
                        n = add(n, h)
                    else:
                        return None
                if lo is not None:
                    l = self.sizes.lin(lo)
                    if l is None:
                        return None
                    n = add(n, l, -1)
                return n
            if isinstance(c2, (ast.Name, ast.Attribute, ast.Subscript)):
                return lin({f"{self.sizes.atom(c2)}.shape[0]": 1})
            return None

        def names(t: ast.expr) -> None:
            for x in ast.walk(t):
                if isinstance(x, ast.Name):
                    out[x.id] = ("unknown",)

        names(target)
        r = range_of(it)
        if r is not None and isinstance(target, ast.Name):
            out[target.id] = r
            return out
        c = self.sizes.value(it)
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and isinstance(target, ast.Tuple):
            if c.func.id == "enumerate" and isinstance(target.elts[0], ast.Name):
                start = next((k.value for k in c.keywords if k.arg == "start"), c.args[1] if len(c.args) > 1 else None)
                lo = const(0) if start is None else self.sizes.lin(start)
                n = length(c.args[0])
                out[target.elts[0].id] = ("range", lo, None if n is None or lo is None else add(n, lo), gid)
            elif c.func.id == "zip":
                for t, a in zip(target.elts, c.args):
                    r = range_of(a)
                    if r is not None and isinstance(t, ast.Name):
                        out[t.id] = r
        rr = self.p.resolve(self.f.module, c.func, self.f) if isinstance(c, ast.Call) else None
        if isinstance(rr, Ext) and rr.name == "itertools.product" and isinstance(target, ast.Tuple) and not c.keywords:
            for k, (t, a) in enumerate(zip(target.elts, c.args)):
                r = range_of(a)
                if r is not None and isinstance(t, ast.Name):
                    out[t.id] = (*r[:3], gid + k + 1)
        if isinstance(rr, Ext) and rr.name == "numpy.ndindex":
            args = c.args[0].elts if len(c.args) == 1 and isinstance(c.args[0], (ast.Tuple, ast.List)) else c.args
            whole = len(c.args) == 1 and not isinstance(c.args[0], (ast.Tuple, ast.List))
            if isinstance(target, ast.Tuple) and not whole:
                for k, (t, a) in enumerate(zip(target.elts, args)):
                    if isinstance(t, ast.Name):
                        out[t.id] = ("range", const(0), self.sizes.lin(a), gid + k + 1)
            elif isinstance(target, ast.Name) and whole and isinstance(c.args[0], ast.Attribute) and c.args[0].attr == "shape" and isinstance(c.args[0].value, ast.Name) and c.args[0].value.id in self.aliases:
                out[target.id] = ("range", const(0), None, gid)
        return out


ALLOC = {"numpy.empty": 0, "numpy.empty_like": 1, "numpy.ndarray": 0}
COPYING = {"flatten", "astype", "copy", "repeat", "take", "compress", "conj", "conjugate", "round", "tolist", "cumsum", "dot"}


class Analysis:
    def __init__(self, p: Project) -> None:
        self.p = p
        self._fills: dict[tuple[int, str], bool] = {}

    @staticmethod
    def third_is_out(name: str, n: int) -> bool:
        last = name.split(".")[-1]
        if last in ("add", "subtract", "multiply", "divide", "true_divide", "power", "matmul", "dot", "maximum", "minimum", "arctan2", "floor_divide", "mod", "hypot"):
            return n == 3
        if last in ("abs", "absolute", "exp", "sqrt", "sin", "cos", "tan", "log", "negative", "square", "conj", "conjugate", "angle", "floor", "ceil", "rint"):
            return n == 2
        return False

    def fills(self, f: Func, q: str) -> bool:
        """Does the function write into its parameter?"""
        key = (id(f), q)
        if key not in self._fills:
            self._fills[key] = False
            for n in ast.walk(f.node):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    b = n
                    while isinstance(b, (ast.Subscript, ast.Attribute, ast.Call)):
                        b = b.func if isinstance(b, ast.Call) else b.value
                    if isinstance(b, ast.Name) and b.id == q:
                        self._fills[key] = True
                if isinstance(n, ast.keyword) and n.arg == "out" and any(isinstance(x, ast.Name) and x.id == q for x in ast.walk(n.value)):
                    self._fills[key] = True
        return self._fills[key]

    def alloc(self, f: Func, e: ast.expr, depth: int = 3) -> tuple[ast.Call, Func] | None:
        """The uninitialised allocation an expression evaluates to, possibly made by a helper or cast."""
        if not isinstance(e, ast.Call):
            return None
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("reshape", "view", "swapaxes", "transpose"):
            r = self.alloc(f, e.func.value, depth)
            if r is not None:
                return r
        r = self.p.resolve(f.module, e.func, f)
        if isinstance(r, Ext):
            if r.name in ALLOC or (r.name == "numpy.core.numeric.empty"):
                return e, f
            if r.name == "typing.cast" and len(e.args) == 2:
                return self.alloc(f, e.args[1], depth)
            if r.name in ("numpy.asarray", "numpy.asanyarray") and e.args:
                return self.alloc(f, e.args[0], depth)
        if isinstance(r, Func) and depth and r.cls is None and r.parent is None:
            rets = [n for n in walk_own(r.node) if isinstance(n, ast.Return)]
            if len(rets) == 1 and rets[0].value is not None and self.alloc(r, rets[0].value, depth - 1):
                return e, r
        return None

    def is_allocator(self, f: Func) -> bool:
        rets = [n for n in walk_own(f.node) if isinstance(n, ast.Return)]
        return len(rets) == 1 and rets[0].value is not None and self.alloc(f, rets[0].value) is not None

    def copying_chain(self, e: ast.expr) -> bool:
        """Does x.a().b().c() certainly (or for some axis order) produce a copy rather than a view of x?"""
        chain = []
        while isinstance(e, (ast.Call, ast.Attribute, ast.Subscript)):
            if isinstance(e, ast.Call):
                if not isinstance(e.func, ast.Attribute):
                    return False
                chain.append(e.func.attr)
                e = e.func.value
            elif isinstance(e, ast.Attribute):
                chain.append(e.attr)
                e = e.value
            else:
                s = e.slice
                parts = s.elts if isinstance(s, ast.Tuple) else [s]
                chain.append("[fancy]" if any(isinstance(x, (ast.List, ast.ListComp, ast.Compare)) for x in parts) else "[]")
                e = e.value
        chain.reverse()
        moved = False
        for c in chain:
            if c in COPYING or c == "[fancy]":
                return True
            if c in ("swapaxes", "transpose", "T"):
                moved = True
            if c in ("reshape", "ravel") and moved:
                return True
        return False


def analyse(project: Project, tier: str) -> Result:
    res = Result()
    an = Analysis(project)
    for f in project.funcs:
        res.count("functions_examined")
        sizes: Sizes | None = None
        if an.is_allocator(f):
            res.count("allocating_helpers")
            continue
        parents: dict[int, ast.AST] = {}
        for n in walk_own(f.node):
            for c in ast.iter_child_nodes(n):
                parents[id(c)] = n
        for n in walk_own(f.node):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f.node:
                continue
            if isinstance(n, ast.Call):
                r = project.resolve(f.module, n.func, f)
                if isinstance(r, Ext) and r.name.startswith("numpy.") and r.name.split(".")[-1] in ("zeros", "ones", "full", "zeros_like", "ones_like", "full_like", "array", "arange", "linspace"):
                    res.count("initialised_allocations")
            a = an.alloc(f, n) if isinstance(n, ast.Call) else None
            if a is None or isinstance(parents.get(id(n)), ast.Attribute) and an.alloc(f, parents.get(id(parents[id(n)]))) is not None:
                continue
            par = parents.get(id(n))
            # climb casts and view chains to the statement
            top: ast.AST = n
            while isinstance(par, (ast.Call, ast.Attribute)) and an.alloc(f, par if isinstance(par, ast.Call) else parents.get(id(par))) is not None:
                top = par
                par = parents.get(id(par))
            if isinstance(par, ast.Call) and an.alloc(f, par) is not None:
                continue
            res.count("uninitialised_allocations")
            sizes = sizes or Sizes(f, project)
            loc = f"{f.module.rel}:{n.lineno}"
            if isinstance(par, ast.keyword) and par.arg == "out":
                continue
            target = None
            if isinstance(par, ast.Assign) and len(par.targets) == 1 and isinstance(par.targets[0], ast.Name):
                target = par.targets[0].id
            elif isinstance(par, (ast.AnnAssign, ast.NamedExpr)) and isinstance(par.target, ast.Name):
                target = par.target.id
            if target is None:
                if isinstance(par, ast.Call):
                    # handed straight to a function that fills it
                    g = project.resolve(f.module, par.func, f)
                    if isinstance(g, Func):
                        from .calls import bind_args

                        bound, _ = bind_args(g, par)
                        if any(v is top and an.fills(g, q) for q, v in bound.items()):
                            continue
                res.add("unwritten", f.short, ast.unparse(n)[:60], loc, "uninitialised storage is used without being written")
                continue
            dims: list[Lin | None] | None = None
            call, owner = a
            name = getattr(project.resolve(owner.module if owner is not f else f.module, call.func, f), "name", "")
            if owner is f and top is n and name in ("numpy.empty", "numpy.ndarray"):
                sh = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg == "shape"), None)
                sh = sizes.value(sh) if sh is not None else None
                if isinstance(sh, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in sh.elts):
                    dims = [sizes.lin(x) for x in sh.elts]
                elif isinstance(sh, (ast.BinOp, ast.Constant, ast.Attribute)) and not (isinstance(sh, ast.Attribute) and sh.attr.endswith("shape")):
                    dims = [sizes.lin(sh)]
            elif owner is f and top is n and name == "numpy.empty_like" and call.args:
                at = sizes.atom(call.args[0])
                dims = [lin({f"{at}.shape[{k}]": 1}) for k in range(4)]
            buf = Buffer(target, dims, n, name)
            cov = Coverage(f, project, buf, sizes, an)
            st: ast.AST = par
            while not isinstance(st, ast.stmt):
                st = parents[id(st)]
            body = _enclosing_block(f.node, st)
            i = body.index(st)
            got = cov.block(body[i + 1 :], {}, [])
            for w in cov.reads[:1]:
                res.add("unwritten", f.short, target, f"{f.module.rel}:{w.lineno}", f"'{target}' is used although part of it may never have been written (allocated uninitialised at line {n.lineno})")
            if not cov.reads:
                if got is not None and not full(got, buf) and body is not f.node.body and _read_later(f.node, st, cov.aliases):
                    res.add("unwritten", f.short, target, loc, f"'{target}' leaves the block it is filled in although part of it may never have been written")
                else:
                    res.sample(f"{f.module.rel}: {f.short}: '{target}' is completely written before it is used")
        # writes through something that is a copy
        for n in walk_own(f.node):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f.node:
                continue
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                res.count("stores_examined")
                if an.copying_chain(n.value) and _root_name(n.value):
                    res.add("lost-write", f.short, ast.unparse(n.value)[:60], f"{f.module.rel}:{n.lineno}", f"the value is stored in a temporary copy of '{_root_name(n.value)}' and lost")
        for name, (rhs, where) in _single_assigned(f).items():
            if an.copying_chain(rhs) and _root_name(rhs):
                loads, stores = _uses(f, name)
                if stores and not loads:
                    res.add("lost-write", f.short, name, f"{f.module.rel}:{where.lineno}", f"'{name}' may be a copy of '{_root_name(rhs)}'; what is stored in it is never used")
    res.floors = {"functions_examined": 400, "stores_examined": 60, "initialised_allocations": 60}
    res.explanation = (
        "Every uninitialised allocation (directly, through a cast, a view chain or a helper that only allocates) is followed to every use. The regions definitely written before that use are collected as products of symbolic "
        "intervals (element and slice stores, out= buffers, fills, helper calls that write, loops over ranges, enumerations and products, both branches of a condition) and must cover the whole buffer. "
        "Every element store in the library is also checked not to go through an expression that copies (moved axes followed by a reshape, flatten, astype, fancy index), and names that only hold such copies must be read."
    )
    res.assumptions = [
        "loop lengths that cannot be compared with the buffer's extent are taken to match it, unless they equal the extent of another axis",
        "a helper that writes into the buffer it is given writes all of it",
    ]
    return res


def _root_name(e: ast.expr) -> str | None:
    while isinstance(e, (ast.Call, ast.Attribute, ast.Subscript)):
        if isinstance(e, ast.Call):
            if not isinstance(e.func, ast.Attribute):
                return None
            e = e.func.value
        else:
            e = e.value
    return e.id if isinstance(e, ast.Name) and e.id not in ("np", "numpy", "scipy") else None


def _single_assigned(f: Func) -> dict[str, tuple[ast.expr, ast.AST]]:
    seen: dict[str, list] = {}
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            seen.setdefault(n.targets[0].id, []).append((n.value, n))
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            seen.setdefault(n.target.id, []).append((n.value, n))
    return {k: v[0] for k, v in seen.items() if len(v) == 1}


def _uses(f: Func, name: str) -> tuple[int, int]:
    loads = stores = 0
    bases = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            b = n.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name) and b.id == name:
                stores += 1
                bases.add(id(b))
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and id(n) not in bases:
            loads += 1
    return loads, stores


def _enclosing_block(root: ast.AST, st: ast.stmt) -> list[ast.stmt]:
    for n in ast.walk(root):
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if isinstance(b, list) and any(x is st for x in b):
                return b
    return [st]


def _read_later(root: ast.AST, st: ast.stmt, names: set[str]) -> bool:
    return any(isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load) and n.lineno > st.lineno for n in ast.walk(root))
