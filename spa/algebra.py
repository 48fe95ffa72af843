"""Which combination of their inputs' entries the operations on states, operators, lists and kernels return (C21).

The operations are interpreted over bases of symbolic size.  An array is a grid of symbolic length with one
expression for its entries: polynomials in the entries of the inputs, their conjugates and sums over indices
(`grids.sigma`), kept in normal form.  What comes out is compared with the formula of the operation.  No value is
computed; what cannot be interpreted is left undecided.
"""

from __future__ import annotations

import ast
import itertools
from fractions import Fraction

from . import grids
from .conversions import Broken, Endless, ExtMethod, Inst, Poly, Return, Undecided, understood
from .grids import COMPLEX, COUNTER, LENGTH, GridMachine, Rat, Store, Sym, align, combine, delta, lift, rmod, rfloor, rsqrt, sigma, single, to_int, var
from .model import Ext, Project
from .points import next_index, same
from .report import Result


# ---------------------------------------------------------------- entries
def conj(r: Rat) -> Rat:
    return conj_poly(r.num) / conj_poly(r.den)


def conj_poly(p: dict) -> Rat:
    out = Rat.of(0)
    for m, c in p.items():
        t = Rat({(): c})
        for a, e in m:
            b = conj_atom(a)
            for _ in range(abs(e)):
                t = t * b if e > 0 else t / b
        out = out + t
    return out


def conj_atom(a) -> Rat:
    if isinstance(a, tuple) and a:
        if a[0] == "given" and a[1].rstrip("*") in COMPLEX:
            return Rat.atom(("given", a[1][:-1] if a[1].endswith("*") else a[1] + "*", a[2]))
        if a[0] == "sigma":
            body, ids = grids.opened(a)
            return sigma(conj(body), ids)
        if a[0] == "unit":
            return -Rat.atom(a)
        if a[0] == "fn":
            return Rat.atom(("fn", a[1], conj(a[2])))
        if a[0] == "sqrt":
            if conj(a[1]) != a[1]:
                raise Undecided("the root of something complex")
    return Rat.atom(a)


def absolute(r: Rat) -> Rat:
    if r.den != Rat.ONE:
        return absolute(Rat(r.num)) / absolute(Rat(r.den))
    p = r * conj(r)
    if r.const() is not None:
        return Rat.of(abs(r.const()))
    if p.den == Rat.ONE and len(p.num) == 1:
        (m, c), = p.num.items()
        d = dict(m)

        def partner(a):
            b = conj_atom(a)
            return next(iter(b.num))[0][0] if len(b.num) == 1 and next(iter(b.num)) else None

        # what stands with its conjugate to an even power has a positive root
        out, rest = Rat.of(1), {}
        for a, e in d.items():
            if e % 2 == 0 and d.get(partner(a)) == e and partner(a) != a:
                out = out * Rat({((a, e // 2),): Fraction(1)})
            elif e % 4 == 0 and partner(a) == a:
                out = out * Rat({((a, e // 2),): Fraction(1)})
            else:
                rest[a] = e
        return out * rsqrt(Rat({grids.norm_mono(rest): c}))
    return rsqrt(p)


def settled(r: Rat) -> Rat:
    """Where two indices are the same they have the same name."""
    out = Rat.of(0)
    for m, c in r.num.items():
        t = Rat({m: c})
        for a, e in m:
            if isinstance(a, tuple) and a and a[0] == "delta" and e > 0:
                i, j = single(a[1]), single(a[2])
                if i is not None and j is not None:
                    rest = Rat({grids.norm_mono({x: y for x, y in m if x != a}): c})
                    t = settled(rest.subst({max(i, j): var(min(i, j))})) * Rat.atom(a)
                    break
        out = out + t
    return out / Rat(r.den)


class Family:
    """One value for every index of a grid."""

    def __init__(self, ids: tuple, value) -> None:
        self.ids, self.value = ids, value

    def size(self) -> Rat:
        n = Rat.of(1)
        for x in self.ids:
            n = n * LENGTH[x]
        return n

    def at(self, i: Rat):
        s: dict = {}
        for x in self.ids[:0:-1]:
            s[x], i = rmod(i, LENGTH[x]), rfloor(i, LENGTH[x])
        s[self.ids[0]] = i
        return replaced(self.value, s)

    def sym(self) -> Sym:
        v = lift(self.value)
        return Sym([self.ids, *v.dims], v.vals)


def replaced(v, s: dict):
    if isinstance(v, Rat):
        return v.subst(s)
    if isinstance(v, Sym):
        return Sym(v.dims, {k: x.subst(s) for k, x in v.vals.items()})
    if isinstance(v, (list, tuple)):
        return type(v)(replaced(x, s) for x in v)
    if isinstance(v, dict):
        return {k: replaced(x, s) for k, x in v.items()}
    if isinstance(v, (Store, Family)):
        raise Undecided("what is in a family")
    return v


class Generator:
    """A source of random numbers."""


class Pair(tuple):
    """Eigenvalues and eigenvectors."""


# ---------------------------------------------------------------- the interpreter
class Algebra(GridMachine):
    def __init__(self, project: Project) -> None:
        super().__init__(project)
        self.names: dict = {}
        self.depth = 0

    def ev(self, e: ast.expr, env: dict, f, m=None):
        if isinstance(e, ast.JoinedStr):
            out = []
            for x in e.values:
                v = x.value if isinstance(x, ast.Constant) else self.ev(x.value, env, f, m) if x.conversion < 0 and x.format_spec is None else None
                if not isinstance(v, (str, int)):
                    raise Undecided("text")
                out.append(str(v))
            return "".join(out)
        if isinstance(e, ast.Dict) and any(k is None for k in e.keys):
            out = {}
            for k, v in zip(e.keys, e.values):
                x = self.ev(v, env, f, m)
                if k is None and not isinstance(x, dict):
                    raise Undecided("what is unpacked")
                out.update(x if k is None else {self.ev(k, env, f, m): x})
            return out
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1:
            g = e.generators[0]
            fam = self.family(self.ev(g.iter, env, f, m))
            if fam is not None:
                if g.ifs:
                    raise Undecided("a choice from a grid")
                inner = dict(env)
                self.assign(g.target, fam.value, inner, f)
                return Family(fam.ids, self.ev(e.elt, inner, f, m))
        return super().ev(e, env, f, m)

    def family(self, v) -> Family | None:
        if isinstance(v, Store):
            v = v.sym
        if isinstance(v, Sym) and v.dims and isinstance(v.dims[0], tuple) and v.size(0).const() is None:
            v = v.rename()
            return Family(v.dims[0], Sym(v.dims[1:], v.vals).scalar())
        return v if isinstance(v, Family) else None

    def call_lambda(self, fn, args, kw):
        if not isinstance(fn.node, ast.FunctionDef):
            return super().call_lambda(fn, args, kw)
        a = fn.node.args
        if a.vararg or a.kwarg or len(args) > len(a.posonlyargs + a.args):
            raise Undecided("closure")
        env = dict(fn.env)
        ps = a.posonlyargs + a.args
        given_ = dict(zip((x.arg for x in ps), args)) | kw
        for x, d in [*zip(ps[len(ps) - len(a.defaults):], a.defaults), *((x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)]:
            if x.arg not in given_:
                given_[x.arg] = self.ev(d, fn.env, fn.func)
        if set(given_) != {x.arg for x in ps + a.kwonlyargs}:
            raise Undecided("closure")
        env.update(given_)
        try:
            self.run(fn.node.body, env, fn.func)
        except Return as r:
            return r.value
        return None

    def shifted(self, a: Sym, axis, by: Rat) -> Sym:
        axis = self.as_int(axis) % len(a.dims)
        d = a.dims[axis]
        if isinstance(d, int) or len(d) == 1:
            return super().shifted(a, axis, by)
        a = a.rename()
        d = a.dims[axis]
        i = next_index(a.size(axis))
        at, s = rmod(var(i) - by, a.size(axis)), {}
        for y in d[:0:-1]:
            s[y], at = rmod(at, LENGTH[y]), rfloor(at, LENGTH[y])
        s[d[0]] = at
        dims = list(a.dims)
        dims[axis] = (i,)
        return Sym(dims, {k: v.subst(s) for k, v in a.vals.items()})

    # conversions are linear maps
    def call_func(self, f, self_, args, kw):
        if f.name in ("convert_vector", "convert_dual_vector") and f.cls is None and f.parent is None:
            ps = [x.name for x in f.params]
            names = dict(zip(ps, args)) | kw
            if len(names) >= 3 and len(ps) >= 3:
                vector, one, two = (names.get(x) for x in ps[:3])
                axis = names.get("axis", -1)
                if vector is not None and isinstance(one, Inst) and isinstance(two, Inst):
                    return self.convert(lift(vector.sym if isinstance(vector, Store) else vector), one, two, self.as_int(axis), f.name == "convert_dual_vector")
        return super().call_func(f, self_, args, kw)

    def parts(self, b: Inst):
        """The components of a product."""
        if b.cls.name != "TupleBasis":
            return None
        return list(self.iterate(b))

    def same_basis(self, a: Inst, b: Inst) -> bool:
        if a is b:
            return True
        x, y = self.parts(a), self.parts(b)
        if x is None and y is None:
            return a.cls.name != "FundamentalBasis" and self.alike(a, b)
        return x is not None and y is not None and len(x) == len(y) and all(self.same_basis(p, q) for p, q in zip(x, y))

    def name(self, b: Inst) -> str:
        x = self.parts(b)
        if x is not None:
            return "(" + " x ".join(self.name(y) for y in x) + ")"
        for n, o in self.names.items():
            if o is b:
                return n
        for n, o in self.names.items():
            if self.alike(o, b):
                return n
        n = f"basis {len(self.names)}"
        self.names[n] = b
        return n

    def alike(self, a: Inst, b: Inst) -> bool:
        """The same kind of basis, of the same lattice and size."""
        if a.cls is not b.cls or a.cls.name not in ("FundamentalPositionBasis", "FundamentalTransformedPositionBasis", "TransformedPositionBasis", "PositionBasis", "FundamentalBasis"):
            return False
        for x in ("n", "fundamental_n", "delta_x"):
            if x == "delta_x" and a.cls.name == "FundamentalBasis":
                continue
            u, v = lift(self.inst_attr(a, x, None)), lift(self.inst_attr(b, x, None))
            if len(u.dims) != len(v.dims) or list(u.dims) != list(v.dims) or any(isinstance(d, tuple) for d in u.dims) or u.vals != v.vals:
                return False
        return True

    def length(self, b: Inst) -> Rat:
        return Rat.of(self.inst_attr(b, "n", None))

    def convert(self, v: Sym, a: Inst, b: Inst, axis: int, dual: bool) -> Sym:
        if self.same_basis(a, b):
            return v
        axis %= len(v.dims)
        if isinstance(v.dims[axis], int):
            raise Undecided("conversion of components")
        if grids.certainly(v.size(axis), self.length(a)):
            raise Broken("a vector is converted that is not one of the basis")
        x, y = self.parts(a), self.parts(b)
        if x is not None and y is not None and len(x) == len(y):
            sizes = [to_int(v.size(i)) for i in range(len(v.dims))]
            w = self.reshaped(v, [*sizes[:axis], *(to_int(self.length(p)) for p in x), *sizes[axis + 1:]])
            for i, (p, q) in enumerate(zip(x, y)):
                w = self.convert(w, p, q, axis + i, dual)
            return self.reshaped(w, [*sizes[:axis], to_int(self.length(b)), *sizes[axis + 1:]])
        name = f"<{self.name(b)}|{self.name(a)}>"
        COMPLEX.add(name)
        m = tensor((self.length(b), self.length(a)), lambda i, j: given(name + ("*" if dual else ""), i, j))
        r = self.contract(v, m, [axis], [1])
        order = list(range(len(v.dims) - 1))
        order.insert(axis, len(v.dims) - 1)
        return self.transposed(r, order)

    # ---- attributes
    def attribute(self, o, a: str):
        if isinstance(o, str):
            return ExtMethod(o, a)
        if isinstance(o, Generator):
            return ExtMethod(o, a)
        if isinstance(o, Pair) and a in ("eigenvalues", "eigenvectors"):
            return o[a == "eigenvectors"]
        if isinstance(o, Store):
            o = o.sym
        if isinstance(o, (Rat, Sym)) and a == "real":
            return self.np_real([o], {})
        if isinstance(o, (Rat, Sym)) and a == "imag":
            return self.np_imag([o], {})
        return super().attribute(o, a)

    def method(self, o, n: str, args, kw):
        if isinstance(o, str):
            if n in ("join", "replace", "split", "strip", "upper", "lower", "startswith", "endswith", "index", "count"):
                return getattr(o, n)(*(list(self.iterate(a)) if n == "join" else a for a in args))
            raise Undecided(n)
        if isinstance(o, Generator):
            names = {"standard_normal": ("size",), "normal": ("loc", "scale", "size")}.get(n)
            if names is None or len(args) > len(names) or set(kw) - set(names[len(args):]):
                raise Undecided(n)
            kw = {**dict(zip(names, args)), **kw}
            if kw.get("size") is None:
                raise Undecided(n)
            shape = kw["size"]
            k, self.draws = self.draws, self.draws + 1
            z = tensor(tuple(Rat.of(x) for x in (self.iterate(shape) if isinstance(shape, (tuple, list)) else (shape,))), lambda *i: given(f"draw {k}", *i))
            if "scale" in kw:
                z = self.binop(ast.Mult(), z, kw["scale"])
            return self.binop(ast.Add(), z, kw["loc"]) if "loc" in kw else z
        if isinstance(o, (Sym, Store)) and n == "copy" and not args and not kw:
            o = o.sym if isinstance(o, Store) else o
            return Store(Sym(o.dims, dict(o.vals))) if o.dims else o
        if isinstance(o, dict) and n in ("items", "keys", "values", "copy"):
            return {"items": lambda: list(o.items()), "keys": lambda: list(o), "values": lambda: list(o.values()), "copy": lambda: dict(o)}[n]()
        if isinstance(o, (Rat, Sym)):
            if n in ("conj", "conjugate"):
                return self.np_conj([o], {})
            if n in ("mean", "trace", "diagonal", "squeeze", "prod", "sum", "max"):
                g = getattr(self, "np_" + n, None)
                if g is None:
                    raise Undecided(n)
                return g(*understood(f"numpy.{n}", [o, *args], kw))
            if n == "item" and not args and isinstance(o, Sym) and o.dims:
                if all(d == 1 or (isinstance(d, tuple) and o.size(i) == Rat.of(1)) for i, d in enumerate(o.dims)):
                    return next(iter(o.vals.values()))
        return super().method(o, n, args, kw)

    def builtin(self, n: str, args, kw):
        if n == "abs" and args and self.is_num(args[0]):
            return self.np_abs(args, kw)
        if n == "range" and any(Rat.of(a).const() is None for a in args if isinstance(a, (Rat, Poly))):
            lo, hi = (Rat.of(0), args[0]) if len(args) == 1 else args[:2] if len(args) == 2 else (None, None)
            if lo is None:
                raise Undecided("range")
            lo = Rat.of(lo)
            i = next_index(Rat.of(hi) - lo)
            return Family((i,), lo + var(i))
        fams = [self.family(a) for a in args]
        if n in ("zip", "enumerate", "tuple", "list", "len", "sum", "iter") and any(x is not None for x in fams):
            if n in ("tuple", "list", "iter"):
                return fams[0]
            if n == "len":
                return to_int(fams[0].size())
            if n == "enumerate":
                flat = Rat.of(args[1] if len(args) > 1 else kw.get("start", 0))
                i = Rat.of(0)
                for x in fams[0].ids:
                    i = i * LENGTH[x] + var(x)
                return Family(fams[0].ids, (flat + i, fams[0].value))
            if n == "sum":
                total = self.summed(fams[0].sym(), 0)
                return self.binop(ast.Add(), total, args[1]) if len(args) > 1 else total
            if any(x is None or x.size() != fams[0].size() or len(x.ids) > 1 for x in fams):
                raise Undecided("zip")
            first = fams[0].ids
            return Family(first, tuple(replaced(x.value, dict(zip(x.ids, map(var, first)))) for x in fams))
        return super().builtin(n, args, kw)

    def external(self, name: str, args: list, kw: dict):
        if name.startswith("numpy.testing."):
            return None
        if name in ("numpy.lib.scimath.sqrt", "numpy.emath.sqrt"):
            return self.np_sqrt(args, kw)
        if name == "numpy.random.default_rng":
            self.draws = 0
            return Generator()
        if name == "numpy.fill_diagonal" and isinstance(args[0], Store):
            return self.np_fill_diagonal(*understood(name, args, kw))
        if name.startswith("numpy."):
            args = [a.sym() if isinstance(a, Family) else a for a in args]
        if name.startswith("numpy.") and name.endswith(".outer") and name.count(".") == 2:
            op = {"subtract": ast.Sub(), "add": ast.Add(), "multiply": ast.Mult(), "divide": ast.Div()}.get(name.split(".")[1])
            if op is None or kw:
                raise Undecided(name)
            a, b = lift(args[0]), lift(args[1])
            return self.binop(op, Sym([*a.dims, *[1] * len(b.dims)], {(*k, *(0,) * len(b.dims)): v for k, v in a.vals.items()}), b)
        return super().external(name, args, kw)

    def gridded(self, o: Sym) -> Sym:
        """Components as places of a grid."""
        dims: list = []
        picks: list = []
        for d in o.dims:
            if isinstance(d, int):
                i = next_index(Rat.of(d))
                picks.append((i, d))
                d = (i,)
            dims.append(d)
        out = Rat.of(0)
        for k, v in o.vals.items():
            for (i, d), c in zip(picks, k):
                v = v * delta(var(i), Rat.of(c)) if d != 1 else v.subst({i: Rat.of(0)})
            out = out + v
        return Sym(dims, {(): out})

    def reshaped(self, o: Sym, dims: list) -> Sym:
        try:
            return super().reshaped(o, dims)
        except Undecided:
            if not any(isinstance(d, int) for d in o.dims):
                raise
        return super().reshaped(self.gridded(o.rename()), dims)

    def iterate(self, v):
        if isinstance(v, Store):
            v = v.sym
        if isinstance(v, Sym) and v.dims and isinstance(v.dims[0], tuple):
            c = v.size(0).const()
            if c is not None and c < 30:
                return tuple(self.index(v, j) for j in range(int(c)))
        return super().iterate(v)

    def la_eig(self, args, kw, kind: str = "eig"):
        m = lift(args[0])
        if len(m.dims) != 2 or any(isinstance(d, int) for d in m.dims):
            raise Undecided(kind)
        name = self.matrix_name(m)
        COMPLEX.add(f"{kind} vectors of {name}")
        if kind == "eig":
            COMPLEX.add(f"{kind} values of {name}")
        n = m.size(0)
        return Pair((tensor((n,), lambda i: given(f"{kind} values of {name}", i)), tensor((n, n), lambda i, j: given(f"{kind} vectors of {name}", i, j))))

    def la_eigh(self, args, kw):
        if any(v is not None and k == "subset_by_index" for k, v in kw.items()) or set(kw) - {"subset_by_index"}:
            raise Undecided("eigh")
        return self.la_eig(args, {}, "eigh")

    def entries(self, m: Sym, turned: bool = False) -> Rat:
        """The entry of a matrix in terms of fixed indices."""
        s: dict = {}
        for d, place in zip(m.dims[::-1] if turned else m.dims, ("row", "column")):
            size = Rat.of(1)
            for x in d:
                size = size * LENGTH[x]
            for j, x in enumerate(d):
                key = (place, repr(LENGTH[x].key()), j)
                if key not in grids.BOUND:
                    grids.BOUND[key] = -1 - len(grids.BOUND)
                    LENGTH[grids.BOUND[key]] = LENGTH[x]
                s[x] = var(grids.BOUND[key])
        return m.vals[()].subst(s)

    def matrix_name(self, m: Sym) -> str:
        return repr(self.entries(m).key())

    def la_inv(self, args, kw):
        m = lift(args[0])
        if len(m.dims) != 2 or any(isinstance(d, int) for d in m.dims):
            return super().la_inv(args, kw)
        forms = []
        for turned in (False, True):
            e = self.entries(m, turned)
            forms += [(repr(e.key()), turned, ""), (repr(conj(e).key()), turned, "*")]
        name, turned, star = min(forms)
        name = f"inverse of {name}"
        COMPLEX.add(name)
        return tensor((m.size(1), m.size(0)), lambda i, j: given(name + star, *((j, i) if turned else (i, j))))

    def np_size(self, args, kw):
        if len(args) > 1 or kw:
            raise Undecided("size")
        return self.attribute(lift(args[0]), "size")

    # ---- numpy
    def np_conj(self, args, kw):
        return lift(args[0]).map(conj).scalar()

    np_conjugate = np_conj

    def np_abs(self, args, kw):
        return lift(args[0]).map(absolute).scalar()

    np_absolute = np_abs

    def np_real(self, args, kw):
        return lift(args[0]).map(lambda x: x if conj(x) == x else (x + conj(x)) / 2).scalar()

    def np_imag(self, args, kw):
        return lift(args[0]).map(lambda x: Rat.of(0) if conj(x) == x else (x - conj(x)) / (Rat.atom(("unit",)) * 2)).scalar()

    def _fn(name):  # noqa: N805
        return lambda self, args, kw: lift(args[0]).map(lambda x: Rat.atom(("fn", name, x))).scalar()

    np_exp, np_log, np_cos, np_sin = _fn("exp"), _fn("log"), _fn("cos"), _fn("sin")
    np_tan, np_cosh, np_sinh, np_tanh = _fn("tan"), _fn("cosh"), _fn("sinh"), _fn("tanh")
    del _fn

    def np_power(self, args, kw):
        return self.binop(ast.Pow(), args[0], args[1])

    def np_ones(self, args, kw):
        return self.filled(args[0] if args else kw["shape"], Rat.of(1))

    def np_full(self, args, kw):
        return self.filled(args[0], Rat.of(args[1]))

    def filled(self, shape, v: Rat):
        dims: list = []
        for x in self.iterate(shape) if isinstance(shape, (tuple, list)) else (shape,):
            c = Rat.of(x).const()
            dims.append(int(c) if c is not None else (next_index(Rat.of(x)),))
        return Sym(dims, {k: v for k in itertools.product(*(range(d) for d in dims if isinstance(d, int)))})

    def np_zeros(self, args, kw):
        s = args[0] if args else kw.get("shape")
        if all(Rat.of(x).const() is not None for x in (self.iterate(s) if isinstance(s, (tuple, list)) else (s,))):
            return super().np_zeros(args, kw)
        return Store(self.filled(s, Rat.of(0)))

    def np_eye(self, args, kw):
        n = args[0] if args else kw["N"]
        m = args[1] if len(args) > 1 and args[1] is not None else kw.get("M", n)
        if kw.get("k", 0) != 0 or len(args) > 2:
            raise Undecided("eye")
        if Rat.of(n).const() is not None or Rat.of(m).const() is not None:
            return super().np_eye([n, m], {})
        return tensor((Rat.of(n), Rat.of(m)), delta)

    def np_identity(self, args, kw):
        return self.np_eye(args[:1], {})

    def np_diag(self, args, kw):
        a = lift(args[0])
        if len(args) > 1 and args[1] != 0 or kw.get("k", 0) != 0 or not all(isinstance(d, tuple) for d in a.dims):
            raise Undecided("diag")
        if len(a.dims) == 2:
            return self.product("ii->i", [a])
        b = a.rename()
        (d,), v = b.dims, b.vals[()]
        new = a.rename().dims[0]
        for x, y in zip(d, new):
            v = v * delta(var(x), var(y))
        return Sym([d, new], {(): v})

    def np_diagflat(self, args, kw):
        return self.np_diag([self.method(lift(args[0]), "ravel", [], {})], kw)

    def np_diagonal(self, args, kw):
        opts = dict(zip(("offset", "axis1", "axis2"), args[1:])) | kw
        if opts.get("offset", 0) != 0:
            raise Undecided("diagonal")
        a = lift(args[0])
        x = [chr(0x200 + i) for i in range(len(a.dims))]
        i, j = (self.as_int(opts.get(k, d)) % len(x) for k, d in (("axis1", 0), ("axis2", 1)))
        if i == j:
            raise Undecided("diagonal")
        x[j] = x[i]
        return self.product(f"{''.join(x)}->{''.join(c for c in x if c != x[i])}{x[i]}", [a])

    def np_kron(self, args, kw):
        a, b = lift(args[0]), lift(args[1])
        if len(a.dims) != len(b.dims):
            raise Undecided("kron")
        n = len(a.dims)
        x, y = [chr(0x300 + i) for i in range(n)], [chr(0x400 + i) for i in range(n)]
        sizes = [to_int(a.size(i) * b.size(i)) for i in range(n)]
        return self.reshaped(lift(self.product(f"{''.join(x)},{''.join(y)}->{''.join(p + q for p, q in zip(x, y))}", [a, b])), sizes)

    def np_ix_(self, args, kw):
        out = []
        for i, a in enumerate(args):
            v = lift(a)
            if len(v.dims) != 1:
                raise Undecided("ix_")
            out.append(Sym([*[1] * i, *v.dims, *[1] * (len(args) - i - 1)], {(*[0] * i, *k, *[0] * (len(args) - i - 1)): x for k, x in v.vals.items()}))
        return tuple(out)

    def np_concatenate(self, args, kw):
        if isinstance(args[0], Sym):
            a = args[0]
            if (args[1] if len(args) > 1 else 0) != 0 or len(a.dims) < 2:
                raise Undecided("concatenate")
            return self.reshaped(a, [to_int(a.size(0) * a.size(1)), *(to_int(a.size(i)) for i in range(2, len(a.dims)))])
        vs = [lift(x) for x in self.iterate(args[0])]
        if (args[1] if len(args) > 1 else 0) == 0 and vs and all(v.dims and v.size(0) == vs[0].size(0) for v in vs) and not all(isinstance(v.dims[0], int) for v in vs):
            a = self.gridded(lift(vs))
            return self.reshaped(a, [to_int(a.size(0) * a.size(1)), *(to_int(a.size(i)) for i in range(2, len(a.dims)))])
        return super().np_concatenate(args, kw)

    def np_stack(self, args, kw):
        axis = args[1] if len(args) > 1 else 0
        a = args[0] if isinstance(args[0], Sym) else lift(list(self.iterate(args[0])))
        order = list(range(1, len(a.dims)))
        order.insert(self.as_int(axis) % len(a.dims), 0)
        return self.transposed(a, order)

    def np_max(self, args, kw):
        a = lift(args[0])
        if kw or len(args) > 1 or len(a.dims) != 1 or isinstance(a.dims[0], int):
            raise Undecided("max")
        return given(f"the largest of {self.entries(a).key()!r}")

    np_amax = np_max

    def np_fill_diagonal(self, args, kw):
        if not isinstance(args[0], Store) or len(args) > 2 or kw:
            raise Undecided("fill_diagonal")
        o, v = args[0].sym, lift(args[1])
        if len(o.dims) != 2 or len(v.dims) > 1 or any(isinstance(d, int) for d in [*o.dims, *v.dims]) or o.size(0) != o.size(1):
            raise Undecided("fill_diagonal")
        whole = lift(self.np_diag([self.broadcast(v, o.size(0))], {}))
        off = combine(lambda p, q: p * q, o, combine(lambda p, q: p - q, lift(1), tensor((o.size(0), o.size(0)), delta)))
        args[0].sym = combine(lambda p, q: p + q, off, whole)
        return None

    def broadcast(self, v: Sym, n: Rat) -> Sym:
        return v if v.dims else Sym([(next_index(n),)], v.vals)

    def np_trace(self, args, kw):
        a = self.np_diagonal(args, kw)
        return self.summed(lift(a), -1)

    def np_einsum(self, args, kw):
        if not isinstance(args[0], str):
            raise Undecided("einsum")
        spec = args[0].replace(" ", "")
        ops = [lift(a) for a in args[1:]]
        ins = spec.split("->")[0].split(",")
        if len(ins) != len(ops):
            raise Broken(f"{len(ins)} sets of subscripts for {len(ops)} operands")
        if "..." in spec:
            n = max(len(o.dims) - len(x) + 3 for o, x in zip(ops, ins) if "..." in x)
            more = "".join(chr(0x100 + i) for i in range(n))
            ins = [x.replace("...", more[n - (len(o.dims) - len(x) + 3):]) for o, x in zip(ops, ins)]
            out = spec.split("->")[1].replace("...", more) if "->" in spec else None
            if out is None:
                raise Undecided("einsum")
        elif "->" in spec:
            out = spec.split("->")[1]
        else:
            every = "".join(ins)
            out = "".join(sorted(c for c in set(every) if every.count(c) == 1))
        return self.product(",".join(ins) + "->" + out, ops)

    def product(self, spec: str, ops: list):
        ins, out = spec.split("->")
        ins = ins.split(",")
        ops = [o.rename() for o in ops]
        for o, x in zip(ops, ins):
            if len(o.dims) != len(x):
                raise Broken(f"subscripts {x} for {len(o.dims)} axes")
        if len(set(out)) != len(out) or any(c not in "".join(ins) for c in out):
            raise Broken(f"output {out}")
        master: dict = {}
        for o, x in zip(ops, ins):
            for d, c in zip(o.dims, x):
                if d == 1 and c in master:
                    continue
                if c in master and isinstance(master[c], int) != isinstance(d, int) and master[c] != 1:
                    raise Undecided("components of a grid")
                if c not in master or master[c] == 1 or (isinstance(d, tuple) and len(d) > len(master[c])):
                    master[c] = d
        tables = []
        for o, x in zip(ops, ins):
            vals = o.vals
            for d, c in zip(o.dims, x):
                if isinstance(d, int):
                    if d not in (1, master[c]):
                        raise Broken(f"{d} and {master[c]} components are multiplied")
                elif d is not master[c]:
                    _, vals = align(master[c], d, vals)
            tables.append(vals)
        letters = [c for c in master if isinstance(master[c], int)]
        over = [i for c, d in master.items() if c not in out and isinstance(d, tuple) for i in d]
        res: dict = {}
        for pick in itertools.product(*(range(master[c]) for c in letters)):
            at = dict(zip(letters, pick))
            t = Rat.of(1)
            for o, x, vals in zip(ops, ins, tables):
                t = t * vals[tuple(at[c] if d != 1 else 0 for d, c in zip(o.dims, x) if isinstance(d, int))]
            k = tuple(at[c] for c in out if c in at)
            res[k] = res[k] + t if k in res else t
        return Sym([master[c] for c in out], {k: sigma(v, over) for k, v in res.items()}).scalar()

    def contract(self, a: Sym, b: Sym, ax: list, bx: list) -> Sym:
        ax, bx = [x % len(a.dims) for x in ax], [x % len(b.dims) for x in bx]
        x = [chr(0x300 + i) for i in range(len(a.dims))]
        y = [chr(0x400 + i) for i in range(len(b.dims))]
        for i, j in zip(ax, bx):
            y[j] = x[i]
        out = [c for i, c in enumerate(x) if i not in ax] + [c for j, c in enumerate(y) if j not in bx]
        return lift(self.product(f"{''.join(x)},{''.join(y)}->{''.join(out)}", [a, b]))

    def np_matmul(self, args, kw):
        a, b = lift(args[0]), lift(args[1])
        if not a.dims or not b.dims:
            raise Broken("matmul of a number")
        x = "i" * (len(a.dims) > 1) + "k"
        y = "k" + "j" * (len(b.dims) > 1)
        n = max(len(a.dims), len(b.dims)) - 2
        more = "".join(chr(0x100 + i) for i in range(max(n, 0)))
        xb = more[n - (len(a.dims) - 2):] if len(a.dims) > 2 else ""
        yb = more[n - (len(b.dims) - 2):] if len(b.dims) > 2 else ""
        return self.product(f"{xb}{x},{yb}{y}->{more}{x.replace('k', '')}{y.replace('k', '')}", [a, b])

    def np_vdot(self, args, kw):
        a, b = (lift(self.method(lift(x), "ravel", [], {})) for x in args[:2])
        return self.product("i,i->", [a.map(conj), b])

    def np_inner(self, args, kw):
        a, b = lift(args[0]), lift(args[1])
        return self.contract(a, b, [-1], [-1]).scalar()

    def np_outer(self, args, kw):
        return self.product("i,j->ij", [lift(self.method(lift(x), "ravel", [], {})) for x in args[:2]])

    def la_multi_dot(self, args, kw):
        vs = [lift(x) for x in self.iterate(args[0])]
        out = vs[0]
        for v in vs[1:]:
            out = lift(self.np_matmul([out, v], {}))
        return out.scalar()

    def la_norm(self, args, kw):
        a = lift(args[0])
        axis = kw.get("axis", args[2] if len(args) > 2 else None)
        if kw.get("ord", args[1] if len(args) > 1 else None) not in (None, 2) or (kw.get("ord") == 2 and axis is None and len(a.dims) > 1):
            raise Undecided("norm")
        return lift(self.kept(a, self.summed(a.map(lambda x: x * conj(x)), axis), axis, kw.get("keepdims"))).map(rsqrt).scalar()

    def kept(self, a: Sym, r, axis, keep):
        """The axes that were summed over stay, with one place each."""
        if not keep:
            return r
        n = len(a.dims)
        axes = range(n) if axis is None else self.iterate(axis) if isinstance(axis, (tuple, list)) else (axis,)
        axes = {self.as_int(x) % n for x in axes}
        r = lift(r)
        it = iter(r.dims)
        dims = [1 if i in axes else next(it) for i in range(n)]
        comps = [i for i, d in enumerate(dims) if isinstance(d, int)]
        out = {}
        for k, v in r.vals.items():
            j = iter(k)
            out[tuple(0 if i in axes else next(j) for i in comps)] = v
        return Sym(dims, out)

    def summed(self, a: Sym, axis):
        a = a.rename()
        n = len(a.dims)
        axes = range(n) if axis is None else self.iterate(axis) if isinstance(axis, (tuple, list)) else (axis,)
        axes = [self.as_int(x) for x in axes]
        if any(not -n <= x < n for x in axes):
            raise Broken("sum over an axis that is not there")
        axes = [x % n for x in axes]
        x = "".join(chr(0x300 + i) for i in range(n))
        return self.product(f"{x}->{''.join(c for i, c in enumerate(x) if i not in axes)}", [a])

    def np_sum(self, args, kw):
        v = args[0]
        if isinstance(v, (tuple, list)):
            v = lift(v)
        axis = kw.get("axis", args[1] if len(args) > 1 else None)
        return self.kept(lift(v), self.summed(lift(v), axis), axis, kw.get("keepdims", args[2] if len(args) > 2 else False))

    def np_average(self, args, kw):
        a = lift(args[0])
        axis = kw.get("axis", args[1] if len(args) > 1 else None)
        weights = kw.get("weights", args[2] if len(args) > 2 else None)
        if kw.get("returned") or kw.get("keepdims"):
            raise Undecided("average")
        n = len(a.dims)
        axes = list(range(n)) if axis is None else [self.as_int(x) % n for x in (self.iterate(axis) if isinstance(axis, (tuple, list)) else (axis,))]
        if weights is not None:
            w = lift(weights)
            if len(w.dims) == 1 and n > 1:
                if len(axes) != 1:
                    raise Undecided("weights")
                x = "".join(chr(0x300 + i) for i in range(n))
                num = self.product(f"{x},{x[axes[0]]}->{''.join(c for i, c in enumerate(x) if i not in axes)}", [a, w])
            elif len(w.dims) == n:
                num = self.summed(combine(lambda p, q: p * q, a, w), axes)
                return self.binop(ast.Div(), num, self.summed(w, axes))
            else:
                raise Undecided("weights")
            return self.binop(ast.Div(), num, self.summed(w, None))
        size = Rat.of(1)
        for i in axes:
            size = size * a.size(i)
        return self.binop(ast.Div(), self.summed(a, axes), size)

    np_mean = np_average

    def np_prod(self, args, kw):
        v = args[0]
        if isinstance(v, (list, tuple)) and any(isinstance(x, Sym) and x.dims for x in v):
            v = lift(list(v))
        if not isinstance(v, Sym):
            return super().np_prod(args, kw)
        axis = kw.get("axis", args[1] if len(args) > 1 else None)
        if axis is None and len(v.dims) != 1:
            raise Undecided("product")
        axis = self.as_int(axis or 0) % len(v.dims)
        if not isinstance(v.dims[axis], int):
            raise Undecided("product over a grid")
        return self.product(",".join("".join(chr(0x300 + i) for i in range(len(v.dims) - 1)) for _ in range(v.dims[axis])) + "->" + "".join(chr(0x300 + i) for i in range(len(v.dims) - 1)),
                            [lift(self.index(v, (*[slice(None)] * axis, j))) for j in range(v.dims[axis])])

    def subscript(self, o, i):
        if isinstance(o, Family) and isinstance(i, (int, Rat)) and not isinstance(i, bool):
            return o.at(Rat.of(i))
        return super().subscript(o, i)

    def index(self, o: Sym, i):
        idx = list(i) if isinstance(i, (tuple, list)) else [i]
        arrays = [x for x in idx if isinstance(x, Sym) and not isinstance(x, grids.Mask) and x.dims and any(isinstance(d, tuple) for d in x.dims)]
        lead = idx[:len(arrays)]
        if arrays and all(isinstance(x, Sym) and x.dims for x in lead) and all(isinstance(x, slice) and x == slice(None) for x in idx[len(arrays):]) and all(isinstance(d, tuple) for d in o.dims):
            vs = list(lead)
            zero = vs[0].map(lambda _: Rat.of(0))
            for v in vs[1:]:
                zero = combine(lambda p, q: Rat.of(0), zero, v)
            full = []
            for v in vs:
                full.append(grids.like(zero, combine(lambda p, q: p, v, zero)))
            o = o.rename()
            out = {}
            for k in zero.vals:
                s: dict = {}
                for v, d in zip(full, o.dims):
                    n = Rat.of(1)
                    for y in d:
                        n = n * LENGTH[y]
                    x = rmod(v.vals[k], n)
                    for y in d[::-1]:
                        s[y] = rmod(x, LENGTH[y]) if y != d[0] else x
                        x = rfloor(x, LENGTH[y])
                out[k] = o.vals[()].subst(s)
            return Sym(zero.dims + o.dims[len(vs):], out)
        return super().index(o, i)


# ---------------------------------------------------------------- inputs and results
def given(name: str, *index: Rat) -> Rat:
    return Rat.atom(("given", name, tuple(index)))


def tensor(sizes: tuple, f) -> Sym:
    ids = [next_index(Rat.of(n)) for n in sizes]
    return Sym([(i,) for i in ids], {(): f(*(var(i) for i in ids))})


def flattened(v) -> Sym:
    s = lift(v.sym if isinstance(v, Store) else v)
    if any(d == 1 for d in s.dims):
        s = Sym([d for d in s.dims if d != 1], {tuple(x for x, d in zip(k, s.comps()) if d != 1): v for k, v in s.vals.items()})
    if s.dims and all(isinstance(d, tuple) for d in s.dims):
        s = s.rename()
        return Sym([tuple(x for d in s.dims for x in d)], s.vals)
    return s


class World:
    """Bases of different sizes and records over them."""

    def __init__(self, p: Project) -> None:
        self.p = p
        self.k = Algebra(p)
        self.basis_cls, self.tuple_cls = p.cls("FundamentalBasis"), p.cls("TupleBasis")
        self.truncated = p.cls("TransformedPositionBasis")
        if self.basis_cls is None or self.tuple_cls is None or self.truncated is None:
            from .model import AnalysisBroken

            raise AnalysisBroken("the fundamental, the position or the product basis is gone")

    def basis(self, name: str) -> Inst:
        if name not in self.k.names:
            step = lift([Rat.atom(("given", f"lattice {name}", ()))])
            self.k.names[name] = self.k.construct(self.truncated, [step, Poly.atom(name), Poly.atom(name) + Poly.atom(f"more {name}")], {}, name)
        return self.k.names[name]

    def tuple(self, *bases) -> Inst:
        return self.k.construct(self.tuple_cls, [self.basis(b) if isinstance(b, str) else b for b in bases], {})

    @staticmethod
    def n(name: str) -> Rat:
        return Rat.of(Poly.atom(name))

    def data(self, name: str, axes: str, real: bool = False, f=None) -> Sym:
        """One entry for every index along the axes, which are letters of bases."""
        if not real:
            COMPLEX.add(name)
        return flattened(tensor(tuple(self.n(x) for x in axes), f or (lambda *i: given(name, *i))))

    def array(self, axes: str, f) -> Sym:
        return flattened(tensor(tuple(self.n(x) for x in axes), f))

    @staticmethod
    def grid(sizes: tuple, f) -> Sym:
        return flattened(tensor(sizes, f))

    def total(self, axes: str, f) -> Rat:
        ids = [next_index(self.n(x)) for x in axes]
        return sigma(f(*(var(i) for i in ids)), ids)

    # records
    def state(self, name: str, b: str) -> dict:
        return {"basis": self.basis(b), "data": self.data(name, b)}

    def states(self, name: str, lst: str, b: str, values: str | None = None) -> dict:
        out = {"basis": self.tuple(lst, b), "data": self.data(name, lst + b)}
        if values:
            out["eigenvalue"] = self.data(values, lst)
        return out

    def operator(self, name: str, a: str, b: str) -> dict:
        return {"basis": self.tuple(a, b), "data": self.data(name, a + b)}

    def diagonal(self, name: str, a: str) -> dict:
        return {"basis": self.tuple(a, a), "data": self.data(name, a)}

    def operators(self, name: str, lst: str, a: str, b: str, values: str | None = None) -> dict:
        out = {"basis": self.tuple(lst, self.tuple(a, b)), "data": self.data(name, lst + a + b)}
        if values:
            out["eigenvalue"] = self.data(values, lst)
        return out

    def diagonals(self, name: str, lst: str, a: str, values: str | None = None) -> dict:
        out = {"basis": self.tuple(lst, self.tuple(a, a)), "data": self.data(name, lst + a)}
        if values:
            out["eigenvalue"] = self.data(values, lst)
        return out


def lambda_square(w: World):
    """The function x -> x * x."""
    from .model import Module

    return w.k.ev(ast.parse("lambda x: x * x", mode="eval").body, {}, w.p.func("operator.operator.as_operator"))


def operations(w: World):
    """(function, case, arguments, keywords, result)"""
    n, at, summed, arr = w.n, given, w.total, w.array

    def to(new: str, old: str):
        """The conversion between two bases; the dual one has a star."""
        return (lambda i, j: given(f"<{new}|{old}>", i, j)), (lambda i, j: given(f"<{new}|{old}>*", i, j))

    def joined(parts) -> Sym:
        return flattened(w.k.gridded(lift(list(parts))))

    three_ops = {"basis": w.tuple(w.k.construct(w.basis_cls, [3], {}), w.tuple("a", "b")), "data": w.grid((3, n("a"), n("b")), lambda *i: at("A", *i))}
    O = "operator.operations."  # noqa: E741
    A, B, C = (lambda *i: at("A", *i)), (lambda *i: at("B", *i)), (lambda *i: at("C", *i))
    f, g = (lambda *i: at("f", *i)), (lambda *i: at("g", *i))
    fc, gc = (lambda *i: at("f*", *i)), (lambda *i: at("g*", *i))
    lam, mu = (lambda i: at("lambda", i)), (lambda i: at("mu", i))
    op, ops, dia, dias = w.operator, w.operators, w.diagonal, w.diagonals

    # products
    yield O + "matmul_list_operator", "", [ops("A", "m", "a", "b"), op("B", "b", "c")], {}, {"data": arr("mac", lambda m, i, j: summed("b", lambda k: A(m, i, k) * B(k, j)))}
    v, d = to("b", "d")
    yield O + "matmul_list_operator", "other basis", [ops("A", "m", "a", "b"), op("B", "d", "c")], {}, {
        "data": arr("mac", lambda m, i, j: summed("bd", lambda k, l: A(m, i, k) * v(k, l) * B(l, j)))}
    yield O + "matmul_operator_list", "", [op("A", "a", "b"), ops("B", "m", "b", "c")], {}, {"data": arr("mac", lambda m, i, j: summed("b", lambda k: A(i, k) * B(m, k, j)))}
    yield O + "matmul_operator_list", "other basis", [op("A", "a", "b"), ops("B", "m", "d", "c")], {}, {
        "data": arr("mac", lambda m, i, j: summed("bd", lambda k, l: A(i, k) * v(k, l) * B(m, l, j)))}
    yield O + "matmul_diagonal_list_operator", "", [dias("A", "m", "a"), op("B", "a", "c")], {}, {"data": arr("mac", lambda m, i, j: A(m, i) * B(i, j))}
    yield O + "matmul_operator_diagonal_list", "", [op("A", "a", "b"), dias("B", "m", "b")], {}, {"data": arr("mab", lambda m, i, j: A(i, j) * B(m, j))}
    yield "operator.operator.matmul_operator", "", [op("A", "a", "b"), op("B", "b", "c")], {}, {"data": arr("ac", lambda i, j: summed("b", lambda k: A(i, k) * B(k, j)))}

    # sums, multiples, commutators
    for name, sign in (("add_list_list", 1), ("subtract_list_list", -1)):
        yield O + name, "", [ops("A", "m", "a", "b"), ops("B", "m", "a", "b")], {}, {"data": arr("mab", lambda m, i, j, s=sign: A(m, i, j) + Rat.of(s) * B(m, i, j))}
        v1, d1 = to("a", "c")
        v2, d2 = to("b", "d")
        yield O + name, "other basis", [ops("A", "m", "a", "b"), ops("B", "m", "c", "d")], {}, {
            "data": arr("mab", lambda m, i, j, s=sign: A(m, i, j) + Rat.of(s) * summed("cd", lambda k, l: v1(i, k) * B(m, k, l) * d2(j, l)))}
    for name, sign in (("add_operator", 1), ("subtract_operator", -1)):
        yield "operator.operator." + name, "", [op("A", "a", "b"), op("B", "a", "b")], {}, {"data": arr("ab", lambda i, j, s=sign: A(i, j) + Rat.of(s) * B(i, j))}
    COMPLEX.add("c")
    factor = given("c")
    yield O + "scale_operator_list", "", [factor, ops("A", "m", "a", "b")], {}, {"data": arr("mab", lambda m, i, j: factor * A(m, i, j))}
    yield O + "scale_operator", "", [factor, op("A", "a", "b")], {}, {"data": arr("ab", lambda i, j: factor * A(i, j))}
    for name, sign in (("get_commutator", -1), ("get_anti_commutator", 1)):
        yield O + name, "", [op("A", "a", "a"), op("B", "a", "a")], {}, {
            "data": arr("aa", lambda i, j, s=sign: summed("a", lambda k: A(i, k) * B(k, j)) + Rat.of(s) * summed("a", lambda k: B(i, k) * A(k, j)))}
    yield O + "get_commutator_operator_list", "", [op("A", "a", "a"), ops("B", "m", "a", "a")], {}, {
        "data": arr("maa", lambda m, i, j: summed("a", lambda k: A(i, k) * B(m, k, j)) - summed("a", lambda k: B(m, i, k) * A(k, j)))}
    yield O + "get_commutator_diagonal_operator_list", "", [op("A", "a", "a"), dias("B", "m", "a")], {}, {
        "data": arr("maa", lambda m, i, j: A(i, j) * B(m, j) - B(m, i) * A(i, j))}

    # action on states
    def norm(body, axes):
        return rsqrt(summed(axes, lambda i: body(i) * conj(body(i))))

    def acted(i):
        return summed("b", lambda k: A(i, k) * f(k))

    yield "operator.operator.apply_operator_to_state", "", [op("A", "a", "b"), w.state("f", "b")], {}, {"data": arr("a", lambda i: acted(i) / norm(acted, "a")), "eigenvalue": norm(acted, "a")}

    def acted_list(m):
        return lambda i: summed("b", lambda k: A(i, k) * f(m, k))

    yield O + "apply_operator_to_states", "", [op("A", "a", "b"), w.states("f", "m", "b")], {}, {
        "data": arr("ma", lambda m, i: acted_list(m)(i) / norm(acted_list(m), "a")), "eigenvalue": arr("m", lambda m: norm(acted_list(m), "a"))}

    # diagonal and full operators
    P = "operator.operator."
    yield P + "as_operator", "", [dia("A", "a")], {}, {"data": arr("aa", lambda i, j: A(i) * delta(i, j))}
    yield P + "as_diagonal_operator", "", [op("A", "a", "a")], {}, {"data": arr("a", lambda i: A(i, i))}
    L = "operator.operator_list."
    yield L + "diagonal_operator_list_as_full", "", [dias("A", "m", "a")], {}, {"data": arr("maa", lambda m, i, j: A(m, i) * delta(i, j))}
    yield L + "operator_list_as_diagonal", "", [ops("A", "m", "a", "a")], {}, {"data": arr("ma", lambda m, i: A(m, i, i))}
    COMPLEX.add("A")
    pick = Rat.atom(("given", "idx", ()))
    yield L + "select_operator", "", [ops("A", "m", "a", "b")], {"idx": 2}, {"data": arr("ab", lambda i, j: A(Rat.of(2), i, j))}
    yield L + "select_diagonal_operator", "", [dias("A", "m", "a")], {"idx": 2}, {"data": arr("a", lambda i: A(Rat.of(2), i))}
    yield L + "as_diagonal_operator", "", [dias("A", "m", "a"), 2], {}, {"data": arr("a", lambda i: A(Rat.of(2), i))}
    yield L + "operator_list_from_iter", "", [[op("A", "a", "b"), op("B", "a", "b"), op("C", "a", "b")]], {}, {
        "data": joined(arr("ab", lambda i, j, x=x: x(i, j)) for x in (A, B, C))}
    yield L + "operator_list_into_iter", "", [three_ops], {}, Rows({"data": arr("ab", lambda i, j, m=m: A(Rat.of(m), i, j))} for m in range(3))
    yield L + "as_flat_operator", "", [dias("A", "m", "a")], {}, {"data": arr("ma", lambda m, i: A(m, i))}
    xyz = w.tuple("x", "y", "z")
    yield P + "sum_diagonal_operator_over_axes", "", [{"basis": w.tuple(xyz, xyz), "data": w.data("A", "xyz")}], {"axes": (1,)}, {"data": arr("xz", lambda i, k: summed("y", lambda j: A(i, j, k)))}
    yield P + "average_eigenvalues", "", [{"basis": w.tuple(xyz, xyz), "data": w.data("A", "xyz")}, (0, 2)], {}, {"data": arr("y", lambda j: summed("xz", lambda i, k: A(i, j, k)) / (n("x") * n("z")))}
    yield P + "average_eigenvalues_list", "", [{"basis": w.tuple("m", w.tuple(xyz, xyz)), "data": w.data("A", "mxyz")}, (1,)], {}, {
        "data": arr("mxz", lambda m, i, k: summed("y", lambda j: A(m, i, j, k)) / n("y"))}
    wt = flattened(tensor((n("y"),), lambda j: given("weight", j)))
    yield P + "average_eigenvalues_list", "weights", [{"basis": w.tuple("m", w.tuple(w.tuple("y"), w.tuple("y"))), "data": w.data("A", "my")}, (0,)], {"weights": wt}, {
        "data": arr("m", lambda m: summed("y", lambda j: given("weight", j) * A(m, j)) / summed("y", lambda j: given("weight", j)))}
    yield P + "average_eigenvalues", "all axes", [{"basis": w.tuple(xyz, xyz), "data": w.data("A", "xyz")}], {}, {"data": summed("xyz", A) / (n("x") * n("y") * n("z"))}
    yield P + "average_eigenvalues_list", "all axes", [{"basis": w.tuple("m", w.tuple(xyz, xyz)), "data": w.data("A", "mxyz")}], {}, {
        "data": arr("m", lambda m: summed("xyz", lambda *i: A(m, *i)) / (n("x") * n("y") * n("z")))}
    yield P + "get_eigenvalue", "", [{"basis": w.tuple("a", "a"), "data": w.data("A", "a")}, 3], {}, A(Rat.of(3))

    # kernels
    K = "kernel.kernel."
    aa, bb = w.tuple("a", "a"), w.tuple("b", "b")
    yield K + "as_full_kernel_from_diagonal", "", [{"basis": w.tuple(aa, bb), "data": w.data("A", "ab")}], {}, {"data": arr("aabb", lambda i, p, j, q: A(i, j) * delta(i, p) * delta(j, q))}
    yield K + "as_diagonal_kernel_from_full", "", [{"basis": w.tuple(aa, bb), "data": w.data("A", "aabb")}], {}, {"data": arr("ab", lambda i, j: A(i, i, j, j))}
    yield K + "as_diagonal_kernel_from_isotropic", "", [w.state("f", "a")], {}, {"data": arr("aa", lambda i, j: f(rmod(i - j, n("a"))))}
    yield K + "as_isotropic_kernel_from_diagonal", "", [{"basis": w.tuple(aa, aa), "data": arr("aa", lambda i, j: f(rmod(i - j, n("a"))))}], {"assert_isotropic": False}, {"data": arr("a", lambda i: f(i))}
    xy = w.tuple("x", "y")
    tt = w.tuple(xy, xy)

    def shifted(i, j, k, l):
        return f(rmod(i - k, n("x")), rmod(j - l, n("y")))

    yield K + "as_diagonal_kernel_from_isotropic_stacked", "", [{"basis": xy, "data": w.data("f", "xy")}], {}, {"data": arr("xyxy", shifted)}
    yield K + "as_isotropic_kernel_from_diagonal_stacked", "", [{"basis": w.tuple(tt, tt), "data": arr("xyxy", shifted)}], {"assert_isotropic": False}, {"data": arr("xy", f)}
    yield K + "as_isotropic_kernel_from_axis", "", [(w.state("f", "x"), w.state("g", "y"))], {}, {"data": arr("xy", lambda i, j: f(i) * g(j))}
    yield K + "as_diagonal_noise_operators_from_full", "", [ops("A", "m", "a", "a", "lambda")], {}, {"data": arr("ma", lambda m, i: A(m, i, i)), "eigenvalue": arr("m", lam)}
    yield K + "as_noise_operators_from_diagonal", "", [dias("A", "m", "a", "lambda")], {}, {"data": arr("maa", lambda m, i, j: A(m, i) * delta(i, j)), "eigenvalue": arr("m", lam)}
    Ac = lambda *i: at("A*", *i)  # noqa: E731
    yield K + "get_full_kernel_from_operators", "", [ops("A", "m", "a", "b", "lambda")], {}, {
        "data": arr("baab", lambda i, j, k, l: summed("m", lambda m: lam(m) * Ac(m, j, i) * A(m, k, l)))}
    diagonal_kernel = arr("aa", lambda i, j: summed("m", lambda m: lam(m) * Ac(m, i) * A(m, j)))
    yield K + "get_diagonal_kernel_from_diagonal_operators", "", [dias("A", "m", "a", "lambda")], {}, {"data": diagonal_kernel}
    yield K + "get_diagonal_kernel_from_operators", "", [ops("A", "m", "a", "a", "lambda")], {}, {"data": arr("aa", lambda i, j: summed("m", lambda m: lam(m) * Ac(m, i, i) * A(m, j, j)))}
    zero = Rat.of(0)
    yield K + "get_isotropic_kernel_from_diagonal_operators", "", [dias("A", "m", "a", "lambda")], {"assert_isotropic": False}, {
        "data": arr("a", lambda i: summed("m", lambda m: lam(m) * Ac(m, i) * A(m, zero)))}
    yield K + "get_isotropic_kernel_from_operators", "", [ops("A", "m", "a", "a", "lambda")], {"assert_isotropic": False}, {
        "data": arr("a", lambda i: summed("m", lambda m: lam(m) * Ac(m, i, i) * A(m, zero, zero)))}
    yield K + "get_diagonal_noise_operators_from_axis", "", [(dias("A", "m", "x", "lambda"), dias("B", "c", "y", "mu"))], {}, {
        "data": arr("mcxy", lambda m, c, i, j: A(m, i) * B(c, j)), "eigenvalue": arr("mc", lambda m, c: lam(m) * mu(c))}

    # states
    E = "state_vector.eigenstate_calculation."
    yield E + "calculate_expectation", "", [op("A", "a", "a"), w.state("f", "a")], {}, summed("aa", lambda i, j: fc(i) * A(i, j) * f(j))
    v, d = to("b", "a")
    yield E + "calculate_expectation", "other basis", [op("A", "a", "a"), w.state("f", "b")], {}, summed("bbaa", lambda i, j, k, l: fc(i) * v(i, k) * A(k, l) * d(j, l) * f(j))
    yield E + "calculate_expectation_diagonal", "", [dia("A", "a"), w.state("f", "a")], {}, summed("a", lambda i: fc(i) * A(i) * f(i))
    yield E + "calculate_expectation_list", "", [op("A", "a", "a"), w.states("f", "m", "a")], {}, {"data": arr("m", lambda m: summed("aa", lambda i, j: fc(m, i) * A(i, j) * f(m, j)))}
    yield E + "calculate_operator_inner_product", "", [w.state("g", "a"), op("A", "a", "b"), w.state("f", "b")], {}, summed("ab", lambda i, j: g(i) * A(i, j) * f(j))
    S = "state_vector.state_vector."
    yield S + "as_dual_vector", "", [w.state("f", "a")], {}, {"data": arr("a", fc)}
    yield S + "as_vector", "", [w.state("f", "a")], {}, {"data": arr("a", fc)}
    yield S + "calculate_normalization", "", [w.state("f", "a")], {}, summed("a", lambda i: f(i) * fc(i))
    yield S + "calculate_inner_product", "", [w.state("f", "a"), w.state("g", "a")], {}, summed("a", lambda i: f(i) * g(i))
    V = "state_vector.state_vector_list."
    yield V + "get_state_vector", "", [w.states("f", "m", "a"), 2], {}, {"data": arr("a", lambda i: f(Rat.of(2), i))}
    yield V + "get_state_vector", "stacked", [{"basis": w.tuple(w.tuple("m", "c"), "a"), "data": w.data("f", "mca")}, (1, 2)], {}, {"data": arr("a", lambda i: f(rmod(Rat.of(1), n("m")), rmod(Rat.of(2), n("c")), i))}
    yield V + "get_state_dual_vector", "", [w.states("f", "m", "a"), 2], {}, {"data": arr("a", lambda i: fc(Rat.of(2), i))}
    yield V + "get_weighted_state_vector", "", [w.states("f", "m", "a"), w.state("g", "m")], {}, {"data": arr("a", lambda i: summed("m", lambda m: g(m) * f(m, i)))}
    yield V + "as_state_vector_list", "", [[w.state("f", "a"), w.state("g", "a")]], {}, {"data": joined([arr("a", f), arr("a", g)])}
    three = w.k.construct(w.basis_cls, [3], {})
    yield V + "state_vector_list_into_iter", "", [{"basis": w.tuple(three, "a"), "data": w.grid((3, n("a")), f)}], {}, Rows({"data": arr("a", lambda i, m=m: f(Rat.of(m), i))} for m in range(3))
    yield V + "calculate_inner_products", "", [w.states("f", "m", "a"), w.states("g", "c", "a")], {}, {"data": arr("mc", lambda m, c: summed("a", lambda i: fc(m, i) * g(c, i)))}
    v, d = to("a", "b")
    yield V + "calculate_inner_products", "other basis", [w.states("f", "m", "a"), w.states("g", "c", "b")], {}, {"data": arr("mc", lambda m, c: summed("ab", lambda i, j: fc(m, i) * v(i, j) * g(c, j)))}
    yield V + "calculate_inner_products_elementwise", "", [w.states("f", "m", "a"), w.states("g", "m", "a")], {}, {"data": arr("m", lambda m: summed("a", lambda i: fc(m, i) * g(m, i)))}
    yield V + "calculate_inner_products_eigenvalues", "", [w.states("f", "m", "a", "lambda"), w.states("g", "c", "a", "mu")], {}, {
        "data": arr("mc", lambda m, c: at("lambda*", m) * mu(c) * summed("a", lambda i: fc(m, i) * g(c, i)))}
    yield V + "average_state_vector", "", [{"basis": w.tuple(w.tuple("x", "y"), "a"), "data": w.data("f", "xya")}, (0,)], {}, {"data": arr("ya", lambda j, i: summed("x", lambda k: f(k, j, i)) / n("x"))}
    yield V + "get_basis_states", "", [w.basis("a")], {}, {"data": arr("aa", delta)}
    yield V + "get_state_along_axis", "", [{"basis": w.tuple(xyz, "a"), "data": w.data("f", "xyza")}], {"axes": (1,), "idx": (2, 1)}, {"data": arr("ya", lambda j, i: f(Rat.of(2), j, Rat.of(1), i))}

    # eigenstates
    def eig(kind, *i):
        whole = w.k.la_eig([tensor((n("a"), n("a")), A)], {}, kind)
        return (lambda *i: given(next(iter(whole[0].vals[()].atoms()))[1], *i)), (lambda *i: given(next(iter(whole[1].vals[()].atoms()))[1], *i))

    COMPLEX.add("A")
    for name, kind in (("calculate_eigenvectors", "eig"), ("calculate_eigenvectors_hermitian", "eigh")):
        values, vectors = eig(kind)
        yield E + name, "", [op("A", "a", "a")], {}, {"data": arr("aa", lambda k, i, q=vectors: q(i, k)), "eigenvalue": arr("a", values)}
    values, vectors = eig("eig")
    inv = w.k.la_inv([tensor((n("a"), n("a")), vectors)], {})
    inverse = lambda i, j: w.k.index(inv, (i, j))  # noqa: E731
    yield P + "apply_function_to_operator", "", [op("A", "a", "a"), lambda_square(w)], {}, {"data": arr("aa", lambda i, j: summed("a", lambda k: vectors(i, k) * values(k) * values(k) * inverse(k, j)))}
    yield O + "exp_operator", "", [op("A", "a", "a")], {}, {"data": arr("aa", lambda i, j: summed("a", lambda k: vectors(i, k) * Rat.atom(("fn", "exp", values(k))) * inverse(k, j)))}
    inv2 = w.k.la_inv([tensor((n("a"), n("a")), f)], {})
    yield E + "operator_from_eigenstates", "", [{"basis": w.tuple("a", "a"), "data": w.data("f", "aa"), "eigenvalue": w.data("lambda", "a")}], {}, {
        "data": arr("aa", lambda i, j: summed("a", lambda k: f(k, i) * lam(k) * w.k.index(inv2, (j, k))))}

    # probabilities
    Q = "probability_vector.probability_vector."
    yield Q + "from_state_vector", "", [w.state("f", "a")], {}, {"data": arr("a", lambda i: f(i) * fc(i))}
    yield Q + "from_state_vector_list", "", [w.states("f", "m", "a")], {}, {"data": arr("ma", lambda m, i: f(m, i) * fc(m, i))}
    yield Q + "get_probability", "", [w.states("f", "m", "a")], {"idx": 2}, {"data": arr("a", lambda i: f(Rat.of(2), i))}
    yield Q + "get_probability_along_axis", "", [{"basis": w.tuple(xyz, "a"), "data": w.data("f", "xyza")}], {"axes": (1,), "idx": (2, 1)}, {"data": arr("ya", lambda j, i: f(Rat.of(2), j, Rat.of(1), i))}
    yield Q + "sum_probability", "", [{"basis": xyz, "data": w.data("f", "xyz")}], {"axis": (1,)}, {"data": arr("xz", lambda i, k: summed("y", lambda j: f(i, j, k)))}
    yield Q + "sum_probabilities", "", [{"basis": w.tuple("m", xyz), "data": w.data("f", "mxyz")}], {"axis": (1,)}, {"data": arr("mxz", lambda m, i, k: summed("y", lambda j: f(m, i, j, k)))}
    yield Q + "average_probabilities", "", [w.states("f", "m", "a")], {}, {"data": arr("a", lambda i: summed("m", lambda m: f(m, i)) / n("m"))}
    yield Q + "average_probabilities", "along an axis", [{"basis": w.tuple(xyz, "a"), "data": w.data("f", "xyza")}], {"axis": (0, 2)}, {
        "data": arr("ya", lambda j, i: summed("xz", lambda p, q: f(p, j, q, i)) / (n("x") * n("z")))}
    yield Q + "average_probabilities", "weights", [{"basis": w.tuple(w.tuple("x", "y"), "a"), "data": w.data("f", "xya")}], {"axis": (1,), "weights": wt}, {
        "data": arr("xa", lambda p, i: summed("y", lambda j: given("weight", j) * f(p, j, i)) / summed("y", lambda j: given("weight", j)))}
    yield V + "average_state_vector", "weights", [{"basis": w.tuple(w.tuple("x", "y"), "a"), "data": w.data("f", "xya")}], {"axis": (1,), "weights": wt}, {
        "data": arr("xa", lambda p, i: summed("y", lambda j: given("weight", j) * f(p, j, i)) / summed("y", lambda j: given("weight", j)))}
    yield V + "average_state_vector", "all axes", [{"basis": w.tuple(w.tuple("x", "y"), "a"), "data": w.data("f", "xya")}], {}, {"data": arr("a", lambda i: summed("xy", lambda p, q: f(p, q, i)) / (n("x") * n("y")))}
    yield V + "get_state_along_axis", "first index", [{"basis": w.tuple(xyz, "a"), "data": w.data("f", "xyza")}], {"axes": (1,)}, {"data": arr("ya", lambda j, i: f(zero, j, zero, i))}
    yield V + "get_state_along_axis", "first axis", [{"basis": w.tuple(xyz, "a"), "data": w.data("f", "xyza")}], {"idx": (1, 2)}, {"data": arr("xa", lambda j, i: f(j, Rat.of(1), Rat.of(2), i))}
    yield V + "get_state_along_axis", "two axes", [{"basis": w.tuple(xyz, "a"), "data": w.data("f", "xyza")}], {"axes": (2, 0), "idx": (1,)}, {"data": arr("zxa", lambda k, i, q: f(i, Rat.of(1), k, q))}
    yield Q + "get_probability_along_axis", "first index", [{"basis": w.tuple(xyz, "a"), "data": w.data("f", "xyza")}], {"axes": (1,)}, {"data": arr("ya", lambda j, i: f(zero, j, zero, i))}
    yield Q + "get_probability", "first", [w.states("f", "m", "a")], {}, {"data": arr("a", lambda i: f(zero, i))}
    yield Q + "get_probability", "stacked", [{"basis": w.tuple(w.tuple("m", "c"), "a"), "data": w.data("f", "mca")}], {"idx": (1, 2)}, {
        "data": arr("a", lambda i: f(rfloor(n("c") + Rat.of(2), n("c")), rmod(Rat.of(2), n("c")), i))}
    yield Q + "sum_probabilities", "all axes", [{"basis": w.tuple("m", xyz), "data": w.data("f", "mxyz")}], {}, {"data": arr("m", lambda m: summed("xyz", lambda *i: f(m, *i)))}
    yield Q + "sum_probability", "all axes", [{"basis": xyz, "data": w.data("f", "xyz")}], {"axis": None}, {"data": summed("xyz", f)}

    # conversions
    v, d = to("c", "a")
    u, e = to("d", "b")
    D = "operator.conversion."

    def changed(X):
        return lambda i, j: summed("ab", lambda k, l: v(i, k) * X(k, l) * e(j, l))

    e2 = to("d", "a")[1]
    yield D + "convert_operator_to_basis", "", [op("A", "a", "b"), w.tuple("c", "d")], {}, {"data": arr("cd", changed(A))}
    yield D + "convert_diagonal_operator_to_basis", "", [dia("A", "a"), w.tuple("c", "d")], {}, {"data": arr("cd", lambda i, j: summed("a", lambda k: v(i, k) * A(k) * e2(j, k)))}
    yield D + "convert_operator_list_to_basis", "", [ops("A", "m", "a", "b"), w.tuple("c", "d")], {}, {"data": arr("mcd", lambda m, i, j: changed(lambda k, l: A(m, k, l))(i, j))}
    yield D + "convert_diagonal_operator_list_to_basis", "", [dias("A", "m", "a"), w.tuple("c", "d")], {}, {
        "data": arr("mcd", lambda m, i, j: summed("a", lambda k: v(i, k) * A(m, k) * e2(j, k)))}
    X = "kernel.conversion."
    yield X + "convert_noise_operator_list_to_basis", "", [ops("A", "m", "a", "b", "lambda"), w.tuple("c", "d")], {}, {
        "data": arr("mcd", lambda m, i, j: changed(lambda k, l: A(m, k, l))(i, j)), "eigenvalue": arr("m", lam)}
    yield X + "convert_diagonal_noise_operator_list_to_basis", "", [dias("A", "m", "a", "lambda"), w.tuple("c", "d")], {}, {
        "data": arr("mcd", lambda m, i, j: summed("a", lambda k: v(i, k) * A(m, k) * e2(j, k))), "eigenvalue": arr("m", lam)}
    yield X + "convert_isotropic_kernel_to_basis", "", [w.state("f", "a"), w.basis("c")], {}, {"data": arr("c", lambda i: summed("a", lambda k: v(i, k) * f(k)))}
    Y = "state_vector.conversion."
    vd = to("c", "a")[1]
    yield Y + "convert_state_vector_to_basis", "", [w.state("f", "a"), w.basis("c")], {}, {"data": arr("c", lambda i: summed("a", lambda k: v(i, k) * f(k)))}
    yield Y + "convert_state_dual_vector_to_basis", "", [w.state("f", "a"), w.basis("c")], {}, {"data": arr("c", lambda i: summed("a", lambda k: vd(i, k) * f(k)))}
    yield Y + "convert_state_vector_list_to_basis", "", [w.states("f", "m", "a"), w.basis("c")], {}, {"data": arr("mc", lambda m, i: summed("a", lambda k: v(i, k) * f(m, k)))}
    yield "overlap.conversion.convert_overlap_to_basis", "", [{"basis": w.tuple("a", w.tuple("m", "b")), "data": w.data("A", "amb")}, w.basis("c")], {}, {
        "data": arr("cmb", lambda i, m, j: summed("a", lambda k: v(i, k) * A(k, m, j)))}
    yield "state_vector.eigenstate_list.get_eigenvalues_list", "", [w.states("f", "m", "a", "lambda")], {}, {"data": arr("m", lam)}

    # overlaps
    Z = "overlap.calculation.calculate_state_vector_list_overlap"
    yield Z, "", [w.states("f", "m", "a")], {}, {"data": arr("amm", lambda x, i, j: fc(i, x) * f(j, x))}
    yield Z, "shifted", [w.states("f", "m", "a")], {"shift": 1}, {"data": arr("amm", lambda x, i, j: fc(i, x) * f(j, rmod(x - 1, n("a"))))}
    yield Z, "stacked shift", [{"basis": w.tuple("m", xy), "data": w.data("f", "mxy")}], {"shift": (0, 1)}, {
        "data": w.grid((n("x") * n("y"), n("m"), n("m")), lambda x, i, j: at("f*", i, rfloor(x, n("y")), rmod(x, n("y"))) * at(
            "f", j, rfloor(x, n("y")), rmod(rmod(x, n("y")) - Rat.of(1), n("y"))))}
    yield "overlap.overlap.get_single_overlap", "", [{"basis": w.tuple("a", w.tuple("m", "b")), "data": w.data("A", "amb")}, (1, 2)], {}, {
        "data": arr("a", lambda i: A(i, rfloor(n("b") + Rat.of(2), n("b")), rmod(n("b") + Rat.of(2), n("b"))))}

    # localisation: operators from bands to localised states at every wave number
    W = "wavepacket.localization_operator."
    local = {"basis": w.tuple("k", w.tuple("i", "l")), "data": w.data("A", "kil")}
    flat_local = {"basis": w.tuple(w.tuple("k", "l"), w.tuple("k", "l")), "data": w.data("A", "kl")}
    packets = {"basis": w.tuple(w.tuple("l", "k"), "a"), "data": w.data("f", "lka")}
    yield W + "get_localized_wavepackets", "", [packets, local], {}, {"data": arr("ika", lambda i, k, x: summed("l", lambda l: A(k, i, l) * f(l, k, x)))}
    yield W + "get_diagonal_localized_wavepackets", "", [packets, flat_local], {}, {"data": arr("lka", lambda l, k, x: A(k, l) * f(l, k, x))}
    yield W + "get_localized_hamiltonian_from_eigenvalues", "", [dias("g", "l", "k"), local], {}, {
        "data": arr("kii", lambda k, i, j: summed("l", lambda l: A(k, i, l) * g(l, k) * at("A*", k, j, l)))}
    yield W + "get_identity_operator", "", [w.tuple("l", "k")], {}, {"data": arr("kll", lambda k, i, j: delta(i, j))}
    yield W + "diagonal_localization_operator_as_full", "", [flat_local], {}, {"data": arr("kll", lambda k, i, j: A(k, i) * delta(i, j))}
    il = to("i", "l")[1]
    yield W + "localization_operator_as_diagonal", "", [local], {}, {"data": arr("ki", lambda k, i: summed("l", lambda l: A(k, i, l) * il(i, l)))}

    # noise at a temperature
    N = "kernel.build."
    T, kB, hbar = given("T"), Rat.atom(("const", "Boltzmann")), Rat.atom(("const", "hbar"))
    yield N + "get_temperature_corrected_noise_operators", "", [op("B", "a", "a"), ops("A", "m", "a", "a", "lambda"), T], {}, {
        "data": arr("maa", lambda m, i, j: A(m, i, j) - summed("a", lambda k: B(i, k) * A(m, k, j) - A(m, i, k) * B(k, j)) / (kB * T * 4)), "eigenvalue": arr("m", lam)}
    yield N + "get_temperature_corrected_diagonal_noise_operators", "", [op("B", "a", "a"), dias("A", "m", "a", "lambda"), T], {}, {
        "data": arr("maa", lambda m, i, j: A(m, i) * delta(i, j) - B(i, j) * (A(m, j) - A(m, i)) / (kB * T * 4)), "eigenvalue": arr("m", lam)}

    # wavepackets
    Wp = "wavepacket.wavepacket."
    packet = {"basis": w.tuple(w.tuple("m", "c"), "a"), "data": w.data("f", "mca"), "eigenvalue": w.data("lambda", "mc")}
    lam2 = lambda i, j: at("lambda", i, j)  # noqa: E731
    yield Wp + "get_wavepacket", "", [packet, 2], {}, {"data": arr("ca", lambda i, j: f(Rat.of(2), i, j))}
    yield Wp + "get_wavepacket", "the first", [packet, 0], {}, {"data": arr("ca", lambda i, j: f(Rat.of(0), i, j))}
    yield Wp + "get_wavepacket_at_band", "", [packet, 2], {}, {"data": arr("ca", lambda i, j: f(Rat.of(2), i, j)), "eigenvalue": arr("c", lambda i: lam2(Rat.of(2), i))}
    packets = {"basis": w.tuple(w.tuple(three, "c"), "a"), "data": w.grid((3, n("c"), n("a")), f), "eigenvalue": w.grid((3, n("c")), lam2)}
    yield Wp + "wavepacket_list_into_iter", "", [packets], {}, Rows({"data": arr("ca", lambda i, j, m=m: f(Rat.of(m), i, j))} for m in range(3))
    yield Wp + "as_wavepacket_list", "", [[{"basis": w.tuple("c", "a"), "data": w.data(x, "ca")} for x in "fgh"]], {}, {
        "data": joined(arr("ca", lambda i, j, x=x: at(x, i, j)) for x in "fgh")}
    for name in ("get_wavepackets", "get_wavepackets_with_eigenvalues"):
        yield Wp + name, "", [packets, slice(1, 3)], {}, {
            "data": w.grid((2, n("c"), n("a")), lambda m, i, j: f(m + 1, i, j)),
            **({"eigenvalue": w.grid((2, n("c")), lambda m, i: lam2(m + 1, i))} if "with" in name else {})}
    yield Wp + "get_average_eigenvalues", "", [packet], {}, {"data": arr("m", lambda i: summed("c", lambda j: lam2(i, j)) / n("c"))}
    yield "wavepacket.get_eigenstate.get_bloch_state_vector", "", [{"basis": w.tuple("c", "a"), "data": w.data("f", "ca")}, 2], {}, {"data": arr("a", lambda j: f(Rat.of(2), j))}

    # samples of the noise
    R = "kernel.sample."

    def drawn(body, axes):
        def one(p, q):
            return lambda s, a: (p(s, a) + Rat.atom(("unit",)) * q(s, a)) / rsqrt(Rat.of(2)) * rsqrt(lam(a) * hbar)

        def both(make):  # either of the two parts may be drawn first
            return [one(make(0), make(1)), one(make(1), make(0))]

        first = Rat.of
        ways = [
            *both(lambda k: lambda s, a: at(f"draw {k}", s, a)),
            *both(lambda k: lambda s, a: at(f"draw {k}", a, s)),
            *both(lambda k: lambda s, a: at("draw 0", first(k), s, a)),
            *both(lambda k: lambda s, a: at("draw 0", first(k), a, s)),
            *both(lambda k: lambda s, a: at("draw 0", s, a, first(k))),
            *both(lambda k: lambda s, a: at("draw 0", a, s, first(k))),
        ]
        return Either({"data": arr(axes, lambda *i, z=z: body(z, *i))} for z in ways)

    yield R + "sample_noise_from_diagonal_operators_split", "", [dias("A", "m", "a", "lambda")], {"n_samples": Poly.atom("s")}, drawn(lambda z, m, s, i: z(s, m) * A(m, i), "msa")
    yield R + "sample_noise_from_diagonal_operators", "", [dias("A", "m", "a", "lambda")], {"n_samples": Poly.atom("s")}, drawn(lambda z, s, i: summed("m", lambda m: z(s, m) * A(m, i)), "sa")
    yield R + "sample_noise_from_operators", "", [ops("A", "m", "a", "b", "lambda")], {"n_samples": Poly.atom("s")}, drawn(lambda z, s, i, j: summed("m", lambda m: z(s, m) * A(m, i, j)), "sab")
    split = {"basis": w.tuple(w.tuple("m", "c"), w.tuple("a", "a")), "data": w.data("A", "mca")}
    yield R + "diagonal_operator_list_from_diagonal_split", "", [split], {}, {"data": arr("ca", lambda s, i: summed("m", lambda m: A(m, s, i)))}
    three_split = {"basis": w.tuple(w.tuple(three, "c"), w.tuple("a", "a")), "data": w.grid((3, n("c"), n("a")), A)}
    yield R + "get_diagonal_split_noise_components", "", [three_split], {}, Rows({"data": arr("ca", lambda s, i, m=m: A(Rat.of(m), s, i))} for m in range(3))

    # time evolution
    times_cls = w.p.cls("EvenlySpacedTimeBasis")
    if times_cls is not None:
        dt = given("Dt")
        times = w.k.construct(times_cls, [Poly.atom("t"), 1, 0], {"delta_t": dt})

        def time(i):
            return dt * i / n("t")

        unit = Rat.atom(("unit",))

        def phase(energy, t):
            return Rat.atom(("fn", "exp", -unit * energy * time(t) / hbar))

        M = "dynamics.schrodinger.solve."
        yield M + "get_state_vector_decomposition", "", [w.state("g", "a"), w.states("f", "m", "a")], {}, {"data": arr("m", lambda m: summed("a", lambda i: fc(m, i) * g(i)))}
        values, vectors = eig("eigh")
        bar = lambda x: conj(x)  # noqa: E731
        COMPLEX.discard("lambda")
        yield M + "solve_schrodinger_equation_decomposition", "", [w.state("g", "a"), times, op("A", "a", "a")], {}, {
            "data": arr("ta", lambda t, i: summed("aa", lambda k, j: bar(vectors(j, k)) * g(j) * phase(values(k), t) * vectors(i, k)))}
        yield M + "solve_schrodinger_equation_diagonal", "", [w.state("g", "a"), times, dia("A", "a")], {}, {"data": arr("ta", lambda t, i: g(i) * phase(A(i), t))}
        v, d = to("a", "b")
        yield M + "solve_schrodinger_equation_diagonal", "other basis", [w.state("g", "b"), times, dia("A", "a")], {}, {
            "data": arr("ta", lambda t, i: summed("b", lambda j: v(i, j) * g(j)) * phase(A(i), t))}

    # rates
    I = "dynamics.incoherent_propagation."  # noqa: E741
    off = lambda i, j: A(i, j) * (Rat.of(1) - delta(i, j))  # noqa: E731
    yield I + "tunnelling_matrix.get_tunnelling_m_matrix", "", [op("A", "a", "a")], {}, {"data": arr("aa", lambda i, j: off(j, i) - delta(i, j) * summed("a", lambda k: off(i, k)))}
    real = lambda x: (x + conj(x)) / 2  # noqa: E731
    yield I + "tunnelling_matrix.density_matrix_as_probability", "", [dia("A", "a")], {}, {"data": arr("a", lambda i: real(A(i)))}
    yield I + "tunnelling_matrix.density_matrix_list_as_probabilities", "", [dias("A", "m", "a")], {}, {"data": arr("ma", lambda m, i: real(A(m, i)))}
    inv3 = w.k.la_inv([tensor((n("a"), n("a")), f)], {})
    coefficient = lambda k: summed("a", lambda i: w.k.index(inv3, (i, k)) * g(i))  # noqa: E731
    aaa = w.tuple("x", "a")
    states = {"basis": w.tuple("a", "a"), "data": w.data("f", "aa"), "eigenvalue": w.data("mu", "a")}
    yield I + "eigenstates.get_operator_state_vector_decomposition", "", [dia("g", "a"), states], {}, arr("a", coefficient)
    instants = tensor((n("t"),), lambda i: at("instant", i))
    yield I + "eigenstates.get_tunnelling_simulation_state", "", [dia("g", "a"), states][::-1] + [instants], {}, {
        "data": arr("ta", lambda t, i: summed("a", lambda k: coefficient(k) * Rat.atom(("fn", "exp", mu(k) * at("instant", t))) * f(k, i)))}
    yield I + "eigenstates.calculate_tunnelling_eigenstates", "", [op("A", "a", "a")], {}, {
        "data": arr("aa", lambda k, i, q=eig("eig")[1]: q(i, k))}

    # hamiltonians and potentials
    yield from physics(w)


def physics(w: World):
    """What is built of the points of a lattice: potentials and kinetic energies."""
    k, n, at = w.k, w.n, given
    position, momentum, util = w.p.cls("FundamentalPositionBasis"), w.p.cls("FundamentalTransformedPositionBasis"), w.p.cls("BasisUtil")
    if position is None or momentum is None or util is None:
        return
    sizes = {"u": ("u", "u+"), "v": ("v", "v+")}
    steps = {b: lift([given(f"{b}{i}") for i in range(2)]) for b in sizes}
    for b, (small, large) in sizes.items():
        k.names[b] = k.construct(w.truncated, [steps[b], Poly.atom(small), Poly.atom(large)], {}, b)
        k.names[b.upper()] = k.construct(position, [steps[b], Poly.atom(large)], {})
        k.names[b + "k"] = k.construct(momentum, [steps[b], Poly.atom(large)], {})
    step = lift([given("q0")])
    k.names["q"] = k.construct(w.truncated, [step, Poly.atom("u"), Poly.atom("u+")], {}, "q")
    k.names["Q"] = k.construct(position, [step, Poly.atom("u+")], {})
    k.names["qk"] = k.construct(momentum, [step, Poly.atom("u+")], {})
    uv, UV, kk = w.tuple("u", "v"), w.tuple("U", "V"), w.tuple("uk", "vk")
    small, large = (n("u"), n("v")), (n("u+"), n("v+"))
    COMPLEX.add("f")
    total = lambda sizes, body: (lambda ids: sigma(body(*map(var, ids)), ids))([next_index(s) for s in sizes])  # noqa: E731

    def to(new, old, star=""):
        for x, y in zip(new, old):
            COMPLEX.add(f"<{x}|{y}>")
        return lambda i, j: given(f"<{new[0]}|{old[0]}>{star}", i[0], j[0]) * given(f"<{new[1]}|{old[1]}>{star}", i[1], j[1])

    def flat2(i, j):
        return i * n("v+") + j

    hbar, unit, mass = Rat.atom(("const", "hbar")), Rat.atom(("unit",)), given("mass")
    points = k.attribute(k.construct(util, [kk], {}), "fundamental_stacked_k_points")
    point = lambda c, i: k.index(lift(points), (c, i))  # noqa: E731
    units = k.attribute(k.construct(util, [uv], {}), "fundamental_dk_stacked")
    bloch = lift([given("b0"), given("b1")])
    shift = lambda c: sum((k.index(lift(units), (a, c)) * k.index(bloch, a) for a in range(2)), Rat.of(0))  # noqa: E731
    square = lambda x: x * x  # noqa: E731

    def kinetic(i, fraction=True):
        return sum((square(hbar * (point(c, i) + (shift(c) if fraction else Rat.of(0)))) for c in range(2)), Rat.of(0)) / (mass * 2)

    H = "hamiltonian_builder.momentum_basis."
    whole = lambda body: w.grid((large[0] * large[1],), body)  # noqa: E731
    yield H + "hamiltonian_from_mass", "", [uv, mass], {}, {"data": whole(lambda i: kinetic(i, False))}
    yield H + "hamiltonian_from_mass", "bloch", [uv, mass, bloch], {}, {"data": whole(kinetic)}
    # in a basis on one axis
    line, kline = w.tuple("q"), w.tuple("qk")
    points_1 = k.attribute(k.construct(util, [kline], {}), "fundamental_stacked_k_points")
    unit_1 = k.attribute(k.construct(util, [line], {}), "fundamental_dk_stacked")
    bloch_1 = lift([given("b0")])
    energy = lambda i, fraction=True: square(hbar * (k.index(lift(points_1), (0, i)) + (k.index(lift(unit_1), (0, 0)) * given("b0") if fraction else Rat.of(0)))) / (mass * 2)  # noqa: E731

    def one(new, old, star=""):
        COMPLEX.add(f"<{new}|{old}>")
        return lambda i, j: given(f"<{new}|{old}>{star}", i, j)

    size = {"u": n("u"), "U": n("u+"), "uk": n("u+")}
    over = lambda b, body: total((size[b],), body)  # noqa: E731
    conv, dual = one("q", "qk"), one("q", "qk", "*")
    in_basis = lambda fraction: lambda i, p: over("uk", lambda a: conv(i, a) * energy(a, fraction) * dual(p, a))  # noqa: E731
    square_grid = lambda body: w.grid((size["u"], size["u"]), body)  # noqa: E731
    yield H + "hamiltonian_from_mass_in_basis", "", [line, mass, bloch_1], {}, {"data": square_grid(in_basis(True))}
    there, back, back_dual = one("Q", "q"), one("q", "Q"), one("q", "Q", "*")
    potential_1 = {"basis": line, "data": w.grid((size["u"],), lambda i: at("f", i))}
    static = lambda i, p: over("U", lambda a: back(i, a) * over("u", lambda j: there(a, j) * at("f", j)) * back_dual(p, a))  # noqa: E731
    yield H + "hamiltonian_from_potential", "", [potential_1], {}, {"data": square_grid(static)}
    yield H + "total_surface_hamiltonian", "", [potential_1, mass, bloch_1], {}, {"data": square_grid(lambda *i: static(*i) + in_basis(True)(*i))}
    yield H + "total_surface_hamiltonian", "no fraction", [potential_1, mass], {}, {"data": square_grid(lambda *i: static(*i) + in_basis(False)(*i))}
    potential = {"basis": uv, "data": w.grid(small, lambda i, j: at("f", i, j))}
    P = "potential.conversion."
    waves = to(("uk", "vk"), "uv")
    wave = lambda a, b: total(small, lambda i, j: waves((a, b), (i, j)) * at("f", i, j))  # noqa: E731
    yield P + "get_potential_derivative", "", [potential], {"axis": 1}, {"data": w.grid(large, lambda a, b: unit * point(1, flat2(a, b)) * wave(a, b))}
    x = (given("x0"), given("x1"))
    yield P + "get_continuous_potential", "", [potential], {}, At(x, total(
        large, lambda a, b: wave(a, b) * Rat.atom(("fn", "exp", unit * sum((point(c, flat2(a, b)) * x[c] for c in range(2)), Rat.of(0)))) / rsqrt(large[0] * large[1])))
    overlap = {"basis": w.tuple(w.tuple("U", "V"), w.tuple("m", "m")), "data": w.grid(large, lambda i, j: at("f", i, j))}
    Z = "overlap.interpolation.get_overlap_momentum_interpolator_k_fractions"
    half = lambda m: (m - rmod(m, Rat.of(2))) / 2  # noqa: E731
    near = lambda i, m: rmod(i + half(m), m) - half(m)  # noqa: E731
    turn = lambda a, b: Rat.atom(("fn", "exp", unit * Rat.atom("pi") * 2 * (  # noqa: E731
        near(a, large[0]) * given("x0") / large[0] + near(b, large[1]) * given("x1") / large[1])))
    yield Z, "", [overlap], {}, At(lift([[given("x0")], [given("x1")]]), total(large, lambda a, b: at("f", a, b) * turn(a, b)))
    reach = lambda a, b: Rat.atom(("fn", "exp", unit * sum((  # noqa: E731
        (near(a, large[0]) * given(f"u{c}") / large[0] + near(b, large[1]) * given(f"v{c}") / large[1]) * given(f"x{c}") for c in range(2)), Rat.of(0))))
    yield "overlap.interpolation.get_overlap_momentum_interpolator", "", [overlap], {}, At(
        lift([[given("x0")], [given("x1")]]), total(large, lambda a, b: at("f", a, b) * reach(a, b)))
    waves_2 = {"basis": kk, "data": w.grid(large, lambda i, j: at("f", i, j))}
    I = "state_vector.conversion.interpolate_state_vector_momentum"  # noqa: E741
    yield I, "", [waves_2, (n("a"), n("b")), (1, 0)], {}, {"data": w.grid(large, lambda i, j: at("f", i, j) * rsqrt(n("a") * n("b") / (large[0] * large[1])))}
    yield I, "one axis", [waves_2, (n("a"),), (1,)], {}, {"data": w.grid(large, lambda i, j: at("f", i, j) * rsqrt(n("a") / large[1]))}


class At(tuple):
    """The value of a function at a place."""

    def __new__(cls, *v):
        return super().__new__(cls, v)


def draws_in(x) -> set:
    """The random numbers a value depends on."""
    if isinstance(x, Store):
        return draws_in(x.sym)
    if isinstance(x, Sym):
        return draws_in(list(x.vals.values()))
    if isinstance(x, Rat):
        return draws_in([*x.num, *x.den])
    if isinstance(x, dict):
        return draws_in(list(x.values()))
    if isinstance(x, (tuple, list)):
        if len(x) == 3 and x[0] == "given" and isinstance(x[1], str) and x[1].startswith("draw "):
            return {(x[1], x[2])}
        return set().union(*(draws_in(y) for y in x)) if x else set()
    return set()


def chains(x) -> set:
    """The conversions from one basis to a second and then to a third."""
    if isinstance(x, Store):
        return chains(x.sym)
    if isinstance(x, Sym):
        return chains(list(x.vals.values()))
    if isinstance(x, Rat):
        return chains([*x.num, *x.den])
    if not isinstance(x, (tuple, list)):
        return set()
    if x and x[0] == "sigma":
        body, over = grids.opened(x)
        out = chains(body)
        for m in body.num:
            for i in over:
                using = [a for a, _ in m if i in grids.atom_vars(a)]
                if len(using) == 2 and all(isinstance(a, tuple) and a[0] == "given" and a[1].startswith("<") for a in using):
                    out.add(tuple(sorted(a[1] for a in using)))
        return out
    return set().union(*(chains(y) for y in x)) if x else set()


class Either(list):
    """Results that are as good as each other."""


class Rows(list):
    """Several results."""


class Check:
    def __init__(self, p: Project) -> None:
        self.p = p
        self.res = Result()
        self.trouble: list = []
        self.w: World | None = None

    def compare(self, got, want) -> str | None:
        if isinstance(want, Either):
            whys = [self.compare(got, x) for x in want]
            if not all(whys):
                return None
            for name, index in draws_in(got):
                if name not in ("draw 0", "draw 1") or len(index) > 2 or any(i.const() is None and single(i) is None for i in index):
                    raise Undecided("another way to draw")
            return whys[0]
        if isinstance(want, At):
            got, want = self.w.k.apply(got, [want[0]], {}), want[1]
        if isinstance(want, dict):
            if not isinstance(got, dict):
                raise Undecided("result")
            for k, x in want.items():
                if k not in got:
                    raise Undecided(f"no {k}")
                why = self.compare(got[k], x)
                if why:
                    return f"of `{k}` " + why
            return None
        if isinstance(want, Rows):
            if not isinstance(got, (list, tuple)):
                raise Undecided("rows")
            if len(got) != len(want):
                return f"there are {len(got)} of them instead of {len(want)}"
            return next((f"in number {i} " + why for i, (a, b) in enumerate(zip(got, want)) if (why := self.compare(a, b))), None)
        if not isinstance(got, (Sym, Rat, Store, int, float, complex, Poly)) or isinstance(got, bool):
            raise Undecided(f"result of kind {type(got).__name__}")
        got, want = flattened(got).map(settled), flattened(want).map(settled)
        why = same(got, want)
        if why and chains(got) - chains(want):
            raise Undecided("conversion through another basis")
        return why

    def judge(self, w: World, name: str, case: str, args: list, kw: dict, want) -> None:
        f = self.p.func(name)
        if f is None:
            self.res.count("absent")
            return
        self.res.count("obligations")
        self.w = w
        w.k.steps = 0
        label = name.split(".")[-1] + (f" ({case})" if case else "")
        try:
            why = self.compare(w.k.call_func(f, None, list(args), dict(kw)), want)
        except Broken as e:
            why = f"this certainly raises: {e}"
        except (Undecided, Endless, RecursionError, ZeroDivisionError, KeyError, TypeError, AttributeError, ValueError, IndexError) as e:
            self.res.count("undecided")
            self.trouble.append(f"{label}: {type(e).__name__} {e}")
            return
        self.res.count("decided")
        if why:
            self.res.add("entries", f.short, label, f"{f.module.rel}:{f.node.lineno}", f"{label}: {why}")


PHYSICS = ("dynamics.", "hamiltonian_builder.", "potential.", "kernel.build.", "kernel.sample.", "overlap.", "wavepacket.")


def physical(name: str) -> bool:
    return name.startswith(PHYSICS)


def judged(p: Project, wanted, floors: dict) -> Result:
    c = Check(p)
    w = World(p)
    for name, case, args, kw, want in operations(w):
        if wanted(name):
            c.judge(w, name, case, args, kw, want)
    res = c.res
    res.detail["undecided"] = sorted(set(c.trouble))
    res.floors = floors
    res.explanation = (
        "Every operation is interpreted over bases of symbolic size with unknown complex entries; the normal form of the entries it returns "
        "(polynomials in the entries, their conjugates and sums over indices) is compared with the formula of the operation."
    )
    res.assumptions = [
        "numpy's products, sums, transpositions and index arithmetic mean what their documentation says",
        "conversions between bases are linear maps of vectors, and their conjugates of dual vectors (C04, C07, C08)",
        "a difference of normal forms is reported only with sizes, indices and entries at which the two forms have different values",
    ]
    return res


def analyse(p: Project, tier: str) -> Result:
    return judged(p, lambda name: True, {"obligations": 40, "decided": 20})


def analyse_c21(p: Project, tier: str) -> Result:
    return judged(p, lambda name: not physical(name), {"obligations": 30, "decided": 15})


def analyse_c22(p: Project, tier: str) -> Result:
    return judged(p, physical, {"obligations": 12, "decided": 5})
