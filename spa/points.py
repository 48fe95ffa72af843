"""What the coordinate functions of the library have to return, and the comparison (C20)."""

from __future__ import annotations

import itertools

from .conversions import Broken, Endless, Inst, Opaque, Poly, Undecided
from .grids import LENGTH, POSITIVE, SQUARES, WHOLE, GridMachine, Rat, Store, Sym, close, flat, halve, inverse, lift, rmod, rsqrt, show, var, witness
from .model import AnalysisBroken, Func, Project
from .report import Result

PI = Rat.atom("pi")


def differs(got: Rat, want: Rat) -> str | None:
    if got == want:
        return None
    at = witness(close, got, want)
    if at is None:
        raise Undecided("values")
    return f"it is {show(got)} where {show(want)} is meant" + (f" (they differ for {at})" if at else "")


def same(got, want) -> str | None:
    """Why two results differ."""
    if isinstance(got, Store):
        got = got.sym
    if isinstance(want, (tuple, list)):
        if isinstance(got, Sym) and got.dims and isinstance(got.dims[0], int):
            got = [Sym(got.dims[1:], {k[1:]: x for k, x in got.vals.items() if k[0] == j}).scalar() for j in range(got.dims[0])]
        if not isinstance(got, (tuple, list)):
            raise Undecided("result")
        if len(got) != len(want):
            return f"there are {len(got)} of them instead of {len(want)}"
        for i, (a, b) in enumerate(zip(got, want)):
            why = same(a, b)
            if why:
                return f"number {i}: {why}"
        return None
    if isinstance(got, (tuple, list)):
        got = lift(got)
    if not isinstance(got, (Sym, Rat, int, float, Poly, Opaque)) or isinstance(got, bool):
        raise Undecided("result")
    g, w = lift(got).rename(), lift(want).rename()
    if len(g.dims) != len(w.dims):
        return f"it has {len(g.dims)} axes instead of {len(w.dims)}"
    vals, ref = g.vals, w.vals
    for i, (x, y) in enumerate(zip(g.dims, w.dims)):
        if isinstance(x, int) and isinstance(y, int) and x == y:
            continue
        if isinstance(x, int) or isinstance(y, int) or g.size(i) != w.size(i):
            a, b = g.size(i), w.size(i)
            if witness(close, a, b) is None:
                raise Undecided("sizes")
            return f"axis {i} has length {show(a)} instead of {show(b)}"
        if [LENGTH[a] for a in x] == [LENGTH[b] for b in y]:
            vals = {k: v.subst({a: var(b) for a, b in zip(x, y)}) for k, v in vals.items()}
        elif len(x) == 1:
            vals = {k: v.subst({x[0]: flat(y)}) for k, v in vals.items()}
        else:  # both in terms of the place along the axis
            at = next_index(w.size(i))
            vals = {k: v.subst(places(x, at)) for k, v in vals.items()}
            ref = {k: v.subst(places(y, at)) for k, v in ref.items()}
    for k, v in ref.items():
        why = differs(vals[k], v)
        if why:
            return (f"component {', '.join(map(str, k))}: " if k else "") + why
    return None


def next_index(n: Rat) -> int:
    return Sym.grid(n).dims[0][0]


def places(ids: tuple, at: int) -> dict:
    out, v = {}, var(at)
    for y in ids[:0:-1]:
        out[y] = rmod(v, LENGTH[y])
        v = (v - out[y]) / LENGTH[y]
    out[ids[0]] = v
    return out


# ---------------------------------------------------------------- the bases
class Setting:
    """Two axes with their own lattice vectors, in two or one dimension."""

    def __init__(self, p: Project, parity: tuple, axes: int, turned: bool = False) -> None:
        self.p = p
        self.k = GridMachine(p)
        self.axes = axes
        two = Poly.of(2)
        self.n = [Poly.atom(f"m{i}") * two + Poly.of(parity[i % 2]) for i in range(axes)]
        self.big = [Poly.atom(f"M{i}") * two + Poly.of(parity[2 + i % 2]) for i in range(axes)]
        self.names = ", ".join(f"{'odd' if q else 'even'} {w}" for q, w in zip((parity[0], parity[2]), ("number of states", "number of points")))
        self.turned = turned  # into the directions of the first lattice vectors
        self.lattice = [[Rat.of(0) if turned and j > i else Rat.atom(("given", f"lattice{i}{j}", ())) for j in range(axes)] for i in range(axes)]
        POSITIVE.update(("given", f"lattice{i}{i}", ()) for i in range(axes) if turned)
        self.bases = []
        for i in range(axes):
            c = p.cls("TruncatedPositionBasis" if i == 0 else "TransformedPositionBasis")
            if c is None:
                raise AnalysisBroken("the position bases are gone")
            self.bases.append(self.k.construct(c, [lift(self.lattice[i]), self.n[i], self.big[i]], {}, f"axis {i}"))
        t, u = p.cls("TupleBasis"), p.cls("BasisUtil")
        if t is None or u is None:
            raise AnalysisBroken("the product basis is gone")
        self.tuple = self.k.construct(t, list(self.bases), {}, "basis")
        self.util = self.k.construct(u, [self.tuple], {}, "util")
        self.utils = [self.k.construct(u, [b], {}, f"util {i}") for i, b in enumerate(self.bases)]
        self.rn, self.rN = [Rat.of(x) for x in self.n], [Rat.of(x) for x in self.big]
        SQUARES.extend(x for x in self.rn + self.rN if len(x.num) > 1 and x not in SQUARES)
        inv = inverse(self.lattice)
        self.dk = [[Rat.of(2) * PI * inv[j][i] for j in range(axes)] for i in range(axes)]

    # expected values
    def grid(self, sizes: list, value) -> Sym:
        """One value for every combination of indices, in row-major order."""
        ids = tuple(next_index(n) for n in sizes)
        v = value([var(i) for i in ids])
        if isinstance(v, list):
            return Sym([len(v), ids], {(j,): x for j, x in enumerate(v)})
        return Sym([ids], {(): v})

    @staticmethod
    def wave(i: Rat, n: Rat) -> Rat:
        h = halve(n)
        return rmod(i + h, n) - h

    def along(self, vectors: list, coefficients: list, scale: list | None = None) -> list:
        out = []
        for c in range(self.axes):
            t = Rat.of(0)
            for i in range(self.axes):
                x = coefficients[i] * vectors[i][c]
                t = t + (x / scale[i] if scale is not None else x)
            out.append(t)
        return out

    def product(self, ns: list) -> Rat:
        out = Rat.of(1)
        for n in ns:
            out = out * n
        return out

    def properties(self) -> list:
        """(name, object, expected)"""
        n, N, a, dk = self.rn, self.rN, self.lattice, self.dk
        r = range(self.axes)
        out = []
        for i in r:
            u = self.utils[i]
            one = [
                ("n", n[i]), ("fundamental_n", N[i]),
                ("nx_points", self.grid([n[i]], lambda x: x[0])),
                ("fundamental_nx_points", self.grid([N[i]], lambda x: x[0])),
                ("nk_points", self.grid([n[i]], lambda x, i=i: self.wave(x[0], n[i]))),
                ("fundamental_nk_points", self.grid([N[i]], lambda x, i=i: self.wave(x[0], N[i]))),
                ("delta_x", lift(a[i])),
                ("dx", lift([v / n[i] for v in a[i]])),
                ("fundamental_dx", lift([v / N[i] for v in a[i]])),
                ("x_points", self.grid([n[i]], lambda x, i=i: [x[0] * v / n[i] for v in a[i]])),
                ("fundamental_x_points", self.grid([N[i]], lambda x, i=i: [x[0] * v / N[i] for v in a[i]])),
            ]
            out += [(name, u, want) for name, want in one]
        u = self.util
        nd = self.product
        det = self.k.la_det([lift(a)], {})
        detk = self.k.la_det([lift(dk)], {})
        many = [
            ("n", nd(n)), ("fundamental_n", nd(N)), ("shape", tuple(n)), ("fundamental_shape", tuple(N)), ("ndim", Rat.of(self.axes)),
            ("nx_points", self.grid([nd(n)], lambda x: x[0])),
            ("stacked_nx_points", tuple(self.grid(n, lambda x, i=i: x[i]) for i in r)),
            ("fundamental_stacked_nx_points", tuple(self.grid(N, lambda x, i=i: x[i]) for i in r)),
            ("stacked_nk_points", tuple(self.grid(n, lambda x, i=i: self.wave(x[i], n[i])) for i in r)),
            ("fundamental_stacked_nk_points", tuple(self.grid(N, lambda x, i=i: self.wave(x[i], N[i])) for i in r)),
            ("delta_x_stacked", lift(a)), ("fundamental_delta_x_stacked", lift(a)),
            ("dx_stacked", lift([[v / n[i] for v in a[i]] for i in r])),
            ("fundamental_dx_stacked", lift([[v / N[i] for v in a[i]] for i in r])),
            ("dk_stacked", lift(dk)), ("fundamental_dk_stacked", lift(dk)),
            ("delta_k_stacked", lift([[v * n[i] for v in dk[i]] for i in r])),
            ("fundamental_delta_k_stacked", lift([[v * N[i] for v in dk[i]] for i in r])),
            ("x_points_stacked", self.grid(n, lambda x: self.along(a, x, n))),
            ("fundamental_x_points_stacked", self.grid(N, lambda x: self.along(a, x, N))),
            ("k_points", self.grid(n, lambda x: self.along(dk, [self.wave(y, m) for y, m in zip(x, n)]))),
            ("fundamental_stacked_k_points", self.grid(N, lambda x: self.along(dk, [self.wave(y, m) for y, m in zip(x, N)]))),
            ("volume", det), ("reciprocal_volume", detk),
        ]
        return out + [(name, u, want) for name, want in many]

    def index(self, name: str) -> list:
        """An index whose entries are any whole numbers."""
        return [Rat.atom(("whole", name, i)) for i in range(self.axes)]

    def methods(self) -> list:
        """(name, object, arguments, keywords, expected)"""
        n, a, dk = self.rn, self.lattice, self.dk
        u = self.util
        idx = self.index("idx")
        i = next_index(self.product(n))
        where = places(tuple(next_index(m) for m in n), i)
        st = [where[j] for j in sorted(where)]
        line = Sym([(i,)], {(): var(i)})
        flat_ = Rat.of(0)
        wrapped = Rat.of(0)
        for v, m in zip(idx, n):
            flat_ = flat_ * m + v
            wrapped = wrapped * m + rmod(v, m)
        grid = lambda vs: Sym([len(vs), (i,)], {(j,): v for j, v in enumerate(vs)})  # noqa: E731
        return [
            ("get_flat_index", u, [tuple(idx)], {}, flat_),
            ("get_flat_index", u, [tuple(idx)], {"mode": "wrap"}, wrapped),
            ("get_stacked_index", u, [line], {}, tuple(Sym([(i,)], {(): v}) for v in st)),
            ("get_x_points_at_index", u, [tuple(idx)], {}, lift(self.along(a, idx, n))),
            ("get_k_points_at_index", u, [tuple(idx)], {}, lift(self.along(dk, idx))),
            ("get_x_points_at_index", u, [line], {}, grid(self.along(a, st, n))),
            ("get_k_points_at_index", u, [line], {}, grid(self.along(dk, st))),
        ]


WHOLE.add("whole")
AXES = ((2, False), (1, True), (2, True), (3, True))
PARITIES = [(0, 1, 0, 1), (1, 0, 1, 0), (0, 0, 1, 1), (1, 1, 0, 0)]


# ---------------------------------------------------------------- functions of the library
class AnyOf:
    """Any of several results will do."""

    def __init__(self, *options) -> None:
        self.options = options


def matches(got, want) -> str | None:
    if isinstance(want, AnyOf):
        whys, unknown = [], None
        for w in want.options:
            try:
                whys.append(same(got, w))
            except Undecided as e:
                unknown = e
                continue
            if whys[-1] is None:
                return None
        if unknown is not None:
            raise unknown
        return whys[0]
    return same(got, want)


class Made:
    """A basis of one axis: its kind, sizes and lattice vector."""

    def __init__(self, n, fundamental_n, delta_x=None, transformed: bool | None = None, step=None, offset=None) -> None:
        self.n, self.big, self.delta_x, self.transformed, self.step, self.offset = n, fundamental_n, delta_x, transformed, step, offset


def made(k: GridMachine):
    def compare(got, want) -> str | None:
        if not isinstance(got, Inst) and not isinstance(got, (tuple, list)):
            raise Undecided("basis")
        got = list(k.iterate(got))
        if len(got) != len(want):
            return f"there are {len(got)} axes instead of {len(want)}"
        for i, (g, w) in enumerate(zip(got, want)):
            if not isinstance(g, Inst):
                raise Undecided("basis")
            for name, v in (("n", w.n), ("fundamental_n", w.big), ("delta_x", w.delta_x), ("step", w.step), ("offset", w.offset)):
                if v is None:
                    continue
                try:
                    have = k.inst_attr(g, name, None)
                except Broken:
                    return f"axis {i} has no {name}"
                why = matches(have, v)
                if why:
                    return f"{name} of axis {i}: {why}"
            if w.transformed is not None:
                kinds = {c.name for c in k.p.mro(g.cls)}
                if ("AsTransformedBasis" in kinds or "TransformedBasis" in kinds) != w.transformed and kinds & {"AsTransformedBasis", "TransformedBasis", "AsFundamentalBasis", "FundamentalBasis"}:
                    return f"axis {i} is a {g.cls.name}"
        return None

    return compare


def given(name: str, *idx) -> Rat:
    return Rat.atom(("given", name, tuple(Rat.of(x) for x in idx)))


def dot(a: list, b: list) -> Rat:
    out = Rat.of(0)
    for x, y in zip(a, b):
        out = out + x * y
    return out


def unit_vectors(vs: list) -> list:
    """Gram-Schmidt."""
    out: list = []
    for v in vs:
        for e in out:
            c = dot(e, v)
            v = [x - y * c for x, y in zip(v, e)]
        norm = rsqrt(dot(v, v))
        out.append([x / norm for x in v])
    return out


def functions(s: Setting) -> list:
    """(function, label, arguments, keywords, expected, comparison)"""
    n, N, a, dk, r, b = s.rn, s.rN, s.lattice, s.dk, range(s.axes), s.tuple
    dims = s.axes
    out: list = []

    def add(name: str, args: list, kw: dict, want, compare=matches, label: str = "") -> None:
        out.append((name, name.split(".")[-1] + (f" ({label})" if label else ""), args, kw, want, compare))

    basis = made(s.k)
    # ---- products of bases
    add("stacked_basis.conversion.stacked_basis_as_fundamental_basis", [b], {}, [Made(x, x) for x in N], basis)
    add("stacked_basis.conversion.stacked_basis_as_fundamental_transformed_basis", [b], {}, [Made(x, x, transformed=True) for x in N], basis)
    add("stacked_basis.conversion.stacked_basis_as_fundamental_position_basis", [b], {}, [Made(x, x, lift(v), False) for x, v in zip(N, a)], basis)
    add("stacked_basis.conversion.stacked_basis_as_fundamental_momentum_basis", [b], {}, [Made(x, x, lift(v), True) for x, v in zip(N, a)], basis)
    q = [Poly.atom(f"q{i}") for i in r]
    Q = [Rat.of(x) for x in q]
    add("stacked_basis.conversion.stacked_basis_as_fundamental_with_shape", [b, tuple(q)], {}, [Made(x, x, lift(v), False) for x, v in zip(Q, a)], basis)
    add("stacked_basis.build.fundamental_stacked_basis_from_shape", [tuple(q)], {}, [Made(x, x, transformed=False) for x in Q], basis)
    add("stacked_basis.build.fundamental_transformed_stacked_basis_from_shape", [tuple(q)], {}, [Made(x, x, transformed=True) for x in Q], basis)
    add("stacked_basis.build.position_basis_from_shape", [tuple(q), lift(a)], {}, [Made(x, x, lift(v), False) for x, v in zip(Q, a)], basis)
    eye = [[Rat.of(int(i == j)) for j in r] for i in r]
    add("stacked_basis.build.position_basis_from_shape", [tuple(q)], {}, [Made(x, x, lift(v), False) for x, v in zip(Q, eye)], basis, "default lattice")
    add("stacked_basis.util.get_single_point_basis", [b], {}, [Made(Rat.of(1), Rat.of(1), lift(v)) for v in a], basis)
    if dims == 3:
        add("stacked_basis.build.position_basis_3d_from_parent", [b, tuple(q)], {}, [Made(x, x, lift(v), False) for x, v in zip(Q, a)], basis)
        add("stacked_basis.build.position_basis_3d_from_shape", [tuple(q), lift(a)], {}, [Made(x, x, lift(v), False) for x, v in zip(Q, a)], basis)
        add("stacked_basis.build.momentum_basis_3d_from_resolution", [tuple(q), lift(a)], {}, [Made(x, x, lift(v), True) for x, v in zip(Q, a)], basis)
        add("stacked_basis.build.momentum_basis_3d_from_resolution", [tuple(q)], {}, [Made(x, x, lift(v), True) for x, v in zip(Q, eye)], basis, "default lattice")
    one = s.bases[0]
    for name, want in (
        ("basis_as_fundamental_position_basis", Made(N[0], N[0], lift(a[0]), False)), ("basis_as_fundamental_momentum_basis", Made(N[0], N[0], lift(a[0]), True)),
        ("basis_as_fundamental_transformed_basis", Made(N[0], N[0], None, True)), ("basis_as_fundamental_basis", Made(N[0], N[0], None, False)),
        ("basis_as_single_point_basis", Made(Rat.of(1), Rat.of(1), lift(a[0]))),
    ):
        add(f"basis.conversion.{name}", [one], {}, want, lambda got, w: basis([got], [w]))
    add("basis.conversion.basis_as_n_point_basis", [lift(a[0])], {"n": q[0]}, Made(Q[0], Q[0], lift(a[0]), False), lambda got, w: basis([got], [w]))

    # ---- projections on axes
    pts = next_index(Rat.of(Poly.atom("points")))
    points = Sym([dims, (pts,)], {(j,): given("point", j, var(pts)) for j in r})
    cols = [points.vals[j,] for j in r]
    for axes in ([(i,) for i in r] + ([(0, 1), (1, 0)] if dims == 2 else [(0, 1)] if dims == 3 else [])) if s.turned else []:
        for name, vs in (("x", a), ("k", dk)):
            if name == "k":  # the axes after which the triangle is taken keep the roots simple
                if axes == (1, 0):
                    continue
                axes = tuple(dims - 1 - i for i in axes)  # noqa: PLW2901
            es = unit_vectors([vs[i] for i in axes])
            add(f"stacked_basis.util.project_{name}_points_along_axes", [points, b, axes], {}, Sym([len(axes), (pts,)], {(j,): dot(e, cols) for j, e in enumerate(es)}), label=f"axes {axes}")

            def place(x: list, name: str = name, vs: list = vs) -> list:
                return s.along(a, x, N) if name == "x" else s.along(dk, [s.wave(y, m) for y, m in zip(x, N)])

            add(
                f"stacked_basis.util.get_fundamental_stacked_{name}_points_projected_along_axes", [b, axes], {},
                s.grid(N, lambda x, es=es, place=place: [dot(e, place(x)) for e in es]), label=f"axes {axes}",
            )
            rest = [i for i in r if i not in axes]
            for idx in (None, tuple(Rat.atom(("whole", "at", i)) for i in rest)):
                ids = {i: next_index(N[i]) for i in axes}
                at = [var(ids[i]) if i in axes else Rat.of(0) if idx is None else idx[rest.index(i)] for i in r]
                want = Sym([len(axes), *((ids[i],) for i in axes)], {(j,): dot(e, place(at)) for j, e in enumerate(es)})
                add(f"stacked_basis.util.get_{name}_coordinates_in_axes", [b, axes, idx], {}, want, label=f"axes {axes}")

    # ---- wrapping
    idx, origin = s.index("idx"), s.index("origin")

    def wrapped(x: Rat, o: Rat, m: Rat, h: Rat) -> Rat:
        return rmod(x - o + h, m) + o - h

    def low(m: Rat) -> Rat:
        return halve(m)

    def high(m: Rat) -> Rat:
        return halve(m - 1)

    zero = [Rat.of(0)] * dims
    for o in (None, origin):
        for axes in [None] + ([(i,) for i in r] if dims > 1 else []):
            kw = ({"origin": tuple(o)} if o else {}) | ({"axes": axes} if axes else {})
            want = AnyOf(*(tuple(wrapped(x, p, m, h(m)) if axes is None or i in axes else x for i, (x, p, m) in enumerate(zip(idx, o or zero, n))) for h in (low, high)))
            add("stacked_basis.util.wrap_index_around_origin", [b, tuple(idx)], kw, want, label=", ".join(kw))
    inv = inverse(a)
    for o in (None, [given("from", j) for j in r]):
        frac = [dot([inv[j][i] for j in r], cols) for i in r]
        half = Rat.of(1) / 2
        base = [dot([inv[j][i] for j in r], o) for i in r] if o else zero
        back = [rmod(x - y + half, Rat.of(1)) + y - half for x, y in zip(frac, base)]
        add("stacked_basis.util.wrap_x_point_around_origin", [b, points] + ([lift(o)] if o else []), {}, Sym([dims, (pts,)], {(c,): dot([a[i][c] for i in r], back) for c in r}), label="origin" if o else "")
    if dims >= 2:
        add("stacked_basis.util.get_x01_mirrored_index", [tuple(idx)], {}, (idx[1], idx[0], *idx[2:]))

    # ---- paths
    along = next_index(Rat.of(Poly.atom("path")))
    path = Sym([dims, (along,)], {(j,): given("path", j, var(along)) for j in r})
    if dims < 3 and s.turned:
        step = next_index(Rat.of(Poly.atom("path")) - 1)

        def steps(sign: int) -> list:
            return [(given("path", j, var(step)) - given("path", j, var(step) + 1)) * sign for j in r]

        def shut(x: Rat, m: Rat) -> Rat:
            return rmod(x + m / 2, m) - m / 2

        def total(vectors: list, ds: list) -> Sym:
            vs = [dot(ds, [vectors[i][c] for i in r]) for c in r]
            return k.np_insert([k.np_cumsum([Sym([(step,)], {(): rsqrt(dot(vs, vs))})], {}), 0, 0], {})

        k = s.k
        fine = [[v / m for v in w] for w, m in zip(a, N)]
        for wrap in (False, True):
            ways = [[shut(d, m) for d, m in zip(steps(sign), ns)] if wrap else steps(sign) for sign in (1, -1) for ns in (n, N)]
            kw = {"wrap_distances": True} if wrap else {}
            label = "wrapped" if wrap else ""
            add("stacked_basis.util.calculate_distances_along_path", [b, path], kw, AnyOf(*(Sym([dims, (step,)], {(j,): w[j] for j in r}) for w in ways)), label=label)
            add("stacked_basis.util.calculate_cumulative_x_distances_along_path", [b, path], kw, AnyOf(*(total(fine, w) for w in ways)), label=label)
            add("stacked_basis.util.calculate_cumulative_k_distances_along_path", [b, path], kw, AnyOf(*(total(dk, w) for w in ways)), label=label)

    # ---- reciprocal lattice
    for bands, kw in ((1, {}), (2, {"n_bands": 2})):
        w = Rat.of(2 * bands + 1)
        around = s.grid([w] * dims, lambda x: x[0])
        label = f"{bands} bands"
        add("stacked_basis.brillouin_zone.get_bragg_point_basis", [b], kw, [Made(w, w, lift([v / m for v in vec])) for vec, m in zip(a, n)], basis, label)
        del around
        near = [[Rat.of(j if j <= bands else j - 2 * bands - 1) for j in c] for c in itertools.product(range(2 * bands + 1), repeat=dims)]
        add("stacked_basis.brillouin_zone.get_all_brag_point_index", [b], kw, tuple(lift([c[i] * n[i] for c in near]) for i in r), label=label)
        add("stacked_basis.brillouin_zone.get_all_brag_point", [b], kw, lift([[dot([x * m for x, m in zip(c, n)], [dk[i][j] for i in r]) for c in near] for j in r]), label=label)
    g = [given("bragg", j) for j in r]
    norm = rsqrt(dot(g, g))
    add("stacked_basis.brillouin_zone.get_bragg_plane_distance", [lift(g), points], {}, Sym([(pts,)], {(): dot(g, cols) / norm - norm / 2}))
    if dims == 3:
        add("stacked_basis.brillouin_zone.fold_point_in_bragg_plane", [tuple(origin), tuple(idx)], {}, tuple(x - o for x, o in zip(idx, origin)))

    # ---- displacements
    def square(ns: list, value) -> Sym:
        i, j = tuple(next_index(m) for m in ns), tuple(next_index(m) for m in ns)
        return Sym([i, j], {(): value([var(x) for x in i], [var(x) for x in j])})

    add("operator.build.get_displacements_matrix_nx", [one], {}, AnyOf(*(square(N[:1], lambda i, j, h=h: wrapped(i[0] - j[0], Rat.of(0), N[0], h(N[0]))) for h in (low, high))))
    add("operator.build.get_displacements_matrix_nx_stacked", [b], {}, AnyOf(*(tuple(square(N, lambda i, j, h=h, c=c: wrapped(i[c] - j[c], Rat.of(0), N[c], h(N[c]))) for c in r) for h in (low, high))))
    o = given("from")
    length = rsqrt(dot(a[0], a[0]))

    def closest(x: Rat) -> Rat:
        return rmod(x + length / 2, length) - length / 2

    def data(got, want) -> str | None:
        if not isinstance(got, dict):
            raise Undecided("record")
        why = basis([got["basis"]], [Made(N[0], N[0], lift(a[0]), False)]) if got["basis"].cls.name != "TupleBasis" else basis(got["basis"], [Made(N[0], N[0], lift(a[0]), False)] * 2)
        return why or matches(got["data"], want)

    def ravelled(v: Sym) -> Sym:
        return Sym([tuple(x for d in v.dims for x in d)], v.vals)

    for org, args in ((o, [o]),):
        add("operator.build.get_displacements_x", [one, *args], {}, s.grid(N[:1], lambda i, org=org: closest(i[0] * length / N[0] - org)), data)
        add("operator.build.get_displacements_matrix_x", [one, *args], {}, ravelled(square(N[:1], lambda i, j, org=org: closest((i[0] - j[0]) * length / N[0] - org))), data)
    add("operator.build.get_displacements_matrix_x", [one], {}, ravelled(square(N[:1], lambda i, j: closest((i[0] - j[0]) * length / N[0]))), data, "no origin")

    # ---- samples of the Brillouin zone
    k = s.k
    small = [Poly.atom(f"l{i}") * Poly.of(2) + Poly.of(i % 2) for i in r]
    large = [Poly.atom(f"L{i}") * Poly.of(2) + Poly.of((i + 1) % 2) for i in r]
    c = s.p.cls("TruncatedBasis")
    if c is not None:
        leaves = [k.construct(c, [x, y], {}, f"sample axis {i}") for i, (x, y) in enumerate(zip(small, large))]
        samples = k.construct(s.tuple.cls, leaves, {}, "samples")
        both = k.construct(s.tuple.cls, [samples, b], {}, "wavepacket")
        S = [Rat.of(x) for x in large]
        scaled = [[v * m for v in vec] for vec, m in zip(a, S)]
        add("wavepacket.wavepacket.get_fundamental_sample_basis", [both], {}, [Made(x, x, lift(v), True) for x, v in zip(S, scaled)], basis)
        add("wavepacket.wavepacket.get_fundamental_unfurled_basis", [both], {}, [Made(x * y, x * y, lift(v), True) for x, y, v in zip(S, N, scaled)], basis)
        for off in (None, tuple(Rat.atom(("whole", "offset", i)) for i in r)):
            want = [Made(y, x * y, lift(v), True, x, Rat.of(0) if off is None else off[i]) for i, (x, y, v) in enumerate(zip(S, N, scaled))]
            add("wavepacket.wavepacket.get_fundamental_unfurled_sample_basis_momentum", [both] + ([off] if off else []), {}, want, basis, "offsets" if off else "")
        back = [[sum_ / m for sum_, m in ((v, x) for v in row)] for row, x in zip(dk, S)]
        add("wavepacket.wavepacket.get_wavepacket_fundamental_sample_frequencies", [both], {}, s.grid(S, lambda i: s.along(back, [s.wave(y, m) for y, m in zip(i, S)])))
    return out


def independent(p: Project, k: GridMachine) -> list:
    """Functions that need no lattice."""
    out: list = []
    for dims in (1, 2, 3):
        for hop, c in enumerate(itertools.product((0, 1, -1), repeat=dims)):
            out.append(("dynamics.util.get_hop_shift", f"get_hop_shift of hop {hop} in {dims} dimensions", [hop, dims], {}, tuple(Rat.of(x) for x in c), matches))
    shape = [Rat.of(Poly.atom(f"s{i}")) for i in range(3)]
    ids = [next_index(m) for m in shape]
    data = Sym([(i,) for i in ids], {(): given("data", *(var(i) for i in ids))})
    for axes in [x for m in (1, 2, 3) for x in itertools.permutations(range(3), m)]:
        rest = [i for i in range(3) if i not in axes]
        idx = tuple(Rat.atom(("whole", "at", i)) for i in rest)
        at = [var(ids[i]) if i in axes else idx[rest.index(i)] for i in range(3)]
        out.append(("util.util.get_data_in_axes", f"get_data_in_axes for axes {axes}", [data, axes, idx], {}, Sym([(ids[i],) for i in axes], {(): given("data", *at)}), matches))
        place = tuple(Rat.of(sorted(axes).index(x)) for x in axes)
        out.append(("util.util.get_position_in_sorted", f"get_position_in_sorted for axes {axes}", [axes], {}, place, matches))
    return out


def times(p: Project, k: GridMachine) -> list:
    """(name, object, expected)"""
    out: list = []
    n, step, offset = (Poly.atom(x) for x in ("n", "step", "offset"))
    t = given("delta_t")
    rn, rs, ro = Rat.of(n), Rat.of(step), Rat.of(offset)
    for name, args, s_, o_ in (("EvenlySpacedTimeBasis", [n, step, offset, t], rs, ro), ("FundamentalTimeBasis", [n, t], Rat.of(1), Rat.of(0))):
        c = p.cls(name)
        if c is None:
            continue
        o = k.construct(c, args, {}, name)
        whole_ = rn * s_

        def grid(m: Rat, value) -> Sym:
            return Sym.grid(m, value)

        out += [
            ("n", o, rn), ("fundamental_n", o, whole_), ("delta_t", o, t), ("dt", o, t / rn), ("fundamental_dt", o, t / whole_),
            ("nt_points", o, grid(rn, lambda i, s_=s_, o_=o_: o_ + s_ * i)),
            ("times", o, grid(rn, lambda i, s_=s_, o_=o_, w=whole_: t * (o_ + s_ * i) / w)),
            ("fundamental_times", o, grid(whole_, lambda i, w=whole_: t * i / w)),
        ]
    return out


class Check:
    def __init__(self, p: Project) -> None:
        self.p = p
        self.res = Result()
        self.trouble: list = []

    def owner(self, o: Inst, name: str) -> Func | None:
        return self.p.find_method(o.cls, name)

    def judge(self, f: Func | None, what: str, run, want, s: Setting | None, compare=same) -> None:
        if f is None:
            return
        self.res.count("obligations")
        try:
            got = run()
            why = compare(got, want)
        except Broken as e:
            why = f"this certainly raises: {e}"
        except (Undecided, Endless, RecursionError, ZeroDivisionError) as e:
            self.res.count("undecided")
            self.trouble.append((what, "", repr(e)))
            return
        except (KeyError, TypeError, AttributeError, ValueError, IndexError) as e:
            self.res.count("undecided")
            self.trouble.append((what, "", f"{type(e).__name__} {e}"))
            return
        self.res.count("decided")
        if why:
            self.res.add("points", f.short, what, f"{f.module.rel}:{f.node.lineno}", f"{what}{f' with {s.names}' if s else ''}: {why}")


def analyse(p: Project, tier: str) -> Result:
    c = Check(p)

    def function(s, k, name, label, args, kw, want, compare) -> None:
        f = p.func(name)
        if f is None:
            c.res.count("absent")
            return
        c.judge(f, label, lambda: k.call_func(f, None, list(args), dict(kw)), want, s, compare)

    for axes, turned in AXES:
        for parity in PARITIES if axes < 3 or tier != "quick" else PARITIES[:1]:
            s = Setting(p, parity, axes, turned)
            for name, o, want in s.properties():
                c.judge(c.owner(o, name), name, lambda o=o, name=name: s.k.inst_attr(o, name, None), want, s)
            for name, o, args, kw, want in s.methods():
                c.judge(c.owner(o, name), name, lambda o=o, name=name, args=args, kw=kw: s.k.apply(s.k.attribute(o, name), args, kw), want, s)
            for name, label, args, kw, want, compare in functions(s):
                function(s, s.k, name, label, args, kw, want, compare)
    k = GridMachine(p)
    for name, label, args, kw, want, compare in independent(p, k):
        function(None, k, name, label, args, kw, want, compare)
    for name, o, want in times(p, k):
        c.judge(c.owner(o, name), f"{o.cls.name}.{name}", lambda o=o, name=name: k.inst_attr(o, name, None), want, None)
    res = c.res
    res.detail["undecided"] = sorted({f"{w}: {e}" for w, _, e in c.trouble})
    res.floors = {"obligations": 400, "decided": 200}
    res.explanation = (
        "Every function and property that hands out points, wave numbers, indices, displacements or derived bases is interpreted over symbolic sizes "
        "(even and odd), lattice vectors, indices and points; the normal form of its result is compared with the stated one."
    )
    res.assumptions = [
        "numpy's array constructors, index arithmetic and linear algebra mean what their documentation says",
        "a difference of normal forms is reported only with sizes and indices at which the two forms have different values",
        "products of one, two and three axes stand for all numbers of axes",
    ]
    return res
