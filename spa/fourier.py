"""Transforms outside the basis classes: what they do to which axis, and with what norm (C07).

The interpolation routines, the eigenvalues of periodic noise, the potential coefficients and the
unfurling of a wavepacket are interpreted with the same operator words as the basis classes
(see conversions); every other pair of a forward and an inverse transform in one function is
compared by its norm arguments.
"""

from __future__ import annotations

import ast
from fractions import Fraction

from .conversions import (
    Arr, Buffer, Classes, Endless, Factor, Inst, Machine, Opaque, Poly, Return, Row, Scale, Undecided, axis_words, push, reduce_word, show_scale,
    show_word,
)
from .model import Func, Project
from .report import Result

UNKNOWN = Opaque(("unknown",))


class Rec(dict):
    """A record under construction."""


class SpectralMachine(Machine):
    """Values that cannot be followed stay unknown as long as nothing that is decided needs them."""

    def __init__(self, project: Project, fixed: dict | None = None) -> None:
        super().__init__(project)
        self.fixed = fixed or {}  # names of members with a given value

    # ---- tolerant statements
    def stmt(self, s: ast.stmt, env: dict, f: Func) -> None:
        try:
            super().stmt(s, env, f)
        except Undecided:
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and not isinstance(t, ast.Subscript):
                            env[x.id] = UNKNOWN
                        elif isinstance(x, ast.Name):
                            raise
            elif isinstance(s, ast.If) and not any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for x in ast.walk(s)):
                # touch-ups under a condition on the values: only what they rebind becomes unknown
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        env[x.id] = UNKNOWN
            elif isinstance(s, (ast.Assert, ast.Try)) and not any(isinstance(x, ast.Return) for x in ast.walk(s)):
                return
            elif isinstance(s, ast.Expr):
                return
            else:
                raise

    def ev(self, e: ast.expr, env: dict, f, m=None):
        if isinstance(e, ast.Dict):
            out = Rec()
            for k, v in zip(e.keys, e.values):
                if not isinstance(k, ast.Constant):
                    raise Undecided("record")
                try:
                    out[k.value] = self.ev(v, env, f, m)
                except Undecided:
                    out[k.value] = UNKNOWN
            return out
        v = super().ev(e, env, f, m)
        return v

    def subscript(self, o, i):
        if isinstance(o, dict):
            if i not in o:
                raise Undecided("key")
            return o[i]
        return super().subscript(o, i)

    def attribute(self, o, a: str):
        if o is UNKNOWN:
            raise Undecided("unknown")
        return super().attribute(o, a)

    def inst_attr(self, o, a, after):
        if a in self.fixed:
            return self.fixed[a]
        return super().inst_attr(o, a, after)

    # ---- real and shifted transforms
    def fft(self, short: str, args, kw):
        if short in ("fftshift", "ifftshift"):
            a = args[0]
            if not isinstance(a, Arr):
                raise Undecided(short)
            axes = args[1] if len(args) > 1 else kw.get("axes")
            axes = range(len(a.axes)) if axes is None else axes if isinstance(axes, (tuple, list)) else (axes,)
            for x in axes:
                i = a.axis(x)
                half = Poly.atom(("//", a.size(i), Poly.of(2)))
                a = a.on(i, ("roll", half if short == "fftshift" else -half))
            return a
        if short in ("rfft", "rfftn", "rfft2", "irfft", "irfftn", "irfft2"):
            a = args[0]
            if not isinstance(a, Arr):
                raise Undecided(short)
            many = not short.endswith("fft")
            names = ("s", "axes", "norm") if many else ("n", "axis", "norm")
            got = dict(zip(names, args[1:])) | {k: v for k, v in kw.items() if k in names}
            norm = got.get("norm")
            axes = got.get(names[1])
            size = got.get(names[0])
            if not many:
                axes, size = (-1 if axes is None else axes,), (None if size is None else (size,))
            if axes is None:
                if short.endswith("2"):
                    axes = (-2, -1)
                else:
                    k = len(a.axes) if size is None else len(self.iterate(size))
                    axes = tuple(range(-k, 0))
            axes = tuple(self.iterate(axes))
            size = (None,) * len(axes) if size is None else tuple(self.iterate(size))
            if len(size) != len(axes):
                raise Undecided("sizes")
            rest = axes[:-1]
            inverse = short.startswith("i")
            p = {None: Fraction(-1, 2) if inverse else Fraction(1, 2), "backward": Fraction(-1, 2) if inverse else Fraction(1, 2),
                 "forward": Fraction(1, 2) if inverse else Fraction(-1, 2), "ortho": Fraction(0)}.get(norm)
            if p is None:
                raise Undecided("norm")
            if not inverse:
                i = a.axis(axes[-1])
                n = a.size(i)
                if size[-1] is not None and Poly.of(size[-1]) != n:
                    a = a.on(i, ("crop", n, Poly.of(size[-1])), Poly.of(size[-1]))
                    n = a.size(i)
                a = a.on(i, ("F", n, 1)).on(i, ("half", n), Poly.atom(("//", n, Poly.of(2))) + Poly.of(1))
                a = Arr(a.axes, a.conj, a.scale.times(Scale({n: p})))
            for x, n in zip(rest, size):
                a = super().fft("ifft" if inverse else "fft", [a], {"n": n, "axis": x, "norm": norm})
            if inverse:
                i = a.axis(axes[-1])
                m = a.size(i)
                s = (m - Poly.of(1)) * Poly.of(2) if size[-1] is None else Poly.of(size[-1])
                f = a.axes[i][0] if len(a.axes[i]) == 1 else None
                if f is not None and f.word and f.word[-1][0] == "half" and not a.conj:
                    ax = list(a.axes)
                    ax[i] = (Factor(f.name, (*f.word[:-1], ("spec", f.word[-1][1], s)), s),)
                    a = a.with_axes(ax)
                else:
                    a = a.on(i, ("unhalf", m, s), s)
                a = a.on(i, ("F", s, -1))
                a = Arr(a.axes, a.conj, a.scale.times(Scale({s: p})))
            return a
        return super().fft(short, args, kw)


def by_name(p: Project, name: str) -> Func | None:
    return next((g for m in p.modules.values() for g in m.funcs if g.name == name and g.cls is None), None)


def value(v):
    return v.value() if isinstance(v, Buffer) else v


def expect(res: Result, f: Func, what: str, got, words: list, powers: dict, strict: bool = True) -> None:
    """Compare with the wanted words per axis (one factor each, or None) and the wanted scale."""
    if not isinstance(got, Arr):
        raise Undecided("result")
    if len(got.axes) != len(words):
        raise Undecided("rank")
    scale = Scale(powers)
    if got.scale.key() != scale.key():
        have, want = show_scale(got.scale), show_scale(scale)
        res.add("normalisation", f.qual, what, f.loc, f"{f.name} ({what}) scales its input by {have} relative to unitary transforms, where {want} is consistent")
    for i, want in enumerate(words):
        if want is None:
            continue
        ws = axis_words(got, i)
        if len(ws) != 1:
            raise Undecided("factors")
        (_, have), = ws
        want = reduce_word(tuple(want))
        if got.conj:
            raise Undecided("conjugated")
        if any(o[0] in ("misfit",) for o in have):
            raise Undecided("misfit")
        if have != want:
            res.add("transform", f.qual, f"{what} axis {i}", f.loc,
                    f"{f.name} ({what}) along axis {i} does: {show(have)}; expected: {show(want)}")


def show(w: tuple) -> str:
    return show_word(w).replace("half", "keep the non-negative frequencies").replace("un" + "keep", "keep")


def interpolation(p: Project, res: Result) -> None:
    n = [Poly.atom(f"n{i}") for i in range(3)]
    s = [Poly.atom(f"s{i}") for i in range(3)]

    def operand():
        return Arr(tuple((Factor(("x", i), (), n[i]),) for i in range(3)))

    calls = []
    for axes in (None, (0, 1), (1, 2), (0, 2), (0,), (2,), (-1,), (-2,), (0, 1, 2), (2, 0)):
        real = (1, 2) if axes is None else tuple(a % 3 for a in axes)
        for name in ("interpolate_points_fftn", "interpolate_points_rfftn"):
            sizes = tuple(s[a] for a in real)
            calls.append((name, [sizes], {} if axes is None else {"axes": axes}, real, f"axes={axes}"))
            if axes is not None:
                calls.append((name, [sizes, axes], {}, real, f"axes={axes}"))
    for axis in (None, 0, 1, 2, -1, -2):
        real = (2 if axis is None else axis % 3,)
        calls.append(("interpolate_points_rfft", [s[real[0]]], {} if axis is None else {"axis": axis}, real, f"axis={axis}"))
    for name, args, kw, real, what in calls:
        f = by_name(p, name)
        if f is None:
            continue
        res.count("interpolations")
        try:
            got = value(SpectralMachine(p).call_func(f, None, [operand(), *args], kw))
            words = [[("F", n[i], 1), ("spec", n[i], s[i]), ("F", s[i], -1)] if i in real else [] for i in range(3)]
            expect(res, f, what, got, words, {x: v for i in real for x, v in ((s[i], Fraction(1, 2)), (n[i], Fraction(-1, 2)))})
            res.count("interpolations decided")
        except (Undecided, Endless, Return, KeyError, TypeError, IndexError) as e:
            res.detail.setdefault("undecided", {})[f"{name} {what}"] = str(e)


def noise(p: Project, res: Result) -> None:
    """The eigenvalue of a periodic noise operator is the transformed correlation times the ratio of the two sizes."""
    fb = next((c for c in p.classes if c.name == "FundamentalBasis"), None)
    tb = next((c for c in p.classes if c.name == "TupleBasis"), None)
    if fb is None or tb is None:
        return
    for stacked in (False, True):
        f = by_name(p, "get_periodic_noise_operators_isotropic_stacked_fft" if stacked else "get_periodic_noise_operators_isotropic_fft")
        if f is None:
            continue
        for given in (True, False):
            what = "with a fundamental size" if given else "with its own size"
            res.count("noise eigenvalues")
            try:
                k = SpectralMachine(p)
                d = 2 if stacked else 1
                n = [Poly.atom(f"n{i}") for i in range(d)]
                big = [Poly.atom(f"N{i}") if given else n[i] for i in range(d)]
                bases = [k.construct(fb, [x], {}) for x in n]
                basis = k.construct(tb, bases, {}) if stacked else bases[0]
                data = Arr((tuple(Factor(("x", i), (), n[i]) for i in range(d)),))
                kw: dict = {"assert_periodic": False}
                if given:
                    kw |= {"fundamental_shape": tuple(big)} if stacked else {"fundamental_n": big[0]}
                got = k.call_func(f, None, [Rec(basis=basis, data=data)], kw)
                if not isinstance(got, dict):
                    raise Undecided("result")
                v = value(got.get("eigenvalue", UNKNOWN))
                if not isinstance(v, Arr):
                    raise Undecided("result")
                fs = [x for ax in v.axes for x in ax]
                if len(fs) != d:
                    raise Undecided("factors")
                v = Arr(tuple((x,) for x in fs), v.conj, v.scale)
                words = [[("spec", n[i], big[i]), ("F", big[i], -1)] for i in range(d)]
                powers: dict = {}
                for i in range(d):
                    powers[n[i]] = powers.get(n[i], Fraction(0)) + 1
                    powers[big[i]] = powers.get(big[i], Fraction(0)) - Fraction(1, 2)
                expect(res, f, what, v, words, powers)
                res.count("noise eigenvalues decided")
            except (Undecided, Endless, Return, KeyError, TypeError, IndexError) as e:
                res.detail.setdefault("undecided", {})[f"{f.name} {what}"] = str(e)


def potentials(p: Project, res: Result) -> None:
    """Coefficients of the potential are its inverse transform over the two periodic axes, with 1 / N."""
    for c in p.classes:
        f = c.methods.get("get_ft_potential")
        if f is None:
            continue
        res.count("potential coefficients")
        n = [Poly.atom(f"n{i}") for i in range(3)]
        x = Arr(tuple((Factor(("x", i), (), n[i]),) for i in range(3)))

        class Points(SpectralMachine):
            def inst_attr(self, o, a, after):
                if a.endswith("points"):
                    g = self.p.find_method(o.cls, a)
                    return x if g is None or g.is_property else (lambda: x)
                return super().inst_attr(o, a, after)

            def apply(self, fn, args, kw):
                return x if callable(fn) and not isinstance(fn, type) and getattr(fn, "__name__", "") == "<lambda>" else super().apply(fn, args, kw)

        try:
            k = Points(p)
            got = value(k.call_func(f, Inst(c, {}, "self"), [], {}))
            if isinstance(got, Arr) and got.conj:
                # the potential is real: conjugating after a forward transform is an inverse transform
                got = Arr(tuple(tuple(Factor(y.name, tuple(("F", o[1], -o[2]) if o[0] == "F" else o for o in y.word), y.size) for y in ax) for ax in got.axes), False, got.scale)
            expect(res, f, "coefficients", got, [[("F", n[0], -1)], [("F", n[1], -1)], []], {n[0]: Fraction(-1, 2), n[1]: Fraction(-1, 2)})
            res.count("potential coefficients decided")
        except (Undecided, Endless, Return, KeyError, TypeError, IndexError) as e:
            res.detail.setdefault("undecided", {})[f.qual] = str(e)


def unfurling(p: Project, res: Result) -> None:
    """Unfurling keeps every amplitude of every sample, brings zero frequency back to the origin and divides by the root of the number of samples."""
    f = by_name(p, "_unfurl_momentum_basis_wavepacket")
    fb, tb = (next((c for c in p.classes if c.name == n), None) for n in ("FundamentalBasis", "TupleBasis"))
    if f is None or fb is None or tb is None:
        return
    for d in (1, 2, 3):
        res.count("unfurlings")
        try:
            k = SpectralMachine(p)
            ns = [Poly.atom(f"s{i}") for i in range(d)]
            nx = [Poly.atom(f"n{i}") for i in range(d)]
            samples = k.construct(tb, [k.construct(fb, [x], {}) for x in ns], {})
            states = k.construct(tb, [k.construct(fb, [x], {}) for x in nx], {})
            data = Arr((tuple(Factor(("sample", i), (), ns[i]) for i in range(d)) + tuple(Factor(("state", i), (), nx[i]) for i in range(d)),))
            got = k.call_func(f, None, [Rec(basis=k.construct(tb, [samples, states], {}), data=data)], {})
            v = value(got.get("data", UNKNOWN)) if isinstance(got, dict) else UNKNOWN
            if not isinstance(v, Arr):
                raise Undecided("result")
            want = Scale({x: Fraction(-1, 2) for x in ns})
            if v.scale.key() != want.key():
                res.add("normalisation", f.qual, "scale", f.loc,
                        f"{f.name} scales its input by {show_scale(v.scale)}, where {show_scale(want)} keeps the norm of a state spread over the samples")
            fs = [x for ax in v.axes for x in ax]
            if len(fs) != d:
                raise Undecided("factors")
            for i, x in enumerate(fs):
                if not isinstance(x.name, tuple) or x.name[0] != "joint" or len(x.name[1]) != 2 or len(x.word) != 1 or x.word[0][0] != "roll":
                    raise Undecided("axis")
                total = x.word[0][1]
                zero = Poly.of(0)
                stride = Poly.of(1)
                for name, word in reversed(x.name[1]):
                    if any(o[0] != "roll" for o in word):
                        raise Undecided("axis")
                    for o in word:
                        zero = zero + o[1] * stride
                    stride = stride * (ns if name[0] == "sample" else nx)[name[1]]
                if (total + zero).terms:
                    res.add("origin", f.qual, "zero frequency", f.loc,
                            f"{f.name} moves zero frequency by {zero!r} along an axis and back by {(-total)!r}")
                if tuple(n[0] for n, _ in x.name[1]) != ("state", "sample"):
                    res.add("origin", f.qual, "order", f.loc, f"{f.name} does not interleave the samples between the frequencies of one state")
            res.count("unfurlings decided")
        except (Undecided, Endless, Return, KeyError, TypeError, IndexError, AttributeError) as e:
            res.detail.setdefault("undecided", {})[f"{f.name} {d}"] = str(e)


FORWARD = {"fft", "fft2", "fftn", "rfft", "rfft2", "rfftn"}


def pairs(p: Project, res: Result) -> None:
    """Functions that are not interpreted: both directions with one norm, both sides of an operator in opposite directions."""
    for f in p.funcs:
        calls: list[tuple[bool, object, str | None]] = []
        line = 0
        nodes = list(ast.walk(f.node))
        for x in nodes:
            if not isinstance(x, ast.Call) or not isinstance(x.func, ast.Attribute):
                continue
            name = x.func.attr
            base = name.removeprefix("i")
            if base not in FORWARD or "fft" not in ast.unparse(x.func.value):
                continue
            res.count("transform call sites")
            line = line or x.lineno
            got: dict = dict(zip(("x", "s", "axes", "norm"), x.args)) | {("axes" if k.arg == "axis" else k.arg): k.value for k in x.keywords}
            norm = got.get("norm")
            calls.append((
                base == name, "backward" if norm is None or (isinstance(norm, ast.Constant) and norm.value is None) else getattr(norm, "value", None),
                ast.dump(got["axes"]) if "axes" in got else None,
            ))
        if len(calls) < 2 or f.name.startswith("interpolate_points"):
            continue
        res.count("functions with several transforms")
        compensated = any(isinstance(x, (ast.BinOp, ast.AugAssign)) and isinstance(x.op, (ast.Mult, ast.Div)) for x in nodes)
        loc = f"{f.module.rel}:{line}"
        both = {d for d, _, _ in calls} == {True, False}
        norms = {n for _, n, _ in calls}
        if both and len(norms) > 1 and not compensated and all(isinstance(n, str) for n in norms):
            res.add("mixed norms", f.qual, "norm", loc, f"{f.name} transforms forward and back with different norms ({', '.join(sorted(norms))})")
        if len(calls) == 2 and not both and f.node.returns is not None and "Operator" in ast.unparse(f.node.returns):
            if None not in (calls[0][2], calls[1][2]) and calls[0][2] != calls[1][2]:
                res.add("two-sided", f.qual, "direction", loc,
                        f"{f.name} transforms both indices of an operator in the same direction, where the bra index needs the conjugate transform")


def shifts(p: Project, res: Result) -> None:
    """Frequencies are only re-ordered along the axis that was transformed."""
    for f in p.funcs:
        named: dict[str, list[ast.expr]] = {}
        nodes = list(ast.walk(f.node))
        for x in nodes:
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                named.setdefault(x.targets[0].id, []).append(x.value)
        for x in nodes:
            if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("fftshift", "ifftshift") and x.args):
                continue
            a = x.args[0]
            if isinstance(a, ast.Name) and len(named.get(a.id, ())) == 1:
                a = named[a.id][0]
            if not (isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr in ("fft", "ifft")):
                continue
            res.count("shifted transforms")
            axis = literal(a, 2, "axis")
            over = literal(x, 1, "axes")
            if axis is MISSING or axis in (0, -1) and over is MISSING or not isinstance(axis, int):
                continue
            if over is MISSING or over is None:
                over = "every axis"
            elif isinstance(over, int):
                over = (over,)
            elif not isinstance(over, tuple):
                continue
            if over != (axis,):
                res.add("shifted axis", f.qual, "axis", f"{f.module.rel}:{x.lineno}",
                        f"{f.name} transforms along axis {axis} but re-orders the frequencies along {over}")


MISSING = object()


def literal(call: ast.Call, pos: int, name: str):
    e = next((k.value for k in call.keywords if k.arg == name), call.args[pos] if len(call.args) > pos else None)
    if e is None:
        return MISSING
    try:
        return ast.literal_eval(e)
    except ValueError:
        return Ellipsis


def run(p: Project, res: Result) -> None:
    shifts(p, res)
    interpolation(p, res)
    noise(p, res)
    potentials(p, res)
    unfurling(p, res)
    pairs(p, res)
