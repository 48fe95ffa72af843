"""What every basis class does to a vector, as a word of linear operators (C08, C07).

For every class that can be instantiated the conversion methods are resolved along the method
resolution order and interpreted abstractly: an array is a list of axes, an axis a list of
factors, and a factor a *word* of linear operators applied to it so far (unitary Fourier transform
F or its inverse, spectral padding, scatter, gather and roll of samples, matrices, conversions of
a wrapped basis, powers of sizes as scale), with symbolic sizes.  On these words

* converting from must be the formal adjoint of converting into (inverse in kind),
* the transformed representation must be the unitary forward Fourier transform of the fundamental one,
* the size after conversion must be the size the basis reports,
* only the requested axis may be touched,
* a change between any two bases must be into-fundamental followed by from-fundamental, and
* no conversion may call itself with the same arguments.

No value of the analysed program is computed; whatever cannot be interpreted is left undecided.
"""

from __future__ import annotations

import ast
import itertools
from fractions import Fraction

from .model import Class, Ext, Func, Module, Project, is_stub
from .report import Result

NAT = ("__into_fundamental__", "__from_fundamental__", "__into_transformed__", "__from_transformed__")
OPAQUE_METHODS = {*NAT, "__as_fundamental__", "__as_transformed__", "__convert_vector_into__"}


class Undecided(Exception):
    pass


class Broken(Undecided):
    """The conversion of a valid operand certainly raises."""


class Endless(Exception):
    def __init__(self, func: Func) -> None:
        self.func = func


class Return(Exception):
    def __init__(self, value) -> None:
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


# ---------------------------------------------------------------- symbolic integers
class Poly:
    """Integer polynomial over atoms, in normal form."""

    __slots__ = ("terms",)
    SIZES: frozenset = frozenset()  # atoms known not to be negative
    SAME: list = []  # (monomial, atom): products known to equal another size

    def __init__(self, terms: dict) -> None:
        if Poly.SAME:
            out: dict = {}
            for m, c in terms.items():
                m = fold(m)
                out[m] = out.get(m, 0) + c
            terms = out
        self.terms = tuple(sorted(((m, c) for m, c in terms.items() if c), key=repr))

    @staticmethod
    def of(v) -> "Poly":
        if isinstance(v, Poly):
            return v
        if isinstance(v, Opaque):
            return Poly({(v.path,): 1})
        if isinstance(v, bool) or not isinstance(v, int):
            raise Undecided(f"not an integer: {v!r}")
        return Poly({(): v})

    @staticmethod
    def atom(a) -> "Poly":
        return Poly({(a,): 1})

    def __eq__(self, o) -> bool:
        return isinstance(o, Poly) and o.terms == self.terms

    def __hash__(self) -> int:
        return hash(self.terms)

    def __add__(self, o):
        d = dict(self.terms)
        for m, c in Poly.of(o).terms:
            d[m] = d.get(m, 0) + c
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.terms})

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __mul__(self, o):
        d: dict = {}
        for m, c in self.terms:
            for m2, c2 in Poly.of(o).terms:
                k = tuple(sorted((*m, *m2), key=repr))
                d[k] = d.get(k, 0) + c * c2
        return Poly(d)

    def const(self) -> int | None:
        if not self.terms:
            return 0
        return self.terms[0][1] if len(self.terms) == 1 and self.terms[0][0] == () else None

    def divide(self, o: "Poly") -> "Poly | None":
        """Exact division by a single term."""
        if len(o.terms) != 1:
            return Poly.of(1) if self == o else None
        (m2, c2) = o.terms[0]
        d = {}
        for m, c in self.terms:
            left = list(m)
            for a in m2:
                if a not in left:
                    for mono, whole in Poly.SAME:
                        if a in mono and whole in left:
                            left.remove(whole)
                            left.extend(mono)
                            break
                    else:
                        return None
                left.remove(a)
            if c % c2:
                return None
            d[tuple(left)] = c // c2
        return Poly(d)

    def never_negative(self) -> bool:
        return all(c > 0 and all(a in Poly.SIZES for a in m) for m, c in self.terms)

    def sign(self) -> int | None:
        """1 if positive, 0 if zero, -1 if negative, for all values of the atoms."""
        if self.const() is not None:
            return (self.const() > 0) - (self.const() < 0)
        if not all(a in Poly.SIZES for m, _ in self.terms for a in m):
            return None
        cs = [c for _, c in self.terms]
        zero = dict(self.terms).get((), 0)
        if all(c > 0 for c in cs) and zero > 0:
            return 1
        if all(c < 0 for c in cs) and zero < 0:
            return -1
        return None

    def __repr__(self) -> str:
        out = []
        for m, c in self.terms:
            s = "*".join(show_atom(a) for a in m)
            out.append((str(c) if not s else s if c == 1 else f"{c}*{s}"))
        return " + ".join(out) or "0"


def fold(m: tuple) -> tuple:
    for mono, whole in Poly.SAME:
        left = list(m)
        try:
            for a in mono:
                left.remove(a)
        except ValueError:
            continue
        return fold(tuple(sorted((*left, whole), key=repr)))
    return m


def show_atom(a) -> str:
    if isinstance(a, tuple) and len(a) == 3 and a[0] in ("//", "%"):
        return f"({a[1]!r} {a[0]} {a[2]!r})"
    if isinstance(a, tuple):
        return ".".join(str(x) for x in a)
    return str(a)


def floordiv(a: Poly, b: Poly) -> Poly:
    if a.const() is not None and b.const():
        return Poly.of(a.const() // b.const())
    if b.const() == 1:
        return a
    if b.const() and all(c % b.const() == 0 for m, c in a.terms if m):
        k = b.const()
        return Poly({m: c // k for m, c in a.terms})
    q = a.divide(b)
    return q if q is not None else Poly.atom(("//", a, b))


def mod(a: Poly, b: Poly) -> Poly:
    if a.const() is not None and b.const():
        return Poly.of(a.const() % b.const())
    if b.const() == 1 or a.divide(b) is not None:
        return Poly.of(0)
    if b.const() and all(c % b.const() == 0 for m, c in a.terms if m):
        return Poly.of(dict(a.terms).get((), 0) % b.const())
    return Poly.atom(("%", a, b))


# ---------------------------------------------------------------- values
class Opaque:
    """A value of which only the access path is known."""

    def __init__(self, path: tuple, conj: bool = False, turned: bool = False, ndim: int | None = None, dims: tuple = ()) -> None:
        self.dims = dims
        self.path = path
        self.conj = conj
        self.turned = turned
        self.ndim = ndim

    def key(self):
        return (self.path, self.conj, self.turned)

    def __eq__(self, o) -> bool:
        return isinstance(o, Opaque) and o.key() == self.key()

    def __hash__(self) -> int:
        return hash(self.key())

    def __repr__(self) -> str:
        return ".".join(map(str, self.path))


class Inst:
    def __init__(self, cls: Class, attrs: dict, name: str) -> None:
        self.cls = cls
        self.attrs = attrs
        self.name = name

    def __repr__(self) -> str:
        return self.name


class Bound:
    def __init__(self, func: Func, self_) -> None:
        self.func = func
        self.self_ = self_


class Super:
    def __init__(self, inst: Inst, after: Class) -> None:
        self.inst = inst
        self.after = after


class Row(list):
    """A short array of integers or slices."""


class Lam:
    def __init__(self, node: ast.Lambda, env: dict, func: Func) -> None:
        self.node = node
        self.env = env
        self.func = func


class ExtMethod:
    def __init__(self, obj, name: str) -> None:
        self.obj = obj
        self.name = name


class Scale:
    """A positive real factor: product of powers of sizes."""

    def __init__(self, powers: dict) -> None:
        self.powers = {k: v for k, v in powers.items() if v and k.const() != 1}

    def times(self, o: "Scale", sign: int = 1) -> "Scale":
        d = dict(self.powers)
        for k, v in o.powers.items():
            d[k] = d.get(k, Fraction(0)) + sign * v
        return Scale(d)

    def key(self):
        # a product of sizes to a power is the product of the powers
        d: dict = {}
        for k, v in self.powers.items():
            if len(k.terms) == 1 and k.terms[0][1] == 1:
                for a in k.terms[0][0]:
                    d[Poly.atom(a)] = d.get(Poly.atom(a), Fraction(0)) + v
            else:
                d[k] = d.get(k, Fraction(0)) + v
        return tuple(sorted(((k, v) for k, v in d.items() if v), key=repr))


class Factor:
    """One factor of an axis: where it came from, what was done to it, how long it is now."""

    __slots__ = ("name", "size", "word")

    def __init__(self, name, word: tuple, size: Poly) -> None:
        self.name = name
        self.word = word
        self.size = size

    def then(self, op: tuple, size: Poly | None = None) -> "Factor":
        return Factor(self.name, (*self.word, op), self.size if size is None else size)


class Arr:
    """axes: tuple of tuples of factors."""

    def __init__(self, axes: tuple, conj: bool = False, scale: Scale | None = None) -> None:
        self.axes = axes
        self.conj = conj
        self.scale = scale or Scale({})

    def with_axes(self, axes) -> "Arr":
        return Arr(tuple(axes), self.conj, self.scale)

    def sizes(self) -> list:
        return [self.size(i) for i in range(len(self.axes))]

    def size(self, i: int) -> Poly:
        out = Poly.of(1)
        for f in self.axes[i]:
            out = out * f.size
        return out

    def axis(self, i) -> int:
        if isinstance(i, Poly) and i.const() is not None:
            i = i.const()
        if isinstance(i, bool) or not isinstance(i, int):
            raise Undecided("axis")
        n = len(self.axes)
        if not -n <= i < n:
            raise Undecided("axis out of range")
        return i % n

    def on(self, i, op: tuple, size: Poly | None = None) -> "Arr":
        i = self.axis(i)
        if self.conj:
            op = conj_op(op)
        fs = self.axes[i]
        f = fs[0] if len(fs) == 1 else Factor(("joint", tuple((x.name, x.word) for x in fs)), (), self.size(i))
        ax = list(self.axes)
        ax[i] = (f.then(op, size),)
        return self.with_axes(ax)


class Buffer:
    """Zero-initialised storage with at most one write."""

    def __init__(self, shape: list) -> None:
        self.shape = shape
        self.written: Arr | None = None

    def value(self) -> Arr:
        if self.written is None:
            raise Undecided("buffer without content")
        return self.written


def conj_op(op: tuple) -> tuple:
    if op[0] == "F":
        return ("F", op[1], -op[2])
    if op[0] == "mat":
        return ("mat", op[1], not op[2], op[3])
    if op[0] in ("into", "from"):
        return (op[0], op[1], op[2], not op[3])
    return op


def adjoint_op(op: tuple) -> tuple:
    k = op[0]
    if k == "F":
        return ("F", op[1], -op[2])
    if k == "spec":
        return ("spec", op[2], op[1])
    if k == "roll":
        return ("roll", -op[1])
    if k == "scatter":
        return ("gather", *op[1:])
    if k == "gather":
        return ("scatter", *op[1:])
    if k == "mat":
        return ("mat", op[1], not op[2], 1 - op[3])
    if k == "into":
        return ("from", *op[1:])
    if k == "from":
        return ("into", *op[1:])
    raise Undecided(f"no adjoint of {k}")


def unmod(p: Poly) -> Poly:
    """(a // b) * b + a % b is a."""
    for m, c in p.terms:
        if len(m) == 1 and isinstance(m[0], tuple) and len(m[0]) == 3 and m[0][0] == "%":
            _, x, y = m[0]
            whole = Poly.atom(("//", x, y)) * y * Poly.of(c)
            rest = p - whole - Poly({m: c})
            if len(rest.terms) < len(p.terms) - 1:
                return unmod(rest + x * Poly.of(c))
    return p


def spread(op: tuple) -> bool:
    """Samples at regular distances over the whole axis."""
    return op[3] * op[2] == op[4]


def reduce_word(word: tuple) -> tuple:
    """Normal form: rolls are done on the longer axis and merged, what cancels is dropped."""
    out: list = []
    for op in word:
        if op[0] == "scatter" and spread(op) and op[1].const() != 0:
            push(out, ("scatter", Poly.of(0), *op[2:]))
            push(out, ("roll", op[1]))
        elif op[0] == "gather" and spread(op) and op[1].const() != 0:
            push(out, ("roll", -op[1]))
            push(out, ("gather", Poly.of(0), *op[2:]))
        else:
            push(out, op)
    return tuple(out)


def push(out: list, op: tuple) -> None:
    if op[0] == "spec" and op[1] == op[2]:
        return
    if op[0] == "roll":
        if out and out[-1][0] == "gather" and spread(out[-1]):
            last = out.pop()
            push(out, ("roll", op[1] * last[2]))
            push(out, last)
            return
        if out and out[-1][0] == "roll":
            op = ("roll", out.pop()[1] + op[1])
        op = ("roll", unmod(op[1]))
        if op[1].const() == 0:
            return
    if op[0] == "scatter" and spread(op) and out and out[-1][0] == "roll":
        last = out.pop()
        push(out, op)
        push(out, ("roll", last[1] * op[2]))
        return
    if op[0] in ("scatter", "gather") and op[1].const() == 0 and op[2].const() == 1 and op[3] == op[4]:
        return
    if out and op[0] == "F" and out[-1] == ("F", op[1], -op[2]):
        out.pop()
        return
    out.append(op)


def adjoint(word: tuple) -> tuple:
    return reduce_word(tuple(adjoint_op(o) for o in reversed(word)))


def show_word(word: tuple) -> str:
    out = []
    for op in word:
        if op[0] == "F":
            out.append("fft" if op[2] > 0 else "ifft")
        elif op[0] == "spec":
            out.append(f"pad({op[1]!r} -> {op[2]!r})")
        elif op[0] == "roll":
            out.append(f"roll({op[1]!r})")
        elif op[0] in ("scatter", "gather"):
            out.append(f"{op[0]}(from {op[1]!r} step {op[2]!r})")
        elif op[0] == "mat":
            out.append(f"{'conj ' if op[2] else ''}matrix summed over index {op[3]}")
        elif op[0] in ("into", "from"):
            out.append(f"{op[0]} {op[2]} of {show_atom(op[1])}")
        elif op[0] == "misfit":
            out.append(f"storing {op[1]!r} values in {op[2]!r} places")
        elif op[0] == "crop":
            out.append(f"cutting or zero-filling {op[1]!r} values to {op[2]!r}")
        else:
            out.append(op[0])
    return ", then ".join(out) or "nothing"


# ---------------------------------------------------------------- the interpreter
SIGNATURES = {
    f"numpy.{n}": ps.split()
    for ns, ps in (
        ("sum prod mean", "a axis dtype out keepdims"),
        ("average", "a axis weights returned keepdims"),
        ("reshape", "a shape order"),
        ("ravel", "a order"),
        ("transpose", "a axes"),
        ("swapaxes", "a axis1 axis2"),
        ("moveaxis", "a source destination"),
        ("roll", "a shift axis"),
        ("tensordot", "a b axes"),
        ("array asarray", "a dtype copy order"),
        ("zeros ones empty", "shape dtype order"),
        ("zeros_like ones_like empty_like", "a dtype"),
        ("full", "shape fill_value dtype order"),
        ("eye", "N M k dtype order"),
        ("identity", "n dtype"),
        ("diag diagflat", "v k"),
        ("diagonal", "a offset axis1 axis2"),
        ("trace", "a offset axis1 axis2 dtype"),
        ("fill_diagonal", "a val wrap"),
        ("concatenate stack", "arrays axis out dtype"),
        ("cumsum", "a axis dtype"),
        ("diff", "a n axis"),
        ("insert", "arr obj values axis"),
        ("outer vdot inner dot", "a b"),
        ("kron", "a b"),
        ("expand_dims", "a axis"),
        ("squeeze", "a axis"),
        ("linalg.norm", "x ord axis keepdims"),
        ("linalg.inv linalg.eig linalg.eigh linalg.det", "a"),
        ("linspace", "start stop num endpoint retstep dtype axis"),
        ("meshgrid", "indexing sparse copy"),
        ("indices", "dimensions dtype sparse"),
        ("unravel_index", "indices shape order"),
        ("ravel_multi_index", "multi_index dims mode order"),
    )
    for n in ns.split()
}
SIGNATURES["scipy.linalg.eigh"] = "a b lower eigvals_only subset_by_index".split()
IRRELEVANT = {"dtype", "copy", "casting", "optimize", "check_finite", "subok", "overwrite_a", "overwrite_b"}


def understood(name: str, args: list, kw: dict) -> tuple[list, dict]:
    """The arguments of a library function, by position as far as possible; other options than known ones are not judged."""
    ps = SIGNATURES.get(name)
    if name in ("numpy.meshgrid", "numpy.linspace") or ps is None:
        if set(kw) - IRRELEVANT - set(ps or ()):
            raise Undecided(f"{name} with {', '.join(kw)}")
        return args, {k: v for k, v in kw.items() if k not in IRRELEVANT}
    if len(args) > len(ps) or set(kw) - set(ps) - IRRELEVANT:
        raise Undecided(f"{name} with {', '.join(kw)}")
    given = dict(zip(ps, args)) | kw
    if given.get("out") is not None or (given.get("order", "C") != "C" and name not in ("numpy.ravel", "numpy.reshape", "numpy.ravel_multi_index")):
        raise Undecided(f"{name} with another order or a given place")
    given = {k: v for k, v in given.items() if k not in IRRELEVANT and k != "out" and (k != "order" or v != "C")}
    out: list = []
    for p in ps:
        if p not in given or p == "order":
            break
        out.append(given.pop(p))
    return out, given


class Machine:
    def __init__(self, project: Project) -> None:
        self.p = project
        self.stack: list = []
        self.frames: list[Func] = []
        self.steps = 0
        self.fresh = 0
        self.lists: dict = {}  # data of lists of vectors, and how many values these are
        self.strict = True  # operands are valid, so whatever raises is at fault

    # ---- calls
    def call_func(self, f: Func, self_, args: list, kw: dict):
        if len(self.frames) > 60:
            if sum(g is f for g in self.frames) > 8:
                raise Endless(f)
            raise Undecided("depth")
        env: dict = {}
        params = list(f.params)
        if f.cls is not None and not f.is_static:
            env[params[0].name] = self_
            params = params[1:]
        pos = [p for p in params if p.kind in ("pos", "posonly")]
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i].name] = v
        var = next((p for p in params if p.kind == "var"), None)
        if var is not None:
            env[var.name] = tuple(args[len(pos):])
        elif len(args) > len(pos):
            raise Undecided("too many arguments")
        names = {p.name for p in params}
        for k, v in kw.items():
            if k not in names:
                raise Undecided(f"unknown keyword {k}")
            env[k] = v
        for p in params:
            if p.name not in env and p.kind != "varkw":
                if not p.has_default:
                    raise Undecided(f"missing argument {p.name}")
                env[p.name] = self.ev(p.default, {}, f)
        key = (f.qual, id(self_) if isinstance(self_, Inst) else None, tuple(self.arg_key(env[k]) for k in sorted(env) if env[k] is not self_))
        if key in self.stack:
            raise Endless(f)
        self.stack.append(key)
        self.frames.append(f)
        try:
            self.run(f.node.body, env, f)
        except Return as r:
            return r.value
        finally:
            self.stack.pop()
            self.frames.pop()
        return None

    @staticmethod
    def arg_key(v):
        if isinstance(v, Arr):
            return ("arr", len(v.axes))  # converting and converting back is endless whatever the words are
        if isinstance(v, Inst):
            return ("inst", id(v))
        if isinstance(v, tuple):
            return tuple(Machine.arg_key(x) for x in v)
        if isinstance(v, (int, str, Poly, Opaque, type(None))):
            return v
        return id(v)

    def run(self, body: list, env: dict, f: Func) -> None:
        for s in body:
            self.stmt(s, env, f)

    def stmt(self, s: ast.stmt, env: dict, f: Func) -> None:
        self.steps += 1
        if self.steps > 2_000_000:
            raise Undecided("too long")
        if isinstance(s, ast.Return):
            raise Return(self.ev(s.value, env, f) if s.value is not None else None)
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            self.ev(s.value, env, f)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env, f)
            for t in s.targets:
                self.assign(t, v, env, f)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env, f), env, f)
        elif isinstance(s, ast.AugAssign):
            cur = self.ev(_load(s.target), env, f)
            self.assign(s.target, self.binop(s.op, cur, self.ev(s.value, env, f)), env, f)
        elif isinstance(s, ast.If):
            self.run(s.body if self.truth(self.ev(s.test, env, f)) else s.orelse, env, f)
        elif isinstance(s, ast.For):
            for v in self.iterate(self.ev(s.iter, env, f)):
                self.assign(s.target, v, env, f)
                try:
                    self.run(s.body, env, f)
                except Break:
                    break
                except Continue:
                    continue
            else:
                self.run(s.orelse, env, f)
        elif isinstance(s, ast.Break):
            raise Break
        elif isinstance(s, ast.Continue):
            raise Continue
        elif isinstance(s, ast.Assert):
            self.claim(s.test, env, f)
        elif isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            return
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                if isinstance(s, ast.Import):
                    env[a.asname or a.name.split(".")[0]] = Ext(a.name if a.asname else a.name.split(".")[0])
                else:
                    r = self.p.lookup_module_attr(self.p._import_target(f.module, s), a.name)
                    env[a.asname or a.name] = self.symbol(r if r is not None else Ext(f"{s.module}.{a.name}"), f.module)
        elif isinstance(s, ast.FunctionDef):
            g = f.children.get(s.name)
            if g is None:
                raise Undecided("nested function")
            env[s.name] = Lam(s, env, g)
        else:
            raise Undecided(type(s).__name__)

    def claim(self, test: ast.expr, env: dict, f: Func) -> None:
        """An equality that a conversion asserts has to hold for every valid operand."""
        if not self.strict or not isinstance(test, ast.Compare) or len(test.ops) != 1 or not isinstance(test.ops[0], ast.Eq):
            return
        try:
            a, b = (Poly.of(self.ev(x, dict(env), f)) for x in (test.left, test.comparators[0]))
        except Undecided:
            return
        if plain(a) and plain(b) and a != b:
            raise Broken(f"{f.short} insists on {a!r} being {b!r}")

    def assign(self, t: ast.expr, v, env: dict, f: Func) -> None:
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, f)
            if not isinstance(o, Inst):
                raise Undecided("attribute store")
            o.attrs[t.attr] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = [self.subscript(v, j) for j in range(len(t.elts))] if isinstance(v, Opaque) else list(self.iterate(v))
            stars = [j for j, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if len(stars) == 1 and not isinstance(v, Opaque):
                at, after = stars[0], len(t.elts) - stars[0] - 1
                if len(vs) < at + after:
                    raise Undecided("unpacking")
                rest = vs[at:len(vs) - after]
                vs = [*vs[:at], rest, *vs[len(vs) - after:]]
                for x, y in zip(t.elts, vs):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, env, f)
                return
            if any(isinstance(x, ast.Starred) for x in t.elts) or len(vs) != len(t.elts):
                raise Undecided("unpacking")
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env, f)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, f)
            i = self.ev(t.slice, env, f)
            if isinstance(o, Row) and isinstance(i, (list, tuple)):
                vs = list(self.iterate(v)) if isinstance(v, (list, tuple)) else [v] * len(i)
                if len(vs) != len(i):
                    raise Undecided("lengths")
                for j, x in zip(i, vs):
                    o[self.as_int(j)] = x
            elif isinstance(o, list):
                i = self.as_int(i)
                o[i] = v
            elif isinstance(o, Buffer):
                self.scatter(o, i, v)
            else:
                raise Undecided("item store")
        else:
            raise Undecided("target")

    @staticmethod
    def as_int(i) -> int:
        if isinstance(i, Poly) and i.const() is not None:
            return i.const()
        if isinstance(i, int) and not isinstance(i, bool):
            return i
        raise Undecided("index")

    def truth(self, v) -> bool:
        if isinstance(v, (bool, int, str, type(None), tuple, list)):
            return bool(v)
        if isinstance(v, Poly) and v.const() is not None:
            return bool(v.const())
        raise Undecided("condition")

    def iterate(self, v):
        if isinstance(v, (tuple, list)):
            return tuple(v)
        if isinstance(v, Inst):
            g = self.p.find_method(v.cls, "__iter__")
            if g is not None and not is_stub(g.node):
                return self.iterate(self.call_func(g, v, [], {}))
        raise Undecided("iteration")

    # ---- symbols
    def symbol(self, r, m: Module):
        if r is None:
            raise Undecided("name")
        if type(r).__name__ == "Assign":
            return self.ev(r.value, {}, None, r.module)
        return r

    def lookup(self, name: str, env: dict, f: Func | None, m: Module | None):
        if name in env:
            return env[name]
        m = m or f.module
        r = self.p.resolve_global(m, name)
        if r is not None:
            return self.symbol(r, m)
        if name == "Ellipsis":
            return Ellipsis
        if name in BUILTINS:
            return Ext(f"builtins.{name}")
        raise Undecided(f"name {name}")

    # ---- expressions
    def ev(self, e: ast.expr, env: dict, f: Func | None, m: Module | None = None):
        self.steps += 1
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return self.lookup(e.id, env, f, m)
        if isinstance(e, (ast.Tuple, ast.List)):
            out: list = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.iterate(self.ev(x.value, env, f, m)))
                else:
                    out.append(self.ev(x, env, f, m))
            return tuple(out) if isinstance(e, ast.Tuple) else out
        if isinstance(e, ast.Attribute):
            return self.attribute(self.ev(e.value, env, f, m), e.attr)
        if isinstance(e, ast.Subscript):
            o = self.ev(e.value, env, f, m)
            if isinstance(o, Class) or (isinstance(o, Ext) and "." not in o.name.removeprefix("builtins.")):
                return o
            return self.subscript(o, self.ev(e.slice, env, f, m))
        if isinstance(e, ast.Slice):
            return slice(*(self.ev(x, env, f, m) if x is not None else None for x in (e.lower, e.upper, e.step)))
        if isinstance(e, ast.Call):
            return self.call(e, env, f, m)
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.ev(e.left, env, f, m), self.ev(e.right, env, f, m))
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env, f, m)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            if isinstance(e.op, ast.USub):
                if isinstance(v, (int, float, complex)):
                    return -v
                if isinstance(v, (Poly, Opaque)):
                    return -Poly.of(v)
            raise Undecided("unary")
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = self.ev(x, env, f, m)
                t = self.truth(v)
                if t != isinstance(e.op, ast.And):
                    return v
            return v
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.truth(self.ev(e.test, env, f, m)) else e.orelse, env, f, m)
        if isinstance(e, ast.Compare):
            return self.compare(e, env, f, m)
        if isinstance(e, (ast.GeneratorExp, ast.ListComp)):
            out = []
            self.comp(e.generators, 0, dict(env), f, m, e.elt, out)
            return Values(out) if isinstance(e, ast.GeneratorExp) else out
        if isinstance(e, ast.Lambda):
            return Lam(e, env, f)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env, f, m)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.Starred):
            raise Undecided("starred")
        raise Undecided(type(e).__name__)

    def comp(self, gens, i, env, f, m, elt, out) -> None:
        if i == len(gens):
            out.append(self.ev(elt, env, f, m))
            return
        g = gens[i]
        for v in self.iterate(self.ev(g.iter, env, f, m)):
            self.assign(g.target, v, env, f)
            if all(self.truth(self.ev(c, env, f, m)) for c in g.ifs):
                self.comp(gens, i + 1, env, f, m, elt, out)

    def compare(self, e: ast.Compare, env, f, m):
        if len(e.ops) != 1:
            raise Undecided("comparison")
        a, b, op = self.ev(e.left, env, f, m), self.ev(e.comparators[0], env, f, m), e.ops[0]
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                if isinstance(a, Opaque) or isinstance(b, Opaque):
                    raise Undecided("opaque")
                return (a is b) == isinstance(op, ast.Is)
            if isinstance(a, Inst) and isinstance(b, Inst):
                return (a is b) == isinstance(op, ast.Is)
            raise Undecided("is")
        if isinstance(op, (ast.Eq, ast.NotEq)):
            eq = self.equal(a, b)
            return eq if isinstance(op, ast.Eq) else not eq
        if isinstance(a, Poly) or isinstance(b, Poly):
            v = (Poly.of(a) - Poly.of(b)).sign()
            if v is None:
                raise Undecided("comparison")
            x, y = v, 0
        else:
            x, y = self.num(a), self.num(b)
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}.get(type(op), False)

    def equal(self, a, b) -> bool:
        if isinstance(a, Inst) and isinstance(b, Inst):
            if self.p.find_method(a.cls, "__eq__") is not None:
                raise Undecided("user equality")
            return a is b
        if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            return a == b
        d = Poly.of(a) - Poly.of(b)
        if d.const() is not None:
            return d.const() == 0
        raise Undecided("equality")

    @staticmethod
    def num(v):
        if isinstance(v, Poly) and v.const() is not None:
            return v.const()
        if isinstance(v, (int, float)):
            return v
        raise Undecided("comparison")

    def binop(self, op, a, b):
        if isinstance(a, Buffer):
            a = a.value()
        if isinstance(b, Buffer):
            b = b.value()
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(op, ast.MatMult):
                return self.matmul(a, b)
            if isinstance(op, (ast.Mult, ast.Div)) and isinstance(a, Arr) and not isinstance(b, Arr):
                s = self.scale(b)
                return Arr(a.axes, a.conj, a.scale.times(s, 1 if isinstance(op, ast.Mult) else -1))
            if isinstance(op, ast.Mult) and isinstance(b, Arr):
                return Arr(b.axes, b.conj, b.scale.times(self.scale(a)))
            raise Undecided("arithmetic on arrays")
        if isinstance(a, Scale) or isinstance(b, Scale) or (isinstance(op, (ast.Div, ast.Pow)) and (isinstance(a, (Poly, Opaque)) or isinstance(b, (Poly, Opaque)))):
            if isinstance(op, (ast.Mult, ast.Div)):
                return self.scale(a).times(self.scale(b), 1 if isinstance(op, ast.Mult) else -1)
            if isinstance(op, ast.Pow) and isinstance(b, (int, float)):
                return Scale({k: v * Fraction(b).limit_denominator(8) for k, v in self.scale(a).powers.items()})
            raise Undecided("scale")
        if isinstance(a, Row) or isinstance(b, Row):
            n = len(a if isinstance(a, Row) else b)
            xs, ys = (list(v) if isinstance(v, (list, tuple)) else [v] * n for v in (a, b))
            if len(xs) != len(ys):
                raise Undecided("lengths")
            return Row(self.binop(op, x, y) for x, y in zip(xs, ys))
        if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
            if isinstance(op, ast.Add) and type(a) is type(b):
                return a + b
            if isinstance(op, ast.Mult):
                if isinstance(a, (tuple, list)):
                    return a * self.as_int(b)
                return b * self.as_int(a)
            raise Undecided("sequence arithmetic")
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            return a + b
        if all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in (a, b)):
            try:
                return {
                    ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                    ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a**b,
                }[type(op)]()
            except (KeyError, ZeroDivisionError) as x:
                raise Undecided("arithmetic") from x
        x, y = Poly.of(a), Poly.of(b)
        if isinstance(op, ast.Add):
            return x + y
        if isinstance(op, ast.Sub):
            return x - y
        if isinstance(op, ast.Mult):
            return x * y
        if isinstance(op, ast.FloorDiv):
            return floordiv(x, y)
        if isinstance(op, ast.Mod):
            return mod(x, y)
        raise Undecided("arithmetic")

    def scale(self, v) -> Scale:
        if isinstance(v, Scale):
            return v
        if isinstance(v, float) and v > 0:
            f = Fraction(v).limit_denominator(64)
            if float(f) == v:
                return Scale({Poly.of(f.numerator): Fraction(1), Poly.of(f.denominator): Fraction(-1)})
        if isinstance(v, (int, Poly, Opaque)):
            return Scale({Poly.of(v): Fraction(1)})
        raise Undecided("scale")

    # ---- attributes and items
    def attribute(self, o, a: str):
        if isinstance(o, Buffer):
            o = o.value() if o.written is not None else o
            if isinstance(o, Buffer):
                if a == "shape":
                    return tuple(o.shape)
                if a == "ndim":
                    return len(o.shape)
                raise Undecided("buffer attribute")
        if isinstance(o, Inst):
            return self.inst_attr(o, a, None)
        if isinstance(o, Super):
            return self.inst_attr(o.inst, a, o.after)
        if isinstance(o, Opaque):
            if a == "T":
                return Opaque(o.path, o.conj, not o.turned, o.ndim, o.dims)
            return Opaque((*o.path, a), o.conj, o.turned, o.ndim, o.dims) if a in KEEPING else Opaque((*o.path, a))
        if isinstance(o, Arr):
            if a == "shape":
                return tuple(o.sizes())
            if a == "ndim":
                return len(o.axes)
            if a == "size":
                out = Poly.of(1)
                for s in o.sizes():
                    out = out * s
                return out
            if a == "dtype":
                return Opaque(("dtype",))
            return ExtMethod(o, a)
        if isinstance(o, Ext):
            return Ext(f"{o.name}.{a}")
        if isinstance(o, Row):
            if a == "T":
                return Row(Row(x) for x in zip(*o)) if all(isinstance(x, Row) for x in o) else o
            if a == "size":
                return len(o)
            if a == "shape":
                return (len(o),)
            if a == "ndim":
                return 1
        if isinstance(o, (tuple, list, str)):
            return ExtMethod(o, a)
        if isinstance(o, Poly) or isinstance(o, int):
            return ExtMethod(o, a)
        if isinstance(o, Class):
            if a == "__name__":
                return o.name
            g = self.p.find_method(o, a)
            if g is not None:
                return Bound(g, o if g.is_classmethod else None)
        if isinstance(o, Scale) and a == "item":
            return ExtMethod(o, a)
        if type(o).__name__ == "Module":
            r = self.p.lookup_module_attr(o.name, a)
            return self.symbol(r, o)
        raise Undecided(f"attribute {a}")

    def inst_attr(self, o: Inst, a: str, after: Class | None):
        mro = self.p.mro(o.cls)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        elif a in o.attrs:
            return o.attrs[a]
        if a == "__class__":
            return o.cls
        for c in mro:
            g = c.methods.get(a)
            if g is None:
                continue
            if g.is_property:
                if is_stub(g.node):
                    if after is None and o.attrs.get(("opaque",)):
                        return Opaque((o.name, a))
                    raise Undecided(f"stub {a}")
                return self.call_func(g, o, [], {})
            return Bound(g, o)
        if a == "__init__":
            return Ext("object.__init__")
        if not o.attrs.get(("opaque",)) and not self.could_have(o.cls, a):
            raise Broken(f"{o.cls.name} has no `{a}`")
        return Opaque((o.name, a))

    def could_have(self, c: Class, a: str) -> bool:
        if hasattr(object, a) or a in ("__dict__", "__orig_class__", "__orig_bases__", "__parameters__", "__annotations__"):
            return True
        mro = self.p.mro(c)
        for k in mro:
            if a in k.methods or a in k.fields or "__getattr__" in k.methods or "__getattribute__" in k.methods:
                return True
            for n in ast.walk(k.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == a:
                    return True
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and any(isinstance(x, ast.Name) and x.id == a for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) for x in ast.walk(t)):
                    return True
            for b in k.node.bases:
                b = b.value if isinstance(b, ast.Subscript) else b
                r = self.p.resolve(k.module, b, None)
                if not isinstance(r, Class) and not (isinstance(r, Ext) and r.name.split(".")[0] in ("typing", "abc", "builtins", "typing_extensions")):
                    return True
        return False

    def subscript(self, o, i):
        if isinstance(o, Buffer):
            o = o.value()
        if isinstance(o, (tuple, list)):
            if isinstance(i, slice):
                return o[slice(*(self.as_int(x) if x is not None else None for x in (i.start, i.stop, i.step)))]
            if isinstance(o, Row) and isinstance(i, (list, tuple)):
                return Row(self.subscript(o, j) for j in i)
            choice = isinstance(i, bool)
            i = int(i) if choice else self.as_int(i)
            if not -len(o) <= i < len(o):
                if choice:
                    raise Broken("a truth value indexes a sequence that is too short")
                raise Undecided("index range")
            return o[i]
        if isinstance(o, Opaque):
            return Opaque((*o.path, i if isinstance(i, (int, str)) else repr(i)))
        if isinstance(o, Inst):
            g = self.p.find_method(o.cls, "__getitem__")
            if g is not None and not is_stub(g.node):
                return self.call_func(g, o, [i], {})
        if isinstance(o, Arr):
            return self.gather(o, i)
        raise Undecided("subscript")

    def per_axis(self, shape_len: int, i) -> list:
        idx = list(i) if isinstance(i, (tuple, list)) else [i]
        if any(x is Ellipsis for x in idx):
            k = next(n for n, x in enumerate(idx) if x is Ellipsis)
            idx = [*idx[:k], *([slice(None)] * (shape_len - len(idx) + 1)), *idx[k + 1:]]
        idx += [slice(None)] * (shape_len - len(idx))
        if len(idx) != shape_len or not all(isinstance(x, slice) for x in idx):
            raise Undecided("index")
        return idx

    @staticmethod
    def full(s: slice) -> bool:
        return s.start in (None, 0) and s.stop is None and s.step in (None, 1)

    def gather(self, a: Arr, i) -> Arr:
        for ax, s in enumerate(self.per_axis(len(a.axes), i)):
            if self.full(s):
                continue
            n = a.size(ax)
            start = Poly.of(0 if s.start is None else s.start)
            step = Poly.of(1 if s.step is None else s.step)
            if s.stop is not None:
                raise Undecided("bounded slice")
            size = self.samples(n, start, step)
            a = a.on(ax, ("gather", start, step, size, n), size)
        return a

    @staticmethod
    def samples(n: Poly, start: Poly, step: Poly) -> Poly:
        """Length of start::step of n points."""
        q = n.divide(step)
        inside = start.const() == 0 or (len(start.terms) == 1 and start.terms[0][1] == 1 and len(start.terms[0][0]) == 1 and isinstance(start.terms[0][0][0], tuple)
                                        and start.terms[0][0][0][0] == "%" and start.terms[0][0][0][2] == step)
        if q is not None and inside:
            return q
        if step.const() == 1:
            return n - start
        return Poly.atom(("samples", n, start, step))

    def scatter(self, b: Buffer, i, v) -> None:
        if b.written is not None:
            raise Undecided("second write")
        if isinstance(v, Buffer):
            v = v.value()
        if not isinstance(v, Arr) or len(v.axes) != len(b.shape):
            raise Undecided("store")
        for ax, s in enumerate(self.per_axis(len(b.shape), i)):
            n = Poly.of(b.shape[ax])
            if self.full(s):
                if n != v.size(ax):
                    v = v.on(ax, ("misfit", v.size(ax), n), n)
                continue
            start = Poly.of(0 if s.start is None else s.start)
            step = Poly.of(1 if s.step is None else s.step)
            if s.stop is not None:
                raise Undecided("bounded slice")
            size = self.samples(n, start, step)
            if size != v.size(ax):
                v = v.on(ax, ("misfit", v.size(ax), size), size)
            v = v.on(ax, ("scatter", start, step, v.size(ax), n), n)
        b.written = v

    # ---- calls
    def call(self, e: ast.Call, env, f, m):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in env:
            self_name = f.params[0].name if f.params else None
            if f.cls is None or not isinstance(env.get(self_name), Inst):
                raise Undecided("super")
            return Super(env[self_name], f.cls)
        fn = self.ev(e.func, env, f, m)
        args: list = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env, f, m)))
            else:
                args.append(self.ev(a, env, f, m))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Undecided("keyword splat")
            kw[k.arg] = self.ev(k.value, env, f, m)
        return self.apply(fn, args, kw)

    def apply(self, fn, args: list, kw: dict):
        if isinstance(fn, Func):
            if fn.name in ("pad_ft_points", "pad_ft_points_real_axis") and fn.cls is None:
                return self.pad(fn, args, kw)
            return self.call_func(fn, None, args, kw)
        if isinstance(fn, Bound):
            f = fn.func
            self_ = fn.self_
            if self_ is None and f.cls is not None and not f.is_static:
                if not args:
                    raise Undecided("unbound")
                self_, args = args[0], args[1:]
            return self.call_func(f, self_, args, kw)
        if isinstance(fn, Class):
            return self.construct(fn, args, kw)
        if isinstance(fn, Lam):
            return self.call_lambda(fn, args, kw)
        if isinstance(fn, Opaque):
            return self.call_opaque(fn, args, kw)
        if isinstance(fn, ExtMethod):
            return self.method(fn.obj, fn.name, args, kw)
        if isinstance(fn, Ext):
            return self.external(fn.name, args, kw)
        raise Undecided("call")

    def call_lambda(self, fn: Lam, args, kw):
        if isinstance(fn.node, ast.Lambda):
            env = dict(fn.env)
            for p, v in zip(fn.node.args.args, args):
                env[p.arg] = v
            env.update(kw)
            return self.ev(fn.node.body, env, fn.func)
        raise Undecided("closure")

    def call_opaque(self, fn: Opaque, args, kw):
        name = fn.path[-1]
        obj = fn.path[:-1]
        if name in NAT:
            v = args[0] if args else None
            axis = args[1] if len(args) > 1 else kw.get("axis", -1)
            if isinstance(v, Buffer):
                v = v.value()
            if isinstance(v, Arr):
                kind = name.strip("_").split("_")
                size = Poly.atom((*obj, "fundamental_n")) if kind[0] == "into" else Poly.atom((*obj, "n"))
                return v.on(axis, (kind[0], obj, kind[1], False), size)
        if name in ("reshape", "astype", "copy", "ravel"):
            if name == "reshape":
                if self.lists.get(obj) is not None:
                    return self.rows(Opaque(obj, fn.conj), obj, args)
                if len(args) == 1 and isinstance(args[0], Opaque) and args[0].path[-1] == "shape":
                    return Opaque(obj, fn.conj)  # to a shape that is not known
                dims = tuple(args[0]) if len(args) == 1 and isinstance(args[0], (tuple, list)) else tuple(args)
                return Opaque(obj, fn.conj, False, len(dims), dims)
            return Opaque(obj, fn.conj, fn.turned, fn.ndim, fn.dims)
        if name in ("conj", "conjugate"):
            return Opaque(obj, not fn.conj, fn.turned, fn.ndim, fn.dims)
        if name == "transpose" and not args:
            return Opaque(obj, fn.conj, not fn.turned, fn.ndim, fn.dims)
        if any(isinstance(x, (Arr, Buffer)) for x in (*args, *kw.values())):
            raise Undecided("array passed on")
        return Opaque((*fn.path, "()", *(repr(a) for a in args)))

    def rows(self, o: Opaque, path: tuple, args: list) -> Opaque:
        dims = list(args[0]) if len(args) == 1 and isinstance(args[0], (tuple, list)) else list(args)
        have = list(self.lists[path])
        wanted = [None if isinstance(d, int) and d == -1 else Poly.of(d) for d in dims]
        fits(have, wanted)
        total, left = Poly.of(1), Poly.of(1)
        for x in have:
            total = total * x
        for x in wanted:
            left = left * (x if x is not None else Poly.of(1))
        rest = total.divide(left)
        sizes = tuple(x if x is not None else rest for x in wanted)
        return Opaque(o.path, o.conj, False, len(dims), sizes if rest is not None else ())

    def construct(self, c: Class, args, kw, name: str | None = None) -> Inst:
        self.fresh += 1
        o = Inst(c, {}, name or f"{c.name}{self.fresh}")
        g = self.p.find_method(c, "__init__")
        if g is not None:
            self.call_func(g, o, args, kw)
        return o

    def pad(self, fn: Func, args, kw):
        names = [p.name for p in fn.params]
        env = dict(zip(names, args)) | kw
        a = env.get(names[0])
        if isinstance(a, Buffer):
            a = a.value()
        if fn.name != "pad_ft_points" or not isinstance(a, Arr):
            raise Undecided("padding")
        s, axes = self.iterate(env.get("s")), self.iterate(env.get("axes"))
        if len(s) != len(axes):
            raise Undecided("padding")
        for n, ax in zip(s, axes):
            n = Poly.of(n)
            a = a.on(self.as_int(ax), ("spec", a.size(a.axis(self.as_int(ax))), n), n)
        return a

    def isinstance_(self, o, c) -> bool:
        if isinstance(c, tuple):
            return any(self.isinstance_(o, x) for x in c)
        if isinstance(c, Class):
            if isinstance(o, Inst):
                if self.p.is_subclass(o.cls, c):
                    return True
                if not self.p.is_protocol(c):
                    return False
                wanted = {n for k in self.p.mro(c) if self.p.is_protocol(k) for n in k.methods}
                return all(self.p.find_method(o.cls, n) is not None for n in wanted)
            if isinstance(o, (Arr, int, tuple, str, type(None))):
                return False
            raise Undecided("isinstance")
        if isinstance(c, Ext):
            n = c.name.split(".")[-1]
            if n in ("slice", "int", "str", "tuple", "list") and not isinstance(o, Opaque):
                if n == "int":
                    return isinstance(o, (int, Poly)) and not isinstance(o, bool)
                return isinstance(o, {"slice": slice, "str": str, "tuple": tuple, "list": list}[n])
        raise Undecided("isinstance")

    def external(self, name: str, args: list, kw: dict):
        args = [a.value() if isinstance(a, Buffer) and not name.startswith("builtins.") else a for a in args]
        short = name.split(".")[-1]
        root = name.split(".")[0]
        if name == "object.__init__":
            return None
        if root == "typing":
            if short == "cast":
                return args[1]
            return Opaque(("type",))
        if root == "builtins":
            if set(kw) - {"zip": {"strict"}, "enumerate": {"start"}, "sorted": {"key", "reverse"}, "sum": {"start"}, "dict": set(kw)}.get(short, set()):
                raise Undecided(f"{short} with {', '.join(kw)}")
            return self.builtin(short, args, kw)
        if name == "itertools.product":
            return [tuple(x) for x in itertools.product(*(self.iterate(a) for a in args))]
        if name == "itertools.starmap":
            return [self.apply(args[0], list(self.iterate(x)), {}) for x in self.iterate(args[1])]
        if name in ("itertools.chain",):
            return [x for a in args for x in self.iterate(a)]
        if root not in ("numpy", "scipy"):
            raise Undecided(name)
        if name.startswith("numpy.testing."):
            return None
        if ".fft." in name:
            return self.fft(short, args, kw)
        g = getattr(self, "np_" + short, None)
        if g is None or name.count(".") != 1:
            raise Undecided(name)
        return g(*understood(name, args, kw))

    def builtin(self, n: str, args, kw):
        if n in ("tuple", "list"):
            out = self.iterate(args[0]) if args else ()
            return tuple(out) if n == "tuple" else list(out)
        if n == "len":
            if isinstance(args[0], Arr):
                return args[0].size(0)
            return len(self.iterate(args[0]))
        if n == "range":
            return tuple(range(*(self.as_int(a) for a in args)))
        if n == "zip":
            return [tuple(x) for x in zip(*(self.iterate(a) for a in args))]
        if n == "enumerate":
            return list(enumerate(self.iterate(args[0]), self.as_int(args[1] if len(args) > 1 else kw.get("start", 0))))
        if n == "iter" and len(args) == 1:
            return Values(self.iterate(args[0]))
        if n == "next" and len(args) in (1, 2):
            if not isinstance(args[0], list) or not args[0] and len(args) == 1:
                raise Undecided(n)
            return args[0].pop(0) if args[0] else args[1]
        if n == "reversed":
            return tuple(reversed(self.iterate(args[0])))
        if n == "isinstance":
            return self.isinstance_(*args)
        if n == "slice":
            return slice(*args)
        if n == "int":
            return args[0] if isinstance(args[0], (int, Poly, Opaque)) else self.as_int(args[0])
        if n in ("min", "max"):
            vs = list(args if len(args) > 1 else self.iterate(args[0]))
            best = vs[0]
            for v in vs[1:]:
                d = Poly.of(v) - Poly.of(best)
                if (-d).never_negative():
                    low, high = v, best
                elif d.never_negative():
                    low, high = best, v
                else:
                    raise Undecided(n)
                best = low if n == "min" else high
            return best
        if n == "sorted":
            key = kw.get("key")
            return sorted(
                (x if isinstance(x, tuple) else self.as_int(x) for x in self.iterate(args[0])),
                key=(lambda x: x) if key is None else (lambda x: self.as_int(self.apply(key, [x], {}))),
                reverse=self.truth(kw.get("reverse", False)),
            )
        if n == "sum":
            out = Poly.of(args[1] if len(args) > 1 else kw.get("start", 0))
            for x in self.iterate(args[0]):
                out = out + Poly.of(x)
            return out
        if n == "divmod":
            x, y = Poly.of(args[0]), Poly.of(args[1])
            return (floordiv(x, y), mod(x, y))
        if n == "abs":
            return abs(self.num(args[0]))
        if n in ("all", "any"):
            vs = [self.truth(x) for x in self.iterate(args[0])]
            return all(vs) if n == "all" else any(vs)
        if n == "bool":
            return self.truth(args[0])
        if n in ("chr", "ord"):
            return chr(self.as_int(args[0])) if n == "chr" else ord(args[0])
        if n == "map":
            return [self.apply(args[0], [x], {}) for x in self.iterate(args[1])]
        raise Undecided(n)

    def fft(self, short: str, args, kw):
        sign = {"fft": 1, "ifft": -1, "fftn": 1, "ifftn": -1, "fft2": 1, "ifft2": -1}.get(short)
        if sign is None:
            raise Undecided(short)
        a = args[0]
        if not isinstance(a, Arr):
            raise Undecided("fft")
        n = args[1] if len(args) > 1 else kw.get("n", kw.get("s"))
        ax = args[2] if len(args) > 2 else kw.get("axis", kw.get("axes", -1))
        norm = args[3] if len(args) > 3 else kw.get("norm")
        if short in ("fft", "ifft"):
            axes, ns = (ax,), (n,)
        else:
            if "axes" not in kw and len(args) < 3 or ax is None:
                last = len(a.axes) if n is None else len(self.iterate(n))
                axes = tuple(range(-last, 0)) if short.endswith("n") else (-2, -1)
            else:
                axes = self.iterate(ax)
            ns = self.iterate(n) if n is not None else (None,) * len(axes)
        if len(axes) != len(ns):
            raise Undecided("lengths of the transforms")
        for x, k in zip(axes, ns):
            i = a.axis(x)
            size = a.size(i)
            if k is not None and Poly.of(k) != size:
                a = a.on(i, ("crop", size, Poly.of(k)), Poly.of(k))
                size = Poly.of(k)
            a = a.on(i, ("F", size, sign))
            if norm in (None, "backward"):
                p = Fraction(1, 2) if sign > 0 else Fraction(-1, 2)
            elif norm == "forward":
                p = Fraction(-1, 2) if sign > 0 else Fraction(1, 2)
            elif norm == "ortho":
                p = Fraction(0)
            else:
                raise Undecided("norm")
            if p:
                a = Arr(a.axes, a.conj, a.scale.times(Scale({size: p})))
        return a

    # ---- numpy
    def np_array(self, args, kw):
        v = args[0]
        if isinstance(v, (tuple, list)):
            return Row(v)
        if isinstance(v, (Arr, Opaque, Poly, int)):
            return v
        raise Undecided("array")

    np_asarray = np_ascontiguousarray = np_copy = np_array

    def np_arange(self, args, kw):
        return Row(range(*(self.as_int(a) for a in args)))

    def np_zeros(self, args, kw):
        s = args[0] if args else kw.get("shape")
        return Buffer([Poly.of(x) for x in (self.iterate(s) if isinstance(s, (tuple, list)) else (s,))])

    def np_zeros_like(self, args, kw):
        if not isinstance(args[0], Arr):
            raise Undecided("zeros_like")
        return Buffer(args[0].sizes())

    def np_roll(self, args, kw):
        a = args[0]
        shift = args[1] if len(args) > 1 else kw.get("shift")
        axis = args[2] if len(args) > 2 else kw.get("axis")
        if not isinstance(a, Arr):
            raise Undecided("roll")
        if axis is None:
            if len(a.axes) == 1:
                axis = 0
            else:
                for x in range(len(a.axes)):
                    a = a.on(x, ("rolled together with the other axes", Poly.of(shift)))
                return a
        for s, x in zip(*( (self.iterate(shift), self.iterate(axis)) if isinstance(axis, (tuple, list)) else ((shift,), (axis,)))):
            a = a.on(x, ("roll", Poly.of(s)))
        return a

    def np_conj(self, args, kw):
        v = args[0]
        if isinstance(v, Arr):
            return Arr(v.axes, not v.conj, v.scale)
        if isinstance(v, Opaque):
            return Opaque(v.path, not v.conj, v.turned, v.ndim, v.dims)
        raise Undecided("conj")

    np_conjugate = np_conj

    def np_transpose(self, args, kw):
        v = args[0]
        axes = args[1] if len(args) > 1 else kw.get("axes")
        if isinstance(v, Opaque) and axes is None:
            return Opaque(v.path, v.conj, not v.turned, v.ndim, v.dims)
        return self.method(v, "transpose", [axes] if axes is not None else [], {})

    def np_swapaxes(self, args, kw):
        return self.method(args[0], "swapaxes", args[1:], kw)

    def np_moveaxis(self, args, kw):
        a = args[0]
        src = args[1] if len(args) > 1 else kw.get("source")
        dst = args[2] if len(args) > 2 else kw.get("destination")
        if not isinstance(a, Arr):
            raise Undecided("moveaxis")
        i, j = a.axis(src), a.axis(dst)
        ax = list(a.axes)
        x = ax.pop(i)
        ax.insert(j, x)
        return a.with_axes(ax)

    def np_reshape(self, args, kw):
        return self.method(args[0], "reshape", args[1:], kw)

    def np_ravel(self, args, kw):
        return self.method(args[0], "ravel", [], kw)

    def np_prod(self, args, kw):
        out = Poly.of(1)
        for x in self.iterate(args[0]):
            out = out * Poly.of(x)
        return out

    def np_sqrt(self, args, kw):
        return Scale({k: v / 2 for k, v in self.scale(args[0]).powers.items()})

    def np_complex128(self, args, kw):
        return args[0]

    def np_ndim(self, args, kw):
        return self.attribute(args[0], "ndim")

    def np_shape(self, args, kw):
        return self.attribute(args[0], "shape")

    def np_mod(self, args, kw):
        return self.binop(ast.Mod(), args[0], args[1])

    np_remainder = np_mod

    def np_floor_divide(self, args, kw):
        return self.binop(ast.FloorDiv(), args[0], args[1])

    def np_tensordot(self, args, kw):
        a, b = args[0], args[1]
        axes = args[2] if len(args) > 2 else kw.get("axes", 2)
        if not isinstance(axes, (tuple, list)) or len(axes) != 2:
            raise Undecided("tensordot")
        x, y = axes
        x = x[0] if isinstance(x, (tuple, list)) and len(x) == 1 else x
        y = y[0] if isinstance(y, (tuple, list)) and len(y) == 1 else y
        x, y = self.as_int(x), self.as_int(y)
        if isinstance(a, Opaque) and isinstance(b, Arr):
            i = b.axis(y)
            r = self.matrix(b, i, a, x % 2)
            ax = list(r.axes)
            ax.insert(0, ax.pop(i))
            return r.with_axes(ax)
        if isinstance(a, Arr) and isinstance(b, Opaque):
            i = a.axis(x)
            r = self.matrix(a, i, b, y % 2)
            ax = list(r.axes)
            ax.append(ax.pop(i))
            return r.with_axes(ax)
        raise Undecided("tensordot")

    def np_einsum(self, args, kw):
        """A matrix applied along one axis; other sums of products are not followed."""
        if len(args) != 3 or not isinstance(args[0], str) or "->" not in args[0]:
            raise Undecided("einsum")
        spec = args[0].replace(" ", "")
        (ins, out), ops = spec.split("->"), args[1:]
        ins = ins.split(",")
        if len(ins) != 2 or sum(isinstance(o, Arr) for o in ops) != 1 or sum(isinstance(o, Opaque) for o in ops) != 1:
            raise Undecided("einsum")
        at = 0 if isinstance(ops[0], Arr) else 1
        a, m, left, pair = ops[at], ops[1 - at], ins[at], ins[1 - at]
        rest = len(a.axes) - len(left.replace("...", ""))
        dots = "".join(chr(945 + j) for j in range(rest))
        left, out = left.replace("...", dots), out.replace("...", dots)
        common = [x for x in left if x in pair]
        if len(left) != len(a.axes) or len(set(left)) != len(left) or len(pair) != 2 or len(set(pair)) != 2 or len(common) != 1 or common[0] in out:
            raise Undecided("einsum")
        index = pair.index(common[0])
        new = left.replace(common[0], pair[1 - index])
        if sorted(new) != sorted(out):
            raise Undecided("einsum")
        r = self.matrix(a, left.index(common[0]), m, index)
        return r.with_axes(r.axes[new.index(x)] for x in out)

    def matrix(self, a: Arr, i: int, m: Opaque, index: int) -> Arr:
        """Contract axis i with the given index of a matrix."""
        if m.ndim not in (None, 2):
            raise Undecided("matrix rank")
        if m.turned:
            index = 1 - index
        size = Poly.atom((*m.path, "shape", 1 - index))
        if len(m.dims) == 2 and m.path in self.lists and Poly.of(m.dims[index]) != a.size(i):
            a = a.on(i, ("misfit", a.size(i), Poly.of(m.dims[index])), Poly.of(m.dims[index]))
        if len(m.dims) == 2 and not (isinstance(m.dims[1 - index], int) and m.dims[1 - index] < 0):
            size = Poly.of(m.dims[1 - index])
        return a.on(i, ("mat", m.path, m.conj, index), size)

    def matmul(self, a, b):
        if isinstance(a, Opaque) and isinstance(b, Arr):
            i = len(b.axes) - (2 if len(b.axes) > 1 else 1)
            return self.matrix(b, i, a, 1)
        if isinstance(a, Arr) and isinstance(b, Opaque):
            return self.matrix(a, len(a.axes) - 1, b, 0)
        raise Undecided("matmul")

    def np_matmul(self, args, kw):
        return self.matmul(args[0], args[1])

    def np_expand_dims(self, args, kw):
        raise Undecided("expand_dims")

    # ---- methods of arrays and sequences
    def method(self, o, n: str, args, kw):
        if isinstance(o, (tuple, list)):
            if n == "__iter__":
                return tuple(o)
            if n == "append" and isinstance(o, list):
                o.append(args[0])
                return None
            if n == "extend" and isinstance(o, list):
                o.extend(self.iterate(args[0]))
                return None
            if n == "insert" and isinstance(o, list):
                o.insert(self.as_int(args[0]), args[1])
                return None
            if n == "tolist":
                return [list(x) if isinstance(x, Row) else x for x in o]
            if n in ("copy", "astype"):
                return type(o)(o)
            if n == "index":
                return list(o).index(args[0])
            raise Undecided(n)
        if isinstance(o, (Poly, int)):
            if n in ("item", "__repr__", "__int__"):
                return o
            raise Undecided(n)
        if not isinstance(o, Arr):
            raise Undecided(n)
        if n in ("reshape", "ravel", "flatten") and (kw or (n != "reshape" and args)):
            if set(kw) - {"order"} or (args[0] if n != "reshape" and args else kw.get("order", "C")) != "C":
                raise Undecided(f"{n} in another order")
            args = args if n == "reshape" else []
        if n in ("astype", "copy"):
            return o
        if n == "view":
            return o.on(0, ("reinterpreted bytes",)) if o.axes else o
        if n in ("conj", "conjugate"):
            return Arr(o.axes, not o.conj, o.scale)
        if n == "swapaxes":
            i, j = o.axis(args[0]), o.axis(args[1])
            ax = list(o.axes)
            ax[i], ax[j] = ax[j], ax[i]
            return o.with_axes(ax)
        if n == "transpose":
            axes = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
            idx = [o.axis(x) for x in axes] if axes else list(range(len(o.axes)))[::-1]
            if sorted(idx) != list(range(len(o.axes))):
                raise Undecided("transpose")
            return o.with_axes(o.axes[i] for i in idx)
        if n == "reshape":
            dims = list(args[0]) if len(args) == 1 and isinstance(args[0], (tuple, list)) else list(args)
            return self.reshape(o, dims)
        if n in ("ravel", "flatten"):
            return self.reshape(o, [-1])
        raise Undecided(n)

    def reshape(self, o: Arr, dims: list) -> Arr:
        fs = [f for ax in o.axes for f in ax]
        wanted = [None if isinstance(d, int) and d == -1 else Poly.of(d) for d in dims]
        fits([f.size for f in fs], wanted)
        if wanted.count(None) > 1:
            raise Undecided("reshape")
        k = wanted.index(None) if None in wanted else len(wanted)
        left, fs = self.take(wanted[:k], fs)
        right, rest = self.take(wanted[k + 1:][::-1], fs[::-1], False)
        rest = rest[::-1]
        if k == len(wanted):
            if rest:
                raise Undecided("reshape")
            return o.with_axes(left)
        return o.with_axes([*left, tuple(rest), *[ax[::-1] for ax in right[::-1]]])

    @staticmethod
    def take(wanted: list, fs: list, forward: bool = True):
        out = []
        fs = list(fs)
        for w in wanted:
            ax: list = []
            size = Poly.of(1)
            while size != w:
                if not fs:
                    raise Undecided("reshape")
                f = fs.pop(0)
                need = w.divide(size)
                if need is None:
                    raise Undecided("reshape")
                if need.divide(f.size) is None:
                    rest = f.size.divide(need)
                    if rest is None:
                        raise Undecided("reshape")
                    end = ("first", "rest") if forward else ("last", "rest")
                    fs.insert(0, Factor(("part", f.name, f.word, end[1], need), (), rest))
                    f = Factor(("part", f.name, f.word, end[0], need), (), need)
                ax.append(f)
                size = size * f.size
            out.append(tuple(ax))
        return out, fs


def monomial(s: Poly) -> bool:
    return len(s.terms) == 1 and s.terms[0][1] > 0 and plain(s)


def plain(s: Poly) -> bool:
    """Made of sizes that are free to be anything."""
    return bool(s.terms) and all(isinstance(a, str) or (isinstance(a, tuple) and a and (a[0] == "N" or (a[-1] in ("n", "fundamental_n") and "basis" in a[1:-1] and len(a) == 4))) for m, _ in s.terms for a in m)


def fits(have: list, wanted: list) -> None:
    """Whether an array of the given sizes can be reshaped at all."""
    total, left = Poly.of(1), Poly.of(1)
    for x in have:
        total = total * x
    for x in wanted:
        if x is not None:
            left = left * x
    if not all(monomial(x) or x.const() for x in (total, left)):
        return
    if total != left and (None not in wanted or (total.divide(left) is None)):
        raise Broken(f"{total!r} values are put into shape ({', '.join('-1' if w is None else repr(w) for w in wanted)})")


class Values(list):
    """What is left of an iteration."""


KEEPING = ("reshape", "astype", "copy", "ravel", "conj", "conjugate", "transpose")
BUILTINS = {
    "tuple", "list", "len", "range", "zip", "enumerate", "isinstance", "slice", "int", "min", "max", "sorted", "sum", "reversed", "divmod", "abs",
    "map", "iter", "next", "Ellipsis", "property", "type", "float", "complex", "str", "bool", "set", "dict", "all", "any", "chr", "ord",
}


def _load(t: ast.expr) -> ast.expr:
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    return ast.Subscript(t.value, t.slice, ast.Load())


# ---------------------------------------------------------------- spectral padding
class Piece:
    """A rectangular part of the operand."""

    def __init__(self, of: Arr, index: list) -> None:
        self.of = of
        self.index = index


class Patched(Buffer):
    def __init__(self, shape: list) -> None:
        super().__init__(shape)
        self.writes: list = []


class PadMachine(Machine):
    """Follows a padding routine down to which frequencies it copies where."""

    def apply(self, fn, args: list, kw: dict):
        if isinstance(fn, Func):
            return self.call_func(fn, None, args, kw)
        return super().apply(fn, args, kw)

    def np_zeros(self, args, kw):
        return Patched(super().np_zeros(args, kw).shape)

    def np_zeros_like(self, args, kw):
        return Patched(super().np_zeros_like(args, kw).shape)

    def gather(self, a: Arr, i):
        return Piece(a, self.per_axis(len(a.axes), i))

    def scatter(self, b: Buffer, i, v) -> None:
        if not isinstance(b, Patched) or not isinstance(v, (Piece, Arr)):
            raise Undecided("store")
        if isinstance(v, Arr):
            v = Piece(v, [slice(None)] * len(v.axes))
        b.writes.append((self.per_axis(len(b.shape), i), v.index))

    def fft(self, short, args, kw):
        raise Undecided("fft")

    def attribute(self, o, a: str):
        if isinstance(o, Patched):
            if a == "shape":
                return tuple(o.shape)
            raise Undecided("buffer attribute")
        return super().attribute(o, a)

    def subscript(self, o, i):
        if isinstance(o, Patched):
            raise Undecided("reading the result")
        return super().subscript(o, i)


def side(s: slice, n: Poly):
    """Which end of an axis of length n a slice takes, and how much of it."""
    if s.step not in (None, 1):
        raise Undecided("step")
    start = Poly.of(0 if s.start is None else s.start)
    if s.stop is None:
        if start.const() == 0:
            return ("all", n)
        sg = start.sign()
        if sg is None or sg >= 0:
            raise Undecided("slice")
        return ("back", -start)
    stop = Poly.of(s.stop)
    if start == stop:
        return ("none", Poly.of(0))
    if start.const() != 0 or stop.sign() != 1:
        raise Undecided("slice")
    return ("all", n) if stop == n else ("front", stop)


def padding(p: Project, report, res: Result) -> None:
    """A padded spectrum keeps every frequency both grids have, at the place it has in the other grid, and nothing else."""
    f = next((g for m in p.modules.values() for g in m.funcs if g.name == "pad_ft_points" and g.cls is None), None)
    if f is None:
        return
    a, d = Poly.atom("a"), Poly.atom("d")
    two = Poly.of(2)
    # the smallest sizes one by one, so that code may single them out, and all larger ones at once
    halves = [(r, h) for r in (0, 1) for h in ((Poly.of(0),) if r else ()) + (Poly.of(1), Poly.of(2), a + Poly.of(3))]
    excess = (Poly.of(1), Poly.of(2), d + Poly.of(3))
    orders = [("=", Poly.of(0)), *((o, e) for o in "<>" for e in excess)]
    for (r1, small), r2 in itertools.product(halves, (0, 1)):
        for order, more in orders:
            other = small + more
            if other.const() == 0 and not r2:
                continue
            lo, hi = small * two + Poly.of(r1), other * two + Poly.of(r2)
            n, s = (hi, lo) if order == ">" else (lo, hi)
            rn, rs = (r2, r1) if order == ">" else (r1, r2)
            hn, hs = (other, small) if order == ">" else (small, other)
            up = lambda h, r: h if r else h - Poly.of(1)  # noqa: E731
            Poly.SIZES = frozenset({"a", "d", "m"})
            try:
                k = PadMachine(p)
                front = Poly.of(1) + k.builtin("min", [up(hn, rn), up(hs, rs)], {})
                back = k.builtin("min", [hn, hs], {})
                for rank, axes in ((1, (0,)), (1, (-1,)), (2, (0,)), (2, (1,)), (2, (-1,)), (2, (0, 1))):
                    res.count("paddings")
                    k = PadMachine(p)
                    axs = [x % rank for x in axes]
                    x = Arr(tuple((Factor(("x", i), (), n if i in axs else Poly.atom("m") + Poly.of(1)),) for i in range(rank)))
                    got = k.call_func(f, None, [x, tuple(s for _ in axes), axes], {})
                    if isinstance(got, Arr):
                        raise Undecided("result")
                    if not isinstance(got, Patched):
                        raise Undecided("result")
                    want_shape = [s if i in axs else x.size(i) for i in range(rank)]
                    if [Poly.of(v) for v in got.shape] != want_shape:
                        report(f, "shape", f"{f.name}: lengths {n!r} to {s!r}: the result has shape {got.shape!r}")
                        continue
                    moved = set()
                    ends = {i: set() for i in axs}
                    for dst, src in got.writes:
                        box = []
                        for i in range(rank):
                            u, v = side(dst[i], Poly.of(got.shape[i])), side(src[i], x.size(i))
                            if i not in axs:
                                if (u[0], v[0]) != ("all", "all"):
                                    moved.add("an axis that was not asked for is cut")
                                continue
                            if {u[0], v[0]} <= {"all", "front"} and u[1] == v[1]:
                                u = v = ("front", u[1]) if "front" in (u[0], v[0]) else u
                            if u != v:
                                moved.add(f"{v[0]} {v[1]!r} values are written to {u[0]} {u[1]!r}")
                            box.append(u)
                        for i, u in zip(axs, box):
                            ends[i].add(u)
                    for i in axs:
                        have = {u for u in ends[i] if u[0] != "none" and not (u[1].const() == 0)}
                        whole = n == s and have == {("all", n)}
                        want = {("front", front), ("back", back)}
                        want = {u for u in want if u[1].const() != 0}
                        alt = {("all", n) if u == ("front", n) else u for u in want}
                        if not whole and have not in (want, alt):
                            moved.add(
                                "copies " + (" and ".join(sorted(f"{u[0]} {u[1]!r}" for u in have)) or "nothing")
                                + f" where the frequencies both grids share are front {front!r} and back {back!r}"
                            )
                    res.count("paddings decided")
                    for why in sorted(moved):
                        report(f, "frequencies", f"{f.name} from length {n!r} to {s!r} (a, d >= 0): {why}")
                    if moved:
                        return
            except (Undecided, Endless, Broken) as e:
                res.detail.setdefault("undecided", {})[f"{f.name} {n!r} to {s!r}"] = str(e)
            finally:
                Poly.SIZES = frozenset()


# ---------------------------------------------------------------- instances
def takes_int(p: Project, m: Module, ann: ast.expr | None) -> bool:
    if not isinstance(ann, ast.Name):
        return False
    if ann.id == "int":
        return True
    r = p.resolve_global(m, ann.id)
    if type(r).__name__ != "Assign" or not isinstance(r.value, ast.Call):
        return False
    return any(k.arg == "bound" and isinstance(k.value, ast.Name) and k.value.id == "int" for k in r.value.keywords)


def vector_list(ann: ast.expr | None) -> bool:
    ann = ann.value if isinstance(ann, ast.Subscript) else ann
    return isinstance(ann, ast.Name) and ann.id in ("StateVectorList", "LegacyStateVectorList")


class Classes:
    def __init__(self, p: Project) -> None:
        self.p = p
        self.root = p.cls("BasisLike")
        self.tuple_like = p.cls("TupleBasisLike")
        self.all = [c for m in p.modules.values() for c in m.classes if self.root in p.mro(c) and not p.is_protocol(c)]

    def concrete(self) -> list[Class]:
        out = []
        for c in self.all:
            if any(f.is_abstract for f in c.methods.values()):
                continue
            if c.name.startswith("_") and any(c in self.p.mro(d)[1:] for d in self.all):
                continue
            out.append(c)
        return out

    def init(self, c: Class) -> Func | None:
        return self.p.find_method(c, "__init__")

    def build(self, k: Machine, c: Class, tag: str) -> Inst:
        """An instance whose sizes are symbols."""
        f = self.init(c)
        if f is None:
            return k.construct(c, [], {}, f"{c.name}{tag}")
        args, kw = [], {}
        for q in f.params[1:]:
            if q.kind == "var":
                args.extend(self.leaves(k, c, tag))
            elif q.kind in ("pos", "posonly", "kw"):
                v = Poly.atom(q.name + tag) if takes_int(self.p, f.module, q.annotation) else Opaque((q.name + tag,))
                if vector_list(q.annotation):
                    k.lists[(q.name + tag, "data")] = tuple(Poly.atom((q.name + tag, "basis", i, "n")) for i in (0, 1))
                if q.kind == "kw":
                    kw[q.name] = v
                else:
                    args.append(v)
        return k.construct(c, args, kw, f"{c.name}{tag}")

    def leaves(self, k: Machine, c: Class, tag: str) -> list:
        a, b = self.p.cls("TruncatedBasis"), self.p.cls("TransformedBasis")
        return [self.build(k, a, tag + "'"), self.build(k, b, tag + "''")]


def parts(k: Machine, o: Inst) -> list[Inst] | None:
    """The factors of a product basis."""
    g = k.p.find_method(o.cls, "__iter__")
    if g is None or is_stub(g.node):
        return None
    try:
        out = list(k.iterate(o))
    except Undecided:
        return None
    return out if out and all(isinstance(x, Inst) for x in out) else None


def size_of(k: Machine, o: Inst, attr: str) -> Poly:
    return Poly.of(k.inst_attr(o, attr, None))


def axis_of(k: Machine, o: Inst, attr: str) -> tuple:
    ps = parts(k, o)
    if ps is None:
        return (Factor(("x", 0), (), size_of(k, o, attr)),)
    return tuple(Factor(("x", i), (), size_of(k, q, attr)) for i, q in enumerate(ps))


def operand(k: Machine, o: Inst, attr: str, rank: int, at: int) -> Arr:
    return Arr(tuple(axis_of(k, o, attr) if i == at else (Factor(("other", i), (), Poly.atom(f"m{i}")),) for i in range(rank)))


def name_key(n):
    if isinstance(n, tuple) and n and n[0] == "joint":
        return ("joint", tuple((name_key(x), reduce_word(w)) for x, w in n[1]))
    if isinstance(n, tuple) and n and n[0] == "part":
        return ("part", name_key(n[1]), reduce_word(n[2]), *n[3:])
    return n


def axis_words(a: Arr, i: int) -> tuple:
    return tuple((name_key(f.name), reduce_word(f.word)) for f in a.axes[i])


def trouble(a, rank: int, at: int) -> str | None:
    """Whether anything but the requested axis was touched."""
    if not isinstance(a, Arr):
        raise Undecided("result")
    if len(a.axes) != rank:
        return f"the result has {len(a.axes)} axes for an operand with {rank}"
    for i in range(rank):
        if i == at:
            if any(f.name[0] == "other" for f in a.axes[i]):
                return "the requested axis is not where it was"
            continue
        ax = a.axes[i]
        if len(ax) != 1 or ax[0].name != ("other", i):
            return "an axis that was not asked for is moved"
        if reduce_word(ax[0].word):
            return f"an axis that was not asked for is changed ({show_word(reduce_word(ax[0].word))})"
    return None


METHODS = {
    ("into", "fundamental"): "__into_fundamental__",
    ("from", "fundamental"): "__from_fundamental__",
    ("into", "transformed"): "__into_transformed__",
    ("from", "transformed"): "__from_transformed__",
}
PLACES = [(1, 0), (1, -1), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (3, -1), (3, -2), (3, -3)]


class Contract:
    def __init__(self, p: Project, tier: str) -> None:
        self.p = p
        self.res = Result()
        self.classes = Classes(p)
        self.fourier: list = []  # findings that concern a transform
        self.tier = tier

    def report(self, rule: str, c: Class, what: str, f: Func | None, msg: str, fourier: bool) -> None:
        loc = f.loc if f is not None else f"{c.module.rel}:{c.node.lineno}"
        construct = f.qual if f is not None else c.qual
        self.fourier.append((rule, construct, what, loc, msg, fourier))

    # ---- completeness
    def complete(self, c: Class) -> None:
        names = sorted({n for d in self.p.mro(c) for n, f in d.methods.items() if f.is_abstract or (self.p.is_protocol(d) and is_stub(f.node))})
        for n in names:
            self.res.count("members")
            f = self.p.find_method(c, n)
            if f is None or is_stub(f.node) or f.is_abstract:
                self.report("incomplete", c, n, None, f"{c.name} promises `{n}` but no class it inherits from implements it", n in NAT)

    # ---- what the constructor was told is what the basis reports
    def reported(self, c: Class) -> None:
        f = self.classes.init(c)
        if f is None:
            return
        for q in f.params[1:]:
            if not takes_int(self.p, f.module, q.annotation) or self.p.find_method(c, q.name) is None:
                continue
            self.res.count("reported sizes")
            k = Machine(self.p)
            try:
                got = size_of(k, self.classes.build(k, c, ""), q.name)
            except (Undecided, Endless, Broken):
                continue
            if got != Poly.atom(q.name):
                g = self.p.find_method(c, q.name)
                self.report("size", c, q.name, g, f"{c.name} is made with {q.name} but reports {q.name} = {got!r}", False)

    # ---- companions
    def companions(self) -> None:
        """The fundamental companion of a basis has its fundamental size, order and lengths, and is of the kind it is named after."""
        p = self.p
        words = {"transformed": -1, "momentum": -1, "basis": 0, "position": 0}
        for m in p.modules.values():
            for f in m.funcs:
                name = f.name
                if f.cls is not None or f.parent is not None or "as_fundamental_" not in name or not f.is_public:
                    continue
                if not f.params or any(not q.has_default and q.kind in ("pos", "kw") for q in f.params[1:]):
                    continue
                kind = next((v for w, v in words.items() if w in name.split("as_fundamental_")[1].split("_")), None)
                if kind is None:
                    continue
                self.res.count("companions")
                k = Machine(p)
                try:
                    a = self.classes.build(k, p.cls("TruncatedPositionBasis"), "'")
                    b = self.classes.build(k, p.cls("TransformedPositionBasis"), "''")
                    src = k.construct(p.cls("TupleBasis"), [a, b], {}, "product") if name.startswith("stacked") else a
                    got = k.call_func(f, None, [src], {})
                    if not isinstance(got, Inst):
                        raise Undecided("result")
                    olds = parts(k, src) or [src]
                    news = parts(k, got) or [got]
                    if len(olds) != len(news):
                        self.report("companion", got.cls, name, f, f"{name} of a product of {len(olds)} bases has {len(news)} factors", True)
                        continue
                    for i, (o, n) in enumerate(zip(olds, news)):
                        for attr in ("fundamental_n", "delta_x"):
                            if attr == "delta_x" and p.find_method(n.cls, "delta_x") is None:
                                continue
                            u, v = k.inst_attr(o, attr, None), k.inst_attr(n, attr, None)
                            if attr == "fundamental_n":
                                u, v = Poly.of(u), Poly.of(v)
                            if u != v:
                                self.report("companion", n.cls, name, f, f"factor {i} of {name} has {attr} {v!r} where the basis given has {u!r}", True)
                        if size_of(k, n, "n") != size_of(k, n, "fundamental_n"):
                            self.report("companion", n.cls, name, f, f"factor {i} of {name} is not fundamental: it has {size_of(k, n, 'n')!r} states", True)
                            continue
                        r = k.apply(k.inst_attr(n, "__into_fundamental__", None), [operand(k, n, "n", 1, 0), 0], {})
                        r = r.value() if isinstance(r, Buffer) else r
                        w = axis_words(r, 0)[0][1]
                        want = (("F", size_of(k, n, "n"), kind),) if kind else ()
                        if w != want:
                            self.report("companion", n.cls, name, f, f"factor {i} of {name} is into its fundamental representation by {show_word(w)} instead of {show_word(want)}", True)
                    self.res.count("companions decided")
                except Endless as e:
                    self.report("endless", self.classes.root, name, f, f"{name} never ends: it comes back to {e.func.short}", True)
                except Broken as e:
                    self.report("raises", self.classes.root, name, f, f"{name} fails: {e}", True)
                except Undecided as e:
                    self.res.detail.setdefault("undecided", {})[name] = str(e)

    # ---- the defaults themselves
    def defaults(self) -> None:
        """The four defaults of the base protocol, each derived from an arbitrary conversion of the other kind."""
        c = self.classes.root
        for kind, other, sign in (("fundamental", "transformed", -1), ("transformed", "fundamental", 1)):
            for way in ("into", "from"):
                name, given = METHODS[way, kind], METHODS[way, other]
                f = c.methods.get(name)
                if f is None or is_stub(f.node):
                    continue
                for rank, axis in PLACES:
                    self.res.count("defaults")
                    at = axis % rank
                    k = Machine(self.p)
                    o = Inst(c, {("opaque",): True, given: Opaque(("any", given))}, "any")
                    try:
                        size, end = Poly.atom(("any", "fundamental_n")), Poly.atom(("any", "n"))
                        x = Arr(tuple((Factor(("x", 0) if i == at else ("other", i), (), (end if way == "into" else size) if i == at else Poly.atom(f"m{i}")),) for i in range(rank)))
                        r = k.apply(k.inst_attr(o, name, None), [x, axis], {})
                        bad = trouble(r, rank, at)
                        ft = ("F", size, sign if way == "into" else -sign)
                        op = (way, ("any",), other, False)
                        want = (op, ft) if way == "into" else (ft, op)
                        got = None if bad else axis_words(r, at)[0][1]
                        if bad or got != want or r.scale.key() or r.conj:
                            more = f" and changes the norm by {show_scale(r.scale)}" if r.scale.key() else ""
                            self.report("default", c, name, f, f"the default {name} along axis {axis} of {rank} does {bad or show_word(got)}{more} instead of {show_word(want)}", True)
                    except Endless:
                        self.report("default", c, name, f, f"the default {name} does not use {given}", True)
                    except Undecided as e:
                        self.res.detail.setdefault("undecided", {})[f"default {name}"] = str(e)

    # ---- one class
    def single(self, c: Class) -> None:
        words: dict = {}
        for (way, kind), name in METHODS.items():
            f = self.p.find_method(c, name)
            if f is None:
                continue
            for rank, axis in PLACES:
                at = axis % rank
                for style in ("positional", "keyword", "default"):
                    if (style == "default") != (axis == -1) and style == "default":
                        continue
                    if style == "keyword" and f.param("axis") is None:
                        continue
                    self.res.count("conversions")
                    k = Machine(self.p)
                    try:
                        o = self.classes.build(k, c, "")
                        x = operand(k, o, "n" if way == "into" else "fundamental_n", rank, at)
                        want = size_of(k, o, "fundamental_n" if way == "into" else "n")
                        args, kw = ([x], {}) if style == "default" else ([x], {"axis": axis}) if style == "keyword" else ([x, axis], {})
                        r = k.apply(k.inst_attr(o, name, None), args, kw)
                        if isinstance(r, Buffer):
                            r = r.value()
                        bad = trouble(r, rank, at)
                        if bad:
                            self.report("axis", c, name, f, f"{c.name}.{name} along axis {axis} of {rank}: {bad}", True)
                            continue
                        w = axis_words(r, at)
                        expect = [("x", i) for i in range(len(x.axes[at]))]
                        if [n for n, _ in w] != expect and not (len(w) == 1 and w[0][0][0] == "joint"):
                            self.report("axis", c, name, f, f"{c.name}.{name} reorders the factors of the axis", True)
                            continue
                        if r.size(at) != want:
                            if not opaque_size(r.size(at)) and not opaque_size(want):
                                self.report("size", c, name, f, f"{c.name}.{name} gives {r.size(at)!r} values where the basis reports {want!r}", has_fft(w))
                            continue
                        self.res.count("conversions decided")
                        val = (w, r.conj, r.scale.key())
                        if (way, kind) in words and words[way, kind][0] != val:
                            self.report("axis", c, name, f, f"{c.name}.{name} does something else for another axis", True)
                        words.setdefault((way, kind), (val, f))
                        if r.scale.key():
                            self.report("normalisation", c, name, f, f"{c.name}.{name} changes the norm by a factor {show_scale(r.scale)}: the transform is not the unitary one", True)
                        if r.conj:
                            self.report("conjugated", c, name, f, f"{c.name}.{name} returns the complex conjugate", False)
                    except Endless as e:
                        self.report("endless", c, name, f, f"{c.name}.{name} never ends: it comes back to {e.func.short} with the same arguments", True)
                    except Broken as e:
                        self.report("raises", c, name, f, f"{c.name}.{name} of {rank} axes fails: {e}", True)
                    except Undecided as e:
                        self.res.detail.setdefault("undecided", {}).setdefault(f"{c.name}.{name}", str(e))
                    except RecursionError:
                        self.res.detail.setdefault("undecided", {})[f"{c.name}.{name}"] = "recursion"
        for kind in ("fundamental", "transformed"):
            if ("into", kind) in words and ("from", kind) in words:
                self.res.count("inverse pairs")
                (wi, _, _), fi = words["into", kind]
                (wf, _, _), ff = words["from", kind]
                self.res.sample(f"{c.name}: into {kind} = {' | '.join(show_word(w) for _, w in wi)}; from {kind} = {' | '.join(show_word(w) for _, w in wf)}", 40)
                try:
                    want = tuple((n, adjoint(w)) for n, w in wi)
                except Undecided:
                    want = None
                if want is None or any(n[0] == "joint" for n, _ in (*wi, *wf)):
                    continue
                if want != wf:
                    i = next(j for j in range(len(wf)) if wf[j] != want[j])
                    self.report("not inverse", c, f"from/into {kind}", ff,
                                f"{c.name}: into {kind} does {show_word(wi[i][1])}, from {kind} does {show_word(wf[i][1])}, which is not its reverse", has_fft(wi) or has_fft(wf))
        if ("into", "fundamental") in words and ("into", "transformed") in words:
            self.res.count("conjugate pairs")
            (a, _, _), _ = words["into", "fundamental"]
            (b, _, _), f = words["into", "transformed"]
            if any(n[0] == "joint" for n, _ in (*a, *b)) or len(a) != len(b):
                return
            k = Machine(self.p)
            o = self.classes.build(k, c, "")
            sizes = [x.size for x in axis_of(k, o, "fundamental_n")]
            for (n, u), (_, v), s in zip(a, b, sizes):
                want = reduce_word((*u, ("F", s, 1)))
                if v != want and not opaque_conversion(v, u):
                    self.report("not the transform", c, "__into_transformed__", f,
                                f"{c.name}: into transformed does {show_word(v)}, where the forward transform of the fundamental representation is {show_word(want)}", True)

    # ---- pairs
    def pair(self, c: Class, d: Class) -> None:
        name = "__convert_vector_into__"
        f = self.p.find_method(c, name)
        if f is None:
            return
        places = [(1, -1), (2, 0), (3, 1)] if self.tier != "thorough" else PLACES
        for rank, axis in places:
            at = axis % rank
            self.res.count("changes of basis")
            k = Machine(self.p)
            Poly.SAME = []
            try:
                a = self.classes.build(k, c, "1")
                b = self.classes.build(k, d, "2")
                same = unify(k, a, b)
                if same is None:
                    self.res.count("changes between incomparable bases")
                    continue
                Poly.SAME = same
                k = Machine(self.p)
                a = self.classes.build(k, c, "1")
                b = self.classes.build(k, d, "2")
                x = operand(k, a, "n", rank, at)
                got = k.apply(k.inst_attr(a, name, None), [x, b, axis], {})
                k.stack.clear()
                mid = k.apply(k.inst_attr(a, "__into_fundamental__", None), [x, axis], {})
                if isinstance(mid, Buffer):
                    mid = mid.value()
                want = k.apply(k.inst_attr(b, "__from_fundamental__", None), [mid, axis], {})
                got, want = (v.value() if isinstance(v, Buffer) else v for v in (got, want))
                bad = trouble(got, rank, at)
                if bad:
                    self.report("axis", c, name, f, f"{c.name}.{name} along axis {axis} of {rank}: {bad}", True)
                    continue
                if trouble(want, rank, at):
                    continue
                self.res.count("changes of basis decided")
                if got.scale.key() != want.scale.key():
                    self.report("normalisation", c, f"{name} {d.name}", f, f"converting {c.name} to {d.name} changes the norm by {show_scale(got.scale)}", True)
                w, v = axis_words(got, at), axis_words(want, at)
                if w != v or got.conj != want.conj:
                    self.report("not through the fundamental basis", c, f"{name} {d.name}", f,
                                f"converting {c.name} to {d.name} does {show_all(w)}, where going through the fundamental basis does {show_all(v)}", has_fft(w) or has_fft(v))
            except Endless as e:
                self.report("endless", c, f"{name} {d.name}", f, f"converting {c.name} to {d.name} never ends: it comes back to {e.func.short}", True)
            except Broken as e:
                self.report("raises", c, f"{name} {d.name}", f, f"converting {c.name} to {d.name} fails: {e}", True)
            except Undecided as e:
                self.res.detail.setdefault("undecided", {}).setdefault(f"{c.name} to {d.name}", str(e))
            finally:
                Poly.SAME = []

    def identity(self, c: Class) -> None:
        """A conversion to the very same basis changes nothing."""
        name = "__convert_vector_into__"
        f = self.p.find_method(c, name)
        if f is None:
            return
        k = Machine(self.p)
        try:
            a = self.classes.build(k, c, "")
            x = operand(k, a, "n", 2, 0)
            got = k.apply(k.inst_attr(a, name, None), [x, a, 0], {})
            if isinstance(got, Buffer):
                got = got.value()
            bad = trouble(got, 2, 0)
            self.res.count("identities")
            w = axis_words(got, 0)
            if bad or any(u for _, u in w) or got.scale.key() or got.conj:
                # projecting out and back in is the identity for the operators that lose nothing
                if not bad and not got.conj and not got.scale.key() and all(harmless(u) for _, u in w):
                    return
                self.report("identity", c, f"{name} itself", f, f"converting {c.name} to itself does {bad or show_all(w)}", has_fft(w))
        except Endless as e:
            self.report("endless", c, f"{name} itself", f, f"converting {c.name} to itself never ends: it comes back to {e.func.short}", True)
        except Broken as e:
            self.report("raises", c, f"{name} itself", f, f"converting {c.name} to itself fails: {e}", True)
        except Undecided as e:
            self.res.detail.setdefault("undecided", {}).setdefault(f"{c.name} to itself", str(e))

    def run(self) -> "Contract":
        padding(self.p, lambda f, what, msg: self.fourier.append(("padding", f.qual, what, f.loc, msg, True)), self.res)
        self.defaults()
        self.companions()
        cs = self.classes.concrete()
        for c in cs:
            self.res.count("basis classes")
            self.complete(c)
            self.reported(c)
            self.single(c)
            self.identity(c)
        for c in cs:
            for d in cs:
                self.pair(c, d)
        return self


def harmless(word: tuple) -> bool:
    """An operator followed by its adjoint, where the operator is an isometry."""
    if not word:
        return True
    if len(word) % 2:
        return False
    h = len(word) // 2
    return word[h:] == adjoint(word[:h])


def has_fft(words) -> bool:
    return any(o[0] == "F" for _, w in words for o in w) or any(o[0] == "crop" for _, w in words for o in w)


def show_all(words) -> str:
    return " | ".join(show_word(w) for _, w in words)


def show_scale(s: Scale) -> str:
    return " * ".join(f"({k!r})^({v})" for k, v in s.key()) or "1"


def opaque_size(s: Poly) -> bool:
    """A size read off something of which nothing is known."""
    return any(isinstance(a, tuple) and a[0] not in ("//", "%", "N") and a[-1] not in ("n", "fundamental_n") for m, _ in s.terms for a in m)


def opaque_conversion(v: tuple, u: tuple) -> bool:
    """Another kind of conversion of a wrapped basis, whose relation to the first is that basis's own affair."""
    return (
        bool(v) and bool(u) and v[-1][0] == "into" and u[-1][0] == "into" and v[-1][1] == u[-1][1] and v[:-1] == u[:-1]
        and u[-1][2] == "fundamental" and v[-1][2] == "transformed"
    )


def unify(k: Machine, a: Inst, b: Inst) -> list | None:
    """Rewrites that make the fundamental sizes of two bases equal."""
    pa, pb = parts(k, a), parts(k, b)
    if (pa is None) != (pb is None):
        one, many = (a, pb) if pa is None else (b, pa)
        return equate(size_of(k, one, "fundamental_n"), [size_of(k, x, "fundamental_n") for x in many])
    if pa is not None:
        if len(pa) != len(pb):
            return None
        out: list = []
        for x, y in zip(pa, pb):
            r = equate(size_of(k, x, "fundamental_n"), [size_of(k, y, "fundamental_n")])
            if r is None:
                return None
            out += r
        return out
    return equate(size_of(k, a, "fundamental_n"), [size_of(k, b, "fundamental_n")])


def equate(s: Poly, ts: list) -> list | None:
    """Rewrites folding both sides into one atom (or the product of the parts)."""
    monos = []
    for q in (s, *ts):
        if len(q.terms) != 1 or q.terms[0][1] != 1 or not q.terms[0][0]:
            return None
        monos.append(q.terms[0][0])
    other = tuple(sorted((x for m in monos[1:] for x in m), key=repr))
    whole = ("N", *monos[0], *other)
    return [(m, whole) for m in (monos[0], other)]


def contract(p: Project, tier: str) -> Contract:
    return Contract(p, tier).run()


def fill(k: Contract, fourier: bool) -> Result:
    res = k.res
    for rule, construct, what, loc, msg, is_fourier in k.fourier:
        if is_fourier or not fourier:
            res.add(rule, construct, what, loc, msg)
    return res


ASSUMED = [
    "numpy's fft, tensordot, moveaxis, swapaxes, roll, reshape and slicing behave as documented",
    "sizes are not negative and a truncated basis is not longer than its fundamental basis, as the constructors assert",
    "vectors handed to an explicit basis are orthonormal, so that its matrix and the adjoint are inverse",
    "what a wrapped basis of unknown class does is its own contract, verified for every class of the library",
]
FLOORS = {"basis classes": 15, "conversions": 600, "paddings": 100}


def describe(res: Result, also: str = "") -> Result:
    res.explanation = (
        "Every class that can be instantiated is found from the source, its four conversions are resolved along the method resolution order and "
        "interpreted on arrays of rank one to three with symbolic sizes, for every axis and way of passing it. An axis carries the word of linear "
        "operators applied to it; words are normalised and compared with the formal adjoint of the opposite conversion, with the conjugate "
        "conversion followed by a unitary transform, and for every ordered pair of classes with going through the fundamental representation." + also
    )
    res.assumptions = ASSUMED
    res.floors = dict(FLOORS)
    return res


def analyse_c08(p: Project, tier: str) -> Result:
    from . import layout  # (typed execution of the conversions of vectors, dual vectors and matrices themselves)

    res = describe(fill(contract(p, tier), False), " The functions that convert vectors, dual vectors and matrices are typed with every axis over a basis of its own.")
    for which in (layout.conversion_contracts, layout.explicit_contracts):
        layout.contracts(res, layout.Interp(p), which, ("contract",))
    res.floors["conversion_contracts_decided"] = 8
    return res


def analyse_c07(p: Project, tier: str) -> Result:
    from . import fourier  # (that module builds on this one)

    res = fill(contract(p, tier), True)
    fourier.run(p, res)
    describe(res, " Transforms outside the basis classes (interpolation, periodic noise, potential coefficients, unfurling) are interpreted the same way.")
    res.floors["transform call sites"] = 8
    return res


analyse = analyse_c08
