"""Which points, wave vectors, spacings and indices a basis is said to have (C20).

The functions that enumerate a basis are interpreted on bases with symbolic sizes and symbolic
lattice vectors.  An array is a list of dimensions, each either a small number of components or a
grid of symbolic length, and for every component an expression in the grid's index: a rational
function of sizes, lattice components and remainders, kept in normal form.  What comes out is
compared with the definition (x = sum over axes of index * lattice vector / size, k = 2 pi times
the inverse transposed lattice, wave numbers ordered with zero first and the negative ones last,
flat indices in row-major order, remainders centred on the origin), for sizes of either parity.
No value is computed; what cannot be interpreted is left undecided.
"""

from __future__ import annotations

import ast
import cmath
import itertools
import math
from fractions import Fraction

from .conversions import Break, Broken, Buffer, Classes, Continue, Endless, ExtMethod, Inst, Machine, Opaque, Poly, Return, Row, Scale, Undecided, understood
from .model import Class, Ext, Func, Project
from .report import Result

COUNTER = itertools.count()


# ---------------------------------------------------------------- rational functions
def mul_mono(a: tuple, b: tuple) -> tuple:
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return norm_mono(d)


def norm_mono(d: dict) -> tuple:
    return tuple(sorted(((k, e) for k, e in d.items() if e), key=repr))


def add_poly(a: dict, b: dict, sign: int = 1) -> dict:
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, Fraction(0)) + sign * c
    return {m: c for m, c in d.items() if c}


def mul_poly(a: dict, b: dict) -> dict:
    d: dict = {}
    for m, c in a.items():
        for m2, c2 in b.items():
            # sqrt(x)^2 is x
            k = mul_mono(m, m2)
            extra = {(): Fraction(1)}
            rest = []
            for at, e in k:
                if isinstance(at, tuple) and at and at[0] == "sqrt" and abs(e) >= 2:
                    inner = at[1]
                    h, left = divmod(e, 2)
                    if h > 0 and len(inner.den) == 1:
                        for _ in range(h):
                            extra = mul_poly(extra, inner.num)
                        if left:
                            rest.append((at, left))
                        continue
                if at == ("unit",) and not 0 <= e < 2:
                    extra = {x: -y for x, y in extra.items()} if e // 2 % 2 else extra
                    e %= 2
                    if not e:
                        continue
                rest.append((at, e))
            k = tuple(rest)
            for m3, c3 in extra.items():
                kk = mul_mono(k, m3)
                d[kk] = d.get(kk, Fraction(0)) + c * c2 * c3
    return {m: c for m, c in d.items() if c}


def divide_poly(a: dict, b: dict) -> dict | None:
    """Exact quotient, or nothing."""
    def lead(p: dict):
        return max(p, key=lambda m: (sum(e for _, e in m), repr(m)))

    if len(b) == 1:
        (m, c), = b.items()
        inv = tuple((k, -e) for k, e in m)
        return {mul_mono(x, inv): y / c for x, y in a.items()}
    out: dict = {}
    lb = lead(b)
    for _ in range(200):
        if not a:
            return out
        la = lead(a)
        q = mul_mono(la, tuple((k, -e) for k, e in lb))
        have = dict(la)
        if any(e < 0 and have.get(k, 0) >= 0 for k, e in q):
            return None
        t = {q: a[la] / b[lb]}
        out = add_poly(out, t)
        a = add_poly(a, mul_poly(t, b), -1)
    return None


class Rat:
    """A quotient of Laurent polynomials; the denominator is 1 or has several terms."""

    __slots__ = ("num", "den", "_key")
    ONE = {(): Fraction(1)}

    def __init__(self, num: dict, den: dict | None = None) -> None:
        den = den if den is not None else Rat.ONE
        if not den:
            raise Undecided("division by zero")
        if len(den) == 1:
            num = divide_poly(num, den)
            den = Rat.ONE
        elif not num:
            den = Rat.ONE
        else:
            q = divide_poly(num, den)
            if q is not None:
                num, den = q, Rat.ONE
            else:  # a fixed leading coefficient
                c = den[min(den, key=repr)]
                num = {m: v / c for m, v in num.items()}
                den = {m: v / c for m, v in den.items()}
        self.num = num
        self.den = den
        self._key = None

    @staticmethod
    def of(v) -> "Rat":
        if isinstance(v, Rat):
            return v
        if isinstance(v, bool):
            raise Undecided("truth value")
        if isinstance(v, int):
            return Rat({(): Fraction(v)} if v else {})
        if isinstance(v, complex):
            return Rat.of(v.real) + (Rat.of(v.imag) * Rat.atom(("unit",)) if v.imag else Rat.of(0))
        if isinstance(v, float):
            f = Fraction(v).limit_denominator(10**6)
            if abs(float(f) - v) > 1e-15 * max(1.0, abs(v)):
                return Rat.atom(("float", repr(v)))
            return Rat({(): f} if f else {})
        if isinstance(v, Poly):
            if any(isinstance(a, tuple) and a[0] in ("//", "%") for m, _ in v.terms for a in m):
                out = Rat({})
                for m, c in v.terms:
                    t = Rat.of(int(c))
                    for a in m:
                        if isinstance(a, tuple) and a[0] in ("//", "%"):
                            t = t * (rfloor if a[0] == "//" else rmod)(Rat.of(a[1]), Rat.of(a[2]))
                        else:
                            t = t * Rat.atom(a)
                    out = out + t
                return out
            return Rat({norm_mono(_count(m)): Fraction(c) for m, c in v.terms})
        if isinstance(v, Ext) and v.name in ("numpy.pi", "math.pi", "scipy.constants.pi"):
            return Rat.atom("pi")
        if isinstance(v, Ext) and v.name.startswith("scipy.constants.") and v.name.split(".")[-1].islower() | v.name.endswith(".Boltzmann"):
            name = v.name.split(".")[-1]
            if name == "h":
                return Rat.atom(("const", "hbar")) * Rat.atom("pi") * 2
            return Rat.atom(("const", {"k": "Boltzmann"}.get(name, name)))
        if isinstance(v, Opaque):
            return Rat.atom(v.path)
        raise Undecided(f"not a number: {type(v).__name__}")

    @staticmethod
    def atom(a) -> "Rat":
        return Rat({((a, 1),): Fraction(1)})

    def key(self):
        if self._key is None:
            self._key = (tuple(sorted(self.num.items(), key=repr)), tuple(sorted(self.den.items(), key=repr)))
        return self._key

    def __hash__(self) -> int:
        return hash(self.key())

    def __eq__(self, o) -> bool:
        if not isinstance(o, Rat):
            return False
        return self.key() == o.key() or mul_poly(self.num, o.den) == mul_poly(o.num, self.den)

    def __repr__(self) -> str:
        return show(self)

    def __add__(self, o):
        o = Rat.of(o)
        if self.den == o.den:
            return Rat(add_poly(self.num, o.num), self.den)
        return Rat(add_poly(mul_poly(self.num, o.den), mul_poly(o.num, self.den)), mul_poly(self.den, o.den))

    def __neg__(self):
        return Rat({m: -c for m, c in self.num.items()}, self.den)

    def __sub__(self, o):
        return self + (-Rat.of(o))

    def __mul__(self, o):
        o = Rat.of(o)
        a, b = Rat(self.num, o.den), Rat(o.num, self.den)  # cancels crosswise
        return Rat(mul_poly(a.num, b.num), mul_poly(a.den, b.den))

    def __truediv__(self, o):
        o = Rat.of(o)
        if not o.num:
            raise Undecided("division by zero")
        return Rat(mul_poly(self.num, o.den), mul_poly(self.den, o.num))

    def const(self) -> Fraction | None:
        if not self.num:
            return Fraction(0)
        if self.den == Rat.ONE and set(self.num) == {()}:
            return self.num[()]
        return None

    def atoms(self) -> set:
        return {a for p in (self.num, self.den) for m in p for a, _ in m}

    def vars(self) -> set:
        out = set()
        for a in self.atoms():
            out |= atom_vars(a)
        return out

    def subst(self, s: dict) -> "Rat":
        if not (self.vars() & set(s)):
            return self

        def poly(p: dict) -> Rat:
            out = Rat({})
            for m, c in p.items():
                t = Rat({(): c})
                for a, e in m:
                    b = sub_atom(a, s)
                    for _ in range(abs(e)):
                        t = t * b if e > 0 else t / b
                out = out + t
            return out

        return poly(self.num) / poly(self.den)


def _count(m: tuple) -> dict:
    d: dict = {}
    for a in m:
        d[a] = d.get(a, 0) + 1
    return d


def atom_vars(a) -> set:
    if isinstance(a, tuple) and a and a[0] == "@":
        return {a[1]}
    if isinstance(a, tuple) and a and a[0] == "sigma":
        return a[1].vars() - set(a[2])
    if isinstance(a, tuple):
        return {v for x in a for v in (x.vars() if isinstance(x, Rat) else atom_vars(x) if isinstance(x, tuple) else ())}
    return set()


def sub_atom(a, s: dict) -> Rat:
    if isinstance(a, tuple) and a:
        if a[0] == "@":
            return s.get(a[1], Rat.atom(a))
        if a[0] == "mod":
            return rmod(a[1].subst(s), a[2].subst(s))
        if a[0] == "sqrt":
            return rsqrt(a[1].subst(s))
        if a[0] == "sigma":
            body, ids = opened(a)
            return sigma(body.subst(s), ids)
        if a[0] == "delta":
            return delta(a[1].subst(s), a[2].subst(s))
        if atom_vars(a):
            return Rat.atom(tuple(x.subst(s) if isinstance(x, Rat) else tuple(y.subst(s) if isinstance(y, Rat) else y for y in x) if isinstance(x, tuple) else x for x in a))
    return Rat.atom(a)


def var(i: int) -> Rat:
    return Rat.atom(("@", i))


# ---------------------------------------------------------------- sums over an index
BOUND: dict = {}  # the names of summed indices, which are negative


def opened(a: tuple) -> tuple:
    """What is summed, with new names for the indices."""
    s, ids = {}, []
    for x in a[2]:
        i = next(COUNTER)
        LENGTH[i] = LENGTH[x]
        s[x] = var(i)
        ids.append(i)
    return a[1].subst(s), ids


def delta(a: Rat, b: Rat) -> Rat:
    d = a - b
    if d.const() is not None:
        return Rat.of(int(d.const() == 0))
    return Rat.atom(("delta", *sorted((a, b), key=repr)))


def single(r: Rat) -> int | None:
    if r.den == Rat.ONE and len(r.num) == 1:
        (m, c), = r.num.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "@":
            return m[0][0][1]
    return None


def holds_sum(a) -> bool:
    return isinstance(a, tuple) and bool(a) and (a[0] == "sigma" or any(holds_sum(z) for x in a[1:] if isinstance(x, Rat) for z in x.atoms()))


def sigma(r: Rat, ids: list) -> Rat:
    """The sum over all values of the indices; products of sums that share no index are kept apart."""
    if not ids:
        return r
    den = Rat(r.den)
    if den.vars() & set(ids):
        raise Undecided("sum of quotients")
    out = Rat.of(0)
    todo = [(m, c, list(ids)) for m, c in r.num.items()]
    while todo:
        m, c, over = todo.pop()
        factors: list = []
        again = None
        for a, e in m:
            kind = a[0] if isinstance(a, tuple) and a else None
            if not atom_vars(a) & set(over):
                factors.append((a, e))
            elif kind == "sigma" and e > 0:
                again = Rat.of(1)
                for _ in range(e):
                    body, more = opened(a)
                    again = again * body
                    over = over + more
                rest = Rat({norm_mono({x: y for x, y in m if x != a}): c})
                again = rest * again
                break
            elif kind == "delta" and e > 0:
                i = next((k for x, y in ((a[1], a[2]), (a[2], a[1])) for k in [single(x)] if k in over and k not in y.vars()), None)
                if i is None:
                    factors.append((a, 1))
                    continue
                other = a[2] if single(a[1]) == i else a[1]
                j = single(other)
                end = LENGTH[i].const()
                if other.const() is not None and end is not None:
                    if not 0 <= other.const() < end:
                        again = Rat.of(0)
                        break
                elif j is None or LENGTH[j] != LENGTH[i]:
                    raise Undecided("sum over a part of an index")
                rest = Rat({norm_mono({x: y for x, y in m if x != a}): c})
                again = rest.subst({i: other})
                over = [x for x in over if x != i]
                break
            elif holds_sum(a):
                raise Undecided("sum inside a sum")
            else:
                factors.append((a, e))
        if again is not None:
            if again.den != Rat.ONE:
                raise Undecided("sum of quotients")
            todo.extend((m2, c2, over) for m2, c2 in again.num.items())
            continue
        t = Rat({(): c})
        groups: list = []  # factors that share summed indices
        for a, e in factors:
            v = atom_vars(a) & set(over)
            if not v:
                t = t * Rat({((a, e),): Fraction(1)})
                continue
            fs = [(a, e)]
            for g in [g for g in groups if g[0] & v]:
                groups.remove(g)
                v, fs = v | g[0], fs + g[1]
            groups.append((v, fs))
        for i in over:
            if not any(i in g[0] for g in groups):
                t = t * LENGTH[i]
        for v, fs in groups:
            t = t * Rat.atom(closed(Rat({norm_mono(dict(fs)): Fraction(1)}), sorted(v)))
        out = out + t
    return out / den


def closed(r: Rat, ids: list) -> tuple:
    """A sum with fixed names for its indices."""
    best = None
    orders = itertools.permutations(ids) if len(ids) < 6 else [tuple(ids)]
    for order in orders:
        count: dict = {}
        s, names = {}, []
        for i in order:
            key = (repr(LENGTH[i].key()), count.get(repr(LENGTH[i].key()), 0))
            count[key[0]] = key[1] + 1
            if key not in BOUND:
                BOUND[key] = -1 - len(BOUND)
                LENGTH[BOUND[key]] = LENGTH[i]
            s[i] = var(BOUND[key])
            names.append(BOUND[key])
        q = r.subst(s)
        a = ("sigma", q, tuple(sorted(names)))
        if best is None or repr(q.key()) < repr(best[1].key()):
            best = a
    return best


LENGTH: dict = {}  # how far an index runs
WHOLE: set = set()  # atoms that are whole numbers, besides sizes and indices


def whole_mono(m: tuple) -> bool:
    return all(e > 0 and (isinstance(a, str) and a != "pi" or (isinstance(a, tuple) and (a[0] in ("@", "//", "%") or a[0] in WHOLE or (a[0] == "mod" and whole(a[1]) and whole(a[2]))))) for a, e in m)


def whole(r: Rat) -> bool:
    return r.den == Rat.ONE and all(c.denominator == 1 and whole_mono(m) for m, c in r.num.items())


def rmod(x: Rat, n: Rat) -> Rat:
    """x - n * floor(x / n) for n > 0, with multiples of n dropped."""
    if x.const() is not None and n.const():
        c, d = x.const(), n.const()
        return Rat({(): c % d} if c % d else {})
    # within a remainder by the same number the remainder can be left out
    changed = True
    while changed:
        changed = False
        if x.den != Rat.ONE:
            break
        for m, c in x.num.items():
            inner = next((a for a, e in m if e == 1 and isinstance(a, tuple) and a[0] == "mod" and a[2] == n), None)
            if inner is not None and c.denominator == 1 and whole_mono(tuple(y for y in m if y[0] != inner)):
                rest = Rat({tuple(y for y in m if y[0] != inner): c})
                x = x - Rat({m: c}) + rest * inner[1]
                changed = True
                break
    if x.den == Rat.ONE and n.den == Rat.ONE and n.num:
        lead = max(n.num, key=lambda m: (sum(e for _, e in m), repr(m)))
        cl = n.num[lead]
        for _ in range(20):
            for m, c in x.num.items():
                rest = mul_mono(m, tuple((k, -e) for k, e in lead))
                if any(e < 0 for _, e in rest) or not whole_mono(rest):
                    continue
                q = (c / cl).__floor__()
                if q:
                    x = x - n * Rat({rest: Fraction(q)})
                    break
            else:
                break
    if x.const() == 0:
        return x
    if x.const() is not None and n.const():
        return rmod(x, n)
    if x.den == Rat.ONE and len(x.num) == 1:
        (m, c), = x.num.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "@" and LENGTH.get(m[0][0][1]) == n:
            return x
    return Rat.atom(("mod", x, n))


def rfloor(x: Rat, n: Rat) -> Rat:
    return (x - rmod(x, n)) / n


POSITIVE: set = set()  # further atoms that are positive
SQUARES: list = []  # sizes with several terms, which are positive


def rsqrt(x: Rat) -> Rat:
    """The root of something positive, with squares of positive factors taken out."""
    if x.const() is not None:
        c = x.const()
        if c >= 0:
            root = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
            if root * root == c:
                return Rat({(): root} if root else {})
        return Rat.atom(("sqrt", x))
    if x.den != Rat.ONE:
        return rsqrt(Rat(x.num)) / rsqrt(Rat(x.den))
    out = Rat.of(1)
    num = x.num
    c = num[min(num, key=repr)]
    if c > 0 and c != 1:
        out = rsqrt(Rat({(): c}))
        num = {m: v / c for m, v in num.items()}
    first, *rest = [dict(m) for m in num]
    for a, e in first.items():
        if isinstance(a, str) or a in POSITIVE:
            low = min([e, *(m.get(a, 0) for m in rest)], key=abs) if all((m.get(a, 0) > 0) == (e > 0) and m.get(a, 0) for m in rest) else 0
            h = abs(low) // 2 * (1 if low > 0 else -1)
            if h:
                out = out * Rat({((a, h),): Fraction(1)})
                num = divide_poly(num, {((a, 2 * h),): Fraction(1)})
    for q in SQUARES:
        while len(num) > 1:
            d = divide_poly(num, mul_poly(q.num, q.num))
            if d is None:
                break
            num, out = d, out * q
    return out * Rat.atom(("sqrt", Rat(num))) if Rat(num).const() is None else out * rsqrt(Rat(num))


def show_a(a) -> str:
    if isinstance(a, tuple) and a:
        if a[0] == "@":
            return f"i{a[1]}"
        if a[0] == "mod":
            return f"(({show(a[1])}) mod ({show(a[2])}))"
        if a[0] == "sqrt":
            return f"sqrt({show(a[1])})"
        if a[0] == "sigma":
            return f"sum({show(a[1])} over {', '.join(f'i{x}' for x in a[2])})"
        if a[0] == "delta":
            return f"({show(a[1])} is {show(a[2])})"
        if a[0] == "fn":
            return f"{a[1]}({show(a[2])})"
        if a[0] == "unit":
            return "i"
        if a[0] == "const":
            return str(a[1])
        if a[0] == "given":
            return f"{a[1]}[{', '.join(show(x) for x in a[2])}]" if a[2] else str(a[1])
        return ".".join(str(x) for x in a)
    return str(a)


def show(r: Rat) -> str:
    def poly(p: dict) -> str:
        out = []
        for m, c in sorted(p.items(), key=repr):
            s = "*".join(show_a(a) + (f"^{e}" if e != 1 else "") for a, e in m)
            out.append(str(c) if not s else s if c == 1 else f"{c}*{s}")
        return " + ".join(out) or "0"

    s = poly(r.num) if r.den == Rat.ONE else f"({poly(r.num)}) / ({poly(r.den)})"
    return s if len(s) < 260 else s[:260] + "..."


# ---------------------------------------------------------------- arrays
class Sym:
    """dims: int (components) or tuple of index numbers (a grid); vals: one expression per choice of components."""

    def __init__(self, dims: list, vals: dict) -> None:
        self.dims = list(dims)
        self.vals = vals

    @staticmethod
    def grid(n, f=None) -> "Sym":
        i = next(COUNTER)
        LENGTH[i] = Rat.of(n)
        return Sym([(i,)], {(): f(var(i)) if f else var(i)})

    def comps(self) -> list:
        return [d for d in self.dims if isinstance(d, int)]

    def keys(self):
        return itertools.product(*(range(d) for d in self.comps()))

    def map(self, f) -> "Sym":
        return Sym(self.dims, {k: f(v) for k, v in self.vals.items()})

    def size(self, i: int) -> Rat:
        d = self.dims[i]
        if isinstance(d, int):
            return Rat.of(d)
        out = Rat.of(1)
        for x in d:
            out = out * LENGTH[x]
        return out

    def rename(self) -> "Sym":
        s = {}
        dims = []
        for d in self.dims:
            if isinstance(d, tuple):
                new = []
                for x in d:
                    i = next(COUNTER)
                    LENGTH[i] = LENGTH[x]
                    s[x] = var(i)
                    new.append(i)
                d = tuple(new)
            dims.append(d)
        return Sym(dims, {k: v.subst(s) for k, v in self.vals.items()})

    def scalar(self):
        return self.vals[()] if not self.dims else self

    def __repr__(self) -> str:
        dims = ", ".join(str(d) if isinstance(d, int) else "*".join(show(LENGTH[x]) for x in d) for d in self.dims)
        vals = "; ".join(show(v) for v in list(self.vals.values())[:3])
        return f"shape ({dims}) of {vals}"


class Mask(Sym):
    """Truth values, as numbers."""


def lift(v) -> Sym:
    if isinstance(v, Sym):
        return v
    if isinstance(v, (list, tuple)):
        return stack([lift(x) for x in v])
    return Sym([], {(): Rat.of(v)})


# ---------------------------------------------------------------- witnesses
def number(*key) -> Fraction:
    """A fixed generic number for an unknown."""
    h = 0
    for c in repr(key):
        h = (h * 131 + ord(c)) % 1000003
    return Fraction(h % 977 + 3, h % 61 + 7)


class Values:
    def __init__(self, sizes: dict, whole_: int) -> None:
        self.sizes = sizes
        self.whole = whole_
        self.at: dict = {}

    def total(self, a: tuple):
        out = Fraction(0)
        for at in itertools.product(*(range(int(self.rat(LENGTH[x]))) for x in a[2])):
            before = {x: self.at.get(x) for x in a[2]}
            self.at.update(zip(a[2], map(Fraction, at)))
            try:
                out = out + self.rat(a[1])
            finally:
                self.at.update(before)
        return out

    def rat(self, r: Rat):
        return self.poly(r.num) / self.poly(r.den)

    def poly(self, p: dict):
        out = Fraction(0)
        for m, c in p.items():
            t = c
            for a, e in m:
                v = self.atom(a)
                if e < 0 and v == 0:
                    raise Undecided("division by zero")
                t = t * v**e
            out = out + t
        return out

    def atom(self, a):
        if isinstance(a, str):
            return Fraction(355, 113) if a == "pi" else self.sizes[a]
        if a[0] == "@":
            return self.at[a[1]]
        if a[0] == "mod":
            x, n = self.rat(a[1]), self.rat(a[2])
            if isinstance(x, float) or isinstance(n, float):
                q = float(x) / float(n)
                if abs(q - round(q)) < 1e-7:
                    raise Undecided("on the edge")
                return float(x) - float(n) * math.floor(q)
            return x - n * math.floor(x / n)
        if a[0] == "sum":  # sequences of sums are equal when the sequences are
            return self.rat(a[1])
        if a[0] == "sqrt":
            v = self.rat(a[1])
            return cmath.sqrt(v) if isinstance(v, complex) else float(v) ** 0.5
        if a[0] == "sigma":
            return self.total(a)
        if a[0] == "delta":
            return Fraction(int(self.rat(a[1]) == self.rat(a[2])))
        if a[0] == "fn":
            return getattr(cmath, a[1])(self.rat(a[2]))
        if a[0] == "unit":
            return 1j
        if a[0] == "const":
            return number("constant", a[1])
        if a[0] == "less":
            return Fraction(int(self.rat(a[1]) < self.rat(a[2])))
        if a[0] == "whole":
            return Fraction(int(number(*a[1:]) * 7) * 3 % 41 - 20 + self.whole)
        if a[0] == "given":
            at = [self.rat(x) for x in a[2]]
            name = a[1].rstrip("*")
            if name in COMPLEX:
                v = complex(float(number(name, 1, *at)), float(number(2, name, *at)))
                return v.conjugate() if name != a[1] else v
            return number(a[1], *at)
        raise Undecided("value")


COMPLEX: set = set()  # names of unknowns that are not real

SIZES = [(4, 3, 2, 1), (5, 4, 1, 3), (3, 5, 2, 1), (6, 7, 4, 3), (2, 3, 1, 2)]


def atoms_of(r: Rat) -> set:
    out = set()
    todo = list(r.atoms())
    while todo:
        a = todo.pop()
        if isinstance(a, tuple) and a and a[0] == "sigma":
            todo.extend(x for x in atoms_of(a[1]) if not (isinstance(x, tuple) and x[0] == "@" and x[1] < 0))
            todo.extend(z for x in a[2] for z in LENGTH[x].atoms())
        elif isinstance(a, tuple):
            for x in a[1:]:
                if isinstance(x, Rat):
                    todo.extend(x.atoms())
                elif isinstance(x, tuple):
                    todo.extend(z for y in x if isinstance(y, Rat) for z in y.atoms())
            if a[0] == "@":
                todo.extend(LENGTH[a[1]].atoms())
        out.add(a)
    return out


def witness(test, *rs: Rat) -> str | None:
    """Sizes and indices for which the values do not pass the test."""
    atoms = set().union(*(atoms_of(r) for r in rs))
    names = sorted(a for a in atoms if isinstance(a, str) and a != "pi")
    ids = sorted(a[1] for a in atoms if isinstance(a, tuple) and a[0] == "@")
    for n, pick in enumerate(SIZES):
        vals = Values({a: Fraction(pick[j % len(pick)]) for j, a in enumerate(names)}, n)
        try:
            lengths = [int(vals.rat(LENGTH[i])) for i in ids]
        except (Undecided, ZeroDivisionError, KeyError):
            continue
        for at in itertools.islice(itertools.product(*(range(max(0, x)) for x in lengths)), 600):
            vals.at = dict(zip(ids, map(Fraction, at)))
            try:
                if not test(*(vals.rat(r) for r in rs)):
                    return ", ".join([f"{a} = {vals.sizes[a]}" for a in names] + [f"index {v} of {x}" for v, x in zip(at, lengths)])
            except (Undecided, ZeroDivisionError, KeyError):
                continue
    return None


def close(a, b) -> bool:
    if isinstance(a, complex) or isinstance(b, complex):
        return abs(complex(a) - complex(b)) <= 1e-9 * max(1.0, abs(complex(a)))
    if isinstance(a, float) or isinstance(b, float):
        return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)))
    return a == b


def certainly(a: Rat, b: Rat) -> bool:
    """Whether two sizes differ; not known when they only look different."""
    if a == b:
        return False
    if witness(close, a, b) is None:
        raise Undecided("sizes")
    return True


def align(one: tuple, two: tuple, vals: dict) -> tuple:
    """Names the indices of the second grid like those of the first."""
    if len(one) != len(two):
        n1 = n2 = Rat.of(1)
        for x in one:
            n1 = n1 * LENGTH[x]
        for x in two:
            n2 = n2 * LENGTH[x]
        if certainly(n1, n2):
            raise Broken(f"{show(n1)} and {show(n2)} values are combined")
        if len(two) == 1:  # a flat index over a product
            s = {two[0]: flat(one)}
            return one, {k: v.subst(s) for k, v in vals.items()}
        raise Undecided("grids")
    for x, y in zip(one, two):
        if certainly(LENGTH[x], LENGTH[y]):
            raise Broken(f"a grid of {show(LENGTH[x])} is combined with one of {show(LENGTH[y])}")
    s = {y: var(x) for x, y in zip(one, two)}
    return one, {k: v.subst(s) for k, v in vals.items()}


def flat(ids: tuple) -> Rat:
    out = Rat.of(0)
    for i in ids:
        out = out * LENGTH[i] + var(i)
    return out


def stack(vs: list) -> Sym:
    if not vs:
        return Sym([0], {})
    first = vs[0].rename()
    out = {}
    for j, v in enumerate(vs):
        v = first if j == 0 else like(first, v)
        for k, x in v.vals.items():
            out[(j, *k)] = x
    return Sym([len(vs), *first.dims], out)


def like(a: Sym, b: Sym) -> Sym:
    """b with the grid indices of a; the shapes have to agree."""
    if len(a.dims) != len(b.dims):
        raise Undecided("ragged")
    b = b.rename()
    vals = b.vals
    for x, y in zip(a.dims, b.dims):
        if isinstance(x, int) or isinstance(y, int):
            if x != y:
                raise Undecided("ragged")
            continue
        _, vals = align(x, y, vals)
    return Sym(a.dims, vals)


def combine(f, a: Sym, b: Sym) -> Sym:
    n = max(len(a.dims), len(b.dims))
    a, b = a.rename(), b.rename()
    da, db = [1] * (n - len(a.dims)) + a.dims, [1] * (n - len(b.dims)) + b.dims
    ka = {(0,) * (sum(isinstance(d, int) for d in da) - len(a.comps())) + k: v for k, v in a.vals.items()}
    kb = {(0,) * (sum(isinstance(d, int) for d in db) - len(b.comps())) + k: v for k, v in b.vals.items()}
    dims: list = []
    for x, y in zip(da, db):
        if x == 1:
            dims.append(y)
        elif y == 1:
            dims.append(x)
        elif isinstance(x, int) and isinstance(y, int):
            if x != y:
                raise Broken(f"{x} and {y} components are combined")
            dims.append(x)
        elif isinstance(x, int) or isinstance(y, int):
            raise Undecided("components of a grid")
        else:
            if len(y) > len(x) == 1:
                _, ka = align(y, x, ka)
                dims.append(y)
            else:
                _, kb = align(x, y, kb)
                dims.append(x)
    out = {}
    for k in itertools.product(*(range(d) for d in dims if isinstance(d, int))):
        i = iter(k)
        ia, ib = [], []
        for d, x, y in zip(dims, da, db):
            v = next(i) if isinstance(d, int) else 0
            if isinstance(x, int):
                ia.append(v if x != 1 else 0)
            if isinstance(y, int):
                ib.append(v if y != 1 else 0)
        out[k] = f(ka[tuple(ia)], kb[tuple(ib)])
    return Sym(dims, out)


def matrix_of(a: Sym) -> list:
    if len(a.dims) != 2 or not all(isinstance(d, int) for d in a.dims):
        raise Undecided("matrix")
    return [[a.vals[i, j] for j in range(a.dims[1])] for i in range(a.dims[0])]


def det(m: list) -> Rat:
    if len(m) == 1:
        return m[0][0]
    out = Rat.of(0)
    for j in range(len(m)):
        t = m[0][j] * det([[r[c] for c in range(len(m)) if c != j] for r in m[1:]])
        out = out + t if j % 2 == 0 else out - t
    return out


def inverse(m: list) -> list:
    n = len(m)
    if any(len(r) != n for r in m):
        raise Broken("a matrix that is not square is inverted")
    d = det(m)
    if n == 1:
        return [[Rat.of(1) / d]]
    out = [[Rat.of(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            c = det([[m[a][b] for b in range(n) if b != j] for a in range(n) if a != i])
            out[j][i] = (c if (i + j) % 2 == 0 else -c) / d
    return out


# ---------------------------------------------------------------- the interpreter
class Store(Buffer):
    """Zeros that are filled row by row."""

    def __init__(self, sym: Sym) -> None:
        self.sym = sym
        self.shape = sym.dims
        self.written = None

    def value(self):
        return self.sym


class GridMachine(Machine):
    def __init__(self, project: Project) -> None:
        super().__init__(project)
        self.strict = False
        self.open: set = set()  # properties that are being worked out

    def inst_attr(self, o: Inst, a: str, after: Class | None):
        g = None if after is not None or a in o.attrs else self.p.find_method(o.cls, a)
        if g is None or not g.is_property:
            return super().inst_attr(o, a, after)
        if (id(o), a) in self.open:
            raise Broken(f"`{a}` needs itself")
        self.open.add((id(o), a))
        try:
            return super().inst_attr(o, a, after)
        finally:
            self.open.discard((id(o), a))

    @staticmethod
    def is_num(v) -> bool:
        return isinstance(v, (Rat, Sym, Store)) or (isinstance(v, Ext) and (v.name.endswith(".pi") or v.name.startswith("scipy.constants.")))

    def binop(self, op, a, b):
        if isinstance(a, Store):
            a = a.sym
        if isinstance(b, Store):
            b = b.sym
        if isinstance(op, ast.MatMult):
            return self.np_matmul([a, b], {})
        mine = self.is_num(a) or self.is_num(b)
        if not mine and isinstance(op, (ast.Div, ast.Pow)) and any(isinstance(x, (Poly, Opaque)) for x in (a, b)):
            mine = True
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)) and isinstance(op, ast.Div):
            mine = True
        if not mine:
            return super().binop(op, a, b)
        f = {
            ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.Div: lambda x, y: x / y,
            ast.Mod: rmod, ast.FloorDiv: rfloor, ast.Pow: power,
        }.get(type(op))
        if f is None:
            raise Undecided("operator")
        r = combine(f, lift(a), lift(b))
        return r.scalar()

    def ev(self, e: ast.expr, env: dict, f, m=None):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = super().ev(e.operand, env, f, m)
            if self.is_num(v):
                return lift(v).map(lambda x: -x).scalar()
        if isinstance(e, ast.Dict) and all(k is not None for k in e.keys):
            return {self.ev(k, env, f, m): self.ev(v, env, f, m) for k, v in zip(e.keys, e.values)}
        return super().ev(e, env, f, m)

    def assign(self, t, v, env, f) -> None:
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, f)
            if isinstance(o, Store):
                self.fill(o, self.ev(t.slice, env, f), v)
                return
            if isinstance(o, dict):
                o[self.ev(t.slice, env, f)] = v
                return
        super().assign(t, v, env, f)

    def fill(self, o: Store, i, v) -> None:
        i = self.as_int(i)
        v = lift(v)
        if not isinstance(o.sym.dims[0], int) or len(v.dims) > len(o.sym.dims) - 1:
            raise Undecided("store")
        row = Sym(o.sym.dims[1:], {k[1:]: x for k, x in o.sym.vals.items() if k[0] == i % o.sym.dims[0]})
        new = combine(lambda _x, y: y, row, v)
        new = like(row, new)
        for k, x in new.vals.items():
            o.sym.vals[(i % o.sym.dims[0], *k)] = x

    @staticmethod
    def as_int(i) -> int:
        if isinstance(i, Sym) and not i.dims:
            i = i.vals[()]
        if isinstance(i, Rat):
            c = i.const()
            if c is not None and c.denominator == 1:
                return int(c)
            raise Undecided("index")
        return Machine.as_int(i)

    def truth(self, v) -> bool:
        if isinstance(v, Rat) and v.const() is not None:
            return bool(v.const())
        return super().truth(v)

    def iterate(self, v):
        if isinstance(v, Store):
            v = v.sym
        if isinstance(v, Sym):
            if not v.dims or not isinstance(v.dims[0], int):
                raise Undecided("iteration over a grid")
            return tuple(Sym(v.dims[1:], {k[1:]: x for k, x in v.vals.items() if k[0] == j}).scalar() for j in range(v.dims[0]))
        return super().iterate(v)

    def isinstance_(self, o, c) -> bool:
        if isinstance(o, (Rat, Sym)):
            if isinstance(c, tuple):
                return any(self.isinstance_(o, x) for x in c)
            if isinstance(c, Class):
                return False
            if isinstance(c, Ext) and c.name.split(".")[-1] in ("tuple", "list", "str", "slice", "dict", "Sequence"):
                return False
            if isinstance(c, Ext) and c.name == "numpy.ndarray":
                return isinstance(o, Sym)
            raise Undecided("isinstance")
        return super().isinstance_(o, c)

    def equal(self, a, b) -> bool:
        if isinstance(a, (Rat, Sym)) or isinstance(b, (Rat, Sym)):
            x, y = lift(a), lift(b)
            if not x.dims and not y.dims:
                d = x.vals[()] - y.vals[()]
                if d.const() is not None:
                    return d.const() == 0
            raise Undecided("equality")
        return super().equal(a, b)

    def compare(self, e, env, f, m):
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
            a, b = self.ev(e.left, env, f, m), self.ev(e.comparators[0], env, f, m)
            got = any(self.equal(a, x) for x in self.iterate(b))
            return got == isinstance(e.ops[0], ast.In)
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
            a, b = self.ev(e.left, env, f, m), self.ev(e.comparators[0], env, f, m)
            if a is None or b is None:
                return (a is b) == isinstance(e.ops[0], ast.Is)
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            a, b = self.ev(e.left, env, f, m), self.ev(e.comparators[0], env, f, m)
            if any(isinstance(x, (Sym, Store)) and lift(x.sym if isinstance(x, Store) else x).dims for x in (a, b)):
                if isinstance(e.ops[0], (ast.Gt, ast.LtE)):
                    a, b = b, a
                r = combine(lambda x, y: Rat.atom(("less", x, y)), lift(a), lift(b))
                if isinstance(e.ops[0], (ast.LtE, ast.GtE)):
                    r = r.map(lambda x: Rat.of(1) - x)
                return Mask(r.dims, r.vals)
        return super().compare(e, env, f, m)

    # ---- attributes and items
    def attribute(self, o, a: str):
        if isinstance(o, Store):
            o = o.sym
        if isinstance(o, Rat):
            o = Sym([], {(): o})
            if a in ("real", "T"):
                return o.scalar()
        if isinstance(o, Sym):
            if a == "shape":
                return tuple(d if isinstance(d, int) else to_int(o.size(i)) for i, d in enumerate(o.dims))
            if a == "ndim":
                return len(o.dims)
            if a == "size":
                out = Rat.of(1)
                for i in range(len(o.dims)):
                    out = out * o.size(i)
                return to_int(out)
            if a == "T":
                return self.transposed(o, list(range(len(o.dims)))[::-1])
            if a == "real":
                return o
            if a == "dtype":
                return Opaque(("dtype",))
            return ExtMethod(o, a)
        if isinstance(o, dict):
            return ExtMethod(o, a)
        return super().attribute(o, a)

    def transposed(self, o: Sym, order: list) -> Sym:
        order = [self.as_int(i) % len(o.dims) for i in order]
        if sorted(order) != list(range(len(o.dims))):
            raise Broken("not a permutation of the axes")
        comp = [i for i, d in enumerate(o.dims) if isinstance(d, int)]
        new = [i for i in order if i in comp]
        return Sym([o.dims[i] for i in order], {tuple(k[comp.index(i)] for i in new): v for k, v in o.vals.items()})

    def subscript(self, o, i):
        if isinstance(o, Store):
            o = o.sym
        if isinstance(o, dict):
            if i not in o:
                raise Undecided("key")
            return o[i]
        if isinstance(o, Sym):
            return self.index(o, i)
        if isinstance(o, (tuple, list)) and isinstance(i, Sym) and not i.dims:
            i = self.as_int(i)
        return super().subscript(o, i)

    def index(self, o: Sym, i):
        idx = list(i) if isinstance(i, (tuple, list)) else [i]
        if any(isinstance(x, Mask) for x in idx):
            raise Undecided("mask")
        n = sum(1 for x in idx if not self.new_axis(x) and x is not Ellipsis)
        if Ellipsis in [x for x in idx if isinstance(x, type(Ellipsis))]:
            at = next(j for j, x in enumerate(idx) if x is Ellipsis)
            idx = [*idx[:at], *([slice(None)] * (len(o.dims) - n)), *idx[at + 1:]]
        else:
            idx += [slice(None)] * (len(o.dims) - n)
        if sum(1 for x in idx if not self.new_axis(x)) != len(o.dims):
            raise Broken("too many indices")
        dims: list = []
        picks: list = []  # per component axis of o: list of kept positions, and whether the axis stays
        s: dict = {}
        it = iter(o.dims)
        plan = []
        for x in idx:
            if self.new_axis(x):
                dims.append(1)
                plan.append(("new",))
                continue
            d = next(it)
            if isinstance(d, int):
                if isinstance(x, slice):
                    kept = list(range(d))[slice(*(None if y is None else self.as_int(y) for y in (x.start, x.stop, x.step)))]
                    dims.append(len(kept))
                    plan.append(("keep", kept))
                elif isinstance(x, (list, tuple, Row)) or (isinstance(x, Sym) and len(x.dims) == 1 and isinstance(x.dims[0], int)):
                    kept = [self.as_int(y) for y in self.iterate(x)]
                    if sum(isinstance(y, (list, tuple, Row, Sym)) for y in idx) > 1:
                        raise Undecided("several index arrays")
                    dims.append(len(kept))
                    plan.append(("keep", [y % d for y in kept]))
                else:
                    v = self.as_int(x)
                    if not -d <= v < d:
                        raise Broken(f"component {v} of {d} is taken")
                    plan.append(("one", v % d))
                continue
            if isinstance(x, slice):
                if x.start in (None, 0) and x.stop is None and x.step in (None, 1):
                    dims.append(d)
                else:
                    dims.append(self.part(d, x, s))
                continue
            if isinstance(x, (list, tuple)):
                raise Undecided("index array")
            v = lift(x)
            if v.dims:
                raise Undecided("index array")
            v = v.vals[()]
            if v.const() is not None and v.const() < 0:
                n_ = Rat.of(1)
                for y in d:
                    n_ = n_ * LENGTH[y]
                v = v + n_
            if len(d) == 1:
                s[d[0]] = v
            else:
                for y in d[::-1]:
                    s[y] = rmod(v, LENGTH[y]) if y != d[0] else v
                    v = rfloor(v, LENGTH[y])
        out = {}
        comp_plan = [x for x in plan]
        for k in itertools.product(*(range(len(x[1])) if x[0] == "keep" else range(1) for x in comp_plan)):
            src, dst = [], []
            for x, j in zip(comp_plan, k):
                if x[0] == "keep":
                    src.append(x[1][j])
                    dst.append(j)
                elif x[0] == "one":
                    src.append(x[1])
                else:
                    dst.append(0)
            out[tuple(dst)] = o.vals[tuple(src)].subst(s)
        return Sym(dims, out).scalar()

    def part(self, d: tuple, x: slice, s: dict) -> tuple:
        if len(d) != 1:
            raise Undecided("slice of a product grid")
        n = LENGTH[d[0]]
        step = Rat.of(1 if x.step is None else x.step)
        start = Rat.of(0 if x.start is None else x.start)
        if start.const() is not None and start.const() < 0:
            start = start + n
        if x.stop is None:
            length = n - start
        else:
            stop = Rat.of(x.stop)
            if stop.const() is not None and stop.const() < 0:
                stop = stop + n
            elif stop.const() is None and stop != n:
                raise Undecided("slice")
            length = stop - start
        if step != Rat.of(1):
            whole_ = n / step
            if x.stop is None and whole(whole_):
                length = whole_  # the start is less than the step
            else:
                length = length / step
                if not whole(length):
                    raise Undecided("slice")
        i = next(COUNTER)
        LENGTH[i] = length
        s[d[0]] = start + var(i) * step
        return (i,)

    @staticmethod
    def new_axis(x) -> bool:
        return x is None or (isinstance(x, Ext) and x.name == "numpy.newaxis")

    # ---- calls
    def external(self, name: str, args: list, kw: dict):
        args = [a.sym if isinstance(a, Store) else a for a in args]
        if name == "copy.deepcopy" or name == "copy.copy":
            return args[0]
        if name.startswith("operator."):
            short = name.split(".")[1]
            op = {"mul": ast.Mult(), "add": ast.Add(), "sub": ast.Sub(), "truediv": ast.Div(), "floordiv": ast.FloorDiv(), "mod": ast.Mod()}.get(short)
            if op is not None:
                return self.binop(op, *args)
        if name == "math.prod":
            return self.np_prod(args, kw)
        if name in ("math.sqrt",):
            return self.np_sqrt(args, kw)
        if name.startswith("numpy.linalg.") or name.startswith("scipy.linalg."):
            g = getattr(self, "la_" + name.split(".")[-1], None)
            if g is None:
                raise Undecided(name)
            return g(*understood(name, args, kw))
        if name.startswith("numpy.fft."):
            g = getattr(self, "ft_" + name.split(".")[-1], None)
            if g is None:
                raise Undecided(name)
            return g(args, kw)
        if name in ("numpy.float64", "numpy.int_", "numpy.int64", "numpy.complex128", "builtins.float", "builtins.complex") and args:
            return args[0]
        return super().external(name, args, kw)

    def builtin(self, n: str, args, kw):
        if n == "abs" and args and self.is_num(args[0]):
            raise Undecided("abs")
        if n == "sum" and args:
            vs = self.iterate(args[0])
            if any(self.is_num(v) for v in vs):
                out = lift(0)
                for v in vs:
                    out = combine(lambda x, y: x + y, out, lift(v))
                return out.scalar()
        if n == "divmod" and any(self.is_num(a) for a in args):
            return (self.binop(ast.FloorDiv(), *args), self.binop(ast.Mod(), *args))
        if n == "int" and args and isinstance(args[0], (Rat, Sym)):
            v = lift(args[0])
            if not v.dims and whole(v.vals[()]):
                return to_int(v.vals[()])
            raise Undecided("int")
        if n == "sum" and len(args) == 1 and isinstance(args[0], (list, tuple)) and args[0] and all(isinstance(x, bool) for x in args[0]):
            return sum(args[0])
        if n == "len" and isinstance(args[0], Sym):
            return self.attribute(args[0], "shape")[0]
        if n == "dict":
            raise Undecided("dict")
        return super().builtin(n, args, kw)

    def np_array(self, args, kw):
        v = args[0]
        if isinstance(v, (Sym, Rat)):
            return v
        if isinstance(v, (tuple, list)):
            return lift(v)
        return lift(v) if isinstance(v, (int, float, Poly)) else super().np_array(args, kw)

    np_asarray = np_ascontiguousarray = np_copy = np_atleast_1d = np_array

    def np_stack(self, args, kw):
        if kw.get("axis", args[1] if len(args) > 1 else 0) != 0:
            raise Undecided("stack")
        return lift(list(self.iterate(args[0])))

    def np_arange(self, args, kw):
        vs = [Rat.of(a) for a in args[:3]]
        start = Rat.of(0) if len(vs) == 1 else vs[0]
        stop = vs[0] if len(vs) == 1 else vs[1]
        step = Rat.of(1) if len(vs) < 3 else vs[2]
        n = (stop - start) / step
        if n.const() is not None:
            c = n.const()
            k = -((-c) // 1)
            return lift([start + step * j for j in range(max(0, int(k)))])
        if not whole(n):
            n = n + rmod(-n, Rat.of(1))
        return Sym.grid(n, lambda i: start + step * i)

    def np_linspace(self, args, kw):
        names = ("start", "stop", "num", "endpoint")
        a = dict(zip(names, args)) | kw
        n, end = Rat.of(a.get("num", 50)), a.get("endpoint", True)
        if a.get("retstep") or n.const() is not None:
            raise Undecided("linspace")
        lo, hi = Rat.of(a["start"]), Rat.of(a["stop"])
        gaps = n - 1 if self.truth(end) else n
        return Sym.grid(n, lambda i: lo + (hi - lo) * i / gaps)

    def np_zeros(self, args, kw):
        s = args[0] if args else kw.get("shape")
        dims = [self.as_int(x) for x in (self.iterate(s) if isinstance(s, (tuple, list)) else (s,))]
        return Store(Sym(dims, {k: Rat.of(0) for k in itertools.product(*(range(d) for d in dims))}))

    def np_cumsum(self, args, kw):
        a = lift(args[0])
        if len(a.dims) != 1 or isinstance(a.dims[0], int):
            raise Undecided("cumsum")
        return a.map(lambda x: Rat.atom(("sum", x)))

    def np_insert(self, args, kw):
        a, at, v = lift(args[0]), Rat.of(args[1]), Rat.of(args[2])
        if len(a.dims) != 1 or isinstance(a.dims[0], int) or len(a.dims[0]) != 1 or at.const() != 0 or v.const() != 0 or kw.get("axis") is not None:
            raise Undecided("insert")
        i = next(COUNTER)
        LENGTH[i] = a.size(0) + 1
        return Sym([(i,)], {(): Rat.atom(("sum", a.vals[()].subst({a.dims[0][0]: var(i)})))})

    def np_eye(self, args, kw):
        n = self.as_int(args[0] if args else kw["N"])
        m = self.as_int(args[1]) if len(args) > 1 and args[1] is not None else n
        return Sym([n, m], {(i, j): Rat.of(int(i == j)) for i in range(n) for j in range(m)})

    np_identity = np_eye

    def np_zeros_like(self, args, kw):
        out = lift(args[0]).map(lambda _: Rat.of(0))
        return Store(out) if out.dims and isinstance(out.dims[0], int) else out

    def np_where(self, args, kw):
        if len(args) != 3 or not isinstance(args[0], Mask):
            raise Undecided("where")
        return self.binop(ast.Add(), self.binop(ast.Mult(), args[0], args[1]), self.binop(ast.Mult(), self.binop(ast.Sub(), 1, args[0]), args[2]))

    def np_ones(self, args, kw):
        s = self.np_zeros(args, kw).sym
        return s.map(lambda _: Rat.of(1))

    np_empty = np_zeros
    np_empty_like = np_zeros_like

    def np_ones_like(self, args, kw):
        return lift(args[0]).map(lambda _: Rat.of(1))

    def np_vdot(self, args, kw):
        if any(len(lift(a).dims) != 1 for a in args[:2]):
            raise Undecided("vdot")
        return self.np_dot(args, kw)

    def np_indices(self, args, kw):
        if kw.get("sparse"):
            raise Undecided("indices")
        sizes = [Rat.of(x) for x in self.iterate(args[0])]
        if any(n.const() is not None for n in sizes):
            raise Undecided("indices")
        return lift(self.np_meshgrid([Sym.grid(n) for n in sizes], {"indexing": "ij"}))

    def np_diff(self, args, kw):
        a = lift(args[0]).rename()
        axis = self.as_int(kw.get("axis", args[2] if len(args) > 2 else -1)) % len(a.dims)
        if kw.get("n", args[1] if len(args) > 1 else 1) != 1 or isinstance(a.dims[axis], int) or len(a.dims[axis]) != 1:
            raise Undecided("diff")
        (old,) = a.dims[axis]
        i = next(COUNTER)
        LENGTH[i] = LENGTH[old] - 1
        dims = [*a.dims[:axis], (i,), *a.dims[axis + 1:]]
        return Sym(dims, {k: v.subst({old: var(i) + 1}) - v.subst({old: var(i)}) for k, v in a.vals.items()})

    def np_concatenate(self, args, kw):
        vs = [lift(x) for x in self.iterate(args[0])]
        axis = self.as_int(kw.get("axis", args[1] if len(args) > 1 else 0))
        if len(vs) == 2 and all(len(v.dims) == 1 for v in vs) and vs[0].dims == [1] and vs[0].vals[0,].const() == 0:
            return self.np_insert([vs[1], 0, 0], {})
        if axis != 0 or any(not v.dims or not isinstance(v.dims[0], tuple) or len(v.dims[0]) != 1 or len(v.dims) != 1 for v in vs):
            raise Undecided("concatenate")
        out = vs[0]
        for v in vs[1:]:
            i = next(COUNTER)
            a, b = out.size(0), v.size(0)
            LENGTH[i] = a + b
            first = Rat.atom(("less", var(i), a))
            out = Sym([(i,)], {(): first * out.vals[()].subst({out.dims[0][0]: var(i)}) + (Rat.of(1) - first) * v.vals[()].subst({v.dims[0][0]: var(i) - a})})
        return out

    np_hstack = np_concatenate

    def np_meshgrid(self, args, kw):
        vs = [lift(a).rename() for a in args]
        if any(len(v.dims) != 1 for v in vs):
            raise Undecided("meshgrid")
        if any(isinstance(v.dims[0], int) for v in vs):
            if not all(isinstance(v.dims[0], int) for v in vs) or kw.get("indexing", "xy") != "ij" or kw.get("sparse"):
                raise Undecided("meshgrid")
            dims = [v.dims[0] for v in vs]
            return [Sym(dims, {k: v.vals[k[i],] for k in itertools.product(*map(range, dims))}) for i, v in enumerate(vs)]
        order = list(range(len(vs)))
        if kw.get("indexing", "xy") == "xy" and len(vs) > 1:
            order[0], order[1] = order[1], order[0]
        if kw.get("sparse"):
            raise Undecided("meshgrid")
        dims = [vs[i].dims[0] for i in order]
        return [Sym(dims, {(): v.vals[()]}) for v in vs]

    def np_ravel(self, args, kw):
        return self.method(lift(args[0]), "ravel", [], kw)

    def np_reshape(self, args, kw):
        return self.method(lift(args[0]), "reshape", args[1:], kw)

    def np_transpose(self, args, kw):
        o = lift(args[0])
        axes = args[1] if len(args) > 1 else kw.get("axes")
        return self.transposed(o, list(self.iterate(axes)) if axes is not None else list(range(len(o.dims)))[::-1])

    def np_argsort(self, args, kw):
        vs = [self.as_int(x) for x in self.iterate(args[0])]
        return lift(sorted(range(len(vs)), key=lambda j: vs[j]))

    def np_prod(self, args, kw):
        out = Rat.of(1)
        for x in self.iterate(args[0]):
            out = out * Rat.of(x)
        return to_int(out)

    def np_sum(self, args, kw):
        return self.method(lift(args[0]), "sum", args[1:], kw)

    def np_sqrt(self, args, kw):
        return lift(args[0]).map(rsqrt).scalar()

    def np_square(self, args, kw):
        return self.binop(ast.Mult(), args[0], args[0])

    def np_real(self, args, kw):
        return args[0]

    def np_mod(self, args, kw):
        return combine(rmod, lift(args[0]), lift(args[1])).scalar()

    np_remainder = np_mod

    def np_floor(self, args, kw):
        return lift(args[0]).map(lambda x: rfloor(x, Rat.of(1))).scalar()

    def np_floor_divide(self, args, kw):
        return self.binop(ast.FloorDiv(), args[0], args[1])

    def _bin(op):  # noqa: N805
        return lambda self, args, kw: self.binop(op, args[0], args[1])

    np_multiply, np_add, np_subtract, np_divide, np_true_divide = _bin(ast.Mult()), _bin(ast.Add()), _bin(ast.Sub()), _bin(ast.Div()), _bin(ast.Div())
    del _bin

    def np_rint(self, args, kw):
        v = lift(args[0])
        if all(whole(x) for x in v.vals.values()):
            return args[0]
        raise Undecided("rint")

    np_round = np_around = np_rint

    def np_roll(self, args, kw):
        a = lift(args[0])
        shift = args[1] if len(args) > 1 else kw.get("shift")
        axis = args[2] if len(args) > 2 else kw.get("axis")
        if axis is None:
            if len(a.dims) != 1:
                raise Undecided("roll")
            axis = 0
        if isinstance(axis, (tuple, list)):
            many = list(shift) if isinstance(shift, (tuple, list)) else [shift] * len(axis)
            if len(many) != len(axis):
                raise Undecided("roll")
            for x, by in zip(axis, many):
                a = self.shifted(a, x, Rat.of(by))
            return a
        return self.shifted(a, axis, Rat.of(shift))

    def shifted(self, a: Sym, axis, by: Rat) -> Sym:
        axis = self.as_int(axis) % len(a.dims)
        a = a.rename()
        d = a.dims[axis]
        if isinstance(d, int):
            c = by.const()
            if c is None:
                raise Undecided("roll")
            at = sum(isinstance(x, int) for x in a.dims[:axis])
            return Sym(a.dims, {(*k[:at], (k[at] + int(c)) % d, *k[at + 1:]): v for k, v in a.vals.items()})
        if len(d) != 1:
            raise Undecided("roll")
        n = LENGTH[d[0]]
        return Sym(a.dims, {k: v.subst({d[0]: rmod(var(d[0]) - by, n)}) for k, v in a.vals.items()})

    def half(self, a: Sym, axis: int) -> Rat:
        n = a.size(axis)
        h = n - rmod(n, Rat.of(2))
        return h / 2

    def ft_shift(self, args, kw, sign: int):
        a = lift(args[0])
        axes = args[1] if len(args) > 1 else kw.get("axes")
        axes = range(len(a.dims)) if axes is None else self.iterate(axes) if isinstance(axes, (tuple, list)) else (axes,)
        for x in axes:
            x = self.as_int(x) % len(a.dims)
            h = halve(a.size(x))
            a = self.shifted(a, x, h if sign > 0 else -h)
        return a

    def ft_fftshift(self, args, kw):
        return self.ft_shift(args, kw, 1)

    def ft_ifftshift(self, args, kw):
        return self.ft_shift(args, kw, -1)

    def ft_fftfreq(self, args, kw):
        n = Rat.of(args[0] if args else kw["n"])
        d = Rat.of(args[1] if len(args) > 1 else kw.get("d", 1))
        if n.const() is not None:
            k = int(n.const())
            return lift([Rat.of(j if j < (k + 1) // 2 else j - k) / (n * d) for j in range(k)])
        h = halve(n)
        return Sym.grid(n, lambda i: (rmod(i + h, n) - h) / (n * d))

    def contract(self, a: Sym, b: Sym, ax: list, bx: list) -> Sym:
        a, b = a.rename(), b.rename()
        ax = [x % len(a.dims) for x in ax]
        bx = [x % len(b.dims) for x in bx]
        for x, y in zip(ax, bx):
            if not isinstance(a.dims[x], int) or not isinstance(b.dims[y], int):
                if certainly(a.size(x), b.size(y)):
                    raise Broken(f"{show(a.size(x))} values are summed with {show(b.size(y))}")
                raise Undecided("sum over a grid")
            if a.dims[x] != b.dims[y]:
                raise Broken(f"{a.dims[x]} components are summed with {b.dims[y]}")
        ca = [i for i, d in enumerate(a.dims) if isinstance(d, int)]
        cb = [i for i, d in enumerate(b.dims) if isinstance(d, int)]
        ra, rb = [i for i in ca if i not in ax], [i for i in cb if i not in bx]
        out: dict = {}
        for k in itertools.product(*(range(a.dims[i]) for i in ra), *(range(b.dims[i]) for i in rb)):
            t = Rat.of(0)
            for s in itertools.product(*(range(a.dims[x]) for x in ax)):
                da = dict(zip(ra, k)) | dict(zip(ax, s))
                db = dict(zip(rb, k[len(ra):])) | dict(zip(bx, s))
                t = t + a.vals[tuple(da[i] for i in ca)] * b.vals[tuple(db[i] for i in cb)]
            out[k] = t
        return Sym([d for i, d in enumerate(a.dims) if i not in ax] + [d for i, d in enumerate(b.dims) if i not in bx], out)

    def np_tensordot(self, args, kw):
        a, b = lift(args[0]), lift(args[1])
        axes = args[2] if len(args) > 2 else kw.get("axes", 2)
        if not isinstance(axes, (tuple, list)):
            n = self.as_int(axes)
            axes = (list(range(-n, 0)), list(range(n)))
        x, y = axes
        xs = [self.as_int(v) for v in (self.iterate(x) if isinstance(x, (tuple, list)) else (x,))]
        ys = [self.as_int(v) for v in (self.iterate(y) if isinstance(y, (tuple, list)) else (y,))]
        return self.contract(a, b, xs, ys).scalar()

    def np_matmul(self, args, kw):
        a, b = lift(args[0]), lift(args[1])
        if not a.dims or not b.dims:
            raise Undecided("matmul")
        return self.contract(a, b, [-1], [-2 if len(b.dims) > 1 else 0]).scalar()

    def np_dot(self, args, kw):
        a, b = lift(args[0]), lift(args[1])
        if not a.dims or not b.dims:
            return self.binop(ast.Mult(), a, b)
        return self.np_matmul([a, b], kw)

    def np_outer(self, args, kw):
        return self.contract(lift(args[0]), lift(args[1]), [], []).scalar()

    def np_einsum(self, args, kw):
        spec = args[0].replace(" ", "")
        if "->" not in spec or len(args) != 3:
            raise Undecided("einsum")
        ins, out = spec.split("->")
        x, y = ins.split(",")
        a, b = lift(args[1]), lift(args[2])
        if "..." in spec:  # spelled out when only one of the operands has it
            if ("..." in x) == ("..." in y):
                raise Undecided("einsum")
            n = len(a.dims) - len(x) + 3 if "..." in x else len(b.dims) - len(y) + 3
            if n < 0:
                raise Undecided("einsum")
            more = "".join(chr(0x100 + i) for i in range(n))
            x, y, out = (t.replace("...", more) for t in (x, y, out))
        if len(x) != len(a.dims) or len(y) != len(b.dims) or len(set(x)) != len(x) or len(set(y)) != len(y):
            raise Undecided("einsum")
        common = [c for c in x if c in y]
        if any(c in out for c in common) or any(c not in out and c not in common for c in x + y):
            raise Undecided("einsum")
        r = self.contract(a, b, [x.index(c) for c in common], [y.index(c) for c in common])
        have = [c for c in x if c not in common] + [c for c in y if c not in common]
        return self.transposed(r, [have.index(c) for c in out]).scalar()

    def la_inv(self, args, kw):
        return lift([list(r) for r in inverse(matrix_of(lift(args[0])))])

    def la_det(self, args, kw):
        m = matrix_of(lift(args[0]))
        if any(len(r) != len(m) for r in m):
            raise Broken("the determinant of a matrix that is not square")
        return det(m)

    def la_solve(self, args, kw):
        return self.contract(self.la_inv(args[:1], {}), lift(args[1]), [1], [0]).scalar()

    def la_norm(self, args, kw):
        a = lift(args[0])
        axis = kw.get("axis", args[2] if len(args) > 2 else None)
        if kw.get("ord") not in (None, 2) or (axis is None and len(a.dims) != 1 and not all(isinstance(d, int) for d in a.dims)):
            raise Undecided("norm")
        sq = combine(lambda x, y: x * y, a, a)
        sq = like(a.rename(), sq)
        return lift(self.summed(sq, axis)).map(rsqrt).scalar()

    def summed(self, a: Sym, axis):
        axes = range(len(a.dims)) if axis is None else self.iterate(axis) if isinstance(axis, (tuple, list)) else (axis,)
        axes = [self.as_int(x) % len(a.dims) for x in axes]
        if any(not isinstance(a.dims[x], int) for x in axes):
            raise Undecided("sum over a grid")
        comp = [i for i, d in enumerate(a.dims) if isinstance(d, int)]
        out: dict = {}
        for k, v in a.vals.items():
            kk = tuple(j for i, j in zip(comp, k) if i not in axes)
            out[kk] = out[kk] + v if kk in out else v
        return Sym([d for i, d in enumerate(a.dims) if i not in axes], out).scalar()

    def np_unravel_index(self, args, kw):
        names = dict(zip(("indices", "shape"), args)) | kw
        v, shape = lift(names["indices"]), [Rat.of(x) for x in self.iterate(names["shape"])]
        out = []
        for n in shape[:0:-1]:
            out.append(v.map(lambda x, n=n: rmod(x, n)).scalar())
            v = v.map(lambda x, n=n: rfloor(x, n))
        out.append(v.scalar())
        return tuple(out[::-1])

    def np_ravel_multi_index(self, args, kw):
        names = dict(zip(("multi_index", "dims", "mode", "order"), args)) | kw
        vs, shape = [lift(x) for x in self.iterate(names["multi_index"])], [Rat.of(x) for x in self.iterate(names["dims"])]
        mode = names.get("mode", "raise")
        if len(vs) != len(shape):
            raise Broken("an index of another rank")
        order = names.get("order", "C")
        if order == "F":
            vs, shape = vs[::-1], shape[::-1]
        out = lift(0)
        for v, n in zip(vs, shape):
            if mode == "wrap":
                v = v.map(lambda x, n=n: rmod(x, n))
            elif mode == "clip":
                v = v.map(lambda x, n=n: Rat.atom(("clip", x, n)))
            elif mode != "raise":
                raise Undecided("mode")
            out = combine(lambda x, y: x + y, combine(lambda x, y: x * y, out, lift(n)), v)
        return out.scalar()

    # ---- methods
    def method(self, o, n: str, args, kw):
        if isinstance(o, dict):
            if n == "get":
                return o.get(args[0], args[1] if len(args) > 1 else None)
            raise Undecided(n)
        if isinstance(o, Rat):
            o = Sym([], {(): o})
        if not isinstance(o, Sym):
            return super().method(o, n, args, kw)
        if n in ("astype", "copy", "conj", "view"):
            if n == "view":
                raise Undecided(n)
            return o.scalar()
        if n == "item":
            if args:
                return self.index(self.method(o, "ravel", [], {}), args[0])
            if o.dims:
                raise Undecided("item")
            return o.vals[()]
        if n in ("reshape", "ravel", "flatten"):
            order = args[0] if n != "reshape" and args else kw.get("order", "C")
            if order not in ("C", "F") or set(kw) - {"order"}:
                raise Undecided(n)
            if order == "F":
                turned = self.transposed(o, list(range(len(o.dims)))[::-1])
                if n != "reshape":
                    return self.method(turned, "ravel", [], {})
                dims = list(args[0]) if len(args) == 1 and isinstance(args[0], (tuple, list)) else list(args)
                out = lift(self.reshaped(turned, dims[::-1]))
                return self.transposed(out, list(range(len(out.dims)))[::-1])
        elif set(kw) - {"axis", "dtype", "copy"}:
            raise Undecided(f"{n} with {', '.join(kw)}")
        if n in ("ravel", "flatten"):
            return self.reshaped(o, [-1])
        if n == "reshape":
            dims = list(args[0]) if len(args) == 1 and isinstance(args[0], (tuple, list)) else list(args)
            return self.reshaped(o, dims)
        if n == "transpose":
            axes = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
            return self.transposed(o, list(axes) if axes else list(range(len(o.dims)))[::-1])
        if n == "swapaxes":
            order = list(range(len(o.dims)))
            i, j = (self.as_int(x) % len(order) for x in args)
            order[i], order[j] = order[j], order[i]
            return self.transposed(o, order)
        if n == "sum":
            return self.summed(o, kw.get("axis", args[0] if args else None))
        if n == "dot":
            return self.np_dot([o, *args], kw)
        if n == "tolist":
            return [self.method(x, "tolist", [], {}) if isinstance(x, Sym) else x for x in self.iterate(o)]
        raise Undecided(n)

    def reshaped(self, o: Sym, dims: list) -> Sym:
        """Grids are merged and split; components stay where they are."""
        if all(isinstance(d, int) for d in o.dims):
            return self.reshaped_components(o, dims)
        wanted = [None if isinstance(d, int) and d == -1 else Rat.of(d) for d in dims]
        total = Rat.of(1)
        for i in range(len(o.dims)):
            total = total * o.size(i)
        left = Rat.of(1)
        for w in wanted:
            left = left * w if w is not None else left
        if None in wanted:
            rest = total / left
            if not whole(rest):
                if all(len(x.num) == 1 for x in (total, left)) and total.den == Rat.ONE:
                    raise Broken(f"{show(total)} values are put into shape ({', '.join('-1' if w is None else show(w) for w in wanted)})")
                raise Undecided("reshape")
            wanted = [rest if w is None else w for w in wanted]
        elif certainly(total, left):
            raise Broken(f"{show(total)} values are put into {show(left)} places")
        parts: list = []  # ("c", components) or index numbers
        for d in o.dims:
            parts.extend([("c", d)] if isinstance(d, int) else d)
        out: list = []
        s: dict = {}
        for w in wanted:
            cur: list = []
            size = Rat.of(1)
            while size != w:
                if not parts:
                    raise Undecided("reshape")
                p = parts.pop(0)
                if isinstance(p, tuple):
                    if cur or Rat.of(p[1]) != w:
                        if p[1] == 1:
                            continue
                        raise Undecided("reshape of components")
                    cur.append(p)
                    size = size * p[1]
                    continue
                need = w / size
                if not whole(need / LENGTH[p]):
                    rest = LENGTH[p] / need
                    if not whole(rest):
                        raise Undecided("reshape")
                    a, b = next(COUNTER), next(COUNTER)
                    LENGTH[a], LENGTH[b] = need, rest
                    s[p] = var(a) * rest + var(b)
                    parts.insert(0, b)
                    p = a
                if any(isinstance(x, tuple) for x in cur):
                    raise Undecided("reshape of components")
                cur.append(p)
                size = size * LENGTH[p]
            if not cur:
                out.append(1)
            elif isinstance(cur[0], tuple):
                out.append(cur[0][1])
            else:
                out.append(tuple(cur))
        while parts and isinstance(parts[0], tuple) and parts[0][1] == 1:
            parts.pop(0)
        if parts:
            raise Undecided("reshape")
        # length one components come and go
        old = [d for d in o.dims if isinstance(d, int)]
        new = [d for d in out if isinstance(d, int)]
        if [d for d in old if d != 1] != [d for d in new if d != 1]:
            raise Undecided("reshape of components")
        vals = {}
        for k, v in o.vals.items():
            kept = iter([j for j, d in zip(k, old) if d != 1])
            vals[tuple(next(kept) if d != 1 else 0 for d in new)] = v.subst(s)
        return Sym(out, vals)


    def reshaped_components(self, o: Sym, dims: list) -> Sym:
        new = [self.as_int(d) for d in dims]
        total = math.prod(o.dims)
        if new.count(-1) == 1:
            left = -math.prod(new)
            if not left or total % left:
                raise Broken(f"{total} values are put into rows of {left}")
            new[new.index(-1)] = total // left
        if math.prod(new) != total or any(d < 0 for d in new):
            raise Broken(f"{total} values are put into shape {tuple(new)}")
        flat_ = [o.vals[k] for k in itertools.product(*map(range, o.dims))]
        return Sym(new, dict(zip(itertools.product(*map(range, new)), flat_)))


def halve(n: Rat) -> Rat:
    """n // 2 of a size whose parity is known."""
    return rfloor(n, Rat.of(2))


def power(x: Rat, y: Rat) -> Rat:
    c = y.const()
    if c is None:
        raise Undecided("power")
    if c.denominator == 2:
        return power(rsqrt(x), Rat({(): c * 2}))
    if c.denominator != 1:
        raise Undecided("power")
    out = Rat.of(1)
    for _ in range(abs(int(c))):
        out = out * x
    return out if c >= 0 else Rat.of(1) / out


def to_int(r: Rat):
    """A whole number in the form sizes are kept in."""
    if r.den != Rat.ONE or any(c.denominator != 1 or any(e < 0 for _, e in m) for m, c in r.num.items()):
        return r
    return Poly({tuple(sorted((a for a, e in m for _ in range(e)), key=repr)): int(c) for m, c in r.num.items()})

