"""Terms of the layout types: bases, sizes, axis labels and array types.

A basis is a term over the type variables and parameters of the analysed signature.  A size is a product of atoms
``n(basis)``.  An array type is a list of axes, each of which is an ordered product of leaves; a leaf says which basis the
index runs over and whether it is a ket (+1), a bra (-1) or neither (0).
"""

from __future__ import annotations

import itertools
import re
from dataclasses import dataclass, field

EQ, NE, UNK = "eq", "ne", "unknown"

_counter = itertools.count()


def fresh(kind: str = "unk"):
    return (kind, next(_counter))


SAME_SPACE = {"x": "x", "f": "x", "k": "k", "t": "k"}


# ---------------------------------------------------------------- basis terms
def tup(items) -> tuple:
    return ("tup", tuple(items))


def app(kind: str, b: tuple) -> tuple:
    if b[0] == "tup":
        return tup(app(kind, x) for x in b[1])
    if b[0] == "app":
        return app(kind, b[2])
    if b[0] == "splat":
        return ("splat", app(kind, b[1]))
    if (kind, *b[:2]) in (("f", "fund", "FundamentalBasis"), ("x", "fund", "FundamentalPositionBasis")):
        return b  # already what it is converted to
    return ("app", kind, b)


def comp(b: tuple, i) -> tuple:
    """The i-th factor of a product basis (i: int, or a symbolic index)."""
    if b[0] == "tup" and isinstance(i, int):
        if not any(x[0] == "splat" for x in b[1]):
            return b[1][i] if -len(b[1]) <= i < len(b[1]) else fresh()
        if i >= 0 and all(x[0] != "splat" for x in b[1][: i + 1]) and i < len(b[1]):
            return b[1][i]
        return fresh()
    if b[0] == "app":
        return app(b[1], comp(b[2], i))
    if b[0] == "tup" or (isinstance(i, tuple) and i and i[0] == "unk"):
        return fresh()
    return ("comp", b, i)


def flatten(b: tuple) -> list[tuple]:
    if b[0] == "tup":
        return [y for x in b[1] for y in flatten(x)]
    if b[0] == "splat":
        return flatten(b[1])
    return [b]


def root(b: tuple):
    while True:
        if b[0] in ("tv", "par"):
            return b
        if b[0] == "app":
            b = b[2]
        elif b[0] in ("comp", "sel", "take"):
            b = b[1]
        elif b[0] == "map":
            b = b[2]
        elif b[0] == "splat":
            b = b[1]
        else:
            return None


# ---------------------------------------------------------------- sizes
def size_int(k: int):
    return (k, ())


def atom(a) -> tuple:
    return (1, (a,))


def mul(a, b):
    if a is None or b is None:
        return None
    return (a[0] * b[0], tuple(sorted((*a[1], *b[1]), key=repr)))


def plus(s, k: int):
    """A size and an integer added to it."""
    if s is None:
        return None
    if not s[1]:
        return (s[0] + k, ())
    if s[0] == 1 and len(s[1]) == 1 and s[1][0][0] == "plus":
        s, k = s[1][0][1], k + s[1][0][2]
    return s if k == 0 else atom(("plus", s, k))


def offset(s):
    """(base, integer) of a size."""
    if s[0] == 1 and len(s[1]) == 1 and s[1][0][0] == "plus":
        return s[1][0][1], s[1][0][2]
    return s, 0


def prod(sizes):
    out = size_int(1)
    for s in sizes:
        out = mul(out, s)
    return out


def n_of(b: tuple):
    k = b[0]
    if k == "tup":
        return prod(n_of(x) for x in b[1])
    if k == "splat":
        return n_of(b[1])
    if k == "sz":
        return b[1]
    if k == "eig":
        return b[2]
    if k in ("fund", "cons"):
        return b[2] if b[2] is not None else atom(("n", b))
    if k == "diag":
        return n_of(b[1])
    if k == "app":
        return fn_of(b[2])
    return atom(("n", b))


def fn_of(b: tuple):
    k = b[0]
    if k == "tup":
        return prod(fn_of(x) for x in b[1])
    if k == "splat":
        return fn_of(b[1])
    if k == "app":
        return fn_of(b[2])
    if k == "fund":
        return b[2] if b[2] is not None else atom(("fn", b))
    return atom(("fn", b))


def partial(x: tuple) -> bool:
    """A part of a list chosen by an argument of the operation."""
    if x[0] == "slice":
        return isinstance(x[2], str) and (x[2].isidentifier() or re.fullmatch(r"[1-9]\d*:|:-[1-9]\d*", x[2]) is not None)
    return x[0] == "perm" and len(x[2]) > 2 and x[2][2] == "subset"


def splits(x: tuple, others: list) -> bool:
    """Whether the others hold the sizes of (at least the first two) components of the basis whose size x is."""
    parts = {y[1][2] for y in others if x[0] == y[0] and y[1][0] == "comp" and y[1][1] == x[1]}
    return {0, 1} <= parts


def representation(b: tuple) -> str | None:
    """'x' for (fundamental) position space, 'k' for its Fourier conjugate, None when it cannot be told."""
    if b[0] == "sz":
        return b[2] if len(b) > 2 else None
    if b[0] == "app":
        return SAME_SPACE[b[1]]
    if b[0] in ("comp", "splat", "sel", "take"):
        return representation(b[1])
    if b[0] in ("tv", "par", "map"):
        return b[3] if len(b) > 3 else None
    if b[0] == "call":
        return b[4] if len(b) > 4 else None
    if b[0] in ("fund", "cons"):
        return CLASS_SPACE.get(b[1])
    return None


def space_of(b: tuple) -> str | None:
    """The representation all factors of a basis are in."""
    if b[0] == "tup":
        reps = {space_of(x) for x in b[1]}
        return reps.pop() if len(reps) == 1 else None
    return representation(b)


def space_conflict(b: tuple, declared: tuple) -> bool:
    """Whether some factor is in the representation conjugate to the declared one."""
    if b[0] == declared[0] == "tup" and len(b[1]) == len(declared[1]) and not any(x[0] == "splat" for x in (*b[1], *declared[1])):
        return any(space_conflict(x, y) for x, y in zip(b[1], declared[1]))
    x, y = space_of(b), space_of(declared)
    return x is not None and y is not None and x != y


CLASS_SPACE: dict[str, str] = {}  # basis classes that are always in position or always in momentum space


class Ctx:
    """Sizes known to be equal (the two sides of a diagonal operator)."""

    def __init__(self) -> None:
        self.rep: dict = {}

    def find(self, a):
        while a in self.rep:
            a = self.rep[a]
        return a

    def union(self, s, t) -> None:
        if s is None or t is None or len(s[1]) != 1 or len(t[1]) != 1 or s[0] != 1 or t[0] != 1:
            return
        a, b = self.find(s[1][0]), self.find(t[1][0])
        if a != b:
            a, b = sorted((a, b), key=repr)
            self.rep[b] = a

    def canon(self, s):
        if s is None:
            return None
        return (s[0], tuple(sorted((self.find(a) for a in s[1]), key=repr)))

    # -------------------------------------------------------- comparisons
    @staticmethod
    def generic(a) -> bool:
        """Whether the atom is the size of something the signature quantifies over."""
        if a[0] not in ("n", "fn", "ndim"):
            return False
        r = root(a[1])
        return r is not None and r[0] == "tv"

    def cmp_size(self, s, t) -> str:
        s, t = self.canon(s), self.canon(t)
        if s is None or t is None:
            return UNK
        if s == t:
            return EQ
        (sb, so), (tb, to) = offset(s), offset(t)
        if so != to and sb[1] and self.canon(sb) == self.canon(tb):
            return NE
        a, b = list(s[1]), list(t[1])
        for x in list(a):
            if x in b:
                a.remove(x)
                b.remove(x)
        if not a and not b:
            return NE if s[0] != t[0] else EQ
        if s[0] != 1 or t[0] != 1:
            return UNK
        dims = [sum(x[0] == "ndim" for x in side) for side in (a, b)]
        if dims[0] != dims[1] and all(x[0] in ("n", "fn", "ndim") and (root(x[1]) or "?")[0] in ("tv", "par") for x in (*a, *b)):
            return NE  # a number of dimensions is no number of points
        if all(self.generic(x) for x in (*a, *b)):
            if any(splits(x, b) for x in a) or any(splits(x, a) for x in b):
                return UNK
            return NE
        return UNK

    def cmp(self, a: tuple, b: tuple) -> str:
        if a == b:
            return EQ
        if a[0] == "diag" or b[0] == "diag":
            aa = a[1:] if a[0] == "diag" else (a,)
            bb = b[1:] if b[0] == "diag" else (b,)
            rs = [self.cmp(x, y) for x in aa for y in bb]
            if EQ in rs:
                return EQ
            return NE if all(r == NE for r in rs) else UNK
        if a[0] == "tup" or b[0] == "tup":
            return self.cmp_lists(flatten(a), flatten(b))
        if representation(a) is not None and representation(b) is not None and representation(a) != representation(b):
            if {a[0], b[0]} == {"sz", "app"} and "f" in (a[1], b[1]):
                return self.cmp_size(n_of(a), n_of(b))  # the axis may come from fundamental_shape, which is only a size
            return NE
        if a[0] == "sz" and b[0] == "sz":
            return self.cmp_size(a[1], b[1])
        if "eig" in (a[0], b[0]):
            return self._cmp_eig(a, b)
        for x, y in ((a, b), (b, a)):
            if partial(x) and (y == x[1] or (y[0] in ("sz", "fund", "cons") and n_of(y) is not None and self.cmp_size(n_of(x[1]), n_of(y)) == EQ)):
                return NE
        by_size = self.cmp_size(n_of(a), n_of(b))
        if a[0] in ("sz", "fund", "cons", "slice", "perm", "unk", "call", "list") or b[0] in (
            "sz", "fund", "cons", "slice", "perm", "unk", "call", "list",
        ):
            if by_size == EQ and not {a[0], b[0]} & {"unk", "slice", "perm", "call"}:
                return EQ
            return NE if by_size == NE else UNK
        ra, rb = root(a), root(b)
        if ra is None or rb is None:
            return UNK
        if ra != rb:
            return NE if ra[0] == rb[0] == "tv" else UNK
        if ra[2]:  # weakly typed: may already be what a conversion would give
            return UNK
        return self._same_root(a, b, by_size)

    def _cmp_eig(self, a, b) -> str:
        """The index over eigenvectors is a new space, whatever its size."""
        if a[0] == b[0]:
            return NE
        other = b if a[0] == "eig" else a
        if other[0] in ("sz", "fund", "cons"):
            return self.cmp_size(n_of(a), n_of(b))
        r = root(other)
        return NE if r is not None and r[0] == "tv" and other[0] in ("tv", "app", "comp") else UNK

    def _same_root(self, a, b, by_size) -> str:
        if a[0] == "app" and b[0] == "app":
            inner = self.cmp(a[2], b[2])
            if inner == NE:
                return NE
            if a[1] == b[1]:
                return inner
            return UNK if SAME_SPACE[a[1]] == SAME_SPACE[b[1]] else (NE if inner == EQ else UNK)
        if a[0] == "app" or b[0] == "app":
            x, y = (a[2], b) if a[0] == "app" else (b[2], a)
            return NE if x == y else (NE if by_size == NE else UNK)
        if a[0] == "comp" and b[0] == "comp" and a[1] == b[1]:
            if isinstance(a[2], int) and isinstance(b[2], int):
                if (a[2] < 0) != (b[2] < 0):
                    return UNK
                return NE
            return UNK
        if {a[0], b[0]} <= {"sel", "take"} and a[1] == b[1]:
            if a[0] == b[0] == "sel" and a[3] == b[3]:
                return NE if a[2] != b[2] else EQ
            if a[0] != b[0]:
                s, t = (a, b) if a[0] == "sel" else (b, a)
                if s[3] == t[2]:
                    return NE
            return UNK
        if a[0] in ("map", "sel", "take") or b[0] in ("map", "sel", "take"):
            return UNK
        return NE if by_size == NE else UNK

    def cmp_lists(self, aa: list, bb: list) -> str:
        """Compare two ordered products of basis factors."""
        i = j = 0
        unk = False
        while i < len(aa) and j < len(bb):
            r = self.cmp(aa[i], bb[j])
            if r == EQ:
                i, j = i + 1, j + 1
                continue
            if len(aa) - i == len(bb) - j:
                if r == NE:
                    return NE
                unk = True
                i, j = i + 1, j + 1
                continue
            break
        if i == len(aa) and j == len(bb):
            return UNK if unk else EQ
        r = self.cmp_size(prod(n_of(x) for x in aa[i:]), prod(n_of(x) for x in bb[j:]))
        return NE if r == NE else UNK


def show(b) -> str:
    k = b[0]
    if k == "tup":
        return "(" + ", ".join(show(x) for x in b[1]) + ")"
    if k == "tv":
        return b[1]
    if k == "par":
        return b[1]
    if k == "splat":
        return "*" + show(b[1])
    if k == "app":
        return {"x": "position", "k": "momentum", "f": "fundamental", "t": "transformed"}[b[1]] + f"({show(b[2])})"
    if k == "comp":
        return f"{show(b[1])}[{b[2]}]"
    if k == "diag":
        return show(b[1]) if b[1] == b[2] else f"{show(b[1])}={show(b[2])}"
    if k == "sz":
        return "size " + show_size(b[1])
    if k == "sel":
        return f"{show(b[1])} {'without' if b[2] == 'notin' else 'only'} {b[3]}"
    if k == "take":
        return f"{show(b[1])} in the order of {b[2]}"
    if k == "map":
        return f"map({show(b[2])})"
    if k == "eig":
        return "eigenvector number"
    if k == "fund":
        return f"list of {show_size(b[2])}"
    return "?"


def show_size(s) -> str:
    if s is None:
        return "?"
    parts = [f"n({show(a[1])})" if a[0] == "n" else f"fundamental_n({show(a[1])})" if a[0] == "fn" else f"dimensions({show(a[1])})" if a[0] == "ndim" else "?" for a in s[1]]
    if s[0] != 1 or not parts:
        parts.insert(0, str(s[0]))
    return "*".join(parts)


# ---------------------------------------------------------------- arrays
@dataclass(frozen=True)
class Leaf:
    label: tuple
    var: int | None = 0


@dataclass(frozen=True)
class Axis:
    leaves: tuple | None  # tuple[Leaf] ; None: unknown

    @property
    def size(self):
        return None if self.leaves is None else prod(n_of(x.label) for x in self.leaves)


@dataclass(frozen=True)
class Star:
    """One axis per factor of an opaque product basis."""

    label: tuple
    var: int | None = 0

    @property
    def size(self):
        return None


UNKNOWN_AXIS = Axis(None)
NO_CHARGE: frozenset = frozenset()


@dataclass(frozen=True)
class Arr:
    axes: tuple | None = None  # None: unknown rank
    ch: frozenset | None = None
    dt: str | None = None  # c complex, f float, i int, b bool, None unknown
    flags: frozenset = field(default_factory=frozenset)

    @property
    def leaves(self):
        """The flattened leaves, or None."""
        if self.axes is None:
            return None
        out = []
        for a in self.axes:
            if isinstance(a, Star):
                out.append(Leaf(a.label, a.var))
            elif a.leaves is None:
                return None
            else:
                out.extend(a.leaves)
        return out

    @property
    def has_star(self) -> bool:
        return self.axes is not None and any(isinstance(a, Star) for a in self.axes)


def add_charge(a, b, sign: int = 1):
    if a is None or b is None:
        return None
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + sign * v
    return frozenset((k, v) for k, v in d.items() if v)


def scale_charge(a, k: int):
    return None if a is None else frozenset((p, v * k) for p, v in a if v * k)


def conj(a: Arr) -> Arr:
    def flip(x):
        if isinstance(x, Star):
            return Star(x.label, None if x.var is None else -x.var)
        if x.leaves is None:
            return x
        return Axis(tuple(Leaf(y.label, None if y.var is None else -y.var) for y in x.leaves))

    return Arr(None if a.axes is None else tuple(flip(x) for x in a.axes), scale_charge(a.ch, -1), a.dt, a.flags)


def revar(a: Arr, fn) -> tuple | None:
    """Axes with every leaf variance mapped by fn."""
    if a.axes is None:
        return None
    out = []
    for x in a.axes:
        if isinstance(x, Star):
            out.append(Star(x.label, fn(x.var)))
        elif x.leaves is None:
            out.append(x)
        else:
            out.append(Axis(tuple(Leaf(y.label, fn(y.var)) for y in x.leaves)))
    return tuple(out)


def join_dt(*dts):
    """Element kind of a combination: c complex, p real or complex, r the real part of complex values, m their modulus, f real, i, b."""
    if any(d == "c" for d in dts):
        return "c"
    if any(d == "p" for d in dts):
        return "p"
    if any(d is None for d in dts):
        return None
    for d in ("r", "m", "f", "i", "b"):
        if d in dts:
            return d
    return None
