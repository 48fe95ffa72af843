"""C15: the exchange with the external localisation program.

The code that drives the program is abstractly interpreted once, from its public entry point, with symbolic sizes
and loop indices.  Interpretation yields

* an ordered list of effects (scratch folder opened / removed, file written / read, program run), each under the
  conditions it is guarded by, and
* for every file written, an abstract text: literal words, formatted terms and repetitions over symbolic indices.

The effects are checked against the protocol (typestate), the texts and the parsing of the results against the
published layout of the exchange files.
"""

from __future__ import annotations

import ast

from .model import PKG, AnalysisBroken, Class, Ext, Func, Project
from .report import Result

ENTRY = "get_localization_operator_wannier90"
MAX_DEPTH = 12
FACADE = {
    "wavepacket_list_into_iter",
    "get_wavepacket",
    "get_bloch_state_vector",
    "get_states_at_bloch_idx",
    "get_state_projections_many_band",
    "calculate_inner_product",
    "as_dual_vector",
    "convert_state_vector_list_to_basis",
    "get_wavepacket_sample_fractions",
    ENTRY,
}
UNK = ("unknown",)


# ------------------------------------------------------------------ terms
def const(c) -> tuple:
    return ("poly", frozenset({((), c)})) if c != 0 else ("poly", frozenset())


def atom(t: tuple) -> tuple:
    return ("poly", frozenset({((t,), 1)}))


def is_poly(t) -> bool:
    return isinstance(t, tuple) and len(t) == 2 and t[0] == "poly"


def poly(t) -> tuple | None:
    if is_poly(t):
        return t
    if isinstance(t, tuple) and t[0] in ("attr", "fileint", "lv", "call", "sub", "len"):
        return atom(t)
    return None


def padd(a, b, s=1):
    d: dict = dict(a[1])
    for m, c in b[1]:
        d[m] = d.get(m, 0) + s * c
    return ("poly", frozenset((m, c) for m, c in d.items() if c != 0))


def pmul(a, b):
    d: dict = {}
    for m, c in a[1]:
        for n, e in b[1]:
            k = tuple(sorted((*m, *n), key=repr))
            d[k] = d.get(k, 0) + c * e
    return ("poly", frozenset((m, c) for m, c in d.items() if c != 0))


def as_const(t):
    if is_poly(t):
        if not t[1]:
            return 0
        if len(t[1]) == 1:
            ((m, c),) = t[1]
            if m == ():
                return c
    return None


def split_offset(t):
    """(atom, constant) of a term of the form atom + constant."""
    p = poly(t)
    if p is None:
        return None
    c = 0
    at = None
    for m, k in p[1]:
        if m == ():
            c = k
        elif len(m) == 1 and k == 1 and at is None:
            at = m[0]
        else:
            return None
    return (at, c) if at is not None else None


def subst(t, lv, new):
    if is_poly(t):
        out = const(0)
        for m, c in t[1]:
            cur = const(c)
            for a in m:
                if a == lv:
                    cur = pmul(cur, poly(new) or atom(("u", new)))
                else:
                    b = subst(a, lv, new)
                    cur = pmul(cur, poly(b) or atom(b))
            out = padd(out, cur)
        return out
    if t == lv:
        return new
    if isinstance(t, tuple):
        return tuple(subst(x, lv, new) for x in t)
    return t


def contains(t, pred) -> bool:
    if isinstance(t, (tuple, frozenset)):
        if isinstance(t, tuple) and t and pred(t):
            return True
        return any(contains(x, pred) for x in t)
    return False


def find_all(t, pred, out=None) -> list:
    out = [] if out is None else out
    if isinstance(t, (tuple, frozenset)):
        if isinstance(t, tuple) and t and pred(t):
            if t not in out:
                out.append(t)
        for x in t:
            find_all(x, pred, out)
    return out


def unknown(t) -> bool:
    return contains(t, lambda x: x == UNK)


def sub(base, key):
    """Indexing, normalised."""
    k = as_const(key) if is_poly(key) else None
    if base == UNK:
        return UNK
    if base[0] in ("tuple",) and isinstance(k, int) and -len(base[1]) <= k < len(base[1]):
        return base[1][k]
    if base[0] == "list" and isinstance(k, int) and all(i[0] == "one" for i in base[1]) and -len(base[1]) <= k < len(base[1]):
        return base[1][k][1]
    if base[0] == "dict" and key[0] == "text":
        for kk, vv in base[1]:
            if kk == key:
                return vv
        return ("sub", base, key)
    if base[0] == "call" and base[1] == "convert_state_vector_list_to_basis" and key == lit("basis"):
        return ("convbasis", base)
    if base[0] == "convbasis":
        rec, target = base[1][2], base[1][3]
        if k == 0:
            return sub(sub(rec, lit("basis")), key)
        if k == 1:
            return target
    if base[0] == "attr" and base[2] == "shape" and isinstance(k, int):
        b = base[1]
        if b[0] == "reshape":
            return sub(("tuple", b[2]), key)
        return ("attr", sub(b, key), "n")
    return ("sub", base, key)


def lit(s: str):
    return ("text", (("lit", s),)) if s else ("text", ())


def cat(a, b):
    if a == UNK or b == UNK:
        return UNK
    parts = list(a[1])
    for p in b[1]:
        if parts and parts[-1][0] == "lit" and p[0] == "lit":
            parts[-1] = ("lit", parts[-1][1] + p[1])
        else:
            parts.append(p)
    return ("text", tuple(parts))


def as_str(t) -> str | None:
    if isinstance(t, tuple) and t and t[0] == "text":
        if not t[1]:
            return ""
        if len(t[1]) == 1 and t[1][0][0] == "lit":
            return t[1][0][1]
    return None


def to_text(t):
    if t[0] == "text":
        return t
    c = as_const(t) if is_poly(t) else None
    if c is not None:
        return lit(str(c))
    if t[0] == "ifexp":
        return ("text", (("opt", t[1], to_text(t[2]), to_text(t[3])),))
    return ("text", (("fmt", t),))


class Returned(Exception):
    pass


class Interp:
    def __init__(self, project: Project) -> None:
        self.p = project
        self.events: list[dict] = []
        self.domain: dict[tuple, tuple] = {}
        self.n = 0
        self.conds: list[tuple] = []
        self.depth = 0
        self.problems: list[tuple] = []
        self.inlined: set[str] = set()
        self.mod = None
        self.final_depth = 0
        self.open_files: list[tuple] = []
        self.writers: set[str] = set()

    # -- helpers
    def fresh(self, dom) -> tuple:
        self.n += 1
        lv = ("lv", self.n)
        self.domain[lv] = dom
        return lv

    def event(self, kind: str, node: ast.AST, **kw) -> None:
        self.events.append({"kind": kind, "loc": f"{self.func.module.rel}:{node.lineno}", "conds": tuple(self.conds), "fn": self.func.short, **kw})

    # -- iteration: returns (lvs, item) for one generic element, or a list of concrete items
    def iterate(self, coll):
        if coll == UNK:
            lv = self.fresh(UNK)
            return (lv,), ("item", UNK, lv), ("u",)
        if coll[0] in ("tuple",):
            return None, list(coll[1]), None
        if coll[0] == "list":
            if all(i[0] == "one" for i in coll[1]):
                return None, [i[1] for i in coll[1]], None
            if len(coll[1]) == 1 and coll[1][0][0] == "rep":
                _, lvs, item = coll[1][0]
                new = []
                for lv in lvs:
                    nl = self.fresh(self.domain.get(lv, UNK))
                    item = subst(item, lv, nl)
                    new.append(nl)
                return tuple(new), item, None
            lv = self.fresh(coll)
            return (lv,), UNK, None
        if coll[0] == "range":
            lv = self.fresh(padd(coll[2], coll[1], -1))
            return (lv,), padd(atom(lv), coll[1]), None
        if coll[0] == "enumerate":
            lvs, item, x = self.iterate(coll[1])
            if lvs is None:
                return None, [("tuple", (padd(const(i), coll[2]), it)) for i, it in enumerate(item)], None
            if len(lvs) == 1:
                return lvs, ("tuple", (padd(atom(lvs[0]), coll[2]), item)), None
            return lvs, ("tuple", (UNK, item)), None
        if coll[0] == "ndenum":
            arr = coll[1]
            if arr[0] == "reshape" and all(is_poly(s) for s in arr[2]):
                lvs = tuple(self.fresh(s) for s in arr[2])
                idx = ("tuple", tuple(atom(v) for v in lvs))
                return lvs, ("tuple", (idx, ("elem", arr, tuple(atom(v) for v in lvs)))), None
            lv = self.fresh(UNK)
            return (lv,), ("tuple", (UNK, UNK)), None
        if coll[0] == "call" and coll[1] == "wavepacket_list_into_iter":
            w = coll[2]
            lv = self.fresh(atom(("attr", sub(sub(sub(w, lit("basis")), const(0)), const(0)), "n")))
            return (lv,), ("call", "get_wavepacket", w, atom(lv)), None
        if coll[0] == "zip":
            its = [self.iterate(c) for c in coll[1]]
            if any(i[0] is None or len(i[0]) != 1 for i in its):
                lv = self.fresh(UNK)
                return (lv,), UNK, None
            lv = self.fresh(self.domain[its[0][0][0]])
            return (lv,), ("tuple", tuple(subst(i[1], i[0][0], lv) for i in its)), None
        if coll[0] == "product":
            lvs: tuple = ()
            items = []
            for c in coll[1]:
                v, it, _ = self.iterate(c)
                if v is None:
                    lv = self.fresh(UNK)
                    return (lv,), UNK, None
                lvs += v
                items.append(it)
            return lvs, ("tuple", tuple(items)), None
        if coll[0] == "reshape":
            if len(coll[2]) >= 1 and is_poly(coll[2][0]):
                lv = self.fresh(coll[2][0])
                return (lv,), ("row", coll, (atom(lv),)), None
        if coll[0] == "row":
            arr, idx = coll[1], coll[2]
            lv = self.fresh(arr[2][len(idx)])
            return (lv,), self.row(arr, (*idx, atom(lv))), None
        lv = self.fresh(("iter", coll))
        return (lv,), ("item", coll, lv), None

    def row(self, arr, idx):
        return ("elem", arr, idx) if len(idx) == len(arr[2]) else ("row", arr, idx)

    # -- binding targets
    def bind(self, tgt: ast.expr, val, env) -> None:
        if isinstance(tgt, ast.Name):
            env[tgt.id] = val
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            n = len(tgt.elts)
            star = next((i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)), None)
            items = list(val[1]) if val != UNK and val[0] == "tuple" else None
            if star is None:
                for i, e in enumerate(tgt.elts):
                    self.bind(e, items[i] if items is not None and i < len(items) else sub(val, const(i)), env)
            else:
                for i in range(star):
                    self.bind(tgt.elts[i], items[i] if items is not None and i < len(items) else sub(val, const(i)), env)
                after = n - star - 1
                if items is not None:
                    mid = items[star : len(items) - after]
                    self.bind(tgt.elts[star].value, ("list", tuple(("one", x) for x in mid)), env)
                    for j in range(after):
                        self.bind(tgt.elts[star + 1 + j], items[len(items) - after + j], env)
                else:
                    self.bind(tgt.elts[star].value, ("slice", val, const(star), UNK, const(1)), env)
                    for j in range(after):
                        self.bind(tgt.elts[star + 1 + j], UNK, env)
        elif isinstance(tgt, ast.Subscript):
            root = tgt.value
            if isinstance(root, ast.Name) and root.id in env:
                base = env[root.id]
                key = self.ev(tgt.slice, env)
                if base[0] == "dict" and as_str(key) is not None:
                    env[root.id] = ("dict", tuple([(k, v) for k, v in base[1] if k != key] + [(key, val)]))
                    return
                if base[0] == "list" and all(i[0] == "one" for i in base[1]):
                    c = as_const(key)
                    items = list(base[1])
                    if isinstance(c, int) and -len(items) <= c < len(items):
                        items[c] = ("one", val)
                        env[root.id] = ("list", tuple(items))
                        return
                    env[root.id] = ("list", tuple(("one", ("mutated", i[1], val)) for i in items))
                    return
                env[root.id] = ("stored", base, key, val)
        elif isinstance(tgt, ast.Starred):
            self.bind(tgt.value, val, env)

    # -- comprehension
    def comp(self, gens, elt, env):
        if not gens:
            return self.ev(elt, env)
        g, rest = gens[0], gens[1:]
        coll = self.ev(g.iter, env)
        lvs, item, _ = self.iterate(coll)
        if lvs is None:
            out = []
            for it in item:
                e2 = dict(env)
                self.bind(g.target, it, e2)
                if g.ifs:
                    return UNK
                v = self.comp(rest, elt, e2)
                if rest:
                    if v == UNK:
                        return UNK
                    out.extend(v[1])
                else:
                    out.append(("one", v))
            return ("list", tuple(out))
        e2 = dict(env)
        self.bind(g.target, item, e2)
        if g.ifs:
            return ("filtered", coll)
        v = self.comp(rest, elt, e2)
        if rest:
            if v == UNK or v[0] != "list" or len(v[1]) != 1 or v[1][0][0] != "rep":
                return UNK
            _, l2, it2 = v[1][0]
            return ("list", (("rep", (*lvs, *l2), it2),))
        return ("list", (("rep", lvs, v),))

    # -- conditions
    def cond(self, node: ast.expr, env) -> tuple:
        """(term, polarity)"""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, pol = self.cond(node.operand, env)
            return t, not pol
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op, r = node.ops[0], node.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant) and r.value is None:
                v = self.ev(node.left, env)
                pol = isinstance(op, (ast.IsNot, ast.NotEq))
                return self.notnone(v, pol)
            if isinstance(op, (ast.In, ast.NotIn)):
                k, v = self.ev(node.left, env), self.ev(r, env)
                return ("has", v, k), isinstance(op, ast.In)
        v = self.ev(node, env)
        if v[0] == "cond":
            return v[1], v[2]
        if v[0] == "bool":
            return v, True
        return ("true", v), True

    def notnone(self, v, pol):
        if v[0] == "get":
            return ("has", v[1], v[2]), pol
        if v[0] == "sub" and as_str(v[2]) is not None and False:
            return ("has", v[1], v[2]), pol
        return ("notnone", v), pol

    # -- expressions
    def ev(self, n: ast.expr, env) -> tuple:
        r = self.ev0(n, env)
        return r if r is not None else UNK

    def ev0(self, n: ast.expr, env):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                return ("bool", n.value)
            if isinstance(n.value, (int, float)):
                return const(n.value)
            if isinstance(n.value, complex):
                return ("imagunit", n.value.imag)
            if isinstance(n.value, str):
                return lit(n.value)
            if n.value is None:
                return ("none",)
            return UNK
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            r = self.p.resolve(self.func.module, n, self.func)
            return self.ref(r)
        if isinstance(n, ast.JoinedStr):
            out = lit("")
            for v in n.values:
                if isinstance(v, ast.Constant):
                    out = cat(out, lit(v.value))
                else:
                    t = self.ev(v.value, env)
                    if v.format_spec is not None:
                        t = ("spec", t, as_str(self.ev(v.format_spec, env)) or "?")
                    out = cat(out, to_text(t))
                if out == UNK:
                    return UNK
            return out
        if isinstance(n, ast.Tuple):
            items = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    v = self.ev(e.value, env)
                    if v[0] == "tuple":
                        items.extend(v[1])
                    elif v[0] == "list" and all(i[0] == "one" for i in v[1]):
                        items.extend(i[1] for i in v[1])
                    else:
                        return ("tuplestar", tuple(items), v)
                else:
                    items.append(self.ev(e, env))
            return ("tuple", tuple(items))
        if isinstance(n, ast.List):
            items = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    v = self.ev(e.value, env)
                    if v[0] == "list":
                        items.extend(v[1])
                    elif v[0] == "tuple":
                        items.extend(("one", x) for x in v[1])
                    else:
                        return UNK
                else:
                    items.append(("one", self.ev(e, env)))
            return ("list", tuple(items))
        if isinstance(n, ast.Dict):
            if any(k is None for k in n.keys):
                return UNK
            return ("dict", tuple((self.ev(k, env), self.ev(v, env)) for k, v in zip(n.keys, n.values)))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            return self.comp(n.generators, n.elt, env)
        if isinstance(n, ast.Subscript):
            base = self.ev(n.value, env)
            if isinstance(n.slice, ast.Slice):
                return self.slice(base, n.slice, env)
            if base[0] == "type":
                return base
            key = self.ev(n.slice, env)
            if base[0] == "list" and not all(i[0] == "one" for i in base[1]):
                return self.index(base, (key,))
            if base[0] == "reshape":
                idx = key[1] if key[0] == "tuple" else (key,)
                if len(idx) <= len(base[2]) and all(is_poly(i) for i in idx):
                    return self.row(base, tuple(idx))
                return UNK
            if base[0] == "row" and is_poly(key):
                return self.row(base[1], (*base[2], key))
            return sub(base, key)
        if isinstance(n, ast.Attribute):
            r = self.p.resolve(self.func.module, n, self.func) if not (isinstance(n.value, ast.Name) and n.value.id in env) else None
            if r is not None:
                return self.ref(r)
            base = self.ev(n.value, env)
            if base == UNK:
                return UNK
            if n.attr in ("real", "imag"):
                return (n.attr, base)
            if n.attr == "T":
                return ("T", base)
            if n.attr == "n":
                return atom(("attr", base, "n"))
            if n.attr == "ndim":
                return atom(("attr", base, "ndim"))
            return ("attr", base, n.attr)
        if isinstance(n, ast.BinOp):
            return self.binop(n.op, self.ev(n.left, env), self.ev(n.right, env))
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand, env)
            if isinstance(n.op, ast.USub):
                q = poly(v)
                return padd(const(0), q, -1) if q is not None else ("neg", v)
            if isinstance(n.op, ast.Not):
                t, pol = self.cond(n, env)
                return ("cond", t, pol)
            return v
        if isinstance(n, ast.Compare) or isinstance(n, ast.BoolOp):
            if isinstance(n, ast.BoolOp):
                return ("boolop", tuple(self.ev(v, env) for v in n.values))
            t, pol = self.cond(n, env) if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)) else (("cmp", ast.dump(n)), True)
            return ("cond", t, pol)
        if isinstance(n, ast.IfExp):
            t, pol = self.cond(n.test, env)
            a, b = self.ev(n.body, env), self.ev(n.orelse, env)
            if t == ("bool", True) or t == ("bool", False):
                return a if t[1] == pol else b
            return ("ifexp", t, a, b) if pol else ("ifexp", t, b, a)
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value, env)
            self.bind(n.target, v, env)
            return v
        if isinstance(n, ast.Call):
            return self.call(n, env)
        if isinstance(n, ast.Slice):
            return ("slc", *[self.ev(x, env) if x is not None else ("none",) for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Lambda):
            return ("lambda", id(n))
        return UNK

    def ref(self, r):
        if isinstance(r, Func):
            return ("func", r.qual)
        if isinstance(r, Class):
            return ("type", r.qual)
        if isinstance(r, Ext):
            return ("ext", r.name)
        if r is not None and hasattr(r, "value") and r.value is not None:
            save = self.func
            try:
                return self.ev(r.value, {})
            finally:
                self.func = save
        return UNK

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if a[0] == "text" and b[0] == "text":
                return cat(a, b)
            if a[0] == "tuple" and b[0] == "tuple":
                return ("tuple", a[1] + b[1])
            if a[0] == "list" and b[0] == "list":
                return ("list", a[1] + b[1])
        if isinstance(op, ast.Mod) and a[0] == "text":
            return UNK
        if isinstance(op, ast.Div) and a[0] in ("dir", "path"):
            return ("path", a, b)
        if isinstance(op, ast.Mult) and (a[0] == "imagunit" or b[0] == "imagunit"):
            u, v = (a, b) if a[0] == "imagunit" else (b, a)
            return ("imagpart", u[1], v)
        if isinstance(op, (ast.Add, ast.Sub)) and (a[0] == "imagpart" or b[0] == "imagpart"):
            re, im = (b, a) if a[0] == "imagpart" else (a, b)
            s = im[1] if isinstance(op, ast.Add) else -im[1]
            return ("complex", re, im[2], s)
        pa, pb = poly(a), poly(b)
        if pa is not None and pb is not None:
            if isinstance(op, ast.Add):
                return padd(pa, pb)
            if isinstance(op, ast.Sub):
                return padd(pa, pb, -1)
            if isinstance(op, ast.Mult):
                return pmul(pa, pb)
            if isinstance(op, ast.Pow):
                c, d = as_const(pa), as_const(pb)
                if isinstance(c, int) and isinstance(d, int) and 0 <= d < 40:
                    return const(c**d)
                if isinstance(d, int) and 0 <= d <= 4:
                    out = const(1)
                    for _ in range(d):
                        out = pmul(out, pa)
                    return out
        if a == UNK or b == UNK:
            return UNK
        return ("op", type(op).__name__, a, b)

    def slice(self, base, s: ast.Slice, env):
        lo = self.ev(s.lower, env) if s.lower else const(0)
        hi = self.ev(s.upper, env) if s.upper else ("none",)
        st = self.ev(s.step, env) if s.step else const(1)
        c0, c1, c2 = as_const(lo), as_const(hi) if is_poly(hi) else None, as_const(st)
        if base[0] == "tuple" and isinstance(c0, int) and c2 == 1 and (hi == ("none",) or isinstance(c1, int)):
            return ("tuple", base[1][c0 : c1 if hi != ("none",) else None])
        if base[0] == "list" and all(i[0] == "one" for i in base[1]) and isinstance(c0, int) and isinstance(c2, int) and (hi == ("none",) or isinstance(c1, int)):
            return ("list", base[1][c0 : c1 if hi != ("none",) else None : c2])
        if base[0] == "call" and base[1] == "split" and isinstance(c0, int) and isinstance(c1, int) and 0 <= c0 <= c1 <= 12:
            return ("tuple", tuple(sub(base, const(i)) for i in range(c0, c1)))
        if base == UNK:
            return UNK
        return ("slice", base, lo, hi, st)

    def index(self, arr, idx):
        """Element of a nested list / reshaped array."""
        if not idx:
            return arr
        if arr[0] == "list" and len(arr[1]) == 1 and arr[1][0][0] == "rep" and len(arr[1][0][1]) == 1:
            _, lvs, item = arr[1][0]
            return self.index(subst(item, lvs[0], idx[0]), idx[1:])
        if arr[0] == "list" and all(i[0] == "one" for i in arr[1]):
            return self.index(sub(arr, idx[0]), idx[1:])
        return ("elem", arr, tuple(idx))

    def call(self, n: ast.Call, env):
        f = n.func
        # methods first
        if isinstance(f, ast.Attribute):
            r = None
            root = f.value
            while isinstance(root, (ast.Attribute, ast.Subscript)):
                root = root.value
            if not (isinstance(root, ast.Name) and root.id in env):
                r = self.p.resolve(self.func.module, f, self.func)
            if r is None:
                base = self.ev(f.value, env)
                return self.method(n, base, f.attr, env)
            target = self.ref(r) if not isinstance(r, Func) else r
        elif isinstance(f, ast.Name) and f.id in env:
            target = env[f.id]
            if target[0] == "func":
                target = self.p.func(target[1])
        else:
            r = self.p.resolve(self.func.module, f, self.func)
            target = r if isinstance(r, (Func, Class)) else (self.ref(r) if r is not None else UNK)
            if r is None:
                base = self.ev(f, env)
                if base[0] == "func":
                    target = self.p.func(base[1])
                else:
                    target = base
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if v[0] == "tuple":
                    args.extend(v[1])
                    continue
                if v[0] == "list" and all(i[0] == "one" for i in v[1]):
                    args.extend(i[1] for i in v[1])
                    continue
                args.append(("star", v))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is not None:
                kw[k.arg] = self.ev(k.value, env)
        if isinstance(target, Func):
            return self.call_func(target, args, kw, n)
        if isinstance(target, Class):
            return ("call", target.name, *args, *[("kw", k, v) for k, v in sorted(kw.items())])
        if isinstance(target, tuple) and target[0] == "type":
            return ("call", target[1].rsplit(".", 1)[-1], *args, *[("kw", k, v) for k, v in sorted(kw.items())])
        if isinstance(target, tuple) and target[0] == "ext":
            return self.external(target[1], n, args, kw, env)
        return UNK

    def call_func(self, f: Func, args, kw, node):
        name = f.name
        bound: dict = {}
        ps = f.params
        pos = [p for p in ps if p.kind in ("pos", "posonly")]
        for p, a in zip(pos, args):
            bound[p.name] = a
        for k, v in kw.items():
            bound[k] = v
        if name in FACADE or not self.should_inline(f) or self.depth > MAX_DEPTH or any(a[0] == "star" for a in args):
            vals = [bound.get(p.name, ("default", p.name)) for p in ps if p.kind in ("pos", "posonly", "kw")]
            return ("call", name, *vals)
        for p in ps:
            if p.name not in bound:
                if p.kind == "var":
                    bound[p.name] = ("tuple", tuple(args[len(pos):]))
                elif p.default is not None:
                    bound[p.name] = self.ev(p.default, {})
                else:
                    bound[p.name] = UNK
        return self.run_func(f, bound)

    def run_func(self, f: Func, bound: dict):
        save = self.func if hasattr(self, "func") else None
        self.func = f
        self.depth += 1
        self.inlined.add(f.short)
        frame = {"ret": []}
        try:
            self.block(f.node.body, bound, frame)
        finally:
            self.depth -= 1
            self.func = save if save is not None else f
        rets = frame["ret"]
        if not rets:
            return ("none",)
        out = rets[-1][1]
        for c, v in reversed(rets[:-1]):
            if v == out:
                continue
            out = ("ifexp", c[0], v, out) if c and c[1] else (("ifexp", c[0], out, v) if c else v)
        return out

    def should_inline(self, f: Func) -> bool:
        if f.module is self.mod:
            return True
        if f.qual in self.writers:
            return True
        r = f.node.returns
        return isinstance(r, ast.Name) and r.id == "str"

    def method(self, n: ast.Call, base, attr, env):
        args = [("star", self.ev(a.value, env)) if isinstance(a, ast.Starred) else self.ev(a, env) for a in n.args]
        kw = {k.arg: self.ev(k.value, env) for k in n.keywords if k.arg}
        if base == UNK:
            if attr == "append" and isinstance(n.func.value, ast.Name):
                return ("none",)
            return UNK
        k = base[0]
        if attr == "append" and k == "list" and isinstance(n.func.value, ast.Name):
            env[n.func.value.id] = ("list", (*base[1], ("one", args[0])))
            return ("none",)
        if attr == "extend" and k == "list" and isinstance(n.func.value, ast.Name):
            v = args[0]
            if v[0] == "list":
                env[n.func.value.id] = ("list", (*base[1], *v[1]))
            elif v[0] == "tuple":
                env[n.func.value.id] = ("list", (*base[1], *[("one", x) for x in v[1]]))
            else:
                env[n.func.value.id] = UNK
            return ("none",)
        if k == "text" and attr == "join":
            return self.join(base, args[0])
        if k == "text" and attr in ("strip", "lstrip", "rstrip", "splitlines", "format", "replace", "encode"):
            s = as_str(base)
            if s is not None and attr in ("strip", "lstrip", "rstrip") and not args:
                return lit(getattr(s, attr)())
            return UNK
        if attr in ("open",) and k in ("path", "dir"):
            mode = as_str(args[0]) if args else as_str(kw.get("mode", lit("r")))
            return self.open(n, base, mode or "r" if args or "mode" in kw else "r")
        if k in ("path", "dir"):
            if attr in ("joinpath",):
                for a in args:
                    base = ("path", base, a)
                return base
            if attr == "with_name":
                return ("path", base[1], args[0]) if k == "path" else UNK
            if attr == "with_suffix":
                s = as_str(base[2]) if k == "path" else None
                if s is not None and as_str(args[0]) is not None:
                    return ("path", base[1], lit(s.rsplit(".", 1)[0] + as_str(args[0])))
                return UNK
            if attr in ("absolute", "resolve", "as_posix"):
                return base
            if attr in ("write_text", "write_bytes"):
                self.event("write", n, path=base, text=args[0], mode="w")
                return ("none",)
            if attr in ("read_text", "read_bytes"):
                return self.read(n, base)
            if attr in ("unlink", "rmdir", "rename", "replace", "mkdir", "touch"):
                self.event("fs:" + attr, n, path=base)
                return ("none",)
            if attr == "exists":
                return ("attr", base, "exists")
        if k == "file":
            if attr in ("write", "writelines"):
                for o in self.open_files:
                    if o["file"] == base:
                        t = args[0]
                        if attr == "writelines":
                            t = self.join(lit(""), t)
                        o["text"] = cat(o["text"], to_text(t)) if o["text"] != UNK and t != UNK else UNK
                return ("none",)
            if attr in ("read",):
                return self.read(n, base[1])
            if attr == "readlines":
                return ("call", "splitlines", self.read(n, base[1]))
            if attr == "close":
                self.close(base)
                return ("none",)
            if attr == "flush":
                return ("none",)
        if attr == "get" and args:
            return ("get", base, args[0])
        if attr in ("reshape",):
            s = args[0][1] if len(args) == 1 and args[0][0] in ("tuple",) else tuple(args)
            return self.reshape(base, s)
        if attr in ("ravel", "flatten"):
            return self.reshape(base, (const(-1),))
        if attr in ("astype", "copy"):
            return base
        if attr in ("transpose", "swapaxes"):
            return self.permute(base, attr, args)
        if attr in ("conj", "conjugate"):
            return ("conj", base)
        if attr == "item":
            return base
        if attr in ("strip", "lstrip", "rstrip") and not args:
            return ("strip", base)
        if attr == "splitlines":
            return ("call", "splitlines", base)
        if attr == "split":
            b = base
            while b[0] == "strip":
                b = b[1]
            if args and as_str(args[0]) == "\n":
                return ("call", "splitlines", base)
            if not args:
                return ("call", "split", b)
            return ("call", "splitat", base, *args)
        if attr == "group":
            return ("group", base, *args)
        if attr in ("wait", "check_returncode", "communicate"):
            return ("call", attr, base)
        return ("call", "." + attr, base, *args, *[("kw", a, b) for a, b in sorted(kw.items())])

    def reshape(self, base, sizes):
        sizes = tuple(poly(s) if poly(s) is not None else UNK for s in sizes)
        if sizes == (const(-1),):
            return ("flat", base)
        if base[0] in ("flat",) and True:
            base = base[1] if base[1][0] != "reshape" else base[1][1]
        return ("reshape", base, sizes)

    def permute(self, base, how, args):
        return ("perm", how, base, tuple(args))

    def join(self, sep, seq):
        s = as_str(sep)
        if s is None:
            return UNK
        if seq == UNK:
            return UNK
        if seq[0] == "tuple":
            seq = ("list", tuple(("one", x) for x in seq[1]))
        if seq[0] != "list":
            lvs, item, _ = self.iterate(seq)
            if lvs is None:
                return UNK
            return ("text", (("rep", s, lvs, to_text(item)),))
        out = lit("")
        for i, it in enumerate(seq[1]):
            if i:
                out = cat(out, lit(s))
            if it[0] == "one":
                if it[1] == UNK:
                    return UNK
                out = cat(out, to_text(it[1]))
            else:
                if it[2] == UNK:
                    return UNK
                out = cat(out, ("text", (("rep", s, it[1], to_text(it[2])),)))
        return out

    # -- files
    def open(self, n, path, mode):
        self.n += 1
        fl = ("file", path, mode, self.n)
        if any(c in mode for c in "wax+"):
            self.open_files.append({"file": fl, "text": lit(""), "node": n, "conds": tuple(self.conds), "fn": self.func})
        return fl

    def close(self, fl):
        for o in list(self.open_files):
            if o["file"] == fl:
                self.open_files.remove(o)
                self.events.append(
                    {"kind": "write", "loc": f"{o['fn'].module.rel}:{o['node'].lineno}", "conds": o["conds"], "fn": o["fn"].short, "path": fl[1], "text": o["text"], "mode": fl[2]}
                )

    def read(self, n, path):
        self.n += 1
        t = ("filetext", path, self.n)
        self.event("read", n, path=path, value=t)
        return t

    # -- external calls
    def external(self, name, n, args, kw, env):
        last = name.rsplit(".", 1)[-1]
        a0 = args[0] if args else UNK
        if name.startswith("subprocess.") or name in ("os.system", "os.popen") or name.startswith(("os.exec", "os.spawn")):
            self.event("run", n, how=name, args=args, kw=kw, open=[o["file"] for o in self.open_files])
            return ("proc", self.n)
        if name in ("tempfile.TemporaryDirectory",):
            self.n += 1
            return ("tempdir", self.n, tuple(sorted((k, v) for k, v in kw.items())))
        if name == "tempfile.mkdtemp":
            self.n += 1
            d = ("dir", self.n)
            self.event("mkdtemp", n, dir=d)
            return d
        if name == "shutil.rmtree":
            self.event("rmtree", n, path=a0, final=self.final_depth > 0)
            return ("none",)
        if name in ("pathlib.Path", "pathlib.PurePath", "str", "builtins.str", "os.fspath", "os.path.abspath"):
            if len(args) > 1:
                for a in args[1:]:
                    a0 = ("path", a0, a)
                return a0
            if a0[0] in ("dir", "path"):
                return a0
            if last == "str":
                return to_text(a0)
            return ("somepath", a0)
        if name == "os.path.join":
            for a in args[1:]:
                a0 = ("path", a0, a)
            return a0
        if name in ("os.chdir", "os.remove", "os.unlink"):
            self.event("fs:" + last, n, path=a0)
            return ("none",)
        if name == "builtins.open":
            mode = as_str(args[1]) if len(args) > 1 else as_str(kw.get("mode", lit("r")))
            return self.open(n, a0, mode or "r")
        if name == "builtins.input":
            self.event("ask", n)
            return UNK
        if name in ("typing.cast",):
            return args[1] if len(args) > 1 else UNK
        if name == "builtins.range":
            ps = [poly(a) for a in args]
            if len(ps) == 1 and ps[0] is not None:
                return ("range", const(0), ps[0])
            if len(ps) == 2 and None not in ps:
                return ("range", ps[0], ps[1])
            return UNK
        if name == "builtins.enumerate":
            start = args[1] if len(args) > 1 else kw.get("start", const(0))
            return ("enumerate", a0, start) if is_poly(start) else UNK
        if name == "numpy.ndenumerate":
            return ("ndenum", a0)
        if name == "numpy.ndindex":
            sizes = a0[1] if len(args) == 1 and a0[0] == "tuple" else tuple(args)
            if len(args) == 1 and a0[0] == "attr" and a0[2] == "shape" and a0[1][0] == "reshape":
                sizes = a0[1][2]
            if all(poly(s) is not None for s in sizes) and sizes:
                return ("product", tuple(("range", const(0), poly(s)) for s in sizes))
            return UNK
        if name == "itertools.product":
            return ("product", tuple(args)) if not kw else UNK
        if name == "builtins.zip":
            return ("zip", tuple(args))
        if name in ("builtins.reversed", "builtins.sorted", "builtins.set", "builtins.filter"):
            return ("reordered", last, a0)
        if name in ("builtins.list", "builtins.tuple", "builtins.iter"):
            if not args:
                return ("list", ())
            if a0[0] in ("tuple", "list"):
                if all_one(a0):
                    items = a0[1] if a0[0] == "tuple" else tuple(i[1] for i in a0[1])
                    return ("tuple", items) if last == "tuple" else ("list", tuple(("one", i) for i in items))
                return a0
            if a0[0] == "map":
                return a0
            return a0 if a0[0] in ("call", "range", "enumerate", "zip", "product", "ndenum") else ("seq", a0)
        if name == "builtins.map" and len(args) == 2:
            c = args[1]
            if c[0] == "tuple" or (c[0] == "list" and all_one(c)):
                items = c[1] if c[0] == "tuple" else tuple(i[1] for i in c[1])
                return ("tuple", tuple(self.apply(a0, i, n, env) for i in items))
            lvs, item, _ = self.iterate(c)
            if lvs is not None:
                return ("list", (("rep", lvs, self.apply(a0, item, n, env)),))
            return UNK
        if name == "builtins.int":
            if is_poly(a0):
                return a0
            return atom(("fileint", a0)) if a0 != UNK else UNK
        if name == "builtins.float":
            return ("float", a0) if a0 != UNK else UNK
        if name == "builtins.complex" and len(args) == 2:
            return ("complex", args[0], args[1], 1)
        if name == "builtins.len":
            if a0[0] in ("tuple",) or (a0[0] == "list" and all_one(a0)):
                return const(len(a0[1]))
            return atom(("len", a0)) if a0 != UNK else UNK
        if name in ("builtins.repr", "builtins.format"):
            return to_text(a0) if a0[0] == "text" else ("spec", a0, "r")
        if name == "builtins.print":
            fl = kw.get("file")
            if fl is not None and fl[0] == "file":
                t = lit("")
                for i, a in enumerate(args):
                    t = cat(t, lit(" ")) if i else t
                    t = cat(t, to_text(a)) if t != UNK and a != UNK else UNK
                end = kw.get("end", lit("\n"))
                t = cat(t, end) if t != UNK else UNK
                for o in self.open_files:
                    if o["file"] == fl:
                        o["text"] = cat(o["text"], t) if t != UNK else UNK
            return ("none",)
        if name in ("numpy.real", "numpy.imag"):
            return (last, a0)
        if name in ("numpy.array", "numpy.asarray", "numpy.stack", "numpy.vstack", "numpy.ascontiguousarray") and (last != "stack" or "axis" not in kw):
            return a0
        if name == "numpy.reshape":
            s = args[1][1] if args[1][0] == "tuple" else tuple(args[1:])
            return self.reshape(a0, s)
        if name in ("numpy.ravel",):
            return self.reshape(a0, (const(-1),))
        if name in ("numpy.moveaxis", "numpy.transpose", "numpy.swapaxes", "numpy.rollaxis"):
            return self.permute(a0, last, args[1:])
        if name in ("numpy.conj", "numpy.conjugate"):
            return ("conj", a0)
        if name == "re.search":
            return ("search", args[0], args[1] if len(args) > 1 else UNK)
        if a0 == UNK and args:
            return UNK
        return ("call", name, *args, *[("kw", k, v) for k, v in sorted(kw.items())])

    def apply(self, fn, arg, n, env):
        if fn[0] == "ext":
            return self.external(fn[1], n, [arg], {}, env)
        if fn[0] == "func":
            f = self.p.func(fn[1])
            return self.call_func(f, [arg], {}, n) if f else UNK
        return UNK

    # -- statements
    def block(self, stmts, env, frame) -> bool:
        """True when control cannot reach the end."""
        for s in stmts:
            if self.stmt(s, env, frame):
                return True
        return False

    def stmt(self, s, env, frame) -> bool:
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return False
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.bind(t, v, env)
            return False
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
            return False
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                env[s.target.id] = self.binop(s.op, env.get(s.target.id, UNK), self.ev(s.value, env))
            return False
        if isinstance(s, ast.Return):
            v = self.ev(s.value, env) if s.value is not None else ("none",)
            frame["ret"].append((self.conds[-1] if self.conds else None, v))
            return True
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, (ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Assert, ast.Global, ast.Nonlocal, ast.ClassDef)):
            if isinstance(s, ast.FunctionDef):
                f = self.func.children.get(s.name)
                if f is not None:
                    env[s.name] = ("func", f.qual)
            return False
        if isinstance(s, ast.If):
            c = self.cond(s.test, env)
            if c[0][0] == "bool":
                return self.block(s.body if c[0][1] == c[1] else s.orelse, env, frame)
            e1, e2 = dict(env), dict(env)
            self.conds.append(c)
            d1 = self.block(s.body, e1, frame)
            self.conds[-1] = (c[0], not c[1])
            d2 = self.block(s.orelse, e2, frame)
            self.conds.pop()
            if d1 and d2:
                return True
            if d1:
                env.clear()
                env.update(e2)
                return False
            if d2:
                env.clear()
                env.update(e1)
                return False
            for k in set(e1) | set(e2):
                a, b = e1.get(k, UNK), e2.get(k, UNK)
                if a == b:
                    env[k] = a
                elif a[0] == "text" and b[0] == "text":
                    env[k] = self.join_text(c, a, b)
                else:
                    env[k] = ("ifexp", c[0], a, b) if c[1] else ("ifexp", c[0], b, a)
            return False
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, env, frame)
        if isinstance(s, ast.With):
            return self.with_(s, env, frame)
        if isinstance(s, (ast.Try,)):
            return self.try_(s, env, frame)
        if isinstance(s, ast.Delete):
            return False
        return False

    def join_text(self, c, a, b):
        n = 0
        pa, pb = list(a[1]), list(b[1])
        while n < min(len(pa), len(pb)) and pa[n] == pb[n]:
            n += 1
        pre = pa[:n]
        ra, rb = pa[n:], pb[n:]
        if ra and rb and ra[0][0] == "lit" and rb[0][0] == "lit":
            i = 0
            x, y = ra[0][1], rb[0][1]
            while i < min(len(x), len(y)) and x[i] == y[i]:
                i += 1
            if i:
                pre.append(("lit", x[:i]))
                ra = ([("lit", x[i:])] if x[i:] else []) + ra[1:]
                rb = ([("lit", y[i:])] if y[i:] else []) + rb[1:]
        if not c[1]:
            ra, rb = rb, ra
        return ("text", (*pre, ("opt", c[0], ("text", tuple(ra)), ("text", tuple(rb)))))

    def loop(self, s, env, frame) -> bool:
        if isinstance(s, ast.While):
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    env[n.id] = UNK
            self.block(s.body, env, frame)
            return False
        coll = self.ev(s.iter, env)
        lvs, item, _ = self.iterate(coll)
        if lvs is None:
            for it in item:
                self.bind(s.target, it, env)
                if self.block(s.body, env, frame):
                    break
            return False
        self.n += 1
        mark = ("acc", self.n)
        before = dict(env)
        files = {id(o): o["text"] for o in self.open_files}
        for o in self.open_files:
            o["text"] = ("text", (("lit", ""), mark)) if False else ("text", (mark,))
        for k, v in list(env.items()):
            if v[0] == "text":
                env[k] = ("text", (("accv", k, self.n),))
            elif v[0] == "list" and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend") and isinstance(x.func.value, ast.Name) and x.func.value.id == k for x in ast.walk(s)):
                env[k] = ("list", (("accl", k, self.n),))
        self.bind(s.target, item, env)
        for t in ast.walk(s.target):
            if isinstance(t, ast.Name):
                before.pop(t.id, None)
        self.block(s.body, env, frame)
        for o in self.open_files:
            if id(o) in files:
                t = o["text"]
                if t != UNK and t[1][:1] == (mark,) and not contains(t[1][1:], lambda x: x == mark):
                    rest = t[1][1:]
                    o["text"] = cat(files[id(o)], ("text", (("rep", "", lvs, ("text", rest)),))) if rest else files[id(o)]
                else:
                    o["text"] = UNK
        for k, v in before.items():
            cur = env.get(k, UNK)
            if v[0] == "text":
                m = ("accv", k, self.n) if False else None
                if cur[0] == "text" and cur[1][:1] and cur[1][0][0] == "accv" and cur[1][0][1] == k:
                    rest = cur[1][1:]
                    env[k] = cat(v, ("text", (("rep", "", lvs, ("text", rest)),))) if rest else v
                elif k in env and cur[0] == "text" and not contains(cur, lambda x: x and x[0] == "accv"):
                    pass
                else:
                    env[k] = UNK
            elif v[0] == "list" and cur[0] == "list" and cur[1][:1] and cur[1][0][0] == "accl":
                rest = cur[1][1:]
                if not rest:
                    env[k] = v
                elif len(rest) == 1 and rest[0][0] == "one":
                    env[k] = ("list", (*v[1], ("rep", lvs, rest[0][1])))
                elif len(rest) == 1 and rest[0][0] == "rep":
                    env[k] = ("list", (*v[1], ("rep", (*lvs, *rest[0][1]), rest[0][2])))
                else:
                    env[k] = UNK
        return False

    def with_(self, s: ast.With, env, frame) -> bool:
        entered = []
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if v[0] == "tempdir":
                d = ("dir", v[1])
                self.event("enter", it.context_expr, dir=d, opts=v[2])
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, d, env)
                entered.append(("dir", d))
            elif v[0] == "file":
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, v, env)
                entered.append(("file", v))
            elif v[0] == "call" and v[1] == "contextlib.suppress":
                entered.append(("suppress", len(self.events), it.context_expr))
            else:
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, UNK, env)
        done = self.block(s.body, env, frame)
        for e in reversed(entered):
            if e[0] == "dir":
                self.event("exit", s, dir=e[1])
            elif e[0] == "file":
                self.close(e[1])
            else:
                if any(x["kind"] == "run" for x in self.events[e[1] :]):
                    self.problems.append(("ignored-failure", f"{self.func.module.rel}:{e[2].lineno}", self.func.short, "a failure of the program is suppressed"))
        return done

    def try_(self, s: ast.Try, env, frame) -> bool:
        start = len(self.events)
        done = self.block(s.body, env, frame)
        ran = [x for x in self.events[start:] if x["kind"] == "run"]
        for h in s.handlers:
            e2 = dict(env)
            m = len(self.events)
            keep = list(frame["ret"])
            d = self.block(h.body, e2, frame)
            asked = any(x["kind"] == "ask" for x in self.events[m:])
            rerun = any(x["kind"] == "run" for x in self.events[m:])
            del self.events[m:]
            raises = bool(d) and len(frame["ret"]) == len(keep)
            frame["ret"] = keep
            if ran and not raises and not asked and not rerun:
                self.problems.append(
                    ("ignored-failure", f"{self.func.module.rel}:{h.lineno}", self.func.short, "the handler around the program run neither raises nor asks for a manual run, so a failed run is ignored")
                )
        if s.orelse and not done:
            done = self.block(s.orelse, env, frame)
        if s.finalbody:
            self.final_depth += 1
            self.block(s.finalbody, env, frame)
            self.final_depth -= 1
        return done


def all_one(a) -> bool:
    return a[0] == "tuple" or all(i[0] == "one" for i in a[1])


# ------------------------------------------------------------------ text → words
def words(t) -> list:
    """A text as a list of 'NL', word tuples, ('rep', lvs, words) and ('opt', cond, words, words)."""
    out: list = []
    cur: list = []

    def flush() -> None:
        nonlocal cur
        if cur:
            out.append(("w", tuple(cur)))
            cur = []

    for p in t[1]:
        if p[0] == "lit":
            buf = ""
            for ch in p[1]:
                if ch in " \t\n":
                    if buf:
                        cur.append(buf)
                        buf = ""
                    flush()
                    if ch == "\n":
                        out.append("NL")
                else:
                    buf += ch
            if buf:
                cur.append(buf)
        elif p[0] == "fmt":
            cur.append(p[1])
        elif p[0] == "rep":
            flush()
            body = words(cat(p[3], lit(p[1]))) if p[3] != UNK else [("w", (UNK,))]
            out.append(("rep", p[2], body))
        elif p[0] == "opt":
            flush()
            out.append(("opt", p[1], words(p[2]), words(p[3])))
        else:
            flush()
            out.append(("w", (UNK,)))
    flush()
    return out


def plain(v):
    """Strip a format specification that keeps every digit."""
    while isinstance(v, tuple) and v and v[0] == "spec":
        v = v[1]
    return v


def value(w):
    """The term of a one-piece word."""
    if isinstance(w, tuple) and w[0] == "w" and len(w[1]) == 1:
        return plain(w[1][0])
    return None


def no_nl(ws) -> list:
    return [w for w in ws if w != "NL"]


def chain(ws, lvs=()):
    """Descend through nested repetitions that hold nothing else: (lvs, row words)."""
    body = no_nl(ws)
    if len(body) == 1 and body[0][0] == "rep":
        return chain(body[0][2], (*lvs, *body[0][1]))
    return lvs, ws


# ------------------------------------------------------------------ the checks
class Checker:
    def __init__(self, project: Project, res: Result) -> None:
        self.p = project
        self.res = res

    def bad(self, rule: str, fn: str, what: str, loc: str, msg: str) -> None:
        self.res.add(rule, fn, what, loc, msg)

    # lint over every process start in the package
    def lint(self) -> None:
        for f in self.p.funcs:
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Call):
                    continue
                r = self.p.resolve(f.module, n.func, f)
                if not isinstance(r, Ext):
                    continue
                if not (r.name.startswith("subprocess.") or r.name in ("os.system", "os.popen")):
                    continue
                self.res.count("process starts")
                loc = f"{f.module.rel}:{n.lineno}"
                if r.name in ("os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput"):
                    self.bad("shell", f.short, "run", loc, f"{r.name} passes its command through a shell")
                    continue
                kw = {k.arg: k.value for k in n.keywords}
                sh = kw.get("shell")
                if sh is not None and not (isinstance(sh, ast.Constant) and not sh.value):
                    self.bad("shell", f.short, "run", loc, "the program is started through a shell")
                a = n.args[0] if n.args else kw.get("args")
                lits = [x.value for x in ast.walk(a) if isinstance(x, ast.Constant) and isinstance(x.value, str)] if a is not None else []
                if isinstance(a, ast.Name):
                    for d in ast.walk(f.node):
                        if isinstance(d, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in d.targets):
                            a = d.value
                            lits = [x.value for x in ast.walk(a) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                            break
                if isinstance(a, (ast.Constant, ast.JoinedStr)) or (isinstance(a, ast.BinOp) and any(isinstance(x, ast.JoinedStr) for x in (a.left, a.right))):
                    self.bad("shell", f.short, "args", loc, "the command line is one string instead of a fixed list of arguments")
                if any("wannier90" in s for s in lits):
                    self.res.count("program runs")
                    ok = r.name in ("subprocess.check_call", "subprocess.check_output")
                    c = kw.get("check")
                    if c is not None and isinstance(c, ast.Constant) and c.value is True:
                        ok = True
                    if c is not None and not isinstance(c, ast.Constant):
                        ok = True
                    if any(isinstance(x, ast.Attribute) and x.attr in ("returncode", "check_returncode") for x in ast.walk(f.node)):
                        ok = True
                    if r.name == "subprocess.call" and any(isinstance(x, (ast.Assign, ast.If, ast.Compare)) and any(y is n for y in ast.walk(x)) for x in ast.walk(f.node)):
                        ok = True
                    if not ok:
                        self.bad("unchecked-run", f.short, "check", loc, "the exit status of the program is not checked, so a failed run goes unnoticed")

    def entry(self) -> None:
        fs = [f for f in self.p.funcs if f.name == ENTRY and f.cls is None and f.parent is None]
        if not fs:
            raise AnalysisBroken(f"{ENTRY} is gone: the exchange with the external program has no entry point")
        f = fs[0]
        it = Interp(self.p)
        it.mod = f.module
        it.writers = self.writers()
        it.func = f
        bound = {}
        for p in f.params:
            bound[p.name] = ("param", p.name)
        first = next(p.name for p in f.params if p.kind in ("pos", "posonly"))
        self.w = ("param", first)
        ret = it.run_func(f, bound)
        self.it = it
        self.f = f
        self.res.count("functions interpreted", len(it.inlined))
        self.res.count("effects", len(it.events))
        for rule, loc, fn, msg in it.problems:
            self.bad(rule, fn, "failure", loc, msg)
        self.protocol(it.events)
        self.texts(it.events)
        self.result(ret)

    def individual(self) -> None:
        """Band-by-band localisation: the runs' results are put on the diagonal of the band that was run."""
        for f in self.p.funcs:
            if f.name != ENTRY + "_individual_bands" or f.parent is not None:
                continue
            it = Interp(self.p)
            it.mod = f.module
            it.writers = set()
            it.func = f
            ret = it.run_func(f, {p.name: ("param", p.name) for p in f.params})
            if ret[0] != "dict":
                continue
            w = ("param", f.params[0].name)
            b = sub(w, lit("basis"))
            kb, bb = sub(sub(b, const(0)), const(1)), sub(sub(b, const(0)), const(0))
            size = {atom(("attr", kb, "n")): "k", atom(("attr", bb, "n")): "band"}
            facs = self.factors(sub(ret, lit("basis")))
            data = sub(ret, lit("data"))
            while data[0] == "flat":
                data = data[1]
            if facs is None or data[0] != "stored" or data[2][0] != "tuple" or len(data[2][1]) != 3:
                continue
            key = data[2][1]
            full = [i for i, x in enumerate(key) if x[0] == "slc" and x[1] == ("none",)]
            val = data[3]
            perm: list = []
            while val[0] in ("perm", "T"):
                perm.append(val)
                val = val[1] if val[0] == "T" else val[2]
            if val[0] != "reshape" or len(val[2]) != 2 or not contains(val, lambda x: x[0] == "call" and x[1] == ENTRY):
                continue
            src = find_all(val[1], lambda x: x[0] == "rep")
            if len(src) != 1 or len(src[0][1]) != 1 or not find_all(src[0][2], lambda x: x[0] == "call" and x[1] == ENTRY):
                continue
            outer = it.domain.get(src[0][1][0])
            self.res.count("band-by-band results traced")
            sizes = [size.get(s) for s in val[2]]
            if None in sizes or size.get(outer) != "band":
                continue
            if sizes != ["band", "k"]:
                self.bad("result-order", f.short, "stack-order", f.loc, "the results of the runs, one after the other per band, are taken apart with the sample points first")
                continue
            ax = sizes
            for _ in perm:
                ax = ax[::-1]
            if len(full) == 1:
                tags = ["k" if x == kb else "band" if x == bb else None for x in facs]
                if tags.count(None) == 0 and len(tags) == 3:
                    # numpy puts adjacent advanced indices in place: the slice keeps its position
                    want = ["k", "band"] if full[0] == 0 else ["band", "k"] if full[0] == 2 else None
                    if want is not None and tags[full[0]] == "k" and ax != want:
                        self.bad("result-order", f.short, "diagonal-order", f.loc, "the results of the runs are stored with bands and sample points exchanged")

    def writers(self) -> set[str]:
        """Functions that (transitively) touch files or processes directly."""
        direct: set[str] = set()
        edges: dict[str, set[str]] = {}
        for f in self.p.funcs:
            es = edges.setdefault(f.qual, set())
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    r = self.p.resolve(f.module, n.func, f)
                    if isinstance(r, Func):
                        es.add(r.qual)
                    elif isinstance(r, Ext) and (r.name.startswith(("subprocess.", "tempfile."))):
                        direct.add(f.qual)
        out = set(direct)
        while True:
            new = {q for q, es in edges.items() if q not in out and es & out}
            if not new:
                return out
            out |= new

    # -- typestate of the folder
    def protocol(self, ev) -> None:
        runs = [e for e in ev if e["kind"] == "run"]
        if not runs:
            raise AnalysisBroken("no run of the external program is reached from its entry point")
        self.res.count("runs on the path", len(runs))
        tmp: dict = {}
        for i, e in enumerate(ev):
            if e["kind"] == "enter":
                tmp[e["dir"]] = i
                for k, v in e["opts"]:
                    if k == "delete" and v != ("bool", True):
                        self.bad("kept-folder", e["fn"], "delete", e["loc"], "the scratch folder is not removed on exit")
            if e["kind"] == "mkdtemp":
                tmp[e["dir"]] = i
                if not any(x["kind"] == "rmtree" and x["path"] == e["dir"] and x["final"] for x in ev):
                    self.bad("kept-folder", e["fn"], "mkdtemp", e["loc"], "the scratch folder is not removed on every exit")
        exits = {e["dir"]: i for i, e in enumerate(ev) if e["kind"] == "exit"}
        exits.update({e["path"]: i for i, e in enumerate(ev) if e["kind"] == "rmtree" and e["path"] in tmp})
        odd = [e for e in ev if e["kind"].startswith("fs:")]
        for i, e in enumerate(ev):
            if e["kind"] == "run":
                cwd = e["kw"].get("cwd")
                if cwd is None:
                    if not any(x["kind"] == "fs:chdir" for x in odd):
                        self.bad("outside-scratch", e["fn"], "run", e["loc"], "the program is not run inside the scratch folder (no cwd)")
                elif cwd[0] == "dir":
                    if cwd in exits and i > exits[cwd]:
                        self.bad("outside-scratch", e["fn"], "run", e["loc"], "the program is run after its scratch folder is gone")
                elif cwd != UNK:
                    self.bad("outside-scratch", e["fn"], "run", e["loc"], "the program is run in a folder that is not a private temporary one")
                if e["open"]:
                    self.bad("unfinished-input", e["fn"], "run", e["loc"], "the program is run while an input file is still open for writing")
                args = e["args"][0] if e["args"] else e["kw"].get("args", UNK)
                if args != UNK and args[0] in ("list", "tuple"):
                    items = [x[1] for x in args[1]] if args[0] == "list" and all_one(args) else (list(args[1]) if args[0] == "tuple" else [])
                    for x in items:
                        if as_str(x) is None and x != UNK and x[0] != "dir":
                            self.bad("argument-list", e["fn"], "args", e["loc"], "an argument of the program depends on data")
            if e["kind"] in ("write", "read"):
                path = e["path"]
                d = path[1] if path[0] == "path" else None
                if path[0] in ("somepath", "text") or (d is not None and d[0] in ("somepath", "text")):
                    self.bad("outside-scratch", e["fn"], e["kind"], e["loc"], f"a file of the exchange is {'written' if e['kind'] == 'write' else 'read'} outside the private temporary folder")
                if d is not None and d in exits and i > exits[d]:
                    self.bad("outside-scratch", e["fn"], e["kind"], e["loc"], "a file of the exchange is used after the scratch folder is removed")
        # names
        seeds = set()
        for e in runs:
            args = e["args"][0] if e["args"] else e["kw"].get("args", UNK)
            if args != UNK and args[0] in ("list", "tuple") and all_one(args):
                items = [x[1] for x in args[1]] if args[0] == "list" else list(args[1])
                for x in items[1:]:
                    s = as_str(x)
                    if s and not s.startswith("-"):
                        seeds.add(s.removesuffix(".win"))
        self.seed = next(iter(seeds)) if len(seeds) == 1 else None
        if len(seeds) > 1:
            self.bad("seed-name", runs[0]["fn"], "seed", runs[0]["loc"], f"the runs use different seed names {sorted(seeds)}")
        if self.seed is None:
            return

        def nm(e):
            return as_str(e["path"][2]) if e["path"][0] == "path" else None

        if any(e["kind"] in ("write", "read") and nm(e) is None for e in ev) or odd:
            return
        idx = [i for i, e in enumerate(ev) if e["kind"] == "run"]
        for e in ev:
            if e["kind"] == "write" and "a" in e["mode"]:
                self.bad("stale-input", e["fn"], nm(e), e["loc"], f"{nm(e)} is appended to, so the earlier contents reach the next run")
        names = {"win": f"{self.seed}.win", "nnkp": f"{self.seed}.nnkp", "mmn": f"{self.seed}.mmn", "amn": f"{self.seed}.amn", "u": f"{self.seed}_u.mat"}
        win_at = [i for i, e in enumerate(ev) if e["kind"] == "write" and nm(e) == names["win"]]
        for j, r in enumerate(idx):
            lo = idx[j - 1] if j else -1
            fresh = [i for i in win_at if lo < i < r and not ev[i]["conds"]]
            e = ev[r]
            if not fresh:
                self.bad("missing-input", e["fn"], f"win-{'setup' if j == 0 else 'main'}", e["loc"], f"{names['win']} is not written between the {'start' if j == 0 else 'previous run'} and this run")
                continue
            setup = self.is_setup(ev[fresh[-1]]["text"])
            if j == 0 and len(idx) > 1 and setup is False:
                self.bad("missing-input", e["fn"], "postproc", e["loc"], "the first run is not asked for the overlaps it needs (post-processing setup)")
            if j == len(idx) - 1 and len(idx) > 1:
                if setup is True:
                    self.bad("missing-input", e["fn"], "postproc", e["loc"], "the last run is still a setup run and produces no result")
                mm = [i for i, x in enumerate(ev) if x["kind"] == "write" and nm(x) == names["mmn"] and i < r]
                if not any(not ev[i]["conds"] for i in mm):
                    self.bad("missing-input", e["fn"], "mmn", e["loc"], f"{names['mmn']} is not written before the run on every path")
                am = [i for i, x in enumerate(ev) if x["kind"] == "write" and nm(x) == names["amn"] and i < r]
                flag = self.flag(ev[fresh[-1]]["text"], "auto_projections")
                if flag is not None:
                    have = {ev[i]["conds"] for i in am}
                    if flag == "always":
                        if () not in have:
                            self.bad("missing-input", e["fn"], "amn", e["loc"], f"{names['amn']} is announced but not written on every path")
                    elif not any(c == () or c == (flag,) for c in have):
                        self.bad("missing-input", e["fn"], "amn", e["loc"], f"{names['amn']} is announced under a condition under which it is not written")
        # reads
        rd = {i: nm(e) for i, e in enumerate(ev) if e["kind"] == "read"}
        for i, name in rd.items():
            e = ev[i]
            before = [r for r in idx if r < i]
            if name == names["nnkp"]:
                if not before:
                    self.bad("stale-result", e["fn"], name, e["loc"], f"{name} is read before the run that produces it")
            elif name == names["u"]:
                if len(before) < len(idx):
                    self.bad("stale-result", e["fn"], name, e["loc"], f"{name} is read before the last run")
            elif name not in {nm(x) for x in ev if x["kind"] == "write"}:
                if not name.startswith(self.seed):
                    self.bad("stale-result", e["fn"], name, e["loc"], f"{name} is not a file the run of '{self.seed}' produces")
        if names["u"] not in rd.values() and not any(n and "u" in n and n.startswith(self.seed) for n in rd.values()):
            self.bad("stale-result", self.f.short, "u", self.f.loc, f"the result file {names['u']} is never read")
        for i, e in enumerate(ev):
            if e["kind"] == "write" and nm(e) == names["mmn"]:
                reads = [j for j, n in rd.items() if n == names["nnkp"] and j < i]
                toks = find_all(e["text"], lambda x: len(x) == 3 and x[0] == "filetext")
                if toks and not any(ev[j]["value"] in toks for j in reads):
                    self.bad("stale-result", e["fn"], "mmn", e["loc"], f"the overlaps are not written for the neighbours listed in {names['nnkp']}")

    def is_setup(self, text):
        if text == UNK:
            return None
        ws = self.flat(text)
        for i, w in enumerate(ws):
            if w == ("w", ("postproc_setup",)):
                if i + 2 < len(ws) and isinstance(ws[i + 2], tuple) and ws[i + 2][0] == "w":
                    return str(ws[i + 2][1][0]).lower().strip(".").startswith("t")
                return True
        return None if any(isinstance(w, tuple) and w[0] == "opt" and contains(w, lambda x: x == ("w", ("postproc_setup",))) for w in ws) else False

    def flat(self, text):
        return [w for w in words(text) if w != "NL"]

    def flag(self, text, name):
        """None, 'always', or the condition under which a flag is set in the text."""
        if text == UNK:
            return None
        for w in self.flat(text):
            if w == ("w", (name,)):
                return "always"
            if isinstance(w, tuple) and w[0] == "opt":
                a = ("w", (name,)) in w[2]
                b = ("w", (name,)) in w[3]
                if a and not b:
                    return (w[1], True)
                if b and not a:
                    return (w[1], False)
        return None

    # -- contents
    def texts(self, ev) -> None:
        b = sub(self.w, lit("basis"))
        self.k_basis = sub(sub(b, const(0)), const(1))
        self.b_basis = sub(sub(b, const(0)), const(0))
        self.K = atom(("attr", self.k_basis, "n"))
        self.B = atom(("attr", self.b_basis, "n"))
        for e in ev:
            if e["kind"] != "write" or e["path"][0] != "path":
                continue
            name = as_str(e["path"][2])
            if name is None or e["text"] == UNK:
                continue
            ext = name.rsplit(".", 1)[-1]
            self.res.sample(f"{name}: {len(words(e['text']))} words and repetitions")
            if ext == "amn":
                self.amn(e)
            elif ext == "mmn":
                self.mmn(e)
            elif ext == "win":
                self.win(e)

    def header(self, e, ws, expect, what):
        """The comment line and the three counts."""
        nl = 0
        head = []
        rest = ws
        for i, w in enumerate(ws):
            if w == "NL":
                if head:
                    rest = ws[i:]
                    break
                nl += 1
            elif isinstance(w, tuple) and w[0] == "w" and nl >= 1:
                head.append(value(w))
            elif isinstance(w, tuple) and w[0] == "w":
                if value(w) is not None and is_poly(value(w)):
                    self.bad("file-layout", e["fn"], f"{what}-comment", e["loc"], f"the {what} file starts with its counts: the program skips the first line as a comment")
                    return None
            else:
                return None
        if len(head) != 3 or None in head:
            if not any(h is None or unknown(h) for h in head):
                self.bad("file-layout", e["fn"], f"{what}-header", e["loc"], f"the {what} file declares {len(head)} counts instead of three")
            return None
        self.res.count("counts checked", 3)
        if nl != 1:
            self.bad("file-layout", e["fn"], f"{what}-comment", e["loc"], f"the counts of the {what} file are not on its second line")
        for got, (want, label) in zip(head, expect):
            if want is None or unknown(got):
                continue
            if got != want:
                self.bad("file-layout", e["fn"], f"{what}-count-{label}", e["loc"], f"the {what} file does not declare the number of {label} in its place")
        return rest

    def amn(self, e) -> None:
        ws = words(e["text"])
        recs = find_all(e["text"], lambda x: x[0] == "call" and len(x) >= 4 and x[1] == "get_state_projections_many_band")
        proj = None
        if recs:
            proj = atom(("attr", sub(sub(recs[0][3], lit("basis")), const(0)), "n"))
        rest = self.header(e, ws, [(self.B, "bands"), (self.K, "k-points"), (proj, "projections")], "amn")
        if rest is None:
            return
        reps = [w for w in rest if isinstance(w, tuple) and w[0] == "rep"]
        if len(reps) != 1 or any(isinstance(w, tuple) and w[0] == "w" for w in rest):
            return
        lvs, row = chain([reps[0]])
        row = no_nl(row)
        vals = [value(w) for w in row]
        if len(vals) != 5:
            if None not in vals:
                self.bad("file-layout", e["fn"], "amn-row", e["loc"], "a line of the amn file does not hold three numbers and one complex value")
            return
        self.res.count("numbers checked", 3)
        got = [split_offset(v) if v is not None else None for v in vals[:3]]
        if None in got:
            return
        for g, label in zip(got, ("band", "projection", "k-point")):
            if g[1] != 1 and g[0][0] == "lv":
                self.bad("numbering", e["fn"], f"amn-{label}", e["loc"], f"{label} numbers in the amn file count from {g[1]} instead of one")
        re_, im = vals[3], vals[4]
        if re_ is None or im is None:
            return
        if re_[0] == "imag" and im[0] == "real":
            self.bad("file-layout", e["fn"], "amn-complex", e["loc"], "the imaginary part is written before the real part in the amn file")
            return
        if re_[0] != "real" or im[0] != "imag" or re_[1] != im[1]:
            return
        el = self.resolve(re_[1])
        if el is None:
            return
        rec, idx = el
        self.res.count("elements traced")
        if rec == "mixed":
            self.bad("file-layout", e["fn"], "amn-order", e["loc"], f"the overlaps are taken apart in an order other than the one they were stacked in ({idx})")
            return
        # rec = projections of states of bloch index kk
        if rec[0] != "call" or rec[1] != "get_state_projections_many_band" or len(idx) != 2:
            return
        st = rec[2]
        if st[0] != "call" or st[1] != "get_states_at_bloch_idx":
            return
        kk = st[3]
        band, pr, k = (atom(g[0]) for g in got)
        for want, have, label in ((band, idx[0], "band"), (pr, idx[1], "projection"), (k, kk, "k-point")):
            if want != have and not unknown(have):
                self.bad("numbering", e["fn"], f"amn-{label}-of", e["loc"], f"the {label} number of an amn line is not the {label} of the overlap on that line")
        for g, want, label in ((got[0], self.B, "bands"), (got[1], proj, "projections"), (got[2], self.K, "k-points")):
            dom = self.it.domain.get(g[0])
            if dom is not None and is_poly(dom) and want is not None and dom != want:
                self.bad("numbering", e["fn"], f"amn-cover-{label}", e["loc"], f"the amn lines do not run over all {label}")

    def axes_of(self, rec):
        """Sizes of the axes of a known record's data."""
        if rec[0] == "call" and rec[1] == "get_state_projections_many_band":
            st, pr = rec[2], rec[3]
            pn = atom(("attr", sub(sub(pr, lit("basis")), const(0)), "n"))
            if st[0] == "call" and st[1] == "get_states_at_bloch_idx":
                return (self.B, pn)
            return (None, pn)
        return None

    def resolve(self, el):
        """(record, indices) of an element of a stacked / reshaped array."""
        if el[0] != "elem":
            return None
        arr, idx = el[1], el[2]
        if arr[0] == "reshape":
            inner, sizes = arr[1], arr[2]
            if inner[0] == "list" and len(inner[1]) == 1 and inner[1][0][0] == "rep" and len(inner[1][0][1]) == 1:
                _, (lv,), item = inner[1][0]
                dom = self.it.domain.get(lv)
                if not is_poly(dom) or UNK in sizes:
                    return None
                if sizes[0] != dom:
                    return ("mixed", "the first axis is not the stacked one") if sizes[0] != const(-1) else None
                return self.resolve(("elem", ("reshape", subst(item, lv, idx[0]), sizes[1:]), idx[1:]))
            if inner[0] == "flat":
                return self.resolve(("elem", ("reshape", inner[1], sizes), idx))
            if inner[0] == "reshape" and len(inner[2]) == len(sizes) and inner[2] == sizes:
                return self.resolve(("elem", inner, idx))
            if inner[0] == "sub" and inner[2] == lit("data"):
                rec = inner[1]
                ax = self.axes_of(rec)
                if ax is None or len(ax) != len(sizes) or UNK in sizes:
                    return None
                known = [(a, s) for a, s in zip(ax, sizes) if a is not None and s != const(-1)]
                if any(a != s for a, s in known):
                    if set(ax) >= {s for s in sizes if s != const(-1)}:
                        return ("mixed", "its axes are exchanged")
                    return None
                return rec, idx
        return None

    def mmn(self, e) -> None:
        ws = words(e["text"])
        rest = self.header(e, ws, [(self.B, "bands"), (self.K, "k-points"), (None, "neighbours")], "mmn")
        if rest is None:
            return
        head = [value(w) for w in ws if isinstance(w, tuple) and w[0] == "w"][:3]
        nn = split_offset(head[2]) if head[2] is not None else None
        if nn is not None:
            if nn[0][0] != "fileint":
                self.bad("file-layout", e["fn"], "mmn-neighbours", e["loc"], "the number of neighbours in the mmn file is not the one the program listed")
            elif nn[1] != 0:
                self.bad("file-layout", e["fn"], "mmn-neighbours", e["loc"], "the number of neighbours in the mmn file differs from the one the program listed")
        reps = [w for w in rest if isinstance(w, tuple) and w[0] == "rep"]
        if len(reps) != 1:
            return
        body = reps[0][2]
        dom = self.it.domain.get(reps[0][1][0])
        if dom is not None and contains(dom, lambda x: x[0] in ("reordered", "filtered")):
            self.bad("file-layout", e["fn"], "mmn-blocks", e["loc"], "the blocks of the mmn file are not all neighbours in the order the program listed them")
        head = []
        i = 0
        while i < len(body) and isinstance(body[i], tuple) and body[i][0] == "w":
            head.append(value(body[i]))
            i += 1
        if len(head) != 5:
            if head and None not in head and not any(unknown(h) for h in head):
                self.bad("file-layout", e["fn"], "mmn-block", e["loc"], "a block of the mmn file does not start with two k-points and three offsets")
            return
        self.res.count("numbers checked", 5)
        ints = []
        for j, h in enumerate(head):
            if h is None or unknown(h):
                return
            if contains(h, lambda x: x and x[0] == "mutated"):
                self.bad("numbering", e["fn"], f"mmn-head-{j}", e["loc"], "a number at the head of an mmn block may be changed from the one the program listed")
                return
            so = split_offset(h)
            if so is None or so[0][0] != "fileint":
                return
            col = so[0][1]
            if col[0] != "sub" or as_const(col[2]) is None:
                return
            if as_const(col[2]) != j or so[1] != 0:
                self.bad("numbering", e["fn"], f"mmn-head-{j}", e["loc"], "the head of an mmn block is not the neighbour entry the program listed (k-points count from one)")
            ints.append(so[0])
        rest = body[i:]
        lvs, row = chain(rest)
        vals = [value(w) for w in no_nl(row)]
        if len(vals) != 2:
            if len(vals) in (1, 3, 4) and None not in vals:
                self.bad("file-layout", e["fn"], "mmn-row", e["loc"], "a line of the mmn file does not hold one complex value")
            return
        re_, im = vals
        if re_ is None or im is None:
            return
        if re_[0] == "imag" and im[0] == "real":
            self.bad("file-layout", e["fn"], "mmn-complex", e["loc"], "the imaginary part is written before the real part in the mmn file")
            return
        if re_[0] != "real" or im[0] != "imag" or re_[1] != im[1]:
            return
        ov = re_[1]
        if ov[0] != "call" or ov[1] != "calculate_inner_product":
            return
        ket, bra = ov[2], ov[3]
        if not (bra[0] == "call" and bra[1] == "as_dual_vector"):
            return
        kb = find_all(ket, lambda x: x[0] == "call" and x[1] == "get_bloch_state_vector")
        bb = find_all(bra, lambda x: x[0] == "call" and x[1] == "get_bloch_state_vector")
        if len(kb) != 1 or len(bb) != 1:
            return
        self.res.count("elements traced")

        if any(b[2][0] == "call" and b[2][1] == "get_wavepacket" and b[2][2] == self.w for b in (kb[0], bb[0])):
            self.bad("numbering", e["fn"], "mmn-offset-basis", e["loc"], "the neighbour is shifted by a reciprocal lattice vector without being converted to the momentum basis first")

        def parts(b):
            wp, k = b[2], b[3]
            if wp[0] == "call" and wp[1] == "get_wavepacket" and is_poly(wp[3]):
                so = split_offset(wp[3])
                return so, split_offset(k)
            return None, split_offset(k)

        (kband, kk), (bband, bk) = parts(kb[0]), parts(bb[0])
        if kk is not None and kk[0][0] == "fileint" and bk is not None and bk[0][0] == "fileint":
            if kk[0] == ints[0] and bk[0] == ints[1]:
                self.bad("numbering", e["fn"], "mmn-k", e["loc"], "the two k-points of an overlap are exchanged")
            elif kk[0] != ints[1] or bk[0] != ints[0]:
                self.bad("numbering", e["fn"], "mmn-k", e["loc"], "the overlap is not between the k-points named at the head of its block")
            if kk[1] != -1 or bk[1] != -1:
                self.bad("numbering", e["fn"], "mmn-k-base", e["loc"], "a k-point number of the exchange (counted from one) is used as an index without subtracting one")
        if kband is not None and bband is not None and len(lvs) == 2:
            if (kband[0], bband[0]) == (lvs[1], lvs[0]):
                self.bad("file-layout", e["fn"], "mmn-order", e["loc"], "the overlaps of a block run over the neighbour's band fastest instead of the first state's band")
            elif (kband[0], bband[0]) != (lvs[0], lvs[1]):
                self.bad("file-layout", e["fn"], "mmn-order", e["loc"], "the overlaps of a block do not run over every pair of bands")
            for v in lvs:
                d = self.it.domain.get(v)
                if is_poly(d) and d != self.B:
                    self.bad("numbering", e["fn"], "mmn-cover", e["loc"], "the overlaps of a block do not run over every band")
        # the reciprocal offset belongs to the neighbour
        if contains(bra, lambda x: x in ints[2:]) and not contains(ket, lambda x: x in ints[2:]):
            self.bad("numbering", e["fn"], "mmn-offset", e["loc"], "the reciprocal lattice offset is applied to the first state instead of the neighbour")
        elif not contains(ket, lambda x: x in ints[2:]) and not unknown(ket):
            self.bad("numbering", e["fn"], "mmn-offset", e["loc"], "the reciprocal lattice offset of the neighbour is not applied")
        else:
            rolls = find_all(ket, lambda x: x[0] == "call" and x[1] == "numpy.roll" and len(x) >= 4)
            for r in rolls:
                sh = r[3]
                if sh[0] == "tuple" and len(sh[1]) == 3:
                    for j, s in enumerate(sh[1]):
                        if contains(s, lambda x, j=j: x == ints[2 + j]):
                            neg = (s[0] == "neg") or (is_poly(s) and any(c < 0 for m, c in s[1] if m))
                            if not neg:
                                self.bad("numbering", e["fn"], "mmn-offset-sign", e["loc"], "the neighbour's state is shifted by plus instead of minus the reciprocal lattice offset")
                                break
                        elif any(contains(s, lambda x, q=q: x == q) for q in ints[2:]):
                            self.bad("numbering", e["fn"], "mmn-offset", e["loc"], "the reciprocal lattice offset is applied along another axis")
                            break

    def win(self, e) -> None:
        ws = self.flat(e["text"])
        for i, w in enumerate(ws):
            if w == ("w", ("num_wann",)) or w == ("w", ("num_bands",)):
                j = i + 1
                if j < len(ws) and ws[j] in (("w", ("=",)), ("w", (":",))):
                    j += 1
                v = value(ws[j]) if j < len(ws) else None
                self.res.count("counts checked")
                if v is not None and is_poly(v) and v != self.B:
                    projs = find_all(v, lambda x: x[0] == "attr" and x[2] == "projection")
                    if not projs:
                        self.bad("file-layout", e["fn"], "win-num_wann", e["loc"], "num_wann is not the number of bands of the wavepackets")
            if w == ("w", ("kpoints",)) and i and ws[i - 1] == ("w", ("begin",)):
                j = i + 1
                if j >= len(ws) or not (isinstance(ws[j], tuple) and ws[j][0] == "rep"):
                    continue
                lvs, body = ws[j][1], no_nl(ws[j][2])
                vals = [value(x) for x in body]
                dom = self.it.domain.get(lvs[0])
                if dom is None or unknown(dom):
                    continue
                self.res.count("k-point lists checked")
                fr = find_all(dom, lambda x: x[0] == "call" and x[1] == "get_wavepacket_sample_fractions")
                if fr and any(x[2] != self.k_basis for x in fr):
                    self.bad("numbering", e["fn"], "win-kpoints", e["loc"], "the k-points listed are not the sample points of the wavepackets")
                if contains(dom, lambda x: x[0] in ("reordered", "filtered")) or contains(dom, lambda x: x[0] == "slice" and as_const(x[4]) not in (1, None)):
                    self.bad("numbering", e["fn"], "win-kpoints-order", e["loc"], "the k-points are not listed in the order of the sample basis")
                ix = []
                for v in vals:
                    if v is not None and v[0] == "sub" and v[1][0] == "item" and as_const(v[2]) is not None:
                        ix.append(as_const(v[2]))
                if len(ix) == len(vals) and len(ix) == 3 and ix != [0, 1, 2]:
                    self.bad("numbering", e["fn"], "win-kpoint-axes", e["loc"], "the components of a k-point are written in another order than the axes")
                if len(vals) == 3 and any(isinstance(x[1][0], tuple) and x[1][0] and x[1][0][0] == "spec" and x[1][0][2] not in ("r", "?") and _short(x[1][0][2]) for x in body if x[0] == "w" and len(x[1]) == 1):
                    self.bad("file-layout", e["fn"], "win-kpoint-digits", e["loc"], "the k-points are written with too few digits for the program to match them to its grid")
        if self.flag(e["text"], "write_u_matrices") is None and self.flag(e["text"], "write_u_matrices=") is None and self.is_setup(e["text"]) is False:
            if not contains(e["text"], lambda x: x == UNK) and not any("write_u_matrices" in str(w) for w in ws):
                self.bad("file-layout", e["fn"], "win-u", e["loc"], "the run is not asked to write the matrices that are read back")

    # -- the result
    def result(self, ret) -> None:
        if ret[0] != "dict":
            return
        basis, data = sub(ret, lit("basis")), sub(ret, lit("data"))
        if data[0] == "flat":
            data = data[1]
        ax = self.order(data)
        if ax is None:
            return
        axes, leaf = ax
        # leaf: ('lines', start, step) pieces
        if len(axes) != 3:
            return
        sl, conj = leaf
        _, lines, start, stop, step = sl
        src = find_all(lines, lambda x: len(x) == 3 and x[0] == "filetext")
        if len(src) != 1 or not (lines[0] == "call" and lines[1] == "splitlines"):
            return
        self.res.count("results traced")
        heads = [x for x in find_all((start, step), lambda x: x[0] == "fileint")]
        cols = {}
        for h in heads:
            c = h[1]  # sub(split(sub(lines, r)), c)
            if c[0] == "sub" and c[1][0] == "call" and c[1][1] == "split" and as_const(c[2]) is not None:
                ln = c[1][2]
                if ln[0] == "sub" and ln[1] == lines:
                    if as_const(ln[2]) == 1:
                        cols[h] = as_const(c[2])
                        continue
                    self.bad("result-order", self.f.short, "u-counts", self.f.loc, "the counts of the result file are not taken from its second line")
                    return
            return
        bad0 = [h for h, c in cols.items() if c == 0]
        if bad0:
            self.bad("result-order", self.f.short, "u-counts", self.f.loc, "the number of k-points of the result file is taken for a number of bands")
            return
        n = ("NW",)

        def unify(p):
            for h in cols:
                p = subst(p, h, atom(n))
            return p

        start, step = unify(start), unify(step)
        N = atom(n)
        if step != padd(const(2), pmul(N, N)):
            self.bad("result-order", self.f.short, "u-step", self.f.loc, "successive blocks of the result file are not one header of two lines and n*n values apart")
            return
        lvs = [a for a in axes if a[0] == "lv"]
        if len(lvs) != 2:
            return
        fast = slow = None
        off = None
        for m, c in start[1]:
            if m == ():
                off = c
            elif len(m) == 1 and m[0] in lvs and c == 1:
                fast = m[0]
            elif len(m) == 2 and n in m and c == 1:
                slow = m[0] if m[1] == n else m[1]
        if fast is None or slow is None:
            self.bad("result-order", self.f.short, "u-start", self.f.loc, "the values of a block are not addressed as n * column + row")
            return
        if off != 4:
            self.bad("result-order", self.f.short, "u-offset", self.f.loc, f"the first value of the result file is looked for on line {off} instead of line 4 (counting from zero)")
        for v in (fast, slow):
            d = self.it.domain.get(v)
            if is_poly(d) and unify(d) != N:
                self.bad("result-order", self.f.short, "u-cover", self.f.loc, "not every value of a block of the result file is read")
        if conj:
            self.bad("result-order", self.f.short, "u-conj", self.f.loc, conj)
        # which basis does each axis carry?
        facs = self.factors(basis)
        if facs is None or len(facs) != 3:
            return
        role = []
        for a in axes:
            role.append("k" if a == ("kaxis",) else "band" if a == fast else "projection")
        tag = []
        for fc in facs:
            if fc == self.k_basis:
                tag.append("k")
            elif fc == self.b_basis:
                tag.append("band")
            elif contains(fc, lambda x: x and x[0] == "attr" and x[2] == "projection"):
                tag.append("projection")
            else:
                return
        self.res.count("result axes checked", 3)
        if role != tag:
            self.bad("result-order", self.f.short, "u-axes", self.f.loc, f"the matrices are read with axes {role} but the result is tagged {tag}")

    def factors(self, b):
        if b[0] == "call" and b[1].startswith("TupleBasis"):
            out = []
            for x in b[2:]:
                if x[0] in ("kw", "star"):
                    return None
                r = self.factors(x)
                if r is None:
                    return None
                out.extend(r)
            return out
        return [b]

    def order(self, arr):
        """Axis list (slow to fast) and leaf of a nested list of blocks."""
        if arr[0] == "flat":
            return self.order(arr[1])
        if arr[0] == "conj":
            r = self.order(arr[1])
            return (r[0], (r[1][0], r[1][1] or "the matrices read back are conjugated")) if r else None
        if arr[0] == "list" and len(arr[1]) == 1 and arr[1][0][0] == "rep":
            _, lvs, item = arr[1][0]
            if len(lvs) == 1:
                dom = self.it.domain.get(lvs[0])
                if isinstance(dom, tuple) and dom[0] == "iter" and dom[1][0] == "slice":
                    leaf = self.leaf(item, lvs[0], dom[1])
                    return ([("kaxis",)], leaf) if leaf else None
            r = self.order(item)
            if r is None:
                return None
            return ([*lvs, *r[0]], r[1])
        if arr[0] == "T":
            r = self.order(arr[1])
            return (r[0][::-1], r[1]) if r else None
        if arr[0] == "perm":
            r = self.order(arr[2])
            if r is None:
                return None
            axes, leaf = list(r[0]), r[1]
            n = len(axes)
            cs = []
            for a in arr[3]:
                if a[0] == "tuple":
                    cs.append(tuple(as_const(x) for x in a[1]))
                else:
                    cs.append(as_const(a))
            try:
                if arr[1] == "moveaxis" and isinstance(cs[0], int):
                    src, dst = cs[0] % n, cs[1] % n
                    a = axes.pop(src)
                    axes.insert(dst, a)
                elif arr[1] == "swapaxes":
                    i, j = cs[0] % n, cs[1] % n
                    axes[i], axes[j] = axes[j], axes[i]
                elif arr[1] == "transpose":
                    if not cs:
                        axes = axes[::-1]
                    else:
                        perm = cs[0] if isinstance(cs[0], tuple) else tuple(cs)
                        axes = [axes[i % n] for i in perm]
                else:
                    return None
            except (TypeError, IndexError):
                return None
            return axes, leaf
        return None

    def leaf(self, item, lv, sl):
        """The parsing of one line into a complex number."""
        if item == UNK or item[0] != "complex":
            return (sl, None)
        _, re_, im, s = item

        def col(t):
            if t[0] == "float" and t[1][0] == "sub" and t[1][1][0] == "call" and t[1][1][1] == "split":
                return as_const(t[1][2])
            return None

        a, b = col(re_), col(im)
        if s == -1 and (a, b) == (0, 1):
            return (sl, "the matrices read back are conjugated")
        if (a, b) == (1, 0):
            return (sl, "the real and imaginary columns of the result file are exchanged")
        return (sl, None)


def _short(spec: str) -> bool:
    import re

    m = re.search(r"\.(\d+)", spec)
    return bool(m) and int(m.group(1)) < 6


def analyse(project: Project, tier: str) -> Result:
    res = Result()
    c = Checker(project, res)
    c.lint()
    c.entry()
    c.individual()
    res.explanation = (
        "The exchange with the external program is interpreted once from its public entry point with symbolic sizes and "
        "loop indices. Its effects (scratch folder, files, runs) are checked as a protocol; each written file as an abstract "
        "text against the published layout; the parsing of the result file as an affine map from line numbers to axes."
    )
    res.assumptions = [
        "the layouts of the .win, .mmn, .amn and _u.mat files are those of the program's user guide",
        "data files of wavepackets have their samples in a fundamental basis, as the entry point documents",
    ]
    res.floors = {"functions interpreted": 5, "effects": 6, "process starts": 1, "runs on the path": 2}
    return res
