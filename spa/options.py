"""C16: options restricted to a fixed set of named values.

Every function that holds such an option is specialised to each of the option's values (tests,
``match`` statements and table look-ups on the option are decided), and the paths that remain are examined.
"""

from __future__ import annotations

import ast

from .calls import bind_args, target_func
from .model import Assign, Class, Ext, Func, Module, Project, walk_own
from .report import Result

UNKNOWN = object()

# What each named value stands for: the routines that realise it (any one is enough).
MARKERS: dict[frozenset, dict[str, set[str]]] = {
    frozenset({"real", "imag", "abs", "angle"}): {
        "real": {"real"},
        "imag": {"imag"},
        "abs": {"abs", "absolute", "hypot"},
        "angle": {"angle", "arctan2"},
    },
    frozenset({"symlog", "linear", "squared", "log"}): {
        "symlog": {"SymLogNorm", "SymmetricalLogScale"},
        "linear": {"LinearScale", "Normalize"},
        "squared": {"SquaredScale", "PowerNorm", "Normalize"},
        "log": {"LogNorm", "LogScale"},
    },
    frozenset({"normal", "exponential normal", "skew normal"}): {
        "normal": {"norm"},
        "exponential normal": {"exponnorm"},
        "skew normal": {"skewnorm"},
    },
    frozenset({"load_or_call_cached", "load_or_call_uncached", "call_uncached", "call_cached"}): {
        v: {v} for v in ("load_or_call_cached", "load_or_call_uncached", "call_uncached", "call_cached")
    },
}
# named values third party routines accept
SCALES = {"linear", "log", "symlog", "asinh", "logit", "function", "functionlog"}
INDEX_MODES = {"raise", "wrap", "clip"}


def literal_set(project: Project, m: Module, ann: ast.expr | None, depth: int = 0) -> frozenset | None:
    """The set of strings an annotation restricts a value to (None for unrestricted)."""
    if ann is None or depth > 6:
        return None
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            return literal_set(project, m, ast.parse(ann.value, mode="eval").body, depth + 1)
        except SyntaxError:
            return None
    if isinstance(ann, ast.Subscript):
        r = project.resolve(m, ann.value)
        n = getattr(r, "name", "")
        if n.endswith(".Literal"):
            elts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            if all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in elts):
                return frozenset(e.value for e in elts)
            return None
        if n.endswith((".Optional", ".Final", ".Annotated")):
            sl = ann.slice.elts[0] if isinstance(ann.slice, ast.Tuple) else ann.slice
            return literal_set(project, m, sl, depth + 1)
        return None
    if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
        sides = [s for s in (ann.left, ann.right) if not (isinstance(s, ast.Constant) and s.value is None)]
        sets = [literal_set(project, m, s, depth + 1) for s in sides]
        if any(s is None for s in sets):
            return None
        return frozenset().union(*sets)
    if isinstance(ann, ast.Name):
        sym = project.resolve_global(m, ann.id)
        if isinstance(sym, Assign):
            return literal_set(project, sym.module, sym.value, depth + 1)
    if isinstance(ann, ast.Attribute):
        sym = project.resolve(m, ann)
        if isinstance(sym, Assign):
            return literal_set(project, sym.module, sym.value, depth + 1)
    return None


def optional(ann: ast.expr | None) -> bool:
    return ann is not None and any(isinstance(n, ast.Constant) and n.value is None for n in ast.walk(ann))


def returns_value(f: Func) -> bool:
    a = f.node.returns
    return a is not None and not (isinstance(a, ast.Constant) and a.value is None) and not (isinstance(a, ast.Name) and a.id in ("NoReturn", "Never"))


class Outcome:
    def __init__(self) -> None:
        self.calls: set[str] = set()
        self.returns = 0
        self.raises = 0
        self.falls = False
        self.missing: list[ast.AST] = []
        self.decided = 0
        self.stmts: set[int] = set()


class Specialise:
    """Walk the paths of ``f`` on which the tracked expressions have the given constant values."""

    def __init__(self, project: Project, f: Func, consts: dict[str, object], depth: int = 0, seen: frozenset = frozenset(), stop: frozenset = frozenset()) -> None:
        self.stop = stop
        self.p = project
        self.f = f
        self.consts = dict(consts)
        self.out = Outcome()
        self.depth = depth
        self.seen = seen | {(id(f.node), tuple(sorted((k, str(v)) for k, v in consts.items())))}

    def key(self, e: ast.expr) -> str | None:
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
            return "self." + e.attr
        return None

    def value(self, e: ast.expr):
        if isinstance(e, ast.Constant):
            return e.value
        k = self.key(e)
        if k is not None and k in self.consts:
            return self.consts[k]
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            vs = [self.value(x) for x in e.elts]
            return UNKNOWN if any(v is UNKNOWN for v in vs) else tuple(vs)
        if isinstance(e, ast.IfExp):
            t = self.test(e.test)
            if t is not None:
                return self.value(e.body if t else e.orelse)
        return UNKNOWN

    def test(self, t: ast.expr) -> bool | None:
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.test(t.operand)
            return None if r is None else not r
        if isinstance(t, ast.BoolOp):
            rs = [self.test(v) for v in t.values]
            if isinstance(t.op, ast.And):
                return False if False in rs else (True if all(r is True for r in rs) else None)
            return True if True in rs else (False if all(r is False for r in rs) else None)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b = self.value(t.left), self.value(t.comparators[0])
            if isinstance(t.ops[0], (ast.In, ast.NotIn)) and a is not UNKNOWN:
                table = self.table(t.comparators[0])
                if table is not None and all(isinstance(k, ast.Constant) for k in table.keys):
                    b = tuple(k.value for k in table.keys)
            if a is UNKNOWN or b is UNKNOWN:
                return None
            op = t.ops[0]
            self.out.decided += 1
            if isinstance(op, (ast.Eq, ast.Is)):
                return a == b
            if isinstance(op, (ast.NotEq, ast.IsNot)):
                return a != b
            if isinstance(op, ast.In) and isinstance(b, tuple):
                return a in b
            if isinstance(op, ast.NotIn) and isinstance(b, tuple):
                return a not in b
        if isinstance(t, ast.Constant):
            return bool(t.value)
        return None

    def exprs(self, node: ast.AST) -> None:
        """Record the calls evaluated in an expression."""
        if isinstance(node, ast.IfExp):
            t = self.test(node.test)
            self.exprs(node.test)
            if t is not False:
                self.exprs(node.body)
            if t is not True:
                self.exprs(node.orelse)
            return
        if isinstance(node, ast.Subscript):
            table = self.table(node.value)
            v = self.value(node.slice)
            if table is not None and v is not UNKNOWN:
                self.out.decided += 1
                hit = None
                for k, val in zip(table.keys, table.values):
                    if isinstance(k, ast.Constant) and k.value == v:
                        hit = val
                if hit is None and all(isinstance(k, ast.Constant) for k in table.keys):
                    self.out.missing.append(node)
                elif hit is not None:
                    self.mention(hit)
                    self.exprs(hit)
                return
        if isinstance(node, ast.Call):
            n = node.func
            if isinstance(n, ast.Attribute) and n.attr == "get":
                table = self.table(n.value)
                if table is not None and node.args and self.value(node.args[0]) is not UNKNOWN:
                    self.out.decided += 1
                    v = self.value(node.args[0])
                    for k, val in zip(table.keys, table.values):
                        if isinstance(k, ast.Constant) and k.value == v:
                            self.mention(val)
                            self.exprs(val)
                    return
            self.mention(n)
            r = self.p.resolve(self.f.module, n, self.f)
            if r is None and isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and self.f.cls is not None:
                r = self.p.find_method(self.f.cls, n.attr)
            tf = target_func(self.p, r) if r is not None else None
            if tf is not None and self.depth < 3 and tf.name not in self.stop:
                bound, _ = bind_args(tf, node)
                consts = {}
                for name, a in bound.items():
                    v = self.value(a)
                    if v is not UNKNOWN:
                        consts[name] = v
                sig = (id(tf.node), tuple(sorted((k, str(v)) for k, v in consts.items())))
                small = len(list(ast.walk(tf.node))) < 400
                if sig not in self.seen and (consts or small) and self.depth < 2:
                    sub = Specialise(self.p, tf, consts, self.depth + 1, self.seen, self.stop)
                    sub.run()
                    self.out.calls |= sub.out.calls
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.expr, ast.comprehension, ast.keyword)):
                self.exprs(c)

    def mention(self, n: ast.AST) -> None:
        if isinstance(n, ast.Lambda):
            self.exprs(n.body)
            return
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute):
                self.out.calls.add(x.attr)
            elif isinstance(x, ast.Name):
                self.out.calls.add(x.id)

    def table(self, e: ast.expr) -> ast.Dict | None:
        if isinstance(e, ast.Dict):
            return e
        if isinstance(e, ast.Name):
            for n in walk_own(self.f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) and isinstance(n.value, ast.Dict):
                    return n.value
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id and isinstance(n.value, ast.Dict):
                    return n.value
            sym = self.p.resolve_global(self.f.module, e.id)
            if isinstance(sym, Assign) and isinstance(sym.value, ast.Dict):
                return sym.value
        return None

    def pattern(self, pat: ast.pattern, v) -> bool | None:
        if isinstance(pat, ast.MatchValue):
            pv = self.value(pat.value)
            return None if pv is UNKNOWN else pv == v
        if isinstance(pat, ast.MatchSingleton):
            return pat.value is v
        if isinstance(pat, ast.MatchOr):
            rs = [self.pattern(x, v) for x in pat.patterns]
            return True if True in rs else (False if all(r is False for r in rs) else None)
        if isinstance(pat, ast.MatchAs):
            if pat.pattern is None:
                return True
            return self.pattern(pat.pattern, v)
        return None

    def block(self, body: list[ast.stmt]) -> bool:
        """True if control can leave the block at its end."""
        for st in body:
            if not self.stmt(st):
                return False
        return True

    def stmt(self, st: ast.stmt) -> bool:
        self.out.stmts.add(id(st))
        if isinstance(st, ast.Return):
            if st.value is not None:
                self.exprs(st.value)
            self.out.returns += 1
            return False
        if isinstance(st, ast.Raise):
            self.out.raises += 1
            return False
        if isinstance(st, ast.If):
            t = self.test(st.test)
            self.exprs(st.test)
            a = self.block(st.body) if t is not False else False
            b = self.block(st.orelse) if t is not True else False
            return a or b
        if isinstance(st, ast.Match):
            self.exprs(st.subject)
            v = self.value(st.subject)
            if v is UNKNOWN:
                ends = [self.block(c.body) for c in st.cases]
                wild = any(c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None for c in st.cases)
                return any(ends) or not wild
            self.out.decided += 1
            cont = False
            for c in st.cases:
                r = self.pattern(c.pattern, v)
                if r is False:
                    continue
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.name:
                    self.consts[c.pattern.name] = v
                if c.guard is not None:
                    self.exprs(c.guard)
                    g = self.test(c.guard)
                    if g is False:
                        continue
                    r = r if g is True else None
                cont = self.block(c.body) or cont
                if r is True:
                    return cont
            return True
        if isinstance(st, (ast.For, ast.While)):
            self.exprs(st.iter if isinstance(st, ast.For) else st.test)
            self.block(st.body)
            self.block(st.orelse)
            return True
        if isinstance(st, ast.With):
            for i in st.items:
                self.exprs(i.context_expr)
            return self.block(st.body)
        if isinstance(st, ast.Try):
            a = self.block(st.body)
            if a and st.orelse:
                a = self.block(st.orelse)
            for h in st.handlers:
                a = self.block(h.body) or a
            fin = self.block(st.finalbody) if st.finalbody else True
            return a and fin
        if isinstance(st, (ast.Break, ast.Continue)):
            return False
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            if st.value is not None:
                self.exprs(st.value)
                tg = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in tg:
                    k = self.key(t)
                    if k is not None:
                        v = self.value(st.value)
                        if v is UNKNOWN:
                            self.consts.pop(k, None)
                        else:
                            self.consts[k] = v
            return True
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return True
        for c in ast.iter_child_nodes(st):
            if isinstance(c, ast.expr):
                self.exprs(c)
        return True

    def run(self) -> Outcome:
        self.out.falls = self.block(self.f.node.body)
        return self.out


def registered_scales(project: Project) -> set[str]:
    out = set(SCALES)
    for m in project.modules.values():
        for st in m.tree.body:
            for n in ast.walk(st) if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) else []:
                if isinstance(n, ast.Call) and n.args:
                    r = project.resolve(m, n.func)
                    if isinstance(r, Ext) and r.name.endswith("register_scale"):
                        c = project.resolve(m, n.args[0])
                        if isinstance(c, Class):
                            for k in project.mro(c):
                                v = k.class_assigns.get("name")
                                if isinstance(v, ast.Constant):
                                    out.add(v.value)
                                    break
    return out


def option_names(project: Project, f: Func) -> dict[str, tuple[frozenset, bool]]:
    """Tracked expressions of the function that hold an option: name -> (values, may be None)."""
    out: dict[str, tuple[frozenset, bool]] = {}
    g: Func | None = f
    while g is not None:
        for p in g.params:
            s = literal_set(project, g.module, p.annotation)
            if s and p.name not in out:
                out[p.name] = (s, optional(p.annotation))
        g = g.parent
    if f.cls is not None:
        for c in project.mro(f.cls):
            for name, ann in c.fields.items():
                s = literal_set(project, c.module, ann)
                if s:
                    out["self." + name] = (s, optional(ann))
            for meth in c.methods.values():
                for n in walk_own(meth.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) and n.target.value.id == "self":
                        s = literal_set(project, c.module, n.annotation)
                        if s:
                            out["self." + n.target.attr] = (s, optional(n.annotation))
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                                prm = meth.param(n.value.id)
                                if prm is not None:
                                    s = literal_set(project, c.module, prm.annotation)
                                    if s:
                                        out.setdefault("self." + t.attr, (s, optional(prm.annotation)))
    return out


def dispatches(f: Func, name: str) -> bool:
    """Does the function itself test the option (compare, match or table look-up)?"""
    def is_name(e: ast.AST) -> bool:
        if name.startswith("self."):
            return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and e.attr == name[5:]
        return isinstance(e, ast.Name) and e.id == name

    for n in walk_own(f.node):
        if isinstance(n, ast.Match) and is_name(n.subject):
            return True
        if isinstance(n, ast.Compare) and (is_name(n.left) or any(is_name(c) for c in n.comparators)):
            others = [x for x in [n.left, *n.comparators] if not is_name(x)]
            if any(not (isinstance(x, ast.Constant) and x.value is None) for x in others):
                return True
        if isinstance(n, ast.Subscript) and is_name(n.slice):
            return True
    return False


def analyse(project: Project, tier: str) -> Result:
    res = Result()
    scales = registered_scales(project)
    sets: set[frozenset] = set()

    def where(f: Func, n: ast.AST) -> str:
        return f"{f.module.rel}:{getattr(n, 'lineno', f.node.lineno)}"

    for f in project.funcs:
        opts = option_names(project, f)
        for name, (values, _) in opts.items():
            sets.add(values)
            p = f.param(name)
            if p is not None and isinstance(p.default, ast.Constant) and isinstance(p.default.value, str):
                res.count("defaults_checked")
                if p.default.value not in values:
                    res.add("default-outside-set", f.short, name, where(f, p.default), f"default '{p.default.value}' of '{name}' is not one of {sorted(values)}")
            if name in {q.name for q in f.params} or f.cls is not None:
                res.count("options_offered")
        # tests against values outside the set
        for n in walk_own(f.node):
            pairs: list[tuple[ast.expr, list[ast.expr]]] = []
            if isinstance(n, ast.Compare):
                pairs.append((n.left, n.comparators))
                for c in n.comparators:
                    pairs.append((c, [n.left]))
            elif isinstance(n, ast.Match):
                vals = []
                for c in n.cases:
                    for pt in ast.walk(c.pattern):
                        if isinstance(pt, ast.MatchValue):
                            vals.append(pt.value)
                pairs.append((n.subject, vals))
            for subj, vals in pairs:
                k = Specialise(project, f, {}).key(subj)
                if k in opts:
                    for v in vals:
                        for c in [v, *getattr(v, "elts", [])]:
                            if isinstance(c, ast.Constant) and isinstance(c.value, str):
                                res.count("tests_checked")
                                if c.value not in opts[k][0]:
                                    res.add("test-outside-set", f.short, f"{k}={c.value}", where(f, c), f"'{k}' is tested for '{c.value}', which is not one of {sorted(opts[k][0])}")
            # constants and options passed on
            if isinstance(n, ast.Call):
                self_call(project, f, n, opts, scales, res, where)
        # specialise
        for name, (values, opt) in opts.items():
            own = name.startswith("self.") or f.param(name) is not None
            if not own or not dispatches(f, name):
                continue
            res.count("dispatching_functions")
            markers = next((mk for ks, mk in MARKERS.items() if len(ks & values) >= 2), None)
            stop = frozenset().union(*markers.values()) if markers else frozenset()
            outs: dict[str, Outcome] = {}
            for v in sorted(values):
                o = Specialise(project, f, {name: v}, stop=stop).run()
                outs[v] = o
                res.count("value_paths_specialised")
                if returns_value(f) and o.falls:
                    res.add("value-not-handled", f.short, f"{name}={v}", f.loc, f"with {name}='{v}' the function ends without returning its result")
                if returns_value(f) and not o.returns and not o.falls and o.raises:
                    res.add("value-not-handled", f.short, f"{name}={v}", f.loc, f"with {name}='{v}' the function can only raise, although '{v}' is a documented value")
                if o.missing:
                    res.add("value-not-handled", f.short, f"{name}={v}", where(f, o.missing[0]), f"'{v}' is not in the table that {name} selects from")
            bogus = Specialise(project, f, {name: "\0none of the values"}, stop=stop).run()
            lost = [v for v in values if outs[v].stmts == bogus.stmts]
            if len(values) >= 3 and len(lost) == 1 and not bogus.raises and all(bogus.stmts < outs[w].stmts for w in values if w != lost[0]):
                res.add("value-not-handled", f.short, f"{name}={lost[0]}", f.loc, f"{name}='{lost[0]}' selects nothing at all, while every other value does")
            if markers is None:
                continue
            markers = {v: markers.get(v, set()) for v in values}
            common = set.intersection(*[o.calls for o in outs.values()]) if len(outs) > 1 else set()
            allm = set().union(*markers.values())
            known = {v for v in values if markers[v]}
            used = {v: (o.calls - common) & allm for v, o in outs.items()}
            for v in sorted(known):
                foreign = used[v] - markers[v]
                if foreign and not (used[v] & markers[v]):
                    res.add("handled-as-another", f.short, f"{name}={v}", f.loc, f"{name}='{v}' is realised by {sorted(foreign)}, which is what another value stands for")
                elif foreign and any(markers[w] & foreign for w in markers if w != v and not (markers[w] & markers[v])) and len(used[v] & markers[v]) > 0:
                    res.add("handled-as-another", f.short, f"{name}={v}", f.loc, f"{name}='{v}' also performs {sorted(foreign)}, which is what another value stands for")
            # a value whose behaviour is lost: every other value has a marker, this one does not
            direct = [v for v in known if used[v]]
            if len(direct) >= max(2, len(known) - 1):
                for v in sorted(known):
                    if not used[v] and not (common & markers[v]):
                        res.add("handled-as-another", f.short, f"{name}={v}", f.loc, f"{name}='{v}' does not select {sorted(markers[v])}, while the other values select their own behaviour")
            res.sample(f"{f.short}: {name} -> " + "; ".join(f"{v}: {sorted(used[v])}" for v in sorted(values)))
    res.counts["closed_option_sets"] = len(sets)
    res.floors = {"closed_option_sets": 4, "options_offered": 200, "dispatching_functions": 5, "options_passed_on": 150, "value_paths_specialised": 18}
    res.explanation = (
        "Every parameter or attribute annotated with a set of literal strings is found by resolving its annotation; every function testing one is specialised "
        "to each of the values and its remaining paths must return; every constant, default, test and forwarded option must lie in the set of its target, "
        "including the named values third-party routines accept."
    )
    res.assumptions = ["table of what each named value stands for (real/imag/abs/angle, axis scales, fitted distributions, cache modes)"]
    res.detail["accepted_axis_scales"] = sorted(scales)
    return res


def self_call(project: Project, f: Func, n: ast.Call, opts, scales, res: Result, where) -> None:
    sp = Specialise(project, f, {})
    if isinstance(n.func, ast.Attribute) and n.func.attr in ("set_yscale", "set_xscale") and n.args:
        k = sp.key(n.args[0])
        if k in opts:
            res.count("options_passed_on")
            bad = opts[k][0] - scales
            if bad:
                res.add("value-not-accepted", f.short, f"{n.func.attr}({k})", where(f, n), f"{n.func.attr} does not accept {sorted(bad)}, which '{k}' may be (no such scale is registered)")
        elif isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) and n.args[0].value not in scales:
            res.add("value-not-accepted", f.short, f"{n.func.attr}={n.args[0].value}", where(f, n), f"{n.func.attr} does not accept '{n.args[0].value}'")
        return
    r = project.resolve(f.module, n.func, f)
    if isinstance(r, Ext) and r.name.startswith("numpy.") and r.name.rsplit(".", 1)[1] in ("ravel_multi_index", "take", "put", "choose"):
        for kw in n.keywords:
            if kw.arg == "mode":
                k = sp.key(kw.value)
                vals = opts[k][0] if k in opts else {kw.value.value} if isinstance(kw.value, ast.Constant) else set()
                res.count("options_passed_on")
                if set(vals) - INDEX_MODES:
                    res.add("value-not-accepted", f.short, f"{r.name}.mode", where(f, n), f"{r.name} does not accept mode {sorted(set(vals) - INDEX_MODES)}")
        return
    tf = target_func(project, r) if r is not None else None
    if tf is None:
        return
    bound, _ = bind_args(tf, n)
    for pname, a in bound.items():
        prm = tf.param(pname)
        s = literal_set(project, tf.module, prm.annotation) if prm is not None else None
        if s is None:
            continue
        k = sp.key(a)
        if isinstance(a, ast.Constant):
            res.count("constants_passed")
            if isinstance(a.value, str) and a.value not in s:
                res.add("constant-outside-set", f.short, f"{tf.name}.{pname}={a.value}", where(f, a), f"passes {pname}='{a.value}' to '{tf.name}', which only knows {sorted(s)}")
        elif k in opts:
            res.count("options_passed_on")
            if not opts[k][0] <= s:
                res.add("value-not-accepted", f.short, f"{tf.name}.{pname}", where(f, a), f"'{k}' may be {sorted(opts[k][0] - s)}, which '{tf.name}' does not know")
