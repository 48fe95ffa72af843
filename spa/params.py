"""C09: every option an operation accepts takes effect and reaches the operations it is built on."""

from __future__ import annotations

import ast

from .calls import bind_args, target_func
from .flow import Flow
from .model import Assign, Class, Ext, Func, Module, Project, is_stub, walk_own
from .report import Result

E0: frozenset = frozenset()

# methods of arrays, records and containers that only compute a value
PURE_METHODS = {
    "reshape", "ravel", "flatten", "copy", "astype", "conj", "conjugate", "swapaxes", "transpose", "sum", "prod", "mean", "max", "min", "item", "tolist",
    "keys", "values", "items", "get", "index", "count", "format", "join", "split", "strip", "lower", "upper", "startswith", "endswith", "removeprefix",
    "dot", "diagonal", "trace", "cumsum", "argmax", "argmin", "squeeze", "any", "all", "round", "repeat", "take", "argsort",
}
# array methods and routines whose result only depends on the size of what they are given
MUTATORS = {"append", "extend", "insert", "update", "add", "setdefault", "pop", "remove", "clear", "sort", "fill", "resize", "put", "itemset", "partition"}
SHAPE_ATTRS = {"shape", "ndim", "dtype", "size"}


class Summary:
    __slots__ = ("effects", "ret")

    def __init__(self) -> None:
        self.ret: frozenset = E0  # parameters that influence the result
        self.effects: frozenset = E0  # parameters that influence effects (raises, stores, output)

    @property
    def all(self) -> frozenset:
        return self.ret | self.effects


class Dep(Flow):
    """Tracks, for every value, the parameters it was computed from."""

    BOTTOM = E0

    def __init__(self, an: "Analysis", f: Func) -> None:
        super().__init__()
        self.an = an
        self.p = an.project
        self.f = f
        self.ret: frozenset = E0
        self.eff: frozenset = E0
        self.ctrl: list[frozenset] = []
        self.call_args: dict[int, tuple[ast.Call, Func, dict[str, frozenset], bool]] = {}
        self.nested: dict[str, frozenset] = {}

    # domain
    def join_values(self, a, b):
        return a | b

    def item_value(self, v, i, n, node):
        return v

    def iter_value(self, v, node, env):
        return v

    def with_ctrl(self, v: frozenset) -> frozenset:
        for c in self.ctrl:
            v = v | c
        return v

    def bind(self, target, value, env, node):
        super().bind(target, self.with_ctrl(value) if isinstance(target, ast.Name) else value, env, node)

    def store(self, target, value, env, node):
        """x[i] = v / x.a = v: the base now depends on v; if it is visible outside, that is an effect."""
        base = target
        idx = E0
        while isinstance(base, (ast.Subscript, ast.Attribute, ast.Call)):
            if isinstance(base, ast.Subscript):
                idx |= self.eval(base.slice, env)
                base = base.value
            elif isinstance(base, ast.Attribute):
                base = base.value
            else:
                base = base.func
        v = self.with_ctrl(value | idx)
        if isinstance(base, ast.Name):
            b = env.get(base.id)
            if b is None:
                self.eff |= v
            else:
                env[base.id] = b | v
                self.taint_aliases(base.id, v, env)
                if base.id in ("self", "cls"):
                    self.eff |= v
        else:
            self.eff |= v

    def taint_aliases(self, name: str, v: frozenset, env: dict) -> None:
        """A write through a view reaches the array it views."""
        for other in self.an.views(self.f).get(name, ()):
            if other in env:
                env[other] = env[other] | v

    def on_aug(self, node, env):
        v = self.eval(node.value, env)
        if isinstance(node.target, ast.Name):
            out = self.with_ctrl(env.get(node.target.id, E0) | v)
            self.taint_aliases(node.target.id, out, env)
            return out
        self.eval_target(node.target, env)
        self.store(node.target, v, env, node)
        return E0

    def on_return(self, node, value, env):
        self.ret |= self.with_ctrl(value)

    def on_nested(self, node, env):
        sub = dict(env)
        for a in [*node.args.posonlyargs, *node.args.args, *node.args.kwonlyargs]:
            sub[a.arg] = E0
        saved = self.ret
        self.ret = E0
        for _ in range(2):
            self.run(node.body, dict(sub))
        self.nested[node.name] = self.ret
        self.ret = saved

    def nested_value(self, st, env):
        return self.nested.get(st.name, E0) | frozenset().union(*[env.get(n.id, E0) for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)], E0)

    def stmt(self, st, env):
        if isinstance(st, (ast.If, ast.While)):
            t = self.eval(st.test, env)
            self.ctrl.append(t)
            r = super().stmt(st, env)
            self.ctrl.pop()
            if self.ends(st.body) or self.ends(getattr(st, "orelse", [])):
                self.ctrl_rest |= t
            return r
        if isinstance(st, ast.For):
            self.ctrl.append(self.eval(st.iter, env))
            r = super().stmt(st, env)
            self.ctrl.pop()
            return r
        if isinstance(st, ast.Match):
            self.ctrl.append(self.eval(st.subject, env))
            r = super().stmt(st, env)
            t = self.ctrl.pop()
            self.ctrl_rest |= t
            return r
        if isinstance(st, ast.Raise):
            self.eff |= self.with_ctrl(self.eval(st.exc, env) if st.exc is not None else E0)
            return None
        if isinstance(st, ast.Assert):
            self.eff |= self.with_ctrl(self.eval(st.test, env))
            return env
        if isinstance(st, ast.Expr):
            v = self.eval(st.value, env)
            if isinstance(st.value, (ast.Yield, ast.YieldFrom, ast.Await)):
                self.ret |= self.with_ctrl(v)
            return env
        return super().stmt(st, env)

    ctrl_rest: frozenset = E0

    @staticmethod
    def ends(body: list) -> bool:
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    # expressions
    def eval(self, e, env):
        if e is None:
            return E0
        if isinstance(e, ast.Name):
            return env.get(e.id, E0)
        if isinstance(e, ast.Constant):
            return E0
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.NamedExpr):
            v = self.eval(e.value, env)
            env[e.target.id] = self.with_ctrl(v)
            return v
        if isinstance(e, ast.Lambda):
            sub = dict(env)
            for a in [*e.args.posonlyargs, *e.args.args, *e.args.kwonlyargs]:
                sub[a.arg] = E0
            return self.eval(e.body, sub)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            sub = dict(env)
            out = E0
            for g in e.generators:
                it = self.eval(g.iter, sub)
                out |= it
                Flow.bind(self, g.target, it, sub, e)
                for c in g.ifs:
                    out |= self.eval(c, sub)
            if isinstance(e, ast.DictComp):
                return out | self.eval(e.key, sub) | self.eval(e.value, sub)
            return out | self.eval(e.elt, sub)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            v = self.eval(e.value, env) if e.value is not None else E0
            self.ret |= self.with_ctrl(v)
            return v
        out = E0
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.eval(c, env)
        return out

    def call(self, e: ast.Call, env):
        argd: dict[int, frozenset] = {}
        total = E0
        for a in e.args:
            v = self.eval(a.value if isinstance(a, ast.Starred) else a, env)
            argd[id(a)] = v
            total |= v
        for k in e.keywords:
            v = self.eval(k.value, env)
            argd[id(k.value)] = v
            total |= v
        recv = E0
        method = None
        if isinstance(e.func, ast.Attribute):
            recv = self.eval(e.func.value, env)
            method = e.func.attr
        elif isinstance(e.func, ast.Name):
            recv = env.get(e.func.id, E0)
        else:
            recv = self.eval(e.func, env)
        r = self.p.resolve(self.f.module, e.func, self.f)
        if r is None and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "self" and self.f.cls is not None:
            r = self.p.find_method(self.f.cls, e.func.attr)
        if isinstance(r, Func) and r.parent is not None:
            return total | recv  # nested function: its closure is in recv
        tf = target_func(self.p, r) if r is not None else None
        if isinstance(r, Func) and isinstance(e.func, ast.Attribute) and r.cls is not None and isinstance(self.p.resolve(self.f.module, e.func.value, self.f), Class):
            # Class.method(self, ...): parameters are not bound
            return total | recv
        if tf is not None:
            bound, fuzzy = bind_args(tf, e)
            deps = {n: argd[id(a)] for n, a in bound.items() if id(a) in argd}
            self.call_args[id(e)] = (e, tf, deps, fuzzy)
            if fuzzy or isinstance(r, Class) or is_stub(tf.node) or tf.has_decorator("cached", "npy_cached", "wraps") or tf.is_abstract:
                self.eff |= E0
                return total | recv
            s = self.an.summary(tf)
            out = recv
            for n, v in deps.items():
                if n in s.ret:
                    out |= v
                if n in s.effects:
                    self.eff |= self.with_ctrl(v)
            covered = {id(a) for a in bound.values()}
            for i, v in argd.items():
                if i not in covered:
                    out |= v
            return out
        # unresolved or third party
        if isinstance(r, Ext):
            top = r.name.split(".")[0]
            last = r.name.rsplit(".", 1)[-1]
            if top in ("numpy", "scipy", "math", "cmath", "itertools", "functools", "builtins", "operator", "typing", "hamiltonian_generator") and not (
                last in ("print", "open", "setattr", "exec", "eval") or ".testing." in r.name or last in ("save", "savez", "savetxt", "savez_compressed", "fill_diagonal", "put", "copyto", "put_along_axis", "place")
            ):
                for k in e.keywords:
                    if k.arg == "out":
                        self.store_into(k.value, total, env)
                return total
            if ".testing." in r.name:
                self.eff |= self.with_ctrl(total)
                return E0
            if last in ("fill_diagonal", "put", "copyto", "put_along_axis", "place") and e.args:
                self.store_into(e.args[0], total, env)
                return E0
            self.eff |= self.with_ctrl(total)
            return total
        if method in PURE_METHODS or method in SHAPE_ATTRS:
            return total | recv
        if method in MUTATORS and isinstance(e.func, ast.Attribute):
            self.store_into(e.func.value, total, env)
            return total | recv
        # unknown method: may have effects on the receiver or the world
        if method is not None and self.project_methods_pure(method):
            return total | recv
        if isinstance(e.func, ast.Attribute):
            self.store_into(e.func.value, total, env)
        self.eff |= self.with_ctrl(total)
        return total | recv

    def project_methods_pure(self, name: str) -> bool:
        return name in self.p.methods_by_name and all(not self.an.summary(m).effects for m in self.p.methods_by_name[name] if not is_stub(m.node))

    def store_into(self, target: ast.expr, v: frozenset, env: dict) -> None:
        base = target
        while isinstance(base, (ast.Subscript, ast.Attribute, ast.Call)):
            base = base.value if not isinstance(base, ast.Call) else base.func
        v = self.with_ctrl(v)
        if isinstance(base, ast.Name) and base.id in env:
            env[base.id] = env[base.id] | v
            self.taint_aliases(base.id, v, env)
            if base.id in ("self",):
                self.eff |= v
        else:
            self.eff |= v

    def run_function(self, node, env):
        self.run(node.body, env)
        if self.ctrl_rest:
            self.ret |= self.ctrl_rest


class Analysis:
    def __init__(self, project: Project) -> None:
        self.project = project
        self.cache: dict[int, Summary] = {}
        self.deps: dict[int, Dep] = {}
        self._views: dict[int, dict[str, set[str]]] = {}
        self.active: set[int] = set()

    def views(self, f: Func) -> dict[str, set[str]]:
        """name -> names it may share storage with (x = y.reshape(..), x = y[..], for x in y)."""
        if id(f) not in self._views:
            g: dict[str, set[str]] = {}

            def link(a: str, b: str) -> None:
                if a != b:
                    g.setdefault(a, set()).add(b)

            for n in ast.walk(f.node):
                pairs: list[tuple[ast.expr, ast.expr]] = []
                if isinstance(n, ast.Assign):
                    pairs = [(t, n.value) for t in n.targets]
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    pairs = [(n.target, n.value)]
                elif isinstance(n, ast.For):
                    pairs = [(n.target, n.iter)]
                for t, v in pairs:
                    ts = [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]
                    roots = _roots(v)
                    for a in ts:
                        for b in roots:
                            link(a, b)
            self._views[id(f)] = g
        return self._views[id(f)]

    def summary(self, f: Func) -> Summary:
        if id(f) in self.cache:
            return self.cache[id(f)]
        s = Summary()
        self.cache[id(f)] = s
        if always_raises(f):
            s.ret = frozenset(p.name for p in f.params)
        return s

    def analyse_one(self, f: Func) -> bool:
        s = self.summary(f)
        d = Dep(self, f)
        env = {p.name: frozenset({p.name}) for p in f.params}
        d.run_function(f.node, env)
        # a store into an argument's storage is visible to the caller: whatever is stored is an effect (C01 forbids it elsewhere)
        ret, eff = d.ret, d.eff
        self.deps[id(f)] = d
        if ret - s.ret or eff - s.effects:
            s.ret |= ret
            s.effects |= eff
            return True
        return False

    def solve(self) -> None:
        work = [f for f in self.project.funcs if f.parent is None]
        for _ in range(12):
            changed = False
            for f in work:
                changed |= self.analyse_one(f)
            if not changed:
                break


def _roots(v: ast.expr) -> set[str]:
    """Names whose storage the value may share."""
    if isinstance(v, ast.Name):
        return {v.id}
    if isinstance(v, (ast.Attribute, ast.Subscript)):
        return _roots(v.value)
    if isinstance(v, ast.Call):
        out = set()
        if isinstance(v.func, ast.Attribute) and v.func.attr in ("reshape", "ravel", "swapaxes", "transpose", "view", "squeeze", "diagonal"):
            out |= _roots(v.func.value)
        if isinstance(v.func, ast.Name) and v.func.id in ("enumerate", "zip", "reversed", "list", "iter"):
            for a in v.args:
                out |= _roots(a)
        if isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == "np":
            for a in v.args[:1]:
                out |= _roots(a)
        return out
    if isinstance(v, (ast.Tuple, ast.List)):
        return set().union(*[_roots(x) for x in v.elts]) if v.elts else set()
    if isinstance(v, ast.IfExp):
        return _roots(v.body) | _roots(v.orelse)
    return set()


def overrides_contract(project: Project, f: Func) -> bool:
    """The parameter list is imposed by a base class or protocol."""
    if f.cls is None:
        return False
    for c in project.mro(f.cls)[1:]:
        if f.name in c.methods:
            return True
    return bool(project.ext_bases(f.cls) - {"typing.Generic", "typing.Protocol", "typing.TypedDict", "typing.NamedTuple"}) or (f.name.startswith("__") and f.name != "__init__")


def always_raises(f: Func) -> bool:
    """The body does nothing but raise (a fallback for a missing optional dependency)."""
    body = [st for st in f.node.body if not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant))]
    return bool(body) and isinstance(body[-1], ast.Raise) and all(isinstance(st, (ast.Assign, ast.Raise)) for st in body)


def _is_none_test(t: ast.expr, q: str) -> bool | None:
    """True if the test holds exactly when q is None, False if exactly when it is not."""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        r = _is_none_test(t.operand, q)
        return None if r is None else not r
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id == q:
        c = t.comparators[0]
        if isinstance(c, ast.Constant) and c.value is None:
            if isinstance(t.ops[0], ast.Is):
                return True
            if isinstance(t.ops[0], ast.IsNot):
                return False
    return None


def only_when_unset(f: Func, call: ast.Call, q: str) -> bool:
    """The call only runs on paths where the caller did not choose q (it is None)."""

    def inside(nodes) -> bool:
        return any(x is call for n in (nodes if isinstance(nodes, list) else [nodes]) for x in ast.walk(n))

    for n in ast.walk(f.node):
        if isinstance(n, (ast.If, ast.IfExp)):
            r = _is_none_test(n.test, q)
            if (r is True and inside(n.body)) or (r is False and inside(n.orelse)):
                return True
    # an earlier `if q is not None: return ...` in the same block
    def block(body: list) -> bool:
        for i, st in enumerate(body):
            if isinstance(st, ast.If) and _is_none_test(st.test, q) is False and Dep.ends(st.body) and inside(body[i + 1 :]):
                return True
            for sub in ("body", "orelse", "finalbody"):
                if isinstance(getattr(st, sub, None), list) and block(getattr(st, sub)):
                    return True
        return False

    return block(f.node.body)


def derived_from(f: Func, e: ast.expr, q: str, depth: int = 4) -> bool:
    """The expression is q itself, possibly after arithmetic and defaulting (no call that computes something else from it)."""
    if depth == 0:
        return False
    if isinstance(e, ast.IfExp):
        return derived_from(f, e.body, q, depth) or derived_from(f, e.orelse, q, depth)
    if isinstance(e, ast.Call) and len(e.args) == 1 and all(isinstance(k.value, ast.Constant) for k in e.keywords):
        return derived_from(f, e.args[0], q, depth)  # another form of the same value: tuple(q), util.get_flat_index(q)
    plain = (ast.Name, ast.BinOp, ast.UnaryOp, ast.IfExp, ast.Compare, ast.Constant, ast.Attribute, ast.Subscript, ast.BoolOp, ast.operator, ast.unaryop, ast.boolop, ast.cmpop, ast.expr_context, ast.Tuple, ast.Starred)
    if not all(isinstance(n, plain) for n in ast.walk(e)):
        return False
    if isinstance(e, (ast.Attribute,)):
        return False
    for n in ast.walk(e):
        if isinstance(n, ast.Name):
            if n.id == q:
                return True
            for st in walk_own(f.node):
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == n.id:
                    if derived_from(f, st.value, q, depth - 1):
                        return True
    return False


GROUPS = [{"axis", "axes"}]


def same_option(a: str, b: str) -> bool:
    return a == b or any(a in g and b in g for g in GROUPS)


def analyse(project: Project, tier: str) -> Result:
    res = Result()
    an = Analysis(project)
    an.solve()
    imported = {t for m in project.modules.values() for i in m.imports for t in (i.target, f"{i.target}.{i.attr}")}
    for f in project.funcs:
        if f.parent is not None or is_stub(f.node) or f.is_abstract or always_raises(f):
            continue
        if f.module.name.rpartition(".")[2].startswith("_") and not f.module.is_pkg and f.module.name not in imported:
            continue  # private module nothing uses (static typing experiments)
        s = an.summary(f)
        res.count("functions")
        imposed = overrides_contract(project, f)
        for p in f.params:
            if p.name in ("self", "cls") or p.name.startswith("_") or p.kind in ("var", "varkw"):
                continue
            res.count("parameters")
            if imposed or f.name.startswith("_"):
                continue
            if p.name not in s.all:
                res.add("no-effect", f.short, p.name, f.loc, f"parameter '{p.name}' influences neither the result nor any effect")
        d = an.deps[id(f)]
        fparams = {p.name for p in f.params if p.name not in ("self", "cls")}
        for call, tf, deps, fuzzy in d.call_args.values():
            if fuzzy or is_stub(tf.node):
                continue
            tparams = {p.name: p for p in tf.bound_params}
            shared = set(tparams) & fparams
            res.count("calls_with_shared_options" if shared else "calls_without_shared_options")
            loc = f"{f.module.rel}:{call.lineno}"
            bound, _ = bind_args(tf, call)
            for q, prm in tparams.items():
                own = [o for o in fparams if same_option(o, q)]
                if not own or prm.kind in ("var", "varkw"):
                    continue
                res.count("shared_options")
                if q not in bound:
                    if prm.has_default and q in own and not only_when_unset(f, call, q) and not any(derived_from(f, v, q) for v in bound.values()):
                        res.add("not-forwarded", f.short, f"{tf.name}.{q}", loc, f"'{q}' is not passed on to '{tf.name}', which falls back to its default")
                    continue
                if not (deps.get(q, E0) & set(own)) and not any(isinstance(x, (ast.Name, ast.Call)) for x in ast.walk(bound[q])) and not only_when_unset(f, call, own[0]):
                    res.add("replaced", f.short, f"{tf.name}.{q}", loc, f"'{tf.name}' is given a fixed '{q}' although the caller chose {own}")
                a = bound[q]
                if q in own and isinstance(a, ast.Name) and a.id in fparams and a.id != q and a.id in tparams and tparams[a.id].kind != "var" and (prm.kind == "kw" or prm.has_default):
                    other = bound.get(a.id)
                    if isinstance(other, ast.Name) and other.id == q:
                        res.add("swapped", f.short, f"{tf.name}.{q}", loc, f"'{a.id}' is passed to '{tf.name}' as '{q}' and '{q}' as '{a.id}'")
    res.floors = {"functions": 300, "parameters": 700, "shared_options": 150}
    res.explanation = (
        "Every function body is abstractly interpreted with, for each value, the set of parameters it was computed from (through arithmetic, calls, stores through views, "
        "and the branches that control it); calls use the callee's own summary, iterated to a fixpoint over the whole library. A parameter that reaches neither a result nor an effect is reported. "
        "At every call to another library function that has a parameter of the same name (axis and axes count as the same), the option must be passed on, unless another argument is derived "
        "from it by arithmetic or the call only runs where the caller left it unset; it must not be replaced by a constant, and two options must not be exchanged."
    )
    res.assumptions = [
        "third-party functions and user callables may depend on every argument they are given",
        "whether the influence is the intended one is not decided here (C02-C05, C07 decide parts of it)",
        "methods whose signature a base class or protocol imposes, and private helpers, may ignore parameters",
    ]
    return res
