"""C12: plots draw on the axes they are given."""

from __future__ import annotations

import ast

from .calls import annotation_mentions, bind_args, target_func
from .flow import Flow
from .model import Class, Ext, Func, Project
from .report import Result

GQ, GC, G, F, N, NF, X, NONE, ART, O = "given?", "given-used?", "axes", "figure", "new-axes", "new-figure", "other-axes", "none", "artist", "unknown"

FORBIDDEN_FIG = {"show", "savefig", "close", "clear", "clf"}
FORBIDDEN_AX = {"clear", "cla", "remove", "delaxes"}
OTHER_AXES = {"gca", "add_subplot", "add_axes", "subplots", "subplot_mosaic", "inset_axes"}
TWINS = {"twinx", "twiny", "secondary_xaxis", "secondary_yaxis"}
PURE_PYPLOT = {"get_cmap", "getp", "cm", "Normalize", "colormaps"}
NEW_FIGURE = {"subplots", "figure"}


class Tup:
    """A tuple value (immutable)."""

    def __init__(self, items: tuple) -> None:
        self.items = items

    def __eq__(self, o: object) -> bool:
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self) -> int:
        return hash(self.items)


U = frozenset({O})


def tags(v) -> frozenset:
    if isinstance(v, Tup):
        out = frozenset()
        for i in v.items:
            out |= tags(i)
        return out
    return v


def axes_params(project: Project, f: Func) -> list[str]:
    return [p.name for p in f.params if p.name == "ax" or (annotation_mentions(project, f, p.annotation, "matplotlib.axes.Axes") and _is_axes_ann(p.annotation))]


def _is_axes_ann(a: ast.expr | None) -> bool:
    """Axes or Axes | None / Optional[Axes], not Callable[[int, Axes], ...]."""
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        a = ast.parse(a.value, mode="eval").body
    if isinstance(a, ast.BinOp):
        return _is_axes_ann(a.left) or _is_axes_ann(a.right)
    if isinstance(a, ast.Subscript):
        return isinstance(a.value, ast.Name) and a.value.id == "Optional" and _is_axes_ann(a.slice)
    return isinstance(a, ast.Name) and a.id == "Axes" or isinstance(a, ast.Attribute) and a.attr == "Axes"


def return_kinds(project: Project, f: Func) -> list[str] | None:
    a = f.node.returns
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        a = ast.parse(a.value, mode="eval").body
    if not (isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id in ("tuple", "Tuple")):
        return None
    elts = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
    out = []
    for e in elts:
        n = e.id if isinstance(e, ast.Name) else getattr(e, "attr", "")
        out.append({"Figure": "F", "Axes": "A"}.get(n, "artist"))
    return out


class PlotFlow(Flow):
    BOTTOM = U

    def __init__(self, project: Project, f: Func, res: Result, plotters: dict[int, list[str]]) -> None:
        super().__init__()
        self.p = project
        self.f = f
        self.res = res
        self.plotters = plotters
        self.axp = axes_params(project, f)
        self.has_ax = bool(self.axp)
        self.required = {p.name for p in f.params if p.name in self.axp and not p.has_default and not _optional(p.annotation)}
        self.ret = return_kinds(project, f)
        self.draws = 0
        self.returns_checked = 0

    # -- reporting
    def bad(self, rule: str, what: str, node: ast.AST, msg: str) -> None:
        self.res.add(rule, self.f.short, what, f"{self.f.module.rel}:{node.lineno}", msg)

    # -- domain
    def join_values(self, a, b):
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup(tuple(self.join_values(x, y) for x, y in zip(a.items, b.items)))
        if isinstance(a, bool) or isinstance(b, bool):
            return a and b
        return tags(a) | tags(b)

    def item_value(self, v, i, n, node):
        if isinstance(v, Tup) and i < len(v.items):
            return v.items[i]
        t = tags(v)
        return frozenset({ART}) if t == {ART} else U

    def iter_value(self, v, node, env):
        t = tags(v)
        return frozenset({ART}) if t == {ART} else U

    def refine(self, test, env, truth):
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, truth = test.operand, not truth
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == truth:
                for v in test.values:
                    env = self.refine(v, env, truth)
                    if env is None:
                        return None
            return env
        name, is_none = None, None
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if isinstance(test.left, ast.Name) and isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                name = test.left.id
                is_none = isinstance(test.ops[0], (ast.Is, ast.Eq)) == truth
        elif isinstance(test, ast.Name):
            name, is_none = test.id, not truth
        if name is not None and name in env and not isinstance(env[name], (Tup, bool)):
            t = env[name]
            if is_none:
                if t & {GQ, GC, F, NONE}:
                    env = dict(env)
                    if GC not in t:
                        env["$none"] = True
                    env[name] = frozenset({NONE}) if t & {GQ, GC} else t
                elif t <= {G}:
                    return None
            elif t & {GQ}:
                env = dict(env)
                env[name] = (t - {GQ, NONE}) | {G}
        return env

    # -- expressions
    def eval(self, e, env):
        if e is None:
            return U
        if isinstance(e, ast.Name):
            v = env.get(e.id, U)
            return v if not isinstance(v, bool) else U
        if isinstance(e, ast.Constant):
            return frozenset({NONE}) if e.value is None else U
        if isinstance(e, (ast.Tuple, ast.List)):
            vals = tuple(self.eval(x.value if isinstance(x, ast.Starred) else x, env) for x in e.elts)
            if isinstance(e, ast.Tuple):
                return U if any(isinstance(x, ast.Starred) for x in e.elts) else Tup(vals)
            return frozenset({ART}) if vals and all(tags(v) == {ART} for v in vals) else U
        if isinstance(e, ast.IfExp):
            self.eval(e.test, env)
            a = self.refine(e.test, dict(env), True)
            b = self.refine(e.test, dict(env), False)
            va = self.eval(e.body, a) if a is not None else None
            vb = self.eval(e.orelse, b) if b is not None else None
            if va is None or vb is None:
                return va if vb is None else vb
            return self.join_values(va, vb)
        if isinstance(e, ast.NamedExpr):
            v = self.eval(e.value, env)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
            v = self.eval(e.values[0], env)
            if tags(v) & {GQ} and len(e.values) == 2:
                sub = dict(env)
                sub["$none"] = True
                return frozenset({G}) | (tags(self.eval(e.values[1], sub)) - {NONE})
            for x in e.values[1:]:
                self.eval(x, env)
            return U
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.Attribute):
            v = self.eval(e.value, env)
            t = tags(v)
            if e.attr == "figure" and t & {G, GQ}:
                return frozenset({F})
            if t <= {F} and e.attr == "axes":
                return frozenset({X})
            if t & {GQ, GC} and not self.has_none(env):
                self.unresolved(e, t)
            return U
        if isinstance(e, ast.Subscript):
            v = self.eval(e.value, env)
            self.eval(e.slice, env)
            if isinstance(v, Tup) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(v.items) <= e.slice.value < len(v.items):
                return v.items[e.slice.value]
            t = tags(v)
            return t if t <= {ART, X} else U
        if isinstance(e, ast.Lambda):
            sub = dict(env)
            for a in [*e.args.posonlyargs, *e.args.args, *e.args.kwonlyargs]:
                sub[a.arg] = frozenset({G}) if a.arg == "ax" else U
            self.eval(e.body, sub)
            return U
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            sub = dict(env)
            for g in e.generators:
                it = self.eval(g.iter, sub)
                self.bind(g.target, self.iter_value(it, g, sub), sub, e)
                for c in g.ifs:
                    self.eval(c, sub)
            if isinstance(e, ast.DictComp):
                self.eval(e.key, sub)
                self.eval(e.value, sub)
                return U
            before = dict(sub)
            v = self.eval(e.elt, sub)
            for k in env:  # a comprehension repeats: uses of the unresolved axes persist
                if env[k] != sub.get(k) and k not in ("$none",) and before.get(k) == env[k]:
                    env[k] = sub[k]
            if any(GC in tags(x) for k, x in sub.items() if not isinstance(x, bool)) and any(GQ in tags(x) for k, x in before.items() if not isinstance(x, bool)):
                self.eval(e.elt, sub)
            return frozenset({ART}) if tags(v) == {ART} else U
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.eval(c, env)
        return U

    def has_none(self, env) -> bool:
        return bool(env.get("$none"))

    def unresolved(self, node: ast.expr, t: frozenset) -> None:
        if isinstance(node, ast.Attribute) and GC in t:
            self.bad("labels-on-other-axes", f"{node.attr}", node, f"'{node.attr}' is applied to the axes argument, which is not the axes that was drawn on when none is given")
        elif isinstance(node, ast.Attribute):
            self.bad("axes-may-be-none", f"{node.attr}", node, f"'{node.attr}' is applied to the axes argument before an axes has been made for the case that none is given")

    def consume(self, env: dict) -> None:
        for k, v in list(env.items()):
            if isinstance(v, frozenset) and GQ in v:
                env[k] = (v - {GQ}) | {GC}

    def draw(self, t: frozenset, node: ast.AST, env: dict, what: str) -> None:
        """Something is drawn on axes with tags t."""
        self.draws += 1
        if not self.has_ax:
            return
        if GC in t:
            self.bad("split-figures", what, node, f"'{what}' is given the original axes argument a second time: when none was passed the parts are drawn on different figures")
        if t & {N, X} or (NONE in t and not self.has_none(env)):
            self.bad("ignores-axes", what, node, f"'{what}' draws on axes other than the ones passed in")

    def call(self, e: ast.Call, env):
        argv = {id(a): self.eval(a.value if isinstance(a, ast.Starred) else a, env) for a in e.args}
        for k in e.keywords:
            argv[id(k.value)] = self.eval(k.value, env)
        # method calls on axes and figures
        if isinstance(e.func, ast.Attribute):
            base = self.eval(e.func.value, env)
            t = tags(base)
            attr = e.func.attr
            if t & {GQ, GC} and not self.has_none(env):
                self.unresolved(e.func, t)
            if t & {G, GQ, GC, N, X}:
                if attr in FORBIDDEN_AX:
                    self.bad("clears-axes", attr, e, f"'{attr}' erases what the caller has drawn")
                if attr in ("get_figure",):
                    return frozenset({F}) if t & {G, GQ} else frozenset({NF})
                if attr in TWINS:
                    return t & {G, N, X} or U
                if attr in OTHER_AXES:
                    return frozenset({X})
                if t & {N, X} and self.has_ax and (attr in DRAWING or attr.startswith(("set_", "ax"))):
                    self.bad("ignores-axes", attr, e, f"'{attr}' is applied to axes other than the ones passed in")
                self.draws += 1
                return frozenset({ART}) if attr in DRAWING else U
            if t & {F, NF}:
                if attr in FORBIDDEN_FIG:
                    self.bad("figure-lifecycle", attr, e, f"'{attr}' is called on the figure: showing, saving and clearing belong to the caller")
                if attr in OTHER_AXES:
                    return frozenset({X})
                if attr == "colorbar":
                    for k in e.keywords:
                        if k.arg in ("ax", "cax") and k.arg == "ax":
                            self.draw(tags(argv[id(k.value)]), e, env, "colorbar")
                return U
            if t == {ART}:
                return U
        r = self.p.resolve(self.f.module, e.func, self.f)
        if isinstance(r, Ext):
            if r.name.startswith("matplotlib.pyplot."):
                return self.pyplot(r.name.rsplit(".", 1)[1], e, env)
            if r.name == "typing.cast" and len(e.args) == 2:
                return argv[id(e.args[1])]
            if r.name.startswith("matplotlib.animation.") and e.args:
                if self.has_ax and tags(argv[id(e.args[0])]) & {NF, N, G, GQ, GC}:
                    self.bad("animation-figure", r.name.rsplit(".", 1)[1], e, "the animation is not built on the figure of the axes that was drawn on")
                return frozenset({ART})
            return U
        tf = target_func(self.p, r)
        if tf is not None and id(tf) in self.plotters:
            return self.plot_call(tf, e, argv, env)
        if tf is not None:
            k = return_kinds(self.p, tf)
            if k and "F" in k:
                return Tup(tuple(frozenset({NF}) if x == "F" else frozenset({N}) if x == "A" else frozenset({ART}) for x in k))
        return U

    def pyplot(self, name: str, e: ast.Call, env):
        if name in NEW_FIGURE:
            if self.has_none(env) or not self.has_ax:
                a = frozenset({G}) if self.has_ax else frozenset({N})
                fg = frozenset({F}) if self.has_ax else frozenset({NF})
                return Tup((fg, a)) if name == "subplots" else fg
            self.bad("new-figure", name, e, f"pyplot.{name} creates a figure although axes may have been passed")
            return Tup((frozenset({NF}), frozenset({N}))) if name == "subplots" else frozenset({NF})
        if name not in PURE_PYPLOT:
            self.bad("global-figure", name, e, f"pyplot.{name} acts on the global current figure")
        return U

    def plot_call(self, tf: Func, e: ast.Call, argv: dict, env):
        bound, fuzzy = bind_args(tf, e)
        names = self.plotters[id(tf)]
        t = frozenset({NONE})
        for n in names:
            if n in bound:
                t = tags(argv.get(id(bound[n]), self.eval(bound[n], env)))
                break
        else:
            if fuzzy:
                t = U
        kinds = return_kinds(self.p, tf) or []
        self.res.count("nested_plot_calls")
        draws = bool(kinds) and "F" in kinds or tf.name.startswith(("plot", "animate", "build"))
        makes = "F" in kinds  # makes a figure when none is passed
        if t & {NONE} and makes and not (t & {G, GQ, GC}):
            if self.has_ax and not self.has_none(env):
                self.bad("ignores-axes", tf.name, e, f"'{tf.name}' is called without the axes passed in and draws on a new figure")
            elif not self.has_ax:
                k = env.get("$fresh", frozenset())
                if k and self.loop_depth == 0 and tf.name.startswith(("plot", "animate")):
                    self.bad("split-figures", tf.name, e, f"'{tf.name}' opens a second figure for one operation")
                env["$fresh"] = frozenset({N})
            return Tup(tuple(frozenset({NF}) if x == "F" else frozenset({N}) if x == "A" else frozenset({ART}) for x in kinds)) if not (self.has_ax and self.has_none(env)) else Tup(
                tuple(frozenset({F}) if x == "F" else frozenset({G}) if x == "A" else frozenset({ART}) for x in kinds)
            )
        if makes or draws:
            self.draw(t, e, env, tf.name)
        if GQ in t and makes:
            self.consume(env)
        g = frozenset({G}) if t & {GQ, G, GC} else frozenset({N}) if N in t else frozenset({X}) if X in t else U
        fg = frozenset({F}) if t & {GQ, G, GC} else frozenset({NF}) if N in t else U
        if not kinds:
            return U
        return Tup(tuple(fg if x == "F" else g if x == "A" else frozenset({ART}) for x in kinds))

    def on_nested(self, node, env):
        sub = dict(env)
        for a in [*node.args.posonlyargs, *node.args.args, *node.args.kwonlyargs]:
            sub[a.arg] = frozenset({G}) if a.arg == "ax" else U
        ret, self.ret = self.ret, None
        self.run(node.body, sub)
        self.ret = ret

    def on_return(self, node, v, env):
        if not self.ret or "F" not in self.ret:
            return
        self.returns_checked += 1
        if not isinstance(v, Tup):
            return
        if len(v.items) != len(self.ret):
            self.bad("result-shape", "length", node, f"returns {len(v.items)} values, the documented result has {len(self.ret)}")
            return
        for i, (k, x) in enumerate(zip(self.ret, v.items)):
            t = tags(x)
            if k == "F" and t & {G, GQ, GC, N, X, ART}:
                self.bad("result-order", f"{i}", node, "the first value returned is not the figure that was drawn on")
            elif k == "F" and self.has_ax and t & {NF}:
                self.bad("result-figure", f"{i}", node, "returns a figure other than that of the axes drawn on")
            elif k == "A":
                if t & {F, NF, ART}:
                    self.bad("result-order", f"{i}", node, "the second value returned is not the axes that was drawn on")
                elif self.has_ax and t & {N, X}:
                    self.bad("result-axes", f"{i}", node, "returns axes other than the ones passed in")
                elif self.has_ax and (t & {GQ, GC, NONE}) and not (self.required & set(self.axp)):
                    self.bad("result-axes", f"{i}", node, "returns the axes argument itself, which is not the axes drawn on when none was passed")
            elif k == "artist" and t and t <= {F, NF, G, GQ, GC, N, X, NONE}:
                self.bad("result-artist", f"{i}", node, "a value documented as an artist is not one that was drawn")


def _optional(a: ast.expr | None) -> bool:
    return a is not None and any(isinstance(n, ast.Constant) and n.value is None for n in ast.walk(a))


DRAWING = {
    "plot", "errorbar", "pcolormesh", "pcolor", "imshow", "hist", "hist2d", "scatter", "bar", "barh", "fill_between", "fill", "axvline", "axhline",
    "contour", "contourf", "text", "annotate", "legend", "step", "stem", "vlines", "hlines", "semilogx", "semilogy", "loglog", "quiver", "add_patch",
    "add_line", "add_collection", "plot_surface",
}


def analyse(project: Project, tier: str) -> Result:
    res = Result()
    plotters: dict[int, list[str]] = {}
    for f in project.funcs:
        ns = axes_params(project, f)
        if ns and f.parent is None:
            plotters[id(f)] = ns
    for f in project.funcs:
        if f.parent is not None:
            continue
        uses_pyplot = False
        fl = PlotFlow(project, f, res, plotters)
        env: dict = {p.name: U for p in f.params}
        for n in fl.axp:
            env[n] = frozenset({G}) if n in fl.required else frozenset({GQ})
        env["$none"] = False
        fl.run_function(f.node, env)
        res.count("functions_interpreted")
        if fl.has_ax:
            res.count("plotting_functions")
            res.count("drawing_operations", fl.draws)
            res.count("returns_checked", fl.returns_checked)
            res.sample(f"{f.short}: {fl.draws} drawing operations, all on the given axes; {fl.returns_checked} results in documented order")
    # module level pyplot use
    for m in project.modules.values():
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            for n in ast.walk(st):
                if isinstance(n, ast.Call):
                    r = project.resolve(m, n.func)
                    if isinstance(r, Ext) and r.name.startswith("matplotlib.pyplot."):
                        res.add("global-figure", m.name, r.name, f"{m.rel}:{n.lineno}", f"{r.name} is called on import")
    res.floors = {"plotting_functions": 80, "drawing_operations": 200, "nested_plot_calls": 90, "returns_checked": 60}
    res.explanation = (
        "Abstract interpretation of every function with an axes parameter, with the values 'given axes (maybe none)', 'axes resolved from it', "
        "its figure, newly created axes/figures and artists; checks every drawing call, every nested plot call and every return on every path."
    )
    res.assumptions = ["axes are created only through pyplot, the figure helper or other plotting functions", "a callback's parameter named ax is the axes it must draw on"]
    return res
