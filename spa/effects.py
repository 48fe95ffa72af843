"""C13: side effects are confined to the operations that advertise them."""

from __future__ import annotations

import ast
import re

from .model import Assign, Class, Ext, Func, Module, Project, is_type_checking, walk_own
from .report import Result

# --------------------------------------------------------------------------- what an external name does
FILE, PROC, ENV, CLOCK, CONSOLE, WARN, RANDOM, GRNG, STATE = (
    "file access", "subprocess", "environment", "clock", "console", "warning", "random numbers", "global random generator", "process-wide state",
)

EXACT = {
    "builtins.open": FILE, "builtins.print": CONSOLE, "builtins.input": CONSOLE, "builtins.breakpoint": CONSOLE, "builtins.exec": STATE,
    "os.getenv": ENV, "os.putenv": STATE, "os.unsetenv": STATE, "os.chdir": STATE, "os.umask": STATE, "os.system": PROC, "os.popen": PROC, "os.getcwd": ENV, "os.getpid": ENV,
    "os.urandom": RANDOM, "os.cpu_count": ENV, "uuid.uuid4": RANDOM, "uuid.uuid1": RANDOM, "pathlib.Path.cwd": ENV, "pathlib.Path.home": ENV,
    "warnings.warn": WARN, "warnings.warn_explicit": WARN, "warnings.filterwarnings": STATE, "warnings.simplefilter": STATE, "warnings.resetwarnings": STATE,
    "numpy.seterr": STATE, "numpy.seterrcall": STATE, "numpy.setbufsize": STATE, "numpy.set_printoptions": STATE, "numpy.random.default_rng": RANDOM,
    "matplotlib.use": STATE, "matplotlib.rc": STATE, "matplotlib.rcdefaults": STATE, "matplotlib.pyplot.rc": STATE, "matplotlib.pyplot.rcdefaults": STATE,
    "matplotlib.style.use": STATE, "matplotlib.pyplot.style.use": STATE, "matplotlib.pyplot.switch_backend": STATE, "matplotlib.pyplot.ion": STATE, "matplotlib.pyplot.ioff": STATE,
    "matplotlib.pyplot.savefig": FILE, "matplotlib.pyplot.show": CONSOLE, "matplotlib.rcParams.update": STATE, "matplotlib.pyplot.rcParams.update": STATE,
    "sys.setrecursionlimit": STATE, "sys.settrace": STATE, "locale.setlocale": STATE, "signal.signal": STATE, "gc.disable": STATE, "gc.enable": STATE, "atexit.register": STATE,
    "sys.stdout.write": CONSOLE, "sys.stderr.write": CONSOLE, "sys.exit": STATE, "os._exit": STATE,
    "numpy.load": FILE, "numpy.save": FILE, "numpy.savez": FILE, "numpy.savez_compressed": FILE, "numpy.savetxt": FILE, "numpy.loadtxt": FILE, "numpy.genfromtxt": FILE,
    "numpy.fromfile": FILE, "numpy.memmap": FILE, "numpy.DataSource": FILE, "scipy.io.loadmat": FILE, "scipy.io.savemat": FILE,
    "datetime.datetime.now": CLOCK, "datetime.datetime.utcnow": CLOCK, "datetime.datetime.today": CLOCK, "datetime.date.today": CLOCK,
    "qutip.ssesolve": RANDOM, "qutip.mcsolve": RANDOM, "qutip.smesolve": RANDOM, "sse_solver_py.solve_sse": RANDOM, "sse_solver_py.solve_sse_banded": RANDOM,
    "scipy.constants.find": CONSOLE,
}
PREFIX = [
    ("subprocess.", PROC), ("multiprocessing.", PROC), ("os.spawn", PROC), ("os.exec", PROC), ("os.fork", PROC), ("os.kill", PROC), ("os.environ", ENV),
    ("tempfile.", FILE), ("shutil.", FILE), ("glob.", FILE), ("os.path.exists", FILE), ("os.path.is", FILE), ("os.listdir", FILE), ("os.scandir", FILE), ("os.walk", FILE), ("os.remove", FILE),
    ("os.unlink", FILE), ("os.rename", FILE), ("os.replace", FILE), ("os.mkdir", FILE), ("os.makedirs", FILE), ("os.rmdir", FILE), ("os.open", FILE), ("os.stat", FILE),
    ("time.", CLOCK), ("logging.", CONSOLE), ("random.", GRNG), ("secrets.", RANDOM), ("socket.", PROC), ("urllib.", PROC), ("sys.path.", STATE), ("tqdm", CONSOLE), ("pickle.dump", None),
]
NUMPY_GLOBAL_RNG = {
    "seed", "set_state", "rand", "randn", "randint", "random", "random_sample", "ranf", "sample", "choice", "shuffle", "permutation", "normal", "uniform", "standard_normal", "poisson",
    "binomial", "exponential", "gamma", "beta", "lognormal", "multivariate_normal", "bytes", "laplace", "rayleigh", "dirichlet", "multinomial", "vonmises", "standard_cauchy", "get_state",
}
# methods with such an effect on a receiver that is not a library object (paths, files, frozen distributions, figures)
METHODS = {
    "write_text": FILE, "write_bytes": FILE, "read_text": FILE, "read_bytes": FILE, "unlink": FILE, "mkdir": FILE, "rmdir": FILE, "touch": FILE, "iterdir": FILE, "rglob": FILE, "is_file": FILE,
    "exists": FILE, "savefig": FILE, "tofile": FILE, "rvs": GRNG, "is_dir": FILE,
}
LOCAL_ONLY = {"pickle.dumps", "pickle.loads"}


def external_effect(name: str, call: ast.Call | None) -> str | None:
    if name in EXACT:
        if name == "numpy.random.default_rng" and call is not None and (call.args or call.keywords):
            a = call.args[0] if call.args else call.keywords[0].value
            if not (isinstance(a, ast.Constant) and a.value is None):
                return None  # the caller chose the stream
        return EXACT[name]
    if name.startswith("numpy.random."):
        last = name.split(".")[2]
        if last in NUMPY_GLOBAL_RNG:
            return GRNG
        if last == "RandomState" and call is not None and not call.args and not call.keywords:
            return RANDOM
        return None
    for p, k in PREFIX:
        if name.startswith(p):
            if p == "random." and name == "random.Random":
                return RANDOM
            if p == "logging." and name == "logging.getLogger":
                return None
            return k
    return None


# --------------------------------------------------------------------------- who may
# entry points that advertise an effect, by what they are called and where they live
OWNERS: list[tuple[str, str, str]] = [
    # (effect, pattern over the qualified name, purpose)
    (FILE, r"^util\.decorators\.", "result caching"),
    (FILE, r"(^|\.)(load|read|save|write)_[a-z0-9_]*$", "loading data"),
    (FILE, r"wannier90|_localized_effective_mass", "exchange with the Wannier90 program"),
    (PROC, r"wannier90|_localized_effective_mass", "running the Wannier90 program"),
    (CONSOLE, r"wannier90|_localized_effective_mass", "asking for the program's results"),
    (CLOCK, r"^util\.decorators\.timed$", "timing"),
    (CLOCK, r"solve_stochastic_schrodinger_equation_rust_banded$", "timing of the native solver"),
    (CONSOLE, r"^util\.decorators\.timed$", "timing"),
    (CONSOLE, r"solve_stochastic_schrodinger_equation_rust_banded$", "timing of the native solver"),
    (CONSOLE, r"^dynamics\.isf\.", "diagnostic of the fey rate fit"),
    (RANDOM, r"(^|[._])(random|sample|samples|stochastic)(_|$)", "random sampling"),
]
CONTEXT_MANAGED = {"warnings.filterwarnings", "warnings.simplefilter"}


def owner(effect: str, f: Func) -> str | None:
    g = f
    while g is not None:
        for e, pat, why in OWNERS:
            if e == effect and re.search(pat, g.short):
                return why
        g = g.parent
    return None


MUTATORS = {"append", "extend", "insert", "update", "add", "setdefault", "pop", "popitem", "remove", "discard", "clear", "sort", "reverse", "fill", "resize", "put", "itemset"}
SCALARS = {"int", "float", "complex", "bool", "str", "None"}


class Site:
    __slots__ = ("effect", "name", "node")

    def __init__(self, effect: str, name: str, node: ast.AST) -> None:
        self.effect = effect
        self.name = name
        self.node = node


class Analysis:
    def __init__(self, p: Project, res: Result) -> None:
        self.p = p
        self.res = res
        self.direct: dict[int, list[Site]] = {}
        self.edges: dict[int, set[int]] = {}
        self.by_id = {id(f): f for f in p.funcs}
        self.state: list[tuple[str, str, str, ast.AST, Module]] = []
        for f in p.funcs:
            self.scan_func(f)

    # -------------------------------------------------------------- sites and edges of one scope
    def scan_nodes(self, m: Module, f: Func | None, nodes, sites: list[Site], edges: set[int]) -> None:
        nodes = list(nodes)
        in_ctx = self.inside_catch_warnings(m, f, nodes)
        handled: set[int] = set()
        for n in nodes:
            if isinstance(n, ast.Call):
                self.res.count("calls_examined")
                handled.add(id(n.func))
                r = self.p.resolve(m, n.func, f)
                if isinstance(r, Ext):
                    if r.name in CONTEXT_MANAGED and id(n) in in_ctx:
                        continue
                    e = external_effect(r.name, n)
                    if e is not None:
                        sites.append(Site(e, r.name.removeprefix("builtins."), n))
                elif isinstance(r, Func):
                    edges.add(id(r))
                elif isinstance(r, Class):
                    for k in ("__init__", "__post_init__", "__new__"):
                        g = self.p.find_method(r, k)
                        if g is not None:
                            edges.add(id(g))
                elif isinstance(n.func, ast.Attribute):
                    name = n.func.attr
                    if name in self.p.methods_by_name:
                        own = self.self_class(f, n.func.value)
                        cands = [self.p.find_method(own, name)] if own is not None else self.p.methods_by_name[name]
                        if own is not None:
                            cands += [c.methods[name] for c in self.p.subclasses(own) if name in c.methods]
                        for g in cands:
                            if g is not None:
                                edges.add(id(g))
                    elif name in METHODS:
                        sites.append(Site(METHODS[name], f".{name}()", n))
                    elif name == "open":
                        sites.append(Site(FILE, ".open()", n))
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and id(n) not in handled:
                r = self.p.resolve(m, n, f)
                if isinstance(r, Func):
                    edges.add(id(r))  # used as a value: may be called
                elif isinstance(r, Ext):
                    e = GRNG if r.name in ("numpy.random", "random") else external_effect(r.name, None)
                    if r.name in ("os.environ", "sys.argv"):
                        sites.append(Site(ENV, r.name, n))
                    elif e in (GRNG, RANDOM, FILE, PROC, CLOCK) and self.is_value_use(n, nodes):
                        sites.append(Site(e, r.name, n))
                    elif r.name in ("matplotlib.rcParams", "matplotlib.pyplot.rcParams"):
                        if any(isinstance(x, ast.Subscript) and x.value is n and isinstance(x.ctx, ast.Store) for x in nodes):
                            sites.append(Site(STATE, r.name, n))
                elif isinstance(n, ast.Attribute) and n.attr in self.p.methods_by_name:
                    for g in self.p.methods_by_name[n.attr]:
                        if g.is_property:
                            edges.add(id(g))

    @staticmethod
    def is_value_use(n: ast.AST, nodes: list) -> bool:
        """Passed or stored as a callable (not a class used in an annotation, an exception name or a namespace prefix)."""
        for x in nodes:
            if isinstance(x, ast.Call) and any(a is n for a in [*x.args, *[k.value for k in x.keywords]]):
                return True
            if isinstance(x, ast.Assign) and x.value is n:
                return True
        return False

    def inside_catch_warnings(self, m: Module, f: Func | None, nodes: list) -> set[int]:
        out: set[int] = set()
        for n in nodes:
            if isinstance(n, ast.With):
                for it in n.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call):
                        r = self.p.resolve(m, c.func, f)
                        if isinstance(r, Ext) and r.name == "warnings.catch_warnings":
                            out |= {id(x) for st in n.body for x in ast.walk(st)}
        return out

    def self_class(self, f: Func | None, v: ast.expr) -> Class | None:
        g = f
        while g is not None and g.cls is None:
            g = g.parent
        if g is not None and isinstance(v, ast.Name) and g.params and not g.is_static and v.id == g.params[0].name:
            return g.cls
        return None

    def scan_func(self, f: Func) -> None:
        sites: list[Site] = []
        edges: set[int] = set()
        body = [n for st in f.node.body for n in ([st] if isinstance(st, (ast.FunctionDef, ast.ClassDef)) else walk_own(st))]
        self.scan_nodes(f.module, f, body, sites, edges)
        for c in f.children.values():
            edges.add(id(c))
        for d in f.decorators:
            t = d.func if isinstance(d, ast.Call) else d
            r = self.p.resolve(f.module, t, f.parent)
            if isinstance(r, Func):
                edges.add(id(r))
            elif isinstance(r, Ext) and r.name in ("functools.cache", "functools.lru_cache"):
                if not self.scalar_result(f):
                    self.state.append(("shared-result", f.short, r.name.split(".")[-1], f.node, f.module))
        self.direct[id(f)] = sites
        self.edges[id(f)] = edges
        self.scan_state(f, body)
        self.res.count("functions_examined")

    def scalar_result(self, f: Func) -> bool:
        r = f.node.returns
        if r is None:
            return False
        return all(not isinstance(n, ast.Name) or n.id in SCALARS | {"tuple"} for n in ast.walk(r))

    # -------------------------------------------------------------- writes to state that outlives the call
    def scan_state(self, f: Func, body: list) -> None:
        m = f.module
        glob = {x for n in body if isinstance(n, ast.Global) for x in n.names}

        def outer(base: ast.expr) -> str | None:
            """Name of the library/third-party object a store through this expression reaches, if it outlives the call."""
            if isinstance(base, ast.Name):
                r = self.p.resolve(m, base, f)
                if isinstance(r, (Assign, Module, Class)) or (isinstance(r, Func) and r.parent is None):
                    return getattr(r, "qual", getattr(r, "name", base.id))
                if isinstance(r, Ext) and not r.name.startswith("builtins."):
                    return r.name
                return None
            if isinstance(base, ast.Attribute):
                r = self.p.resolve(m, base, f)
                if isinstance(r, (Assign, Module, Class, Ext)):
                    return getattr(r, "qual", getattr(r, "name", None))
                own = self.self_class(f, base.value)
                if own is not None and self.class_level_mutable(own, base.attr):
                    return f"{own.qual}.{base.attr}"
                if isinstance(base.value, ast.Call) and isinstance(base.value.func, ast.Name) and base.value.func.id == "type":
                    return "type(self)." + base.attr
                if isinstance(base.value, ast.Attribute) and base.value.attr == "__class__":
                    return "self.__class__." + base.attr
                return outer(base.value)
            if isinstance(base, (ast.Subscript, ast.Starred)):
                return outer(base.value)
            if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == "globals":
                return "globals()"
            return None

        def report(what: str | None, node: ast.AST) -> None:
            if what is not None:
                self.state.append(("state", f.short, what.removeprefix("surface_potential_analysis."), node, m))

        for n in body:
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.For)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                if isinstance(n, ast.AnnAssign) and n.value is None:
                    continue
                for t in ts:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in glob:
                            report(f"{m.name}.{x.id}", n)
                        elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                            own = self.self_class(f, x.value) if isinstance(x, ast.Attribute) else None
                            if isinstance(x, ast.Attribute) and own is not None:
                                if f.is_classmethod:
                                    report(f"{own.qual}.{x.attr}", n)
                                continue
                            if isinstance(x, ast.Attribute):
                                w = outer(x.value)
                                if w is None and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == "type":
                                    w = "type(self)." + x.attr
                                report(w, n)
                            else:
                                report(outer(x.value), n)
                self.res.count("stores_examined")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                w = outer(n.func.value)
                r = self.p.resolve(m, n.func, f)
                if w is not None and not (isinstance(r, (Func, Class)) or (isinstance(r, Ext) and w == r.name.rpartition(".")[0] and not self.is_container_ext(w))):
                    report(w, n)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args:
                report(outer(n.args[0]), n)
        # a nested function that is returned and changes its enclosing scope keeps state between calls
        for c in f.children.values():
            inner = list(walk_own(c.node))
            local = self.p.func_locals(c)
            escapes = any(isinstance(n, ast.Return) and n.value is not None and any(isinstance(x, ast.Name) and x.id == c.name for x in ast.walk(n.value)) for n in body)
            if not escapes:
                continue
            outer_names = set(self.p.func_locals(f)) - {p.name for p in f.params}
            for n in inner:
                if isinstance(n, ast.Nonlocal):
                    for x in n.names:
                        self.state.append(("closure-state", c.short, x, n, m))
                base = None
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    base = n.value
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    base = n.func.value
                if isinstance(base, ast.Name) and base.id not in local and base.id in outer_names:
                    self.state.append(("closure-state", c.short, base.id, n, m))

    def is_container_ext(self, name: str) -> bool:
        return name.split(".")[-1] in ("rcParams", "environ", "path", "modules", "meta_path")

    def class_level_mutable(self, c: Class, attr: str) -> bool:
        for k in self.p.mro(c):
            v = k.class_assigns.get(attr)
            if v is not None and isinstance(v, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.Call)):
                for g in k.methods.values():
                    for n in ast.walk(g.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr and isinstance(n.value, ast.Name) and n.value.id == "self":
                            return False
                return not isinstance(v, ast.Call) or (isinstance(v.func, ast.Name) and v.func.id in ("dict", "list", "set", "defaultdict", "deque", "OrderedDict"))
        return False

    # -------------------------------------------------------------- reachability
    def trace(self, f: Func) -> dict[tuple[str, str], tuple[list[Func], Site]]:
        """Effects reachable from f without passing through an operation that owns the effect: effect -> call path and site."""
        out: dict[tuple[str, str], tuple[list[Func], Site]] = {}
        seen = {id(f)}
        todo: list[tuple[int, list[Func]]] = [(id(f), [f])]
        while todo:
            k, path = todo.pop(0)
            for s in self.direct[k]:
                out.setdefault((s.effect, s.name), (path, s))
            for e in sorted(self.edges[k], key=lambda i: self.by_id[i].qual):
                if e not in seen:
                    seen.add(e)
                    todo.append((e, [*path, self.by_id[e]]))
        return out


def _order_dependent_sets(p: Project, f: Func) -> list[ast.AST]:
    """Loops or conversions that take the arbitrary order of a set of strings or objects into a result."""
    out = []

    def is_set(e: ast.expr) -> bool:
        return isinstance(e, (ast.Set, ast.SetComp)) or (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"))

    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "enumerate") and n.args and is_set(n.args[0]):
            out.append(n)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("id", "hash") and p.resolve(f.module, n.func, f) == Ext("builtins." + n.func.id) and f.name not in ("__hash__", "__eq__"):
            out.append(n)
    return out


def import_time_nodes(m: Module):
    """Statements executed on import, with whether they sit in an ImportError fallback."""

    def visit(body: list[ast.stmt], fallback: bool):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for e in [*st.decorator_list, *st.args.defaults, *[d for d in st.args.kw_defaults if d is not None]]:
                    yield from ((n, fallback) for n in ast.walk(e))
            elif isinstance(st, ast.ClassDef):
                for e in [*st.decorator_list, *st.bases]:
                    yield from ((n, fallback) for n in ast.walk(e))
                yield from visit(st.body, fallback)
            elif isinstance(st, ast.If):
                if is_type_checking(st.test):
                    continue
                if "__main__" in ast.dump(st.test):
                    continue
                yield from ((n, fallback) for n in ast.walk(st.test))
                yield from visit(st.body, fallback)
                yield from visit(st.orelse, fallback)
            elif isinstance(st, ast.Try):
                yield from visit(st.body, fallback)
                for h in st.handlers:
                    yield from visit(h.body, fallback or (h.type is not None and "ImportError" in ast.dump(h.type)) or (h.type is not None and "ModuleNotFoundError" in ast.dump(h.type)))
                yield from visit(st.orelse, fallback)
                yield from visit(st.finalbody, fallback)
            elif isinstance(st, (ast.For, ast.While, ast.With)):
                yield from ((n, fallback) for n in ast.walk(st))
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                continue
            else:
                yield from ((n, fallback) for n in ast.walk(st))

    yield from visit(m.tree.body, False)


def analyse(project: Project, tier: str) -> Result:
    res = Result()
    an = Analysis(project, res)
    callers: dict[int, set[int]] = {}
    for a, es in an.edges.items():
        for e in es:
            callers.setdefault(e, set()).add(a)

    def owned(f: Func, effect: str, depth: int = 0, seen: frozenset = frozenset()) -> bool:
        if owner(effect, f):
            return True
        if f.parent is not None and owned(f.parent, effect, depth, seen):
            return True
        cs = callers.get(id(f), set()) - {id(f)}
        if not cs or id(f) in seen or depth > 6:
            return False
        return all(owned(an.by_id[c], effect, depth + 1, seen | {id(f)}) for c in cs)

    # every function with a direct effect must be the operation that advertises it, or only serve such operations
    for f in project.funcs:
        for s in an.direct[id(f)]:
            res.count("effect_sites")
            if s.effect == GRNG:
                res.add("global-generator", f.short, s.name, f"{f.module.rel}:{s.node.lineno}", f"draws from (or changes) the global random generator through {s.name}")
                continue
            if s.effect == STATE:
                res.add("process-state", f.short, s.name, f"{f.module.rel}:{s.node.lineno}", f"changes process-wide state through {s.name}")
                continue
            if owned(f, s.effect):
                res.sample(f"{f.module.rel}: {f.short} may perform {s.effect} ({s.name})")
                continue
            users = sorted(an.by_id[c].short for c in callers.get(id(f), set()) if not owned(an.by_id[c], s.effect))
            via = f", reached from {users[0]}" if users else ""
            res.add("effect", f.short, f"{s.effect}: {s.name}", f"{f.module.rel}:{s.node.lineno}", f"{s.effect} ({s.name}) in an operation whose purpose it is not{via}")
    # nothing but an owner may call an owner of an effect either (a pure operation must not save, print or sample on the way)
    for f in project.funcs:
        if f.parent is not None or f.name.startswith("_"):
            continue
        res.count("public_operations")
        for (effect, name), (path, s) in an.trace(f).items():
            if effect in (GRNG, STATE):
                continue
            if owned(f, effect):
                continue
            if effect in (CLOCK, CONSOLE, WARN) and any(owner(effect, g) for g in path[1:]):
                continue  # timing and diagnostics of a documented part stay visible to its users
            if any(owner(effect, g) for g in path[1:]) and _advertised(f, effect):
                continue
            if len(path) > 1:
                res.add("reaches", f.short, f"{effect}: {name}", f.loc, f"reaches {effect} ({name}) through " + " -> ".join(g.short for g in path[1:]))
    for rule, where, what, node, m in an.state:
        msg = {
            "state": f"changes {what}, which outlives the call",
            "closure-state": f"keeps state between calls in '{what}' of the enclosing scope",
            "shared-result": f"{what} hands the same result object to every caller",
        }[rule]
        res.add(rule, where, what, f"{m.rel}:{node.lineno}", msg)
    for f in project.funcs:
        for n in _order_dependent_sets(project, f):
            res.add("order", f.short, ast.unparse(n)[:60], f"{f.module.rel}:{n.lineno}", "the outcome depends on object identity, hashing or the arbitrary order of a set")
    # import time
    for m in project.modules.values():
        sites: list[Site] = []
        edges: set[int] = set()
        pairs = list(import_time_nodes(m))
        fb = {id(n) for n, fallback in pairs if fallback}
        an.scan_nodes(m, None, [n for n, _ in pairs], sites, edges)
        calls = {id(project.resolve(m, n.func)) for n, _ in pairs if isinstance(n, ast.Call)}
        decs = {id(project.resolve(m, d.func if isinstance(d, ast.Call) else d)) for f in m.funcs for d in f.decorators}
        res.count("import_time_modules")
        for s in sites:
            if s.effect == WARN and id(s.node) in fb:
                continue  # announces that an optional dependency is missing
            res.add("import", m.name.removeprefix("surface_potential_analysis."), f"{s.effect}: {s.name}", f"{m.rel}:{s.node.lineno}", f"importing the module performs {s.effect} ({s.name})")
        for e in edges & calls - decs:
            for (effect, name), (path, s) in an.trace(an.by_id[e]).items():
                res.add("import", m.name.removeprefix("surface_potential_analysis."), f"{effect}: {name}", f"{m.rel}:1", f"importing the module performs {effect} ({name}) by calling {path[0].short}")
    res.floors = {"functions_examined": 400, "calls_examined": 2000, "effect_sites": 8, "import_time_modules": 40}
    res.explanation = (
        "Every call and callable reference in every function and in every module's import-time code is classified by what it does to the outside world (files, subprocesses, environment, clock, "
        "console, warnings, random numbers, process-wide settings); effects are propagated along the call graph (methods on unknown receivers reach every method of that name). A function with an effect must be "
        "an operation that advertises it or serve only such operations, and no other public operation may reach one. Stores to module, class, function or closure state from inside functions are reported, "
        "as are draws from a global generator, memoised mutable results, and results that depend on identity, hashing or set order."
    )
    res.assumptions = ["third-party numerical routines not listed as having an effect have none", "callables supplied by the user are the user's"]
    return res


def _advertised(f: Func, effect: str) -> bool:
    """The operation says so itself: in its name, or because it takes what the effect needs."""
    if effect == RANDOM:
        return bool(re.search(r"(^|_)(random|sample|samples|noise|stochastic|localized)", f.name)) or bool(f.node.body and ast.get_docstring(f.node) and re.search(r"random|sampl|stochastic|realis|realiz", ast.get_docstring(f.node) or "", re.I))
    return any(p.name in ("path", "file", "filename", "options") for p in f.params)
