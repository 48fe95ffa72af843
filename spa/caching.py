"""C06: result caching is transparent.

A typestate analysis of the caching decorators. The abstract state is finite: whether a location was given (directly, by a
callable, or not at all), what the cache file is (readable, missing, unreadable, corrupt), whether the function succeeds, and
what each variable holds (the caller's arguments, the location, the computed or the stored result). For every combination the
events each entry point performs are compared with what its name promises.
"""

from __future__ import annotations

import ast
import builtins

from .model import AnalysisBroken, Class, Ext, Func, Project
from .report import Result

NONE, ARGS, KW, FN, PATH, COMPUTED, LOADED, RAW, UNK = ("none",), ("args",), ("kw",), ("fn",), ("path",), ("computed",), ("loaded",), ("raw",), ("unk",)

# exception kinds and what catches them
EXC = {
    "file-missing": ("FileNotFoundError", "OSError", "IOError", "EnvironmentError", "Exception", "BaseException"),
    "file-denied": ("PermissionError", "OSError", "IOError", "EnvironmentError", "Exception", "BaseException"),
    "file-corrupt": ("EOFError", "ValueError", "UnpicklingError", "Exception", "BaseException"),
    "function-error": ("RuntimeError", "Exception", "BaseException"),
    "function-file-missing": ("FileNotFoundError", "OSError", "IOError", "EnvironmentError", "Exception", "BaseException"),
    "function-key": ("KeyError", "LookupError", "Exception", "BaseException"),
}


def caught_as(kind: str) -> tuple[str, ...]:
    """Names of the exception classes that catch this kind of error."""
    if kind in EXC:
        return EXC[kind]
    if kind.startswith("new:"):
        name = kind[4:].split("(")[0].split(".")[-1]
        c = getattr(builtins, name, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return tuple(x.__name__ for x in c.__mro__)
    return ("Exception", "BaseException")


class World:
    def __init__(self, spec: str, file: str, fn: str) -> None:
        self.spec, self.file, self.fn = spec, file, fn

    @property
    def has_path(self) -> bool:
        return self.spec in ("path", "callable-path")

    def __str__(self) -> str:
        s = {"none": "no location", "path": "a location", "callable-none": "a location function returning None", "callable-path": "a location function"}[self.spec]
        return f"{s}, file {self.file}, function {self.fn}"


class Undecided(Exception):
    pass


class State:
    __slots__ = ("env", "events", "heap")

    def __init__(self, env: dict, events: tuple, heap: dict) -> None:
        self.env, self.events, self.heap = env, events, heap

    def copy(self) -> "State":
        return State(dict(self.env), self.events, {k: dict(v) for k, v in self.heap.items()})

    def ev(self, *e) -> "State":
        s = self.copy()
        s.events = (*self.events, e)
        return s


class Interp:
    """Outcomes of expressions: list of (state, value) or (state, ('raise', kind))."""

    def __init__(self, p: Project, w: World, issues: list) -> None:
        self.p = p
        self.w = w
        self.issues = issues
        self.steps = 0
        self.fresh = 0

    # ------------------------------------------------------------------ calls
    def apply(self, st: State, fv, args: list, kwargs: dict, star, dstar, node: ast.AST, f: Func):
        """args: positional values; star/dstar: value of *x / **x or None."""
        k = fv[0]
        exact = not args and not kwargs and star == ARGS and dstar == KW
        if k == "fn":
            if not exact and not self.vague(args, kwargs, star, dstar):
                self.issues.append((f, node, "function-arguments", "the wrapped function is not called with exactly the caller's arguments"))
            s = st.ev("compute")
            if self.w.fn == "succeeds":
                return [(s, COMPUTED)]
            kind = {"raises": "function-error", "raises FileNotFoundError": "function-file-missing", "raises KeyError": "function-key"}[self.w.fn]
            return [(s, ("raise", kind))]
        if k == "spec":
            if not fv[1].startswith("callable"):
                return [(st, ("raise", "not-callable"))]
            if not exact and not self.vague(args, kwargs, star, dstar):
                self.issues.append((f, node, "location-arguments", "the cache location is not derived from exactly the caller's arguments"))
            return [(st, PATH if fv[1] == "callable-path" else NONE)]
        if k == "func":
            return self.call_func(st, fv[1], fv[2], args, kwargs, star, dstar, node)
        if k == "method":
            return self.call_func(st, fv[1], {}, [fv[2], *args], kwargs, star, dstar, node)
        if k == "class":
            cls = fv[1]
            oid = f"o{len(st.heap)}"
            s = st.copy()
            s.heap[oid] = {}
            init = self.p.find_method(cls, "__init__")
            if init is None:
                return [(s, ("obj", oid, cls))]
            out = []
            for s2, v in self.call_func(s, init, {}, [("obj", oid, cls), *args], kwargs, star, dstar, node):
                out.append((s2, v if v[0] == "raise" else ("obj", oid, cls)))
            return out
        if k == "obj":
            call = self.p.find_method(fv[2], "__call__")
            if call is not None:
                return self.call_func(st, call, {}, [fv, *args], kwargs, star, dstar, node)
        raise Undecided(ast.unparse(node)[:60])

    @staticmethod
    def vague(args, kwargs, star, dstar) -> bool:
        return any(v is not None and v[0] == "unk" for v in [*args, *kwargs.values(), star, dstar])

    def call_func(self, st: State, g: Func, closure: dict, args: list, kwargs: dict, star, dstar, node: ast.AST):
        self.steps += 1
        if self.steps > 400:
            raise Undecided("too deep")
        env: dict = dict(closure)
        pos = [q for q in g.params if q.kind in ("pos", "posonly")]
        rest = list(args)
        for q in pos:
            if rest:
                env[q.name] = rest.pop(0)
            elif q.name in kwargs:
                env[q.name] = kwargs[q.name]
            elif star is not None or dstar is not None:
                raise Undecided("star arguments bound to named parameters")
            elif q.has_default:
                env[q.name] = self.literal(q.default)
            else:
                env[q.name] = UNK
        named = {q.name for q in g.params}
        for q in g.params:
            if q.kind == "kw":
                env[q.name] = kwargs[q.name] if q.name in kwargs else (self.literal(q.default) if q.has_default else UNK)
            elif q.kind == "var":
                env[q.name] = star if star is not None and not rest else (("tuple", tuple(rest)) if star is None else ("args+",))
            elif q.kind == "varkw":
                extra = {a: b for a, b in kwargs.items() if a not in named}
                env[q.name] = dstar if dstar is not None and not extra else (("dict", ()) if dstar is None and not extra else ("kw+",))
        s = State(env, st.events, st.heap)
        out = []
        for s2, oc in self.block(g.node.body, s, g):
            t = State(dict(st.env), s2.events, s2.heap)
            if oc[0] == "return":
                out.append((t, oc[1]))
            elif oc[0] == "raise":
                out.append((t, oc))
            else:
                out.append((t, NONE))
        return out

    @staticmethod
    def literal(e: ast.expr | None):
        if isinstance(e, ast.Constant):
            return NONE if e.value is None else ("const", e.value)
        return UNK

    # ------------------------------------------------------------- expressions
    def seq(self, st: State, exprs: list, f: Func):
        """Evaluate expressions in order: list of (state, [values]) or (state, ('raise', ..))."""
        outs: list = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in outs:
                if isinstance(vs, tuple):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s, f):
                    nxt.append((s2, v) if v[0] == "raise" else (s2, [*vs, v]))
            outs = nxt
        return outs

    def ev(self, e: ast.expr, st: State, f: Func):
        if isinstance(e, ast.Constant):
            return [(st, NONE if e.value is None else ("const", e.value))]
        if isinstance(e, ast.Name):
            if e.id in st.env:
                return [(st, st.env[e.id])]
            r = self.p.resolve(f.module, e, f)
            if isinstance(r, Func):
                return [(st, ("func", r, dict(st.env) if r.parent is not None else {}))]
            if isinstance(r, Class):
                return [(st, ("class", r))]
            if isinstance(r, Ext):
                return [(st, ("ext", r.name))]
            return [(st, UNK)]
        if isinstance(e, ast.Attribute):
            r = self.p.resolve(f.module, e, f)
            if isinstance(r, Ext):
                return [(st, ("ext", r.name))]
            if isinstance(r, Func) and r.cls is not None:
                return [(st, ("func", r, {}))]
            out = []
            for s, v in self.ev(e.value, st, f):
                out.append((s, v if v[0] == "raise" else self.attr(s, v, e.attr)))
            return out
        if isinstance(e, ast.IfExp):
            out = []
            for s, t in self.ev(e.test, st, f):
                if t[0] == "raise":
                    out.append((s, t))
                    continue
                b = self.truth(t)
                for branch, want in ((e.body, True), (e.orelse, False)):
                    if b is None or b is want:
                        out += self.ev(branch, s.copy() if b is None else s, f)
            return out
        if isinstance(e, ast.BoolOp):
            out = []
            pend = [(st, None)]
            for i, x in enumerate(e.values):
                nxt = []
                for s, _ in pend:
                    for s2, v in self.ev(x, s, f):
                        if v[0] == "raise":
                            out.append((s2, v))
                            continue
                        b = self.truth(v)
                        stop = isinstance(e.op, ast.Or)
                        if i == len(e.values) - 1:
                            out.append((s2, v))
                        else:
                            if b is None or b is stop:
                                out.append((s2, v))
                            if b is None or b is not stop:
                                nxt.append((s2.copy(), v))
                pend = nxt
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            out = []
            for s, v in self.ev(e.operand, st, f):
                b = None if v[0] == "raise" else self.truth(v)
                out.append((s, v if v[0] == "raise" else (UNK if b is None else ("const", not b))))
            return out
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            out = []
            for s, vs in self.seq(st, [e.left, e.comparators[0]], f):
                if isinstance(vs, tuple):
                    out.append((s, vs))
                    continue
                a, b = vs
                r = None
                op = e.ops[0]
                if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                    if NONE in (a, b) and UNK not in (a, b) and "ret?" not in (a[0], b[0]):
                        r = self.is_none(a) if b == NONE else self.is_none(b)
                    elif a[0] == "const" and b[0] == "const":
                        r = a[1] == b[1]
                    if r is not None and isinstance(op, (ast.IsNot, ast.NotEq)):
                        r = not r
                elif isinstance(op, (ast.In, ast.NotIn)) and a[0] == "const" and b[0] == "tuple" and all(x[0] == "const" for x in b[1]):
                    r = a in b[1]
                    if isinstance(op, ast.NotIn):
                        r = not r
                out.append((s, UNK if r is None else ("const", r)))
            return out
        if isinstance(e, ast.NamedExpr):
            out = []
            for s, v in self.ev(e.value, st, f):
                if v[0] != "raise":
                    s = s.copy()
                    s.env[e.target.id] = v
                out.append((s, v))
            return out
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return [(s, v if v[0] == "raise" else UNK) for s, v in self.ev(e.value, st, f)]
            out = []
            for s, vs in self.seq(st, [e.value, e.slice], f):
                if isinstance(vs, tuple):
                    out.append((s, vs))
                    continue
                base, ix = vs
                if base[0] in ("class", "func", "ext"):
                    out.append((s, base))
                elif base == RAW and ix == ("tuple", ()):
                    out.append((s, LOADED))
                elif base[0] == "dict" and ix[0] == "const" and dict(base[1]).get(ix):
                    out.append((s, dict(base[1])[ix]))
                else:
                    out.append((s, UNK))
            return out
        if isinstance(e, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return [(st, UNK)]
            return [(s, vs if isinstance(vs, tuple) else ("tuple", tuple(vs))) for s, vs in self.seq(st, list(e.elts), f)]
        if isinstance(e, ast.Dict):
            if any(k is None for k in e.keys):
                return [(st, UNK)]
            out = []
            for s, vs in self.seq(st, [*e.keys, *e.values], f):
                if isinstance(vs, tuple):
                    out.append((s, vs))
                else:
                    n = len(e.keys)
                    out.append((s, ("dict", tuple(zip(vs[:n], vs[n:])))))
            return out
        if isinstance(e, ast.Lambda):
            return [(st, ("lambda", e, dict(st.env)))]
        if isinstance(e, ast.JoinedStr):
            return [(st, UNK)]
        if isinstance(e, ast.Call):
            return self.call(e, st, f)
        return [(st, UNK)]

    def is_none(self, v) -> bool | None:
        if v == NONE:
            return True
        if v[0] in ("unk", "ret?"):
            return None
        if v[0] == "spec":
            return v[1] == "none"
        return False

    def truth(self, v) -> bool | None:
        if v[0] == "const":
            return bool(v[1])
        if v == NONE:
            return False
        if v[0] == "spec":
            return v[1] != "none"
        if v[0] in ("path", "func", "fn", "obj", "file"):
            return True
        return None

    def attr(self, s: State, v, name: str):
        if v[0] == "obj":
            if name in s.heap.get(v[1], {}):
                return s.heap[v[1]][name]
            m = self.p.find_method(v[2], name)
            if m is not None:
                return ("func", m, {}) if m.is_static else ("method", m, v)
            return UNK
        if v[0] in ("path", "spec", "pathx", "file", "raw", "computed", "loaded", "dict"):
            return ("bound", v, name)
        if v[0] == "ext":
            return ("ext", f"{v[1]}.{name}")
        return UNK

    def as_path(self, v):
        if v == ("spec", "path"):
            return PATH
        return v

    def load(self, s: State, where, kind):
        if where[0] not in ("path", "pathx"):
            raise Undecided("unknown location")
        s = s.ev("load", where)
        if self.w.file == "missing":
            return [(s, ("raise", "file-missing"))]
        if self.w.file == "unreadable":
            return [(s, ("raise", "file-denied"))]
        if self.w.file == "corrupt":
            return [(s, ("raise", "file-corrupt"))]
        return [(s, kind)]

    def call(self, e: ast.Call, st: State, f: Func):
        self.steps += 1
        if self.steps > 2000:
            raise Undecided("too many steps")
        plain = [a for a in e.args if not isinstance(a, ast.Starred)]
        stars = [a for a in e.args if isinstance(a, ast.Starred)]
        kws = [k for k in e.keywords if k.arg is not None]
        dstars = [k for k in e.keywords if k.arg is None]
        out = []
        exprs = [e.func, *plain, *[a.value for a in stars], *[k.value for k in kws], *[k.value for k in dstars]]
        for s, vs in self.seq(st, exprs, f):
            if isinstance(vs, tuple):
                out.append((s, vs))
                continue
            fv = vs[0]
            i = 1 + len(plain)
            args = vs[1:i]
            star = vs[i] if stars else None
            i += len(stars)
            kwargs = {k.arg: v for k, v in zip(kws, vs[i : i + len(kws)])}
            i += len(kws)
            dstar = vs[i] if dstars else None
            if len(stars) > 1 or len(dstars) > 1:
                star = ("args+",)
            if (stars and star == ARGS and args) or (kws and dstar == KW):
                pass
            out += self.dispatch(e, s, f, fv, args, kwargs, star, dstar)
        return out

    def dispatch(self, e, s, f, fv, args, kwargs, star, dstar):
        k = fv[0]
        if k == "lambda":
            lam, closure = fv[1], fv[2]
            names = [a.arg for a in lam.args.args]
            env = dict(closure)
            env.update(zip(names, args))
            if lam.args.vararg:
                env[lam.args.vararg.arg] = star if star is not None else ("tuple", ())
            if lam.args.kwarg:
                env[lam.args.kwarg.arg] = dstar if dstar is not None else ("dict", ())
            return [(State(dict(s.env), t.events, t.heap), v) for t, v in self.ev(lam.body, State(env, s.events, s.heap), f)]
        if k in ("fn", "spec", "func", "method", "class", "obj"):
            return self.apply(s, fv, args, kwargs, star, dstar, e, f)
        if k == "bound":
            base, name = fv[1], fv[2]
            base = self.as_path(base)
            if base[0] in ("path", "pathx"):
                if name == "open":
                    mode = args[0] if args else kwargs.get("mode", ("const", "r"))
                    return self.open(s, base, mode, e, f)
                if name == "exists" or name == "is_file":
                    return [(s, ("const", self.w.file != "missing"))]
                if name == "read_bytes":
                    return self.load(s, base, ("bytes",))
                if name == "write_bytes":
                    return [(s.ev("save", base, args[0] if args else UNK), NONE)]
                if name in ("with_suffix", "with_name", "with_stem", "joinpath", "absolute", "resolve", "expanduser"):
                    self_same = name in ("absolute", "resolve", "expanduser")
                    return [(s, base if self_same else ("pathx", ast.unparse(e)))]
                if name == "unlink":
                    return [(s.ev("remove", base), NONE)]
                if name in ("replace", "rename"):
                    # publishing a temporary file: what was written there is now at the target
                    return [(s.ev("publish", base, self.as_path(args[0]) if args else UNK), UNK)]
                if name in ("mkdir", "touch"):
                    return [(s, NONE)]
                return [(s, UNK)]
            if base[0] == "raw" and name in ("item",):
                return [(s, UNK)]
            if base[0] == "computed" and name == "copy":
                return [(s, COMPUTED)]
            if base[0] == "dict" and name == "get" and args and args[0][0] == "const":
                return [(s, dict(base[1]).get(args[0], NONE))]
            return [(s, UNK)]
        if k == "ext":
            return self.external(e, s, f, fv[1], args, kwargs, star, dstar)
        return [(s, UNK)] if not self.involves(args, kwargs, star, dstar) else self.undecided(e)

    @staticmethod
    def involves(args, kwargs, star, dstar) -> bool:
        return any(v is not None and v[0] in ("fn", "args", "kw", "obj") for v in [*args, *kwargs.values(), star, dstar])

    def undecided(self, e):
        raise Undecided(ast.unparse(e)[:60])

    def open(self, s: State, where, mode, e, f):
        if mode[0] != "const":
            return self.undecided(e)
        m = mode[1]
        if "b" not in m:
            self.issues.append((f, e, "file-mode", f"the cache file is opened with mode '{m}', which is not binary"))
        if "r" in m and "+" not in m:
            if self.w.file == "missing":
                return [(s.ev("load", where), ("raise", "file-missing"))]
            if self.w.file == "unreadable":
                return [(s.ev("load", where), ("raise", "file-denied"))]
            return [(s, ("file", where, "r"))]
        if "a" in m or "x" in m or "r" in m:
            self.issues.append((f, e, "file-mode", f"the cache file is opened with mode '{m}', so an existing file is not replaced"))
        return [(s.ev("truncate", where), ("file", where, "w"))]

    def external(self, e, s, f, name, args, kwargs, star, dstar):
        if name in ("typing.cast",):
            return [(s, args[1] if len(args) > 1 else UNK)]
        if name == "builtins.callable":
            v = args[0]
            if v[0] == "spec":
                return [(s, ("const", v[1].startswith("callable")))]
            if v[0] in ("fn", "func", "method", "lambda"):
                return [(s, ("const", True))]
            return [(s, ("const", False) if v in (NONE, PATH) else UNK)]
        if name == "builtins.isinstance":
            v = args[0]
            t = ast.unparse(e.args[1])
            if v[0] == "spec" and "Path" in t:
                return [(s, ("const", v[1] == "path"))]
            if v[0] == "spec" and "Callable" in t:
                return [(s, ("const", v[1].startswith("callable")))]
            if v == PATH and "Path" in t:
                return [(s, ("const", True))]
            return [(s, UNK)]
        if name == "builtins.getattr" and len(args) >= 2 and args[1][0] == "const":
            return [(s, self.attr(s, args[0], args[1][1]))]
        if name in ("functools.wraps", "functools.update_wrapper"):
            if name == "functools.update_wrapper":
                return [(s, args[0] if args else UNK)]
            return [(s, ("ext", "identity"))]
        if name == "identity":
            return [(s, args[0])]
        if name == "functools.partial":
            return self.undecided(e)
        if name == "contextlib.suppress":
            return [(s, ("suppress", tuple(ast.unparse(a).split(".")[-1] for a in e.args)))]
        if name == "pathlib.Path":
            return [(s, self.as_path(args[0]) if len(args) == 1 else UNK)]
        if name == "builtins.open":
            mode = args[1] if len(args) > 1 else kwargs.get("mode", ("const", "r"))
            return self.open(s, self.as_path(args[0]), mode, e, f)
        if name == "numpy.load":
            w = self.as_path(args[0] if args else kwargs.get("file", UNK))
            if w[0] == "file":
                w = w[1]
            return self.load(s, w, RAW)
        if name in ("numpy.save",):
            w = self.as_path(args[0] if args else kwargs.get("file", UNK))
            v = args[1] if len(args) > 1 else kwargs.get("arr", UNK)
            if w[0] == "file":
                w = w[1]
            return [(s.ev("save", w, v), NONE)]
        if name in ("numpy.asanyarray", "numpy.asarray", "numpy.array"):
            return [(s, args[0] if args else UNK)]
        if name in ("pickle.dump", "cloudpickle.dump", "dill.dump"):
            v = args[0] if args else kwargs.get("obj", UNK)
            w = args[1] if len(args) > 1 else kwargs.get("file", UNK)
            return [(s.ev("save", w[1] if w[0] == "file" else UNK, v), NONE)]
        if name in ("pickle.dumps",):
            return [(s, args[0] if args else UNK)]
        if name in ("pickle.load",):
            w = args[0] if args else UNK
            if w[0] == "file":
                return self.load(s, w[1], LOADED)
            return self.undecided(e)
        if name in ("pickle.loads",):
            return [(s, LOADED if args and args[0] == ("bytes",) else UNK)]
        if name in ("copy.deepcopy", "copy.copy"):
            return [(s, args[0] if args else UNK)]
        if name in ("os.replace", "os.rename", "shutil.move") and len(args) > 1:
            return [(s.ev("publish", self.as_path(args[0]), self.as_path(args[1])), NONE)]
        if self.involves(args, kwargs, star, dstar):
            return self.undecided(e)
        return [(s, UNK)]

    # -------------------------------------------------------------- statements
    def block(self, body: list, st: State, f: Func):
        """list of (state, outcome); outcome: ('next',) ('return', v) ('raise', kind) ('break',) ('continue',)."""
        live = [st]
        done = []
        for x in body:
            nxt = []
            for s in live:
                for s2, oc in self.stmt(x, s, f):
                    if oc[0] == "next":
                        nxt.append(s2)
                    else:
                        done.append((s2, oc))
            live = nxt
            if len(live) + len(done) > 500:
                raise Undecided("too many paths")
        return [*done, *[(s, ("next",)) for s in live]]

    def assign(self, t: ast.expr, v, s: State, f: Func) -> State:
        s = s.copy()
        if isinstance(t, ast.Name):
            s.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            for s2, b in self.ev(t.value, s, f):
                if b[0] == "obj":
                    s2 = s2.copy()
                    s2.heap[b[1]][t.attr] = v
                    return s2
                if b[0] in ("func", "ext", "unk", "class"):
                    return s2
                return s2
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = v[1] if v[0] == "tuple" and len(v[1]) == len(t.elts) else [UNK] * len(t.elts)
            for x, y in zip(t.elts, vals):
                s = self.assign(x, y, s, f)
        elif isinstance(t, ast.Subscript):
            # an object is changed after it was computed or loaded, or a memo outside the call is filled
            for s2, b in self.ev(t.value, s, f):
                if b in (COMPUTED, LOADED):
                    self.issues.append((f, t, "result-changed", "the result is modified by the caching wrapper"))
                elif b[0] == "dict" or b == UNK:
                    raise Undecided("in-memory store")
        return s

    def stmt(self, x: ast.stmt, st: State, f: Func):
        NEXT = ("next",)
        if isinstance(x, ast.Expr):
            return [(s, v if v[0] == "raise" else NEXT) for s, v in self.ev(x.value, st, f)]
        if isinstance(x, (ast.Assign, ast.AnnAssign)):
            if x.value is None:
                return [(st, NEXT)]
            ts = x.targets if isinstance(x, ast.Assign) else [x.target]
            out = []
            for s, v in self.ev(x.value, st, f):
                if v[0] == "raise":
                    out.append((s, v))
                    continue
                for t in ts:
                    s = self.assign(t, v, s, f)
                out.append((s, NEXT))
            return out
        if isinstance(x, ast.Return):
            if x.value is None:
                return [(st, ("return", NONE))]
            return [(s, v if v[0] == "raise" else ("return", v)) for s, v in self.ev(x.value, st, f)]
        if isinstance(x, ast.If):
            out = []
            for s, t in self.ev(x.test, st, f):
                if t[0] == "raise":
                    out.append((s, t))
                    continue
                b = self.truth(t)
                for body, want in ((x.body, True), (x.orelse, False)):
                    if b is None or b is want:
                        out += self.block(body, s.copy(), f)
            return out
        if isinstance(x, ast.Match):
            out = []
            for s, v in self.ev(x.subject, st, f):
                if v[0] == "raise":
                    out.append((s, v))
                    continue
                matched = False
                for c in x.cases:
                    m = self.matches(c.pattern, v)
                    if m is None:
                        raise Undecided("pattern")
                    if m and c.guard is None:
                        out += self.block(c.body, s.copy(), f)
                        matched = True
                        break
                    if m:
                        raise Undecided("guard")
                if not matched:
                    out.append((s, NEXT))
            return out
        if isinstance(x, ast.FunctionDef):
            s = st.copy()
            g = f.children.get(x.name)
            if g is None:
                return [(st, NEXT)]
            s.env[x.name] = ("func", g, s.env)  # closure sees later bindings of the same scope
            for d in x.decorator_list:
                t = d.func if isinstance(d, ast.Call) else d
                r = self.p.resolve(f.module, t, f)
                if isinstance(r, Func):
                    raise Undecided("decorated wrapper")
                if isinstance(r, Ext) and r.name in ("functools.cache", "functools.lru_cache"):
                    raise Undecided("memoised wrapper")
            return [(s, NEXT)]
        if isinstance(x, ast.Raise):
            if x.exc is None:
                return [(st, ("raise", st.env.get("$exc", ("", "other"))[1]))]
            if isinstance(x.exc, ast.Name) and st.env.get(x.exc.id, ("",))[0] == "exc":
                return [(st, ("raise", st.env[x.exc.id][1]))]
            return [(st, ("raise", "new:" + ast.unparse(x.exc)[:40]))]
        if isinstance(x, ast.With):
            return self.with_items(list(x.items), x.body, st, f)
        if isinstance(x, ast.Try):
            return self.try_(x, st, f)
        if isinstance(x, (ast.For, ast.While)):
            head = x.iter if isinstance(x, ast.For) else x.test
            out = []
            for s, v in self.ev(head, st, f):
                if v[0] == "raise":
                    out.append((s, v))
                    continue
                if not (isinstance(x, ast.While) and self.truth(v) is True):
                    out.append((s.copy(), NEXT))
                if isinstance(x, ast.While) and self.truth(v) is False:
                    continue
                s = s.copy()
                if isinstance(x, ast.For):
                    s = self.assign(x.target, UNK, s, f)
                for s2, oc in self.block(x.body, s, f):
                    out.append((s2, NEXT if oc[0] in ("break", "continue", "next") else oc))
            return out
        if isinstance(x, ast.Break):
            return [(st, ("break",))]
        if isinstance(x, ast.Continue):
            return [(st, ("continue",))]
        if isinstance(x, ast.AugAssign):
            return [(self.assign(x.target, UNK, st, f), NEXT)]
        return [(st, NEXT)]

    def matches(self, pat, v) -> bool | None:
        if isinstance(pat, ast.MatchValue):
            lit = self.literal(pat.value)
            return None if v[0] != "const" else v == lit
        if isinstance(pat, ast.MatchSingleton):
            return self.is_none(v) if pat.value is None else None
        if isinstance(pat, ast.MatchOr):
            rs = [self.matches(q, v) for q in pat.patterns]
            return True if True in rs else (None if None in rs else False)
        if isinstance(pat, ast.MatchAs) and pat.pattern is None:
            return True
        return None

    def with_items(self, items: list, body: list, st: State, f: Func):
        if not items:
            return self.block(body, st, f)
        it = items[0]
        out = []
        for s, v in self.ev(it.context_expr, st, f):
            if v[0] == "raise":
                out.append((s, v))
                continue
            if it.optional_vars is not None:
                s = self.assign(it.optional_vars, v, s, f)
            for s2, oc in self.with_items(items[1:], body, s, f):
                if v[0] == "suppress" and oc[0] == "raise" and any(n in caught_as(oc[1]) for n in v[1]):
                    oc = ("next",)
                out.append((s2, oc))
        return out

    def try_(self, x: ast.Try, st: State, f: Func):
        out = []
        for s, oc in self.block(x.body, st.copy(), f):
            if oc[0] == "raise":
                handled = False
                for h in x.handlers:
                    names = ["BaseException"] if h.type is None else [ast.unparse(t).split(".")[-1] for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if any(n in caught_as(oc[1]) for n in names):
                        s2 = s.copy()
                        s2.env["$exc"] = ("exc", oc[1])
                        if h.name:
                            s2.env[h.name] = ("exc", oc[1])
                        out += self.block(h.body, s2, f)
                        handled = True
                        break
                if not handled:
                    out.append((s, oc))
            elif oc[0] == "next" and x.orelse:
                out += self.block(x.orelse, s, f)
            else:
                out.append((s, oc))
        if not x.finalbody:
            return out
        fin = []
        for s, oc in out:
            for s2, oc2 in self.block(x.finalbody, s, f):
                fin.append((s2, oc if oc2[0] == "next" else oc2))
        return fin


# ------------------------------------------------------------------------- what each mode promises
MODES = {
    "call_uncached": (False, False),
    "call_cached": (False, True),
    "load_or_call_uncached": (True, False),
    "load_or_call_cached": (True, True),
}


def judge(mode: str, w: World, events: tuple, outcome) -> list[tuple[str, str]]:
    """Differences between what happened and what the mode promises."""
    reads, writes = MODES[mode]
    out = []
    loads = [e for e in events if e[0] == "load"]
    saves = [e for e in events if e[0] in ("save", "truncate", "publish")]
    computes = [i for i, e in enumerate(events) if e[0] == "compute"]
    if not w.has_path and (loads or saves):
        out.append(("no-location", "a file is accessed although there is no cache location"))
    if not reads and loads:
        out.append(("reads", "the cache is read although this mode never loads"))
    if not writes and saves:
        out.append(("writes", "the cache is written although this mode never saves"))
    stored = [e for e in events if e[0] == "save"]
    for e in stored:
        if e[2] not in (COMPUTED, UNK):
            out.append(("stores", f"what is stored is not the computed result ({e[2][0]})"))
    if writes and w.has_path:
        final = {e[1] for e in stored if e[1] != UNK}
        moved = {e[1]: e[2] for e in events if e[0] == "publish"}
        final = {moved.get(x, x) for x in final}
        if any(x not in (PATH, UNK) for x in final) and all(x[0] == "pathx" for x in final):
            out.append(("location", "the result is stored somewhere else than at the cache location"))
    if any(e[1][0] == "pathx" for e in loads):
        out.append(("location", "the result is loaded from somewhere else than the cache location"))
    for i, e in enumerate(events):
        if e[0] in ("save", "truncate") and not any(j < i for j in computes):
            out.append(("early-write", "the cache file is opened for writing before the computation"))
    if any(e[0] == "remove" and e[1] == PATH for e in events):
        out.append(("remove", "the cache file is removed"))
    hit = reads and w.has_path and w.file == "readable"
    broken = reads and w.has_path and w.file in ("unreadable", "corrupt")
    if hit:
        if outcome != ("return", LOADED) and outcome[1] != UNK:
            out.append(("hit", f"a stored result is not returned as it was stored ({outcome[1][0] if outcome[0] == 'return' else outcome[1]})"))
        if computes:
            out.append(("hit-computes", "the function is called although a stored result exists"))
        if stored:
            out.append(("hit-writes", "a loaded result is written back"))
        return out
    if broken:
        if outcome[0] != "raise" or not str(outcome[1]).startswith(("file", "new")):
            out.append(("swallowed", f"an {w.file} cache file is treated as a miss"))
        return out
    if reads and w.has_path and not loads and w.file == "missing":
        pass  # the absence may be tested for before loading
    if len(computes) > 1:
        out.append(("recomputes", "the function is called more than once"))
    if w.fn == "succeeds":
        if not computes:
            out.append(("no-compute", "the function is not called on a miss"))
        if outcome != ("return", COMPUTED) and outcome[1] != UNK:
            out.append(("result", f"the computed result is not what is returned ({outcome[1][0] if outcome[0] == 'return' else outcome[1]})"))
        if writes and w.has_path and not stored:
            out.append(("not-stored", "the computed result is not stored"))
        if len(stored) > 1 and len({e[1] for e in stored}) == 1:
            out.append(("stored-twice", "the result is stored more than once"))
    else:
        if outcome[0] != "raise" or not (str(outcome[1]).startswith("function")):
            if not str(outcome[1]).startswith("new:"):
                out.append(("error", "an error raised by the function does not reach the caller"))
        if saves:
            out.append(("failed-write", "the cache file is touched although the computation failed"))
    return out


def analyse(project: Project, tier: str) -> Result:
    res = Result()
    npy = [f for f in project.funcs if f.name == "npy_cached" and f.parent is None]
    cch = [f for f in project.funcs if f.name == "cached" and f.parent is None]
    cls = project.cls("CachedFunction")
    if not npy or not cch or cls is None:
        raise AnalysisBroken("the caching decorators npy_cached, cached and CachedFunction were not found")

    seen: set[tuple[str, str, str]] = set()

    def report(rule: str, where: str, what: str, loc: str, msg: str) -> None:
        if (rule, where, what) not in seen:
            seen.add((rule, where, what))
            res.add(rule, where, what, loc, msg)

    def entries():
        yield "npy_cached", npy[0], None, "load_or_call_cached"
        for m in MODES:
            yield f"CachedFunction.{m}", cch[0], ("method", m), m
        for m in MODES:
            yield f"CachedFunction() with default_call={m}", cch[0], ("default", m), m
        yield "cached() default", cch[0], ("default", None), "load_or_call_cached"

    specs = ["none", "path", "callable-none", "callable-path"]
    files = ["readable", "missing", "unreadable", "corrupt"]
    fns = ["succeeds", "raises", "raises FileNotFoundError", "raises KeyError"]
    for label, deco, how, mode in entries():
        res.count("entry_points")
        for spec in specs:
            for file in files:
                for fn in fns:
                    w = World(spec, file, fn)
                    issues: list = []
                    it = Interp(project, w, issues)
                    try:
                        st = State({}, (), {})
                        node = deco.node
                        kw = {"default_call": ("const", how[1])} if how and how[0] == "default" and how[1] else {}
                        runs = []
                        for s1, d in it.call_func(st, deco, {}, [("spec", spec)], kw, None, None, node):
                            for s2, g in it.apply(s1, d, [FN], {}, None, None, node, deco):
                                target = g
                                if how and how[0] == "method":
                                    if g[0] != "obj":
                                        raise Undecided("cached does not return a CachedFunction")
                                    target = it.attr(s2, g, how[1])
                                    if target == UNK:
                                        report("missing-mode", cls.short, how[1], f"{cls.module.rel}:{cls.node.lineno}", f"there is no call mode '{how[1]}'")
                                        continue
                                if s2.events:
                                    report("eager", label, "decoration", deco.loc, "decorating a function already computes, loads or stores")
                                for s3, v in it.apply(s2, target, [], {}, ARGS, KW, node, deco):
                                    runs.append((s3, v if v[0] == "raise" else ("return", v)))
                    except Undecided as u:
                        res.count("undecided_states")
                        res.sample(f"undecided: {label}, {w}: {u}")
                        continue
                    res.count("states_decided")
                    for f, n, rule, msg in issues:
                        report(rule, f.short, rule, f"{f.module.rel}:{getattr(n, 'lineno', f.node.lineno)}", msg)
                    for s3, oc in runs:
                        if oc[0] == "return" and oc[1] == UNK and not s3.events:
                            res.count("undecided_states")
                            continue
                        for rule, msg in judge(mode, w, s3.events, oc):
                            report(rule, label, mode, deco.loc if label == "npy_cached" else f"{cls.module.rel}:{cls.node.lineno}", f"{msg} [{w}; events: {', '.join(e[0] for e in s3.events) or 'none'}]")
    res.floors = {"entry_points": 10}
    res.explanation = (
        "The decorators npy_cached and cached and the four call modes of CachedFunction are analysed over every combination of location (none, given, from a callable returning a location or None), state of the "
        "cache file (readable, missing, unreadable, corrupt) and outcome of the function (success, errors, a FileNotFoundError of its own). For each, the sequence of events (location derived, load, computation, opening for writing, store) "
        "and the value or error handed to the caller must be what the mode's name promises; the function and the location callable must receive exactly *args, **kw."
    )
    res.assumptions = ["numpy and pickle restore what they stored", "writes by other processes between two steps are not modelled", "a process killed during the write may leave a partial file, which then fails to load rather than being used"]
    return res
