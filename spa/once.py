"""Things that can only be iterated once are read once.

A parameter that accepts any iterable may be given a generator, and generators, ``zip``, ``map`` and the like
are made inside the package too.  Each of them is followed along the paths of the function that has it: read
twice (or in every turn of a loop, or once per call of a cached function) it is empty the second time; measured,
indexed or given to numpy as it is it fails.  Where it goes somewhere this cannot follow it is no longer judged.
"""

from __future__ import annotations

import ast

from .calls import bind_args
from .model import Class, Ext, Func, Project, is_stub
from .report import Result

ITERABLE = {"Iterable", "Iterator", "Generator"}
READING = {"list", "tuple", "set", "frozenset", "sum", "sorted", "any", "all", "dict", "max", "min", "bytes", "bytearray"}
LAZY = {"zip", "map", "filter", "enumerate"}
HARMLESS = {"isinstance", "type", "id", "print", "repr", "str", "bool", "hasattr", "callable", "hash"}
CACHING = {"cached", "lru_cache", "cache", "npy_cached", "npy_cached_dict", "cached_property"}
NONE: frozenset = frozenset()


def once_annotated(ann: ast.expr | None) -> bool:
    """Does this accept any iterable (and nothing more specific)?"""
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode="eval").body
        except SyntaxError:
            return False
    if ann is None:
        return False
    parts, todo = [], [ann]
    while todo:
        a = todo.pop()
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            todo += [a.left, a.right]
        elif isinstance(a, ast.Subscript) and last_name(a.value) in ("Optional", "Union"):
            todo += a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        elif isinstance(a, ast.Constant) and a.value is None:
            continue
        else:
            parts.append(last_name(a.value if isinstance(a, ast.Subscript) else a))
    return any(x in ITERABLE for x in parts)


def last_name(e: ast.expr) -> str | None:
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None


def own(node: ast.AST):
    """The nodes of a body outside functions defined in it."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo += ast.iter_child_nodes(n)


class State:
    def __init__(self, env: dict, read: set) -> None:
        self.env, self.read = env, read

    def copy(self) -> "State":
        return State(dict(self.env), set(self.read))

    def join(self, o: "State | None") -> "State":
        if o is None:
            return self
        keys = set(self.env) | set(o.env)
        return State({k: self.env.get(k, NONE) | o.env.get(k, NONE) for k in keys}, self.read | o.read)


class Reader:
    """One function."""

    def __init__(self, a: "Analysis", f: Func, extra: str | None = None) -> None:
        self.a, self.f, self.p = a, f, a.p
        self.labels: dict[int, str] = {}
        self.depth: dict[int, int] = {}
        self.first: dict[int, int] = {}
        self.dropped: set = set()
        self.ever: set = set()
        self.found: list = []
        self.loops: list = []
        self.unsure = 0  # conditions inside the innermost loop
        self.returned = False
        self.kinds: dict[int, str] = {}
        st = State({}, set())
        self.params = {}
        for q in f.params:
            if q.kind in ("var", "varkw"):
                continue
            if q.name == extra or once_annotated(q.annotation):
                i = self.new(f"`{q.name}`", "parameter")
                self.params[q.name] = i
                st.env[q.name] = frozenset({i})
        self.block(f.node.body, st)

    # -- tracking
    def new(self, label: str, kind: str) -> int:
        i = len(self.labels)
        self.labels[i] = label
        self.kinds[i] = kind
        self.depth[i] = len(self.loops)
        return i

    def live(self, ids) -> list:
        return [i for i in ids if i not in self.dropped]

    def drop(self, ids) -> None:
        self.dropped |= set(ids)

    def report(self, rule: str, i: int, node: ast.AST, text: str) -> None:
        self.found.append((rule, i, node, text))

    def read(self, ids, st: State, node: ast.AST) -> None:
        for i in self.live(ids):
            self.ever.add(i)
            if i in st.read:
                self.report("once", i, node, f"{self.labels[i]} is read again here after line {self.first.get(i, node.lineno)}: what can only be iterated once is empty by then")
                self.drop([i])
                continue
            self.first.setdefault(i, node.lineno)
            if len(self.loops) > self.depth[i]:
                loops = self.loops[self.depth[i]:]
                if not self.unsure and not any(x is not None and leaves(x) for x in loops):
                    self.report("once", i, node, f"{self.labels[i]} is read in every turn of a loop: what can only be iterated once is empty from the second on")
                    self.drop([i])
                    continue
            st.read.add(i)

    def whole(self, ids, node: ast.AST, what: str) -> None:
        for i in self.live(ids):
            self.report("sequence", i, node, f"{self.labels[i]} {what}, which something that can only be iterated does not allow")
            self.drop([i])

    # -- statements: the state after, None where nothing comes after
    def block(self, body: list, st: State | None) -> State | None:
        for s in body:
            if st is None:
                return None
            st = self.statement(s, st)
        return st

    def statement(self, s: ast.stmt, st: State) -> State | None:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.capture(s, st)
            return st
        if isinstance(s, ast.Return):
            if s.value is not None:
                ids = self.ev(s.value, st)
                if any(self.kinds[i] == "made" for i in self.live(ids)):
                    self.returned = True
                self.drop([i for i in ids if self.kinds[i] == "parameter"])
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None if isinstance(s, ast.Continue) else None
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return st
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            if len(targets) == 1 and isinstance(targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(targets[0].elts) == len(s.value.elts):
                values = [self.ev(v, st) for v in s.value.elts]
                for t, v in zip(targets[0].elts, values):
                    self.bind(t, v, st, s)
                return st
            ids = self.ev(s.value, st)
            for t in targets:
                self.bind(t, ids, st, s)
            return st
        if isinstance(s, ast.AugAssign):
            ids = self.ev(s.value, st)
            self.read(ids, st, s)
            if isinstance(s.target, ast.Name):
                st.env.pop(s.target.id, None)
            else:
                self.ev(s.target, st)
            return st
        if isinstance(s, ast.Expr):
            self.ev(s.value, st)
            return st
        if isinstance(s, ast.If):
            self.ev(s.test, st)
            yes, no = self.narrowed(s.test, st)
            self.unsure += bool(self.loops)
            a, b = self.block(s.body, yes), self.block(s.orelse, no)
            self.unsure -= bool(self.loops)
            return b if a is None else a.join(b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.read(self.ev(s.iter, st), st, s.iter)
            return self.loop(s, st, lambda x: self.bind(s.target, NONE, x, s))
        if isinstance(s, ast.While):
            return self.loop(s, st, lambda x: self.ev(s.test, x))
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for w in s.items:
                self.ev(w.context_expr, st)
                if w.optional_vars is not None:
                    self.bind(w.optional_vars, NONE, st, s)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            before = st.copy()
            a = self.block([*s.body, *s.orelse], st)
            out = a
            for h in s.handlers:
                b = self.block(h.body, before.copy())
                out = b if out is None else out.join(b)
            if s.finalbody:
                out = self.block(s.finalbody, out if out is not None else before) if out is not None else self.block(s.finalbody, before) and None
            return out
        if isinstance(s, ast.Match):
            self.ev(s.subject, st)
            out: State | None = st.copy()
            for c in s.cases:
                b = self.block(c.body, st.copy())
                out = b if out is None else out.join(b)
            return out
        if isinstance(s, ast.Assert):
            self.ev(s.test, st)
            return self.narrowed(s.test, st)[0]
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
        return st

    def loop(self, s, st: State, start) -> State | None:
        before = st.copy()
        keep, self.unsure = self.unsure, 0
        self.loops.append(s)
        start(st)
        after = self.block(s.body, st)
        self.loops.pop()
        self.unsure = keep
        # leaving by break keeps what was read so far; it is in the labels of `ever` only
        out = before if after is None else before.join(after)
        return self.block(s.orelse, out)

    def bind(self, t: ast.expr, ids, st: State, node: ast.AST) -> None:
        if isinstance(t, ast.Name):
            st.env[t.id] = frozenset(ids)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.read(ids, st, node)
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, NONE, st, node)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value, st)
            for i in self.live(ids):
                if isinstance(t.value, ast.Name) and t.value.id == "self" and self.a.read_attributes(self.f, t.attr):
                    self.report("kept", i, node, f"{self.labels[i]} is kept in `{t.attr}` and read from there: what can only be iterated once is empty after the first time")
            self.drop(ids)
        elif isinstance(t, ast.Subscript):
            self.ev(t, st)
            self.read([i for i in ids if self.kinds[i] == "parameter"], st, node)
            self.drop([i for i in ids if self.kinds[i] == "made"])

    def narrowed(self, test: ast.expr, st: State) -> tuple:
        yes, no = st.copy(), st.copy()
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            a, b = self.narrowed(test.operand, st)
            return b, a
        if isinstance(test, ast.BoolOp):
            for v in test.values:
                a, b = self.narrowed(v, st)
                for k in st.env:
                    if isinstance(test.op, ast.And) and not a.env.get(k):
                        yes.env[k] = NONE
                    if isinstance(test.op, ast.Or) and not b.env.get(k):
                        no.env[k] = NONE
            return yes, no
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
            if isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
                (yes if isinstance(test.ops[0], ast.Is) else no).env[test.left.id] = NONE
        if isinstance(test, ast.Call) and last_name(test.func) in ("isinstance", "hasattr") and test.args and isinstance(test.args[0], ast.Name):
            yes.env[test.args[0].id] = NONE
        return yes, no

    def capture(self, node: ast.AST, st: State) -> None:
        """What a function defined here uses may be read whenever it is called."""
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in st.env:
                self.drop(st.env[n.id])

    # -- expressions: what can only be iterated once of their value
    def ev(self, e: ast.expr, st: State) -> frozenset:
        if isinstance(e, ast.Name):
            return frozenset(self.live(st.env.get(e.id, NONE)))
        if isinstance(e, ast.Constant):
            return NONE
        if isinstance(e, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            return self.comprehension(e, st)
        if isinstance(e, ast.Lambda):
            self.capture(e.body, st)
            return NONE
        if isinstance(e, ast.IfExp):
            self.ev(e.test, st)
            yes, no = self.narrowed(e.test, st)
            a, b = self.ev(e.body, yes), self.ev(e.orelse, no)
            st.read |= yes.read | no.read
            return a | b
        if isinstance(e, ast.BoolOp):
            out = NONE
            for v in e.values:
                out |= self.ev(v, st)
            return out
        if isinstance(e, ast.NamedExpr):
            ids = self.ev(e.value, st)
            self.bind(e.target, ids, st, e)
            return ids
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, ast.Attribute):
            ids = self.ev(e.value, st)
            if e.attr in ("__next__", "send", "close", "throw", "__iter__"):
                self.drop(ids)
            else:
                self.whole(ids, e, f"is asked for `{e.attr}`")
            return NONE
        if isinstance(e, ast.Subscript):
            self.whole(self.ev(e.value, st), e, "is indexed")
            ids = self.ev(e.slice, st)
            self.whole(ids, e, "is used as an index")
            return NONE
        if isinstance(e, ast.BinOp):
            for x in (e.left, e.right):
                ids = self.ev(x, st)
                if not isinstance(e.op, ast.Mod):
                    self.whole(ids, e, "is used in arithmetic")
            return NONE
        if isinstance(e, ast.Compare):
            self.ev(e.left, st)
            for o, x in zip(e.ops, e.comparators):
                ids = self.ev(x, st)
                if isinstance(o, (ast.In, ast.NotIn)):
                    self.read(ids, st, e)
            return NONE
        if isinstance(e, ast.YieldFrom):
            self.read(self.ev(e.value, st), st, e)
            return NONE
        if isinstance(e, ast.Starred):
            self.read(self.ev(e.value, st), st, e)
            return NONE
        if isinstance(e, ast.Dict):
            for k, v in zip(e.keys, e.values):
                if k is not None:
                    self.ev(k, st)
                ids = self.ev(v, st)
                if isinstance(k, ast.Constant) and k.value in ("data", "basis", "eigenvalue"):
                    for i in self.live(ids):
                        self.report("kept", i, v, f"{self.labels[i]} is kept as `{k.value}` of a record, which is read many times")
                self.drop(ids)
            return NONE
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            for x in e.elts:
                self.drop(self.ev(x, st))
            return NONE
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.drop(self.ev(x, st))
        return NONE

    def comprehension(self, e, st: State) -> frozenset:
        inner = st.copy()
        pushed = 0
        for k, g in enumerate(e.generators):
            self.read(self.ev(g.iter, inner), inner, g.iter)
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    inner.env.pop(n.id, None)
            keep = self.unsure
            self.loops.append(None)
            pushed += 1
            self.unsure = 0
            for c in g.ifs:
                self.ev(c, inner)
            self.unsure = keep
        lazy, self.unsure = self.unsure, 0
        for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
            self.drop(self.ev(x, inner))
        self.unsure = lazy
        for _ in range(pushed):
            self.loops.pop()
        st.read |= inner.read
        return frozenset({self.new("a generator", "made")}) if isinstance(e, ast.GeneratorExp) else NONE

    def call(self, e: ast.Call, st: State) -> frozenset:
        target = None if self.local(e.func, st) else self.p.resolve(self.f.module, e.func, self.f)
        name = e.func.id if isinstance(e.func, ast.Name) and target is None and not self.local(e.func, st) else None
        if isinstance(target, Ext) and target.name.startswith("builtins."):
            name, target = target.name[9:], None
        if isinstance(e.func, ast.Attribute) and target is None:
            on = self.ev(e.func.value, st)
            self.whole(on, e, f"is asked for `{e.func.attr}`") if e.func.attr not in ("__next__", "send", "close", "throw", "__iter__") else self.drop(on)
        args = []
        for x in e.args:
            ids = self.ev(x, st)
            args.append(NONE if isinstance(x, ast.Starred) else ids)
        words = {}
        for k in e.keywords:
            words[k.arg] = self.ev(k.value, st)
        every = NONE.union(*args, *words.values())
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("join", "extend", "update", "writelines") and not isinstance(target, (Func, Class, Ext)):
            self.read(every, st, e)
            return NONE
        if name is not None:
            if name in HARMLESS:
                return NONE
            if name in READING:
                if not (name in ("max", "min") and len(args) > 1):
                    self.read(args[0] if args else NONE, st, e)
                return NONE
            if name in LAZY:
                for ids in args:
                    self.read(ids, st, e)
                return frozenset({self.new(f"a `{name}`", "made")})
            if name == "iter":
                for i in self.live(args[0] if args else NONE):
                    self.read([i], st, e)
                return NONE
            if name == "len":
                self.whole(every, e, "is asked for its length")
                return NONE
            if name == "reversed":
                self.whole(every, e, "is reversed")
                return frozenset({self.new("a `reversed`", "made")})
            self.drop(every)
            return NONE
        if isinstance(target, Ext):
            if target.name.startswith("itertools."):
                if target.name.endswith((".tee", ".count", ".repeat", ".cycle")):
                    self.drop(every)
                    return NONE
                self.read(every, st, e)
                return frozenset({self.new(f"an `{target.name}`", "made")})
            if target.name.startswith("numpy."):
                if target.name in ("numpy.fromiter", "numpy.sum"):
                    self.read(every, st, e)
                else:
                    self.whole(every, e, f"is given to `{target.name}`")
                return NONE
            self.drop(every)
            return NONE
        if isinstance(target, Class):
            init = self.p.find_method(target, "__init__")
            if init is None:
                self.drop(every)
                return NONE
            target = init
        if isinstance(target, Func):
            bound, fuzzy = bind_args(target, e)
            given = {q: self.ids_of(x, e, args, words) for q, x in bound.items()}
            if fuzzy:
                self.drop(every)
                return NONE
            for q, ids in given.items():
                if not self.live(ids):
                    continue
                how = self.a.use(target, q)
                if how == "read":
                    self.read(ids, st, e)
                elif isinstance(how, str) and how.startswith("!"):
                    for i in self.live(ids):
                        self.report("passed", i, e, f"{self.labels[i]} is passed to {target.short}, {how[1:]}")
                    self.drop(ids)
                elif how == "unknown":
                    self.drop(ids)
            left = every - NONE.union(*given.values()) if given else every
            self.drop(left)
            if self.a.makes(target):
                return frozenset({self.new(f"the generator of {target.name}", "made")})
            return NONE
        self.drop(every)
        return NONE

    def ids_of(self, x: ast.expr, e: ast.Call, args: list, words: dict) -> frozenset:
        for a, ids in zip(e.args, args):
            if a is x:
                return ids
        for k in e.keywords:
            if k.value is x:
                return words[k.arg]
        return NONE

    def local(self, e: ast.expr, st: State) -> bool:
        return isinstance(e, ast.Name) and (e.id in st.env or e.id in {q.name for q in self.f.params})


def leaves(loop: ast.stmt) -> bool:
    return any(isinstance(n, (ast.Break, ast.Return)) for n in own(loop))


class Analysis:
    def __init__(self, p: Project) -> None:
        self.p = p
        self.readers: dict = {}
        self.busy: set = set()
        self.attributes: dict = {}

    def reader(self, f: Func, extra: str | None = None) -> Reader | None:
        k = (id(f), extra)
        if k not in self.readers:
            if k in self.busy:
                return None
            self.busy.add(k)
            self.readers[k] = Reader(self, f, extra)
            self.busy.discard(k)
        return self.readers[k]

    def use(self, f: Func, q: str) -> str:
        """What a function does with a parameter."""
        param = f.param(q)
        if param is None or is_stub(f.node) or f.is_abstract:
            return "unknown"
        stated = once_annotated(param.annotation)
        r = self.reader(f, None if stated else q)
        if r is None:
            return "unknown"
        i = r.params[q]
        if not stated:
            for rule, j, _, text in r.found:
                if j == i:
                    return "!where " + text
        if i in r.ever:
            return "read"
        return "unknown" if i in r.dropped else "none"

    def makes(self, f: Func) -> bool:
        if f.has_decorator("contextmanager", "fixture") or is_stub(f.node):
            return False
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(f.node)):
            return True
        r = self.reader(f)
        return r is not None and r.returned

    def read_attributes(self, f: Func, name: str) -> bool:
        """Is an attribute of the instance read in a method that can be called again?"""
        if f.cls is None:
            return False
        return any(
            isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Load) and m.name != "__init__"
            for c in [f.cls, *self.p.subclasses(f.cls)]
            for m in c.methods.values()
            for n in ast.walk(m.node)
        )


def analyse(p: Project, tier: str) -> Result:
    res = Result()
    a = Analysis(p)
    for f in p.funcs:
        if is_stub(f.node) or f.has_decorator("overload"):
            continue
        res.count("functions")
        r = a.reader(f)
        res.count("iterables", sum(1 for q in r.params))
        res.count("generators", sum(1 for k in r.kinds.values() if k == "made"))
        for rule, i, node, text in r.found:
            res.add(rule, f.short, r.labels[i] if r.kinds[i] == "parameter" else rule, f"{f.module.rel}:{node.lineno}", text)
        if f.has_decorator(*CACHING) and a.makes(f):
            res.add("cached", f.short, "result", f.loc, "the generator it returns is kept in a cache: the second call gets one that has been read")
    res.floors = {"functions": 300, "iterables": 5}
    res.explanation = (
        "Every parameter that accepts any iterable, and every generator, zip, map and the like that is made, is followed along all paths of its function and "
        "through the functions of the package it is passed to: it is read at most once, and never measured, indexed or given to numpy as it is."
    )
    res.assumptions = ["annotations say which parameters accept any iterable", "a value stored or passed to something outside the package is no longer judged"]
    return res
