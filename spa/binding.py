"""C10: every internal use of a name, call, attribute or record key can succeed.

Own resolver: imports, names, run-time use of type-only imports, definite assignment, call/signature binding, __all__.
Type-checked program (pyright over the same sources, suppression comments disabled): attribute, key, arity and None
diagnostics, each re-judged against the class hierarchy so that an over-narrow annotation alone is not reported.
"""

from __future__ import annotations

import ast
import json
import os
import re
import shutil
import subprocess
import tempfile
from pathlib import Path

from .model import BUILTINS, PKG, AnalysisBroken, Class, Ext, Func, Import, Module, Project, walk_own
from .report import Result


def bind_error(f: Func, call: ast.Call, *, bound: bool) -> str | None:
    """Why `call` cannot bind to the signature of `f` (None if it can, or if it cannot be told)."""
    params = f.bound_params if bound else f.params
    if any(isinstance(a, ast.Starred) for a in call.args):
        star = True
    else:
        star = False
    starkw = any(k.arg is None for k in call.keywords)
    pos = [p for p in params if p.kind in ("pos", "posonly")]
    var = any(p.kind == "var" for p in params)
    varkw = any(p.kind == "varkw" for p in params)
    npos = sum(1 for a in call.args if not isinstance(a, ast.Starred))
    if not var and npos > len(pos):
        return f"passes {npos} positional arguments, {f.short} takes at most {len(pos)}"
    given = {p.name for p in pos[:npos]} if not star else set()
    names = {p.name for p in params if p.kind in ("pos", "kw")}
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in names and not varkw:
            return f"passes keyword '{k.arg}', which {f.short} does not take"
        if k.arg in given:
            return f"passes '{k.arg}' of {f.short} both by position and by keyword"
    if not star and not starkw:
        kw = {k.arg for k in call.keywords}
        for p in pos[npos:]:
            if not p.has_default and p.name not in kw:
                return f"does not pass required argument '{p.name}' of {f.short}"
    if not starkw:
        kw = {k.arg for k in call.keywords}
        for p in params:
            if p.kind == "kw" and not p.has_default and p.name not in kw:
                return f"does not pass required keyword '{p.name}' of {f.short}"
    return None


class Names(ast.NodeVisitor):
    """Evaluated (non-annotation) name loads of one scope."""


def annotation_nodes(tree: ast.AST) -> set[int]:
    """ids of all nodes that are only evaluated as annotations (never at run time under PEP 563)."""
    out: set[int] = set()

    def mark(n: ast.AST | None) -> None:
        if n is not None:
            for x in ast.walk(n):
                out.add(id(x))

    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            mark(n.returns)
            for a in [*n.args.posonlyargs, *n.args.args, *n.args.kwonlyargs, n.args.vararg, n.args.kwarg]:
                if a is not None:
                    mark(a.annotation)
        elif isinstance(n, ast.AnnAssign):
            mark(n.annotation)
    return out


def type_only_nodes(tree: ast.Module) -> set[int]:
    from .model import is_type_checking

    out: set[int] = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and is_type_checking(n.test):
            for b in n.body:
                for x in ast.walk(b):
                    out.add(id(x))
    return out


def check_names(project: Project, res: Result) -> None:
    for m in project.modules.values():
        future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in m.tree.body)
        ann = annotation_nodes(m.tree) if future else set()
        tonly = type_only_nodes(m.tree)
        # imports -----------------------------------------------------------
        for imp in m.imports:
            if imp.target.split(".")[0] != PKG:
                continue
            res.count("imports_resolved")
            if imp.attr is None:
                if imp.target not in project.modules:
                    res.add("missing-import", m.name, imp.target, f"{m.rel}:{imp.node.lineno}", f"imports module {imp.target}, which does not exist")
                continue
            if imp.target not in project.modules:
                res.add("missing-import", m.name, imp.target, f"{m.rel}:{imp.node.lineno}", f"imports from module {imp.target}, which does not exist")
            elif imp.attr != "*" and project.lookup_module_attr(imp.target, imp.attr) is None:
                res.add("missing-import", m.name, f"{imp.target}.{imp.attr}", f"{m.rel}:{imp.node.lineno}", f"imports '{imp.attr}', which {imp.target} does not define")
            elif imp.attr != "*" and not imp.type_only:
                tm = project.modules[imp.target]
                s = tm.symbols.get(imp.attr)
                if isinstance(s, Import) and s.type_only:
                    res.add("type-only-import", m.name, f"{imp.target}.{imp.attr}", f"{m.rel}:{imp.node.lineno}", f"imports '{imp.attr}' at run time, but {imp.target} binds it for type checking only")
        # type-only symbols used at run time --------------------------------
        module_defs = set(m.symbols)
        star_ext = any(i.attr == "*" for i in m.imports)
        type_only_syms = {k for k, s in m.symbols.items() if isinstance(s, Import) and s.type_only}
        # names assigned only inside TYPE_CHECKING
        runtime_bound: set[str] = set()
        for n in ast.walk(m.tree):
            if id(n) in tonly:
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                runtime_bound.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                runtime_bound.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    runtime_bound.add(a.asname or a.name.split(".")[0])

        def scope_walk(node: ast.AST, func_locals: list[set[str]], owner: str) -> None:
            for ch in ast.iter_child_nodes(node):
                visit(ch, func_locals, owner)

        def visit(n: ast.AST, locs: list[set[str]], owner: str) -> None:
            if id(n) in ann or id(n) in tonly:
                return
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load):
                    res.count("names_resolved")
                    if any(n.id in s for s in locs) or n.id in BUILTINS or n.id in ("__file__", "__name__", "__class__", "__doc__"):
                        return
                    if n.id not in module_defs and n.id not in runtime_bound and not star_ext:
                        res.add("undefined-name", owner, n.id, f"{m.rel}:{n.lineno}", f"uses the name '{n.id}', which is not defined anywhere")
                    elif n.id not in runtime_bound and not star_ext:
                        res.add("type-only-name", owner, n.id, f"{m.rel}:{n.lineno}", f"uses '{n.id}' at run time, but it is only defined for type checking")
                return
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in n.decorator_list:
                    visit(d, locs, owner)
                for d in [*n.args.defaults, *[x for x in n.args.kw_defaults if x is not None]]:
                    visit(d, locs, owner)
                if not future:
                    for a in [*n.args.posonlyargs, *n.args.args, *n.args.kwonlyargs]:
                        if a.annotation:
                            visit(a.annotation, locs, owner)
                own: set[str] = {a.arg for a in [*n.args.posonlyargs, *n.args.args, *n.args.kwonlyargs, n.args.vararg, n.args.kwarg] if a is not None}
                for x in walk_own(n):
                    if x is n:
                        continue
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        own.add(x.id)
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        own.add(x.name)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        own |= {a.asname or a.name.split(".")[0] for a in x.names}
                    elif isinstance(x, ast.ExceptHandler) and x.name:
                        own.add(x.name)
                    elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                        own.add(x.name)
                    elif isinstance(x, ast.MatchMapping) and x.rest:
                        own.add(x.rest)
                for st in n.body:
                    visit(st, [*locs, own], f"{owner}.{n.name}" if owner else n.name)
                return
            if isinstance(n, ast.Lambda):
                own = {a.arg for a in [*n.args.posonlyargs, *n.args.args, *n.args.kwonlyargs, n.args.vararg, n.args.kwarg] if a is not None}
                for d in [*n.args.defaults, *[x for x in n.args.kw_defaults if x is not None]]:
                    visit(d, locs, owner)
                visit(n.body, [*locs, own], owner)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                own = set()
                for g in n.generators:
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name):
                            own.add(x.id)
                for g in n.generators:
                    visit(g.iter, [*locs, own], owner)
                    for c in g.ifs:
                        visit(c, [*locs, own], owner)
                if isinstance(n, ast.DictComp):
                    visit(n.key, [*locs, own], owner)
                    visit(n.value, [*locs, own], owner)
                else:
                    visit(n.elt, [*locs, own], owner)
                return
            if isinstance(n, ast.ClassDef):
                for d in [*n.decorator_list, *n.bases, *[k.value for k in n.keywords]]:
                    visit(d, locs, owner)
                own = set()
                for x in n.body:
                    for y in ast.walk(x) if not isinstance(x, ast.FunctionDef) else [x]:
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                            own.add(y.id)
                        elif isinstance(y, ast.FunctionDef):
                            own.add(y.name)
                for st in n.body:
                    # class scope names are visible in the class body only, methods see module scope
                    if isinstance(st, ast.FunctionDef):
                        for d in st.decorator_list:
                            visit(d, [*locs, own], n.name)
                        saved = st.decorator_list
                        visit_func_only(st, locs, f"{owner}.{n.name}" if owner else n.name, saved)
                    else:
                        visit(st, [*locs, own], n.name)
                return
            scope_walk(n, locs, owner)

        def visit_func_only(st: ast.FunctionDef, locs: list[set[str]], owner: str, decos: list) -> None:
            st.decorator_list = []
            try:
                visit(st, locs, owner)
            finally:
                st.decorator_list = decos

        short = m.name.removeprefix(PKG + ".")
        for st in m.tree.body:
            visit(st, [], short)
        # __all__ -----------------------------------------------------------
        for st in m.tree.body:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in st.targets) and isinstance(st.value, (ast.List, ast.Tuple)):
                for x in st.value.elts:
                    if isinstance(x, ast.Constant) and isinstance(x.value, str):
                        res.count("exports_checked")
                        s = m.symbols.get(x.value)
                        if s is None and project.lookup_module_attr(m.name, x.value) is None:
                            res.add("missing-export", m.name, x.value, f"{m.rel}:{x.lineno}", f"exports '{x.value}', which it does not define")
                        elif isinstance(s, Import) and s.type_only:
                            res.add("missing-export", m.name, x.value, f"{m.rel}:{x.lineno}", f"exports '{x.value}', which only exists for type checking")


# ------------------------------------------------------------------ definite assignment
class Definite:
    """Names certainly assigned after a statement list.  Loops are assumed to run at least once; a match over a closed
    option set and a try whose handlers leave are treated as exhaustive (exhaustiveness itself is C16's business)."""

    def __init__(self, f: Func, project: Project, res: Result) -> None:
        self.f = f
        self.res = res
        self.locals = set(project.func_locals(f))
        self.params = {p.name for p in f.params}
        self.parent_visible: set[str] = set()
        for n in walk_own(f.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.locals -= set(n.names)

    def run(self) -> None:
        self.block(self.f.node.body, set(self.params))

    def use(self, e: ast.AST | None, have: set[str], bound: frozenset = frozenset()) -> None:
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in have and e.id not in bound:
                self.res.add("maybe-unassigned", self.f.short, e.id, f"{self.f.module.rel}:{e.lineno}", f"'{e.id}' may be used before it is assigned: a path from the function's entry reaches this use without assigning it")
            return
        if isinstance(e, ast.NamedExpr):
            self.use(e.value, have, bound)
            have.add(e.target.id)
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = set(bound)
            for g in e.generators:
                self.use(g.iter, have, frozenset(b))
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        b.add(x.id)
                for c in g.ifs:
                    self.use(c, have, frozenset(b))
            fb = frozenset(b)
            if isinstance(e, ast.DictComp):
                self.use(e.key, have, fb)
                self.use(e.value, have, fb)
            else:
                self.use(e.elt, have, fb)
            return
        for c in ast.iter_child_nodes(e):
            self.use(c, have, bound)

    def bind(self, t: ast.AST, have: set[str]) -> None:
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                have.add(x.id)
            elif isinstance(x, (ast.Subscript, ast.Attribute)):
                self.use(x.value, have)
                if isinstance(x, ast.Subscript):
                    self.use(x.slice, have)

    ALL = None

    def block(self, body: list[ast.stmt], have: set[str] | None) -> set[str] | None:
        """None means: control never gets past this block."""
        for st in body:
            if have is None:
                return None
            have = self.stmt(st, have)
        return have

    @staticmethod
    def meet(*xs: set[str] | None) -> set[str] | None:
        ys = [x for x in xs if x is not None]
        if not ys:
            return None
        out = set(ys[0])
        for y in ys[1:]:
            out &= y
        return out

    def stmt(self, st: ast.stmt, have: set[str]) -> set[str] | None:
        self.res.count("statements_flow_checked")
        if isinstance(st, ast.Assign):
            self.use(st.value, have)
            for t in st.targets:
                self.bind(t, have)
            return have
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.use(st.value, have)
                self.bind(st.target, have)
            return have
        if isinstance(st, ast.AugAssign):
            self.use(st.value, have)
            if isinstance(st.target, ast.Name):
                self.use(ast.copy_location(ast.Name(st.target.id, ast.Load()), st.target), have)
            else:
                self.bind(st.target, have)
            return have
        if isinstance(st, (ast.Return,)):
            self.use(st.value, have)
            return None
        if isinstance(st, ast.Raise):
            self.use(st.exc, have)
            return None
        if isinstance(st, (ast.Break, ast.Continue)):
            return None
        if isinstance(st, ast.If):
            self.use(st.test, have)
            return self.meet(self.block(st.body, set(have)), self.block(st.orelse, set(have)))
        if isinstance(st, (ast.For, ast.AsyncFor)):
            self.use(st.iter, have)
            h = set(have)
            self.bind(st.target, h)
            out = self.block(st.body, h)
            after = h if out is None else h | out
            if st.orelse:
                r = self.block(st.orelse, set(after))
                after = after if r is None else r
            return after
        if isinstance(st, ast.While):
            self.use(st.test, have)
            h = set(have)
            out = self.block(st.body, h)
            return h if out is None else h | out
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                self.use(i.context_expr, have)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, have)
            return self.block(st.body, have)
        if isinstance(st, ast.Try):
            b = self.block(st.body, set(have))
            b = self.block(st.orelse, b) if b is not None else None
            outs = [b]
            for h in st.handlers:
                hh = set(have)
                if h.name:
                    hh.add(h.name)
                outs.append(self.block(h.body, hh))
            r = self.meet(*outs)
            f = self.block(st.finalbody, set(have) if r is None else r)
            return None if r is None else f
        if isinstance(st, ast.Match):
            self.use(st.subject, have)
            outs = []
            for c in st.cases:
                h = set(have)
                for x in ast.walk(c.pattern):
                    if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                        h.add(x.name)
                self.use(c.guard, h)
                outs.append(self.block(c.body, h))
            return self.meet(*outs)
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            for d in st.decorator_list:
                self.use(d, have)
            have.add(st.name)
            return have
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                have.add(a.asname or a.name.split(".")[0])
            return have
        if isinstance(st, (ast.Global, ast.Nonlocal)):
            have |= set(st.names)
            return have
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    have.discard(t.id)
            return have
        for c in ast.iter_child_nodes(st):
            self.use(c, have)
        return have


# ------------------------------------------------------------------ call binding
def check_calls(project: Project, res: Result) -> None:
    for f in project.funcs:
        Definite(f, project, res).run()
    for m in project.modules.values():
        owners: list[tuple[Func | None, ast.AST]] = [(f, f.node) for f in m.funcs]
        seen: set[int] = set()

        def handle(call: ast.Call, f: Func | None) -> None:
            if id(call) in seen:
                return
            seen.add(id(call))
            owner = f.short if f is not None else m.name.removeprefix(PKG + ".")
            target = project.resolve(m, call.func, f)
            bound = False
            fn: Func | None = None
            if isinstance(target, Func):
                fn = target
                if fn.cls is not None and isinstance(call.func, ast.Attribute) and fn.is_classmethod:
                    bound = True
                if fn.has_decorator("property", "cached_property"):
                    return
                if fn.decorators and any(not _transparent(project, fn, d) for d in fn.decorators):
                    return
            elif isinstance(target, Class):
                if project.is_typeddict(target) or project.is_protocol(target):
                    return
                fn = project.find_method(target, "__init__")
                bound = True
                if fn is None:
                    if any(d for d in target.node.decorator_list):
                        fields = _dataclass_fields(project, target)
                        if fields is not None:
                            res.count("calls_bound")
                            kws = {k.arg for k in call.keywords if k.arg}
                            bad = kws - {n for n, _ in fields}
                            if bad:
                                res.add("call-mismatch", owner, f"{target.short}", f"{m.rel}:{call.lineno}", f"passes keyword '{sorted(bad)[0]}', which {target.short} does not take")
                            elif not any(k.arg is None for k in call.keywords) and not any(isinstance(a, ast.Starred) for a in call.args):
                                npos = len(call.args)
                                if npos > len(fields):
                                    res.add("call-mismatch", owner, target.short, f"{m.rel}:{call.lineno}", f"passes {npos} arguments, {target.short} takes {len(fields)}")
                                for n, has in fields[npos:]:
                                    if not has and n not in kws:
                                        res.add("call-mismatch", owner, target.short, f"{m.rel}:{call.lineno}", f"does not pass required field '{n}' of {target.short}")
                    return
            elif isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id == "self" and f is not None:
                g: Func | None = f
                while g is not None and g.cls is None:
                    g = g.parent
                if g is not None and g.cls is not None:
                    fn = project.find_method(g.cls, call.func.attr)
                    bound = True
                    if fn is not None and fn.is_property:
                        return
            elif isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Call) and isinstance(call.func.value.func, ast.Name) and call.func.value.func.id == "super" and f is not None and f.cls is not None:
                for k in project.mro(f.cls)[1:]:
                    if call.func.attr in k.methods:
                        fn = k.methods[call.func.attr]
                        bound = True
                        break
            if fn is None:
                # method on an object of unknown class: every repo method of that name must not reject the call
                if isinstance(call.func, ast.Attribute) and target is None:
                    cands = [x for x in project.methods_by_name.get(call.func.attr, []) if not x.is_property]
                    if cands and call.func.attr.startswith("__") and call.func.attr.endswith("__"):
                        res.count("calls_bound")
                        errs = [bind_error(x, call, bound=True) for x in cands]
                        if all(errs):
                            res.add("call-mismatch", owner, call.func.attr, f"{m.rel}:{call.lineno}", errs[0] or "")
                return
            res.count("calls_bound")
            err = bind_error(fn, call, bound=bound)
            if err:
                res.add("call-mismatch", owner, fn.short, f"{m.rel}:{call.lineno}", f"'{ast.unparse(call)[:90]}' {err}")

        for f, node in owners:
            for n in walk_own(node):
                if isinstance(n, ast.Call):
                    handle(n, f)
                elif isinstance(n, ast.Lambda):
                    pass
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                handle(n, None)


def _dataclass_fields(project: Project, c: Class) -> list[tuple[str, bool]] | None:
    if not any("dataclass" in ast.unparse(d) for d in c.node.decorator_list):
        return None
    out: list[tuple[str, bool]] = []
    for k in reversed(project.mro(c)):
        for n in k.fields:
            out.append((n, n in k.class_assigns))
    return out


TRANSPARENT = {"timed", "npy_cached", "cached", "override", "staticmethod", "classmethod", "abstractmethod", "wraps", "cache", "lru_cache", "final"}


def _transparent(project: Project, fn: Func, d: ast.expr) -> bool:
    t = d.func if isinstance(d, ast.Call) else d
    n = t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "")
    return n in TRANSPARENT


# ------------------------------------------------------------------ the type-checked program
def run_pyright(project: Project) -> list[dict]:
    exe = shutil.which("pyright")
    if exe is None:
        raise AnalysisBroken("pyright is not installed")
    with tempfile.TemporaryDirectory(prefix="spa_pyright_") as d:
        dst = Path(d) / PKG
        shutil.copytree(project.root / PKG, dst, ignore=shutil.ignore_patterns("__pycache__"))
        (Path(d) / "pyrightconfig.json").write_text(
            json.dumps(
                {
                    "include": [PKG],
                    "venvPath": "/opt",
                    "venv": "venv",
                    "typeCheckingMode": "basic",
                    "pythonVersion": "3.12",
                    "enableTypeIgnoreComments": False,
                    "reportPossiblyUnbound": "error",
                }
            )
        )
        env = dict(os.environ)
        env["HOME"] = d if not os.access(os.path.expanduser("~"), os.W_OK) else os.path.expanduser("~")
        p = subprocess.run([exe, "-p", ".", "--outputjson"], cwd=d, capture_output=True, text=True, timeout=600, env=env, check=False)
        try:
            out = json.loads(p.stdout)
        except json.JSONDecodeError as e:
            raise AnalysisBroken(f"pyright gave no result: {p.stderr[:300]}") from e
        diags = []
        for x in out["generalDiagnostics"]:
            x["rel"] = os.path.relpath(x["file"], d)
            diags.append(x)
        if out["summary"]["filesAnalyzed"] < len(project.modules) - 2:
            raise AnalysisBroken(f"pyright analysed {out['summary']['filesAnalyzed']} of {len(project.modules)} modules")
        return diags


ATTR = re.compile(r'Cannot access attribute "(\w+)" for class "([^"]+)"')
OPT = re.compile(r'"(\w+)" is not a known attribute of "None"')
KEY = re.compile(r'"(\w+)" is not a defined key in "(\w+)')


def owner_at(project: Project, rel: str, line: int) -> tuple[Module | None, str, ast.AST | None, Func | None]:
    for m in project.modules.values():
        if m.rel == rel:
            best = None
            for f in m.funcs:
                if f.node.lineno <= line <= (f.node.end_lineno or line) and (best is None or f.node.lineno >= best.node.lineno):
                    best = f
            return m, best.short if best else m.name.removeprefix(PKG + "."), None, best
    return None, rel, None, None


def calls_around(m: Module, line: int, col: int) -> list[ast.Call]:
    return [n for n in ast.walk(m.tree) if isinstance(n, ast.Call) and (n.lineno, n.col_offset) <= (line, col) <= (n.end_lineno or 0, n.end_col_offset or 0)]


def call_at(m: Module, line: int, col: int) -> ast.Call | None:
    best = None
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and (n.lineno, n.col_offset) <= (line, col) <= (n.end_lineno or 0, n.end_col_offset or 0):
            if best is None or (n.lineno, n.col_offset) >= (best.lineno, best.col_offset):
                best = n
    return best


def check_types(project: Project, res: Result) -> None:
    diags = run_pyright(project)
    res.counts["type_checker_diagnostics_judged"] = len(diags)
    for x in diags:
        rule = x.get("rule")
        msg = x["message"].split("\n")[0]
        line = x["range"]["start"]["line"] + 1
        col = x["range"]["start"]["character"]
        m, owner, _, f = owner_at(project, x["rel"], line)
        loc = f"{x['rel']}:{line}"
        if m is None:
            continue
        if rule == "reportAttributeAccessIssue":
            a = ATTR.search(msg)
            if a:
                attr, cname = a.group(1), re.split(r"[\[*@]", a.group(2))[0]
                if "type[" in a.group(2)[:5]:
                    cname = re.split(r"[\[*@\]]", a.group(2)[5:])[0]
                cls = project.cls(cname)
                if cls is not None:
                    fam = {k for c in [cls, *project.subclasses(cls)] for k in project.mro(c)}
                    if any(attr in k.methods or attr in k.fields or attr in k.class_assigns or attr in _self_attrs(k) for k in fam):
                        continue
                    res.add("no-such-attribute", owner, f"{cname}.{attr}", loc, f"accesses attribute '{attr}', which neither {cname} nor any class derived from it has")
                elif cname in ("object", "int", "float", "str", "bool") or cname.startswith("_"):
                    continue
                elif f is not None and cname in ("ndarray", "dict", "list", "tuple", "Axes", "Figure", "Line2D"):
                    res.add("no-such-attribute", owner, f"{cname}.{attr}", loc, f"accesses attribute '{attr}' of a {cname}, which has no such attribute")
            elif "is unknown import symbol" in msg:
                continue  # own rule
        elif rule == "reportOptionalMemberAccess":
            a = OPT.search(msg)
            if a and f is not None:
                node = _attr_base(m, line, col, a.group(1))
                # only for a parameter defaulting to None that is used as it came in
                if node is not None and isinstance(node, ast.Name) and (p := f.param(node.id)) is not None and isinstance(p.default, ast.Constant) and p.default.value is None:
                    stores = [n for n in project.func_locals(f).get(node.id, []) if isinstance(n, ast.Name)]
                    if not stores:
                        res.add("none-dereference", owner, f"{node.id}.{a.group(1)}", loc, f"uses '{node.id}.{a.group(1)}' although '{node.id}' defaults to None and nothing on this path replaces it")
        elif rule == "reportCallIssue" and "overload" not in msg:
            c = call_at(m, line, col)
            if any(isinstance(a, ast.Starred) for n in calls_around(m, line, col) for a in n.args):
                continue
            if msg.startswith(("Expected", "No parameter named", "Argument missing", "Arguments missing", "Multiple parameters")):
                name = ast.unparse(c.func)[:60] if c is not None else "?"
                if not any(g.rule == "call-mismatch" and g.loc == f"{x['rel']}:{c.lineno if c else 0}" for g in res.findings):
                    res.add("call-mismatch", owner, name, loc, f"call to '{name}' cannot succeed: {msg}")
        elif rule in ("reportTypedDictNotRequiredAccess", "reportGeneralTypeIssues"):
            a = KEY.search(msg)
            if a:
                res.add("no-such-key", owner, f"{a.group(2)}.{a.group(1)}", loc, f"uses record key '{a.group(1)}', which {a.group(2)} does not have")
        elif rule == "reportUndefinedVariable":
            res.add("undefined-name", owner, msg.split('"')[1] if '"' in msg else msg, loc, msg)


def _self_attrs(c: Class) -> set[str]:
    out = set()
    for f in c.methods.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                out.add(n.attr)
    return out


def _attr_base(m: Module, line: int, col: int, attr: str) -> ast.expr | None:
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute) and n.attr == attr and n.end_lineno == line and (n.end_col_offset or 0) - len(attr) == col:
            return n.value
    return None


def analyse(project: Project, tier: str) -> Result:
    res = Result()
    check_names(project, res)
    check_calls(project, res)
    check_types(project, res)
    from .layout import counted_axes

    counted_axes(res, project, ("axes",))
    res.floors = {"imports_resolved": 500, "names_resolved": 8000, "calls_bound": 1200, "statements_flow_checked": 2500}
    res.explanation = (
        "Own resolver over all modules: imports and re-exports, every evaluated name against the scopes that bind it at run time (type-checking-only "
        "imports excluded), definite assignment along every path of every function, and the binding of every resolvable call to its target's signature. "
        "The type-checked program (pyright, suppression comments disabled) supplies attribute, record-key and arity diagnostics for typed receivers; "
        "each is kept only if no class in the receiver's hierarchy provides the attribute. "
        "Every array expression carries bounds on its number of axes; reductions, contractions, subscripts and einsum operands must fit them."
    )
    res.assumptions = ["loops run at least once", "third-party stubs and inline types describe the installed versions"]
    return res
