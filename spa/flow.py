"""A syntax-directed forward abstract interpreter over one function body.

Subclasses supply the value domain (``eval``, ``join_values``); this class supplies paths:
branches are joined, loops are iterated to a fixpoint, break/continue/return/raise end a path.
"""

from __future__ import annotations

import ast


class Flow:
    BOTTOM = None
    MAX_ITER = 6

    def __init__(self) -> None:
        self.loop_depth = 0
        self._breaks: list[list[dict]] = []
        self._continues: list[list[dict]] = []

    # ---- domain hooks
    def eval(self, e: ast.expr, env: dict):  # noqa: A003
        raise NotImplementedError

    def join_values(self, a, b):
        raise NotImplementedError

    def iter_value(self, v, node: ast.AST, env: dict):
        """Value of the loop variable when iterating over ``v``."""
        return self.unknown()

    def item_value(self, v, i: int, n: int, node: ast.AST):
        """Value of the i-th element when unpacking ``v`` into n targets."""
        return self.unknown()

    def unknown(self):
        return self.BOTTOM

    def refine(self, test: ast.expr, env: dict, truth: bool) -> dict | None:
        return env

    def store(self, target: ast.expr, value, env: dict, node: ast.AST) -> None:
        """Attribute or subscript store."""

    def on_return(self, node: ast.Return, value, env: dict) -> None:
        pass

    def on_aug(self, node: ast.AugAssign, env: dict):
        self.eval(node.value, env)
        return self.unknown()

    def on_nested(self, node: ast.FunctionDef, env: dict) -> None:
        pass

    def on_fallthrough(self, env: dict) -> None:
        pass

    def with_value(self, v, node: ast.AST):
        return v

    # ---- environment
    def join(self, a: dict | None, b: dict | None) -> dict | None:
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in a.keys() | b.keys():
            if k in a and k in b:
                out[k] = a[k] if a[k] is b[k] or a[k] == b[k] else self.join_values(a[k], b[k])
            else:
                out[k] = a.get(k, b.get(k))
        return out

    def bind(self, target: ast.expr, value, env: dict, node: ast.AST) -> None:
        if isinstance(target, ast.Name):
            env[target.id] = value
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            star = next((i for i, t in enumerate(target.elts) if isinstance(t, ast.Starred)), None)
            for i, t in enumerate(target.elts):
                if isinstance(t, ast.Starred):
                    self.bind(t.value, self.unknown(), env, node)
                elif star is not None and i > star:
                    self.bind(t, self.unknown(), env, node)
                else:
                    self.bind(t, self.item_value(value, i, -1 if star is not None else n, node), env, node)
        elif isinstance(target, ast.Starred):
            self.bind(target.value, self.unknown(), env, node)
        else:
            self.eval_target(target, env)
            self.store(target, value, env, node)

    def eval_target(self, target: ast.expr, env: dict) -> None:
        if isinstance(target, ast.Attribute):
            self.eval(target.value, env)
        elif isinstance(target, ast.Subscript):
            self.eval(target.value, env)
            self.eval(target.slice, env)

    # ---- statements
    def run(self, body: list[ast.stmt], env: dict) -> dict | None:
        cur: dict | None = dict(env)
        for st in body:
            if cur is None:
                return None
            cur = self.stmt(st, cur)
        return cur

    def run_function(self, node: ast.FunctionDef, env: dict) -> None:
        end = self.run(node.body, env)
        if end is not None:
            self.on_fallthrough(end)

    def stmt(self, st: ast.stmt, env: dict) -> dict | None:
        if isinstance(st, ast.Expr):
            self.eval(st.value, env)
            return env
        if isinstance(st, ast.Assign):
            v = self.eval(st.value, env)
            for t in st.targets:
                self.bind(t, v, env, st)
            return env
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.eval(st.value, env), env, st)
            return env
        if isinstance(st, ast.AugAssign):
            v = self.on_aug(st, env)
            if isinstance(st.target, ast.Name):
                env[st.target.id] = v
            return env
        if isinstance(st, ast.Return):
            v = self.eval(st.value, env) if st.value is not None else self.unknown()
            self.on_return(st, v, env)
            return None
        if isinstance(st, ast.Raise):
            if st.exc is not None:
                self.eval(st.exc, env)
            return None
        if isinstance(st, ast.If):
            self.eval(st.test, env)
            t = self.refine(st.test, dict(env), True)
            f = self.refine(st.test, dict(env), False)
            a = self.run(st.body, t) if t is not None else None
            b = self.run(st.orelse, f) if f is not None else None
            return self.join(a, b)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.eval(st.iter, env)
            return self.loop(st, env, lambda e: self.bind(st.target, self.iter_value(it, st, e), e, st))
        if isinstance(st, ast.While):
            def head(e):
                self.eval(st.test, e)
            return self.loop(st, env, head, infinite=isinstance(st.test, ast.Constant) and bool(st.test.value))
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.with_value(self.eval(i.context_expr, env), i)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env, st)
            return self.run(st.body, env)
        if isinstance(st, ast.Try):
            before = dict(env)
            after = self.run(st.body, env)
            mid = self.join(before, after)
            outs = [self.run(st.orelse, after) if after is not None else None]
            for h in st.handlers:
                e = dict(mid)
                if h.name:
                    e[h.name] = self.unknown()
                outs.append(self.run(h.body, e))
            res = None
            for o in outs:
                res = self.join(res, o)
            if st.finalbody:
                fin = self.run(st.finalbody, res if res is not None else mid)
                return fin if res is not None else None
            return res
        if isinstance(st, ast.Match):
            self.eval(st.subject, env)
            res = None
            exhaustive = False
            rest: dict | None = dict(env)
            for c in st.cases:
                if rest is None:
                    break
                e = self.match_case(st.subject, c, dict(rest))
                if e is not None:
                    if c.guard is not None:
                        self.eval(c.guard, e)
                    res = self.join(res, self.run(c.body, e))
                if c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    exhaustive = True
                    rest = None
                elif c.guard is None:
                    rest = self.match_rest(st.subject, c, rest)
            if not exhaustive and rest is not None:
                res = self.join(res, rest)
            return res
        if isinstance(st, ast.FunctionDef):
            self.on_nested(st, env)
            env[st.name] = self.nested_value(st, env)
            return env
        if isinstance(st, ast.Assert):
            self.eval(st.test, env)
            return self.refine(st.test, env, True)
        if isinstance(st, ast.Break):
            if self._breaks:
                self._breaks[-1].append(dict(env))
            return None
        if isinstance(st, ast.Continue):
            if self._continues:
                self._continues[-1].append(dict(env))
            return None
        return env

    def nested_value(self, st: ast.FunctionDef, env: dict):
        return self.unknown()

    def match_case(self, subject: ast.expr, c: ast.match_case, env: dict) -> dict | None:
        for n in ast.walk(c.pattern):
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                env[n.name] = self.unknown()
        return env

    def match_rest(self, subject: ast.expr, c: ast.match_case, env: dict) -> dict | None:
        return env

    def loop(self, st, env: dict, head, infinite: bool = False) -> dict | None:
        state: dict | None = dict(env)
        out: dict | None = None
        self.loop_depth += 1
        for _ in range(self.MAX_ITER):
            self._breaks.append([])
            self._continues.append([])
            e = dict(state)
            head(e)
            if not infinite:
                out = self.join(out, self.join(dict(state), None))
            r = self.run(st.body, e)
            for c in self._continues.pop():
                r = self.join(r, c)
            for b in self._breaks.pop():
                out = self.join(out, b)
            new = self.join(dict(state), r)
            if new == state:
                break
            state = new
        self.loop_depth -= 1
        if not infinite:
            out = self.join(out, state)
        if st.orelse and out is not None:
            return self.run(st.orelse, out)
        return out
