"""Shared helpers: binding a call's arguments to its target's parameters."""

from __future__ import annotations

import ast

from .model import Class, Func, Module, Project


def callee(project: Project, m: Module, call: ast.Call, f: Func | None):
    return project.resolve(m, call.func, f)


def bind_args(target: Func, call: ast.Call, *, bound: bool = True) -> tuple[dict[str, ast.expr], bool]:
    """Map parameter names to argument expressions. Second value: True if star arguments make it incomplete."""
    params = target.bound_params if bound else target.params
    pos = [p for p in params if p.kind in ("pos", "posonly")]
    out: dict[str, ast.expr] = {}
    fuzzy = False
    i = 0
    for a in call.args:
        if isinstance(a, ast.Starred):
            fuzzy = True
            break
        if i < len(pos):
            out[pos[i].name] = a
        i += 1
    for k in call.keywords:
        if k.arg is None:
            fuzzy = True
        else:
            out[k.arg] = k.value
    return out, fuzzy


def target_func(project: Project, obj: object) -> Func | None:
    """The function a call on ``obj`` runs."""
    if isinstance(obj, Func):
        return obj
    if isinstance(obj, Class):
        return project.find_method(obj, "__init__")
    return None


def names_in(e: ast.AST) -> set[str]:
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def annotation_mentions(project: Project, f: Func, ann: ast.expr | None, ext: str) -> bool:
    """Does the annotation mention the given external class (dotted suffix match)?"""
    if ann is None:
        return False
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode="eval").body
        except SyntaxError:
            return False
    for n in ast.walk(ann):
        if isinstance(n, (ast.Name, ast.Attribute)):
            r = project.resolve_global(f.module, n.id) if isinstance(n, ast.Name) else project.resolve(f.module, n)
            if getattr(r, "name", "").endswith(ext):
                return True
    return False
