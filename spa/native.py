"""C11: the Python callers, the stub file and the native extension declare and use one interface.

The Rust sources are read with a small tokenizer (comments, strings, attributes and nesting are handled; macros are not
expanded): every ``#[pyfunction]`` with its parameters and types, the functions ``#[pymodule]`` registers, the fields of
structures and the calls inside the crate.  The stub files are read with ``ast``.  The Python calls are taken from the
typed abstract execution of the library (:mod:`spa.infer`), so an argument that reaches the call through a local, a helper
or a property still has its kind: nested lists of a known depth and element type, tuples of a known length, numbers.
"""

from __future__ import annotations

import ast
import re
from dataclasses import dataclass

from .model import Project

INTS = {"i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"}
SKIP = {"target", ".git", "node_modules", ".venv", "__pycache__"}


@dataclass
class Sig:
    name: str
    params: list  # [(name, type, has default)]
    ret: tuple
    where: str
    module: str = ""


# ---------------------------------------------------------------- Rust
TOKEN = re.compile(
    r"""//[^\n]*|/\*.*?\*/|r\#*".*?"\#*|b?"(?:\\.|[^"\\])*"|'(?:\\.[^']*|[^'\\])'|'[A-Za-z_]\w*|[A-Za-z_]\w*!?|\d[\w.]*(?:[eE][+-]?\d+)?|::|->|=>|\.\.=?|[{}()\[\]<>,;:=&|.+\-*/!?\#%^@$~]""",
    re.DOTALL | re.VERBOSE,
)


def tokens(src: str) -> list[tuple[str, int]]:
    """(token, line) without comments."""
    out = []
    for m in TOKEN.finditer(src):
        t = m.group(0)
        if not t.startswith(("//", "/*")):
            out.append((t, src.count("\n", 0, m.start()) + 1))
    return out


PAIRS = {"(": ")", "[": "]", "{": "}", "<": ">"}


def close(ts, i: int) -> int:
    """The index of the bracket closing the one at i."""
    a, b = ts[i][0], PAIRS[ts[i][0]]
    depth = 0
    for j in range(i, len(ts)):
        if ts[j][0] == a:
            depth += 1
        elif ts[j][0] == b:
            depth -= 1
            if depth == 0:
                return j
    return len(ts) - 1


def split(ts) -> list[list]:
    """Comma separated items, ignoring nested commas."""
    out, cur, depth = [], [], 0
    for k, (t, line) in enumerate(ts):
        if t in "([{" or (t == "<" and k and (ts[k - 1][0][:1].isupper() or ts[k - 1][0] == "::")):
            depth += 1
        elif t in ")]}" or (t == ">" and depth):
            depth -= 1
        if t == "," and depth == 0:
            out.append(cur)
            cur = []
        else:
            cur.append((t, line))
    if cur:
        out.append(cur)
    return out


def rust_type(ts: list[str]) -> tuple:
    """float, int, complex, bool, str, ('list', t), ('tuple', (t, ...)), ('opt', t) or ('any',)."""
    ts = [t for t in ts if t not in ("&", "mut") and not t.startswith("'")]
    while len(ts) > 2 and ts[1] == "::":
        ts = ts[2:]
    if not ts:
        return ("any",)
    t = ts[0]
    inner = ts[2:-1] if len(ts) > 2 and ts[1] == "<" else []
    if t in ("f64", "f32"):
        return ("float",)
    if t in INTS:
        return ("int",)
    if t in ("Complex64", "Complex32", "Complex"):
        return ("complex",)
    if t == "bool":
        return ("bool",)
    if t in ("String", "str"):
        return ("str",)
    if t in ("Vec", "VecDeque") and inner:
        return ("list", rust_type(inner))
    if t == "Option" and inner:
        return ("opt", rust_type(inner))
    if t == "PyResult" and inner:
        return rust_type(inner)
    if t == "[":
        body = ts[1:-1]
        if ";" in body:
            k = len(body) - 1 - body[::-1].index(";")
            size = "".join(body[k + 1 :])
            return ("array", rust_type(body[:k]), int(size) if size.isdigit() else None)
        return ("list", rust_type(body))
    if t == "(":
        items = split([(x, 0) for x in ts[1:-1]])
        return ("tuple", tuple(rust_type([x for x, _ in i]) for i in items)) if items else ("none",)
    return ("any",)


def field_name(ts: list[str]) -> str:
    """The name in ``pub name: Type`` (attributes skipped)."""
    k = ts.index(":") if ":" in ts else 0
    return ts[k - 1] if k else ""


class Crate:
    """What one set of Rust sources declares."""

    def __init__(self, files: list) -> None:
        self.functions: dict[str, Sig] = {}
        self.exported: dict[str, Sig] = {}  # Python name -> signature
        self.registered: dict[str, str] = {}  # rust name -> where
        self.module: str | None = None
        self.module_where = ""
        self.structs: dict[str, list] = {}
        self.problems: list = []
        self.checked = 0
        self.bodies: list = []
        for rel, src in files:
            self.read(rel, tokens(src))
        for rel, ts, sig in self.bodies:
            self.wiring(rel, ts, sig)

    def read(self, rel: str, ts) -> None:
        attrs: list[str] = []
        i = 0
        while i < len(ts):
            t, line = ts[i]
            if t == "#":
                j = i + 1 if ts[i + 1][0] == "[" else i + 2
                e = close(ts, j)
                attrs.append(" ".join(x for x, _ in ts[j + 1 : e]))
                i = e + 1
                continue
            if t == "mod" and any("cfg" in a and "test" in a for a in attrs) and i + 2 < len(ts) and ts[i + 2][0] == "{":
                i = close(ts, i + 2) + 1
                attrs = []
                continue
            if t == "struct":
                name = ts[i + 1][0]
                j = i + 2
                while j < len(ts) and ts[j][0] not in ("{", "(", ";"):
                    j += 1
                if j < len(ts) and ts[j][0] == "{":
                    e = close(ts, j)
                    self.structs[name] = [field_name([x for x, _ in f]) for f in split(ts[j + 1 : e])]
                    i = e + 1
                    attrs = []
                    continue
            if t == "fn":
                i = self.function(rel, ts, i, attrs)
                attrs = []
                continue
            if t in ("impl", "mod", "trait", "use", ";", "}", "const", "static", "enum"):
                attrs = [] if t != "const" else attrs
            i += 1

    def function(self, rel: str, ts, i: int, attrs: list[str]) -> int:
        name, line = ts[i + 1]
        j = i + 2
        if ts[j][0] == "<":
            j = close(ts, j) + 1
        e = close(ts, j)
        params = []
        for p in split(ts[j + 1 : e]):
            words = [x for x, _ in p]
            if "self" in words[:3]:
                continue
            if ":" in words:
                k = words.index(":")
                params.append((words[k - 1], rust_type(words[k + 1 :]), False))
        k = e + 1
        ret: list[str] = []
        if k < len(ts) and ts[k][0] == "->":
            k += 1
            while k < len(ts) and ts[k][0] not in ("{", ";", "where"):
                ret.append(ts[k][0])
                k += 1
        while k < len(ts) and ts[k][0] not in ("{", ";"):
            k += 1
        sig = Sig(name, params, rust_type(ret) if ret else ("none",), f"{rel}:{line}")
        end = k
        if k < len(ts) and ts[k][0] == "{":
            end = close(ts, k)
            self.bodies.append((rel, ts[k + 1 : end], sig))
        kind = [a.split(" ")[0] for a in attrs]
        self.functions.setdefault(name, sig)
        if "pyfunction" in kind:
            python = name
            for a in attrs:
                m = re.search(r'name\s*=\s*"(\w+)"', a)
                if m:
                    python = m.group(1)
                m = re.search(r"signature\s*=\s*\((.*)\)", a)
                if m:
                    defaults = {x.split("=")[0].strip() for x in m.group(1).split(",") if "=" in x}
                    sig.params = [(n, t, n in defaults) for n, t, _ in sig.params]
            sig.params = [(n, t, d or t[0] == "opt") for n, t, d in sig.params if t != ("any",) or n not in ("_py", "py")]
            self.exported[python] = sig
        if "pymodule" in kind:
            self.module = name
            self.module_where = f"{rel}:{line}"
            for a in attrs:
                m = re.search(r'name\s*=\s*"(\w+)"', a)
                if m:
                    self.module = m.group(1)
            body = ts[k + 1 : end]
            for x in range(len(body) - 2):
                if body[x][0].rstrip("!") in ("wrap_pyfunction", "wrap_pyfunction_bound") and body[x + 1][0] in ("(", "!"):
                    y = x + 1 if body[x + 1][0] == "(" else x + 2
                    inner = [t for t, _ in body[y + 1 : close(body, y)]]
                    path = inner[: inner.index(",")] if "," in inner else inner
                    self.registered[path[-1]] = f"{rel}:{body[x][1]}"
        return end + 1

    def wiring(self, rel: str, ts, sig: Sig) -> None:
        """Arguments and fields handed on inside the crate under their own name."""
        for i, (t, line) in enumerate(ts):
            if i + 1 >= len(ts):
                break
            nxt = ts[i + 1][0]
            if t in self.functions and nxt == "(" and (i == 0 or ts[i - 1][0] not in ("fn", ".")):
                callee = self.functions[t]
                args = split(ts[i + 2 : close(ts, i + 1)])
                names = [n for n, _, _ in callee.params]
                if len(args) != len(names):
                    continue
                for a, own in zip(args, names):
                    self.same_name(rel, line, sig, a, own, names, f"the call of {t}")
            elif t in self.structs and nxt == "{":
                for f in split(ts[i + 2 : close(ts, i + 1)]):
                    if len(f) > 2 and f[1][0] == ":":
                        self.same_name(rel, line, sig, f[2:], f[0][0], self.structs[t], f"the fields of {t}")

    def same_name(self, rel, line, sig, expr, own: str, names: list, what: str) -> None:
        words = [x for x, _ in expr if x not in ("&", "*", "mut", "self", ".", "clone", "(", ")", "as")]
        words = [w for w in words if w not in INTS and w not in ("f64", "f32")]
        if not words or not all(re.fullmatch(r"[A-Za-z_]\w*", w) for w in words) or any(x in ("+", "-", "/", "[") for x, _ in expr):
            return
        tail = words[-1]
        self.checked += 1
        if tail != own and tail in names:
            self.problems.append(("argument-order", f"{rel}:{line}", sig.name, f"{what} hands '{tail}' over as '{own}'"))


# ---------------------------------------------------------------- stubs
def stub_type(e: ast.expr | None) -> tuple:
    if e is None:
        return ("any",)
    if isinstance(e, ast.Constant) and e.value is None:
        return ("none",)
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return stub_type(ast.parse(e.value, mode="eval").body)
    if isinstance(e, (ast.Name, ast.Attribute)):
        n = e.id if isinstance(e, ast.Name) else e.attr
        return {"float": ("float",), "int": ("int",), "complex": ("complex",), "bool": ("bool",), "str": ("str",)}.get(n, ("any",))
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        sides = [stub_type(e.left), stub_type(e.right)]
        return ("opt", next((s for s in sides if s != ("none",)), ("any",))) if ("none",) in sides else ("any",)
    if isinstance(e, ast.Subscript):
        n = ast.unparse(e.value).split(".")[-1]
        args = list(e.slice.elts) if isinstance(e.slice, ast.Tuple) else [e.slice]
        if n in ("list", "List", "Sequence"):
            return ("list", stub_type(args[0]))
        if n == "Optional":
            return ("opt", stub_type(args[0]))
        if n in ("tuple", "Tuple"):
            if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                return ("list", stub_type(args[0]))
            return ("tuple", tuple(stub_type(a) for a in args))
    return ("any",)


def read_stub(rel: str, src: str) -> dict[str, Sig]:
    out = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.FunctionDef):
            a = n.args
            ps = [*a.posonlyargs, *a.args, *a.kwonlyargs]
            nd = len(ps) - len(a.kwonlyargs) - len(a.defaults)
            params = [(p.arg, stub_type(p.annotation), nd <= i < len(ps) - len(a.kwonlyargs) or (p in a.kwonlyargs and a.kw_defaults[a.kwonlyargs.index(p)] is not None)) for i, p in enumerate(ps)]
            out[n.name] = Sig(n.name, params, stub_type(n.returns), f"{rel}:{n.lineno}")
    return out


def accepts(native: tuple, given: tuple) -> bool:
    """Whether the native parameter accepts every value of the given type (unknown parts are accepted)."""
    if "any" in (native[0], given[0]):
        return True
    if native[0] == "opt":
        return given[0] == "none" or accepts(native[1], given[1] if given[0] == "opt" else given)
    k, g = native[0], given[0]
    if g == "ndarray or number":
        return k not in ("list", "tuple", "array")
    if k == "float":
        return g in ("float", "int", "bool")
    if k == "complex":
        return g in ("complex", "float", "int", "bool")
    if k == "int":
        return g in ("int", "bool")
    if k == "list":
        if g == "list":
            return accepts(native[1], given[1])
        return g == "tuple" and all(accepts(native[1], x) for x in given[1])
    if k == "array":
        if g == "tuple":
            return (native[2] is None or len(given[1]) == native[2]) and all(accepts(native[1], x) for x in given[1])
        return g == "list" and accepts(native[1], given[1])
    if k == "tuple":
        return g == "tuple" and len(given[1]) == len(native[1]) and all(accepts(x, y) for x, y in zip(native[1], given[1]))
    return k == g


def same(native: tuple, given: tuple) -> bool:
    if "any" in (native[0], given[0]):
        return True
    if native[0] == "array":
        return (given[0] == "tuple" and all(same(native[1], x) for x in given[1])) or (given[0] == "list" and same(native[1], given[1]))
    if native[0] == "tuple":
        return given[0] == "tuple" and len(native[1]) == len(given[1]) and all(same(x, y) for x, y in zip(native[1], given[1]))
    if native[0] in ("list", "opt"):
        return given[0] == native[0] and same(native[1], given[1])
    return native[0] == given[0]


def show(t: tuple) -> str:
    if t[0] == "list":
        return f"list[{show(t[1])}]"
    if t[0] == "array":
        return f"{t[2]} x {show(t[1])}"
    if t[0] == "tuple":
        return f"tuple[{', '.join(show(x) for x in t[1])}]"
    if t[0] == "opt":
        return f"{show(t[1])} | None"
    return t[0]


# ---------------------------------------------------------------- the repository
def sources(project: Project, suffix: str) -> list:
    out = []
    for p in sorted(project.root.rglob(f"*{suffix}")):
        rel = p.relative_to(project.root)
        if not SKIP & set(rel.parts) and not rel.parts[0].startswith("."):
            out.append((str(rel), p.read_text(errors="replace")))
    return out


def crates(project: Project) -> dict[str, Crate]:
    """Module name -> crate, one crate per folder that holds a Cargo.toml."""
    groups: dict[str, list] = {}
    for rel, src in sources(project, ".rs"):
        root = rel.split("/src/")[0] if "/src/" in rel else rel.rsplit("/", 1)[0]
        groups.setdefault(root, []).append((rel, src))
    out = {}
    for files in groups.values():
        c = Crate(files)
        if c.module is not None:
            out[c.module] = c
    return out


def interface(project: Project) -> dict[str, Sig]:
    """Qualified name of every registered native routine -> its signature."""
    return {f"{m}.{n}": s for m, c in crates(project).items() for n, s in c.exported.items() if s.name in c.registered}


# ---------------------------------------------------------------- the check
def value_type(v) -> tuple:
    """The Python type of an abstract value of the layout inference, as far as it is known."""
    from .infer import C, ListOf, Maybe, Nested, Num, Splat, Tup
    from .terms import Arr

    num = {"i": ("int",), "b": ("bool",), "f": ("float",), "c": ("complex",), "r": ("float",), "m": ("float",)}
    if isinstance(v, Maybe):
        return value_type(v.v)
    if isinstance(v, Num):
        return num.get(v.dt, ("any",))
    if isinstance(v, C):
        if v.v is None:
            return ("none",)
        return {bool: ("bool",), int: ("int",), float: ("float",), complex: ("complex",), str: ("str",)}.get(type(v.v), ("any",))
    if isinstance(v, Nested):
        t = num.get(v.a.dt, ("any",))
        if v.a.axes is None or v.a.has_star:
            return ("any",) if v.dims is None else nest(t, v.dims)
        return nest(t, len(v.a.axes))
    if isinstance(v, Arr):
        if v.axes is not None and not v.has_star and not v.axes:
            return num.get(v.dt, ("any",))
        return ("ndarray",) if v.axes is not None else ("ndarray or number",)
    if isinstance(v, Tup):
        if any(isinstance(x, Splat) for x in v.items):
            return ("any",)
        return ("tuple", tuple(value_type(x) for x in v.items))
    if isinstance(v, ListOf):
        return ("list", value_type(v.elem))
    return ("any",)


def leaf(t: tuple) -> tuple:
    while t[0] in ("list", "array", "opt"):
        t = t[1]
    return t


def nest(t: tuple, n: int) -> tuple:
    for _ in range(n):
        t = ("list", t)
    return t


def origin(v, e: ast.expr | None) -> list[str]:
    """The names an argument goes by: where its value came from, or how it is written."""
    from .infer import Num

    out = []
    if isinstance(v, Num) and v.size is not None and v.size[0] == 1 and len(v.size[1]) == 1 and v.size[1][0][0] == "num" and isinstance(v.size[1][0][1], str):
        out.append(v.size[1][0][1])
    elif e is not None:
        out.append(ast.unparse(e))
    res = []
    for s in out:
        s = re.sub(r"\.tolist\(\)$|\(\)$", "", s)
        m = re.search(r"""(\w+)(?:['"]\])?$""", s)
        if m:
            res.append(re.sub(r"^_+|^_?get_", "", m.group(1)))
    return res


def analyse(project: Project, tier: str):
    from .layout import ASSUMPTIONS
    from .layout import run as type_all
    from .report import Result

    res = Result()
    all_crates = crates(project)
    stubs: dict[str, dict[str, Sig]] = {}
    stub_files = {}
    for rel, src in sources(project, ".pyi"):
        name = rel.rsplit("/", 1)[-1][:-4]
        if name in all_crates:
            stubs[name] = read_stub(rel, src)
            stub_files[name] = rel
    for m, c in all_crates.items():
        for name, where in c.registered.items():
            res.count("native_routines")
            if name not in {s.name for s in c.exported.values()}:
                res.add("registered", f"{m}.{name}", "not a pyfunction", where, f"'{name}' is registered but no #[pyfunction] of that name exists")
        for rule, where, fn, message in c.problems:
            res.add(rule, f"{m}.{fn}", message, where, message)
        res.count("native_arguments_decided", c.checked)
        if m not in stubs:
            continue
        for name, s in stubs[m].items():
            res.count("stub_signatures_decided")
            native = c.exported.get(name)
            if native is None or native.name not in c.registered:
                res.add("stub", f"{m}.{name}", "missing", s.where, f"the stub file declares '{name}', which the extension {'does not register' if native else 'does not define'}")
                continue
            compare(res, m, s, native)
        for name, native in c.exported.items():
            if native.name in c.registered and name not in stubs[m]:
                res.add("stub", f"{m}.{name}", "undeclared", native.where, f"the extension registers '{name}', which {stub_files[m]} does not declare")

    calls_of(res, project, all_crates, type_all)
    res.explanation = (
        "The Rust sources are tokenized: every #[pyfunction] with its typed parameters, every function #[pymodule] registers, every structure and every call inside the crate. Each stub declaration must have "
        "the parameters (name, order, type) and result of the registered function; each Python use of the extension must name a registered function and pass it arguments it converts: number, order, nested list "
        "depth, element kind and tuple length, where the arguments' values come from the typed abstract execution of the library. An argument may not carry the name of another parameter. The result must be "
        "taken with the element kind and dimensions of the native result."
    )
    res.assumptions = [*ASSUMPTIONS, "pyo3 converts sequences, tuples and numbers as documented (a numpy array is not a sequence); macros are not expanded",
                       "the two axes of a matrix of off diagonal energies run over the coordinates of the resolution handed over, in order"]
    res.floors = {"native_routines": 1, "stub_signatures_decided": 1, "native_calls_decided": 1}
    return res


def compare(res, m: str, s: Sig, native: Sig) -> None:
    got, want = [n for n, _, _ in s.params], [n for n, _, _ in native.params]
    if got != want:
        res.add("stub", f"{m}.{s.name}", "parameters", s.where, f"the stub file declares the parameters ({', '.join(got)}) but the extension takes ({', '.join(want)})")
        return
    for (n, t, _), (_, u, _) in zip(s.params, native.params):
        if not same(u, t):
            res.add("stub", f"{m}.{s.name}", n, s.where, f"the stub file declares '{n}' as {show(t)} but the extension takes {show(u)}")
    if not same(native.ret, s.ret):
        res.add("stub", f"{m}.{s.name}", "result", s.where, f"the stub file declares the result as {show(s.ret)} but the extension returns {show(native.ret)}")


def calls_of(res, project: Project, all_crates: dict, type_all) -> None:
    """Every use of an extension module in the library."""
    from .infer import Nested
    from .layout import loc

    for mod in project.modules.values():
        names = {}
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name in all_crates:
                        names[a.asname or a.name] = a.name
            elif isinstance(n, ast.ImportFrom) and n.module in all_crates and n.level == 0:
                for a in n.names:
                    exists(res, all_crates, n.module, a.name, f"{mod.rel}:{n.lineno}", mod.name)
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in names:
                exists(res, all_crates, names[n.value.id], n.attr, f"{mod.rel}:{n.lineno}", mod.name)
    interp = type_all(project)
    users = set()
    for f, qual, args, kw, node in interp.native_calls:
        users.add(f.module.name)
        m, _, name = qual.rpartition(".")
        sig = all_crates[m].exported[name]
        where = f"{f.module.rel}:{node.lineno}"
        res.count("native_calls_decided")
        params = sig.params
        bound = {}
        if len(args) > len(params):
            res.add("call", f.short, f"{qual} arity", where, f"{qual} takes {len(params)} arguments but is given {len(args)}")
            continue
        exprs = [a for a in node.args if not isinstance(a, ast.Starred)] if not any(isinstance(a, ast.Starred) for a in node.args) else []
        for i, a in enumerate(args):
            bound[params[i][0]] = (a, exprs[i] if i < len(exprs) else None)
        for k, a in kw.items():
            if k not in {n for n, _, _ in params}:
                res.add("call", f.short, f"{qual} {k}", where, f"{qual} has no parameter '{k}'")
            bound[k] = (a, next((x.value for x in node.keywords if x.arg == k), None))
        missing = [n for n, _, d in params if n not in bound and not d]
        if missing and not any(isinstance(a, ast.Starred) for a in node.args) and not any(x.arg is None for x in node.keywords):
            res.add("call", f.short, f"{qual} missing", where, f"{qual} is not given {', '.join(missing)}")
        others = {n for n, _, _ in params}
        for n, t, _ in params:
            if n not in bound:
                continue
            v, e = bound[n]
            got = value_type(v)
            if not accepts(t, got):
                res.add("call", f.short, f"{qual} {n}", where, f"'{n}' of {qual} takes {show(t)} but is given {'a numpy array' if got[0].startswith("ndarray") else show(got)}")
            elif isinstance(v, Nested) and v.a.dt in ("r", "m") and leaf(t) == ("complex",):
                res.add("real-part", f.short, f"{qual} {n}", where, f"'{n}' of {qual} is complex but is given only the {'modulus' if v.a.dt == 'm' else 'real (or imaginary) part'} of complex values")
            elif got != ("any",):
                res.count("native_arguments_decided")
            for o in origin(v, e):
                if o != n and o in others:
                    res.add("argument-order", f.short, f"{qual} {n}", where, f"'{o}' is handed over as '{n}' of {qual}")
    for v in interp.violations:
        if v.func.module.name in users and v.rule in ("layout", "declared", "drops-imaginary", "real-part", "native"):
            res.add(v.rule, v.func.short, v.message, loc(v), f"{v.message}: {v.snippet[:110]}")


def exists(res, all_crates, m: str, name: str, where: str, user: str) -> None:
    res.count("native_names_decided")
    c = all_crates[m]
    s = c.exported.get(name)
    if s is None:
        res.add("exists", user, f"{m}.{name}", where, f"the extension module {m} defines no routine '{name}'")
    elif s.name not in c.registered:
        res.add("exists", user, f"{m}.{name}", where, f"'{name}' is not registered in the extension module {m}")
