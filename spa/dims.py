"""C05: dimensional homogeneity of the physical formulas.

Every function is abstractly executed over physical dimensions: a number is known by its exponents of mass, length,
time, temperature and charge, not by its value.  Dimensions enter through the physical constants, through the
attributes that describe a basis (lengths, wave numbers, times) and through the quantities named by the public
signatures (mass, temperature, hamiltonian, potential, ...); they are propagated through arithmetic, numpy and calls.
"""

from __future__ import annotations

import ast
import re
from fractions import Fraction as F

from .model import Class, Ext, Func, Module, Project
from .report import Result

MAX_DEPTH = 9
BASE = ("kg", "m", "s", "K", "C", "operator unit", "a variable power of a unit")


def _d(**kw) -> tuple:
    return tuple(F(kw.get(b, 0)) for b in BASE)


NONE = _d()
LEN = _d(m=1)
WAVE = _d(m=-1)
MASS = _d(kg=1)
TIME = _d(s=1)
RATE = _d(s=-1)
TEMP = _d(K=1)
ENERGY = _d(kg=1, m=2, s=-2)
ACTION = _d(kg=1, m=2, s=-1)
CHARGE = _d(C=1)
OPUNIT = _d(**{BASE[5]: 1})  # the unit of an operator given by the caller, whatever it is
ODD = _d(**{BASE[6]: 1})  # a quantity raised to a power that varies: no fixed dimension
NAMED = {NONE: "dimensionless", LEN: "length", WAVE: "wave number", MASS: "mass", TIME: "time", RATE: "rate", TEMP: "temperature", ENERGY: "energy", ACTION: "action"}

CONSTANTS = {
    "hbar": ACTION, "h": ACTION, "Planck": ACTION, "Boltzmann": _d(kg=1, m=2, s=-2, K=-1), "k": _d(kg=1, m=2, s=-2, K=-1),
    "electron_mass": MASS, "m_e": MASS, "proton_mass": MASS, "neutron_mass": MASS, "atomic_mass": MASS, "u": MASS, "m_u": MASS, "m_p": MASS,
    "elementary_charge": CHARGE, "e": CHARGE, "epsilon_0": _d(C=2, kg=-1, m=-3, s=2), "c": _d(m=1, s=-1), "speed_of_light": _d(m=1, s=-1),
    "angstrom": LEN, "electron_volt": ENERGY, "eV": ENERGY, "pi": NONE, "golden": NONE, "nano": NONE, "milli": NONE, "micro": NONE,
}

# what the attributes of bases and times denote, wherever they are read
ATTRS = {
    **{a: LEN for a in ("delta_x", "delta_x_stacked", "fundamental_delta_x", "fundamental_delta_x_stacked", "dx", "fundamental_dx", "dx_stacked", "fundamental_dx_stacked", "x_points", "fundamental_x_points", "x_points_stacked", "fundamental_x_points_stacked", "unit_cell")},
    **{a: WAVE for a in ("dk", "dk_stacked", "fundamental_dk", "fundamental_dk_stacked", "delta_k", "delta_k_stacked", "fundamental_delta_k_stacked", "k_points", "fundamental_k_points", "fundamental_stacked_k_points")},
    **{a: TIME for a in ("times", "fundamental_times", "dt", "delta_t", "fundamental_dt")},
    **{a: RATE for a in ("fast_rate", "slow_rate")},
    **{a: NONE for a in ("n", "fundamental_n", "shape", "fundamental_shape", "ndim", "size", "step", "offset", "nx_points", "nk_points", "nt_points", "fundamental_nx_points", "fundamental_nk_points", "stacked_nx_points", "stacked_nk_points", "fundamental_stacked_nx_points", "fundamental_stacked_nk_points", "bloch_fractions", "locations", "fast_amplitude", "slow_amplitude", "a_dk")},
}
ATTR_POW = {"volume": (LEN, "ndim"), "reciprocal_volume": (WAVE, "ndim")}

# what the parameters of public functions denote
PARAMS = {
    "mass": MASS, "free_mass": MASS, "true_mass": MASS, "temperature": TEMP, "sho_omega": RATE, "eta": _d(kg=1, s=-1), "boltzmann_energy": ENERGY, "k_f": WAVE,
    "bloch_fraction": NONE, "bloch_fractions": NONE, "delta_x": LEN, "delta_x_stacked": LEN, "x_origin": LEN, "times": TIME, "delta_t": TIME, "dt": TIME, "lambda_": LEN, "fast_rate": RATE, "slow_rate": RATE, "unit_cell": LEN,
    "lambda_factor": NONE, "scattered_k": WAVE, "dz": LEN, "z_offset": LEN, "dk": WAVE, "bloch_phase": WAVE, "a_dk": NONE, "displacements": LEN, "start_t": TIME, "end_t": TIME,
}
# parameters whose names only mean something in a given module
PARAMS_IN = {
    "hermitian_gamma_integral": {"k": WAVE, "k_0": WAVE, "k_1": WAVE, "q": WAVE, "omega": ENERGY},
    "isf": {"t": TIME},
    "gaussian": {"a": _d(s=F(-1, 2))},
    "_taylor": {"polynomial_coefficients": RATE},
    "lorentzian": {"a": _d(s=F(-1, 2))},
    "sho_basis": {"x_points": LEN},
}
RECORD_PARAMS = {
    "hamiltonian": {"data": ENERGY, "eigenvalue": ENERGY}, "potential": {"data": ENERGY},
    "collapse_operators": {"data": _d(kg=F(1, 2), m=1, s=-1)},
    "positions": {"data": LEN},
}
# what functions given by the caller return
CALLBACKS = {"overlap": NONE}
# what a record denotes in a function that is also given another parameter
RECORD_GIVEN = {
    "temperature": {"operators": {"data": OPUNIT}, "operator": {"data": ENERGY}, "eigenstates": {"eigenvalue": ENERGY}},
}
RECORD_HEADS = {
    "Potential": {"data": ENERGY},
    "BlochWavefunctionListWithEigenvalues": {"eigenvalue": ENERGY}, "BlochWavefunctionListWithEigenvaluesList": {"eigenvalue": ENERGY},
    "BlochWavefunctionListWithEigenvaluesList": {"eigenvalue": ENERGY},
    "TunnellingAMatrix": {"data": RATE}, "TunnellingMMatrix": {"data": RATE},
}
RECORD_FIELDS = {
    "SHOBasisConfig": {"mass": MASS, "sho_omega": RATE, "x_origin": LEN},
    "PotentialBasisConfig": {"mass": MASS, "n": NONE, "potential": {"data": ENERGY}},
    "MomentumBasisConfig": {"mass": MASS, "delta_x": LEN},
}

# what public functions promise: a dimension, a tuple of them, or fields of the returned record
RESULTS = {
    "momentum_basis.hamiltonian_from_potential": {"data": ENERGY},
    "momentum_basis.hamiltonian_from_mass": {"data": ENERGY},
    "momentum_basis.hamiltonian_from_mass_in_basis": {"data": ENERGY},
    "momentum_basis.total_surface_hamiltonian": {"data": ENERGY},
    "sho_subtracted_basis.total_surface_hamiltonian": {"data": ENERGY},
    "explicit_z_basis.total_surface_hamiltonian": {"data": ENERGY},
    "sho_basis.calculate_x_distances": LEN,
    "sho_basis.calculate_sho_wavefunction": _d(m=F(-1, 2)),
    "sho_basis.get_sho_potential_basis_config": {"potential": {"data": ENERGY}, "mass": MASS},
    "gaussian.get_effective_gaussian_parameters": (_d(s=F(-1, 2)), LEN),
    "lorentzian.get_effective_lorentzian_parameter": (_d(s=F(-1, 2)), LEN),
    "gaussian.get_gaussian_isotropic_noise_kernel": {"data": RATE},
    "gaussian.get_gaussian_noise_kernel": {"data": RATE},
    "lorentzian.get_lorentzian_isotropic_noise_kernel": {"data": RATE},
    "wavepacket.plot.get_wavepacket_transformed_energy_effective_mass": {"data": MASS},
    "wavepacket.plot.get_wavepacket_localized_effective_mass": {"data": MASS},
    "hermitian_gamma_integral.calculate_hermitian_gamma_occupation_integral": WAVE,
    "hermitian_gamma_integral.calculate_hermitian_gamma_potential_integral": _d(m=1, s=-1),
    "hermitian_gamma_integral.calculate_real_gamma_integral": RATE,
    "gaussian.get_gaussian_axis_noise_kernel": {"data": RATE},
    "gaussian.get_effective_gaussian_noise_kernel": {"data": RATE},
    "gaussian.get_effective_gaussian_isotropic_noise_kernel": {"data": RATE},
    "hermitian_gamma_integral.get_hermitian_gamma_occupation_integrand": NONE,
    "potential.conversion.get_potential_derivative": {"data": _d(kg=1, m=1, s=-2)},
    "state_vector.plot.get_average_displacements": {"data": _d(m=2)},
    "wavepacket.get_eigenstate.get_full_wannier_hamiltonian": {"data": ENERGY},
    "wavepacket.get_eigenstate.get_full_bloch_hamiltonian": {"data": ENERGY},
    "operator.build.get_displacements_matrix_x": {"data": LEN},
    "operator.build.get_displacements_matrix_x_stacked": {"data": LEN},
    "operator.build.get_total_displacements_matrix_x_stacked": {"data": LEN},
}
UNITS = {"J": ENERGY, "m": LEN, "s": TIME, "kg": MASS, "Kg": MASS, "K": TEMP, "$m^{-1}$": WAVE, "$m^-1$": WAVE, "m^-1": WAVE, "m^{-1}$": WAVE, "m^-1$": WAVE, "m$": LEN, "s$": TIME, "$m^2$": _d(m=2), "$m^{2}$": _d(m=2), "$m$": LEN}


# ------------------------------------------------------------------ dimensions
def dmul(a, b, s=1):
    if a is not None and b is not None and (a == ODD or b == ODD):
        return None if a == b else ODD
    return None if a is None or b is None else tuple(x + s * y for x, y in zip(a, b))


def dpow(a, p):
    if a == ODD:
        return ODD if p else NONE
    return None if a is None else tuple(x * p for x in a)


def show(d) -> str:
    if d is None:
        return "unknown"
    if d in NAMED:
        return NAMED[d]
    return " ".join(f"{b}" if x == 1 else f"{b}^{x}" for b, x in zip(BASE, d) if x)


# ------------------------------------------------------------------ values
class N:
    """A number or an array of numbers of one dimension; `zero` fits any dimension."""

    __slots__ = ("dim", "lit", "zero")

    def __init__(self, dim, zero=False, lit=None):
        self.dim, self.zero, self.lit = dim, zero, lit

    @property
    def known(self) -> bool:
        return self.dim is not None and not self.zero


U = N(None)
ZERO = N(NONE, zero=True, lit=0)
ONE = N(NONE)


class NoneV:
    pass


NONEV = NoneV()


class Str:
    def __init__(self, s):
        self.s = s


class Rec:
    def __init__(self, fields):
        self.fields = fields


class Tup:
    def __init__(self, items):
        self.items = items


class Seq:
    def __init__(self, elem=None):
        self.elem = elem


class Obj:
    def __init__(self, cls=None, kind="", fields=None):
        self.cls, self.kind, self.fields = cls, kind, fields if fields is not None else {}


class Fn:
    def __init__(self, node, env, func):
        self.node, self.env, self.func, self.called = node, env, func, False


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class NMeth:
    def __init__(self, val, name):
        self.val, self.name = val, name


class Ref:
    def __init__(self, target):
        self.target = target


class Ax:
    def __init__(self):
        self.plots: list = []
        self.labels: dict = {}


def sig(v, depth=0):
    if isinstance(v, N):
        return ("n", v.dim, v.zero, v.lit)
    if isinstance(v, NoneV):
        return "none"
    if isinstance(v, Str):
        return ("s", v.s)
    if depth > 4:
        return "deep"
    if isinstance(v, Rec):
        return ("r", tuple(sorted((k, sig(x, depth + 1)) for k, x in v.fields.items())))
    if isinstance(v, Tup):
        return ("t", tuple(sig(x, depth + 1) for x in v.items))
    if isinstance(v, Seq):
        return ("q", sig(v.elem, depth + 1) if v.elem is not None else None)
    if isinstance(v, Obj):
        return ("o", id(v.cls), v.kind, tuple(sorted((k, sig(x, depth + 1)) for k, x in v.fields.items())))
    if isinstance(v, Ref):
        return ("ref", id(v.target) if not isinstance(v.target, Ext) else v.target.name)
    return ("id", id(v))


def has_ax(v, depth=0) -> bool:
    if isinstance(v, Ax):
        return True
    if depth > 4:
        return False
    if isinstance(v, Tup):
        return any(has_ax(x, depth + 1) for x in v.items)
    if isinstance(v, Seq):
        return v.elem is not None and has_ax(v.elem, depth + 1)
    if isinstance(v, Rec):
        return any(has_ax(x, depth + 1) for x in v.fields.values())
    return False


def join(a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, NoneV):
        return b
    if isinstance(b, NoneV):
        return a
    if isinstance(a, N) and isinstance(b, N):
        if a.zero and b.zero:
            return ZERO
        if a.zero:
            return N(b.dim)
        if b.zero:
            return N(a.dim)
        return N(a.dim, lit=a.lit if a.lit == b.lit else None) if a.dim == b.dim else U
    if isinstance(a, Rec) and isinstance(b, Rec):
        return Rec({k: join(a.fields[k], b.fields[k]) for k in a.fields if k in b.fields})
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([join(x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, (Tup, Seq)) and isinstance(b, (Tup, Seq)):
        return Seq(join(elem_of(a), elem_of(b)))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and a.kind == b.kind:
        return Obj(a.cls, a.kind, {k: join(v, b.fields[k]) for k, v in a.fields.items() if k in b.fields})
    if isinstance(a, Fn) and isinstance(b, Fn) and a.node is b.node:
        return a
    if sig(a) == sig(b):
        return a
    return U


def elem_of(v):
    if isinstance(v, N):
        return N(v.dim, v.zero)
    if isinstance(v, Tup):
        out = None
        for x in v.items:
            out = join(out, x)
        return out if out is not None else None
    if isinstance(v, Seq):
        return v.elem
    return U


def num(v) -> N:
    if isinstance(v, N):
        return v
    if isinstance(v, Tup) and v.items and all(isinstance(x, N) and (x.zero or x.lit is not None) for x in v.items) and not all(x.zero for x in v.items):
        return N(NONE, lit=1j)  # an array written out in numbers
    if isinstance(v, (Tup, Seq)):
        e = elem_of(v)
        return U if e is None else (N(num(e).dim, num(e).zero))
    return U


PRESERVE = set(
    "abs absolute real imag conj conjugate sum mean average median min max amin amax nanmin nanmax cumsum diff sort flip roll ravel reshape transpose swapaxes moveaxis squeeze expand_dims "
    "broadcast_to repeat tile copy array asarray ascontiguousarray asfortranarray real_if_close diag diagonal trace take pad round around rint floor ceil unique fliplr flipud rot90 nan_to_num "
    "atleast_1d atleast_2d std ptp fabs negative positive percentile quantile concatenate stack vstack hstack column_stack append insert delete triu tril unwrap compress extract resize asanyarray fmax fmin"
    " array_split split hsplit vsplit zeros_like_of norm nanmean nansum hypot".split()
)
DIMLESS_FN = set("exp exp2 expm1 log log2 log10 log1p sin cos tan sinh cosh tanh arcsin arccos arctan arcsinh arccosh arctanh sinc erf erfc asin acos atan".split())
COUNTS = set("argmax argmin argsort searchsorted nonzero count_nonzero shape size ndim arange_index isnan isfinite isclose allclose sign angle logical_and logical_or logical_not logical_xor any all ones eye identity indices "
             "unravel_index ravel_multi_index array_equal isreal iscomplex ones_like lexsort digitize bincount prod_index ix_ argwhere flatnonzero tri_index ndindex factorial comb".split())
PRODUCT = set("dot tensordot matmul outer inner vdot kron cross multiply convolve".split())
SAME = {"add", "subtract", "maximum", "minimum", "fmod", "mod", "remainder"}
COMPARES = {"isclose", "allclose", "array_equal", "assert_array_almost_equal", "assert_allclose", "assert_almost_equal", "assert_array_equal", "greater", "less", "greater_equal", "less_equal", "equal", "not_equal", "array_equiv"}
METHOD_PRESERVE = set("reshape ravel copy astype sum min max mean tolist item conj conjugate transpose flatten swapaxes squeeze round cumsum diagonal take repeat real imag trace std view toarray todense tocsr sort clip".split())
FACADE_FIRST = {
    "convert_vector", "convert_dual_vector", "convert_matrix", "__into_fundamental__", "__from_fundamental__", "__convert_vector_into__", "get_measured_data",
    "__as_fundamental__", "__into_transformed__", "__from_transformed__", "__into_truncated__", "__from_truncated__", "__as_transformed__", "__as_truncated__", "__from_transformed__",
}
NATIVE_RESULT = {"calculate_off_diagonal_energies": ENERGY, "calculate_off_diagonal_energies2": ENERGY}


class Stop(Exception):
    pass


class Env:
    def __init__(self, func: Func, parent: "Env | None" = None, root: str = ""):
        self.vars: dict = {}
        self.func = func
        self.parent = parent
        self.returns: list = []

    def get(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        return None


def annot_text(a) -> str:
    if a is None:
        return ""
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        return a.value
    return ast.unparse(a)


NUMERIC_RE = re.compile(r"\b(float|FloatLike_co|_FloatLike_co|ndarray|AxisVector|np\.float64|complex)\b")
INT_RE = re.compile(r"^(int|IntLike_co|int \| None)$")


class Dims:
    def __init__(self, project: Project, res: Result):
        self.p = project
        self.res = res
        self.memo: dict = {}
        self.active: list = []
        self.steps = 0
        self.axes: list = []
        self.root = ""
        self.seen: dict = {}
        self.seen_plots: set = set()
        self.callbacks: list = []
        self.trace = None

    # ------------------------------------------------------------ reporting
    def obligation(self, rule: str, env: Env, node: ast.AST) -> None:
        key = (rule, env.func.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        if key not in self.seen:
            self.seen[key] = True
            self.res.count(rule)
            if self.trace is not None:
                self.trace.append((key, ast.unparse(node)[:120]))

    def report(self, rule, env: Env, node, what: str, message: str) -> None:
        f = env.func
        via = f" (reached from {self.root})" if self.root and self.root != f.short else ""
        self.res.add(rule, f.short, what, f"{f.module.rel}:{getattr(node, 'lineno', f.node.lineno)}", f"{message}: `{ast.unparse(node)[:110]}`{via}")

    def same(self, rule, env, node, a: N, b: N, what: str, literal_ok=False):
        """Both operands have one dimension; returns it."""
        if a.known and b.known:
            self.obligation(rule, env, node)
            if a.dim != b.dim:
                if literal_ok and (a.lit is not None or b.lit is not None):
                    return N(a.dim if a.lit is None else b.dim)
                x, y = sorted((show(a.dim), show(b.dim)))
                self.report(rule, env, node, f"{x} / {y}", f"{what} a quantity of dimension [{show(a.dim)}] with one of dimension [{show(b.dim)}]")
                return U
            return N(a.dim)
        if a.zero and b.zero:
            return ZERO
        if a.zero:
            return N(b.dim)
        if b.zero:
            return N(a.dim)
        if a.known and a.lit is None and a.dim != NONE:
            return N(a.dim)
        if b.known and b.lit is None and b.dim != NONE:
            return N(b.dim)
        return U

    def dimless(self, env, node, v: N, what: str):
        if v.known:
            self.obligation("argument", env, node)
            if v.dim != NONE:
                self.report("argument", env, node, f"{what} {show(v.dim)}", f"the {what} has the dimension [{show(v.dim)}]")

    # ------------------------------------------------------------ declared quantities
    def declared(self, f: Func, name: str, annotation, private=False):
        text = annot_text(annotation)
        heads = set(re.findall(r"[A-Za-z_][A-Za-z_0-9]*", text.split("[")[0])) if text else set()
        if "Axes" in heads or re.match(r"^Axes\b", text):
            return None
        if not private:
            mod = f.module.name.split(".")[-1]
            if NUMERIC_RE.search(text.split("Callable")[0]) and "Callable" not in text and not text.startswith(("list[", "dict[")):
                d = PARAMS_IN.get(mod, {}).get(name, PARAMS.get(name))
                if d is not None:
                    return N(d)
            given = next((g[name] for q, g in RECORD_GIVEN.items() if name in g and any(x.name == q for x in f.params)), None)
            if given is not None and text and not NUMERIC_RE.match(text) and "Callable" not in text:
                return Rec({k: N(d) for k, d in given.items()})
            if name in RECORD_PARAMS and text and not NUMERIC_RE.match(text) and "Callable" not in text:
                r = Rec({k: N(d) for k, d in RECORD_PARAMS[name].items()})
                return Seq(r) if text.startswith("list[") else r
        head = text.split("[")[0].split("|")[0].strip().split(".")[-1]
        inner = False
        if head in ("list", "Iterable", "Sequence") and "[" in text:
            inner = True
            head = text.split("[", 1)[1].split("[")[0].split("|")[0].strip(" ]").split(".")[-1]
        r = None
        if head in RECORD_HEADS:
            r = Rec({k: N(d) for k, d in RECORD_HEADS[head].items()})
        elif head in RECORD_FIELDS:
            r = self.mkrec(RECORD_FIELDS[head])
        if r is not None:
            return Seq(r) if inner else r
        if INT_RE.match(text):
            return N(NONE)
        return None

    def mkrec(self, d):
        return Rec({k: self.mkrec(v) if isinstance(v, dict) else N(v) for k, v in d.items()})

    def param_value(self, f: Func, p, private: bool):
        text = annot_text(p.annotation)
        if re.search(r"^(Axes|plt\.Axes)\b", text):
            return NONEV if False else self.new_ax()
        if p.name in CALLBACKS and "Callable" in text:
            return Obj(None, "callback", {"value": N(CALLBACKS[p.name])})
        v = self.declared(f, p.name, p.annotation, private)
        return v if v is not None else U

    def new_ax(self):
        a = Ax()
        self.axes.append(a)
        return a

    # ------------------------------------------------------------ functions
    def is_private(self, f: Func) -> bool:
        if f.parent is not None:
            return True
        if f.name.startswith("_") and not (f.name.startswith("__") and f.name.endswith("__")):
            return True
        return False

    def run_root(self, f: Func):
        self.root = f.short
        self.axes = []
        self.steps = 0
        self.callbacks = []
        args = {}
        private = self.is_private(f)
        slf = None
        ps = f.params
        if f.cls is not None and not f.is_static and ps:
            slf = self.self_object(f.cls)
            ps = ps[1:]
        for p in ps:
            args[p.name] = self.param_value(f, p, private) if p.kind not in ("var", "varkw") else U
        r = self.execute(f, args, slf)
        for cb in list(self.callbacks):
            if not cb.called:
                self.call_fn(cb, [U] * 12, {}, cb.env, cb.node)
        for a in self.axes:
            self.check_axes(f, a)
        return r

    def self_object(self, c: Class) -> Obj:
        key = ("self", id(c))
        if key not in self.memo:
            o = Obj(c)
            self.memo[key] = o
            init = self.p.find_method(c, "__init__")
            if init is not None:
                args = {}
                for p in init.params[1:]:
                    args[p.name] = self.param_value(init, p, False) if p.kind not in ("var", "varkw") else U
                self.execute(init, args, o)
        return self.memo[key]

    def execute(self, f: Func, args: dict, slf=None, parent: Env | None = None):
        if len(self.active) >= MAX_DEPTH or f.node in self.active:
            return U
        self.steps += 1
        if self.steps > 6000:
            return U
        env = Env(f, parent)
        env.vars.update(args)
        if slf is not None and f.params:
            env.vars[f.params[0].name] = slf
        self.active.append(f.node)
        try:
            self.block(f.node.body, env)
        finally:
            self.active.pop()
        out = None
        for v in env.returns:
            out = join(out, v)
        return NONEV if out is None else out

    def call_func(self, f: Func, args: list, kwargs: dict, env: Env, node, slf=None):
        if f.name in FACADE_FIRST:
            vals = args or list(kwargs.values())
            return N(num(vals[0]).dim, num(vals[0]).zero) if vals else U
        if f.name == "get_figure":
            a = args[0] if args else kwargs.get("ax", NONEV)
            return Tup([U, a if isinstance(a, Ax) else self.new_ax()])
        if f.name in ("solve_sse", "solve_sse_banded"):
            return self.sse(f.name, args, kwargs, env, node)
        private = self.is_private(f)
        ps = f.params
        if f.cls is not None and not f.is_static and ps:
            if slf is not None:
                ps = ps[1:]
            elif args and not f.is_classmethod:
                slf, args = args[0], args[1:]
                ps = ps[1:]
            else:
                ps = ps[1:]
        star = None
        pos = []
        for a in args:
            if isinstance(a, tuple) and a[0] == "*":
                star = a[1]
                if isinstance(star, Tup):
                    pos.extend(star.items)
                    star = None
                continue
            if star is not None:
                break
            pos.append(a)
        bound = {}
        i = 0
        for p in ps:
            if p.kind in ("pos", "posonly"):
                if i < len(pos):
                    bound[p.name] = pos[i]
                    i += 1
                elif p.name in kwargs:
                    bound[p.name] = kwargs[p.name]
                elif star is not None:
                    bound[p.name] = elem_of(star) or U
            elif p.kind == "kw" and p.name in kwargs:
                bound[p.name] = kwargs[p.name]
            elif p.kind == "var":
                bound[p.name] = Tup(pos[i:]) if star is None else Seq(elem_of(star))
            elif p.kind == "varkw":
                bound[p.name] = U
        dyn = kwargs.get("**")
        for p in ps:
            if p.name not in bound:
                if dyn is not None and isinstance(dyn, Rec) and p.name in dyn.fields:
                    bound[p.name] = dyn.fields[p.name]
                elif p.default is not None and (dyn is None or not isinstance(dyn, Rec) or True):
                    bound[p.name] = self.default(f, p)
                else:
                    bound[p.name] = U
            d = self.declared(f, p.name, p.annotation, private) if p.kind not in ("var", "varkw") else None
            if d is None:
                continue
            v = bound[p.name]
            if isinstance(d, N):
                if d.dim == NONE and INT_RE.match(annot_text(p.annotation)):
                    if v is U:
                        bound[p.name] = d
                    continue
                n = num(v)
                if n.known and n.lit is None:
                    self.obligation("parameter", env, node)
                    if n.dim != d.dim:
                        self.report("parameter", env, node, f"{f.name}.{p.name} {show(n.dim)}", f"`{p.name}` of {f.name} is a quantity of dimension [{show(d.dim)}] but is given one of dimension [{show(n.dim)}]")
                elif n.dim is None and not isinstance(v, (NoneV, Obj, Rec)):
                    bound[p.name] = d
            elif isinstance(d, Rec):
                self.match_record(f, p, v, d, env, node)
                if v is U:
                    bound[p.name] = d
                elif isinstance(v, Rec):
                    bound[p.name] = self.filled(v, d)
            elif isinstance(d, Seq) and v is U:
                bound[p.name] = d
        hasax = any(has_ax(v) for v in bound.values())
        key = None
        if not hasax and f.parent is None:
            key = (id(f.node), sig(slf) if slf is not None else None, tuple(sorted((k, sig(v)) for k, v in bound.items())))
            if key in self.memo:
                return self.memo[key]
        r = self.execute(f, bound, slf)
        c = self.contract(f)
        if c is not None:
            r = self.merge_contract(r, c)
        if key is not None and not has_ax(r) and len(self.active) < MAX_DEPTH - 3:
            self.memo[key] = r
        return r

    def filled(self, v: Rec, d: Rec) -> Rec:
        out = dict(v.fields)
        for k, x in d.fields.items():
            if k not in out or out[k] is U:
                out[k] = x
        return Rec(out)

    def match_record(self, f, p, v, d: Rec, env, node):
        if not isinstance(v, Rec):
            return
        for k, x in d.fields.items():
            if k in v.fields and isinstance(x, N):
                n = num(v.fields[k])
                if n.known and n.dim != NONE and x.dim != OPUNIT:  # relative values may be passed for any quantity
                    self.obligation("parameter", env, node)
                    if n.dim != x.dim:
                        self.report("parameter", env, node, f"{f.name}.{p.name}.{k} {show(n.dim)}", f"`{k}` of `{p.name}` of {f.name} is a quantity of dimension [{show(x.dim)}] but is given one of dimension [{show(n.dim)}]")

    def contract(self, f: Func):
        if f.cls is not None or f.parent is not None:
            return None
        for k, v in RESULTS.items():
            if f.qual.endswith("." + k):
                return v
        return None

    def merge_contract(self, r, c):
        if isinstance(c, dict):
            if isinstance(r, (Tup, Seq)):
                return r
            if not isinstance(r, Rec):
                return self.mkrec(c)
            return self.filled(r, self.mkrec(c))
        if isinstance(c, tuple) and c and isinstance(c[0], tuple):
            if not isinstance(r, Tup):
                return Tup([N(d) for d in c])
            return r
        return r if num(r).dim is not None else N(c)

    def default(self, f: Func, p):
        if isinstance(p.default, ast.Constant) and p.default.value is None:
            return NONEV
        e = Env(f)
        return self.ev(p.default, e)

    def call_fn(self, fn: Fn, args, kwargs, env, node):
        fn.called = True
        n = fn.node
        if n in self.active or len(self.active) >= MAX_DEPTH:
            return U
        e = Env(fn.func, fn.env)
        a = n.args
        names = [x.arg for x in [*a.posonlyargs, *a.args]]
        pos = []
        for x in args:
            if isinstance(x, tuple) and x[0] == "*":
                pos.extend(x[1].items if isinstance(x[1], Tup) else [elem_of(x[1]) or U] * (len(names) - len(pos)))
            else:
                pos.append(x)
        for i, nm in enumerate(names):
            e.vars[nm] = pos[i] if i < len(pos) else kwargs.get(nm, U)
        nd = len(names) - len(a.defaults)
        for i, nm in enumerate(names):
            if i >= len(pos) and nm not in kwargs and i >= nd:
                e.vars[nm] = self.ev(a.defaults[i - nd], fn.env)
        for x, dflt in zip(a.kwonlyargs, a.kw_defaults):
            e.vars[x.arg] = kwargs[x.arg] if x.arg in kwargs else (self.ev(dflt, fn.env) if dflt is not None else U)
        if a.vararg:
            e.vars[a.vararg.arg] = Tup(pos[len(names):])
        if a.kwarg:
            e.vars[a.kwarg.arg] = Rec({k: v for k, v in kwargs.items() if k not in names})
        self.active.append(n)
        self.steps += 1
        try:
            if isinstance(n, ast.Lambda):
                return self.ev(n.body, e)
            self.block(n.body, e)
        finally:
            self.active.pop()
        out = None
        for v in e.returns:
            out = join(out, v)
        return NONEV if out is None else out

    def apply(self, v, args, kwargs, env, node):
        """Call any callable value."""
        if isinstance(v, Fn):
            return self.call_fn(v, args, kwargs, env, node)
        if isinstance(v, Bound):
            return self.call_func(v.func, args, kwargs, env, node, v.obj)
        if isinstance(v, Ref):
            t = v.target
            if isinstance(t, Func):
                return self.call_func(t, args, kwargs, env, node)
            if isinstance(t, Class):
                return self.construct(t, args, kwargs, env, node)
            if isinstance(t, Ext):
                return self.ext(t.name, args, kwargs, env, node)
        if isinstance(v, Obj) and v.kind == "callback":
            return v.fields["value"]
        if isinstance(v, NMeth):
            return self.method(v.val, v.name, args, kwargs, env, node)
        for a in args:
            if isinstance(a, Fn) and not a.called:
                self.call_fn(a, [U] * 12, {}, env, node)
        return U

    def construct(self, c: Class, args, kwargs, env, node):
        if self.p.is_typeddict(c):
            return Rec({k: v for k, v in kwargs.items() if k != "**"})
        o = Obj(c)
        if any(getattr(b, "name", "").startswith("ExplicitBasis") for b in self.p.mro(c)):
            v = args[0] if args and not isinstance(args[0], tuple) else kwargs.get("vectors")
            n = num(v.fields["data"]) if isinstance(v, Rec) and "data" in v.fields else U
            if n.known:
                self.obligation("parameter", env, node)
                if n.dim != NONE:
                    self.report("parameter", env, node, f"{c.name}.vectors {show(n.dim)}", f"the vectors of {c.name} are dimensionless coefficients but are given as a quantity of dimension [{show(n.dim)}]")
        init = self.p.find_method(c, "__init__")
        if init is not None:
            # the constructor runs once per combination of argument dimensions
            self.call_init(init, args, kwargs, env, node, o)
        else:
            names = [n for k in reversed(self.p.mro(c)) for n in (k.fields or {})]
            for nm, a in zip(names, args):
                if not isinstance(a, tuple):
                    o.fields[nm] = a
            o.fields.update({k: v for k, v in kwargs.items() if k != "**"})
            for nm, v in o.fields.items():
                if nm in ATTRS and num(v).known and num(v).lit is None:
                    self.obligation("parameter", env, node)
                    if num(v).dim != ATTRS[nm]:
                        self.report("parameter", env, node, f"{c.name}.{nm} {show(num(v).dim)}", f"`{nm}` of {c.name} is a quantity of dimension [{show(ATTRS[nm])}] but is given one of dimension [{show(num(v).dim)}]")
        return o

    def call_init(self, init, args, kwargs, env, node, o):
        ps = init.params[1:]
        # bind through the ordinary path, without the memo (the object is filled in place)
        saved = self.memo
        self.memo = dict_no_store(saved)
        try:
            self.call_func(init, args, kwargs, env, node, o)
        finally:
            self.memo = saved
        del ps

    def block(self, body, env: Env) -> bool:
        """Execute statements; True when control cannot fall off the end."""
        for s in body:
            if self.stmt(s, env):
                return True
        return False

    def stmt(self, s, env: Env) -> bool:
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s)
        elif isinstance(s, ast.AugAssign):
            load = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s.target)
            for n in ast.walk(load):
                ast.copy_location(n, s.target)
            cur = self.ev(load, env)
            v = self.binop(s.op, cur, self.ev(s.value, env), env, s)
            if not isinstance(cur, (Tup, Seq)):
                if isinstance(s.target, ast.Subscript) and isinstance(v, N) and v.dim is not None:
                    base = self.ev(s.target.value, env)
                    if isinstance(base, N) and isinstance(s.op, (ast.Mult, ast.Div, ast.Pow)) and not base.zero:
                        v = U if v.dim != base.dim else v  # an element rescaled in place
                        if v is U:
                            self.assign(s.target.value, U, env, s) if isinstance(s.target.value, ast.Name) else None
                            return False
                self.assign(s.target, v, env, s)
        elif isinstance(s, ast.Return):
            env.returns.append(self.ev(s.value, env) if s.value is not None else NONEV)
            return True
        elif isinstance(s, ast.Raise):
            return True
        elif isinstance(s, ast.If):
            c = self.decide(s.test, env)
            self.ev(s.test, env)
            if c is True:
                return self.block(s.body, env)
            if c is False:
                return self.block(s.orelse, env)
            before = dict(env.vars)
            t1 = self.block(s.body, env)
            v1 = env.vars
            env.vars = dict(before)
            t2 = self.block(s.orelse, env)
            v2 = env.vars
            env.vars = self.merge(v1, v2, t1, t2)
            return t1 and t2
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter, env)
            e = elem_of(it)
            for _ in range(2):
                before = dict(env.vars)
                self.assign(s.target, e if e is not None else U, env, s)
                t = self.block(s.body, env)
                if t:
                    env.vars = before
                else:
                    env.vars = self.merge(before, env.vars, False, False)
            self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.ev(s.test, env)
                before = dict(env.vars)
                t = self.block(s.body, env)
                env.vars = before if t else self.merge(before, env.vars, False, False)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, s)
            return self.block(s.body, env)
        elif isinstance(s, ast.Try):
            t = self.block(s.body, env)
            after = dict(env.vars)
            for h in s.handlers:
                env.vars = dict(after)
                th = self.block(h.body, env)
                after = self.merge(after, env.vars, t, th)
                t = t and th
            env.vars = after
            if not t:
                t = self.block(s.orelse, env)
            return self.block(s.finalbody, env) or t
        elif isinstance(s, ast.Match):
            self.ev(s.subject, env)
            outs = []
            before = dict(env.vars)
            ts = []
            for c in s.cases:
                env.vars = dict(before)
                for nme in ast.walk(c.pattern):
                    if isinstance(nme, (ast.MatchAs, ast.MatchStar)) and nme.name:
                        env.vars[nme.name] = U
                ts.append(self.block(c.body, env))
                outs.append(env.vars)
            if not any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in s.cases):
                live = [o for o, t in zip(outs, ts) if not t]
                outs, ts = (outs, ts) if live else ([*outs, before], [*ts, False])
            cur = None
            for o, t in zip(outs, ts):
                if t:
                    continue
                cur = o if cur is None else self.merge(cur, o, False, False)
            env.vars = cur if cur is not None else before
            return cur is None
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fn = Fn(s, env, env.func.children.get(s.name, env.func))
            env.vars[s.name] = fn
            self.callbacks.append(fn)
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)
        elif isinstance(s, (ast.Break, ast.Continue)):
            return False
        elif isinstance(s, ast.Delete):
            pass
        return False

    def merge(self, a: dict, b: dict, ta: bool, tb: bool) -> dict:
        if ta and not tb:
            return b
        if tb and not ta:
            return a
        out = {}
        for k in {**a, **b}:
            if k in a and k in b:
                out[k] = join(a[k], b[k])
            else:
                out[k] = a.get(k, b.get(k))
        return out

    def decide(self, test, env):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            r = self.decide(test.operand, env)
            return None if r is None else not r
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            v = self.ev(test.left, env)
            if isinstance(v, NoneV):
                return isinstance(test.ops[0], (ast.Is, ast.Eq))
        if isinstance(test, ast.Name) and test.id == "TYPE_CHECKING":
            return False
        return None

    def assign(self, t, v, env: Env, s):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            starred = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if isinstance(v, Tup) and not starred and len(v.items) == len(t.elts):
                for x, y in zip(t.elts, v.items):
                    self.assign(x, y, env, s)
                return
            e = elem_of(v)
            e = U if e is None or (isinstance(v, Tup) and len(v.items) != len(t.elts) and not isinstance(e, N)) else e
            for x in t.elts:
                if isinstance(x, ast.Starred):
                    self.assign(x.value, Seq(e), env, s)
                else:
                    self.assign(x, e, env, s)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            if isinstance(base, Rec):
                k = self.ev(t.slice, env)
                if isinstance(k, Str):
                    base.fields[k.s] = v
                return
            self.ev(t.slice, env)
            if isinstance(base, N) and isinstance(v, (N, Tup, Seq)):
                n = num(v)
                if n.known and base.known and n.lit is None and base.lit is None:
                    self.same("store", env, s, base, n, "this stores into", literal_ok=True)
                elif base.zero and isinstance(t.value, ast.Name) and not n.zero:
                    self.assign(t.value, N(n.dim), env, s)
                elif base.zero and isinstance(t.value, ast.Subscript) and not n.zero:
                    k = self.ev(t.value.slice, env)
                    if isinstance(k, Str):
                        self.assign(t.value, N(n.dim), env, s)
            elif isinstance(base, (Tup, Seq)) and isinstance(t.value, ast.Name):
                env.vars[t.value.id] = Seq(join(elem_of(base), v))
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env)
            if isinstance(base, Obj):
                if t.attr in ATTRS and num(v).known and num(v).lit is None and num(v).dim != ATTRS[t.attr]:
                    self.report("quantity", env, s, f"{t.attr} {show(num(v).dim)}", f"`{t.attr}` is a quantity of dimension [{show(ATTRS[t.attr])}] but is set to one of dimension [{show(num(v).dim)}]")
                base.fields[t.attr] = join(base.fields.get(t.attr), v) if t.attr in base.fields and len(self.active) > 1 else v

    def ev(self, e, env: Env):
        self.steps += 1
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, env)
            return U
        return m(e, env)

    def ev_Constant(self, e, env):
        v = e.value
        if v is None:
            return NONEV
        if isinstance(v, bool):
            return N(NONE)
        if isinstance(v, (int, float)):
            return ZERO if v == 0 else N(NONE, lit=v)
        if isinstance(v, complex):
            return ZERO if v == 0 else N(NONE, lit=v)
        if isinstance(v, str):
            return Str(v)
        return U

    def ev_JoinedStr(self, e, env):
        out = ""
        for x in e.values:
            if isinstance(x, ast.Constant):
                out += str(x.value)
            else:
                v = self.ev(x.value, env)
                out += v.s if isinstance(v, Str) else str(v.lit) if isinstance(v, N) and v.lit is not None else "?"
        return Str(out)

    def ev_Name(self, e, env):
        v = env.get(e.id)
        if v is not None:
            return v
        t = self.p.resolve(env.func.module, e, env.func)
        return self.ref(t, env)

    def ref(self, t, env):
        if isinstance(t, Ext):
            c = self.constant(t.name)
            if c is not None:
                return c
            return Ref(t)
        if isinstance(t, (Func, Class, Module)):
            return Ref(t)
        val = getattr(t, "value", None)
        if val is not None and isinstance(val, ast.expr) and isinstance(val, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.Call, ast.Name, ast.Attribute, ast.Tuple, ast.Dict)) and len(self.active) < MAX_DEPTH:
            if id(val) in self.active:
                return U
            mod = t.module
            fake = Fake(env.func, mod)
            self.active.append(id(val))
            try:
                return self.ev(val, Env(fake))
            finally:
                self.active.pop()
        return U

    def constant(self, name: str):
        parts = name.split(".")
        if parts[0] == "scipy" and "constants" in parts:
            if parts[-1] in CONSTANTS:
                return N(CONSTANTS[parts[-1]])
            return None
        if parts[0] in ("numpy", "math") and parts[-1] in ("pi", "e", "euler_gamma", "tau"):
            return N(NONE)
        if parts[0] in ("numpy", "math") and parts[-1] in ("inf", "nan"):
            return ZERO
        if name in ("numpy.newaxis",):
            return NONEV
        return None

    def ev_Attribute(self, e, env):
        if isinstance(e.value, (ast.Name, ast.Attribute)):
            root = e
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and env.get(root.id) is None:
                t = self.p.resolve(env.func.module, e, env.func)
                if t is not None:
                    return self.ref(t, env)
        return self.attr(self.ev(e.value, env), e.attr, env, e)

    def attr(self, v, name, env, node):
        if isinstance(v, Ref) and isinstance(v.target, Ext):
            return self.ref(Ext(f"{v.target.name}.{name}"), env)
        if isinstance(v, Ref) and isinstance(v.target, Class):
            f = self.p.find_method(v.target, name)
            return Ref(f) if f is not None else U
        if isinstance(v, Ax):
            return NMeth(v, name)
        if isinstance(v, N) and v is not U and v.dim is not None:
            if name in ("T", "real", "imag", "flat"):
                return N(v.dim, v.zero)
            if name in ("shape", "size", "ndim"):
                return ONE
            return NMeth(v, name)
        if isinstance(v, (Tup, Seq, Rec, Str)):
            return NMeth(v, name)
        if isinstance(v, Obj):
            if v.kind:
                if name in v.fields:
                    return v.fields[name]
                return NMeth(v, name)
            if name in ATTRS:
                if v.cls is None or self.p.find_method(v.cls, name) is None or self.p.find_method(v.cls, name).is_property:
                    return N(ATTRS[name])
            if name in v.fields:
                return v.fields[name]
            if v.cls is not None:
                f = self.p.find_method(v.cls, name)
                if f is not None:
                    if f.is_property:
                        return self.call_func(f, [], {}, env, node, v)
                    return Bound(v, f)
            return U
        if v is U or isinstance(v, N):
            if name in ATTRS:
                return N(ATTRS[name])
            if name in ("T", "real", "imag"):
                return U
            return NMeth(U, name)
        return U

    def ev_Subscript(self, e, env):
        t = None
        if isinstance(e.value, (ast.Name, ast.Attribute)):
            v = self.ev(e.value, env)
            if isinstance(v, Ref):
                return v
        else:
            v = self.ev(e.value, env)
        k = self.ev(e.slice, env)
        del t
        if isinstance(v, Rec):
            if isinstance(k, Str):
                return v.fields.get(k.s, U)
            return U
        if isinstance(v, Tup):
            if isinstance(k, N) and isinstance(k.lit, int) or (isinstance(k, N) and k.zero):
                i = k.lit or 0
                if -len(v.items) <= i < len(v.items):
                    return v.items[i]
            if isinstance(e.slice, ast.Slice):
                return Seq(elem_of(v))
            r = elem_of(v)
            return r if r is not None else U
        if isinstance(v, Seq):
            if isinstance(e.slice, ast.Slice):
                return v
            return v.elem if v.elem is not None else U
        if isinstance(v, N):
            return N(v.dim, v.zero) if v.dim is not None else U
        if isinstance(v, Obj) and v.cls is not None:
            f = self.p.find_method(v.cls, "__getitem__")
            if f is not None:
                return self.call_func(f, [k], {}, env, e, v)
        return U

    def ev_Slice(self, e, env):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, env)
        return U

    def ev_Tuple(self, e, env):
        items = []
        plain = True
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                if isinstance(v, Tup):
                    items.extend(v.items)
                else:
                    plain = False
                    items.append(elem_of(v) or U)
            else:
                items.append(self.ev(x, env))
        if plain:
            return Tup(items)
        out = None
        for i in items:
            out = join(out, i)
        return Seq(out)

    def ev_List(self, e, env):
        return self.ev_Tuple(e, env) if e.elts else Seq(None)

    def ev_Dict(self, e, env):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                r = self.ev(v, env)
                if isinstance(r, Rec):
                    out.update(r.fields)
                continue
            kk = self.ev(k, env)
            vv = self.ev(v, env)
            if isinstance(kk, Str):
                out[kk.s] = vv
        return Rec(out)

    def ev_Starred(self, e, env):
        return self.ev(e.value, env)

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env, e)
        return v

    def ev_Lambda(self, e, env):
        fn = Fn(e, env, env.func)
        self.callbacks.append(fn)
        return fn

    def ev_IfExp(self, e, env):
        c = self.decide(e.test, env)
        self.ev(e.test, env)
        if c is True:
            return self.ev(e.body, env)
        if c is False:
            return self.ev(e.orelse, env)
        return join(self.ev(e.body, env), self.ev(e.orelse, env))

    def ev_BoolOp(self, e, env):
        out = None
        for v in e.values:
            out = join(out, self.ev(v, env))
        return out

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return ONE
        if isinstance(v, N):
            return N(v.dim, v.zero, -v.lit if v.lit is not None and isinstance(e.op, ast.USub) else v.lit)
        return v if isinstance(v, (Obj,)) else U

    def ev_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env), env, e)

    def binop(self, op, a, b, env, node):
        if isinstance(a, Str) or isinstance(b, Str):
            if isinstance(op, ast.Add) and isinstance(a, Str) and isinstance(b, Str):
                return Str(a.s + b.s)
            return U
        if isinstance(op, ast.Add) and isinstance(a, (Tup, Seq)) and isinstance(b, (Tup, Seq)):
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            return Seq(join(elem_of(a), elem_of(b)))
        if isinstance(op, ast.Mult) and isinstance(a, (Tup, Seq)) and isinstance(b, N) and b.known and b.dim == NONE and not isinstance(b.lit, float):
            return Seq(elem_of(a))
        if isinstance(a, Obj) and a.kind == "qobj" or isinstance(b, Obj) and b.kind == "qobj":
            q, o = (a, b) if isinstance(a, Obj) else (b, a)
            d = num(q.fields.get("value", U))
            if isinstance(op, (ast.Mult, ast.Div)) and isinstance(o, N):
                return Obj(None, "qobj", {"value": self.binop(op, d if q is a else o, o if q is a else d, env, node)})
            return Obj(None, "qobj", {"value": U})
        x, y = num(a), num(b)
        if isinstance(op, (ast.Add, ast.Sub)):
            if x.lit is not None and y.lit is not None:
                return self.fold(op, x.lit, y.lit)
            return self.same("sum", env, node, x, y, "this adds or subtracts")
        if isinstance(op, (ast.Mult, ast.MatMult)):
            if x.lit is not None and y.lit is not None:
                return self.fold(op, x.lit, y.lit)
            if x.zero or y.zero:
                return ZERO
            return N(dmul(x.dim, y.dim)) if x.dim is not None and y.dim is not None else U
        if isinstance(op, (ast.Div, ast.FloorDiv)):
            if x.lit is not None and y.lit is not None and y.lit != 0:
                return self.fold(op, x.lit, y.lit)
            if x.zero:
                return ZERO
            if y.zero:
                return U
            return N(dmul(x.dim, y.dim, -1)) if x.dim is not None and y.dim is not None else U
        if isinstance(op, ast.Mod):
            return self.same("sum", env, node, x, y, "this takes the remainder of", literal_ok=True)
        if isinstance(op, ast.Pow):
            if x.lit is not None and y.lit is not None:
                return self.fold(op, x.lit, y.lit)
            if y.known:
                self.dimless(env, node, y, "exponent")
            if x.zero:
                return ZERO if y.lit else U
            if y.zero:
                return ONE
            if x.dim == NONE:
                return ONE
            if x.known and y.lit is not None and not isinstance(y.lit, complex):
                return N(dpow(x.dim, F(y.lit).limit_denominator(64)))
            if x.known and y.known and y.dim == NONE and x.lit is None and all(abs(q) < 20 for q in x.dim):
                return N(ODD)
            return U
        return U

    def fold(self, op, a, b):
        try:
            r = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b, ast.Pow: lambda: a**b}[type(op)]()
        except Exception:  # noqa: BLE001
            return ONE
        if isinstance(op, ast.Sub) and r == 0:
            return ZERO
        return ZERO if r == 0 else N(NONE, lit=r)

    def ev_Compare(self, e, env):
        left = self.ev(e.left, env)
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, env)
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) and isinstance(left, N) and isinstance(right, N):
                self.same("comparison", env, e, left, right, "this compares", literal_ok=True)
            left = right
        return ONE

    def comp(self, e, env, elts):
        inner = Env(env.func, env)
        inner.returns = env.returns
        for g in e.generators:
            it = self.ev(g.iter, inner)
            x = elem_of(it)
            self.assign(g.target, x if x is not None else U, inner, e)
            for c in g.ifs:
                self.ev(c, inner)
        return [self.ev(x, inner) for x in elts]

    def ev_ListComp(self, e, env):
        return Seq(self.comp(e, env, [e.elt])[0])

    ev_GeneratorExp = ev_ListComp
    ev_SetComp = ev_ListComp

    def ev_DictComp(self, e, env):
        self.comp(e, env, [e.key, e.value])
        return U

    def ev_Call(self, e, env):
        # super().__init__(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            args, kwargs = self.arguments(e, env)
            f = env.func
            while f.parent is not None:
                f = f.parent
            slf = env.get(f.params[0].name) if f.params else None
            if f.cls is not None and isinstance(slf, Obj) and slf.cls is not None:
                mro = self.p.mro(slf.cls)
                if f.cls in mro:
                    for k in mro[mro.index(f.cls) + 1:]:
                        if e.func.attr in k.methods:
                            return self.call_func(k.methods[e.func.attr], args, kwargs, env, e, slf)
            return U
        fv = self.ev(e.func, env)
        args, kwargs = self.arguments(e, env)
        if isinstance(fv, Ref) and isinstance(fv.target, Ext) and fv.target.name in ("typing.cast", "typing_extensions.cast") and len(args) == 2:
            return args[1]
        return self.apply(fv, args, kwargs, env, e)

    def arguments(self, e, env):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(("*", self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, Rec):
                    kwargs.update(v.fields)
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def ext(self, name: str, args, kwargs, env, node):
        parts = name.split(".")
        last = parts[-1]
        top = parts[0]
        a0 = plain(args[0]) if args else None
        if top == "qutip":
            return self.qutip(last, args, kwargs, env, node)
        if last == "SimulationConfig":
            return Obj(None, "config", dict(kwargs))
        if top == "hamiltonian_generator" or "hamiltonian_generator" in parts:
            return self.native(last, args, kwargs, env, node)
        if top == "matplotlib":
            if last in ("subplots", "subplot"):
                return Tup([U, self.new_ax()])
            return U
        if top == "builtins":
            return self.builtin(last, args, kwargs, env, node)
        if top in ("numpy", "scipy", "math", "cmath"):
            return self.numeric(parts, last, args, kwargs, env, node)
        if last in ("deepcopy", "copy") and args:
            return a0
        if top == "functools" and last == "reduce" and len(args) >= 2:
            e = elem_of(plain(args[1])) or U
            return self.apply(args[0], [e, e], {}, env, node)
        if top == "itertools":
            vals = [elem_of(plain(a)) or U for a in args]
            if last in ("product", "zip_longest"):
                return Seq(Tup(vals))
            if last == "accumulate" and args:
                return Seq(vals[0])
            return U
        for a in args:
            if isinstance(a, Fn) and not a.called:
                self.call_fn(a, [U] * 12, {}, env, node)
        return U

    def builtin(self, last, args, kwargs, env, node):
        a0 = plain(args[0]) if args else None
        if last in ("len", "isinstance", "bool", "hash", "id", "any", "all"):
            return ONE
        if last == "range":
            return ONE
        if last in ("float", "complex", "abs", "round", "int"):
            n = num(a0) if a0 is not None else U
            if last in ("float", "int") and n.lit is not None:
                return n
            return N(n.dim, n.zero)
        if last in ("list", "tuple", "sorted", "reversed", "iter", "set"):
            if a0 is None:
                return Seq(None)
            return a0 if isinstance(a0, (N, Tup)) and last in ("list", "tuple", "iter") else (Seq(elem_of(a0)) if not isinstance(a0, N) else a0)
        if last == "next":
            return elem_of(a0) if a0 is not None and elem_of(a0) is not None else U
        if last == "enumerate":
            e = elem_of(a0)
            return Seq(Tup([ONE, e if e is not None else U]))
        if last == "zip":
            if len(args) == 1 and isinstance(args[0], tuple):
                return Seq(U)
            return Seq(Tup([(elem_of(plain(a)) or U) if not isinstance(a, tuple) else U for a in args]))
        if last == "map" and len(args) >= 2:
            return Seq(self.apply(args[0], [elem_of(plain(a)) or U for a in args[1:]], {}, env, node))
        if last == "sum":
            e = elem_of(a0)
            return e if isinstance(e, N) else U
        if last in ("min", "max"):
            vals = [num(plain(a)) for a in args]
            out = vals[0] if vals else U
            for v in vals[1:]:
                out = self.same("comparison", env, node, out, v, "this compares", literal_ok=True)
            return out
        if last == "dict":
            return Rec({**(a0.fields if isinstance(a0, Rec) else {}), **{k: v for k, v in kwargs.items() if k != "**"}})
        if last == "pow" and len(args) >= 2:
            return self.binop(ast.Pow(), args[0], args[1], env, node)
        return U

    def numeric(self, parts, last, args, kwargs, env, node):
        a0 = arg(args, kwargs, 0, "a", "x", "arr", "array", "m", "values", "ary", "object", "start")
        a1 = arg(args, kwargs, 1, "b", "stop", "x2")
        n0 = num(a0) if a0 is not None else U
        n1 = num(a1) if a1 is not None else U
        if "fft" in parts:
            if last.endswith("freq"):
                d = arg(args, kwargs, 1, "d")
                return N(dpow(num(d).dim, -1)) if d is not None and num(d).dim is not None else ONE
            return N(n0.dim, n0.zero)
        if "testing" in parts or last in COMPARES:
            if last in COMPARES and len(args) >= 2:
                self.same("comparison", env, node, n0, n1, "this compares", literal_ok=True)
            return ONE
        if last in ("curve_fit",) and len(args) >= 3:
            self.same("comparison", env, node, num(self.apply(args[0], [plain(args[1])] + [U] * 10, {}, env, node)), num(plain(args[2])), "this fits", literal_ok=True)
            return Tup([U, U])
        if last == "quad" and args:
            x = num(join(a1, arg(args, kwargs, 2, "b")))
            a, b = num(a1) if a1 is not None else U, num(arg(args, kwargs, 2, "b") or U)
            x = self.same("comparison", env, node, a, b, "this integrates between", literal_ok=True)
            y = num(self.apply(args[0], [N(x.dim, x.zero)] + [U] * 6, {}, env, node))
            r = N(dmul(x.dim, y.dim)) if x.known and y.known else U
            return Tup([r, r, U, U])
        if last in ("fsolve", "root", "minimize", "least_squares", "brentq", "minimize_scalar", "newton") and args:
            self.apply(args[0], [a1 if a1 is not None else U] + [U] * 6, {}, env, node)
            if last == "fsolve":
                return Tup([a1 or U, U, U, U]) if "full_output" in kwargs else (a1 or U)
            return U
        if last in DIMLESS_FN:
            if n0.lit is not None:
                return ONE
            self.dimless(env, node, n0, f"argument of {last}")
            return ONE
        if last == "eval_hermite":
            self.dimless(env, node, n1, "argument of eval_hermite")
            return ONE
        if last in ("sqrt", "csqrt", "emath"):
            if n0.lit is not None and not isinstance(n0.lit, complex) and n0.lit > 0:
                return N(NONE, lit=n0.lit**0.5)
            return ZERO if n0.zero else N(dpow(n0.dim, F(1, 2)))
        if last == "cbrt":
            return ZERO if n0.zero else N(dpow(n0.dim, F(1, 3)))
        if last == "square":
            return ZERO if n0.zero else N(dpow(n0.dim, 2))
        if last in ("reciprocal", "inv", "pinv"):
            return N(dpow(n0.dim, -1)) if n0.known else U
        if last in ("power", "float_power"):
            return self.binop(ast.Pow(), n0, n1, env, node)
        if last in ("divide", "true_divide", "floor_divide"):
            return self.binop(ast.Div(), n0, n1, env, node)
        if last in SAME:
            if last in ("add", "subtract"):
                return self.binop(ast.Add(), n0, n1, env, node)
            return self.same("comparison", env, node, n0, n1, "this compares", literal_ok=True)
        if last in ("arctan2", "atan2"):
            self.same("comparison", env, node, n0, n1, "this takes the angle between", literal_ok=True)
            return ONE
        if last == "hypot":
            return self.same("sum", env, node, n0, n1, "this adds")
        if last == "where":
            if len(args) < 3:
                return ONE
            x, y = plain(args[1]), plain(args[2])
            return self.same("choice", env, node, num(x), num(y), "this chooses between", literal_ok=True)
        if last == "clip":
            r = n0
            for i, nm in ((1, "a_min"), (2, "a_max")):
                b = arg(args, kwargs, i, nm)
                if b is not None and not isinstance(b, NoneV):
                    self.same("comparison", env, node, n0, num(b), "this limits", literal_ok=True)
            return N(r.dim, r.zero)
        if last in ("linspace", "geomspace", "logspace"):
            return self.same("sum", env, node, n0, n1, "this interpolates between", literal_ok=True)
        if last == "arange":
            vals = [num(plain(a)) for a in args if not isinstance(plain(a), NoneV)]
            out = vals[0] if vals else U
            for v in vals[1:]:
                out = self.same("sum", env, node, out, v, "this spans", literal_ok=True)
            return ONE if out.zero else N(out.dim)
        if last in ("zeros", "empty", "zeros_like", "empty_like"):
            return ZERO
        if last in ("full", "full_like"):
            v = num(arg(args, kwargs, 1, "fill_value") or U)
            return N(v.dim, v.zero)
        if last == "meshgrid":
            if any(isinstance(a, tuple) for a in args):
                return Seq(N(num(a0).dim, num(a0).zero)) if len(args) == 1 else U
            return Tup([N(num(a).dim, num(a).zero) for a in args])
        if last == "einsum":
            out = NONE
            for a in args[1:]:
                if isinstance(a, tuple):
                    return U
                n = num(a)
                if n.zero:
                    return ZERO
                out = dmul(out, n.dim)
            return N(out)
        if last in PRODUCT:
            if n0.zero or n1.zero:
                return ZERO
            return N(dmul(n0.dim, n1.dim))
        if last in ("trapz", "trapezoid", "simpson", "simps"):
            return N(dmul(n0.dim, n1.dim)) if a1 is not None else N(n0.dim)
        if last == "gradient":
            return N(dmul(n0.dim, n1.dim, -1)) if a1 is not None else N(n0.dim)
        if last in ("interp",) and len(args) >= 3:
            self.same("comparison", env, node, n0, n1, "this looks up", literal_ok=True)
            f = num(plain(args[2]))
            return N(f.dim, f.zero)
        if last in ("eigh", "eig"):
            return Tup([N(n0.dim), ONE])
        if last in ("eigvalsh", "eigvals"):
            return N(n0.dim)
        if last == "svd":
            return Tup([ONE, N(n0.dim), ONE])
        if last == "expm":
            self.dimless(env, node, n0, "argument of expm")
            return ONE
        if last in ("det", "prod"):
            return ONE if n0.known and n0.dim == NONE else U
        if last in ("solve", "lstsq"):
            return N(dmul(n1.dim, n0.dim, -1)) if last == "solve" else U
        if last == "average":
            return N(n0.dim, n0.zero)
        if last in ("eye", "identity", "ones", "ones_like"):
            return N(NONE, lit=1)
        if last in COUNTS:
            return ONE
        if last in PRESERVE:
            return N(n0.dim, n0.zero, n0.lit if last in ("array", "asarray") else None)
        if last in ("float64", "complex128", "float32", "int_", "int64", "int32"):
            return N(n0.dim, n0.zero)
        if last == "apply_along_axis":
            fn = args[0] if args else kwargs.get("func1d")
            x = arg(args, kwargs, 2, "arr")
            if fn is not None:
                return N(num(self.apply(fn, [x if x is not None else U], {}, env, node)).dim)
            return U
        if last in ("hermite",):
            return U
        for a in [*args, *kwargs.values()]:
            if isinstance(a, Fn) and not a.called:
                self.call_fn(a, [U] * 12, {}, env, node)
        return U

    def method(self, v, name, args, kwargs, env, node):
        if isinstance(v, Ax):
            return self.ax_method(v, name, args, kwargs, env, node)
        if isinstance(v, Obj):
            return v if v.kind == "qobj" else U
        if isinstance(v, Rec):
            if name == "get" and args and isinstance(args[0], Str):
                r = v.fields.get(args[0].s, U)
                return join(r, args[1]) if len(args) > 1 else r
            if name in ("items", "keys", "values"):
                return U
            if name == "copy":
                return Rec(dict(v.fields))
            if name == "update" and args and isinstance(args[0], Rec):
                v.fields.update(args[0].fields)
            return U
        if isinstance(v, (Tup, Seq)):
            if name in ("append", "extend", "insert") and args:
                x = args[-1]
                x = x if name != "extend" else (elem_of(plain(x)) if not isinstance(x, tuple) else None)
                if isinstance(v, Seq):
                    v.elem = join(v.elem, x)
                elif len(v.items) < 8:
                    v.items = [*v.items, x]
                return NONEV
            if name in ("index", "count"):
                return ONE
            if name in ("pop", "copy"):
                return (elem_of(v) or U) if name == "pop" else v
            return U
        if isinstance(v, Str):
            return U
        if isinstance(v, N) and v.dim is not None:
            if name in METHOD_PRESERVE:
                return N(v.dim, v.zero)
            if name in ("dot",):
                n = num(plain(args[0])) if args else U
                return ZERO if v.zero else N(dmul(v.dim, n.dim))
            if name in ("argmax", "argmin", "argsort", "any", "all", "nonzero"):
                return ONE
            if name == "prod":
                return ONE if v.dim == NONE else U
            return U
        for a in [*args, *kwargs.values()]:
            if isinstance(a, Fn) and not a.called:
                self.call_fn(a, [U] * 12, {}, env, node)
        return U

    def step(self, env, node, h: N, ops: N | None, t: N):
        """Evolution by exp(-i h t) and by white noise of the collapse operators."""
        if h.known and t.known and h.lit is None:
            self.obligation("evolution", env, node)
            if dmul(h.dim, t.dim) != NONE:
                self.report("evolution", env, node, f"hamiltonian {show(dmul(h.dim, t.dim))}", f"the product of the hamiltonian and the time passed to the solver has the dimension [{show(dmul(h.dim, t.dim))}]")
        if ops is not None and ops.known and t.known:
            self.obligation("evolution", env, node)
            d = dmul(dpow(ops.dim, 2), t.dim)
            if d != NONE:
                self.report("evolution", env, node, f"operators {show(d)}", f"the product of the squared collapse operators and the time passed to the solver has the dimension [{show(d)}]")

    def qutip(self, last, args, kwargs, env, node):
        if last == "Qobj":
            return Obj(None, "qobj", {"value": num(plain(args[0])) if args else U})
        if last in ("sesolve", "mesolve", "ssesolve", "smesolve", "mcsolve"):
            h = arg(args, kwargs, 0, "H")
            t = arg(args, kwargs, 2, "tlist")
            ops = kwargs.get("sc_ops", kwargs.get("c_ops"))
            if ops is None and last != "sesolve" and len(args) > 3:
                ops = plain(args[3])
            opt = kwargs.get("options")
            self.step(env, node, qval(h) if h is not None else U, qval(ops) if ops is not None else None, num(t) if t is not None else U)
            if isinstance(opt, Rec) and "dt" in opt.fields and t is not None:
                self.same("comparison", env, node, num(opt.fields["dt"]), num(t), "this mixes in one solver", literal_ok=True)
            return Obj(None, "result", {})
        return U

    def sse(self, name, args, kwargs, env, node):
        h = arg(args, kwargs, 1, "hamiltonian", "hamiltonian_diagonal")
        ops = arg(args, kwargs, 2 if name == "solve_sse" else 3, "operators", "operators_diagonals")
        cfg = arg(args, kwargs, 3 if name == "solve_sse" else 5, "config")
        if isinstance(cfg, Obj) and "dt" in cfg.fields:
            self.step(env, node, qval(h) if h is not None else U, qval(ops) if ops is not None else None, num(cfg.fields["dt"]))
        return ONE

    def native(self, last, args, kwargs, env, node):
        names = self.stub_params(last)
        for i, a in enumerate(args):
            if i < len(names):
                kwargs = {**kwargs, names[i]: a}
        for k, v in kwargs.items():
            if k in PARAMS:
                n = num(v)
                if n.known and n.lit is None:
                    self.obligation("parameter", env, node)
                    if n.dim != PARAMS[k]:
                        self.report("parameter", env, node, f"{last}.{k} {show(n.dim)}", f"`{k}` of the native routine {last} is a quantity of dimension [{show(PARAMS[k])}] but is given one of dimension [{show(n.dim)}]")
        d = NATIVE_RESULT.get(last)
        return N(d) if d is not None else U

    def stub_params(self, name):
        if not hasattr(self, "_stub"):
            self._stub = {}
            for f in sorted(self.p.root.rglob("hamiltonian_generator*.pyi")):
                try:
                    tree = ast.parse(f.read_text())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.FunctionDef):
                        self._stub[n.name] = [a.arg for a in [*n.args.posonlyargs, *n.args.args]]
        return self._stub.get(name, [])

    def ax_method(self, ax: Ax, name, args, kwargs, env, node):
        if name in ("set_xlabel", "set_ylabel"):
            v = args[0] if args else kwargs.get("xlabel", kwargs.get("ylabel"))
            ax.labels[name[4]] = v.s if isinstance(v, Str) else ""
            return U
        if name in ("plot", "errorbar", "scatter", "pcolormesh", "fill_between", "bar", "semilogy", "semilogx", "loglog", "step", "contour", "contourf"):
            vals = []
            for a in args:
                if isinstance(a, tuple):
                    if isinstance(a[1], Tup):
                        vals.extend(a[1].items)
                    else:
                        e = elem_of(a[1]) or U
                        vals.extend([e, e])
                elif not isinstance(a, Str):
                    vals.append(a)
            x = y = None
            if "x" in kwargs:
                x = kwargs["x"]
            if "y" in kwargs:
                y = kwargs["y"]
            if name in ("pcolormesh", "contour", "contourf"):
                if len(vals) >= 3:
                    x, y = vals[0], vals[1]
            elif len(vals) >= 2:
                x, y = vals[0], vals[1]
            elif len(vals) == 1 and name == "plot":
                y = vals[0]
            if x is not None:
                ax.plots.append(("x", num(x), env.func.short))
            if y is not None:
                ax.plots.append(("y", num(y), env.func.short))
            return Obj(None, "artist") if name != "plot" else Seq(Obj(None, "artist"))
        if name == "hist":
            if args:
                ax.plots.append(("x", num(plain(args[0])), env.func.short))
            return U
        if name in ("twinx", "twiny"):
            return self.new_ax()
        return U

    def check_axes(self, f: Func, ax: Ax):
        for which in ("x", "y"):
            label = ax.labels.get(which)
            if not label:
                continue
            m = UNIT_RE.match(label)
            unit = UNITS.get(m.group(1).strip()) if m else None
            if m is None and (c := COORD_RE.match(label)):
                unit = WAVE if c.group(1) == "k" else LEN
            if unit is None:
                continue
            for w, n, where in ax.plots:
                if w != which or not n.known:
                    continue
                k = ("axis", f.qual, which)
                if k not in self.seen:
                    self.seen[k] = True
                    self.res.count("axis unit")
                if n.dim != unit:
                    self.res.add("axis unit", f.short, f"{which} {show(n.dim)}", f"{f.module.rel}:{f.node.lineno}", f"the {which} axis is labelled `{label}` [{show(unit)}] but a quantity of dimension [{show(n.dim)}] is drawn against it (in {where})")


class dict_no_store(dict):
    """A memo that answers nothing and remembers nothing."""

    def __init__(self, base):
        super().__init__()
        self.base = base

    def __contains__(self, k):
        return isinstance(k, tuple) and k and k[0] == "self" and k in self.base

    def __getitem__(self, k):
        return self.base[k]

    def __setitem__(self, k, v):
        if isinstance(k, tuple) and k and k[0] == "self":
            self.base[k] = v


class Fake:
    """A module's top level, seen as a function."""

    def __init__(self, func, module):
        self.module, self.node, self.children, self.parent, self.cls = module, func.node, {}, None, None
        self.qual, self.short, self.params, self.name = module.name, module.name.split(".", 1)[-1], [], module.name


def arg(args, kwargs, i, *names):
    for n in names:
        if n in kwargs:
            return kwargs[n]
    for j, a in enumerate(args[: i + 1]):
        if isinstance(a, tuple) and a and a[0] == "*":
            return elem_of(a[1]) or U
    return args[i] if i < len(args) else None


def plain(v):
    return (elem_of(v[1]) or U) if isinstance(v, tuple) and v and v[0] == "*" else v


def qval(v) -> N:
    if isinstance(v, Obj) and v.kind == "qobj":
        return num(v.fields.get("value", U))
    if isinstance(v, (Tup, Seq)):
        e = elem_of(v)
        return U if e is None else qval(e)
    return num(v)


COORD_RE = re.compile(r"^([kx])(?:\d|\?)? axis$")
UNIT_RE = re.compile(r"^[^/]*/\s*(.+?)\s*$")


# ------------------------------------------------------------------ the check
def analyse(project: Project, tier: str) -> Result:
    res = Result()
    d = Dims(project, res)
    run_all(d)
    res.floors = {"functions interpreted": 500, "sum": 90, "parameter": 70, "argument": 50, "axis unit": 40, "quantity": 25}
    res.explanation = (
        "Every function is executed over physical dimensions (exponents of mass, length, time, temperature and charge) from what its signature declares. "
        "Sums, comparisons, element stores, arguments of exponential and trigonometric functions and exponents, arguments of functions that take a named quantity, "
        "values drawn against an axis labelled with a unit, times and generators handed to the solvers, and the results of functions that produce a named quantity are obligations."
    )
    res.assumptions = [
        "a dimensionless (relative) value may be used for any potential, hamiltonian or operator; literal arrays stand for values in the right unit",
        "values of unknown origin (callbacks, files, untyped records) have no dimension and are not judged",
        "pure factors (2, pi, the number of points) are not dimensions",
    ]
    return res


def run_all(d: Dims) -> None:
    project, res = d.p, d.res
    for f in project.funcs:
        if f.parent is not None or f.module.name.endswith("conftest") or ".tests" in f.module.name:
            continue
        if f.is_abstract or (f.cls is not None and project.is_protocol(f.cls)):
            continue
        r = d.run_root(f)
        res.count("functions interpreted")
        check_result(d, f, r)


def check_result(d: Dims, f: Func, r) -> None:
    env = Env(f)
    c = d.contract(f)
    if c is not None:
        compare(d, env, f, r, c, "")
    if f.cls is not None and f.is_property and f.name in ATTRS:
        compare(d, env, f, r, ATTRS[f.name], "")


def compare(d: Dims, env: Env, f: Func, r, c, path: str) -> None:
    if isinstance(c, dict):
        if isinstance(r, (Tup, Seq)):
            r = elem_of(r)
        if isinstance(r, Rec):
            for k, x in c.items():
                if k in r.fields:
                    compare(d, env, f, r.fields[k], x, f"{path}[{k!r}]")
        return
    if c and isinstance(c[0], tuple):
        if isinstance(r, Tup) and len(r.items) == len(c):
            for i, (x, y) in enumerate(zip(r.items, c)):
                compare(d, env, f, x, y, f"{path}[{i}]")
        return
    n = num(r)
    if not n.known:
        return
    d.obligation("quantity" + path, env, f.node)
    if n.dim != c:
        d.res.add("quantity", f.short, f"{path} {show(n.dim)}", f.loc, f"the result{path} should be a quantity of dimension [{show(c)}] but has the dimension [{show(n.dim)}]")
