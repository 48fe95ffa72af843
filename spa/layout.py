"""Findings of the layout type inference (:mod:`spa.infer`), split by property.

One abstract execution of every function from its declared signature decides several properties:

* C02  ``layout``, ``declared``          data is laid out in the basis it is tagged with
* C03  ``pairing``, ``source``           axes combined, contracted or converted index the same basis
* C04  ``bra-ket``, ``phase``            conjugation on the bra side
* C17  ``incomplete``, ``undeclared``    records carry the fields their type declares
       ``aligned``, ``layout``           fields of one record are selected and ordered together
* C18  ``drops-imaginary``               complex values reach only complex storage
"""

from __future__ import annotations

from . import terms as T
from .infer import BV, NO_CHARGE, U, Arr, Axis, Frame, Interp, Leaf, Num, Rec, Star, State, Tup, Violation
from .model import Project
from .native import interface

RULES = {
    # one mistake usually breaks both: data combined or reshaped in the wrong basis is also tagged wrongly
    "C02": ("layout", "declared", "declared-class", "source", "pairing", "flat"),
    "C03": ("pairing", "source", "diagonal", "layout", "declared"),
    "C04": ("bra-ket", "phase"),
    "C17": ("incomplete", "undeclared", "aligned", "layout", "flat"),
    "C19": ("representation", "diagonal", "pairing", "source", "layout", "declared"),
    "C18": ("drops-imaginary", "real-part"),
}


def run(project: Project) -> Interp:
    """Type every top-level function of the package."""
    from .model import AnalysisBroken

    interp = Interp(project)
    interp.native = interface(project)
    crashed = []
    typed = 0
    for f in project.funcs:
        if f.parent is not None:
            continue
        try:
            interp.run_top(f)
            typed += 1
        except Exception as e:  # noqa: BLE001
            crashed.append(f"{f.qual}: {type(e).__name__}: {e}")
    interp.typed = typed
    interp.crashed = crashed
    if len(crashed) > 40:
        raise AnalysisBroken(f"{len(crashed)} functions could not be typed, e.g. {crashed[0]}")
    return interp


# ---------------------------------------------------------------- contracts of the basis changes themselves
def body(interp: Interp, f, env: dict):
    """Type the body of one function for the given arguments (whatever is assumed about calls of it elsewhere)."""
    interp.ctx = T.Ctx()
    interp.memo = {}
    interp.budget = 400
    interp.reported = set()
    full = {}
    for p in f.params:
        full[p.name] = env.get(p.name, interp.const_default(f, p) if p.has_default else U)
    frame = Frame(f, (), None)
    old, interp.frame = interp.frame, frame
    interp.callstack.append(f.qual)
    try:
        interp.exec_block(f.node.body, [State(full)])
    finally:
        interp.callstack.pop()
        interp.frame = old
    return interp.join(frame.returns) if frame.returns else U


def tv(name: str):
    return ("tv", name, False)


def axis_(label, var):
    return Axis((Leaf(label, var),))


class Contract:
    """What a conversion must do to the type of its argument."""

    def __init__(self, name: str) -> None:
        self.name = name
        self.decided = 0
        self.problems: list[tuple] = []


def conversion_contracts(interp: Interp) -> Contract:
    """convert_dual_vector conjugates, convert_matrix converts each side on its own axis with the right transformation."""
    p = interp.p
    out = Contract("conversions")
    find = {f.name: f for f in p.funcs if f.parent is None and f.cls is None and f.module.rel.endswith("basis/basis_like.py")}
    lead, a, b, c, d = tv("L"), tv("A"), tv("B"), tv("C"), tv("D")
    f = find.get("convert_dual_vector")
    if f is not None and len(f.params) >= 4:
        names = [x.name for x in f.params]
        for pos, num, after in ((0, 0, 0), (1, 1, 0), (1, -1, 0), (0, 0, 1), (1, 1, 1)):
            ax = [axis_(lead, 0)] * pos + [axis_(a, -1)] + [axis_(lead, 0)] * after
            arg = Arr(tuple(ax), frozenset({("dual", -1)}), "c")
            v = body(interp, f, {names[0]: arg, names[1]: BV(a), names[2]: BV(b), names[3]: Num(T.size_int(abs(num)), NO_CHARGE, "i", ("int", num))})
            judge(out, interp, f, v, [*([lead] * pos), b, *([lead] * after)], [*([0] * pos), -1, *([0] * after)], -1, f"axis={num}")
    f = find.get("convert_matrix")
    if f is not None and len(f.params) >= 6:
        names = [x.name for x in f.params]
        for pos, after in ((0, 0), (1, 0), (0, 1)):
            ax = [axis_(lead, 0)] * pos + [axis_(a, 1), axis_(c, -1)] + [axis_(lead, 0)] * after
            axes = Tup((interp.const(pos), interp.const(pos + 1)))
            v = body(interp, f, {names[0]: Arr(tuple(ax), NO_CHARGE, "c"), names[1]: BV(a), names[2]: BV(b), names[3]: BV(c), names[4]: BV(d), names[5]: axes})
            judge(out, interp, f, v, [*([lead] * pos), b, d, *([lead] * after)], [*([0] * pos), 1, -1, *([0] * after)], 0, f"axes={(pos, pos + 1)}")
    return out


def explicit_contracts(interp: Interp) -> Contract:
    """A basis given by explicit states projects with their conjugates and expands with the states themselves."""
    p = interp.p
    out = Contract("explicit")
    for c in p.classes:
        if c.name != "ExplicitBasis":
            continue
        me = ("self", c)
        for meth, inward in (("__from_state_basis__", False), ("__into_state_basis__", True)):
            f = p.find_method(c, meth)
            if f is None or len(f.params) < 3:
                continue
            interp.ctx = T.Ctx()
            interp.memo = {}
            interp.budget = 400
            interp.frame = Frame(f, (), None)
            rec = interp.self_attr(me, "vectors", f.node)
            interp.frame = None
            basis = rec.get("basis") if isinstance(rec, Rec) else None
            if not isinstance(basis, BV):
                continue
            index, space = T.comp(basis.t, 0), T.comp(basis.t, 1)
            for rank, pos, num in ((1, 0, -1), (1, 0, 0), (2, 0, 0), (2, 1, 1), (2, 1, -1), (3, 1, 1), (3, 1, -2)):
                src, dst = (index, space) if inward else (space, index)
                labels = [tv(f"L{i}") for i in range(rank)]
                ax = [axis_(x, 0) for x in labels]
                ax[pos] = axis_(src, 0 if inward else 1)
                ch = frozenset({("self.vectors", -1)}) if inward else frozenset({("vector", 1)})
                v = body(interp, f, {f.params[0].name: me, f.params[1].name: Arr(tuple(ax), ch, "c"), f.params[2].name: Num(T.size_int(abs(num)), NO_CHARGE, "i", ("int", num))})
                want = list(labels)
                want[pos] = dst
                judge(out, interp, f, v, want, None, 0, f"axis={num} of {rank}")
    return out


def judge(out: Contract, interp: Interp, f, v, labels, vars_, charge, case: str) -> None:
    if not isinstance(v, Arr) or v.axes is None or any(isinstance(x, Star) or x.leaves is None for x in v.axes):
        return
    out.decided += 1
    got = [T.tup(x.label for x in ax.leaves) if len(ax.leaves) != 1 else ax.leaves[0].label for ax in v.axes]
    if len(got) != len(labels) or any(interp.ctx.cmp(x, y) == T.NE for x, y in zip(got, labels)):
        out.problems.append(("contract", f, f"with {case} the result runs over {interp.show_list(got)} instead of {interp.show_list(labels)}"))
        return
    if vars_ is not None:
        for ax, w in zip(v.axes, vars_):
            for x in ax.leaves:
                if x.var is not None and w and x.var == -w:
                    out.problems.append(("bra-ket", f, f"with {case} the {'bra' if w < 0 else 'ket'} index over {T.show(x.label)} comes back as a {'bra' if x.var < 0 else 'ket'}"))
    if v.ch is not None and sum(k for _, k in v.ch) != charge:
        out.problems.append(("phase", f, f"with {case} the result carries the phase of the input (or of the basis states) to the power {sum(k for _, k in v.ch)} instead of {charge}"))


def collect(interp: Interp, rules: tuple) -> list[tuple[str, str, str, str, str]]:
    """(rule, construct, what, loc, message), one per violated construct."""
    own: dict = {}
    via: dict = {}
    for v in interp.violations:
        if v.rule not in rules:
            continue
        site = (v.rule, v.func.qual, v.snippet)
        if not v.chain:
            own.setdefault(site, []).append(v)
        else:
            via.setdefault(site, []).append(v)
    out = []
    for site, vs in own.items():
        for m in dict.fromkeys(v.message for v in vs):
            v = next(x for x in vs if x.message == m)
            out.append((v.rule, v.func.short, m, loc(v), f"{m}: {v.snippet[:110]}"))
    for site, vs in via.items():
        if site in own:
            continue
        # the callee is consistent on its own: the outermost caller brings the parts together wrongly
        for top in dict.fromkeys(v.chain[0][0].short for v in vs):
            v = min((x for x in vs if x.chain[0][0].short == top), key=lambda x: len(x.chain))
            path = " -> ".join([*(c[0].short for c in v.chain), v.func.short])
            out.append((v.rule, top, f"{v.func.short}: {v.message}", loc(v), f"{v.message}: {v.snippet[:90]} (reached through {path})"))
    return out


def loc(v: Violation) -> str:
    return f"{v.func.module.rel}:{getattr(v.node, 'lineno', 0)}"


def fill(res, interp: Interp, prop: str) -> None:
    for rule, construct, what, where, message in collect(interp, RULES[prop]):
        res.add(rule, construct, what, where, message)


def counted_axes(res, project: Project, rules: tuple[str, ...]) -> None:
    """The findings about numbers of axes."""
    from .ranks import Ranks

    a = Ranks(project)
    a.run()
    res.counts["fields_with_counted_axes"] = a.decided
    res.counts["operations_with_counted_axes"] = a.operations
    for rule, f, node, message in a.found:
        if rule in rules:
            res.add(rule, f.short, message, f"{f.module.rel}:{getattr(node, 'lineno', 0)}", message)


ASSUMPTIONS = [
    "arguments agree with the signatures' record types: an argument's data is laid out in the basis it carries, and arguments declared with one type variable are in one basis",
    "numpy's reshape, transpose, einsum, tensordot, matmul, reductions and indexing behave as documented",
    "a value the inference cannot follow (callbacks, scipy results, lists of arrays) is unknown and raises nothing",
]


def analyse_c02(project: Project, tier: str):
    from .report import Result

    res = Result()
    interp = run(project)
    s = interp.stats
    res.counts = {
        "functions_typed": interp.typed,
        "functions_not_typed": len(interp.crashed),
        "reshapes_decided": s.get("reshapes decided", 0),
        "results_decided": s.get("results decided", 0),
        "axis_selections_decided": s.get("axis selections decided", 0),
        "arguments_decided": s.get("arguments decided", 0),
    }
    res.floors = {"functions_typed": 500, "reshapes_decided": 60, "results_decided": 60}
    fill(res, interp, "C02")
    counted_axes(res, project, ("flat", "returned-axes"))
    samples(res, interp, ("results decided", "reshapes decided"))
    res.explanation = (
        "Every function is executed abstractly from its declared signature with arrays carrying, per axis, the ordered list of basis factors they run over "
        "(symbolic sizes, any number of factors). A reshape must cut that list at factor boundaries in order; a record must be tagged with exactly the list its data runs over; "
        "a result's tag must be the basis the signature declares. Calls are followed, so a record handed to a helper is checked inside it as well."
    )
    res.assumptions = ASSUMPTIONS
    return res


def analyse_c03(project: Project, tier: str):
    from .report import Result

    res = Result()
    interp = run(project)
    s = interp.stats
    res.counts = {
        "functions_typed": interp.typed,
        "functions_not_typed": len(interp.crashed),
        "axis_pairs_decided": s.get("axis pairs decided", 0),
        "basis_changes_decided": s.get("conversions decided", 0),
    }
    res.floors = {"functions_typed": 500, "axis_pairs_decided": 20, "basis_changes_decided": 8}
    fill(res, interp, "C03")
    samples(res, interp, ("axis pairs decided", "conversions decided"))
    res.explanation = (
        "The same typed execution decides, for every elementwise combination, einsum, tensordot and matrix product whose operands' axes are known, that paired axes run over the same "
        "factors (arguments declared with different type variables are different bases), and for every basis change that the data runs over the basis it is converted from."
    )
    res.assumptions = ASSUMPTIONS
    return res


def analyse_c04(project: Project, tier: str):
    from .report import Result

    res = Result()
    interp = run(project)
    s = interp.stats
    res.counts = {
        "functions_typed": interp.typed,
        "functions_not_typed": len(interp.crashed),
        "phases_decided": s.get("phases decided", 0),
        "contraction_directions_decided": s.get("contraction directions decided", 0),
        "conversion_directions_decided": s.get("conversion directions decided", 0),
        "conversion_contracts_decided": 0,
    }
    contracts(res, interp, conversion_contracts, ("bra-ket", "phase", "contract"))
    contracts(res, interp, explicit_contracts, ("bra-ket", "phase"))
    res.floors = {"functions_typed": 500, "phases_decided": 20, "conversion_directions_decided": 8}
    fill(res, interp, "C04")
    samples(res, interp, ("phases decided", "contraction directions decided", "conversion directions decided"))
    res.explanation = (
        "The same typed execution carries, for every array, the power with which a global phase of each input state enters it (conjugation negates it, products add it), and for every axis "
        "whether it is a ket or a bra index. Results must carry the power their record type requires (probabilities and expectation values 0, states +1, dual vectors -1); a bra and a ket index "
        "may not be identified; ket indices are converted with the transformation and bra indices with its conjugate."
    )
    res.assumptions = ASSUMPTIONS
    return res


def analyse_c17(project: Project, tier: str):
    from .report import Result

    res = Result()
    interp = run(project)
    s = interp.stats
    res.counts = {
        "functions_typed": interp.typed,
        "functions_not_typed": len(interp.crashed),
        "records_decided": s.get("records complete", 0),
        "results_decided": s.get("results decided", 0),
        "field_orders_decided": s.get("field orders decided", 0),
    }
    res.floors = {"functions_typed": 500, "records_decided": 300, "results_decided": 60}
    fill(res, interp, "C17")
    samples(res, interp, ("records complete", "results decided"))
    res.explanation = (
        "The same typed execution follows every record: at each return, yield, annotated assignment and call that hands a record over, it must hold every required key of the record type declared there "
        "(deleted, merged and updated keys are followed) and a literal may hold no other. Each field's array must run over the list the record's basis declares, and selections, sorts, reversals and "
        "loop indices applied to one field must be the ones applied to the others (one list in two orders may not be combined or stored together)."
    )
    res.assumptions = ASSUMPTIONS
    return res


def analyse_c18(project: Project, tier: str):
    from .report import Result

    res = Result()
    interp = run(project)
    s = interp.stats
    res.counts = {
        "functions_typed": interp.typed,
        "functions_not_typed": len(interp.crashed),
        "element_kinds_decided": s.get("element kinds decided", 0),
        "record_kinds_decided": s.get("record kinds decided", 0),
    }
    res.floors = {"functions_typed": 500, "element_kinds_decided": 40, "record_kinds_decided": 100}
    fill(res, interp, "C18")
    samples(res, interp, ("element kinds decided", "record kinds decided"))
    res.explanation = (
        "The same typed execution carries the element kind of every array (complex, real, real or complex, the real part of complex values, the modulus of complex values). Each element assignment, "
        "cast, dtype argument and scalar conversion whose source is (or may be) complex must have complex storage, and each state, operator, kernel, overlap and array declared complex must not be "
        "filled with only the real part or modulus of complex values."
    )
    res.assumptions = ASSUMPTIONS + ["numpy's type promotion rules; values whose element kind is not known are left undecided"]
    return res


def analyse_c19(project: Project, tier: str):
    from .report import Result

    res = Result()
    interp = run(project)
    s = interp.stats
    res.counts = {
        "functions_typed": interp.typed,
        "functions_not_typed": len(interp.crashed),
        "representations_decided": s.get("representations decided", 0),
        "axis_pairs_decided": s.get("axis pairs decided", 0),
        "results_decided": s.get("results decided", 0),
    }
    res.floors = {"functions_typed": 500, "axis_pairs_decided": 20, "results_decided": 60}
    fill(res, interp, "C19")
    samples(res, interp, ("representations decided", "axis pairs decided", "results decided"))
    res.explanation = (
        "The same typed execution knows the representation of every axis it can name: position for axes built from positions or declared with a position basis, momentum for axes built from wave numbers or "
        "declared with a momentum basis, and what each basis constructor and conversion yields. Data in one representation may not be combined with, tagged as, reshaped for or handed over as the other, "
        "and an operation whose name or declaration promises one representation must return it."
    )
    res.assumptions = ASSUMPTIONS
    return res


def contracts(res, interp: Interp, which, rules: tuple) -> None:
    """Run one family of contracts; violations raised while typing the bodies count as well."""
    n = len(interp.violations)
    c = which(interp)
    res.counts["conversion_contracts_decided"] = res.counts.get("conversion_contracts_decided", 0) + c.decided
    for rule, f, message in c.problems:
        if rule in rules:
            res.add(rule, f.short, message, f"{f.module.rel}:{f.node.lineno}", message)
    for v in interp.violations[n:]:
        if v.rule in rules:
            res.add(v.rule, v.func.short, v.message, loc(v), f"{v.message}: {v.snippet[:110]}")
    del interp.violations[n:]


def samples(res, interp: Interp, names: tuple) -> None:
    for n in names:
        for rel, line, _ in sorted(interp.seen.get(n, ()))[:: max(1, len(interp.seen.get(n, ())) // 5)]:
            res.sample(f"{n}: {rel}:{line}", 20)
