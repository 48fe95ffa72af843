"""Which module decides which property."""

CHECKS: dict[str, tuple[str, str, str]] = {
    # id: (module, technique, level_note)
    "C01": (
        "purity",
        "interprocedural may-alias / write-effect analysis of all public functions",
        "Every statement of every function is abstractly interpreted for what it may write; views, subscripts, augmented assignments, mutating "
        "methods, out= buffers and calls are followed through summaries to a fixpoint. Assumes indexes of unknown kind copy, and user callables behave.",
    ),
    "C10": (
        "binding",
        "own scope/definite-assignment/call-binding analysis over all modules, plus typed attribute and key facts from pyright",
        "Decides name, import, attribute, key and call-shape failures. Value-dependent failures (indices out of range, shapes) are not decided here.",
    ),
    "C06": (
        "caching",
        "typestate analysis of the caching decorators over a finite abstract state (location, cache file, function outcome, value provenance)",
        "Every combination of the abstract state is decided for each decorator and call mode. Assumes numpy and pickle restore what they stored.",
    ),
    "C09": (
        "params",
        "interprocedural dependency (information-flow) analysis from parameters to results and effects, plus option-forwarding obligations at call sites",
        "Shows that each parameter can influence the outcome and that shared options are forwarded at every internal call; that the influence is the documented one is not decided.",
    ),
    "C12": (
        "plots",
        "abstract interpretation of all drawing code with the provenance of figures, axes and artists; effect lint on pyplot state",
        "Decides on which axes each drawing operation lands, that figures are created only without caller axes, and the order of returned handles. What matplotlib draws is assumed.",
    ),
    "C13": (
        "effects",
        "interprocedural effect analysis (call graph with class-hierarchy dispatch) against a catalogue of owners; escape of module, class and closure state; import-time effect scan",
        "Decides which operations can reach a file, process, clock, console, warning, random or process-wide effect. External routines not in the catalogue are assumed effect free.",
    ),
    "C14": (
        "buffers",
        "definite-initialisation dataflow over symbolic index regions for every uninitialised allocation, plus a copy-versus-view analysis of every element store",
        "Decides coverage for element, slice, loop, enumeration, out= and helper writes with sizes as linear forms. Loop lengths that cannot be compared with the extent are taken to match it.",
    ),
    "C02": (
        "layout",
        "abstract interpretation of every function from its declared signature over symbolic axis types (ordered basis factors per axis)",
        "Decides reshapes, record tags, declared result bases and axis selections wherever the axes are known; values from callbacks, scipy or lists of arrays are unknown and not decided.",
    ),
    "C03": (
        "layout",
        "the same typed abstract interpretation: unification of basis factors at every elementwise combination, contraction and basis change",
        "Decides pairs of axes and conversions whose operands' axes are known. Distinct type variables of a signature are distinct bases.",
    ),
    "C04": (
        "layout",
        "the same typed abstract interpretation with bra/ket polarity of axes and the power of each input's global phase (U(1) charge inference)",
        "Decides conjugation by phase bookkeeping and index polarity, including contracts on the basis-change functions themselves; arrays of unknown origin are not decided.",
    ),
    "C17": (
        "layout",
        "the same typed abstract interpretation: key completeness of typed records and provenance (selection, order, length) of the list each field runs over",
        "Decides completeness wherever a record literal or a record built by merging and updating reaches a declared record type; order and length wherever both fields' origins are known.",
    ),
    "C18": (
        "layout",
        "the same typed abstract interpretation over element kinds (complex, real, either, real part, modulus): every store, cast and result is an obligation",
        "Decides every buffer store and dtype conversion whose element kinds are known, and every record or array declared complex. Values of unknown kind are not judged.",
    ),
    "C19": (
        "layout",
        "the same typed abstract interpretation over representations: every axis carries whether its points are positions or wave numbers",
        "Decides every combination, record, reshape, call, result and plot whose axes' representations are known from what built or converted them. Data in a basis no construction or declaration fixes is not judged.",
    ),
    "C11": (
        "native",
        "cross-language signature analysis: tokenized Rust exports and registrations against the stub file and the typed arguments of every Python call",
        "Every exported routine, stub declaration and call is an obligation. Argument kinds come from the typed abstract execution; values of unknown kind are not judged. The native formulas themselves are out of scope.",
    ),
    "C15": (
        "exchange",
        "abstract interpretation of the exchange from its public entry point: typestate of the scratch folder, files and runs, abstract texts of the written files, affine line maps of the parsed results",
        "Every effect, written count, number and overlap, and the parsing of the result are obligations. The file layouts are those of the program's user guide; the program itself is outside.",
    ),
    "C05": (
        "dims",
        "dimension inference: abstract interpretation of every function over the exponents of mass, length, time, temperature and charge",
        "Sums, comparisons, stores, function arguments, named parameters and results, axis units and evolution steps are obligations wherever the dimensions are known. "
        "Pure numerical factors are not dimensions and are not decided.",
    ),
    "C07": (
        "conversions",
        "abstract interpretation of all conversions and transforms over words of linear operators with symbolic sizes",
        "Transforms of every basis class and every interpolation, noise, coefficient and unfurling routine are compared as operator words with their norms. "
        "Assumes numpy's transforms; unnormalised spectra that are only plotted are checked for their axis, not their norm.",
    ),
    "C08": (
        "conversions",
        "abstract interpretation of all conversion methods over words of linear operators with symbolic sizes, including termination along the resolution order",
        "Decides every class that can be instantiated and every ordered pair of classes, except conversions of the Bloch basis whose shape is not known statically.",
    ),
    "C20": (
        "points",
        "abstract interpretation of all coordinate functions over symbolic sizes, lattice vectors and indices, compared as normal forms of rational functions with remainders",
        "Decides points, wave numbers, indices, displacements, distances and the sizes of derived bases for one, two and three axes of any size. "
        "A difference counts only with a witness; which of two equally close images is taken is left open.",
    ),
    "C21": (
        "algebra",
        "abstract interpretation of the operations over symbolic sizes and unknown complex entries, compared as normal forms of sums over indices with the formula of each operation",
        "Decides the entries of about a hundred operations and cases; conversions between bases are taken as given linear maps. "
        "A difference counts only with sizes, indices and entries at which the two forms differ.",
    ),
    "C22": (
        "algebra",
        "abstract interpretation of Hamiltonians, evolutions, rates, noise, overlaps and localisations over symbolic sizes and unknown complex entries, compared as normal forms with their physical formulas",
        "Decides the entries of the physical operations; conversions between bases, eigenvectors and random draws are taken as given. "
        "A difference counts only with sizes, indices and entries at which the two forms differ.",
    ),
    "C23": (
        "once",
        "typestate analysis of everything that can only be iterated once, along all paths and through the functions it is passed to",
        "Follows parameters that accept any iterable and generators made in the package; what is stored elsewhere or captured by a closure is no longer judged.",
    ),
    "C16": (
        "options",
        "case analysis of every branch on a closed option set (literal types), with reachability of fall-through and a table of per-value behaviour",
        "Decides exhaustiveness, stray values and the meaning of each named value where the library maps a name to an operation.",
    ),
}

NUMERIC = "quantifies over computed floating-point values; no static rule over the source bounds them, and a structural proxy would not be the property. Structural parts are claimed under {}."
NOT_APPLICABLE: dict[str, str] = {
    "C30": NUMERIC.format("C03, C04, C07 and C08"),
    "C31": NUMERIC.format("C02 and C03"),
    "C32": NUMERIC.format("C07 and C14"),
    "C33": NUMERIC.format("C03 and C04"),
    "C34": NUMERIC.format("C03, C04 and C05"),
    "C35": "whether a wrapped point is the closest in Euclidean distance depends on the angles of the lattice of each input; wrapping along the axes is part of C20",
    "C36": NUMERIC.format("C03, C04 and C15"),
    "C37": "optimality of a numerical fit is a run-time quantity; that the fit is given the stated uncertainties is part of C09",
    "C38": NUMERIC.format("C02 and C03"),
}
