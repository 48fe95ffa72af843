"""Writes properties.jsonl (kept as code so that statements stay reviewable)."""
import json, pathlib

S = "surface_potential_analysis/"
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": [S + f if not f.startswith("lib/") else f for f in files],
                    "mechanism": [{"name": a, "where": b} for a, b in mech]},
    })


p("C01", "No operation modifies the data its caller passed in",
  "Calling any public operation (conversion, operator algebra, solver, statistic, plot) leaves every array, list, "
  "record and basis object the caller passed in exactly as it was: results are built in fresh storage, never by writing "
  "through a view, an in-place operator, an output buffer or a record key of an argument. Only plotting axes, which are "
  "passed in order to be drawn on, may change.",
  ["inputs", "histories"],
  "every public function and method, every argument, on every path, whether or not numpy happens to hand back a view",
  "Tests call each function once with throw-away inputs and look at the result; they never compare the arguments afterwards, and "
  "whether an alias is a view depends on layout, dtype and option values they do not vary.",
  ["operator/operator.py", "state_vector/plot.py", "dynamics/incoherent_propagation/tunnelling_matrix.py",
   "dynamics/stochastic_schrodinger/solve.py", "basis/basis_like.py", "kernel/build.py"],
  [("records share storage between input and output", S + "state_vector/conversion.py, operator/conversion.py: reshape views of the record's data"),
   ("in-place numerical kernels", S + "dynamics/incoherent_propagation/tunnelling_matrix.py: diagonal is filled in place")])

p("C02", "A result's data is laid out in the basis the result is tagged with",
  "Every record an operation returns pairs its flat data with a basis whose flattened product order is the order in which the data was "
  "actually produced: same factors, same order, same total size. Data is never reshaped into a factor order other than its own, "
  "and never relabelled with another basis without being converted.",
  ["inputs", "programs"],
  "every function that builds or reshapes a record, for all bases (any sizes, any number of dimensions) of the arguments",
  "With equal-sized bases, or a total size that happens to agree, a wrong factor order or a missing conversion produces an array of the right shape, so no "
  "shape assertion notices; the stable tests cover only point conversion and interpolation.",
  ["operator/conversion.py", "operator/operations.py", "operator/operator_list.py", "state_vector/conversion.py", "state_vector/state_vector_list.py",
   "kernel/kernel.py", "kernel/conversion.py", "wavepacket/conversion.py", "overlap/conversion.py", "probability_vector/probability_vector.py"],
  [("basis tag + flat data", "all TypedDict records: 'basis' with 'data' stored in flattened product order"),
   ("tag-driven reshape", "x['data'].reshape(x['basis'].shape) in every conversion and operation")])

p("C03", "Array axes are only combined when they index the same basis",
  "Whenever two arrays are added, multiplied elementwise or contracted, each pair of axes brought together runs over the same basis (after "
  "conversion if the arguments came in different ones), and every basis change is applied to data that really is in the source basis of that change. "
  "Operations on two operands therefore convert one operand to the other's basis first.",
  ["inputs", "programs"],
  "every contraction, elementwise combination and basis change in the library, for all pairs of argument bases",
  "Square test cases use one basis for everything, where a transposed or unconverted operand has the right shape and often the right value.",
  ["operator/operations.py", "operator/operator.py", "state_vector/eigenstate_calculation.py", "state_vector/state_vector_list.py", "kernel/kernel.py",
   "overlap/calculation.py", "basis/basis_like.py", "basis/explicit_basis.py"],
  [("contraction", S + "operator/operations.py: tensordot/einsum over reshaped data"),
   ("two-operand conversion", S + "operator/operations.py: convert the right operand to the basis of the left")])

p("C04", "Inner products and observables are conjugated on the bra side",
  "Multiplying every input state by a global phase leaves probabilities, occupations, expectation values and projectors unchanged, multiplies states by that phase and dual "
  "vectors by its conjugate, and makes inner products antilinear in the first argument and linear in the second. Dual (bra) indices of "
  "operators and dual vectors are converted between bases with the conjugate transformation, ket indices with the transformation itself.",
  ["inputs", "programs"],
  "all complex-valued states, operators and bases; every function forming a product of state data or converting an operator index",
  "A missing or misplaced conjugate is invisible for real data and for real transformation matrices, which is what small test cases use.",
  ["basis/basis_like.py", "state_vector/util.py", "state_vector/state_vector_list.py", "state_vector/eigenstate_calculation.py", "operator/conversion.py",
   "operator/operations.py", "probability_vector/probability_vector.py", "overlap/calculation.py", "wavepacket/localization_operator.py"],
  [("dual conversion", S + "basis/basis_like.py: convert_dual_vector conjugates around convert_vector"),
   ("inner product", S + "state_vector/state_vector_list.py: conj on the first argument")])

p("C05", "Physical formulas are dimensionally homogeneous",
  "Every formula over physical quantities (lengths, wave numbers, masses, energies, temperatures, times, rates, frictions, hbar, Boltzmann's constant) only adds, subtracts, compares or "
  "stores together quantities of the same physical dimension; arguments of exponential and trigonometric functions and exponents are dimensionless; a function that takes a named "
  "physical quantity (mass, temperature, time, frequency, length, bloch phase ...) is given one of that dimension, also in the native routines; functions that produce a named quantity "
  "(hamiltonians and potentials in energy, noise kernels and tunnelling matrices in rates, displacements in lengths, effective masses, wavefunctions) produce it in that dimension; "
  "generators and times handed to a solver multiply to the dimension its equation requires; and whatever is drawn against an axis whose label names a unit (J, m, m^-1, s, kg) or a coordinate (x axis, k axis) is in that unit.",
  ["inputs", "programs"],
  "every arithmetic expression on dimensioned quantities in the library, for all values",
  "A dropped or squared constant changes every value by a fixed factor, which only an independent reference value can reveal; none of the stable tests touches a dimensioned formula.",
  ["hamiltonian_builder/momentum_basis.py", "kernel/gaussian.py", "kernel/lorentzian.py", "dynamics/isf.py", "dynamics/schrodinger/solve.py",
   "dynamics/incoherent_propagation/tunnelling_matrix.py", "dynamics/hermitian_gamma_integral.py", "stacked_basis/sho_basis.py", "basis/util.py", "state_vector/plot.py"],
  [("kinetic energy", S + "hamiltonian_builder/momentum_basis.py: hbar^2 k^2 / 2m"),
   ("thermal factors", S + "dynamics/isf.py, kernel/gaussian.py: exp(-E / k_B T)")])

p("C06", "Result caching is transparent",
  "A function wrapped with one of the library's caching decorators returns what the undecorated function returns for the same arguments: the cache location is derived from, and the function called with, "
  "exactly the caller's arguments; a missing file (and nothing else) is a miss; the stored object is the computed one and is written only after the computation succeeded. "
  "With no location nothing is read or written, and each call mode reads, computes and writes exactly as its name says.",
  ["inputs", "histories", "fault_sequences"],
  "all wrapped functions, arguments, call modes and states of the cache file, including computations and loads that fail",
  "No test exercises the decorators; a lost keyword, a swallowed error or a write in an uncached mode shows only on a second call, a failing call or another mode.",
  ["util/decorators.py"],
  [("array cache", S + "util/decorators.py: npy_cached"), ("object cache", S + "util/decorators.py: CachedFunction, cached")])

p("C07", "Fourier transforms between conjugate representations are unitary inverse pairs",
  "Every change between a representation and its Fourier-conjugate one uses the symmetric (unitary) normalisation, with one direction the forward and the opposite direction the inverse transform, "
  "along the axis (and with the length) the caller asked for. Where an unnormalised transform is used instead, the compensating factor is applied, so that composing both directions is the identity. "
  "Fourier interpolation keeps every frequency once and rescales by the ratio of the sizes; the coefficients of potentials, noise kernels and unfurled eigenstates are those of the unitary transform along the axes they are documented for.",
  ["inputs", "programs"],
  "every forward/inverse transform call in the library and every axis, size and number of dimensions",
  "Tests round-trip through both directions of one pair at a time, so a pair that is wrong in both directions, or normalised only for one size or axis, still round-trips.",
  ["basis/basis_like.py", "basis/basis.py", "basis/evenly_spaced_basis.py", "util/interpolation.py", "kernel/solve/_fft.py", "overlap/conversion.py", "wavepacket/eigenstate_conversion.py", "hamiltonian_builder/momentum_basis.py"],
  [("default conversions", S + "basis/basis_like.py: fft/ifft with norm='ortho'")])

p("C08", "Every concrete basis implements a complete, terminating conversion contract",
  "Every basis class that can be instantiated reports its size and fundamental size and can convert vectors into and out of its fundamental (and, where offered, transformed) representation along any axis, "
  "without the default conversions calling each other for ever. Conversions in opposite directions are inverse in kind (pad with truncate, sample with pad, matrix with its adjoint) and apply along the requested axis only. "
  "Deriving the fundamental (position or momentum) companion of a basis keeps its fundamental size, its lengths and the order of its factors.",
  ["programs", "inputs"],
  "all basis classes in the library and all pairs of conversion methods resolved through inheritance",
  "The conversion defaults are mutually recursive through inheritance; which override breaks the cycle depends on the class, and tests instantiate only a few of them.",
  ["basis/basis_like.py", "basis/basis.py", "basis/evenly_spaced_basis.py", "basis/explicit_basis.py", "basis/stacked_basis.py", "basis/block_fraction_basis.py", "basis/time_basis_like.py"],
  [("mutually recursive defaults", S + "basis/basis_like.py: from/into fundamental and transformed"),
   ("overrides", S + "basis/basis.py, evenly_spaced_basis.py, explicit_basis.py")])

p("C09", "Every option an operation accepts takes effect",
  "Every parameter of a public operation influences its result or its effects, and an option an operation shares with the operation it is built on (axes, index, scale, measure, axis, temperature, direction, number of samples, ...) "
  "is passed on to it rather than replaced by that operation's default.",
  ["inputs", "configurations"],
  "all parameters of all public functions and methods, and all option-forwarding chains between them",
  "Tests call functions with default options; an option that is accepted but dropped on the way down is invisible until a user sets it.",
  ["util/plot.py", "state_vector/plot.py", "wavepacket/plot.py", "operator/plot.py", "potential/plot.py", "kernel/plot.py", "dynamics/isf.py", "kernel/gaussian.py"],
  [("option forwarding", "plot_* wrappers forwarding axes, idx, ax, scale, measure to util/plot.py")])

p("C10", "Every internal use of a function, attribute or name can succeed",
  "No public operation can fail because of how the library calls itself: every name used is defined on every path, every call passes arguments its target accepts, every import exists, every exported name exists, and every attribute or record key used is one the value in question has.",
  ["programs", "inputs"],
  "all names, calls, imports, attribute accesses and record keys in all modules, including those no test executes",
  "Most of the library is executed by no stable test, so a mis-spelt keyword, a wrong arity or a stale import in it is found only by the user who calls it.",
  ["hamiltonian_builder/sho_subtracted_basis.py", "potential/__init__.py", "wavepacket/get_eigenstate.py", "dynamics/stochastic_schrodinger/solve.py", "types.py"],
  [("internal calls", "all modules"), ("re-exports", S + "*/__init__.py")])

p("C11", "The Python callers and the native extension agree on their interface",
  "Every native routine the library calls exists, is registered, and is called with the number, order and kind of arguments the native code declares; its stub file declares the same signature, and the result is taken with the dimensions and element type the native code produces. "
  "Energies and widths are handed over in the order the native formula expects.",
  ["programs", "inputs"],
  "every call from Python into the native extension and every registered native routine",
  "The native extension is not built in the test environment, so no stable test ever crosses the boundary.",
  ["hamiltonian_builder/explicit_z_basis.py", "hamiltonian_builder/sho_subtracted_basis.py", "stacked_basis/sho_basis.py", "lib/hamiltonian_generator/src/lib.rs", "lib/hamiltonian_generator/hamiltonian_generator.pyi"],
  [("native module", "lib/hamiltonian_generator/src/lib.rs: #[pyfunction] items and the #[pymodule] registration")])

p("C12", "Plots draw on the axes they are given",
  "Every plotting operation draws on the axes passed to it, creates a figure only when none was passed, never shows, saves, clears or closes figures or touches the global current figure, and returns the figure, the axes and the artists it drew on in that order. "
  "Plots composed from other plots draw all their parts on the same axes.",
  ["inputs", "histories", "configurations"],
  "all plotting functions, with and without axes passed by the caller, composed in any order",
  "No stable test plots anything; drawing on the wrong axes is visible only by eye when two plots are combined.",
  ["util/plot.py", "state_vector/plot.py", "state_vector/eigenvalue_list_plot.py", "state_vector/plot_value_list.py", "wavepacket/plot.py", "operator/plot.py", "kernel/plot.py", "potential/plot.py", "potential/plot_uneven_potential.py",
   "stacked_basis/plot.py", "overlap/plot.py", "probability_vector/plot.py", "dynamics/plot.py", "dynamics/isf_plot.py", "dynamics/incoherent_propagation/plot.py", "basis/plot.py"],
  [("figure acquisition", S + "util/plot.py: get_figure")])

p("C13", "Side effects are confined to the operations that advertise them",
  "Files, subprocesses, the environment, the clock, the console, warnings and random numbers are only touched by the operations whose purpose that is (loading and caching, Wannier90 localisation, timing, the diagnostic of the Fey-rate fit, random sampling); everything else is a deterministic function of its arguments. "
  "Importing a module performs none of these (beyond announcing a missing optional solver), no operation changes library- or process-wide state, and random draws come from a generator local to the call, never from the global one.",
  ["histories", "configurations", "inputs"],
  "every function reachable from every public entry point, and every module's import-time code",
  "A hidden dependence on state or randomness shows only in repeated, reordered or concurrent use; tests run each function once in one process.",
  ["util/decorators.py", "wavepacket/localization/_wannier90.py", "potential/potential.py", "kernel/sample.py", "dynamics/stochastic_schrodinger/solve.py", "state_vector/state_vector_list.py"],
  [("external program", S + "wavepacket/localization/_wannier90.py"), ("file loaders", S + "potential/potential.py"), ("random states and samples", S + "kernel/sample.py, kernel/plot.py, state_vector/*")])

p("C14", "No result contains storage that was never written",
  "Every element of every buffer that is allocated without being initialised is written before it can be returned or read, on every path and for every size, and writes meant for such a buffer reach it rather than a temporary copy.",
  ["inputs", "programs"],
  "every uninitialised allocation in the library, on all paths and for all argument shapes",
  "Freshly mapped memory is usually zero and small buffers are often reused with plausible contents, so a test sees correct-looking values.",
  ["util/interpolation.py", "kernel/plot.py", "dynamics/incoherent_propagation/tunnelling_matrix.py", "wavepacket/get_eigenstate.py", "stacked_basis/util.py"],
  [("uninitialised allocation", "np.empty / np.empty_like call sites"), ("write through view chain", S + "util/interpolation.py")])

p("C15", "The Wannier90 exchange reads back only what it wrote, in its own scratch folder",
  "Localisation through the external program writes all of its input files before each run, runs it inside a private temporary folder that is removed on every exit, passes a fixed argument list without a shell, never carries on silently when the program fails (it stops, or asks the user to run it by hand), and reads only results of that run. "
  "Band, projection and k-point numbers written to the exchange files count from one and cover exactly the bands, projections and sample points of the wavepacket, in the layout the program expects; the matrices it returns are read with the same numbering.",
  ["fault_sequences", "inputs", "histories"],
  "every wavepacket, projection and option set, and every failure of the external program",
  "The external program is not installed where the tests run, so this path is never executed.",
  ["wavepacket/localization/_wannier90.py"],
  [("exchange files", S + "wavepacket/localization/_wannier90.py: file builders and the parsers of the results"), ("external run", S + "wavepacket/localization/_wannier90.py: subprocess in a temporary directory")])

p("C16", "Every documented option value is handled, and handled as named",
  "For every option restricted to a fixed set of named values, each value is accepted by every operation offering the option and selects its own behaviour; no listed value falls through to returning nothing, and no operation tests for a value outside the set.",
  ["configurations", "inputs"],
  "every option typed as a closed set of names and every branch on it",
  "Tests use the default value of each option only.",
  ["util/util.py", "util/plot.py", "util/decorators.py", "state_vector/plot_value_list.py", "stacked_basis/brillouin_zone.py", "dynamics/isf.py", "dynamics/stochastic_schrodinger/solve.py", "kernel/solve/__init__.py"],
  [("closed option sets", "Literal aliases: Measure, Scale, CallType, Distribution, method/direction names")])

p("C17", "Records are complete",
  "Every record an operation returns carries every field its documented record type declares (basis, data and, where declared, eigenvalues or standard deviations), and no field outside that type; fields of one record always refer to the same, equally ordered list of items: selecting, sorting or reordering one field does the same to the others and to the basis size.",
  ["programs", "inputs"],
  "every function returning a typed record, on every return path",
  "Tests inspect one field of one result; a field that is missing or in another order surfaces in a later operation.",
  ["state_vector/eigenstate_list.py", "state_vector/eigenstate_calculation.py", "state_vector/conversion.py", "operator/operator_list.py", "kernel/kernel.py", "kernel/build.py", "kernel/conversion.py", "wavepacket/wavepacket.py", "wavepacket/conversion.py"],
  [("typed records", "TypedDict classes in state_vector, operator, kernel, wavepacket, overlap, potential, probability_vector")])

p("C18", "Complex amplitudes never silently lose their imaginary part",
  "Complex-valued data (states, operators, overlaps, kernels, transformed values) keeps its imaginary part through every storage and conversion step; it becomes real only through an explicit real part, imaginary part, modulus, phase or chosen measure, and a state, operator, kernel, overlap or result declared complex never holds just the real part or modulus of the complex values it was made from; data declared real is made real by one of these, never left complex.",
  ["inputs", "programs"],
  "every buffer allocation, element assignment and dtype conversion that complex data can reach",
  "numpy only warns when a complex value is stored in a real array, and with real test data nothing changes.",
  ["state_vector/plot.py", "wavepacket/get_eigenstate.py", "kernel/plot.py", "dynamics/isf.py", "overlap/interpolation.py", "wavepacket/localization/_wannier90.py", "basis/evenly_spaced_basis.py"],
  [("buffer dtype", "np.zeros/empty/full with and without dtype"), ("casts", ".astype(...) call sites")])

p("C19", "Operations work in the representation they are named for",
  "Whatever is computed from positions is combined with, tagged as and drawn as position-space data, and whatever is computed from wave numbers as momentum-space data: data is converted to the representation an operation needs before its positions or wave numbers are used, an operation named for or declared to return the position or momentum representation returns data converted to it, and data is plotted against coordinates of its own representation; the diagonal of an operator is not transformed between representations as if it were a vector.",
  ["inputs", "programs"],
  "every combination of data with positions or wave numbers, every conversion between representations and every result with a declared representation",
  "Position and momentum bases of one system have the same number of points, so data in the wrong one has the right shape; with a basis that already is in the required representation the missing conversion changes nothing.",
  ["operator/build.py", "potential/conversion.py", "state_vector/conversion.py", "state_vector/plot.py", "util/plot.py", "hamiltonian_builder/momentum_basis.py", "wavepacket/conversion.py", "kernel/gaussian.py"],
  [("position and momentum points", "BasisUtil x_points / k_points families"), ("representation conversions", "stacked_basis_as_fundamental_position_basis / ..._momentum_basis and convert_*_to_position/momentum_basis")])

p("C20", "Points, wave numbers, indices and derived bases are those of the lattice",
  "For every basis, on any number of axes and for any even or odd sizes: position points run from the origin in steps of the lattice vector over the number of points; wave numbers are whole numbers of reciprocal lattice vectors (2 pi times the inverse transpose of the lattice), zero first, then the positive and last the negative ones; the points of a product of bases are in row-major order of their axes, and flat and stacked indices convert into each other accordingly; derived bases (fundamental, position, momentum, sample, unfurled, single point, Bragg point, truncated) have the sizes and lattice vectors of what they are derived from; indices, points, displacements and distances are wrapped into one period around their origin; coordinates projected along axes are components along the orthonormalised axes; times run in equal steps from their offset.",
  ["inputs", "sizes", "lattices"],
  "all sizes (even and odd), lattice vectors, indices, origins and axes of the coordinate functions, properties and derived bases",
  "Even and odd, truncated and full, orthogonal and skew, first and other axes differ only in some points; tests sample a few sizes.",
  ["basis/util.py", "basis/time_basis_like.py", "basis/conversion.py", "stacked_basis/util.py", "stacked_basis/conversion.py", "stacked_basis/build.py", "stacked_basis/brillouin_zone.py", "operator/build.py", "wavepacket/wavepacket.py", "dynamics/util.py"],
  [("points of a basis", "BasisUtil"), ("times", "EvenlySpacedTimeBasis.times"), ("paths and projections", "stacked_basis/util.py"), ("derived bases", "stacked_basis/conversion.py")])

p("C21", "Algebra of states, operators, kernels and probabilities follows its formulas",
  "For every size of basis and all complex entries: sums, differences, multiples, products, commutators and anticommutators of operators and of lists of operators (full or diagonal, in the same or in other bases) have the entries of their formulas; an operator acts on states by its matrix, the result being normalised with its norm as the eigenvalue; diagonal and full operators, selected, joined and split lists keep their entries; kernels made from noise operators are the sum over operators of eigenvalue times conj(L_i) L_j, and diagonal, full and isotropic ((i - j) mod n) kernels are converted entry by entry; expectation values, inner products, norms, weighted states, probabilities |psi|^2, sums and averages over axes (with their weights) are the sums they are named for; operators built from eigenstates and functions of operators are vectors times values times inverse vectors; conversions of states, operators, lists and kernels convert every index once, dual and second indices by the conjugate transformation: each with the signs, weights, conjugations, indices and factors of the formula.",
  ["inputs", "sizes"],
  "all entries, sizes and axes of the algebraic operations on states, operators, lists, kernels and probabilities",
  "Swapped indices, conjugations, signs and weights agree for real, symmetric, commuting or normalised test data.",
  ["operator/operations.py", "operator/operator.py", "operator/operator_list.py", "kernel/kernel.py", "state_vector/eigenstate_calculation.py", "state_vector/state_vector.py", "state_vector/state_vector_list.py", "probability_vector/probability_vector.py"],
  [("operator algebra", "operator/operations.py and operator/operator.py"), ("kernels from operators", "kernel/kernel.py"), ("expectations and overlaps", "state_vector/eigenstate_calculation.py")])

p("C22", "Hamiltonians, dynamics, noise and overlaps follow their physical formulas",
  "For every size of basis and all entries: kinetic energies are hbar^2 (k + b)^2 / 2m with the Bloch wave vector b added, potentials act as diagonal operators in position and the total Hamiltonian is their sum in the basis of the potential; a continuous potential is its Fourier series and its derivative multiplies by i k; a state is decomposed by its inner products conj(v).psi with the eigenvectors and evolves as exp(-i E t / hbar) for each of them or for each entry of a diagonal Hamiltonian; rate matrices are A transposed minus the total outgoing rate on the diagonal, their populations evolve as exp(lambda t) of each eigenvector with rates relative to the largest, and populations are the real diagonal of the density matrix; noise is sampled as sqrt(hbar lambda) times complex unit normal factors (u + i v)/sqrt(2) for every operator, summed or kept split; temperature corrections add -[H, L]/(4 kB T) to every operator; overlaps are conj(psi_i(x)) psi_j(x + shift) in their stated order; localised wavepackets and Hamiltonians mix the bands by the localisation operator of every Bloch wave number (U, or U E U^dagger): each with the signs, constants, conjugations, indices and factors of the formula.",
  ["inputs", "sizes"],
  "all states, Hamiltonians, potentials, rates, noise operators, wavepackets, sizes, masses, temperatures and times",
  "Signs of phases, conjugations, factors of two and indices agree for real, symmetric, one dimensional or two point test data.",
  ["hamiltonian_builder/momentum_basis.py", "potential/conversion.py", "dynamics/schrodinger/solve.py", "dynamics/incoherent_propagation/eigenstates.py", "dynamics/incoherent_propagation/tunnelling_matrix.py", "kernel/sample.py", "kernel/build.py", "overlap/calculation.py", "wavepacket/localization_operator.py"],
  [("Hamiltonians", "hamiltonian_builder/momentum_basis.py"), ("evolution", "dynamics/schrodinger/solve.py and dynamics/incoherent_propagation"), ("noise", "kernel/sample.py and kernel/build.py"), ("overlaps and localisation", "overlap/calculation.py and wavepacket/localization_operator.py")])

p("C23", "Iterables are read at most once, so generators work where they are accepted",
  "An operation that accepts any iterable gives the same result for a generator or iterator as for a list or tuple of the same items: it goes through it at most once on every path (not again after taking its first item, its length or its maximum, not in every turn of a loop, not again inside a function it is passed to) or makes a list of it first, and never measures, indexes, or hands it to numpy as if it were a sequence; likewise for generators, zip and map objects made inside the package, which are not read twice, stored in records or attributes that are read again, or returned by cached functions.",
  ["inputs", "call sequences"],
  "all parameters declared as Iterable or Iterator (states, operators, wavepackets, truncations, sizes and axes) and all generators made in the package",
  "Tests pass lists, which can be read any number of times; a generator is silently empty the second time.",
  ["operator/operator_list.py", "state_vector/state_vector_list.py", "wavepacket/wavepacket.py", "kernel/build.py", "util/interpolation.py"],
  [("lists of states, operators and wavepackets", "state_vector/state_vector_list.py, operator/operator_list.py and wavepacket/wavepacket.py"), ("truncations", "kernel/build.py"), ("padding", "util/interpolation.py")])

# ---- stated, but outside the reach of static analysis -------------------------------------------
p("C30", "Basis conversion round-trips and preserves norms",
  "Converting any vector, operator or list into a basis that spans the same space and back returns the original values up to rounding, and unitary conversions preserve inner products.",
  ["inputs"], "all vectors and all pairs of spanning bases", "Numerical equality over all inputs.",
  ["basis/basis_like.py", "basis/evenly_spaced_basis.py", "basis/explicit_basis.py"], [("conversions", S + "basis/")])
p("C31", "Eigenstates diagonalise their operator",
  "Computed eigenvalues and eigenvectors satisfy the eigenvalue equation to solver precision, are orthonormal for hermitian operators and are returned in ascending order of energy where documented.",
  ["inputs"], "all hermitian and general operators", "Numerical result of an external solver.",
  ["state_vector/eigenstate_calculation.py"], [("eigensolvers", S + "state_vector/eigenstate_calculation.py")])
p("C32", "Fourier and spline interpolation reproduce band-limited data exactly",
  "Interpolating sampled data onto a finer grid returns the original values at the original points and the exact continuation for band-limited data.",
  ["inputs"], "all grids and all band-limited data", "Numerical equality over all inputs.",
  ["util/interpolation.py", "overlap/interpolation.py"], [("padding", S + "util/interpolation.py")])
p("C33", "Noise-operator decompositions reproduce their kernel",
  "Summing the noise operators of every decomposition method, weighted by their eigenvalues, gives back the kernel they were computed from, up to the truncation asked for.",
  ["inputs"], "all kernels and all methods", "Numerical equality of a factorisation.",
  ["kernel/solve/_eigenvalue.py", "kernel/solve/_fft.py", "kernel/solve/_taylor.py"], [("decompositions", S + "kernel/solve")])
p("C34", "Time evolution conserves norm and converges",
  "Closed-system evolution preserves the norm and agrees with exact evolution; stochastic evolution averages to the master equation.",
  ["inputs", "schedules"], "all hamiltonians, initial states and step sizes", "Numerical convergence and ensemble averages.",
  ["dynamics/schrodinger/solve.py", "dynamics/stochastic_schrodinger/solve.py"], [("solvers", S + "dynamics")])
p("C35", "Wrapped displacements are minimal images",
  "Displacements, distances and Brillouin-zone foldings return the representative closest to the origin for every lattice and every index.",
  ["inputs"], "all lattices and indices", "An inequality between computed distances.",
  ["stacked_basis/util.py", "stacked_basis/brillouin_zone.py", "operator/build.py"], [("wrapping", S + "stacked_basis/util.py")])
p("C36", "Localised states are orthonormal and span their bands",
  "Every localisation method returns a unitary mixing of the bands it was given, so that the localised states are orthonormal and span the same space.",
  ["inputs"], "all wavepackets and methods", "Numerical unitarity of a computed matrix.",
  ["wavepacket/localization/_operator.py", "wavepacket/localization/_projection.py", "wavepacket/localization/_wannier90.py"], [("localisation", S + "wavepacket/localization")])
p("C37", "Fitted rates describe the fitted curve",
  "Rates fitted to a scattering function minimise the residual of the documented model, weighted by the given uncertainties.",
  ["inputs"], "all scattering functions", "Outcome of a numerical optimiser.",
  ["dynamics/isf.py"], [("fits", S + "dynamics/isf.py")])
p("C38", "Populations stay normalised and relax to equilibrium",
  "Rate equations conserve total population for all times and tend to the thermal occupation.",
  ["inputs", "histories"], "all rate matrices, initial populations and times", "Spectral properties of a numerical matrix.",
  ["dynamics/incoherent_propagation/eigenstates.py", "dynamics/incoherent_propagation/tunnelling_matrix.py"], [("propagation", S + "dynamics/incoherent_propagation")])

out = pathlib.Path(__file__).with_name("properties.jsonl")
out.write_text("".join(json.dumps(x) + "\n" for x in P))
assert all(len(x["title"]) <= 80 for x in P)
print(len(P))
