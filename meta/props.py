"""Source of properties.jsonl, MANIFEST.json: run ``python3 meta/props.py`` in /verif."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, G, ME, F, GR, D, S, U = ("bfit/model.py", "bfit/grid.py", "bfit/measure.py", "bfit/fit.py", "bfit/greedy.py",
                            "bfit/density.py", "bfit/_slater.py", "bfit/parse_ugbs.py")

# id: (title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)], level note)
P = {}


def prop(i, title, statement, over, text, why, files, mech, note):
    P[i] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note)


prop("C01", "A Gaussian model's value is the documented sum of s and p functions",
     "At every point of any one- or three-dimensional point set, an atomic or molecular Gaussian model evaluates to "
     "the sum over its centres of coefficient times s-type exp(-a r^2) and p-type r^2 exp(-a r^2) functions, with each "
     "function normalized to integrate to one over space when normalization was asked for. Coefficients and exponents "
     "are consumed per centre in the order s then p, and the value does not depend on whether the gradient is "
     "requested, nor on the magnitude or order of the points.",
     ["inputs", "configurations"],
     "all numbers of s/p functions per centre (including none of one kind), numbers and positions of centres, point "
     "sets (1D, 3D, repeated, far, signed), coefficients (zero, negative, huge) and exponents (equal, tiny, huge)",
     "the tests compare a handful of fixed parameter sets on small grids, mostly with one or two functions per centre",
     [M], [("atomic model", M + ": AtomicGaussianDensity.evaluate, _eval_s, _eval_p"),
           ("molecular model", M + ": MolecularGaussianDensity.evaluate")],
     "every layout with up to 3 centres / 4 functions, every alphabet value of points, coefficients, exponents")
prop("C02", "A Gaussian model's gradient is the exact derivative of its value",
     "When the gradient of a model is requested, its columns are exactly the partial derivatives of the model value at "
     "each point with respect to every coefficient and then every exponent, in the order the parameters are given. "
     "This holds for atomic and molecular models of any layout, normalized or not, and at any point including the "
     "centres.",
     ["inputs", "configurations"],
     "all layouts, points, parameter values and both normalization settings",
     "the tests check finite differences for a few random parameter sets; wrong columns appear only for particular "
     "layouts (several centres, only p functions, zero coefficients)",
     [M], [("gradient of s and p parts", M + ": _eval_s, _eval_p"),
           ("assembly of columns per centre", M + ": MolecularGaussianDensity.evaluate")],
     "as C01; analytic reference plus finite differences")
prop("C03", "A normalized model integrates to the sum of its coefficients",
     "The integral over three-dimensional space of a normalized atomic or molecular Gaussian model equals the sum of "
     "its coefficients, whatever the exponents, the mixture of s and p functions and the positions of the centres. "
     "This holds both by spherical integration on a radial grid and by integration on a cubic grid that resolves "
     "and contains the functions.",
     ["inputs", "configurations"],
     "all layouts, coefficients, exponents that the grid resolves, centres inside the grid",
     "the tests integrate a few one-centre models",
     [M, G], [("normalization prefactors", M + ": AtomicGaussianDensity.evaluate, MolecularGaussianDensity.prefactor"),
              ("quadrature", G + ": integrate")],
     "grids fine enough for 1e-6 (radial) and 1e-4 (cubic)")
prop("C04", "A resized model behaves like a freshly built one",
     "After any sequence of changes to its numbers of s and p functions, interleaved with evaluations and refused "
     "calls, a model reports the same counts and returns the same values and gradients as a model newly built with "
     "the final numbers. Changing the size never alters the points, the centre or the normalization setting.",
     ["histories"],
     "all operation sequences up to the bound, over all sizes including zero of one kind",
     "the tests never resize and then evaluate more than once",
     [M], [("resize", M + ": AtomicGaussianDensity.change_numb_s_and_numb_p"), ("evaluation", M + ": evaluate")],
     "all operation sequences to the bound; the model state is rebuilt and compared after each step")
prop("C05", "Every basis function is attributed to the right centre",
     "For any molecular layout, looking up the centre of a basis function by its index returns the centre whose block "
     "of s then p functions contains it, and an index past the end is refused. The reported number of functions, the "
     "normalization prefactor sequence and the distances from each point to each centre agree with that layout.",
     ["inputs", "configurations"],
     "all layouts up to the bound (including centres without functions of one kind) and all indices",
     "the tests look at one layout",
     [M], [("lookup", M + ": MolecularGaussianDensity.assign_basis_to_center"),
           ("prefactors", M + ": prefactor"), ("distances", M + ": radii")],
     "all layouts with up to 4 centres and 3 functions of each kind")
prop("C06", "Every measure is its documented pointwise formula",
     "At each point the squared difference, Kullback-Leibler and Tsallis measures return exactly their documented "
     "formula of the density and model values there, independent of all other points, array length or number type, "
     "with points where the model is at or below the mask value counted as ratio one (Kullback-Leibler) or zero "
     "(Tsallis). Zero densities give the limit of the formula, any negative model value makes every "
     "Kullback-Leibler value the documented constant, and an undefined model value never counts as agreement.",
     ["inputs", "configurations"],
     "all pairs of density and model values (zero, subnormal, at the mask, equal, huge, negative model) in all short "
     "arrays, all masks and Tsallis exponents above and below one",
     "the tests use smooth positive arrays; zeros, masks and boundary values occur in at most one test",
     [ME], [("formulas and masks", ME + ": SquaredDifference, KLDivergence, TsallisDivergence .evaluate")],
     "full value lattice and all arrays of length <= 2 (quick) / 4 (thorough)")
prop("C07", "Every measure's derivative is the derivative of its value",
     "The second result of a measure is, at every point where the model is above the mask, the exact derivative of the "
     "first with respect to the model value there. At masked points it is the documented constant, and asking for the "
     "derivative does not change the first result.",
     ["inputs", "configurations"],
     "all pairs of density and model values, masks, exponents, array shapes",
     "the tests difference a few smooth arrays only",
     [ME], [("derivatives", ME + ": evaluate(deriv=True)")],
     "as C06, analytic and by central differences")
prop("C08", "Divergences obey their mathematical laws",
     "Divergences of a density from itself are zero, and between densities of the same total the "
     "Kullback-Leibler and Tsallis values are never negative. Tsallis never decreases with its "
     "exponent, approaches Kullback-Leibler as that approaches one, and bounds it from above (below) for exponents "
     "above (below) one. The squared difference is non-negative and symmetric, and scaling or permuting "
     "both densities scales or permutes the pointwise values of every measure accordingly.",
     ["inputs"],
     "all densities from a lattice of short histograms, including zeros, and all exponents of a ladder",
     "no existing test states any of these laws",
     [ME], [("formulas", ME + ": evaluate")], "all histograms with up to 4 bins (quick) or 6 (thorough) over the alphabet")
prop("C09", "Radial grids hold exactly the documented points, in order",
     "A uniform radial grid has exactly the requested number of equally spaced points from the smallest to the largest "
     "radius, both included. A Clenshaw grid holds exactly the documented core points (with or without the origin), "
     "diffuse points and extra points, in ascending order and requested number type, whatever kind of iterable "
     "supplies the extras.",
     ["inputs", "configurations"],
     "all point counts up to the bound (including zero core points), atomic numbers, origin settings, extra points in "
     "any order and container",
     "the tests check one grid of each kind",
     [G], [("uniform points", G + ": UniformRadialGrid"), ("core and diffuse points", G + ": ClenshawRadialGrid")],
     "all counts to the bound against the formula in extended precision")
prop("C10", "Radial integration is the trapezoidal rule on the grid's own points",
     "Integrating an array on a radial grid gives the trapezoidal sum over exactly that grid's points, for every grid "
     "kind, integrand, number type and point spacing (including repeated points). It is linear, exact for straight "
     "lines, agrees with the sum of the integrals of basis vectors, and the spherical option multiplies the integrand "
     "by 4 pi r^2.",
     ["inputs", "configurations"],
     "every unit integrand of every grid (which determines the rule completely), plus structured integrands",
     "the tests integrate a few smooth functions with loose tolerances",
     [G, F], [("trapezoidal rule", G + ": _BaseRadialGrid.integrate"), ("spherical factor", F + ": _BaseFit.integrate")],
     "all unit vectors: the quadrature weights are decided exactly")
prop("C11", "A cubic grid is the documented lattice with one cell volume per point",
     "A cubic grid of given origin, axes and shape contains exactly the points origin + i a1 + j a2 + k a3 for all "
     "index triples in the documented order. Every point carries the volume of one cell, so integration is "
     "the cell volume times the sum of the values, for skewed and left-handed axes too.",
     ["inputs", "configurations"],
     "all shapes up to the bound, axis sets (orthogonal, skewed, negative, left-handed), origins, unit integrands",
     "the tests use one orthogonal grid",
     [G], [("lattice", G + ": CubicGrid.__init__"), ("weights", G + ": CubicGrid._choose_weight_scheme")],
     "all shapes up to 4x4x4 and all unit integrands")
prop("C12", "A grid built for a molecule covers it with the requested margin",
     "The cubic grid generated for a set of atoms has the requested spacing along mutually orthogonal axes, "
     "contains every atom with at least the requested margin, less one spacing, on all sides, and is centred on the "
     "molecule. With rotation the axes are the principal axes of the nuclear charges, without it they are the "
     "Cartesian axes; moving the molecule moves the grid with it.",
     ["inputs", "configurations"],
     "all molecules of a lattice of one to four atoms (including single atoms, linear and planar ones), charges, "
     "spacings, margins, rotation settings",
     "the tests check one molecule without looking at the placement of atoms",
     [G], [("construction", G + ": CubicGrid.from_molecule")], "all molecules from the lattice alphabet")
prop("C13", "Every shipped wavefunction loads to exactly the contents of its file",
     "Loading a neutral atom, cation or anion returns exactly the configuration, energies, cusp values, orbital names, "
     "energies, occupations, exponents, principal numbers and coefficients in its file, for any letter case of "
     "the symbol. The result does not depend on what was loaded before, and a species without a file is refused.",
     ["inputs", "histories"],
     "every shipped file, every letter case, every symbol without a file, sequences of loads",
     "the tests load a few light elements",
     [S, D], [("parser", S + ": load_slater_wfn"), ("front end", D + ": SlaterAtoms")],
     "all shipped files; two recorded known findings (cs cation, ag anion)")
prop("C14", "Slater densities follow the wavefunction and integrate to the electrons",
     "For every shipped atom and ion the total density is the occupation-weighted sum of squared radial orbitals over "
     "4 pi, the valence density weights each orbital by exp(-(e - e_homo)^2) with the highest occupied "
     "energy, and the core density is the rest. The total integrates to the number of electrons, each orbital to "
     "one, and results do not depend on the order, number or type of the points.",
     ["inputs", "configurations"],
     "all shipped species, all density kinds, point sets (origin, repeated, unordered, far, integer)",
     "the tests check few elements at few points",
     [D], [("orbitals", D + ": slater_orbital, phi_matrix"), ("densities", D + ": atomic_density")],
     "every species and density kind against an independent evaluation")
prop("C15", "Slater density gradients and kinetic energies are exact",
     "For every shipped species the derivative of the density is the exact radial derivative of the total "
     "density, and the positive-definite kinetic energy density is the documented sum over "
     "occupied orbitals at every point away from the origin, with the documented treatment near the origin. The kinetic "
     "energy density is non-negative and integrates to the kinetic energy in the file.",
     ["inputs"],
     "all shipped species, all point sets",
     "the tests check a few elements at a few points",
     [D], [("gradient", D + ": derivative_density"), ("kinetic energy", D + ": positive_definite_kinetic_energy")],
     "every species against an independent evaluation and finite differences")
prop("C16", "Universal basis-set exponents are exactly those of the shipped table",
     "For every element of the shipped table the returned s, p, d and f exponents are exactly the table's, complete "
     "and in its order, for any letter case of the symbol. A name that is not in the table has no exponents, "
     "similar symbols are never mixed up, and one lookup does not influence another.",
     ["inputs", "histories"],
     "every element, every spelling, ordered pairs of lookups",
     "the tests check two elements",
     [U, "bfit/data/ygbs"], [("parser", U + ": get_ugbs_exponents")],
     "the whole table, independently parsed and digested")
prop("C17", "One fixed-point iteration is the documented self-consistent update",
     "One iteration of the Kullback-Leibler fixed-point method replaces each coefficient by its overlap with "
     "the density-to-model ratio divided by the multiplier and each exponent by the documented ratio of overlaps with "
     "the s or p prefactor, all computed from the model before the update. Parameters that are not "
     "optimized stay untouched, and points at or below the mask count as ratio one.",
     ["inputs", "configurations"],
     "all grids (radial, cubic, molecular), layouts, parameters, selections, masks, totals, spherical settings",
     "the tests check one or two updates on one grid",
     [F], [("update", F + ": KLDivergenceFPI._update_params"), ("multiplier", F + ": KLDivergenceFPI.__init__")],
     "every combination of the alphabets against the reference formula")
prop("C18", "Fixed-point iterations conserve the total and never worsen the fit",
     "Along any run of the fixed-point method from positive parameters and unmasked points, the coefficients stay "
     "non-negative and sum to the requested total after every coefficient update, the exponents stay positive, and "
     "the Kullback-Leibler objective never increases when the grid integrates the functions accurately. An exact fit is "
     "a fixed point; scaling the density scales the coefficients, and permuting the functions or "
     "relisting the centres permutes the result.",
     ["inputs", "histories"],
     "every iterate of runs from all starts of the alphabets, all layouts and totals",
     "the tests look at the final result of few runs",
     [F], [("iteration", F + ": KLDivergenceFPI.run, _update_params")], "every iterate is checked, not only the last")
prop("C19", "A fixed-point run stops, reports and can be repeated as documented",
     "A run stops at the first iteration where the coefficient, exponent and objective criteria of the "
     "documentation are met or the iteration limit is reached, and reports one objective and one row of measures "
     "per iteration, all belonging to the parameters of that iteration. Success is reported exactly when it converged "
     "to finite parameters within the limit; display changes nothing, and repeated or split runs "
     "on one object give what fresh objects give.",
     ["histories", "configurations"],
     "all combinations of thresholds (zero, loose, decisive in each criterion), limits, selections, starts, and sequences of "
     "runs on one object",
     "the tests run to convergence once or twice and look at the end only",
     [F], [("loop and result", F + ": KLDivergenceFPI.run")], "every stopping pattern in the threshold alphabet")
prop("C20", "The optimizer is given the documented objective, gradient and constraint",
     "The objective handed to the optimizer is the weighted integral of the chosen measure of the density and model, "
     "its gradient the exact derivative with respect to the optimized parameters only, and the "
     "constraint the integral of the model minus the requested total. This holds when both, only coefficients or "
     "only exponents are optimized, for every grid, measure, weight and integration setting.",
     ["inputs", "configurations"],
     "all grids, layouts, measures, weights, selections, totals, parameters",
     "the tests check a few objectives through the final fit",
     [F], [("objective", F + ": ScipyFit.func"), ("constraint", F + ": ScipyFit.const_norm"),
           ("selection", F + ": ScipyFit.evaluate_model")], "every combination against reference integrals")
prop("C21", "Whatever the optimizer answers is posed and reported faithfully",
     "For any answer of the underlying optimizer (converged, failed, at a bound, unordered, not finite), the fit "
     "returns exactly the answered parameters in the optimized places and the caller's in the others, the optimizer's "
     "success and objective, and measures evaluated at those parameters. The problem posed has the "
     "documented start, positivity bounds, method, tolerance, iteration limit and constraint.",
     ["fault_sequences", "configurations", "histories"],
     "every answer of a scripted optimizer, all selections, methods, constraint settings, and repeated runs of one object",
     "the tests only see what the real optimizer happens to answer",
     [F], [("problem and result", F + ": ScipyFit.run")], "the optimizer is replaced by an enumerated environment")
prop("C22", "Successful fits are feasible, positive and no worse than their start",
     "With the real optimizers, a fit that reports success returns finite, non-negative parameters that satisfy the "
     "requested total when constrained, with reported objective and measures that belong to them, "
     "and no worse than a feasible start. Unselected parameters are returned unchanged, the caller's arrays are not "
     "modified, and a density that is such a model is recovered from a nearby start.",
     ["inputs", "configurations"],
     "all grids, sizes, measures, starts, selections, both methods, constraint and integration settings of the alphabet",
     "the tests run a handful of fits",
     [F], [("optimization", F + ": ScipyFit.run")], "all configurations of the alphabet with real optimizers")
prop("C23", "Reported goodness-of-fit numbers are the documented five",
     "The goodness of fit of any parameters is, in order, the integral of the model, the integrated absolute "
     "error, the largest absolute error, the integrated squared error and the integrated Kullback-Leibler divergence "
     "with the object's own mask, using the object's integration setting. It depends only on its arguments "
     "and is the same for both fitting classes.",
     ["inputs", "configurations"],
     "all grids, layouts, densities (zero regions, noisy), parameters, masks, integration settings",
     "the tests check it for one model",
     [F], [("measures", F + ": _BaseFit.goodness_of_fit")], "every combination against reference integrals")
prop("C24", "Calls neither modify the caller's data nor influence each other",
     "No evaluation, integration, measure, fit or search modifies arrays passed in or shared with the caller, "
     "except through the documented resize. In any sequence of calls on shared grids, models, measures and fits each "
     "call returns what it returns in isolation. Random numbers of the process are never reset, and only greedy searches "
     "draw from them.",
     ["histories"],
     "all operation sequences up to the bound over a set of shared objects",
     "each test builds fresh objects and makes one call",
     [M, ME, F, G, D], [("no caches or in-place updates", "all evaluate/integrate/run methods")],
     "all sequences to the bound; every result compared with an isolated call")
prop("C25", "The greedy search's initial guesses are exactly the documented ones",
     "From n sorted functions, adding one function proposes exactly the n+1 guesses that divide the first exponent, "
     "average neighbours or multiply the last one, adding two proposes exactly the unordered double applications, "
     "and adding two then dropping one proposes every single deletion of those. Coefficients of kept functions "
     "stay with their exponents, new ones get the given value, and inputs are not modified.",
     ["inputs"],
     "all sizes up to the bound, factors, exponent patterns, fill values",
     "the tests check sizes one to three with one factor",
     [GR], [("generators", GR + ": get_next_choices, get_two_next_choices, pick_two_lose_one")],
     "all sizes to 6 and all alphabets against a set-theoretic reference")
prop("C26", "Removing redundant functions conserves coefficients",
     "Merging functions with exponents closer than the threshold keeps the sum of the coefficients, keeps "
     "one original exponent per merged group in the original order, leaves every other function untouched and "
     "leaves no function whose exponent is close to one it could have been merged with. The inputs are "
     "not modified.",
     ["inputs"],
     "all arrangements of exponents up to the bound (equal, chains, at and around the threshold, unsorted)",
     "the tests check three arrays",
     [GR], [("grouping", GR + ": remove_redundancies")], "all arrangements up to length 6")
prop("C27", "The greedy search follows its documented protocol for every optimizer answer",
     "Whatever the optimizer answers to each guess, the search tries every documented guess of both kinds once, "
     "refines the best one, accepts it exactly when it is not worse, finite and without redundant functions, and otherwise "
     "returns to the previous size and doubles the factor. It stops exactly when the size limit, the change "
     "threshold or five successive rejections is reached, never exceeding the limit, and reports the last accepted "
     "parameters, counts, per-iteration records, success and reason of termination consistently.",
     ["fault_sequences", "histories", "configurations"],
     "all answer sequences up to the bounds (better via s or p, worse, equal, below threshold, NaN, redundant, huge), "
     "all choice functions, limits, thresholds, repeated runs",
     "the tests run two short searches whose answers are never unfavourable",
     [GR], [("search loop", GR + ": GreedyStrategy.run, _find_best_lparams"),
            ("termination", GR + ": _final_exit_info")],
     "explicit enumeration of a scripted environment in lock step with a reference state machine; one known finding")
prop("C28", "Complete greedy searches give consistent, feasible, improving models",
     "A greedy least-squares or Kullback-Leibler search with the real optimizers starts from the documented best "
     "single function, optimizes guesses and the chosen one from their non-negative least-squares coefficients within the "
     "limits given for each, and its accepted iterations have non-increasing objectives, sizes within the limit, "
     "non-negative parameters and measures that belong to them; Kullback-Leibler searches keep the requested total "
     "up to masked points, constrained searches the constraint. A single Gaussian is found exactly, for normalized and "
     "unnormalized models, radial and cubic grids, and searching again with the same object gives what a new object gives.",
     ["inputs", "configurations", "histories"],
     "all combinations of grid, density (with zeros, s+p, rising), choice function, normalization, integration setting, "
     "constraint, total and mask of the alphabet",
     "the tests run two searches to two functions",
     [GR], [("one-function solutions", GR + ": get_best_one_function_solution"),
            ("optimization routines", GR + ": get_optimization_routine")], "all configurations of the alphabet")
prop("C29", "Unusable arguments are refused and leave no trace",
     "Every public constructor and method refuses with an error any argument the documentation or library declares "
     "unusable (wrong type, shape, range, inconsistent sizes, unknown option), and accepts the usable ones, in any "
     "combination. After any refused call the object answers a valid call exactly like a fresh object.",
     ["inputs", "histories", "configurations"],
     "all entry points x all combinations of usable and unusable arguments within the deviation bound",
     "the tests try single wrong arguments for part of the entry points and never use the object afterwards",
     [M, G, ME, F, GR, D], [("argument checks", "raise statements of every class")],
     "all combinations up to the deviation bound")
prop("C30", "Published fits, wavefunctions and fitting code agree for every element",
     "For each of the 54 published elements and both methods, the two file formats hold the same positive model of "
     "the stated size with the electron number as coefficient sum, and the model evaluates, integrates and compares to "
     "the Slater density within the published quality. The published fixed-point models are stationary under "
     "the library's own update, and the documented workflow from universal basis-set exponents improves "
     "monotonically towards, but not below, the published optimum.",
     ["inputs", "configurations"],
     "all elements, both methods, both formats, every workflow iterate",
     "the tests never touch the published results",
     ["bfit/data", M, F, D, U], [("published data", "bfit/data/kl_*_results.*"), ("workflow", "README.md")],
     "all elements; physical tolerances")
prop("C31", "An argument left out means its documented default",
     "For every public constructor, method and function, leaving out any combination of optional arguments gives exactly "
     "what passing their documented defaults gives, whatever the other arguments are. Optional arguments given by position, "
     "in the documented order, mean the same as given by name.",
     ["inputs", "configurations"],
     "all public callables, all combinations of omitted arguments with the others at or away from their default",
     "the tests pass most arguments explicitly and compare no two ways of passing them",
     [M, G, ME, F, GR, D, "bfit/_slater.py"], [("signatures", "def __init__ and public methods of every module")],
     "all combinations up to the deviation bound; optimizer settings observed at scipy.optimize.minimize")
prop("C32", "What is displayed during a run is what happened",
     "With display on, fixed-point runs, optimizer runs and greedy searches print exactly one row per iteration (per "
     "optimizer callback), in order, holding the numbers of that iteration: its index or function counts, the five "
     "goodness-of-fit numbers and the changes since the last one. The success, parameters and reason of termination "
     "displayed at the end are those returned, and display changes nothing in what is returned.",
     ["histories", "configurations"],
     "all runs, callback sequences and answer sequences within the bounds",
     "the tests never look at the display",
     [F, GR], [("fixed-point display", F + ": KLDivergenceFPI.run"), ("optimizer display", F + ": ScipyFit.run"),
               ("greedy display", GR + ": GreedyStrategy.run")],
     "printed digits; layout not claimed")
prop("C33", "Concurrent calls on shared objects return what each returns alone",
     "Models, measures, grids, fitting objects and atoms hold no working state: two calls on one object from two threads, "
     "interleaved in any way, both return exactly what they return when made one after the other, and neither raises. The "
     "same holds for concurrent calls of the functions that load wavefunctions and exponents or construct candidates.",
     ["schedules"],
     "all pairs of operations x all schedules with one switch at any source line (two and three for short calls)",
     "the tests are single-threaded",
     [M, G, ME, F, GR, D, "bfit/_slater.py", U],
     [("evaluations", M + ": evaluate"), ("fits", F + ": run, func"), ("loading", "bfit/_slater.py: load_slater_wfn")],
     "two threads; switches between source lines; calls documented to change an object are excluded")
prop("C34", "A call stopped by an error or interrupt leaves nothing behind",
     "When an operation anywhere inside a call fails, be it an error of the caller's own grid, measure, optimizer callback or "
     "output stream, or an interrupt, exactly that exception reaches the caller. Afterwards the caller's data and the "
     "process-wide settings are unchanged, and every object involved gives the results a fresh one gives; only a resize or "
     "greedy search has to be made again, which then gives its usual result.",
     ["fault_sequences", "histories"],
     "every operation of every call on 16 families of shared objects fails once; the k-th use of each of the caller's "
     "objects fails, for every k",
     "tests never make a call fail half-way",
     [M, G, ME, F, GR, D, "bfit/_slater.py", U],
     [("fits", F + ": run, func, goodness_of_fit"), ("greedy run", GR + ": GreedyStrategy.run"), ("measures", ME + ": evaluate")],
     "failures inside clean-up code (finally, exits of with statements) are excluded")
prop("C35", "How arrays are laid out in memory does not matter",
     "Every public call gives the same answer for arrays that hold the same numbers, whether they are contiguous, strided, "
     "reversed, columns or transposes of larger tables, Fortran-ordered, unaligned, of the other byte order, repeated from one "
     "stored number, read-only or of a derived array class, in any combination. Nothing is written to them or to the memory "
     "beside them.",
     ["inputs", "configurations"],
     "23 entry points x all layouts of their array arguments within the deviation bound",
     "tests pass freshly made contiguous arrays only",
     [M, G, ME, F, GR, D],
     [("evaluations", M + ": evaluate"), ("measures", ME + ": evaluate"), ("fits", F + ": run, func"),
      ("guesses", GR + ": get_next_choices")],
     "numbers that are equal in value and width; results compared within rounding, searches within 1e-6")
prop("C36", "Copied and pickled objects answer like the original and independently",
     "Grids, models, measures, fitting objects, greedy searches and atoms can be copied, deep-copied and pickled at any "
     "moment. In every later sequence of calls on original and copy each call returns what it returns on a fresh object, and "
     "a resize or search on one leaves the other as it was, except for what a shallow copy shares.",
     ["histories"],
     "15 kinds of objects x 5 ways of copying x all sequences of calls before and after, on original and copy in every order",
     "the tests never copy or pickle an object",
     [M, G, ME, F, GR, D],
     [("models", M + ": constructors"), ("fits", F + ": constructors"), ("greedy", GR + ": GreedyStrategy"),
      ("atoms", D + ": SlaterAtoms")],
     "one process; objects are restored where they were stored")
prop("C37", "Order of listing, placement and unit of length do not matter",
     "Listing the centres, their functions or the points of evaluation in another order, listing coincident functions as one "
     "centre or several, moving or rotating everything together, or measuring it in another unit of length changes no answer of "
     "models, fits and objectives beyond the corresponding reordering and rescaling. Each number returned stays attached to the "
     "same function, centre and point, and a one-centre molecular model equals the atomic one.",
     ["inputs", "configurations"],
     "6 molecules x orders of centres, functions and points x groupings x placements x units, within the deviation bound",
     "tests fix one listing of one molecule at one place",
     [M, F, ME],
     [("models", M + ": evaluate, assign_basis_to_center"), ("fits", F + ": run, goodness_of_fit, func, const_norm")],
     "up to 5 centres and 9 functions; results compared within 1e-8")
prop("C38", "The same calls give the same results in any process",
     "A sequence of calls into every part of the package gives the same results whichever module is imported first, wherever "
     "the process was started, whatever the interpreter's optimization, hashing, text and warning settings, NumPy's print and "
     "error settings, the place the package is installed in and the state of the output streams, and in threads and forked "
     "processes. It leaves no files behind.",
     ["configurations"],
     "9 first imports x directories x flags x hash seeds x text settings x places x numerical settings x callers x streams, "
     "within the deviation bound, each in a process of its own",
     "tests run in one process, from one directory, with one interpreter setting",
     [M, G, ME, F, GR, D, "bfit/_slater.py", U, "bfit/__init__.py"],
     [("data files", "bfit/_slater.py: load_slater_wfn; " + U + ": get_ugbs_exponents"), ("imports", "bfit/__init__.py"),
      ("progress output", F + ": run; " + GR + ": run")],
     "one platform and interpreter; results compared within 1e-9")
prop("C39", "The number of points, functions or centres makes no difference",
     "What a model, measure or atom gives at a point does not depend on how many other points are asked for in the same call, "
     "from one to hundreds of thousands, and integrals made by fits and grids over any number of points are the sums over their "
     "parts. Models of any number of functions on any number of centres are the sums of their functions, with gradients, "
     "prefactors and centres attached to the right function.",
     ["inputs"],
     "17 pointwise and 15 integrated results and 3 grids x every small and round number of points; every small and round number "
     "of functions and centres",
     "tests use a few sizes; code handling points in blocks goes wrong at particular ones",
     [M, G, ME, F, D],
     [("models", M + ": evaluate, assign_basis_to_center"), ("measures", ME + ": evaluate"), ("densities", D + ": SlaterAtoms"),
      ("integrals", F + ": func, const_norm, goodness_of_fit, run; " + G + ": integrate")],
     "results compared within 1e-9; the listed sizes")
prop("C40", "Number types do not change answers",
     "Arrays of whole numbers may be given as 32-bit or 64-bit integers, and any numbers in double, extended or (to its own "
     "accuracy) single precision or another byte order, in any combination over the arguments of a call, and the answer is that "
     "for the same values in double precision. The same holds for whole scalars given as Python or NumPy numbers, except where "
     "only Python numbers are accepted, and a radial grid has the number type asked for, whatever the type of its extra points.",
     ["inputs", "configurations"],
     "23 entry points x all number types of their array arguments within the deviation bound; 25 scalar arguments x 7 types",
     "tests use double precision almost everywhere",
     [M, G, ME, F, GR, D],
     [("models", M + ": evaluate"), ("measures", ME + ": evaluate"), ("fits", F + ": run, func"), ("grids", G + ": constructors"),
      ("guesses", GR + ": get_next_choices, remove_redundancies"), ("densities", D + ": SlaterAtoms")],
     "signed integers of 32 or more bits; complex numbers and objects excluded")
prop("C41", "The caller's own grids and measures are used through their interface",
     "Fits and searches see a grid only through its points and integrate method and a measure only through evaluate: with a grid "
     "of the caller's own (any quadrature rule, order or dimension of the points, an instance of any class or of a subclass of a "
     "library grid) and any measure of the caller's own, objectives, gradients, constraints, fixed-point updates and goodness-of-fit "
     "numbers are the documented formulas with exactly those. Wrapping a library grid or measure, or subclassing a model, changes "
     "no result of a fit or search.",
     ["inputs", "configurations"],
     "5 point sets x 5 kinds of grid x 5 models x 6 measures x weights, totals and selections; runs and searches of every kind with "
     "wrapped objects",
     "tests use the package's own grids and measures only",
     [F, GR, G, ME],
     [("fits", F + ": _BaseFit.integrate, func, const_norm, goodness_of_fit, run"), ("searches", GR + ": eval_obj_function, run")],
     "grids with a length; models are subclasses of the library's")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf8") as f:
        for i, p in sorted(P.items()):
            f.write(json.dumps({
                "id": i, "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "true",
           "checks": [{"property": i, "quick_cmd": f"bash check.sh {i}",
                       "thorough_cmd": f"bash check.sh {i} --tier thorough",
                       "technique": "stateless model checking of the real code: exhaustive enumeration of all choice "
                                    "sequences (operations, inputs from finite alphabets, environment answers) within "
                                    "stated bounds, each execution compared in lock step with a reference model",
                       "level": "model_checking", "level_note": "bounded: " + p["note"]}
                      for i, p in sorted(P.items())],
           "not_applicable": [],
           "notes": "No hooks in /repo. Checks import bfit from /repo's working tree (no build products needed)."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf8") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
