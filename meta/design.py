"""Writes DESIGN.md from meta/props.py, the checks' BOUNDS / ASSUMPTIONS, meta/design_*.md and meta/caught.json."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "meta"))
import props  # noqa: E402

# id: what decides it (enumeration, oracle)
HOW = {
 "C01": "Enumerates model layouts, point sets, parameter patterns, number types and sizes (up to blocks of 4099 points x 64 functions, where a blocked or vectorised implementation changes regime) and compares every value with a scalar sum written from the documented formula with math.fsum.",
 "C02": "As C01 for the gradient: every column against the analytic derivative of the reference, plus central differences of the code's own values, so that reference and code cannot share a mistake.",
 "C03": "Every layout of the alphabet is integrated by the code's own grids; the oracle is the sum of the coefficients (and, unnormalized, the closed-form integrals).",
 "C04": "Explicit enumeration of operation histories (resize, refused resize, refused evaluation, evaluation with and without gradient); after every step the object must be indistinguishable from a fresh model, and arrays returned earlier must not change. Two models on shared points, and molecular models, likewise.",
 "C05": "All layouts x all indices against a flat list of (centre, kind) pairs.",
 "C06": "The pointwise formula is evaluated in extended precision for every pair of a density/model lattice that contains zero, subnormals, mask boundaries, huge and negative values, inside several array embeddings (neighbours must not matter), all masks, exponents and number types.",
 "C07": "As C06 for the derivative, and the code's own values are differenced.",
 "C08": "All pairs of histograms over a weight alphabet; the laws (sign, zero, order in the exponent, limits, symmetry, homogeneity, permutation) need no reference formula.",
 "C09": "All counts, atomic numbers, origin settings, extra points and containers; points compared with the documented formula in extended precision.",
 "C10": "Every unit vector is integrated, which determines the linear rule completely; linearity is decided on all 0/1 integrands.",
 "C11": "All shapes, axes, origins; all unit integrands.",
 "C12": "All molecules of a lattice alphabet; the oracle is geometry (distances of every atom to every face along the axes, orthogonality, spacing, eigenvectors of the charge inertia tensor), not the construction formula.",
 "C13": "Every shipped file against an independent reader (tar members included); every ordered pair of loads of a pool; every symbol without data.",
 "C14": "Every species x density kind x point set against an independent evaluation of the file contents; electron count and orbital norms by an independent Gauss-Legendre quadrature on geometric panels; all ordered pairs of calls of one object.",
 "C15": "As C14 for derivative and kinetic energy, plus central differences and the kinetic energy printed in the file.",
 "C16": "The table is read by an independent parser and additionally pinned by digests of the published exponents (refdata/ugbs_digests.json), so that an edit of data and parser together is seen.",
 "C17": "One to four iterations with thresholds that never stop, from every start; result compared with the documented update applied to the reference model.",
 "C18": "Inductive invariants checked on every state of a run (the run is cut after k iterations for every k), not only at the end; metamorphic relations (scaling, permutation, relisting) and the exact-fit fixed point.",
 "C19": "The stopping iteration is provoked at every index through each threshold separately and jointly, with limits below, at and above it; the thresholds are derived from the observed history of an unconstrained run, so the expected stopping iteration is known exactly.",
 "C20": "Objective, gradient and constraint functions are evaluated for the whole configuration product and compared with reference integrals and slopes; interleaved call sequences on one object must agree with fresh objects.",
 "C21": "scipy.optimize.minimize is replaced by an enumerated environment which inspects the posed problem completely and answers every way the alphabet offers (fault injection at the optimizer boundary); two and three runs of one object under different answers.",
 "C22": "Real optimizers over the whole configuration product; the oracle is the contract (feasible, finite, bounded, no worse than a feasible start, measures belong to the parameters), exact models must be recovered.",
 "C23": "All grids x layouts x densities x parameters (also negative, zero) x masks against the five reference integrals, through every kind of fitting object.",
 "C24": "All sequences of operations on a world of shared objects; each result must be bit-identical to the same call on fresh objects, every caller-owned array must be unchanged, arrays are read-only in half of the executions, returned arrays are overwritten in the other half.",
 "C25": "All exponent arrangements up to the bound; candidate sets compared as multisets with a set-theoretic definition.",
 "C26": "All arrangements (equal, chains, at / around the threshold, unsorted) against group-wise laws: conservation, survivors are originals in order, no mergeable pair left.",
 "C27": "Lock-step exploration: the optimizer, the one-function solution and the candidate functions are an enumerated environment (all answer sequences up to the bounds), the reference model is a state machine of the documented protocol that checks every request of the code (which guess, which size, which factor, when to stop) and the final report.",
 "C28": "The real greedy searches over the configuration product; oracle: best one-function solution by independent weighted fits (also of densities that rise over most of the grid, where some weightings give no Gaussian), monotone accepted history, feasibility, measures recomputed from the reported parameters, exact recovery of one Gaussian, repeatability of one object.",
 "C29": "For every entry point the product of usable and unusable values per argument within a deviation bound (0, 1, 2, 3 unusable arguments); a call must be refused exactly when some argument is unusable, and the object afterwards answers like a fresh one.",
 "C30": "All 54 elements x 2 methods x 2 file formats: agreement of the formats, electron count, quality relative to the Slater density, stationarity of the FPI models under the code's own update, monotone workflow from UGBS exponents.",
    "C31": "The real callables are called with every combination of omitted, given and changed arguments and with every number of positional ones; each observation (returned values, public attributes, the problem handed to a recording optimizer, scripted greedy searches) must equal the one with all documented defaults passed by name. Defaults stated in the descriptions must be those.",
    "C32": "Real fixed-point runs, ScipyFit.run under a stub that calls back a chosen sequence of points, and greedy searches under scripted answers run with the display captured; each printed row must hold, to its printed digits, the numbers of that iteration computed from fresh shorter runs or from the script.",
    "C33": "Two real threads run under a controlled scheduler (a trace function hands control over before chosen source lines of the package, one thread runs at a time); every ordered pair of operations of eleven families of shared objects is run under every schedule with one switch at any line (long calls: at the first, second and last arrival at each distinct line), and with two or three switches for short calls; both results must be bit-identical to those of the calls made alone on objects of their own.",
    "C34": "Fault injection on the real code: a trace function raises an error or an interrupt at a chosen operation (source line that can fail) of the package, for every operation of every call of sixteen families of shared objects (long calls: first, second, middle and last arrival at each distinct place); further the k-th use of the caller's grid, measure, optimizer, output stream or extra-choice function fails, for every k. The exception must come out as the same object, numpy's and the process's settings and the caller's arrays be unchanged, and every call repeated on the same objects be bit-identical to the call on fresh ones. Lines that only bind names and clean-up code (finally blocks, handlers, with headers) are not failed, since no program could recover from that.",
    "C35": "Every entry point is called with its array arguments (one or two value sets) as plain contiguous copies, and then with every argument laid out in every way (strided, inner slice, column of a table, negative stride, read-only, swapped byte order, unaligned, derived class, zero stride, Fortran order, transposed window), up to the stated number of unusual layouts at once and all alike. Results are compared with those of the plain call within rounding; guard values surround every view and the whole underlying buffer must stay byte-identical.",
    "C36": "Every kind of object is made, used by every earlier call (or none), copied in every way (copy, deepcopy, pickle protocols 2, 4, 5), and then every sequence of calls is made on original and copy in every assignment; each answer is compared with that of the same call on a fresh object. A second scenario resizes or searches with one and checks that the sizes reported by the other are unchanged.",
    "C37": "For six molecules every order of centres, of functions within a kind and of points, every grouping of coincident functions into centres, and placements (translation, rotation, reflection) and units of length are enumerated within the deviation bound; every value, gradient, index, fit result and objective, mapped back by the known permutation and power of the unit, must equal that of the first listing.",
    "C38": "mc/battery.py makes a fixed run of calls into every part of the package; it is run in a process of its own for every combination of settings within the deviation bound (first import, working directory - also a removed one and one with decoy data files -, interpreter flags, hash seed, text encoding, place of the package, numerical settings, thread or forked caller, output streams) on a scratch copy of the package, and its results compared with those of the default process; directories are listed before and after.",
    "C39": "A table made from single points (the first 300), then blocks of 7 and of 89, is the reference for the first n points (also shifted by 1 and 12) at every n up to 130 and every power of two and ten with its neighbours, and other round numbers, up to 131072; integrals are compared with the sum over the same blocks. Grids of every such size, models of every small and round number of functions and molecules of every small and round number of centres are compared with direct sums.",
    "C40": "The entry points of C35 are called with whole-numbered (and, for non-integer types, also fractional) values in every combination of 64- and 32-bit integers, single, double, extended precision and swapped byte order within the deviation bound, and all alike; 25 scalar arguments get whole values in 7 Python and NumPy types; results are compared with those of the same values in double precision. Radial grids are built in every type with and without extra points.",
    "C41": "Quadratures of the caller's own (Gauss-Legendre nodes in scrambled order, repeated points, zero weights, scattered points in the plane and in space), held by an unrelated class, a slotted class, an object with a callable attribute and subclasses of library grids, are combined with 5 kinds of model, spherical integration, selections, totals, weights and six measures, three of them the caller's own; fixed-point steps, objective, gradient, constraint and goodness of fit are compared with direct sums. Runs and searches of every kind with wrapped grids and measures and subclassed models must equal, number for number, those with the library's objects.",
}


def bounds(i):
    path = os.path.join(HERE, "checks", i.lower() + ".py")
    out = {}
    env = {}
    if i == "C07":
        path = os.path.join(HERE, "checks", "c06.py")
    for node in ast.parse(open(path, encoding="utf8").read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Name, ast.Subscript)):
            src = ast.unparse(node)
            if src.startswith(("BOUNDS", "ASSUMPTIONS")):
                try:
                    exec(src, env)
                except Exception:
                    pass
    return env.get("BOUNDS", {}), env.get("ASSUMPTIONS", [])


def main():
    out = [open(os.path.join(HERE, "meta", "design_head.md"), encoding="utf8").read().rstrip(), "\n## Properties and how each is decided\n"]
    for i, p in sorted(props.P.items()):
        b, a = bounds(i)
        out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
        out.append(f"- Decided by: {HOW[i]}")
        out.append(f"- Bounds (quick): {b.get('quick', '')}.")
        out.append(f"- Bounds (thorough): {b.get('thorough', '')}.")
        out.append(f"- Why tests cannot: {p['why']}.")
        if a:
            out.append("- Assumptions: " + "; ".join(a) + ".")
        out.append("")
    out.append(open(os.path.join(HERE, "meta", "design_tail.md"), encoding="utf8").read().rstrip())
    rows = []
    caught = {}
    path = os.path.join(HERE, "meta", "caught.json")
    if os.path.exists(path):
        caught = json.load(open(path, encoding="utf8"))
    for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        d = json.load(open(m, encoding="utf8"))
        n = os.path.basename(os.path.dirname(m))
        rows.append(f"| {n} | {d['property']} | {d['what_it_breaks']} | {', '.join(caught.get(n, [])) or '-'} |")
    if rows:
        out.append("\n## Planted changes and the checks that catch them\n\n(`meta/seedtest.py` applies each in turn and "
                   "runs the checks; a check counts when it exits 1 with its VIOLATION line.)\n\n"
                   "| change | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
    with open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf8") as f:
        f.write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
