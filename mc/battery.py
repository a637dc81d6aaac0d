"""Calls of every part of the package, run in a process of its own (see checks/c38.py): writes their results as JSON."""
import importlib
import io
import json
import os
import sys
import threading
import traceback
import warnings


def flat(x, out):
    import numpy as np
    if isinstance(x, dict):
        for k in sorted(x):
            if k != "time":
                flat(x[k], out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            flat(y, out)
    elif isinstance(x, str):
        out.append(x)
    else:
        out.extend(float(y) for y in np.asarray(x, dtype=float).ravel())
    return out


def results():
    import numpy as np
    from bfit.density import SlaterAtoms
    from bfit.fit import KLDivergenceFPI, ScipyFit
    from bfit.greedy import GreedyKLFPI, GreedyLeastSquares, get_two_next_choices, pick_two_lose_one, remove_redundancies
    from bfit.grid import ClenshawRadialGrid, CubicGrid, UniformRadialGrid
    from bfit.measure import KLDivergence, SquaredDifference, TsallisDivergence
    from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
    from bfit.parse_ugbs import get_ugbs_exponents
    from bfit._slater import load_slater_wfn
    u = UniformRadialGrid(15, 0.1, 5.0, np.float64)
    k = ClenshawRadialGrid(6, 8, 9, extra_pts=[40.0])
    f = 2.0 * np.exp(-1.3 * u.points) + 0.05
    c, e = np.array([0.8, 1.2, 0.5]), np.array([0.5, 2.0, 0.9])
    m = AtomicGaussianDensity(u.points, num_s=2, num_p=1, normalize=True)
    out = {}
    out["grids"] = [u.points, k.points, u.integrate(f), k.integrate(np.exp(-k.points)),
                    CubicGrid.from_molecule(np.array([1.0, 8.0]), np.array([[0.0, 0.1, 0.2], [1.0, 0.0, 0.5]]), 0.9, 0.6).points]
    xyz = np.arange(12.0).reshape(4, 3) / 5.0
    q = MolecularGaussianDensity(xyz, xyz[:2] + 0.1, np.array([[1, 1], [1, 0]]), True)
    out["models"] = [m.evaluate(c, e, deriv=True), q.evaluate(c, e, deriv=True), [q.assign_basis_to_center(i) for i in range(3)]]
    g = f[::-1].copy()
    out["measures"] = [x.evaluate(f, g, deriv=True) for x in (SquaredDifference(), KLDivergence(1e-3), TsallisDivergence(1.4))]
    p = KLDivergenceFPI(u, f, m, spherical=True)
    out["fixed point"] = [p.goodness_of_fit(c, e), p.run(c, e, maxiter=4, disp=True)]
    for method in ("slsqp", "trust-constr"):
        s = ScipyFit(u, f, m, measure=KLDivergence(1e-12), method=method, spherical=True)
        out["objective " + method] = [s.func(np.concatenate((c, e))), s.const_norm(np.concatenate((c, e)))]
        r = s.run(c, e, maxiter=2, disp=True)
        out["fit " + method] = [r["coeffs"], r["exps"], r["performance"], r["success"]]
    out["guesses"] = [get_two_next_choices(2.0, c[:2], e[:2]), pick_two_lose_one(2.0, c[:2], e[:2]),
                      remove_redundancies(c, np.array([0.5, 0.5001, 0.9]), 10.0)]
    np.random.seed(5)
    for s in (GreedyLeastSquares(u, f, l_maxiter=3, g_maxiter=3), GreedyKLFPI(u, f, l_maxiter=3, g_maxiter=3, spherical=True)):
        r = s.run(2.0, max_numb_funcs=2, disp=True)
        out["search " + type(s).__name__] = [r["coeffs"], r["exps"], r["num_s"], r["num_p"], r["success"]]
    s = GreedyLeastSquares(u, f, choice="pick-two", local_tol=1e-6, global_tol=1e-7, method="SLSQP", normalize=True,
                           l_maxiter=2, g_maxiter=2, with_constraint=False)
    r = s.run(3.0, max_numb_funcs=3, disp=True)
    out["search in twos"] = [r["coeffs"], r["exps"], r["num_s"], r["num_p"]]
    out["one function"] = [x.get_best_one_function_solution() for x in
                           (GreedyLeastSquares(u, f), GreedyKLFPI(u, f, spherical=True))]
    h = 0.3 + np.exp(-np.linalg.norm(xyz, axis=1))

    class Weights:
        points = xyz

        def integrate(self, arr):
            return float(np.dot(arr, [0.5, 1.0, 0.25, 0.75]))
    p = KLDivergenceFPI(Weights(), h, q, mask_value=1e-12, integral_dens=1.5)
    out["molecular fit"] = [p.lagrange_multiplier] + [list(p.run(c, e, *o, maxiter=3).values())[:2] for o in
                                                      ((True, True), (True, False), (False, True))]
    s = ScipyFit(Weights(), h, q, measure=TsallisDivergence(1.3), weights=np.array([1.0, 2.0, 0.5, 1.5]), method="slsqp")
    r = s.run(c, e, maxiter=2, with_constraint=True, disp=True)
    out["molecular optimizer"] = [s.func(e, "fixed_coeffs", c), s.func(c, "fixed_expons", e), r["coeffs"], r["exps"]]
    m.change_numb_s_and_numb_p(1, 2)
    out["resized"] = [m.evaluate(c, e, deriv=True), m.prefactor]
    refused = []
    for fn in (lambda: get_ugbs_exponents(5), lambda: load_slater_wfn("zz"), lambda: load_slater_wfn("he", anion=True),
               lambda: UniformRadialGrid(-1), lambda: ClenshawRadialGrid(6, 5, 5, 3.0), lambda: u.integrate([1.0]),
               lambda: KLDivergence().evaluate(f, g[1:]), lambda: KLDivergence().evaluate(f, -g), lambda: m.evaluate(c[:2], e[:2]),
               lambda: AtomicGaussianDensity(u.points), lambda: KLDivergenceFPI(u, f[1:], m), lambda: ScipyFit(u, f, m, measure="x"),
               lambda: SlaterAtoms("h").atomic_density(u.points, "bad"), lambda: q.assign_basis_to_center(3),
               lambda: CubicGrid(c, np.eye(2), (1, 1, 1)), lambda: GreedyLeastSquares(u, f).run(0.5, max_numb_funcs=2),
               lambda: KLDivergenceFPI(u, f, AtomicGaussianDensity(u.points, num_s=1)).run(c, e, maxiter=1)):
        try:
            fn()
            refused.append("accepted")
        except Exception:
            refused.append("refused")
    out["refusals"] = refused
    out["exponents"] = [[get_ugbs_exponents(x)[y] for x in ("h", "Li", "xe", "rn", "AG")] for y in "SPDF"]
    for x in ("h", "be", "C", "ne", "ag", "Cr", "xe", "rn", "lr"):
        a = SlaterAtoms(x)
        out["atom " + x] = [a.energy, a.kinetic_energy, a.potential_energy, a.configuration, list(a.orbitals), a.orbitals_energy,
                            a.orbitals_cusp, a.orbitals_occupation, sorted(a.orbitals_exp), list(a.orbitals_exp.values()),
                            list(a.orbitals_coeff), list(a.orbitals_coeff.values()), list(a.basis_numbers.values()),
                            a.atomic_density(u.points), a.atomic_density(u.points, "core"), a.atomic_density(u.points, "valence"),
                            a.derivative_density(u.points), a.positive_definite_kinetic_energy(u.points)]
    for x, sign in (("c", "anion"), ("H", "anion"), ("c", "cation"), ("Xe", "cation")):
        w = load_slater_wfn(x, **{sign: True})
        out[f"{sign} {x}"] = [w["energy"], list(w["orbitals"]), w["orbitals_energy"], w["orbitals_cusp"], w["orbitals_occupation"],
                              list(w["orbitals_coeff"]), list(w["orbitals_coeff"].values()), sorted(w["orbitals_exp"])]
    return {a: flat(b, []) for a, b in out.items()}


def main():
    cfg = json.loads(sys.argv[1])
    for name in cfg["first"]:
        importlib.import_module(name)
    import numpy as np
    if "print" in cfg["settings"]:
        np.set_printoptions(precision=2, threshold=3, suppress=True, floatmode="fixed")
    if "ignore" in cfg["settings"]:
        np.seterr(all="ignore")
    if "warn" in cfg["settings"]:
        np.seterr(all="warn")
        warnings.simplefilter("always")
    if "recursion" in cfg["settings"]:
        sys.setrecursionlimit(250)
    if cfg["removed"]:
        os.rmdir(os.getcwd())
    real = sys.stdout
    if cfg["stream"] == "none":
        sys.stdout = sys.stderr = None
    elif cfg["stream"] == "file":
        sys.stdout = open(os.devnull, "w", encoding="utf8")
    else:
        sys.stderr = io.StringIO()
    box = {}
    try:
        if cfg["caller"] == "thread":
            t = threading.Thread(target=lambda: box.update(results()))
            t.start()
            t.join()
        elif cfg["caller"] == "fork":
            first = results()
            pid = os.fork()
            if pid:
                status = os.waitpid(pid, 0)[1]
                os._exit(1 if status else 0)
            box = results()
            if json.dumps(box) != json.dumps(first):
                box = {"the forked process gives other results": []}
        else:
            box = results()
    except BaseException:
        traceback.print_exc(file=sys.__stderr__)
        os._exit(3)
    sys.stdout = real
    with open(cfg["out"], "w", encoding="utf8") as f:
        json.dump(box, f)


if __name__ == "__main__":
    main()
