r"""C29: unusable arguments are refused, usable ones accepted, and a refused call leaves no trace."""
import copy
import warnings

import numpy as np

from bfit.density import SlaterAtoms
from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.greedy import GreedyKLFPI, GreedyLeastSquares, GreedyStrategy
from bfit.grid import ClenshawRadialGrid, CubicGrid, UniformRadialGrid, _BaseRadialGrid
from bfit.measure import KLDivergence, SquaredDifference, TsallisDivergence
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
from mc import gen

BOUNDS = {
    "quick": "every public entry point; every argument takes each of its usable and unusable values, up to 3 arguments away "
             "from the default at once; every object is used before and after each refusal",
    "thorough": "up to 5 arguments away from the default at once; three deviations over two refusals in a row",
}
ASSUMPTIONS = ["only arguments the documentation or the library itself declares unusable are tried",
               "which of the documented error types is raised is not claimed when several arguments are unusable"]
ERRORS = (TypeError, ValueError, AttributeError, AssertionError, RuntimeError)

A = np.array
PTS = np.linspace(0.0, 3.0, 7)
DENS = np.exp(-PTS)
XYZ = np.arange(12.0).reshape(4, 3)


class NoPoints:
    def integrate(self, arr):
        return 0.0


class NoIntegrate:
    points = PTS


class BadIntegrate:
    points = PTS
    integrate = 3.0


def radial():
    return _BaseRadialGrid(PTS.copy())


def atom(**kw):
    return AtomicGaussianDensity(PTS.copy(), num_s=2, num_p=1, **kw)


def mol():
    return MolecularGaussianDensity(XYZ.copy(), A([[0.0, 0.1, 0.2], [1.0, 0.0, 0.5]]), A([[1, 1], [1, 0]]))


class Strategy(GreedyStrategy):
    def get_best_one_function_solution(self):
        return A([1.0, 1.0])

    def get_optimization_routine(self, params, *args, local=False):
        return params


# entry: name -> (make object or None, call(obj, **args), {argument: (usable values, unusable values)})
def entries():
    n3 = A([0.5, 1.0, 2.0])
    cube = lambda: CubicGrid(np.zeros(3), np.eye(3), (2, 2, 1))   # noqa: E731
    lst = {}
    lst["radial grid"] = (None, lambda o, points: _BaseRadialGrid(points),
                          {"points": ([PTS, A([1.0])], [list(PTS), PTS.reshape(1, 7), XYZ, 3.0, None])})
    lst["radial integrate"] = (radial, lambda o, arr: o.integrate(arr),
                               {"arr": ([DENS, np.zeros(7)], [DENS[:-1], np.append(DENS, 1.0), DENS.reshape(7, 1), A(1.0)])})
    lst["uniform grid"] = (None, lambda o, **k: UniformRadialGrid(**k), {
        "num_pts": ([5, 1], [0, -3, 5.0, "5", None]), "min_radii": ([0.0, 1], ["0", None, [0.0], 20.0, 10.0]),
        "max_radii": ([10.0, 7], ["9", None, [1.0], -1.0, 0.0])})
    lst["clenshaw grid"] = (None, lambda o, **k: ClenshawRadialGrid(**k), {
        "atomic_number": ([3, 1], [0, -1, 2.0, "3", None]), "num_core_pts": ([4, 0], [-1, 4.0, "4", None]),
        "num_diffuse_pts": ([5, 1], [-1, 5.0, "5", None]), "include_origin": ([True, False], [1, 0, "yes", None]),
        "extra_pts": ([[40.0], None], [5.0, "50"])})
    lst["cubic integrate"] = (cube, lambda o, arr: o.integrate(arr),
                              {"arr": ([np.ones(4)], [np.ones(3), np.ones((4, 1)), np.ones((1, 4)), np.ones((2, 2, 1)), A(1.0)])})
    lst["atomic model 1d"] = (None, lambda o, **k: AtomicGaussianDensity(**k), {
        "points": ([PTS], [list(PTS), 1.0, None]), "num_s": ([2, 1], [-1, 2.0, "2", None]),
        "num_p": ([1, 0], [-1, 1.0, "1", None]), "center": ([None, A([0.5])], [0.5, [0.5], A([[0.5]])])})
    lst["atomic model 3d"] = (None, lambda o, **k: AtomicGaussianDensity(num_s=1, **k), {
        "points": ([XYZ], [XYZ.tolist()]),
        "center": ([None, A([0.5, 0.0, 1.0])], [A([0.5]), A([0.5, 0.1]), A([1.0, 2.0, 3.0, 4.0]), [0.0, 0.0, 0.0], A([[0.0, 0.0, 0.0]])])})
    lst["no functions"] = (None, lambda o, num_s, num_p: AtomicGaussianDensity(PTS, num_s=num_s, num_p=num_p),
                           {"num_s": ([1], [-1]), "num_p": ([0], [-2])})
    lst["zero functions"] = (None, lambda o, pair: AtomicGaussianDensity(PTS, num_s=pair[0], num_p=pair[1]),
                             {"pair": ([(1, 0), (0, 1)], [(0, 0)])})
    lst["resize"] = (atom, lambda o, new_s, new_p: o.change_numb_s_and_numb_p(new_s, new_p), {
        "new_s": ([2, 1], [2.0, "1", None]), "new_p": ([1, 0], [1.0, "1", None])})
    bad = [n3[:2], np.append(n3, 1.0), n3.reshape(3, 1), n3.reshape(1, 3), A(1.0), A([])]
    lst["atomic evaluate"] = (atom, lambda o, coeffs, expons: o.evaluate(coeffs, expons, deriv=True),
                              {"coeffs": ([n3], bad), "expons": ([n3 + 1], bad)})
    lst["molecular evaluate"] = (mol, lambda o, coeffs, expons: o.evaluate(coeffs, expons, deriv=True),
                                 {"coeffs": ([n3], bad), "expons": ([n3 + 1], bad)})
    lst["molecular model"] = (None, lambda o, **k: MolecularGaussianDensity(XYZ, **k), {
        "coords": ([XYZ[:2] + 0.5], [XYZ[:3], XYZ[:2, :2], XYZ[0], [[0.0, 0.0, 0.0], [1.0, 1.0, 1.0]]]),
        "basis": ([A([[1, 0], [0, 1]])], [A([[1, 0]]), A([1, 0]), A([[1], [1]]), A([[1, 0, 1], [1, 0, 1]])])})
    lst["basis centre"] = (mol, lambda o, index: o.assign_basis_to_center(index),
                           {"index": ([0, 2], [3, 4, 100])})
    d = DENS
    for name, make in (("square", SquaredDifference), ("kl", KLDivergence), ("tsallis", TsallisDivergence)):
        lst[name + " measure"] = (make, lambda o, density, model, deriv: o.evaluate(density, model, deriv), {
            "density": ([d], [list(d), d[:-1], d.reshape(7, 1), 1.0]),
            "model": ([d + 1], [list(d), d.reshape(7, 1), np.append(d, 1.0), 1.0, None]),
            "deriv": ([False, True], [1, 0, "no", None])})
    lst["tsallis alpha"] = (None, lambda o, alpha: TsallisDivergence(alpha=alpha),
                            {"alpha": ([1.5, 0.5, 2, 1.0 + 1e-6, 1.0 - 1e-6, 1.0 + 1e-9], [1.0, 1, -0.5, -1.0, 1.0 + 1e-12])})
    m = atom(normalize=True)
    grids = ([radial()], [NoPoints(), NoIntegrate(), BadIntegrate()])
    negs = [-d, np.where(PTS == 3.0, -1e-3, d), np.where(PTS == 0.0, -5.0, d)]
    lst["fpi"] = (None, lambda o, grid, density: KLDivergenceFPI(grid, density, m),
                  {"grid": grids, "density": ([d], negs + [np.zeros(7)])})
    def block(n):   # n lattice points: with three of them, the square of the points is as good as a 3x3 table
        return CubicGrid(np.ones(3), np.diag([0.5, 0.25, 0.75]), {4: (2, 2, 1)}.get(n, (n, 1, 1)))

    def blockmodel(n):
        return AtomicGaussianDensity(block(n).points, num_s=1)
    lst["fpi spherical"] = (None, lambda o, spherical, n, total: KLDivergenceFPI(
        block(n), np.ones(n), blockmodel(n), spherical=spherical, integral_dens=total),
        {"spherical": ([False], [True]), "n": ([4, 3, 1], []), "total": ([None, 2.0], [])})
    lst["fpi given total"] = (None, lambda o, grid, density: KLDivergenceFPI(grid, density, m, integral_dens=2.0),
                              {"grid": grids, "density": ([d], negs + [np.zeros(7)])})
    lst["fpi run"] = (lambda: KLDivergenceFPI(radial(), d, m), lambda o, **k: o.run(maxiter=2, **k), {
        "c0": ([n3], [list(n3)] + bad), "e0": ([n3], [list(n3)] + bad)})
    lst["fpi selection"] = (lambda: KLDivergenceFPI(radial(), d, m), lambda o, sel: o.run(
        n3, n3, opt_coeffs=sel[0], opt_expons=sel[1], maxiter=2), {"sel": ([(True, True), (True, False), (False, True)], [(False, False)])})
    lst["scipy fit"] = (None, lambda o, grid, density, method, measure: ScipyFit(
        grid, density, m, measure=measure, method=method), {
        "grid": (grids[0], [NoIntegrate(), BadIntegrate(), _BaseRadialGrid(PTS + 1e-3), _BaseRadialGrid(PTS[:-1]),
                              *(_BaseRadialGrid(np.where(np.arange(7) == i, PTS + 1e-3, PTS)) for i in range(7))]),
        "density": ([d], negs + [d[:-1], np.append(d, 0.1)]),
        "method": (["slsqp", "trust-constr", "SLSQP", "Trust-Constr"], ["bfgs", "sls", "", "trust"]),
        "measure": ([SquaredDifference(), None], [SquaredDifference, "kl", 3, lambda a, b: a])})
    lst["scipy spherical"] = (None, lambda o, spherical, n, total: ScipyFit(
        block(n), np.ones(n), blockmodel(n), measure=KLDivergence(), spherical=spherical, integral_dens=total),
        {"spherical": ([False], [True]), "n": ([4, 3, 1], []), "total": ([None, 2.0], [])})
    lst["scipy given total"] = (None, lambda o, grid, density: ScipyFit(
        grid, density, m, measure=SquaredDifference(), integral_dens=2.0), {"grid": grids, "density": ([d], negs)})
    lst["scipy selection"] = (lambda: ScipyFit(radial(), d, m, measure=SquaredDifference()), lambda o, sel: o.run(
        n3, n3, opt_coeffs=sel[0], opt_expons=sel[1], maxiter=2), {"sel": ([(True, True), (True, False), (False, True)], [(False, False)])})
    ch = (["pick-one", "pick-two", "pick-two-lose-one"], ["pick", "", "pick-three", "pick_one"])
    lst["greedy ls"] = (None, lambda o, choice, density, method: GreedyLeastSquares(radial(), density, choice, method=method),
                        {"choice": ch, "density": ([d], negs[:2]), "method": (["SLSQP"], ["newton"])})
    lst["greedy kl"] = (None, lambda o, choice, density: GreedyKLFPI(radial(), density, choice),
                        {"choice": ch, "density": ([d], negs[:2])})
    fit = ScipyFit(radial(), d, atom(), measure=SquaredDifference())
    lst["greedy strategy"] = (None, lambda o, obj, choice: Strategy(obj, choice), {
        "obj": ([fit], [None, "fit", m, SquaredDifference()]), "choice": ch})
    lst["greedy run"] = (lambda: GreedyLeastSquares(radial(), d), lambda o, factor: o.run(factor, max_numb_funcs=2),
                         {"factor": ([2.0, 1.5, 1e-4, 0.5], [2, "2", None, 0.0, -2.0, -1e-3])})
    lst["slater"] = (None, lambda o, **k: SlaterAtoms(**k), {
        "element": (["H", "be"], [4, None, "b3", "h ", "", ["h"], 1.0]), "kind": None})
    lst["slater"][2].pop("kind")
    lst["slater ions"] = (None, lambda o, ion: SlaterAtoms("c", **ion), {
        "ion": ([{}, {"anion": True}, {"cation": True}], [{"anion": True, "cation": True}])})
    h = SlaterAtoms("be")
    lst["slater density"] = (lambda: h, lambda o, mode, points: o.atomic_density(points, mode), {
        "mode": (["total", "core", "valence"], ["Total", "", "homo", None]), "points": ([PTS], [XYZ])})
    lst["slater orbital"] = (lambda: h, lambda o, points: o.phi_matrix(points), {"points": ([PTS], [XYZ])})
    return lst


def probe(o):
    """What an object answers without being given anything new."""
    if isinstance(o, GreedyStrategy):
        return [o.num_s, o.num_p, o.numb_func_increase, o.integral_dens, len(o.err_arr), probe(o.fitting_obj)]
    if isinstance(o, (KLDivergenceFPI, ScipyFit)):
        n = o.model.nbasis
        return [o.integral_dens, o.spherical, o.density.copy(), o.goodness_of_fit(np.full(n, 0.7), np.full(n, 1.1)),
                probe(o.model), probe(o.grid), probe(o.measure)]
    if isinstance(o, (AtomicGaussianDensity, MolecularGaussianDensity)):
        n = o.nbasis
        c = 0.5 + np.arange(n) / 4.0
        out = [n, o.natoms, o.points.copy(), o.radii.copy(), o.prefactor, o.evaluate(c, c + 0.3), *o.evaluate(c, c + 0.3, True)]
        return out + ([o.num_s, o.num_p] if isinstance(o, AtomicGaussianDensity) else
                      [o.assign_basis_to_center(i) for i in range(n)])
    if isinstance(o, (_BaseRadialGrid, CubicGrid)):
        return [len(o), o.points.copy(), o.integrate(np.ones(len(o)))]
    if isinstance(o, (SquaredDifference, KLDivergence, TsallisDivergence)):
        return [list(o.evaluate(DENS, DENS + 1.0, True)), list(o.evaluate(DENS + 1.0, DENS, True))]
    if isinstance(o, SlaterAtoms):
        return [o.energy, o.orbitals_occupation.copy(), o.orbitals_energy.copy(), o.atomic_density(PTS)]
    return None


def same(a, b):
    """Deep equality of results."""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a if k != "time")
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, float, int)):
        return np.array_equal(a, b, equal_nan=True)
    return type(a) is type(b)


def call(f, o, kw):
    np.random.seed(3)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return f(o, **kw)


def validate(ch, refusals):
    table = entries()
    name = ch.choose("entry", sorted(table))
    make, f, args = table[name]
    usable = {a: v[0][0] for a, v in args.items()}
    obj = None if make is None else make()
    want = call(f, None if make is None else make(), usable)
    out, before, refused = [], None if obj is None else probe(obj), True
    for i in range(refusals):
        kw, wrong = {}, []
        for a, (good, bad) in args.items():
            v = ch.choose(f"{a}{i}", good + bad, 1)
            if any(v is x for x in bad) and not any(v is x for x in good):
                wrong.append(a)
            kw[a] = copy.copy(v) if isinstance(v, np.ndarray) else v
        show = {a: (v if np.ndim(v) == 0 else np.shape(v)) for a, v in kw.items()}
        try:
            call(f, obj, kw)
            got = None
        except Exception as e:          # pylint: disable=broad-except
            got = e
        refused = refused and got is not None
        if refused and obj is not None:
            gen.need(same(before, probe(obj)), f"{name} with {show} is refused, but changes the object")
        if wrong:
            gen.need(got is not None, f"{name} accepts {show}; unusable: {wrong}")
            gen.need(isinstance(got, ERRORS), f"{name} with {show} raises {got!r} instead of a documented error")
        else:
            gen.need(got is None, f"{name} refuses {show}: {got!r}")
        out.append(type(got).__name__)
    again = call(f, obj, usable)
    if make is not None:
        gen.need(same(want, again), f"{name}: after {out} the object answers {again}, a fresh one {want}")
    return name, tuple(out)


def scenarios(tier):
    t = tier == "thorough"
    return [("validate", lambda ch: validate(ch, 1), 5 if t else 3),
            ("refuse-again", lambda ch: validate(ch, 2), 3 if t else 2)]
