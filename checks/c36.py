r"""C36: copied, deep-copied and pickled objects answer like the original and are independent of it."""
import copy
import pickle
import warnings

import numpy as np

from checks import c33                        # stubs the optimizer and prepares the data before bfit is imported
from checks import c21, c35
from bfit.density import SlaterAtoms
from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.greedy import GreedyKLFPI, GreedyLeastSquares
from bfit.grid import ClenshawRadialGrid, CubicGrid, UniformRadialGrid
from bfit.measure import KLDivergence, SquaredDifference, TsallisDivergence
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
from mc import gen

BOUNDS = {
    "quick": "15 kinds of objects, copied in 5 ways before, between or after 1 earlier call, then every sequence of 2 calls "
             "on original and copy in every order",
    "thorough": "2 earlier calls and sequences of 3 calls; copies of copies in every combination of ways",
}
ASSUMPTIONS = ["a shallow copy shares the objects the original was given; calls that resize a shared model are not made on it"]
A = np.array
R, F1, F2, C1, E1, C2, E2, XYZ = c33.R, c33.F1, c33.F2, c33.C1, c33.E1, c33.C2, c33.E2, c33.XYZ
X = np.r_[C1, E1]
clean = c33.clean


def seeded(fn, *a, **k):
    np.random.seed(5)
    return fn(*a, **k)


def resize(m, s, p):
    m.change_numb_s_and_numb_p(s, p)
    n = s + p
    return m.evaluate(1.0 + np.arange(n), 0.5 + np.arange(n)), m.nbasis, list(m.prefactor)


MODEL = [lambda m: m.evaluate(C1[:m.nbasis], E1[:m.nbasis], deriv=True) if m.nbasis <= 3 else None,
         lambda m: (m.radii.copy(), list(m.prefactor), m.natoms, m.points.copy())]
RESIZE = [lambda m: resize(m, 2, 1), lambda m: resize(m, 0, 2), lambda m: resize(m, 3, 0)]
RADIAL = [lambda g: g.integrate(np.exp(-g.points)), lambda g: (len(g), g.points.copy())]
MEASURE = [lambda m: m.evaluate(F1, F2, deriv=True), lambda m: m.evaluate(F2, F1), lambda m: m.evaluate(F1[:2], A([0.0, 1e-4]))]
FIT = [lambda f: f.goodness_of_fit(C1, E1), lambda f: clean(f.run(C2.copy(), E2.copy(), maxiter=2)),
       lambda f: (f.integral_dens, f.spherical, f.density.copy(), f.integrate(F1), f.measure.evaluate(F1, F2))]
FPI = FIT + [lambda f: (f.lagrange_multiplier, clean(f.run(C1.copy(), E1.copy(), opt_expons=False, maxiter=1)))]
SCIPY = FIT + [lambda f: (f.func(X), f.const_norm(X)), lambda f: f.func(C2, "fixed_expons", E2),
               lambda f: clean(f.run(C1.copy(), E1.copy(), opt_coeffs=False, with_constraint=False))]
SEARCH = [lambda s: (clean(seeded(s.run, 2.0, max_numb_funcs=2)), s.num_s, s.num_p),
          lambda s: (clean(seeded(s.run, 3.0, max_numb_funcs=1)), s.model.nbasis),
          lambda s: (s.integral_dens, s.numb_func_increase, s.density.copy(), s.grid.integrate(F2), s.l_threshold if hasattr(
              s, "l_threshold") else None)]
SLATER = [lambda a: (a.atomic_density(R), a.atomic_density(R[1:], "core")), lambda a: a.positive_definite_kinetic_energy(R[2:5]),
          lambda a: (a.derivative_density(R[1:]), a.phi_matrix(R), a.energy, list(a.orbitals))]


def grid():
    return UniformRadialGrid(9, 0.0, 6.0, np.float64)


def model(norm=True):
    return AtomicGaussianDensity(R.copy(), num_s=2, num_p=1, normalize=norm)


def kinds():
    """name -> (make, calls, calls that resize)."""
    return {
        "uniform grid": (grid, RADIAL, []), "clenshaw grid": (lambda: ClenshawRadialGrid(6, 5, 4, extra_pts=[60.0]), RADIAL, []),
        "cubic grid": (lambda: CubicGrid(A([0.5, -1.0, 0.0]), A([[0.5, 0.1, 0.0], [0.0, 0.4, 0.2], [0.1, 0.0, 0.6]]), (2, 3, 2)),
                       [lambda g: g.integrate(np.arange(12.0)), lambda g: (len(g), g.points.copy()), lambda g: g.integrate(np.ones(12)),
                        lambda g: np.array(g.axes)], []),
        "atomic": (model, MODEL, RESIZE), "atomic plain": (lambda: model(False), MODEL, RESIZE),
        "molecular": (lambda: MolecularGaussianDensity(XYZ.copy(), XYZ[:2] + 0.1, A([[1, 1], [1, 0]]), True), MODEL + [
            lambda m: [m.assign_basis_to_center(i) for i in range(3)]], []),
        "squares": (SquaredDifference, MEASURE, []), "divergence": (lambda: KLDivergence(1e-3), MEASURE, []),
        "tsallis": (lambda: TsallisDivergence(1.5, 1e-3), MEASURE, []),
        "fixed point": (lambda: KLDivergenceFPI(grid(), F1.copy(), model(), mask_value=1e-18, spherical=True), FPI, []),
        "optimizer": (lambda: ScipyFit(grid(), F1.copy(), model(False), measure=KLDivergence(1e-9), spherical=True, weights=1.0 + R,
                                       integral_dens=3.0), SCIPY, []),
        "optimizer trust": (lambda: ScipyFit(grid(), F2.copy(), model(), measure=SquaredDifference(), method="trust-constr"), SCIPY, []),
        "search squares": (lambda: GreedyLeastSquares(grid(), F1.copy(), l_maxiter=2, g_maxiter=2), SEARCH[2:], SEARCH[:2]),
        "search divergence": (lambda: GreedyKLFPI(grid(), F1.copy(), "pick-two", l_maxiter=1, g_maxiter=1, spherical=True),
                              SEARCH[2:], SEARCH[:2]),
        "slater": (lambda: SlaterAtoms("c"), SLATER, []),
    }


WAYS = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle 2": lambda o: pickle.loads(pickle.dumps(o, 2)),
        "pickle 4": lambda o: pickle.loads(pickle.dumps(o, 4)),
        "pickle 5": lambda o: pickle.loads(pickle.dumps(o, pickle.HIGHEST_PROTOCOL))}
_WANT = {}


def want(name, make, ops, i):
    if (name, i) not in _WANT:
        _WANT[name, i] = ops[i](make())
    return _WANT[name, i]


def copies(ch, before, after, generations):
    table = kinds()
    name = ch.choose("object", list(table))
    make, calm, loud = table[name]
    ops = calm + loud
    warnings.simplefilter("ignore")
    c21._STUB["fn"] = c33.posing
    try:
        objs, shallow = [make()], False
        for b in range(before):
            i = ch.choose(f"earlier call {b}", [None] + list(range(len(ops))))
            if i is None:
                break
            ops[i](objs[0])
        usual = np.geterr(), len(warnings.filters)
        for _ in range(generations):
            way = ch.choose("way", list(WAYS))
            shallow = shallow or way == "copy"
            objs.append(WAYS[way](objs[-1]))
            gen.need(type(objs[-1]) is type(objs[0]), f"{way} of {name} is a {type(objs[-1])}")
        gen.need(usual == (np.geterr(), len(warnings.filters)), f"copying {name} changes settings")
        trail = []
        for a in range(after):
            who = ch.choose(f"object {a}", range(len(objs)))
            # resizing a shared model is visible to all that share it
            n = len(calm) if shallow and name.startswith("search") else len(ops)
            i = ch.choose(f"call {a}", range(n))
            trail.append((who, i))
            # evaluating a resized model needs parameters of its size: bring it to its first size
            for o in objs[who:who + 1]:
                if loud and name.startswith("atomic") and i < len(calm):
                    o.change_numb_s_and_numb_p(2, 1)
            got = ops[i](objs[who])
            c35.close(want(name, make, ops, i), got, 1e-9, f"{name}: of original and {generations} copies ({way}), call {i} on "
                      f"number {who} after {trail[:-1]}, against a fresh object")
    finally:
        c21._STUB["fn"] = None
    return name, way, tuple(trail)


def untouched(ch):
    """A resize or search on one leaves the sizes the other reports alone."""
    name = ch.choose("object", ["atomic", "atomic plain", "search squares", "search divergence"])
    make, _, loud = kinds()[name]
    way = ch.choose("way", [w for w in WAYS if w != "copy" or name.startswith("atomic")])
    i, back = ch.choose("call", range(len(loud))), ch.flag("on the original")
    warnings.simplefilter("ignore")
    c21._STUB["fn"] = c33.posing
    try:
        a = make()
        b = WAYS[way](a)
        if back:
            a, b = b, a
        m = a if name.startswith("atomic") else a.model
        sizes = m.num_s, m.num_p, m.nbasis, list(m.prefactor)
        loud[i](b)
        gen.need(sizes == (m.num_s, m.num_p, m.nbasis, list(m.prefactor)), f"{name}: {way}: a resize reaches the other")
    finally:
        c21._STUB["fn"] = None
    return name, way, i, back


def scenarios(tier):
    if tier == "thorough":
        return [("copies", lambda ch: copies(ch, 2, 3, 1), None), ("copies of copies", lambda ch: copies(ch, 1, 2, 2), None),
                ("untouched", untouched, None)]
    return [("copies", lambda ch: copies(ch, 1, 2, 1), None), ("untouched", untouched, None)]
