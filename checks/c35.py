r"""C35: only the numbers in an array matter, not how the array is laid out in memory."""
import warnings

import numpy as np

from checks import c33                        # stubs the optimizer and prepares the data before bfit is imported
from checks import c21
from bfit.density import SlaterAtoms
from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.greedy import (GreedyKLFPI, GreedyLeastSquares, get_next_choices, get_two_next_choices, pick_two_lose_one,
                         remove_redundancies)
from bfit.grid import CubicGrid, UniformRadialGrid, _BaseRadialGrid
from bfit.measure import KLDivergence, SquaredDifference, TsallisDivergence
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
from mc import gen

BOUNDS = {
    "quick": "23 entry points; every array argument laid out in every one of 10 ways (12 for tables), up to 2 arguments laid "
             "out unusually at once or all in the same way, beside guard values that are checked",
    "thorough": "up to 4 arguments laid out unusually at once",
}
ASSUMPTIONS = ["summation order may differ between layouts: results are compared to 1e-9, after optimizations to 1e-6"]
A = np.array
GUARD = -7.25e77


class Tagged(np.ndarray):
    """An array class of the caller's own."""


def plain(x):
    return x


def stepped(x):
    y = np.full((2 * x.shape[0],) + x.shape[1:], GUARD).astype(x.dtype)
    y[::2] = x
    return y[::2]


def inner(x):
    y = np.full((x.shape[0] + 3,) + x.shape[1:], GUARD).astype(x.dtype)
    y[2:-1] = x
    return y[2:-1]


def column(x):
    y = np.full(x.shape + (3,), GUARD).astype(x.dtype)
    y[..., 1] = x
    return y[..., 1]


def negative(x):
    return x[::-1].copy()[::-1]


def readonly(x):
    x = x.copy()
    x.flags.writeable = False
    return x


def swapped(x):
    return x.astype(x.dtype.newbyteorder())


def unaligned(x):
    buf = np.zeros(x.nbytes + 1, dtype=np.uint8)
    y = buf[1:].view(x.dtype).reshape(x.shape)
    y[...] = x
    return y


def tagged(x):
    return x.copy().view(Tagged)


def repeated(x):
    """One stored number (row) where all are equal."""
    return np.broadcast_to(x[:1].copy(), x.shape) if np.all(x == x[:1]) else x


def fortran(x):
    return np.asfortranarray(x)


def transposed(x):
    y = np.full((x.shape[1] + 2, 2 * x.shape[0]), GUARD).astype(x.dtype)
    y[1:-1, ::2] = x.T
    return y[1:-1, ::2].T


FLAT = [plain, stepped, inner, column, negative, readonly, swapped, unaligned, tagged, repeated]
TABLE = FLAT + [fortran, transposed]

R = np.linspace(0.0, 6.0, 9)
XYZ = gen.generic(18, -1.5, 1.5, 3).reshape(6, 3)
CENTRES = A([[0.0, 0.1, 0.2], [1.0, 0.0, 0.5]])
F1, F2 = 2.5 * np.exp(-1.4 * R) + 0.1, 0.7 * np.exp(-0.6 * R)
C1, E1 = A([0.9, 1.1, 0.4]), A([0.6, 2.5, 0.8])
SQ = A([2.0, 2.0, 2.0])


def clean(r):
    return {k: v for k, v in r.items() if k != "time"}


def radial_model(r=None):
    return AtomicGaussianDensity(R.copy() if r is None else r, num_s=2, num_p=1, normalize=True)


def numbers(g):
    return [np.array(g.points), np.array(getattr(g, "weights", 0.0)), len(g), np.asarray(g.points).dtype.kind]


def cubic(**k):
    g = CubicGrid(shape=(2, 3, 2), **k)
    return numbers(g), g.integrate(np.arange(12.0))


def around(**k):
    return numbers(CubicGrid.from_molecule(**k, spacing=0.9, extension=0.6))


def fpi(kw, spherical, density, c0, e0, points):
    f = KLDivergenceFPI(_BaseRadialGrid(points), density, radial_model(points), spherical=spherical)
    return [f.integral_dens, f.goodness_of_fit(c0, e0), clean(f.run(c0, e0, maxiter=3, **kw))]


def molecular(norm):
    def go(points, coords, basis, coeffs, expons):
        m = MolecularGaussianDensity(points, coords, basis, norm)
        return [m.evaluate(coeffs, expons, deriv=True), m.evaluate(coeffs, expons), m.radii, list(m.prefactor), m.nbasis,
                [m.assign_basis_to_center(i) for i in range(3)]]
    return go


def molecular_fpi(points, coords, basis, density, c0, e0):
    g = CubicGrid(np.zeros(3), np.eye(3), (6, 1, 1))
    g._points = points                                # pylint: disable=protected-access
    f = KLDivergenceFPI(g, density, MolecularGaussianDensity(points, coords, basis, True))
    return [f.integral_dens, f.goodness_of_fit(c0, e0), clean(f.run(c0, e0, maxiter=2))]


def atomic(norm):
    def go(points, center, coeffs, expons):
        m = AtomicGaussianDensity(points, center, 2, 1, norm)
        return [m.evaluate(coeffs, expons, deriv=True), m.evaluate(coeffs, expons), m.radii, list(m.prefactor)]
    return go


def scipy_fit(**k):
    opt = k.pop("opt", {})
    spherical, measure = k.pop("spherical"), k.pop("measure")

    def go(points, density, weights, c0, e0):
        f = ScipyFit(_BaseRadialGrid(points), density, radial_model(points), measure=measure, spherical=spherical,
                     weights=weights)
        x = np.concatenate((c0, e0))
        return [f.func(x), f.const_norm(x), f.func(c0, "fixed_expons", e0), f.func(e0, "fixed_coeffs", c0),
                f.goodness_of_fit(c0, e0), clean(f.run(c0, e0, **opt))]
    return go


def search(cls, **k):
    def go(points, density):
        np.random.seed(5)
        s = cls(UniformRadialGrid(9, 0.0, 6.0, np.float64) if points is None else _BaseRadialGrid(points), density,
                l_maxiter=2, g_maxiter=2, **k)
        return [clean(s.run(2.0, max_numb_funcs=2)), s.num_s, s.num_p, s.integral_dens]
    return go


def guesses(fn):
    return lambda coeffs, expons: fn(2.0, coeffs, expons)


def drop(coeffs, expons):
    return remove_redundancies(coeffs, expons, 10.0)


def measure(make):
    def go(density, model):
        return [make().evaluate(density, model), make().evaluate(density, model, deriv=True)]
    return go


def slater(name):
    def go(points):
        a = SlaterAtoms(name)
        return [a.atomic_density(points), a.atomic_density(points, "core"), a.atomic_density(points, "valence"),
                a.phi_matrix(points), a.phi_matrix(points, deriv=True), a.derivative_density(points),
                a.positive_definite_kinetic_energy(points)]
    return go


def entries():
    """name -> (call, {argument: values}); results of each are compared between layouts."""
    par = {"c0": [C1, SQ], "e0": [E1]}
    basis = [A([[1, 1], [1, 0]])]
    mol = {"points": [XYZ], "coords": [CENTRES], "basis": basis, "coeffs": [C1, SQ], "expons": [E1]}
    w = [np.ones(9), 1.0 + R]
    out = {
        "radial grid": (lambda points, arr: [numbers(_BaseRadialGrid(points)), _BaseRadialGrid(points).integrate(arr)],
                        {"points": [R, R ** 2], "arr": [F1, np.ones(9)]}),
        "cubic grid": (cubic, {"origin": [A([0.5, -1.0, 2.0])], "axes": [A([[0.5, 0.1, 0.0], [0.0, 0.4, 0.2], [0.1, 0.0, 0.6]]),
                                                                        np.diag([0.5, 0.25, 0.75])]}),
        "cubic integral": (lambda arr: CubicGrid(np.zeros(3), np.eye(3) * 0.3, (3, 3, 1)).integrate(arr), {"arr": [F1, np.ones(9)]}),
        "grid around": (around, {"atcorenums": [A([1.0, 8.0]), A([6.0, 6.0])], "atcoords": [CENTRES]}),
        "square": (measure(SquaredDifference), {"density": [F1, np.ones(9)], "model": [F2]}),
        "kullback-leibler": (measure(lambda: KLDivergence(1e-3)), {"density": [F1, np.ones(9)], "model": [F2, np.r_[F2[:8], 1e-5]]}),
        "tsallis": (measure(lambda: TsallisDivergence(1.5, 1e-3)), {"density": [F1, np.ones(9)], "model": [F2, np.r_[F2[:8], 1e-5]]}),
        "atomic radial": (atomic(True), {"points": [R], "center": [A([0.5])], "coeffs": [C1, SQ], "expons": [E1]}),
        "atomic space": (atomic(False), {"points": [XYZ], "center": [CENTRES[1]], "coeffs": [C1], "expons": [E1]}),
        "molecular": (molecular(True), mol), "molecular plain": (molecular(False), mol),
        "fixed point": (lambda **k: fpi({}, True, **k), {"points": [R], "density": [F1, np.ones(9)], **par}),
        "fixed point coeffs": (lambda **k: fpi({"opt_expons": False}, False, **k), {"points": [R], "density": [F1], **par}),
        "fixed point molecule": (molecular_fpi, {"points": [XYZ], "coords": [CENTRES], "basis": basis,
                                                 "density": [F1[:6]], "c0": [C1], "e0": [E1]}),
        "optimizer": (scipy_fit(measure=KLDivergence(), spherical=True), {"points": [R], "density": [F1], "weights": w, **par}),
        "optimizer coeffs": (scipy_fit(measure=SquaredDifference(), spherical=False, opt={"opt_expons": False}),
                             {"points": [R], "density": [F1], "weights": w, **par}),
        "search squares": (search(GreedyLeastSquares), {"points": [R], "density": [F1]}),
        "search divergence": (search(GreedyKLFPI, spherical=True), {"points": [R], "density": [F1]}),
        "slater": (slater("c"), {"points": [R[1:], np.ones(3)]}),
        "redundancies": (drop, {"coeffs": [C1, SQ], "expons": [A([0.6, 0.6001, 0.8])]}),
    }
    for fn in (get_next_choices, get_two_next_choices, pick_two_lose_one):
        out[fn.__name__] = (guesses(fn), {"coeffs": [C1[:2], SQ[:2]], "expons": [A([0.6, 1.5])]})
    return out


def close(a, b, tol, what):
    if isinstance(a, dict):
        gen.need(isinstance(b, dict) and a.keys() == b.keys(), f"{what}: other entries")
        for k in a:
            close(a[k], b[k], tol, f"{what}, {k}")
    elif isinstance(a, (list, tuple)):
        gen.need(isinstance(b, (list, tuple)) and len(a) == len(b), f"{what}: other length")
        for x, y in zip(a, b):
            close(x, y, tol, what)
    elif isinstance(a, (str, bool, type(None))):
        gen.need(a == b, f"{what}: {b!r} instead of {a!r}")
    else:
        x, y = np.asarray(a, dtype=np.longdouble), np.asarray(b, dtype=np.longdouble)
        gen.need(x.shape == y.shape, f"{what}: shape {y.shape} instead of {x.shape}")
        ok = (x == y) | (np.isnan(x) & np.isnan(y))
        with np.errstate(all="ignore"):
            fin = np.abs(x[np.isfinite(x)])
            ok |= np.abs(x - y) <= tol * np.maximum(np.abs(x), (fin.max() if fin.size else 0.0) * 1e-3)
        gen.need(np.all(ok), f"{what}: {y[~ok][:3]} instead of {x[~ok][:3]}")


def root(x):
    while isinstance(x.base, np.ndarray):
        x = x.base
    return x


def call(fn, kw):
    np.random.seed(3)
    c21._STUB["fn"] = c33.posing
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return fn(**kw)
    finally:
        c21._STUB["fn"] = None


_WANT = {}


def compare(name, value, lays):
    fn, args = entries()[name]
    data = {a: args[a][i] for a, i in value.items()}
    key = name, tuple(value.items())
    if key not in _WANT:
        _WANT[key] = call(fn, {a: v.copy() for a, v in data.items()})
    kw = {a: lays[a](v.copy()) for a, v in data.items()}
    assert all(np.array_equal(kw[a], data[a]) for a in kw)
    before = {a: root(v).tobytes() for a, v in kw.items()}
    got = call(fn, kw)
    what = f"{name} with {dict((a, f.__name__) for a, f in lays.items() if f is not plain)} arrays"
    close(_WANT[key], got, 1e-6 if name.startswith("search") else 1e-9, what)
    for a, v in kw.items():
        gen.need(root(v).tobytes() == before[a], f"{what} changes {a} or memory beside it")
    return name, tuple(f.__name__ for f in lays.values())


def layouts(ch):
    table = entries()
    name = ch.choose("entry", sorted(table))
    args = table[name][1]
    value = {a: ch.choose("value of " + a, range(len(v))) for a, v in args.items()}
    lays = {a: ch.choose("layout of " + a, FLAT if args[a][0].ndim == 1 else TABLE, 1) for a in args}
    return compare(name, value, lays)


def alike(ch):
    """Every argument laid out alike."""
    table = entries()
    name = ch.choose("entry", sorted(table))
    args = table[name][1]
    value = {a: ch.choose("value of " + a, range(len(v))) for a, v in args.items()}
    lay = ch.choose("layout", TABLE)
    return compare(name, value, {a: lay if args[a][0].ndim > 1 or lay in FLAT else plain for a in args})


def scenarios(tier):
    return [("layouts", layouts, 4 if tier == "thorough" else 2), ("alike", alike, None)]
