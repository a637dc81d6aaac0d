r"""C40: only the values of numbers matter, not the number type they are stored in."""
import numpy as np

from checks import c35                        # stubs the optimizer and prepares the data before bfit is imported
from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.greedy import GreedyKLFPI, GreedyLeastSquares, get_next_choices, get_two_next_choices, pick_two_lose_one, remove_redundancies
from bfit.grid import ClenshawRadialGrid, CubicGrid, UniformRadialGrid, _BaseRadialGrid
from bfit.measure import KLDivergence, TsallisDivergence
from bfit.model import AtomicGaussianDensity
from mc import gen

BOUNDS = {
    "quick": "23 entry points, every array argument in 6 number types, up to 2 arguments in unusual ones at once or all in the "
             "same; 25 scalar arguments in 7 number types",
    "thorough": "up to 4 arguments in unusual types at once",
}
ASSUMPTIONS = ["whole numbers of 32 or more bits; single precision is compared within 1e-3, everything else within 1e-9, searches 1e-6"]
A = np.array
TYPES = [np.float64, np.int64, np.int32, np.float32, np.longdouble, ">f8"]
R = np.arange(9.0)
XYZ = A([[0, 1, 2], [1, 0, -1], [2, 1, 0], [-1, -2, 1], [1, 1, 1], [0, 2, -2]], dtype=float)
ATOMS = A([[0.0, 0.0, 1.0], [1.0, 0.0, 2.0], [0.0, 2.0, -2.0]])
CEN = A([[0.0, 0.0, 1.0], [1.0, 0.0, 2.0]])
F1, F2 = A([9.0, 6, 5, 4, 3, 2, 2, 1, 1]), A([7.0, 7, 4, 5, 3, 1, 2, 3, 1])
FS = A([900.0, 610.0, 330.0, 150.0, 70.0, 30.0, 12.0, 5.0, 2.0])
C, E = A([2.0, 3.0, 1.0]), A([1.0, 2.0, 5.0])
SINGLE = 1e-3


def whole(name, arg, v):
    """Whole numbers to be used for an argument of an entry of c35."""
    search = name.startswith("search")
    if arg == "points":
        return XYZ if v.ndim == 2 else 1.0 + R[:len(v)] if name == "slater" else R[:len(v)]
    return {"coords": CEN, "atcoords": ATOMS, "center": CEN[1] if v.size == 3 else A([1.0]), "arr": F1[:len(v)],
            "density": FS if search else F1[:len(v)], "model": F2, "c0": C[:len(v)], "coeffs": C[:len(v)],
            "e0": E[:len(v)], "expons": A([1.0, 2.0, 40.0]) if name == "redundancies" else E[:len(v)], "weights": 1.0 + R,
            "origin": A([1.0, -1.0, 2.0]), "axes": A([[2.0, 1, 0], [0, 1, 1], [1, 0, 3]]), "atcorenums": A([1.0, 8.0, 6.0]),
            "basis": v}[arg].copy()


_WANT = {}


def value(x):
    """A result without the names of the number types in it."""
    if isinstance(x, dict):
        return {k: value(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [value(v) for v in x if not (isinstance(v, str) and v in "iuf")]
    return x


def compare(name, types, frac):
    """Arguments of integer type hold whole numbers, the others whole numbers or (frac) quarters."""
    fn, args = c35.entries()[name]
    data = {a: whole(name, a, np.asarray(v[0])) for a, v in args.items()}
    odd = tuple(a for a in data if frac and a != "basis" and np.dtype(types[a]).kind == "f")
    for a in odd:
        data[a] = data[a] * 0.75 + 0.25
    if (name, odd) not in _WANT:
        _WANT[name, odd] = value(c35.call(fn, {a: v.copy() for a, v in data.items()}))
    kw = {a: (v if a == "basis" else v.astype(types[a])) for a, v in data.items()}
    assert all(np.array_equal(kw[a].astype(float), data[a]) for a in kw)
    got = value(c35.call(fn, kw))
    tol = SINGLE if any(t is np.float32 for t in types.values()) else 1e-6 if name.startswith("search") else 1e-9
    c35.close(_WANT[name, odd], got, tol, f"{name} with {dict((a, np.dtype(t).name) for a, t in types.items() if t is not np.float64)}")
    return name, odd, tuple(np.dtype(t).str for t in types.values())


def arrays(ch):
    table = c35.entries()
    name = ch.choose("entry", sorted(table))
    frac = ch.flag("fractions")
    return compare(name, {a: ch.choose("type of " + a, TYPES, 1) for a in table[name][1]}, frac)


def alike(ch):
    table = c35.entries()
    name = ch.choose("entry", sorted(table))
    t = ch.choose("type", TYPES)
    return compare(name, {a: t for a in table[name][1]}, ch.flag("fractions"))


def radial(n=9):
    return UniformRadialGrid(n, 0.0, 6.0, np.float64)


def fitted(cls, kw, run):
    g = radial()
    f = cls(g, 2.5 * np.exp(-1.4 * g.points) + 0.1, AtomicGaussianDensity(g.points, num_s=2, num_p=1, normalize=True), **kw)
    r = c35.clean(f.run(c35.C1.copy(), c35.E1.copy(), **{"maxiter": 2, **run}))
    return [r, f.integral_dens, f.goodness_of_fit(c35.C1, c35.E1)]


def searched(cls, kw, run):
    np.random.seed(5)
    g = radial()
    s = cls(g, 2.5 * np.exp(-1.4 * g.points) + 0.1, **{"l_maxiter": 2, "g_maxiter": 2, **kw})
    return c35.clean(s.run(**{"factor": 2.0, "max_numb_funcs": 2, **run}))


# scalar arguments: name -> (call of one value, the values)
SCALARS = {
    "smallest radius": (lambda x: UniformRadialGrid(9, x, 6.0, np.float64).points, [0, 1, 2]),
    "largest radius": (lambda x: UniformRadialGrid(9, 0.0, x, np.float64).points, [1, 20]),
    "extra points": (lambda x: ClenshawRadialGrid(6, 4, 3, extra_pts=[x, 50.0], dtype=np.float64).points, [40, 70]),
    "spacing": (lambda x: CubicGrid.from_molecule(A([1.0, 8.0]), 2.0 * CEN, x, 3.0).points, [1, 2]),
    "extension": (lambda x: CubicGrid.from_molecule(A([1.0, 8.0]), 2.0 * CEN, 0.9, x).points, [1, 3]),
    "mask": (lambda x: KLDivergence(mask_value=x).evaluate(F1, F2 * 0.5, deriv=True), [0, 1, 2]),
    "tsallis mask": (lambda x: TsallisDivergence(1.5, x).evaluate(F1, F2 * 0.5, deriv=True), [0, 1]),
    "tsallis alpha": (lambda x: TsallisDivergence(x).evaluate(F1, F2, deriv=True), [2, 3, 5]),
    "negative value": (lambda x: KLDivergence(negative_val=x).evaluate(F1, F2 - 3.0), [1000, 7]),
    "total": (lambda x: fitted(KLDivergenceFPI, {"integral_dens": x, "spherical": True}, {}), [2, 6]),
    "fit mask": (lambda x: fitted(KLDivergenceFPI, {"mask_value": x, "spherical": True}, {}), [0]),
    "coefficient threshold": (lambda x: fitted(KLDivergenceFPI, {}, {"c_threshold": x, "maxiter": 4}), [0, 1]),
    "exponent threshold": (lambda x: fitted(KLDivergenceFPI, {}, {"e_threshold": x, "maxiter": 4}), [0, 1]),
    "objective threshold": (lambda x: fitted(KLDivergenceFPI, {}, {"d_threshold": x, "maxiter": 4}), [0, 1]),
    "optimizer total": (lambda x: fitted(ScipyFit, {"integral_dens": x, "spherical": True}, {}), [2, 6]),
    "optimizer mask": (lambda x: fitted(ScipyFit, {"measure": KLDivergence(mask_value=x)}, {}), [0]),
    "tolerance": (lambda x: fitted(ScipyFit, {}, {"tol": x}), [1]),
    "local tolerance": (lambda x: searched(GreedyLeastSquares, {"local_tol": x}, {}), [1]),
    "search threshold": (lambda x: searched(GreedyLeastSquares, {}, {"d_threshold": x}), [0, 1]),
    "search total": (lambda x: searched(GreedyKLFPI, {"integral_dens": x, "spherical": True}, {}), [3]),
    "next factor": (lambda x: get_next_choices(x, c35.C1[:2], A([0.6, 1.5])), [2, 10]),
    "next value": (lambda x: get_next_choices(2.0, c35.C1[:2], A([0.6, 1.5]), x), [1, 100]),
    "two factor": (lambda x: get_two_next_choices(x, c35.C1[:2], A([0.6, 1.5])), [2, 10]),
    "lose factor": (lambda x: pick_two_lose_one(x, c35.C1[:2], A([0.6, 1.5])), [2, 10]),
    "closeness": (lambda x: remove_redundancies(c35.C1, A([0.6, 1.1, 9.0]), x), [1, 2]),
}
KINDS = [float, int, np.float64, np.int64, np.int32, np.float32, np.longdouble]


def scalars(ch):
    name = ch.choose("argument", sorted(SCALARS))
    fn, values = SCALARS[name]
    v = ch.choose("value", values)
    kind = ch.choose("type", KINDS)
    if (name, v) not in _WANT:
        _WANT[name, v] = value(c35.call(fn, {"x": float(v)}))
    try:
        got = value(c35.call(fn, {"x": kind(v)}))
    except TypeError:
        if kind not in (float, int, np.float64):
            return name, v, kind.__name__, "refused"      # the library accepts only Python numbers here
        raise
    tol = SINGLE if kind is np.float32 else 1e-6 if "search" in name or "local" in name else 1e-9
    c35.close(_WANT[name, v], got, tol, f"{name} {v} given as {kind.__name__}")
    return name, v, kind.__name__


def grid_types(ch):
    """The number type asked of a radial grid only rounds its points and integrals."""
    t = ch.choose("type", [np.float64, np.float32, np.longdouble, float, "float64"])
    kind = ch.choose("grid", ["uniform", "clenshaw", "extra", "origin"])
    make = {"uniform": lambda d: UniformRadialGrid(33, 0.0, 8.0, d), "clenshaw": lambda d: ClenshawRadialGrid(6, 9, 12, dtype=d),
            "extra": lambda d: ClenshawRadialGrid(1, 5, 4, extra_pts=[50.0, 70.0], dtype=d),
            "origin": lambda d: ClenshawRadialGrid(8, 5, 4, include_origin=False, dtype=d)}[kind]
    want, got = make(np.float64), make(t)
    gen.need(got.points.dtype == np.dtype(t), f"points of type {got.points.dtype} instead of {np.dtype(t)}")
    tol = 1e-6 if t is np.float32 else 1e-12
    p, q = want.points, got.points.astype(float)
    gen.need(p.shape == q.shape and np.all(np.abs(p - q) <= tol * (10.0 + np.abs(p))), f"points of a {kind} grid in {t}")
    f = np.exp(-p / 3.0)
    a, b = want.integrate(f), got.integrate(f.astype(t))
    gen.need(abs(a - b) <= 10 * tol * a, f"integral on a {kind} grid in {t}: {b} instead of {a}")
    return str(np.dtype(t)), kind


def base(ch):
    """Radial points and integrands of different types."""
    t, u = ch.choose("points", TYPES), ch.choose("integrand", TYPES)
    k = ch.choose("power", [1, 2])
    got = _BaseRadialGrid((R ** k).astype(t)).integrate(F1.astype(u))
    d = np.diff(R ** k)
    want = np.sum(d * (F1[1:] + F1[:-1])) / 2
    gen.need(abs(got - want) <= 1e-5 * want, f"integral of {u} on points of {t}: {got} instead of {want}")
    return np.dtype(t).str, np.dtype(u).str, k


def scenarios(tier):
    return [("arrays", arrays, 4 if tier == "thorough" else 2), ("alike", alike, None), ("scalars", scalars, None),
            ("grid types", grid_types, None), ("base", base, None)]
