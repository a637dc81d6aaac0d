r"""C41: grids, measures and models of the caller's own are used through their documented interface."""
import checks.c33                                                                         # noqa: F401  scratch copy

import numpy as np
from scipy.special import roots_legendre

from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.greedy import GreedyKLFPI, GreedyLeastSquares
from bfit.grid import ClenshawRadialGrid, CubicGrid, UniformRadialGrid
from bfit.measure import KLDivergence, Measure, SquaredDifference, TsallisDivergence
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
from mc import fitref, gen, refs

BOUNDS = {
    "quick": "5 point sets with quadrature weights of their own x 5 kinds of grid object x 5 models x spherical x 3 "
             "selections x (fixed-point step, 6 measures with and without weights); runs and searches of 2 x 3 kinds with "
             "wrapped grids, measures and subclassed models against the library's own",
    "thorough": "as quick with 3 more models, longer runs and searches of up to 6 functions",
}
ASSUMPTIONS = ["a grid of one's own has points, integrate and a length, as the constructors ask for"]


# ---------------------------------------------------------------- grids of the caller's own
class Plain:
    def __init__(self, points, w):
        self.points, self.w = points, w

    def __len__(self):
        return len(self.points)

    def integrate(self, arr):
        return np.sum(self.w * arr)


class Slotted:
    __slots__ = ("_p", "_w")

    def __init__(self, points, w):
        self._p, self._w = points, w

    points = property(lambda self: self._p)

    def __len__(self):
        return len(self._p)

    def integrate(self, arr):
        return float(np.dot(self._w, arr))


class Callable_(Plain):
    """integrate is an attribute, not a method."""

    def __init__(self, points, w):
        super().__init__(points, w)
        self.integrate = lambda arr: np.sum(w * arr)


class SubUniform(UniformRadialGrid):
    """A library grid with another rule of integration."""

    def __init__(self, points, w):                               # pylint: disable=super-init-not-called
        super().__init__(len(points), 0.0, 8.0)
        self._points, self.w = points, w

    def integrate(self, arr):
        return np.sum(self.w * arr)


class SubCubic(CubicGrid):
    def __init__(self, points, w):
        super().__init__(np.zeros(3), np.eye(3), (2, 2, 2))
        self._points, self.w = points, w

    def integrate(self, arr):
        return np.sum(self.w * arr)


KINDS = {"plain": Plain, "slots": Slotted, "attribute": Callable_, "subclass radial": SubUniform, "subclass cubic": SubCubic}


# ---------------------------------------------------------------- points and weights
def legendre(n):
    x, w = roots_legendre(n)
    order = np.argsort((np.arange(n) * 0.6180339887) % 1.0)
    return (4.0 * (x + 1.0))[order], (4.0 * w)[order]


def scattered(n, d):
    p = np.stack([gen.generic(n, -2.0, 2.0, 17 * k + 3) for k in range(d)], axis=1)
    return p, gen.generic(n, 0.05, 0.4, 91)


def pointset(name):
    if name == "legendre":
        return legendre(36)
    if name == "repeated":
        x, w = legendre(20)
        return np.concatenate((x, x[:5])), np.concatenate((w, 0.5 * w[:5]))
    if name == "weightless":
        x, w = legendre(24)
        return np.append(x, [2.0, 0.0]), np.append(w, [0.0, 0.3])
    return scattered(50, int(name))


SETS = ["legendre", "repeated", "weightless", "3", "2"]
MODELS = ["atomic", "atomic plain", "center", "molecule", "molecule of one"]
MORE = ["many", "molecule of four", "p only"]


class Own(fitref.Problem):
    """A fitting problem on points and weights of the caller's own."""

    def __init__(self, pts, model):                              # pylint: disable=super-init-not-called
        p, w = pointset(pts)
        d = 0 if p.ndim == 1 else p.shape[1]
        self.radial, self.normalize = d == 0, model != "atomic plain"
        self.pts, self.w, self.kind = p, w, pts
        x = [np.array(c)[:max(d, 1)] for c in ([0.4, -0.7, 0.2], [-1.1, 0.3, 0.6], [0.9, 0.1, -0.2], [0.0, 1.2, 1.0])]
        if model in ("atomic", "atomic plain", "many", "p only"):
            b = {"many": (7, 5), "p only": (0, 3)}.get(model, (2, 1))
            self.centers, self.basis = [np.zeros(max(d, 1))], [b]
            self.model = AtomicGaussianDensity(p, num_s=b[0], num_p=b[1], normalize=self.normalize)
        elif model == "center":
            self.centers, self.basis = [x[0]], [(1, 2)]
            self.model = AtomicGaussianDensity(p, x[0], 1, 2, True)
        else:
            n = {"molecule": 2, "molecule of one": 1, "molecule of four": 4}[model]
            self.centers, self.basis = x[:n], [(1, 1), (2, 0), (0, 1), (1, 1)][:n]
            self.model = MolecularGaussianDensity(p if d else p[:, None], np.array(self.centers), np.array(self.basis), True)
        self.lay = refs.layout(self.basis)
        self.m = len(self.lay)
        self.pref = np.array([1.5 if k == "s" else 2.5 for _, k in self.lay])
        self.r2 = [np.array(refs.dist2(p, c)) for c in self.centers]

    def density(self, kind):
        r = np.sqrt(self.r2[0])
        return 2.5 * np.exp(-1.4 * r) + 0.3 * np.exp(-0.7 * self.r2[-1]) if kind == "slater" else \
            (1.5 + np.sin(7.3 * np.arange(len(r)))) * np.exp(-r)


# ---------------------------------------------------------------- measures of the caller's own
class Cubed(Measure):
    def evaluate(self, density, model, deriv=False):
        r = model - density
        return (np.abs(r) ** 3, 3.0 * r * np.abs(r)) if deriv else np.abs(r) ** 3


class Chi(Measure):
    """Keeps a setting of its own."""

    def __init__(self, shift):
        self.shift = shift

    def evaluate(self, density, model, deriv=False):
        q = density + self.shift
        v = (density - model) ** 2 / q
        return (v, 2.0 * (model - density) / q) if deriv else v


class Reverse(KLDivergence):
    """A library measure with its value replaced."""

    def evaluate(self, density, model, deriv=False):
        v = model * np.log(model / (density + 0.1)) - model
        return (v, np.log(model / (density + 0.1))) if deriv else v


MEASURES = {"squared": SquaredDifference, "kl": lambda: KLDivergence(1e-18), "tsallis": lambda: TsallisDivergence(1.3, 1e-18),
            "cubed": Cubed, "chi": lambda: Chi(0.7), "reverse": Reverse}


def setup(ch, models):
    pts = ch.choose("points", SETS)
    one_d = pts in SETS[:3]
    kind = ch.choose("grid", ["plain", "slots", "attribute", "subclass radial" if one_d else "subclass cubic"])
    model = ch.choose("model", [m for m in models if not (one_d and m.startswith("molecule"))])
    sph = ch.flag("spherical") if one_d else False
    p = Own(pts, model)
    p.grid = KINDS[kind](p.pts, p.w)
    return p, sph, (pts, kind, model, sph)


def fixed_point(ch, models):
    p, sph, label = setup(ch, models)
    f = p.density(ch.choose("density", ["slater", "noisy"]))
    opt = ch.choose("optimize", ["both", "coeffs", "expons"])
    total = ch.choose("total", [None, 3.0])
    fit = KLDivergenceFPI(p.grid, f, p.model, mask_value=1e-12, spherical=sph, integral_dens=total)
    n = p.integ(f, sph)
    gen.need_close(fit.integral_dens, n if total is None else total, "integral of the density", rtol=1e-10)
    c, e = p.params("generic")
    r = fit.run(c.copy(), e.copy(), opt_coeffs=opt != "expons", opt_expons=opt != "coeffs", maxiter=2, c_threshold=-1.0,
                e_threshold=-1.0, d_threshold=-1.0)
    for _ in range(2):
        c, e = p.fpi_step(f, c, e, opt != "expons", opt != "coeffs", 1e-12, sph, 1.0 if total is None else n / total)
    gen.need_close(r["coeffs"], c, "coefficients", scale=np.max(np.abs(c)), rtol=1e-8)
    gen.need_close(r["exps"], e, "exponents", rtol=1e-8)
    perf = p.goodness(f, c, e, 1e-12, sph)
    gen.need_close(r["performance"][-1], perf, "measures", scale=np.abs(perf) + abs(perf[0]), rtol=1e-7)
    return label, opt, total


def optimizer(ch, models):
    p, sph, label = setup(ch, models)
    f = p.density(ch.choose("density", ["slater", "noisy"]))
    ms = ch.choose("measure", list(MEASURES))
    m = MEASURES[ms]()
    wt = ch.choose("weights", [None, "given"])
    w = None if wt is None else gen.generic(len(f), 0.2, 1.7, 5)
    total = ch.choose("total", [None, 3.0])
    fit = ScipyFit(p.grid, f, p.model, measure=m, weights=w, spherical=sph, integral_dens=total)
    w = np.ones(len(f)) if w is None else w
    c, e = p.params("generic")
    sel = ch.choose("optimize", ["both", "coeffs", "expons"])
    x, args = {"both": (np.concatenate((c, e)), ()), "coeffs": (c, ("fixed_expons", e)), "expons": (e, ("fixed_coeffs", c))}[sel]
    v, dv = refs.model(p.pts, p.centers, p.basis, c, e, p.normalize)[:2]
    dv = {"both": dv, "coeffs": dv[:, :p.m], "expons": dv[:, p.m:]}[sel]
    k, dk = MEASURES[ms]().evaluate(f, v, deriv=True)
    obj, grad = fit.func(x, *args)
    ww = w * p.weights(sph)
    gen.need_close(obj, float(np.sum(ww * k)), "objective", scale=float(np.sum(np.abs(ww * k))), rtol=1e-9)
    gen.need_close(grad, dv.T @ (ww * dk), "gradient", scale=np.abs(dv).T @ np.abs(ww * dk) + 1e-300, rtol=1e-9)
    tot = fit.integral_dens
    gen.need_close(tot, p.integ(f, sph) if total is None else total, "total", rtol=1e-10)
    got = float(fit.const_norm(x, *args))
    gen.need_close(abs(got), abs(p.integ(v, sph) - tot), "constraint", scale=abs(tot) + abs(p.integ(v, sph)), rtol=1e-9)
    gof = np.asarray(fit.goodness_of_fit(c, e), dtype=float)
    perf = p.goodness(f, c, e, 1e-18, sph)
    gen.need_close(gof, perf, "goodness of fit", scale=np.abs(perf) + abs(perf[0]), rtol=1e-8)
    return label, ms, wt, sel


# ---------------------------------------------------------------- wrapped library objects change nothing
class Wrap:
    def __init__(self, grid):
        self.grid, self.calls = grid, 0

    points = property(lambda self: self.grid.points)

    def __len__(self):
        return len(self.grid)

    def integrate(self, arr):
        self.calls += 1
        return self.grid.integrate(arr)


class WrapMeasure(Measure):
    def __init__(self, m):
        self.m = m

    def evaluate(self, density, model, deriv=False):
        return self.m.evaluate(density, model, deriv)


class SubAtomic(AtomicGaussianDensity):
    """evaluate of a subclass is the one that counts."""
    calls = 0

    def evaluate(self, coeffs, expons, deriv=False):
        self.calls += 1
        return super().evaluate(coeffs, expons, deriv)


class SubMolecular(MolecularGaussianDensity):
    calls = 0

    def evaluate(self, coeffs, expons, deriv=False):
        self.calls += 1
        return super().evaluate(coeffs, expons, deriv)


def same(a, b, what):
    for k in a:
        if k in ("time", "message", "exit_information"):
            continue
        x, y = a[k], b[k]
        if k == "parameters_iteration":
            x, y = np.concatenate(x), np.concatenate(y)
        gen.need(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=np.asarray(x).dtype.kind == "f"),
                 f"{what}: {k} is {y}, with the library's own {x}")


def library(kind):
    if kind == "uniform":
        g = UniformRadialGrid(60, 0.0, 8.0, dtype=np.float64)
    elif kind == "clenshaw":
        g = ClenshawRadialGrid(4, 30, 20, dtype=np.float64)
    else:
        g = CubicGrid(np.array([-3.0, -2.8, -3.1]), np.eye(3) * 1.0, (7, 6, 7))
    r = g.points if g.points.ndim == 1 else np.linalg.norm(g.points, axis=1)
    return g, 1.6 * np.exp(-0.9 * r ** 2) + 0.8 * np.exp(-0.35 * r ** 2) + 0.05 * np.exp(-r)


def runs(ch, long):
    kind = ch.choose("grid", ["uniform", "clenshaw", "cubic"])
    g, f = library(kind)
    sph = ch.flag("spherical") if kind != "cubic" else False
    mol = ch.flag("molecular") if kind == "cubic" else False
    own = ch.choose("own", ["grid", "measure", "model", "all"])
    method = ch.choose("method", ["fpi", "SLSQP"] + (["trust-constr"] if long else []))
    ms = ch.choose("measure", ["squared", "kl", "tsallis"]) if method != "fpi" else "kl"
    c, e = np.array([1.5, 2.0, 0.7]), np.array([0.8, 0.4, 0.6])

    def go(owned):
        grid = Wrap(g) if owned and own in ("grid", "all") else g
        sub = owned and own in ("model", "all")
        if mol:
            mdl = (SubMolecular if sub else MolecularGaussianDensity)(g.points, np.array([[0.2, 0.1, 0.0], [-0.4, 0.3, 0.2]]),
                                                                      np.array([[1, 1], [1, 0]]), True)
        else:
            mdl = (SubAtomic if sub else AtomicGaussianDensity)(g.points, None, 2, 1, True)
        if method == "fpi":
            r = KLDivergenceFPI(grid, f, mdl, spherical=sph).run(c.copy(), e.copy(), maxiter=40 if long else 12)
        else:
            m = MEASURES[ms]()
            m = WrapMeasure(m) if owned and own in ("measure", "all") else m
            r = ScipyFit(grid, f, mdl, measure=m, method=method, spherical=sph).run(c.copy(), e.copy(), maxiter=30 if long else 8)
        gen.need(not sub or mdl.calls > 0, "the subclass's evaluate is not used")
        gen.need(grid is g or grid.calls > 0, "the grid's integrate is not used")
        return r
    same(go(False), go(True), f"{method} with own {own}")
    return kind, sph, mol, own, method, ms


def searches(ch, n):
    kind = ch.choose("grid", ["uniform", "clenshaw"] + (["cubic"] if n > 3 else []))
    g, f = library(kind)
    sph = ch.flag("spherical") if kind != "cubic" else False
    algo = ch.choose("search", ["ls", "kl"])
    choice = ch.choose("choice", ["pick-one", "pick-two", "pick-two-lose-one"])

    def go(grid):
        np.random.seed(3)
        if algo == "ls":
            s = GreedyLeastSquares(grid, f, choice=choice, normalize=True, spherical=sph, l_maxiter=6, g_maxiter=15)
        else:
            s = GreedyKLFPI(grid, f, choice=choice, spherical=sph, l_maxiter=6, g_maxiter=15)
        return s.run(2.0, max_numb_funcs=n)
    w = Wrap(g)
    same(go(g), go(w), f"{algo} {choice}")
    gen.need(w.calls > 0, "the grid's integrate is not used")
    return kind, sph, algo, choice


def scenarios(tier):
    t = tier == "thorough"
    models = MODELS + MORE if t else MODELS
    return [("fixed point", lambda ch: fixed_point(ch, models), None), ("optimizer", lambda ch: optimizer(ch, models), None),
            ("runs", lambda ch: runs(ch, t), None), ("searches", lambda ch: searches(ch, 6 if t else 3), None)]
