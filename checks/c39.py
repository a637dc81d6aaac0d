r"""C39: results do not depend on how many points, functions or centres are handled in one call."""
import bisect

import numpy as np

from mc import gen, slaterref

slaterref.scratch()
from bfit.density import SlaterAtoms                                                       # noqa: E402
from bfit.fit import KLDivergenceFPI, ScipyFit                                             # noqa: E402
from bfit.grid import ClenshawRadialGrid, CubicGrid, UniformRadialGrid                     # noqa: E402
from bfit.measure import KLDivergence, SquaredDifference, TsallisDivergence                # noqa: E402
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity                     # noqa: E402

BOUNDS = {
    "quick": "17 pointwise results at n points from the first, second or 13th on, 15 integrated results and 3 grids, for n = 1..130, all "
             "powers of two and ten up to 131072 (and their neighbours) and round numbers up to 100001; models of "
             "1..70 functions and powers of two up to 1024, molecules of 1..40 and up to 300 centres",
    "thorough": "n = 1..1100 and powers up to 2^20, models of 1..300 functions",
}
ASSUMPTIONS = ["results are compared within 1e-9; a table made from single points and small blocks is the reference"]
NMAX = 2 ** 20 + 20
K = np.arange(1, NMAX + 1)
R = 9.0 * ((K * 0.6180339887498949) % 1.0) ** 2
R[[5, 140, 70000]] = 0.0
XYZ = np.stack([3.0 * ((K * a) % 1.0) - 1.5 for a in (0.7548776662466927, 0.5698402909980532, 0.8191725133961645)], axis=1)
F = 2.0 * np.exp(-1.1 * R) + 0.01 * ((K * 0.3247179572) % 1.0)
F0 = F.copy()
F0[[11, 333]] = 0.0
RF = np.maximum(R, 0.02)
G = F * (0.5 + ((K * 0.4142135623) % 1.0))
G[[17, 129, 1001, 66000]] = 1e-12
W = 0.2 + ((K * 0.2360679775) % 1.0)
WT = 0.5 + ((K * 0.6457513111) % 1.0)
COS = np.array([[0.2, -0.1, 0.3], [-0.8, 0.5, 0.1]])
BAS = np.array([[1, 1], [2, 0]])
C, E = np.array([0.9, 1.4, 0.5, 0.7]), np.array([0.6, 1.9, 0.8, 2.3])
ATOMS = {x: SlaterAtoms(x) for x in ("c", "ag")}


def table(x):
    return np.asarray(x, dtype=float).reshape(len(x), -1)


def both(t):
    return np.concatenate([table(x) for x in t], axis=1)


POINTWISE = {
    "atomic": lambda s: both(AtomicGaussianDensity(R[s], num_s=2, num_p=2, normalize=True).evaluate(C, E, deriv=True)),
    "atomic plain": lambda s: both(AtomicGaussianDensity(R[s], num_s=1, num_p=3).evaluate(C, E, deriv=True)),
    "atomic 3d": lambda s: table(AtomicGaussianDensity(XYZ[s], COS[0], 2, 2, True).evaluate(C, E)),
    "molecular": lambda s: both(MolecularGaussianDensity(XYZ[s], COS, BAS, True).evaluate(C, E, deriv=True)),
    "molecular plain": lambda s: both(MolecularGaussianDensity(XYZ[s], COS, BAS).evaluate(C, E, deriv=True)),
    "molecular value": lambda s: table(MolecularGaussianDensity(XYZ[s], COS, BAS, True).evaluate(C, E)),
    "radii": lambda s: table(MolecularGaussianDensity(XYZ[s], COS, BAS, True).radii.T),
    "squares": lambda s: both(SquaredDifference().evaluate(F0[s], G[s], deriv=True)),
    "divergence": lambda s: both(KLDivergence(1e-9).evaluate(F0[s], G[s], deriv=True)),
    "tsallis": lambda s: both(TsallisDivergence(1.4, 1e-9).evaluate(F0[s], G[s], deriv=True)),
    "density c": lambda s: table(ATOMS["c"].atomic_density(R[s])), "core ag": lambda s: table(ATOMS["ag"].atomic_density(R[s], "core")),
    "valence ag": lambda s: table(ATOMS["ag"].atomic_density(R[s], "valence")),
    "gradient c": lambda s: table(ATOMS["c"].derivative_density(R[s])),
    "kinetic ag": lambda s: table(ATOMS["ag"].positive_definite_kinetic_energy(R[s])),
    "orbitals ag": lambda s: table(ATOMS["ag"].phi_matrix(R[s])), "orbital gradients c": lambda s: table(ATOMS["c"].phi_matrix(R[s], True)),
}


class Grid:
    def __init__(self, points, w):
        self.points, self.w = points, w

    def integrate(self, arr):
        return float(np.sum(self.w * arr))


def fixed_point(s, mol):
    m = MolecularGaussianDensity(XYZ[s], COS, BAS, True) if mol else AtomicGaussianDensity(RF[s], num_s=2, num_p=2, normalize=True)
    return KLDivergenceFPI(Grid(XYZ[s] if mol else RF[s], W[s]), F[s], m, mask_value=1e-9, integral_dens=2.0, spherical=not mol)


def updated(s, mol):
    """The integrals behind one update: numerators of the coefficients, averages of the exponents."""
    f = fixed_point(s, mol)
    r = f.run(C, E, maxiter=1)
    a1 = r["coeffs"] / C * f.lagrange_multiplier
    return np.concatenate((a1, a1 * np.asarray(f.model.prefactor) / r["exps"], [f.lagrange_multiplier]))


def optimizer(s, mol, measure):
    m = MolecularGaussianDensity(XYZ[s], COS, BAS) if mol else AtomicGaussianDensity(RF[s], num_s=2, num_p=2)
    return ScipyFit(Grid(XYZ[s] if mol else RF[s], W[s]), F[s], m, measure=measure, integral_dens=2.0, weights=WT[s], spherical=not mol)


X = np.concatenate((C, E))
flat = lambda t: np.concatenate([np.ravel(x) for x in t])                       # noqa: E731
SUMS = {
    "update": lambda s: updated(s, False), "update molecule": lambda s: updated(s, True),
    "goodness": lambda s: np.delete(fixed_point(s, False).goodness_of_fit(C, E), 2),
    "goodness molecule": lambda s: np.delete(fixed_point(s, True).goodness_of_fit(C, E), 2),
    "objective": lambda s: flat(optimizer(s, False, KLDivergence(1e-9)).func(X)),
    "objective molecule": lambda s: flat(optimizer(s, True, KLDivergence(1e-9)).func(X)),
    "objective squares": lambda s: flat(optimizer(s, True, SquaredDifference()).func(X)),
    "objective tsallis": lambda s: flat(optimizer(s, False, TsallisDivergence(1.4)).func(X)),
    "objective coeffs": lambda s: flat(optimizer(s, True, KLDivergence(1e-9)).func(C, "fixed_expons", E)),
    "objective expons": lambda s: flat(optimizer(s, False, KLDivergence(1e-9)).func(E, "fixed_coeffs", C)),
    "constraint": lambda s: [optimizer(s, False, KLDivergence()).const_norm(X) - 2.0],
    "constraint molecule": lambda s: [optimizer(s, True, KLDivergence()).const_norm(X) - 2.0],
    "total": lambda s: [ScipyFit(Grid(RF[s], W[s]), F[s], AtomicGaussianDensity(RF[s], num_s=1), spherical=True).integral_dens],
}
MAXES = {"largest": lambda s: [fixed_point(s, False).goodness_of_fit(C, E)[2]],
         "largest molecule": lambda s: [fixed_point(s, True).goodness_of_fit(C, E)[2]]}


def cuts():
    """Blocks of the reference: single points, then blocks of 7, then of 89 points."""
    a = 0
    while a < NMAX:
        step = 1 if a < 300 else 7 if a < 5000 else 89
        yield slice(a, min(a + step, NMAX))
        a += step


_CUT = list(cuts())
_STOPS = [s.stop for s in _CUT]
_TAB = {}


def upto(kind, name, fn, n):
    """Reference for the points before n (rows)."""
    rows, end = _TAB.setdefault((kind, name), [[], 0])
    while end < n:
        s = _CUT[len(rows)]
        rows.append(np.asarray(fn(s), dtype=float))
        end = s.stop
    _TAB[kind, name][1] = end
    return rows


def sizes(tier, cap):
    top, full = (20, 1100) if tier == "thorough" else (17, 130)
    out = set(range(1, full + 1)) | {200, 201, 300, 301, 500, 501, 1500, 2000, 2001, 3000, 3001, 5000, 5001, 6000, 7000, 8000, 12000, 15000,
                                     20000, 20001, 25000, 30000, 40000, 50000, 50001, 60000, 80000}
    for b in [2 ** k for k in range(8, top + 1)] + [1000, 10000, 100000]:
        out |= {b - 1, b, b + 1}
    return sorted(n for n in out if n <= cap)


def pointwise(tier):
    def body(ch):
        name = ch.choose("result", list(POINTWISE))
        n = ch.choose("points", sizes(tier, 2 ** 20 + 1), None)
        a = ch.choose("first", [0, 1, 12], 1)
        fn = POINTWISE[name]
        rows = upto("p", name, fn, n + a)
        ref = (np.concatenate(rows) if n + a > 300 else np.concatenate(rows[:n + a]))[a:a + n]
        got = fn(slice(a, a + n))
        gen.need(got.shape == ref.shape, f"{name}: shape {got.shape} instead of {ref.shape} for {n} points")
        tol = 1e-9 * np.abs(ref) + 1e-13 * np.max(np.abs(ref), axis=0)
        bad = np.argwhere(~((np.abs(got - ref) <= tol) | (got == ref) | (np.isnan(got) & np.isnan(ref))))
        gen.need(not len(bad), f"{name}: with {n} points, point {bad[0] if len(bad) else 0} gives another result than alone: "
                 f"{got[tuple(bad[0])] if len(bad) else 0} instead of {ref[tuple(bad[0])] if len(bad) else 0}")
        return name, n, a
    return body


def integrated(tier):
    """The integrals are the sums over the blocks; the last block is cut to size."""
    def body(ch):
        name = ch.choose("result", list(SUMS) + list(MAXES))
        n = ch.choose("points", sizes(tier, 2 ** 17 + 1))
        fn = SUMS.get(name) or MAXES[name]
        i = bisect.bisect_left(_STOPS, n)
        rows = upto("s", name, fn, _CUT[i].stop)[:i] + [np.asarray(fn(slice(_CUT[i].start, n)), dtype=float)]
        got, rows = np.asarray(fn(slice(0, n)), dtype=float), np.array(rows)
        want = np.max(rows, axis=0) if name in MAXES else np.sum(rows, axis=0)
        tol = 1e-9 * np.sum(np.abs(rows), axis=0) + 1e-14
        bad = ~(np.abs(got - want) <= tol)
        gen.need(not np.any(bad), f"{name} over {n} points is {got[bad][:3]} instead of the {want[bad][:3]} of its parts")
        return name, n
    return body


def grids(tier):
    def body(ch):
        kind = ch.choose("grid", ["uniform", "clenshaw", "cubic"])
        n = ch.choose("points", [x for x in sizes(tier, 2 ** 17 + 1) if x > 1])
        if kind == "cubic":
            where = ch.choose("side", [0, 1, 2])
            shape = [2, 1, 3]
            shape[where] = n
            ax = np.array([[0.5, 0.1, 0.0], [0.0, 0.4, 0.2], [0.1, 0.0, 0.6]])
            g = CubicGrid(np.array([0.1, 0.2, -0.3]), ax, tuple(shape))
            idx = np.stack(np.meshgrid(*[np.arange(k) for k in shape], indexing="ij"), axis=-1).reshape(-1, 3)
            pts, vol = np.array([0.1, 0.2, -0.3]) + idx @ ax, abs(np.linalg.det(ax))
            gen.need(g.points.shape == pts.shape and np.max(np.abs(g.points - pts)) <= 1e-9 * (1 + np.max(np.abs(pts))),
                     f"points of a cubic grid of shape {shape}")
            v = W[:len(pts)]
            gen.need(abs(g.integrate(v) - vol * np.sum(v)) <= 1e-9 * vol * np.sum(v), f"integral on a cubic grid of shape {shape}")
            return kind, n, where
        if kind == "uniform":
            g = UniformRadialGrid(n, 0.0, 5.0, np.float64)
            gen.need(len(g) == n and np.max(np.abs(g.points - 5.0 * np.arange(n) / (n - 1))) <= 1e-12, f"points of a uniform grid of {n}")
        else:
            g = ClenshawRadialGrid(6, n, n // 2 + 1, include_origin=True, dtype=np.float64)
            gen.need(len(g) == len(np.ravel(g.points)) and np.all(np.diff(g.points) >= 0), f"points of a Clenshaw grid of {n}")
        p = np.asarray(g.points, dtype=float)
        v = F[:len(p)]
        d = np.diff(p)
        with np.errstate(invalid="ignore"):
            want, scale = np.sum(0.5 * d * (v[1:] + v[:-1])), np.sum(np.abs(d) * (v[1:] + v[:-1]))
        gen.need(abs(g.integrate(v) - want) <= 1e-10 * scale, f"{kind} grid of {n}: integral {g.integrate(v)} instead of {want}")
        return kind, n, len(p)
    return body


def functions(tier):
    ns = list(range(1, 301 if tier == "thorough" else 71)) + [99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300, 301, 500, 511, 512, 513,
                                                              1000, 1001, 1023, 1024, 1025]

    def body(ch):
        m = ch.choose("functions", sorted(set(ns)))
        split = ch.choose("kinds", ["s", "p", "half", "last p"])
        norm, mol = ch.flag("normalize"), ch.flag("molecular")
        ns_ = {"s": m, "p": 0, "half": m // 2, "last p": m - 1}[split]
        c, e = 0.3 + WT[:m], 0.1 + 2.0 * W[3:m + 3]
        pts = XYZ[:6]
        if mol:
            mdl = MolecularGaussianDensity(pts, COS, np.array([[ns_, m - ns_], [1, 0]]), norm)
            c, e = np.append(c, 0.0), np.append(e, 1.0)
        else:
            mdl = AtomicGaussianDensity(pts, COS[0], ns_, m - ns_, norm)
        r2 = np.sum((pts - COS[0]) ** 2, axis=1)[:, None]
        k = np.arange(m) >= ns_
        b = np.exp(-e[:m] * r2) * np.where(k, r2, 1.0)
        if norm:
            b = b * np.where(k, e[:m] ** 2.5 / (1.5 * np.pi ** 1.5), (e[:m] / np.pi) ** 1.5)
        g, dg = mdl.evaluate(c, e, deriv=True)
        want = b @ c[:m]
        gen.need(np.all(np.abs(g - want) <= 1e-10 * want) and np.all(np.abs(mdl.evaluate(c, e) - want) <= 1e-10 * want),
                 f"value of {m} functions ({split}, molecular {mol}, normalized {norm})")
        gen.need(dg.shape == (6, 2 * len(c)) and np.all(np.abs(dg[:, :m] - b) <= 1e-10 * b), f"gradient by coefficients, {m} functions")
        pre = np.where(k, 2.5, 1.5)
        want = c[:m] * b * ((pre / e[:m] if norm else 0.0) - r2)
        gen.need(np.all(np.abs(dg[:, len(c):len(c) + m] - want) <= 1e-9 * (c[:m] * b * (pre / e[:m] + r2))), f"gradient by exponents, {m} functions")
        gen.need(np.array_equal(np.asarray(mdl.prefactor)[:m], pre), f"prefactors of {m} functions")
        return m, split, norm, mol
    return body


def centres(tier):
    def body(ch):
        k = ch.choose("centres", list(range(1, 41)) + [64, 65, 100, 101, 128, 129, 200, 255, 256, 257, 300])
        kind = ch.choose("kinds", ["one s", "one p", "varied"])
        norm = ch.flag("normalize")
        basis = {"one s": np.tile([1, 0], (k, 1)), "one p": np.tile([0, 1], (k, 1)),
                 "varied": np.array([[1 + i % 3 % 2, (i * i) % 3] for i in range(k)])}[kind]
        pts, pos = XYZ[:5], 2.0 * XYZ[7:7 + k]
        m = int(np.sum(basis))
        c, e = 0.3 + WT[:m], 0.1 + 2.0 * W[3:m + 3]
        mdl = MolecularGaussianDensity(pts, pos, basis, norm)
        g, dg = mdl.evaluate(c, e, deriv=True)
        want, a = np.zeros(5), 0
        for i, (s, p) in enumerate(basis):
            one = AtomicGaussianDensity(pts, pos[i], int(s), int(p), norm)
            v, d = one.evaluate(c[a:a + s + p], e[a:a + s + p], deriv=True)
            want += v
            gen.need(np.allclose(dg[:, a:a + s + p], d[:, :s + p], rtol=1e-10, atol=0) and
                     np.allclose(dg[:, m + a:m + a + s + p], d[:, s + p:], rtol=1e-10, atol=1e-300), f"gradient of centre {i} of {k}")
            gen.need(all(mdl.assign_basis_to_center(j) == i for j in range(a, a + s + p)), f"functions of centre {i} of {k}")
            gen.need(np.allclose(mdl.radii[i], one.radii, rtol=1e-13, atol=0), f"distances from centre {i} of {k}")
            a += int(s + p)
        gen.need(np.allclose(g, want, rtol=1e-10, atol=0) and np.allclose(mdl.evaluate(c, e), want, rtol=1e-10, atol=0), f"value of {k} centres")
        gen.need((mdl.natoms, mdl.nbasis) == (k, m), f"counts of {k} centres")
        return k, kind, norm
    return body


def scenarios(tier):
    return [("pointwise", pointwise(tier), 1), ("integrated", integrated(tier), None),
            ("grids", grids(tier), None), ("functions", functions(tier), None), ("centres", centres(tier), None)]
