r"""Small fitting problems and reference formulas of the fitting layer (independent of bfit's own maths)."""
import math

import numpy as np

from bfit.grid import ClenshawRadialGrid, CubicGrid, UniformRadialGrid
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
from mc import gen, refs

GRIDS = ["radial", "clenshaw", "cubic", "cubic-center", "molecule2", "molecule3"]
RADIAL = ("radial", "clenshaw")
MANY = [(33, 0), (0, 34), (20, 20), (66, 3)]


class Problem:
    """Grid, model and their reference descriptions (points, weights, centres, basis layout)."""

    def __init__(self, kind, ns, np_, normalize=True, small=False, dtype=np.float64, size=None):
        self.kind, self.normalize = kind, normalize
        self.radial = kind in RADIAL
        if kind == "radial":
            self.grid = UniformRadialGrid(size or (9 if small else 41), 0.0, 4.0 if small else 8.0, dtype)
        elif kind == "clenshaw":
            self.grid = ClenshawRadialGrid(3, 30, 25, extra_pts=[50.0, 75.0], dtype=dtype)
        else:
            n = 3 if small else 7
            ax = np.array([[0.9, 0.0, 0.0], [0.0, 0.8, 0.1], [0.1, 0.0, 0.7]]) * (6.0 / n / 0.8)
            self.grid = CubicGrid(np.array([-2.9, -3.1, -2.7]), ax, (n, n, n))
        pts = np.asarray(self.grid.points, dtype=float)
        if self.radial:
            w = np.zeros(len(pts))
            w[:-1] += 0.5 * np.diff(pts)
            w[1:] += 0.5 * np.diff(pts)
        else:
            w = np.full(len(pts), abs(np.linalg.det(ax)))
        self.pts, self.w = pts, w
        if kind in ("radial", "clenshaw", "cubic"):
            self.centers, self.basis = [np.zeros(1 if self.radial else 3)], [(ns, np_)]
            self.model = AtomicGaussianDensity(self.grid.points, None, ns, np_, normalize)
        elif kind == "cubic-center":
            self.centers, self.basis = [np.array([0.4, -0.7, 0.2])], [(ns, np_)]
            self.model = AtomicGaussianDensity(self.grid.points, self.centers[0], ns, np_, normalize)
        elif kind == "molecule1":
            self.centers, self.basis = [np.array([0.4, -0.7, 0.2])], [(ns, np_)]
            self.model = MolecularGaussianDensity(self.grid.points, np.array(self.centers),
                                                  np.array(self.basis), normalize)
        elif kind == "molecule2":
            self.centers = [np.array([0.9, 0.1, -0.2]), np.array([-1.1, 0.3, 0.6])]
            self.basis = [(ns, np_), (np_, ns)]
            self.model = MolecularGaussianDensity(self.grid.points, np.array(self.centers),
                                                  np.array(self.basis), normalize)
        elif kind == "molecule3":
            self.centers = [np.array([0.9, 0.1, -0.2]), np.array([-1.1, 0.3, 0.6]),
                            np.array([0.0, -1.4, 1.0])]
            self.basis = [(1, 0), (ns, np_), (0, 1)]
            self.model = MolecularGaussianDensity(self.grid.points, np.array(self.centers),
                                                  np.array(self.basis), normalize)
        elif kind in ("molecule4", "molecule5"):
            self.centers = [np.array(x) for x in ([0.9, 0.1, -0.2], [-1.1, 0.3, 0.6], [0.0, -1.4, 1.0],
                                                  [1.2, 1.1, -0.9], [-0.3, 0.8, 1.3])][:int(kind[-1])]
            self.basis = [(1, 0), (ns, np_), (0, 1), (np_, ns), (1, 1)][:int(kind[-1])]
            self.model = MolecularGaussianDensity(self.grid.points, np.array(self.centers),
                                                  np.array(self.basis), normalize)
        else:
            raise KeyError(kind)
        self.lay = refs.layout(self.basis)
        self.m = len(self.lay)
        self.pref = np.array([1.5 if k == "s" else 2.5 for _, k in self.lay])
        self.r2 = [np.array(refs.dist2(pts, c)) for c in self.centers]

    # ---- parameters and densities
    def params(self, kind):
        if kind == "generic":
            c, e = gen.generic(self.m, 0.4, 2.0, 61), gen.generic(self.m, 0.3, 2.2, 71)
        elif kind == "spread":
            c, e = gen.generic(self.m, 0.1, 5.0, 81), 0.4 * 2.3 ** np.arange(self.m)
        elif kind == "equal":
            c, e = np.full(self.m, 1.3), np.full(self.m, 0.9)
        elif kind == "zero-c":
            c, e = gen.generic(self.m, 0.4, 2.0, 61), gen.generic(self.m, 0.3, 2.2, 71)
            if self.m > 1:
                c[0] = 0.0
        elif kind == "zero":
            c, e = np.zeros(self.m), gen.generic(self.m, 0.3, 2.2, 71)
        elif kind == "negative":
            c, e = -gen.generic(self.m, 0.4, 2.0, 61), gen.generic(self.m, 0.3, 2.2, 71)
        elif kind == "signed":
            c, e = gen.generic(self.m, 0.4, 2.0, 61) * (-1.0) ** np.arange(self.m), gen.generic(self.m, 0.3, 2.2, 71)
        elif kind == "diffuse":
            c, e = gen.generic(self.m, 0.4, 2.0, 61), gen.generic(self.m, 0.004, 0.02, 71)
        elif kind == "dense":        # for many functions
            c, e = gen.generic(self.m, 0.1, 1.0, 31), np.geomspace(0.05, 40.0, self.m)[::-1].copy()
        elif kind == "dense-mixed":
            c, e = gen.generic(self.m, 0.1, 1.0, 31), gen.generic(self.m, 0.2, 9.0, 37)
        elif kind == "sharp":
            c, e = gen.generic(self.m, 0.4, 2.0, 91), 40.0 * 3.0 ** np.arange(self.m)
        else:
            raise KeyError(kind)
        return c, e

    def density(self, kind):
        r2 = sum(self.r2) / len(self.r2)
        r = np.sqrt(r2)
        if kind == "slater":
            f = 2.5 * np.exp(-1.4 * r) + 0.6 * r2 * np.exp(-2.2 * r)
        elif kind == "model":
            c, e = self.params("generic")
            f = refs.model(self.pts, self.centers, self.basis, c, e, self.normalize)[0]
        elif kind == "noisy":
            f = (1.5 + np.sin(7.3 * np.arange(len(r)))) * np.exp(-r)
        elif kind == "zeros":
            f = np.where(r < 2.0, (2.0 - r) ** 2, 0.0)
        elif kind == "flat":
            f = np.full(len(r), 0.02)
        else:
            raise KeyError(kind)
        return f.astype(self.grid.points.dtype)

    # ---- reference integration and formulas
    def weights(self, spherical):
        return self.w * (4.0 * np.pi * self.pts ** 2 if spherical else 1.0)

    def integ(self, y, spherical):
        return math.fsum(float(a) for a in np.asarray(y, dtype=float) * self.weights(spherical))

    def value(self, c, e):
        return refs.model(self.pts, self.centers, self.basis, c, e, self.normalize)[0]

    def basis_functions(self, e):
        return refs.model(self.pts, self.centers, self.basis, np.ones(self.m), e, self.normalize)[1][:, :self.m]

    def kl(self, f, c, e, mask, spherical):
        g = self.value(c, e)
        return self.integ([refs.kl(float(a), float(b), mask)[0] for a, b in zip(f, g)], spherical)

    def goodness(self, f, c, e, mask, spherical):
        f = np.asarray(f, dtype=float)
        g = self.value(c, e)
        kl = [refs.kl(float(a), float(b), mask)[0] for a, b in zip(f, g)]
        if np.any(g < 0):
            kl = np.full(len(g), 100000.0)
        return np.array([self.integ(g, spherical), self.integ(np.abs(f - g), spherical),
                         float(np.max(np.abs(f - g))), self.integ((f - g) ** 2, spherical),
                         self.integ(kl, spherical)])

    def fpi_step(self, f, c, e, opt_c, opt_e, mask, spherical, lam):
        """One documented fixed-point update."""
        f = np.asarray(f, dtype=float)
        g = self.value(c, e)
        ratio = np.array([1.0 if b <= mask else a / b for a, b in zip(f, g)])
        b = self.basis_functions(e)
        c2, e2 = np.array(c, dtype=float), np.array(e, dtype=float)
        for k, (j, _) in enumerate(self.lay):
            a1 = self.integ(ratio * b[:, k], spherical)
            a2 = self.integ(ratio * b[:, k] * self.r2[j], spherical)
            if opt_c:
                c2[k] = c[k] * a1 / lam
            if opt_e:
                e2[k] = self.pref[k] * a1 / a2 if a2 else math.nan
        return c2, e2
