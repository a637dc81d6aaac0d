r"""C11: a cubic grid is the documented lattice, with one cell volume per point."""
import itertools

import numpy as np

from bfit.grid import CubicGrid
from mc import gen

BOUNDS = {
    "quick": "all shapes in {1..4,7}^3, 7 axes (rotated, skewed, left-handed, uneven, tiny), 3 origins; "
             "every unit integrand on shapes up to 3x3x3",
    "thorough": "all shapes in {1..6,9}^3",
}

AXES = {
    "unit": np.eye(3),
    "uneven": np.diag([0.5, 1.0, 2.5]),
    "negative": np.diag([0.5, -1.0, 2.0]),
    "permuted": np.array([[0.0, 1.0, 0.0], [0.5, 0.0, 0.0], [0.0, 0.0, 2.0]]),
    "skew": np.array([[1.0, 0.2, 0.0], [0.0, 0.7, 0.3], [0.1, 0.0, 1.3]]),
    "general": np.array([[0.3, -0.8, 0.1], [0.9, 0.2, 0.4], [-0.2, 0.5, 0.7]]),
    "tiny": np.eye(3) * 1e-4 + 1e-5,
}
ORIGIN = {"zero": np.zeros(3), "shifted": np.array([1.5, -2.0, 0.25]), "far": np.full(3, 1e3)}


def lattice(ch, sides):
    shape = tuple(ch.choose(f"shape{i}", sides) for i in range(3))
    axes = AXES[ch.choose("axes", list(AXES))]
    origin = ORIGIN[ch.choose("origin", list(ORIGIN))]
    stype = ch.choose("shape type", ["tuple", "array"])
    ka, ko = axes.copy(), origin.copy()
    g = CubicGrid(origin, axes, shape if stype == "tuple" else np.array(shape))
    n = int(np.prod(shape))
    want = np.array([origin + i * axes[0] + j * axes[1] + k * axes[2]
                     for i, j, k in itertools.product(*(range(s) for s in shape))])
    gen.need(g.points.shape == (n, 3) and len(g) == n, f"{g.points.shape} points, expected {n}")
    gen.need_close(g.points, want, "lattice points", scale=np.max(np.abs(want)) + 1e-3, rtol=1e-12)
    gen.need(np.array_equal(axes, ka) and np.array_equal(origin, ko), "arguments modified")
    gen.need(np.array_equal(g.axes, axes), "axes")
    vol = abs(np.linalg.det(axes))
    gen.need_close(g.integrate(np.ones(n)), vol * n, "volume", rtol=1e-10)
    y = gen.generic(n, -2.0, 3.0, 5)
    gen.need_close(g.integrate(y), vol * float(np.sum(y)), "Riemann sum",
                   scale=vol * float(np.sum(np.abs(y))), rtol=1e-10)
    if n <= 27:
        for i in range(n):
            e = np.zeros(n)
            e[i] = 1.0
            gen.need_close(g.integrate(e), vol, f"weight of point {i}", rtol=1e-10)
    for v in (np.nan, np.inf, -np.inf):
        for i in {0, n // 2, n - 1}:
            y = np.ones(n)
            y[i] = v
            got = float(g.integrate(y))
            gen.need(np.isnan(got) if np.isnan(v) else got == v, f"{v} at point {i} integrates to {got}")
    for bad in (np.ones(n + 1), np.ones((n, 1)), np.ones((1, n)), np.ones(max(0, n - 1))):
        gen.need(gen.raises(lambda: g.integrate(bad)), f"integrand of shape {bad.shape} accepted")
    return shape, round(vol * n, 12)


def large(ch):
    shape = ch.choose("shape", [(20, 1, 1), (1, 64, 2), (31, 17, 8), (33, 33, 33), (65, 3, 129), (200, 2, 1), (1, 300, 2), (2, 1, 300), (33000, 1, 2),
                                (1, 40000, 1), (2, 1, 70000)])
    axes = AXES[ch.choose("axes", list(AXES))]
    g = CubicGrid(ORIGIN["shifted"], axes, shape)
    n = int(np.prod(shape))
    i, j, k = np.unravel_index(np.arange(n), shape)
    want = ORIGIN["shifted"] + np.outer(i, axes[0]) + np.outer(j, axes[1]) + np.outer(k, axes[2])
    gen.need_close(g.points, want, "lattice points", scale=np.max(np.abs(want)), rtol=1e-12)
    y = gen.generic(n, -2.0, 3.0, 5)
    vol = abs(np.linalg.det(axes))
    gen.need_close(g.integrate(y), vol * np.sum(y), "Riemann sum", scale=vol * np.sum(np.abs(y)),
                   rtol=1e-10)
    return shape


def scenarios(tier):
    sides = [1, 2, 3, 4, 5, 6, 9] if tier == "thorough" else [1, 2, 3, 4, 7]
    return [("lattice", lambda ch: lattice(ch, sides), None), ("large", large, None)]
