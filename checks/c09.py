r"""C09: radial grids hold exactly the documented points, in order."""
import math

import numpy as np

from bfit.grid import ClenshawRadialGrid, UniformRadialGrid
from mc import gen

BOUNDS = {
    "quick": "uniform: 12 sizes x 9 intervals x 3 dtypes; Clenshaw-Curtis: Z in 10 values, core and "
             "diffuse counts in 8 values each, 16 kinds of extra points, with/without origin, 3 dtypes",
    "thorough": "Z 1..103 and counts 0..12 plus large ones",
}


def tol(dtype):
    return 3e-6 if dtype is np.float32 else 1e-13


def uniform(ch):
    n = ch.choose("num_pts", [1, 2, 3, 4, 5, 10, 11, 100, 101, 1000, 1025, 4096, 20011, 40000])
    lo, hi = ch.choose("interval", [(0.0, 100.0), (0.0, 1.0), (0, 7), (0.5, 0.75), (-3.0, 2.0),
                                    (-5, -1), (1e-6, 2e-6), (0.0, 1e6), (3, 4.5)])
    dtype = ch.choose("dtype", [np.longdouble, np.float64, np.float32])
    dflt = ch.flag("default dtype") and dtype is np.longdouble
    g = UniformRadialGrid(n, lo, hi) if dflt else UniformRadialGrid(n, lo, hi, dtype)
    want = np.array([lo + (hi - lo) * (i / (n - 1)) if n > 1 else lo for i in range(n)])
    got = np.asarray(g.points)
    gen.need(got.shape == (n,) and len(g) == n, f"{got.shape} points, len {len(g)}, expected {n}")
    gen.need(got.dtype == np.dtype(dtype), f"dtype {got.dtype}")
    gen.need_close(got, want, "uniform points", scale=max(abs(lo), abs(hi)), rtol=tol(dtype))
    gen.need(bool(np.all(np.diff(got) > 0)), "points are not increasing")
    gen.need(float(got[0]) == float(dtype(lo)), "first point")
    return n, lo, hi


def defaults(ch):
    n = ch.choose("num_pts", [2, 11, 500])
    g = UniformRadialGrid(n)
    gen.need_close(g.points, [100.0 * i / (n - 1) for i in range(n)], "default interval", scale=100.0,
                   rtol=1e-13)
    g = UniformRadialGrid(num_pts=n, max_radii=3.0)
    gen.need_close(g.points, [3.0 * i / (n - 1) for i in range(n)], "max_radii", scale=3.0, rtol=1e-13)
    return n


EXTRA = {"none": None, "empty": [], "list": [50.0, 75.0, 100.0], "array": np.array([30.0, 26.5]),
         "inside": [0.01, 3.0, 0.2], "tuple": (60, 40), "single": [33.0], "repeat": [25.0, 25.0],
         "single array": np.array([77.0]), "zero": [0.0], "negative": [-0.5, 30.0], "close": [3.0, 3.0 + 1e-9, 25.0 + 1e-9],
         "set": {60.0, 40.0}, "range": range(30, 60, 10), "iterator": [80.0, 45.0], "long": np.array([30.1, 26.7], dtype=np.longdouble)}


def clenshaw(ch, zs, counts, extras):
    z = ch.choose("Z", zs)
    nc = ch.choose("core", counts)
    nd = ch.choose("diffuse", counts)
    ek = ch.choose("extra", extras)
    inc = ch.flag("include_origin")
    dtype = ch.choose("dtype", [np.longdouble, np.float64, np.float32])
    extra = EXTRA[ek]
    keep = None if extra is None else np.array(list(extra), dtype=float)
    if ek == "iterator":
        extra = iter(list(extra))
    g = ClenshawRadialGrid(z, nc, nd, extra, inc, dtype)
    first = 0 if inc else 1
    # 1 - cos(x) = 2 sin(x/2)^2, evaluated without cancellation
    core = [2 * math.sin(math.pi * p / (4 * nc)) ** 2 / (2.0 * z) for p in range(first, nc + first)]
    diff = [25.0 * 2 * math.sin(math.pi * p / (4 * nd)) ** 2 for p in range(1, nd + 1)]
    want = np.sort(np.array(core + diff + ([] if keep is None else list(keep)), dtype=float))
    got = np.asarray(g.points)
    gen.need(got.shape == (len(want),) and len(g) == len(want),
             f"{got.shape} points, expected {len(want)}")
    gen.need(g.atomic_number == z, "atomic number")
    eps = {np.float32: 2e-7, np.float64: 1e-15, np.longdouble: 1e-15}[dtype]
    gen.need_close(got, want, "Clenshaw points", rtol=3 * tol(dtype), atol=60 * eps)
    gen.need(bool(np.all(np.diff(got) >= 0)), "points are not sorted")
    gen.need(got.dtype == np.dtype(dtype), f"dtype {got.dtype}")
    if keep is not None and ek != "iterator":
        gen.need(np.array_equal(np.asarray(list(extra), dtype=float), keep), "extra points modified")
    if nc and inc:
        gen.need(bool(np.any(got == 0.0)), "origin missing")
    return z, nc, nd, ek, inc


def scenarios(tier):
    if tier == "thorough":
        zs, counts = list(range(1, 121)), [0, 1, 2, 3, 5, 8, 100]
    else:
        zs, counts = [1, 2, 4, 10, 26, 53, 86, 103, 118, 500], [0, 1, 2, 3, 7, 10, 100, 1000]
    return [("uniform", uniform, None), ("defaults", defaults, None),
            ("clenshaw", lambda ch: clenshaw(ch, zs, counts, list(EXTRA)), None)]
