r"""C10: radial integration is the trapezoidal rule on the grid's own points."""
import numpy as np

from bfit.grid import ClenshawRadialGrid, UniformRadialGrid
from mc import gen, refs

BOUNDS = {
    "quick": "every unit vector, every linear and 6 further integrands, a NaN or infinity at every point, on 40 grids (uniform and "
             "Clenshaw-Curtis with extra points, repeated points, 1..300 points), 4 dtypes; wrong shapes",
    "thorough": "all 0/1 integrands on grids of up to 8 points; uniform grids of up to 60 points",
}


def make(ch, sizes):
    kind = ch.choose("grid", ["uniform", "clenshaw", "clenshaw+extra", "repeated", "free"])
    n = ch.choose("n", sizes)
    dt = ch.choose("grid dtype", [np.longdouble, np.float64])
    if kind == "uniform":
        lo, hi = ch.choose("interval", [(0.0, 10.0), (0.5, 0.75), (-1.0, 2.0)])
        return UniformRadialGrid(n, lo, hi, dt)
    if kind == "clenshaw":
        return ClenshawRadialGrid(ch.choose("Z", [1, 26]), n, (n + 1) // 2, include_origin=ch.flag("origin"),
                                  dtype=dt)
    if kind == "free":
        x = {"nearly uniform": np.arange(n) + 3e-6 * gen.generic(n, 0.0, 1.0, 9), "tiny": 1e-10 * np.arange(n) ** 2,
             "wide": 10.0 ** np.linspace(-8, 8, n), "offset": 1e6 + np.arange(n) ** 1.5,
             "one gap": np.arange(n) + (np.arange(n) > n // 2)}[
                 ch.choose("spacing", ["nearly uniform", "tiny", "wide", "offset", "one gap"])]
        return ClenshawRadialGrid(3, 0, 0, extra_pts=x, dtype=dt)
    if kind == "clenshaw+extra":
        return ClenshawRadialGrid(3, n, n, extra_pts=[50.0, 75.0, 100.0], dtype=dt)
    return ClenshawRadialGrid(3, n, n, extra_pts=[25.0, 25.0, 0.0], dtype=dt)


def weights(ch, sizes):
    g = make(ch, sizes)
    x = np.asarray(g.points, dtype=float)
    n = len(x)
    w = np.zeros(n)
    w[:-1] += 0.5 * np.diff(x)
    w[1:] += 0.5 * np.diff(x)
    sc = float(np.max(np.abs(x)))
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1.0
        gen.need_close(g.integrate(e), w[i], f"weight of point {i} of {n}", scale=sc, rtol=1e-13)
    for k, y in enumerate([np.ones(n), x, x ** 2, np.exp(-x), np.sin(3 * x), -np.ones(n),
                           gen.generic(n, -5, 5, 3), np.where(np.arange(n) % 2, 1e12, 1e-12)]):
        keep = y.copy()
        val = g.integrate(y)
        gen.need(np.ndim(val) == 0, "the integral is not a number")
        s = float(np.sum(np.abs(y) * w))
        gen.need_close(val, refs.trapz(y, x), f"integrand {k}", scale=s, rtol=1e-11)
        gen.need(np.array_equal(y, keep), "integrand modified")
        gen.need(float(g.integrate(y)) == float(val), "second integration differs")
    if n > 1:
        gen.need_close(g.integrate(np.ones(n)), x[-1] - x[0], "length", scale=sc, rtol=1e-12)
        gen.need_close(g.integrate(2 * x + 1), (x[-1] ** 2 - x[0] ** 2) + x[-1] - x[0],
                       "linear functions are exact", scale=sc * sc + sc, rtol=1e-12)
    for bad in (np.ones(n + 1), np.ones(max(n - 1, 0)), np.ones((n, 1)), np.ones((1, n)), np.ones((n, 2))):
        if bad.shape == (n,):
            continue
        gen.need(gen.raises(lambda: g.integrate(bad)), f"integrand of shape {bad.shape} accepted")
    for i in range(n):
        near = np.diff(x)[max(i - 1, 0):i + 1]   # an infinity times an empty interval is not a number
        if n > 1 and np.all(near > 0):
            for v in (np.nan, np.inf, -np.inf):
                y = np.ones(n)
                y[i] = v
                got = float(g.integrate(y))
                gen.need(np.isnan(got) if np.isnan(v) else got == v, f"{v} at point {i} of {n} integrates to {got}")
    return n, round(float(g.integrate(np.exp(-x))), 9)


def zero_one(ch, nmax):
    n = ch.choose("n", list(range(1, nmax + 1)))
    g = UniformRadialGrid(n, 0.0, 3.0)
    y = np.array([float(ch.choose(f"y{i}", [0, 1, -2])) for i in range(n)])
    gen.need_close(g.integrate(y), refs.trapz(y, np.asarray(g.points, dtype=float)), "integral",
                   scale=6.0, rtol=1e-13)
    return round(float(g.integrate(y)), 9)


def dtypes(ch):
    n = ch.choose("n", [1, 2, 5])
    gd = ch.choose("grid dtype", [np.longdouble, np.float64, np.float32])
    dt = ch.choose("dtype", ["float64", "longdouble", "float32", "int64"])
    g = UniformRadialGrid(n, 0.0, 4.0, gd)
    y = np.array([1, 0, 3, 1, 2][:n]).astype(dt)
    gen.need_close(g.integrate(y), refs.trapz(y, np.asarray(g.points, dtype=float)), "integral",
                   scale=4.0, rtol=1e-6)
    return n, dt


def scenarios(tier):
    sizes = [1, 2, 3, 4, 5, 8, 33, 150] + ([7, 16, 60, 301] if tier == "thorough" else [])
    return [("weights", lambda ch: weights(ch, sizes), None),
            ("zero-one", lambda ch: zero_one(ch, 9 if tier == "thorough" else 7), None),
            ("dtypes", dtypes, None)]
