r"""Reference models: deliberately boring re-statements of the documented formulas.

Nothing here imports bfit.  Scalars are Python floats, sums are math.fsum.
"""
import math

import numpy as np

PI = math.pi


# ---------------------------------------------------------------- Gaussian models
def dist2(points, center):
    """Squared distances of points (N,) or (N, D) from center (D,)."""
    pts = np.asarray(points, dtype=float)
    if pts.ndim == 1:
        pts = pts[:, None]
    c = np.asarray(center, dtype=float).reshape(-1)
    return [math.fsum((float(p[k]) - float(c[k if c.size > 1 else 0])) ** 2
                      for k in range(pts.shape[1])) for p in pts]


def _exp(x):
    return math.exp(x) if x > -745.0 else 0.0


def basis_value(kind, r2, a, normalize):
    """One basis function: kind 's' exp(-a r^2), kind 'p' r^2 exp(-a r^2), maybe normalized."""
    v = _exp(-a * r2)
    if kind == "p":
        v *= r2
    if normalize:
        if kind == "s":
            v *= (a / PI) ** 1.5
        else:
            v *= 2.0 * a ** 2.5 / (3.0 * PI ** 1.5)
    return v


def basis_dexp(kind, r2, a, normalize):
    """d basis_value / d a."""
    e = _exp(-a * r2)
    if kind == "s":
        if normalize:
            return e * (1.5 * a ** 0.5 / PI ** 1.5 - r2 * (a / PI) ** 1.5)
        return -r2 * e
    if normalize:
        return r2 * e * (2.0 / (3.0 * PI ** 1.5)) * (2.5 * a ** 1.5 - r2 * a ** 2.5)
    return -r2 * r2 * e


def layout(basis):
    """Flattened order of basis functions: s then p of centre 0, s then p of centre 1, ..."""
    out = []
    for j, (ns, np_) in enumerate(basis):
        out += [(j, "s")] * int(ns) + [(j, "p")] * int(np_)
    return out


def model(points, centers, basis, coeffs, expons, normalize):
    """Value (N,), gradient (N, 2M) and the magnitude scales used for tolerances."""
    r2s = [dist2(points, c) for c in centers]
    lay = layout(basis)
    n, m = len(points), len(lay)
    g, scale = np.zeros(n), np.zeros(n)
    dg, dscale = np.zeros((n, 2 * m)), np.zeros((n, 2 * m))
    for i in range(n):
        terms = []
        for k, (j, kind) in enumerate(lay):
            r2, a, c = r2s[j][i], float(expons[k]), float(coeffs[k])
            b = basis_value(kind, r2, a, normalize)
            d = basis_dexp(kind, r2, a, normalize)
            terms.append(c * b)
            dg[i, k], dscale[i, k] = b, abs(b)
            dg[i, m + k] = c * d
            # magnitude of the two summands of the product rule
            q = 1.5 if kind == "s" else 2.5
            dscale[i, m + k] = abs(c) * b * (r2 + (q / a if normalize and a else 0.0))
        g[i] = math.fsum(terms)
        scale[i] = math.fsum(abs(t) for t in terms)
    return g, dg, scale, dscale


def norm_const(kind, a, normalize):
    """Integral over R^3 of one basis function."""
    if normalize:
        return 1.0
    if kind == "s":
        return (PI / a) ** 1.5
    return 1.5 * PI ** 1.5 / a ** 2.5


# ---------------------------------------------------------------- measures
def squared(f, g):
    return (f - g) ** 2, -2.0 * (f - g)


def kl(f, g, mask):
    """Value and derivative of f log(f/g) at one point; g <= mask counts as f/g = 1."""
    if g <= mask:
        return 0.0, -1.0
    r = f / g
    return (f * math.log(r) if f > 0.0 and r > 0.0 else 0.0), -r


def tsallis(f, g, alpha, mask):
    """Value and derivative; g <= mask counts as f/g = 0."""
    r = 0.0 if g <= mask else f / g
    p = r ** (alpha - 1.0) if r > 0.0 else 0.0
    return f * (p - 1.0) / (alpha - 1.0), -(r ** alpha if r > 0.0 else 0.0)


# ---------------------------------------------------------------- quadrature
def trapz(y, x):
    return math.fsum(0.5 * (float(y[i]) + float(y[i + 1])) * (float(x[i + 1]) - float(x[i]))
                     for i in range(len(x) - 1))


def close(a, b, scale=None, rtol=1e-9, atol=0.0):
    """Elementwise |a-b| <= atol + rtol*max(scale,|b|), both finite (or the same infinity)."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    s = np.abs(b) if scale is None else np.maximum(np.abs(b), np.asarray(scale, dtype=float))
    with np.errstate(invalid="ignore"):
        ok = np.abs(a - b) <= atol + rtol * s
    ok |= (a == b)
    return bool(np.all(ok))


def worst(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return f"shapes {a.shape} vs expected {b.shape}"
    with np.errstate(invalid="ignore"):
        d = np.abs(a - b)
    d = np.where(np.isnan(d) & ~(np.isnan(a) & np.isnan(b)), np.inf, d)
    if d.size == 0:
        return "empty"
    i = np.unravel_index(int(np.nanargmax(d)) if not np.all(np.isnan(d)) else 0, d.shape)
    return f"index {tuple(int(k) for k in i)}: got {a[i]!r}, expected {b[i]!r}"
