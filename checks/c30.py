r"""C30: published fits, wavefunction files and fitting code agree with each other, element by element."""
import json
import os

import numpy as np

from checks import c13  # first: it makes a scratch copy of the package
from mc import slaterref

import bfit
from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.grid import ClenshawRadialGrid
from bfit.measure import KLDivergence
from bfit.model import AtomicGaussianDensity
from bfit.parse_ugbs import get_ugbs_exponents
from mc import gen, refs

DATA = os.path.join(os.path.dirname(os.path.abspath(bfit.__file__)), "data")
BOUNDS = {
    "quick": "54 elements x {KL-FPI, KL-SLSQP}: file contents; model, Slater density, 3 performance measures and the "
             "stationarity of the fit on a 700-point grid, one full update against its formula; 25 iterations of the documented workflow for 18 elements",
    "thorough": "1500-point grid, both grid dtypes; 200 iterations of the workflow for 54 elements",
}
ASSUMPTIONS = ["the published models were fitted to the shipped neutral wavefunctions (README)"]
METHODS = ["fpi", "slsqp"]
JSON = {}
for _m in METHODS:
    with open(os.path.join(DATA, f"kl_{_m}_results.json"), encoding="utf8") as _f:
        JSON[_m] = json.load(_f)
NPZ = {m: dict(np.load(os.path.join(DATA, f"kl_{m}_results.npz"))) for m in METHODS}
ELEMENTS = [e for e, z in sorted(slaterref.NUMBER.items(), key=lambda t: t[1]) if z <= 54]


def contents(ch):
    m = ch.choose("method", METHODS)
    gen.need(sorted(JSON[m]) == sorted(ELEMENTS), f"elements of {m}: {sorted(JSON[m])}")
    gen.need(sorted(NPZ[m]) == sorted(f"{e}_{k}" for e in ELEMENTS for k in ("coeffs", "exps", "num_s", "num_p")),
             f"keys of {m}")
    el = ch.choose("element", ELEMENTS)
    r = JSON[m][el]
    c, e = np.array(r["coeffs"]), np.array(r["exps"])
    for k in ("coeffs", "exps", "num_s", "num_p"):
        gen.need(np.array_equal(NPZ[m][f"{el}_{k}"], np.array(r[k])), f"{m} {el}: {k} differs between json and npz")
    n = r["num_s"] + r["num_p"]
    gen.need(c.shape == e.shape == (n,), f"{m} {el}: {n} functions, {c.shape} coefficients, {e.shape} exponents")
    gen.need(bool(np.all(c > 0)) and bool(np.all(e > 0)), f"{m} {el}: parameters that are not positive")
    z = slaterref.NUMBER[el]
    gen.need(abs(np.sum(c) - z) <= (1e-8 if m == "fpi" else 1e-3), f"{m} {el}: coefficients sum to {np.sum(c)}")
    return m, el, n


_G = {}


def grid(el, n, dtype):
    key = (el, n, dtype)
    if key not in _G:
        _G.clear()
        z = slaterref.NUMBER[el]
        g = ClenshawRadialGrid(z, 4 * n // 7, 3 * n // 7, dtype=dtype)
        _G[key] = g, np.ravel(c13.SlaterAtoms(el).atomic_density(g.points, "total"))
    return _G[key]


def update(g, d, c, e, ns, np_, integral):
    """The documented update of all parameters, written out for one centre, in double precision."""
    r = np.asarray(g.points, dtype=float)
    w = np.zeros(len(r))
    w[:-1] += 0.5 * np.diff(r)
    w[1:] += 0.5 * np.diff(r)
    w = w * 4.0 * np.pi * r ** 2
    d = np.asarray(d, dtype=float)
    b = np.exp(-np.outer(e, r ** 2)) * (e / np.pi)[:, None] ** 1.5
    b[ns:] *= 2.0 / 3.0 * e[ns:, None] * r ** 2
    v = c @ b
    ratio = np.where(v > 1e-18, d / np.where(v > 1e-18, v, 1.0), 1.0)
    a1, a2 = b @ (w * ratio), b @ (w * ratio * r ** 2)
    ok = a2 > 1e-290            # functions sharper than the grid have no overlap with anything
    return (c * a1 / (w @ d / integral),
            np.array([1.5] * ns + [2.5] * np_) * a1 / np.where(ok, a2, np.nan), ok)


def one_step(fit, g, d, c, e, ns, np_, z, what):
    """One full step from the given parameters is the documented update."""
    one = fit.run(c.copy(), e.copy(), maxiter=1, c_threshold=0.0, d_threshold=0.0, e_threshold=0.0)
    c1, e1, ok = update(g, d, c, e, ns, np_, z)
    gen.need_close(one["coeffs"], c1, f"{what}: coefficients after one step", scale=np.abs(c1) + 1e-12 * z, rtol=1e-8)
    gen.need_close(np.asarray(one["exps"])[ok], e1[ok], f"{what}: exponents after one step", rtol=1e-8)
    return np.asarray(one["coeffs"], dtype=float), np.asarray(one["exps"], dtype=float)


def fits(ch, n, dtypes):
    """The published model is a good, normalized and stationary fit of the Slater density."""
    el = ch.choose("element", ELEMENTS)
    dt = ch.choose("dtype", dtypes)
    m = ch.choose("method", METHODS)
    z = slaterref.NUMBER[el]
    g, d = grid(el, n, dt)
    r = JSON[m][el]
    c, e, ns, np_ = np.array(r["coeffs"]), np.array(r["exps"]), r["num_s"], r["num_p"]
    mdl = AtomicGaussianDensity(g.points, num_s=ns, num_p=np_, normalize=True)
    got = mdl.evaluate(c, e)
    pts = np.asarray(g.points, dtype=float)
    want = refs.model(pts, [np.zeros(1)], [(ns, np_)], c, e, True)[0]
    gen.need_close(np.asarray(got, dtype=float), want, f"{m} {el}: model", scale=np.abs(want) + 1e-30, rtol=1e-9)
    fit = KLDivergenceFPI(g, d, mdl, mask_value=1e-18, spherical=True, integral_dens=z)
    p = np.asarray(fit.goodness_of_fit(c, e), dtype=float)
    gen.need(abs(p[0] - z) <= 1e-4 * z, f"{m} {el}: integral of the model {p[0]}")
    gen.need(p[1] <= 1.2e-2 * z, f"{m} {el}: L1 error {p[1]}")
    gen.need(abs(p[4]) <= 1.5e-3, f"{m} {el}: KL {p[4]}")
    gen.need(p[2] <= 0.15 * np.max(d), f"{m} {el}: largest error {p[2]} of {np.max(d)}")
    one = fit.run(c, e, opt_expons=False, maxiter=1, c_threshold=0.0, d_threshold=0.0)
    gen.need(np.max(np.abs(one["coeffs"] - c)) <= 2e-4 * z and np.array_equal(one["exps"], e),
             f"{m} {el}: one fixed-point step changes the coefficients by {np.max(np.abs(one['coeffs'] - c))}")
    gen.need(abs(float(one["performance"][-1][4]) - p[4]) <= 4e-4, f"{m} {el}: KL after one step "
             f"{one['performance'][-1][4]}, before {p[4]}")
    c1, e1 = one_step(fit, g, d, c, e, ns, np_, z, f"{m} {el}")
    if m == "fpi":
        gen.need(np.max(np.abs(c1 - c)) <= 1e-4 * z and np.max(np.abs(e1 / e - 1.0) * c) <= 6e-5 * z
                 and np.max(np.abs(e1 / e - 1.0)) <= 0.03, f"{el}: not stationary, {np.max(np.abs(c1 - c))} "
                 f"{np.max(np.abs(e1 / e - 1.0))}")
    if m == "slsqp":
        s = ScipyFit(g, d, mdl, measure=KLDivergence(mask_value=1e-18), integral_dens=z, spherical=True)
        gen.need(abs(float(s.const_norm(np.concatenate((c, e))))) <= 1e-4 * z, f"{el}: constraint")
        q = np.asarray(s.goodness_of_fit(c, e), dtype=float)
        gen.need_close(q[:4], p[:4], f"{el}: measures of the two fitting classes", rtol=1e-9, scale=z)
    return el, m, float(f"{p[1]:.3e}")


def workflow(ch, elements, n, iters):
    """The documented workflow: UGBS exponents, equal coefficients, KL-FPI on the Slater density."""
    el = ch.choose("element", elements)
    spher = True
    z = slaterref.NUMBER[el]
    g, d = grid(el, n, np.float64)
    u = get_ugbs_exponents(el)
    e0 = np.array(u["S"] + u["P"]) * 2.0
    m = len(e0)
    c0 = np.full(m, z / m)
    mdl = AtomicGaussianDensity(g.points, num_s=len(u["S"]), num_p=len(u["P"]), normalize=True)
    fit = KLDivergenceFPI(g, d, mdl, mask_value=1e-18, spherical=spher, integral_dens=z)
    one_step(fit, g, d, c0, e0, len(u["S"]), len(u["P"]), z, el)
    r = fit.run(c0.copy(), e0.copy(), maxiter=iters, c_threshold=1e-6, e_threshold=1e-6, d_threshold=1e-14)
    c, e = np.asarray(r["coeffs"]), np.asarray(r["exps"])
    gen.need(bool(np.all(c >= 0)) and bool(np.all(e > 0)), f"{el}: parameters {c} {e}")
    gen.need(abs(np.sum(c) - z) <= 1e-3 * z, f"{el}: coefficients sum to {np.sum(c)}")
    kl = np.asarray(r["performance"], dtype=float)[:, 4]
    gen.need(bool(np.all(np.diff(kl) <= 1e-4 * z)), f"{el}: KL rises {kl}")
    start = np.asarray(fit.goodness_of_fit(c0, e0), dtype=float)
    gen.need(kl[-1] < 0.1 * start[4], f"{el}: KL {start[4]} -> {kl[-1]}")
    best = np.asarray(fit.goodness_of_fit(np.array(JSON["slsqp"][el]["coeffs"]), np.array(JSON["slsqp"][el]["exps"])))[4] \
        if (len(u["S"]), len(u["P"])) == (JSON["slsqp"][el]["num_s"], JSON["slsqp"][el]["num_p"]) else -1.0
    gen.need(kl[-1] >= best - 1e-3, f"{el}: KL {kl[-1]} is below the published optimum {best}")
    return el, len(kl), float(f"{kl[-1]:.3e}")


def scenarios(tier):
    t = tier == "thorough"
    return [("contents", contents, None),
            ("fits", lambda ch: fits(ch, 1500 if t else 700, [np.float64, np.longdouble] if t else [np.float64]), None),
            ("workflow", lambda ch: workflow(ch, ELEMENTS if t else ELEMENTS[::3], 1500 if t else 700,
                                             200 if t else 25), None)]
