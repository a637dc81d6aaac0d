r"""C17: one fixed-point iteration is the documented self-consistent update."""
import numpy as np

from bfit.fit import KLDivergenceFPI
from mc import fitref, gen

BOUNDS = {
    "quick": "7 grid/model kinds (radial, cubic, 1..3 centres) x 5 basis sizes x 4 densities x 4 start "
             "points x 3 masks x spherical x 5 total charges x 3 parameter selections, 1..2 iterations; 33 to 210 functions",
    "thorough": "as quick with 7 basis sizes, 5 densities, 5 start points, up to 4 iterations",
}
ASSUMPTIONS = ["iterations in which the unmasked model is subnormal (below 1e-290) are not compared",
               "exponents start away from zero"]
SIZES = [(1, 0), (2, 0), (0, 1), (1, 1), (2, 2), (3, 1), (0, 3)]


def step(ch, kinds, sizes, dens, starts, iters):
    kind = ch.choose("grid", kinds)
    ns, np_ = ch.choose("basis", sizes)
    opt = ch.choose("optimize", ["both", "coeffs", "expons"])
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    mask = ch.choose("mask", [0.0, 1e-12, 1e-2])
    tot = ch.choose("integral", [None, 2.0, "double", "half", "nearly"])
    dk = ch.choose("density", dens)
    sk = ch.choose("start", starts)
    norm = True
    p = fitref.Problem(kind, ns, np_, norm, small=kind not in fitref.RADIAL)
    f = p.density(dk)
    n = p.integ(f, sph)
    integral = n if tot is None else {"double": 2 * n, "half": 0.5 * n, "nearly": n * (1.0 - 2e-6)}.get(tot, tot)
    fit = KLDivergenceFPI(p.grid, f, p.model, mask_value=mask, spherical=sph,
                          integral_dens=None if tot is None else integral)
    lam = n / integral
    gen.need_close(fit.lagrange_multiplier, lam, "Lagrange multiplier", rtol=1e-10)
    gen.need_close(fit.integral_dens, integral, "integral of the density", rtol=1e-10)
    c, e = p.params(sk)
    k = ch.choose("iterations", iters)
    subnormal = (lambda g: mask == 0.0 and bool(np.any((g > 0) & (g < 1e-290) & (f > 0))))
    if subnormal(p.value(c, e)):
        return None
    c0, e0 = c.copy(), e.copy()
    res = fit.run(c, e, opt_coeffs=opt != "expons", opt_expons=opt != "coeffs", maxiter=k,
                  c_threshold=-1.0, e_threshold=-1.0, d_threshold=-1.0)
    gen.need(np.array_equal(c, c0) and np.array_equal(e, e0), "initial guess modified")
    for _ in range(k):
        c, e = p.fpi_step(f, c, e, opt != "expons", opt != "coeffs", mask, sph, lam)
        if np.all(np.isfinite(c)) and np.all(np.isfinite(e)) and np.max(e) < 1e12 and subnormal(p.value(c, e)):
            return None
    if np.all(np.isfinite(c)) and np.all(np.isfinite(e)) and np.max(e) < 1e12:
        tol = 1e-9 * 30 ** (k - 1)
        gen.need_close(res["coeffs"], c, f"coefficients after {k} iterations", scale=np.max(np.abs(c)),
                       rtol=tol)
        gen.need_close(res["exps"], e, f"exponents after {k} iterations", rtol=tol)
        perf = p.goodness(f, c, e, mask, sph)
        sc = np.abs(perf) + p.integ(f, sph) + abs(perf[0]) + np.max(np.abs(f)) * 1e-3
        gen.need_close(res["performance"][-1], perf, "performance after the iteration", scale=sc, rtol=1e-7)
    if opt == "coeffs":
        gen.need(np.array_equal(res["exps"], e0), "exponents changed although they are fixed")
    if opt == "expons":
        gen.need(np.array_equal(res["coeffs"], c0), "coefficients changed although they are fixed")
    return kind, ns, np_, opt, sph, dk, sk, float(f"{np.sum(c):.5e}")


def unnormalized(ch):
    """The coefficient formula holds for unnormalized models as well."""
    kind = ch.choose("grid", fitref.GRIDS)
    ns, np_ = ch.choose("basis", SIZES[:5])
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    p = fitref.Problem(kind, ns, np_, False, small=kind not in fitref.RADIAL)
    f = p.density(ch.choose("density", ["slater", "noisy"]))
    c, e = p.params(ch.choose("start", ["generic", "spread"]))
    fit = KLDivergenceFPI(p.grid, f, p.model, spherical=sph)
    res = fit.run(c, e, opt_expons=False, maxiter=1)
    want, _ = p.fpi_step(f, c, e, True, False, 0.0, sph, 1.0)
    gen.need_close(res["coeffs"], want, "coefficients", scale=np.max(want), rtol=1e-9)
    return kind, ns, np_


def radii_of_own_center(ch):
    """Moving one centre changes exactly what the documented formula says for its functions."""
    k = ch.choose("basis", [(1, 0), (1, 1), (2, 1), (0, 2)])
    kind = ch.choose("grid", ["molecule2", "molecule3", "molecule4", "molecule5"])
    p = fitref.Problem(kind, *k)
    f = p.density(ch.choose("density", ["slater", "model", "noisy"]))
    c, e = p.params(ch.choose("start", ["generic", "spread", "equal"]))
    fit = KLDivergenceFPI(p.grid, f, p.model, integral_dens=float(np.sum(c)))
    res = fit.run(c, e, maxiter=1)
    lam = p.integ(f, False) / float(np.sum(c))
    c2, e2 = p.fpi_step(f, c, e, True, True, 0.0, False, lam)
    gen.need_close(res["coeffs"], c2, "coefficients", rtol=1e-9)
    gen.need_close(res["exps"], e2, "exponents", rtol=1e-9)
    return kind, k


def many(ch):
    """Models of many functions."""
    kind = ch.choose("grid", ["radial", "cubic", "molecule2", "molecule5"])
    ns, np_ = ch.choose("basis", fitref.MANY)
    opt = ch.choose("optimize", ["both", "coeffs", "expons"])
    sph = ch.flag("spherical") if kind == "radial" else False
    p = fitref.Problem(kind, ns, np_, True, small=True)
    f = p.density(ch.choose("density", ["slater", "noisy"]))
    c, e = p.params(ch.choose("start", ["dense", "dense-mixed"]))
    fit = KLDivergenceFPI(p.grid, f, p.model, spherical=sph)
    res = fit.run(c, e, opt_coeffs=opt != "expons", opt_expons=opt != "coeffs", maxiter=1)
    c2, e2 = p.fpi_step(f, c, e, opt != "expons", opt != "coeffs", 0.0, sph, 1.0)
    gen.need_close(res["coeffs"], c2, "coefficients", rtol=1e-9)
    gen.need_close(res["exps"], e2, "exponents", rtol=1e-9)
    return kind, ns, np_, opt, sph


def scenarios(tier):
    t = tier == "thorough"
    kinds = fitref.GRIDS + ["molecule1"]
    sizes = SIZES if t else [(1, 0), (0, 1), (2, 1)]
    dens = ["slater", "zeros", "noisy", "flat", "model"] if t else ["slater", "zeros"]
    starts = ["generic", "spread", "equal", "zero-c", "sharp"] if t else ["generic", "zero-c", "sharp"]
    return [("step", lambda ch: step(ch, kinds, sizes, dens, starts, [1, 2, 3, 4] if t else [1, 2]), None),
            ("unnormalized", unnormalized, None), ("many", many, None), ("radii-of-own-center", radii_of_own_center, None)]
