r"""C22: with the real optimizers a successful fit is feasible, positive and no worse than its start."""
import warnings

import numpy as np

from bfit.fit import ScipyFit
from bfit.grid import UniformRadialGrid
from bfit.measure import KLDivergence, SquaredDifference
from bfit.model import AtomicGaussianDensity
from checks import c20
from mc import fitref, gen, refs

BOUNDS = {
    "quick": "SLSQP: 6 grid/model kinds x 4 sizes x 3 measures x 3 starts x 3 selections x constraint x "
             "spherical x 2 totals; trust-constr: 2 kinds, 200 iterations; recovery of 24 exact models; supplied totals, "
             "weights and zero starts; densities whose unbounded fit is negative",
    "thorough": "7 sizes, 4 starts, trust-constr 400 iterations on 6 kinds",
}
ASSUMPTIONS = ["descent is required when the start satisfies the constraint that is imposed"]


def run(fit, c, e, sel, **kw):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return fit.run(c, e, opt_coeffs=sel != "expons", opt_expons=sel != "coeffs", **kw)


def check(p, f, r, c, e, sel, con, total, mk, sph, method, w=None):
    rc, re_ = np.asarray(r["coeffs"], dtype=float), np.asarray(r["exps"], dtype=float)
    gen.need(rc.shape == c.shape and re_.shape == e.shape, "shape of the answer")
    if sel == "coeffs":
        gen.need(np.array_equal(re_, e), "fixed exponents changed")
    if sel == "expons":
        gen.need(np.array_equal(rc, c), "fixed coefficients changed")
    obj, osc, grad, gs, cons, csc, _, _ = c20.expected(p, f, rc, re_, sel, c20.MEAS[mk][1], w, sph, total)
    gen.need_close(r["fun"], obj, "reported objective", scale=osc, rtol=1e-7)
    good = p.goodness(f, rc, re_, 1e-18, sph)
    gen.need_close(r["performance"], good, "reported performance",
                   scale=np.abs(good) + p.integ(f, sph) + abs(good[0]), rtol=1e-7)
    if not r["success"]:
        return "failed"
    gen.need(np.all(np.isfinite(rc)) and np.all(np.isfinite(re_)), "success with non-finite parameters")
    low = -1e-10 if method == "slsqp" else -1e-6
    gen.need(bool(np.all(rc >= low)) and bool(np.all(re_ >= low)), f"negative parameters {rc} {re_}")
    if con:
        gen.need(abs(cons) <= 1e-5 * (abs(total) + 1), f"constraint violated by {cons} of {total}")
    return "ok"


def optimizer(ch, method, kinds, sizes, starts, maxiter, meas):
    kind = ch.choose("grid", kinds)
    ns, np_ = ch.choose("basis", sizes)
    mk = ch.choose("measure", meas)
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    sel = ch.choose("optimize", ["both", "coeffs", "expons"])
    con = ch.flag("constraint")
    norm = ch.flag("normalize")
    p = fitref.Problem(kind, ns, np_, norm, small=True)
    f = np.asarray(p.density(ch.choose("density", ["slater", "noisy"])), dtype=float)
    c, e = p.params(ch.choose("start", starts))
    n0 = p.integ(p.value(c, e), sph)
    n = p.integ(f, sph)
    c = c * n / n0                                  # a feasible start
    fit = ScipyFit(p.grid, f, p.model, measure=c20.MEAS[mk][0](), method=method, spherical=sph)
    kc, ke = c.copy(), e.copy()
    before = c20.expected(p, f, c, e, sel, c20.MEAS[mk][1], None, sph, n)
    r = run(fit, c, e, sel, maxiter=maxiter, tol=1e-10, with_constraint=con)
    gen.need(np.array_equal(c, kc) and np.array_equal(e, ke), "initial guess modified")
    out = check(p, f, r, kc, ke, sel, con, n, mk, sph, method)
    # KL of an infeasible model is unbounded below: compare only where the problem is well posed
    if out == "ok" and method == "slsqp" and (con or mk == "square"):
        gen.need(float(r["fun"]) <= before[0] + 1e-6 * (before[1] + 1e-3),
                 f"objective {r['fun']} is worse than {before[0]} at the feasible start")
    return kind, ns, np_, mk, sel, con, out, float(f"{float(r['fun']):.3e}")


def options(ch, kinds, maxiter):
    """Settings of the problem: supplied total, weights, a start with a zero coefficient, number type of the start."""
    kind = ch.choose("grid", kinds)
    sel = ch.choose("optimize", ["both", "coeffs", "expons"])
    mk = ch.choose("measure", ["square", "kl"])
    con = ch.flag("constraint")
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    tot = ch.choose("integral", [None, 0.7])
    wk = ch.choose("weights", ["none", "half"])
    start = ch.choose("start", ["zero-c", "generic"])
    p = fitref.Problem(kind, 2, 1, True, small=True)
    f = np.asarray(p.density("noisy"), dtype=float)
    c, e = p.params(start)
    n = p.integ(f, sph) * (1.0 if tot is None else tot)
    c = c * n / p.integ(p.value(c, e), sph)
    w = c20.weight(wk, len(f))
    fit = ScipyFit(p.grid, f, p.model, measure=c20.MEAS[mk][0](), weights=w, spherical=sph,
                   integral_dens=None if tot is None else n)
    kc, ke, kf = c.copy(), e.copy(), f.copy()
    before = c20.expected(p, f, c, e, sel, c20.MEAS[mk][1], w, sph, n)
    c.setflags(write=ch.flag("writeable"))
    r = run(fit, c, e, sel, maxiter=maxiter, tol=1e-10, with_constraint=con)
    gen.need(np.array_equal(c, kc) and np.array_equal(e, ke) and np.array_equal(f, kf), "caller's arrays modified")
    out = check(p, f, r, kc, ke, sel, con, n, mk, sph, "slsqp", w)
    if out == "ok" and (con or mk == "square"):
        gen.need(float(r["fun"]) <= before[0] + 1e-6 * (before[1] + 1e-3),
                 f"objective {r['fun']} is worse than {before[0]} at the feasible start")
    return kind, sel, mk, con, sph, tot, wk, start, out, float(f"{float(r['fun']):.3e}")


def signs(ch, kinds):
    """Densities whose unbounded best fit has negative coefficients: the bound must hold and the answer be optimal."""
    kind = ch.choose("grid", kinds)
    ns, np_ = ch.choose("basis", [(3, 0), (2, 1), (4, 0)])
    con = ch.flag("constraint")
    norm = ch.flag("normalize")
    flip = ch.choose("negative", [0, 1])
    sel = ch.choose("optimize", ["coeffs", "both"])
    p = fitref.Problem(kind, ns, np_, norm, small=True)
    e = 0.25 * 2.2 ** np.arange(p.m)
    b = p.basis_functions(e)
    size = np.array([p.integ(b[:, k], False) for k in range(p.m)])
    want = np.ones(p.m) / size
    want[flip] *= -0.6
    f = np.clip(b @ want, 0.0, None)                # a shell or a truncated difference of Gaussians
    c = np.ones(p.m) / size
    n = p.integ(f, False)
    c *= ch.choose("scale", [1.0, 1e3, 1e-3]) * n / p.integ(p.value(c, e), False)
    fit = ScipyFit(p.grid, f, p.model, measure=SquaredDifference())
    r = run(fit, c.copy(), e.copy(), sel, maxiter=300, tol=1e-14, with_constraint=con)
    gen.need(bool(np.all(np.asarray(r["coeffs"]) >= -1e-10)), f"negative coefficients {r['coeffs']}")
    gen.need(bool(np.all(np.asarray(r["exps"]) >= -1e-10)), f"negative exponents {r['exps']}")
    if r["success"] and con:
        gen.need(abs(p.integ(p.value(r["coeffs"], r["exps"]), False) - n) <= 1e-5 * (n + 1), "constraint violated")
    return kind, ns, np_, con, norm, flip, sel, bool(r["success"])


def default_measure(ch):
    """Leaving the measure out means Kullback-Leibler."""
    kind = ch.choose("grid", fitref.GRIDS)
    method = ch.choose("method", ["slsqp", "trust-constr"])
    mask = ch.choose("mask", [None, 1e-9, 1e-3])
    p = fitref.Problem(kind, 1, 1, True, small=True)
    f = np.asarray(p.density("slater"), dtype=float)
    c, e = p.params("generic")
    kw = {} if mask is None else {"mask_value": mask}
    a = ScipyFit(p.grid, f, p.model, method=method, **kw)
    b = ScipyFit(p.grid, f, p.model, measure=KLDivergence(mask_value=1e-18 if mask is None else mask), method=method, **kw)
    n = 3 if method == "trust-constr" else 30
    ra, rb = run(a, c, e, "both", maxiter=n), run(b, c, e, "both", maxiter=n)
    gen.need(isinstance(a.measure, KLDivergence), f"default measure {a.measure!r}")
    gen.need(np.array_equal(ra["coeffs"], rb["coeffs"]) and np.array_equal(ra["exps"], rb["exps"])
             and ra["fun"] == rb["fun"], "default measure differs from Kullback-Leibler")
    return kind, method, mask


def recover(ch):
    """A density that is a Gaussian model is recovered from a nearby start."""
    ns, np_ = ch.choose("basis", [(1, 0), (0, 1), (1, 1), (2, 0)])
    norm = ch.flag("normalize")
    mk = ch.choose("measure", ["kl", "square"])
    sph = ch.flag("spherical")
    m = ns + np_
    g = UniformRadialGrid(400, 0.0, 12.0, np.float64)
    c, e = gen.generic(m, 1.0, 3.0, 5), 0.5 * 4.0 ** np.arange(m)
    f = refs.model(g.points, [np.zeros(1)], [(ns, np_)], c, e, norm)[0]
    mdl = AtomicGaussianDensity(g.points, None, ns, np_, norm)
    meas = KLDivergence(mask_value=1e-18) if mk == "kl" else SquaredDifference()
    fit = ScipyFit(g, f, mdl, measure=meas, spherical=sph)
    up = ch.choose("start", [1.2, 0.85])
    r = run(fit, c * up, e / up, "both", maxiter=500, tol=1e-14)
    dens = float(g.integrate(f * (4 * np.pi * g.points ** 2 if sph else 1.0)))
    gen.need(r["performance"][1] <= 2e-3 * dens, f"L1 error {r['performance'][1]} of {dens}")
    return ns, np_, norm, mk, sph


def scenarios(tier):
    t = tier == "thorough"
    sizes = [(1, 0), (0, 1), (2, 1), (1, 2), (3, 0), (2, 2), (3, 2)] if t else [(1, 0), (2, 1)]
    starts = ["generic", "spread", "equal", "sharp"] if t else ["generic", "spread"]
    kinds = fitref.GRIDS if t else ["radial", "cubic-center", "molecule2"]
    return [("slsqp", lambda ch: optimizer(ch, "slsqp", kinds, sizes, starts, 200 if t else 60,
                                           ["kl", "square", "default"] if t else ["kl", "square"]), None),
            ("trust-constr", lambda ch: optimizer(ch, "trust-constr", kinds if t else ["radial", "molecule2"],
                                                  sizes[:2] if t else [(1, 1)], starts[:1], 400 if t else 200,
                                                  ["kl", "square"]), None),
            ("options", lambda ch: options(ch, kinds, 200 if t else 60), None),
            ("signs", lambda ch: signs(ch, kinds if t else ["radial", "cubic-center"]), None),
            ("default-measure", default_measure, None), ("recover", recover, None)]
