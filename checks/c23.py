r"""C23: goodness-of-fit numbers are the documented five integrals, in the documented order."""
import numpy as np

from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.measure import KLDivergence, SquaredDifference, TsallisDivergence
from mc import fitref, gen

BOUNDS = {
    "quick": "7 grid/model kinds x 5 sizes x 5 densities x 6 parameter patterns (also negative, zero) x 3 masks x "
             "spherical x normalized or not x 4 kinds of fitting object; an error spike at every single grid point; 33 to 210 functions",
    "thorough": "as quick with 7 sizes and larger grids",
}
ASSUMPTIONS = ["the Kullback-Leibler entry is not compared where the model is subnormal (below 1e-290)",
               "for a negative model the Kullback-Leibler entry integrates the documented constant"]
SIZES = [(1, 0), (0, 1), (2, 1), (2, 2), (0, 3), (3, 0), (1, 2)]
PAR = ["generic", "spread", "zero-c", "sharp", "negative", "mixed"]


def params(p, kind):
    if kind == "negative":
        c, e = p.params("generic")
        return -c, e
    if kind == "mixed":
        c, e = p.params("spread")
        c[-1] = -c[-1]
        return c, e
    return p.params(kind)


def fitobj(kind, p, f, mask, sph):
    if kind == "fpi":
        return KLDivergenceFPI(p.grid, f, p.model, mask_value=mask, spherical=sph)
    m = {"scipy-ls": SquaredDifference(), "scipy-tsallis": TsallisDivergence(), "scipy-kl": KLDivergence(mask_value=0.3)}[kind]
    w = gen.generic(len(f), 0.5, 2.0, 3) if kind == "scipy-tsallis" else None
    return ScipyFit(p.grid, f, p.model, measure=m, weights=w, spherical=sph, mask_value=mask)


def definitions(ch, sizes, small):
    kind = ch.choose("grid", fitref.GRIDS + ["molecule1"])
    ns, np_ = ch.choose("basis", sizes)
    norm = ch.flag("normalize")
    obj = ch.choose("object", ["fpi", "scipy-ls", "scipy-tsallis", "scipy-kl"])
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    mask = ch.choose("mask", [0.0, 1e-18, 0.05])
    p = fitref.Problem(kind, ns, np_, norm, small=small)
    f = np.asarray(p.density(ch.choose("density", ["slater", "zeros", "noisy", "flat", "model"])), dtype=float)
    fit = fitobj(obj, p, f, mask, sph)
    res = None
    for pk in PAR:
        c, e = params(p, pk)
        kc, ke, kf = c.copy(), e.copy(), f.copy()
        want = p.goodness(f, c, e, mask, sph)
        got = list(fit.goodness_of_fit(c, e))
        gen.need(len(got) == 5, f"{len(got)} numbers")
        g = p.value(c, e)
        if np.any((np.abs(g) > 0) & (np.abs(g) < 1e-290)):     # subnormal models: log loses its digits
            got[4], want[4] = 0.0, 0.0
        mag = p.integ(np.abs(g), sph) + p.integ(f, sph)
        sc = np.array([mag, mag, np.max(np.abs(g)) + np.max(f), p.integ(g * g, sph) + p.integ(f * f, sph),
                       mag + abs(want[4])])
        gen.need_close(np.array(got, dtype=float), want, f"goodness of fit ({pk})", scale=sc, rtol=1e-9)
        gen.need(got[1] >= abs(got[0] - p.integ(f, sph)) - 1e-9 * mag, "L1 is smaller than the integral error")
        gen.need(np.array_equal(c, kc) and np.array_equal(e, ke) and np.array_equal(f, kf), "arguments modified")
        res = res or float(f"{want[1]:.5e}")
    return kind, ns, np_, norm, obj, sph, mask, res


def exact(ch):
    """A density equal to the model has zero distances, whatever the object minimizes."""
    kind = ch.choose("grid", fitref.GRIDS)
    ns, np_ = ch.choose("basis", SIZES)
    norm = ch.flag("normalize")
    obj = ch.choose("object", ["fpi", "scipy-ls", "scipy-tsallis"])
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    p = fitref.Problem(kind, ns, np_, norm, small=True)
    c, e = p.params("generic")
    f = p.value(c, e)
    got = fitobj(obj, p, f, 0.0, sph).goodness_of_fit(c, e)
    mag = p.integ(f, sph)
    gen.need_close(got[0], mag, "integral", rtol=1e-9)
    gen.need_close(np.array(got[1:], dtype=float), np.zeros(4), "distances of an exact fit", scale=mag + np.max(f),
                   rtol=1e-9)
    return kind, ns, np_, obj


def integration(ch):
    """The objects integrate with the grid's rule, times 4 pi r^2 when spherical."""
    kind = ch.choose("grid", fitref.GRIDS)
    obj = ch.choose("object", ["fpi", "scipy-ls"])
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    p = fitref.Problem(kind, 1, 0, True, small=ch.flag("small"))
    f = np.asarray(p.density("noisy"), dtype=float)
    tot = ch.choose("integral", [None, 3.0, 1e-3, 5])
    if obj == "fpi":
        fit = KLDivergenceFPI(p.grid, f, p.model, integral_dens=tot, spherical=sph)
    else:
        fit = ScipyFit(p.grid, f, p.model, integral_dens=tot, spherical=sph)
    n = p.integ(f, sph)
    gen.need_close(fit.integral_dens, n if tot is None else tot, "integral of the density", rtol=1e-10)
    for i in range(0, len(f), max(1, len(f) // 7)):
        y = np.zeros(len(f))
        y[i] = 1.0
        gen.need_close(fit.integrate(y), p.integ(y, sph), f"weight of point {i}", scale=np.max(p.weights(sph)))
    y = gen.generic(len(f), -2, 2, 9)
    gen.need_close(fit.integrate(y), p.integ(y, sph), "integral", scale=p.integ(np.abs(y), sph), rtol=1e-10)
    gen.need(fit.grid is p.grid and fit.model is p.model and np.array_equal(fit.density, f)
             and bool(fit.spherical) == sph, "attributes")
    return kind, obj, sph, tot


def spikes(ch):
    """The largest error may sit at any point; every other number sees that point with its weight."""
    kind = ch.choose("grid", fitref.GRIDS)
    obj = ch.choose("object", ["fpi", "scipy-ls"])
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    below = ch.flag("model spike")
    p = fitref.Problem(kind, 1, 1, True, small=True)
    c, e = p.params("generic")
    g = p.value(c, e)
    for i in range(len(g)):
        f = g.copy()
        if below:
            f[i] = 0.0
        else:
            f[i] += 1.5 + np.max(g)
        want = p.goodness(f, c, e, 0.0, sph)
        got = np.array(fitobj(obj, p, f, 0.0, sph).goodness_of_fit(c, e), dtype=float)
        mag = p.integ(g, sph) + p.integ(f, sph)
        gen.need_close(got, want, f"goodness of fit with a spike at point {i}",
                       scale=np.array([mag, mag, np.max(g) + np.max(f), p.integ(g * g, sph) + p.integ(f * f, sph),
                                       mag + abs(want[4])]), rtol=1e-9)
    return kind, obj, sph, below


def long(ch):
    """Long grids: the largest error counts wherever it sits."""
    n = ch.choose("points", [101, 1000, 5001])
    obj = ch.choose("object", ["fpi", "scipy-ls", "scipy-kl"])
    sph = ch.flag("spherical")
    p = fitref.Problem("radial", 2, 1, True, size=n)
    c, e = p.params("generic")
    f = p.value(c, e)
    i = ch.choose("spike", [0, 1, n // 2, n - 2, n - 1])
    f[i] += 3.0
    want = p.goodness(f, c, e, 0.0, sph)
    got = np.array(fitobj(obj, p, f, 0.0, sph).goodness_of_fit(c, e), dtype=float)
    mag = p.integ(f, sph)
    gen.need_close(got, want, f"goodness of fit with a spike at point {i} of {n}",
                   scale=np.array([mag, mag, 3.0 + np.max(f), p.integ(f * f, sph), mag + abs(want[4])]), rtol=1e-9)
    return n, obj, sph, i


def undefined(ch):
    """Parameters that are not numbers give a fit that is not a number, nothing else."""
    kind = ch.choose("grid", fitref.GRIDS)
    obj = ch.choose("object", ["fpi", "scipy-ls", "scipy-tsallis", "scipy-kl"])
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    p = fitref.Problem(kind, 1, 1, ch.flag("normalize"), small=True)
    fit = fitobj(obj, p, np.asarray(p.density("slater"), dtype=float), 1e-18, sph)
    c, e = p.params("generic")
    (c if ch.flag("coefficient") else e)[ch.choose("function", [0, 1])] = np.nan
    got = np.array(fit.goodness_of_fit(c, e), dtype=float)
    gen.need(bool(np.all(np.isnan(got))), f"goodness of fit {got} of parameters that are not numbers")
    return kind, obj, sph


def many(ch):
    """Models of many functions."""
    kind = ch.choose("grid", ["radial", "cubic", "molecule2", "molecule5"])
    ns, np_ = ch.choose("basis", fitref.MANY)
    norm = ch.flag("normalize")
    sph = ch.flag("spherical") if kind == "radial" else False
    p = fitref.Problem(kind, ns, np_, norm, small=True)
    f = np.asarray(p.density("slater"), dtype=float)
    fit = fitobj(ch.choose("object", ["fpi", "scipy-ls"]), p, f, 1e-18, sph)
    c, e = p.params(ch.choose("parameters", ["dense", "dense-mixed"]))
    want = p.goodness(f, c, e, 1e-18, sph)
    sc = want[0] + p.integ(f, sph)
    g = p.value(c, e)
    gen.need_close(np.array(fit.goodness_of_fit(c, e), dtype=float), want, "goodness of fit",
                   scale=np.array([sc, sc, np.max(g) + np.max(f), p.integ(g * g + f * f, sph), sc + abs(want[4])]), rtol=1e-9)
    return kind, ns, np_, norm, sph


def scenarios(tier):
    t = tier == "thorough"
    return [("definitions", lambda ch: definitions(ch, SIZES if t else SIZES[:4], not t), None),
            ("exact", exact, None), ("undefined", undefined, None), ("long", long, None), ("many", many, None), ("spikes", spikes, None), ("integration", integration, None)]
