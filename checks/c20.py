r"""C20: ScipyFit's objective, gradient and constraint are the documented weighted integrals."""
import math

import numpy as np

from bfit.fit import ScipyFit
from bfit.measure import KLDivergence, Measure, SquaredDifference, TsallisDivergence
from mc import fitref, gen, refs

BOUNDS = {
    "quick": "7 grid/model kinds x 4 basis sizes x 4 measures x 5 weights (zero, negative, uniform) x 2 masks x spherical x 3 totals x 3 "
             "parameter selections x normalized or not x 3 starts; call sequences of length 3; 3 x 4 scales of density and model; 33 to 210 functions",
    "thorough": "7 basis sizes, 5 densities, 5 starts; call sequences of length 4",
}
SIZES = [(1, 0), (0, 2), (2, 1), (1, 2), (0, 1), (3, 0), (3, 2)]
MEAS = {"kl": (lambda m=1e-18: KLDivergence(mask_value=m), lambda f, g, m=1e-18: refs.kl(f, g, m)),
        "default": (lambda m=1e-18: None, lambda f, g, m=1e-18: refs.kl(f, g, m)),
        "square": (lambda m=1e-18: SquaredDifference(), lambda f, g, m=1e-18: refs.squared(f, g)),
        "tsallis": (lambda m=1e-18: TsallisDivergence(alpha=1.5, mask_value=m), lambda f, g, m=1e-18: refs.tsallis(f, g, 1.5, m))}


def weight(kind, n):
    if kind == "none":
        return None
    if kind == "ones":
        return np.ones(n)
    if kind == "generic":
        return gen.generic(n, 0.0, 2.0, 33)
    if kind == "uniform":
        return np.full(n, 2.5)
    if kind == "signed":
        return gen.generic(n, -1.0, 2.0, 33)
    w = np.zeros(n)
    w[n // 2:] = 3.0
    return w


def expected(p, f, c, e, sel, ref, w, sph, total):
    g, dg, scale, dscale = refs.model(p.pts, p.centers, p.basis, c, e, p.normalize)
    vals = [ref(float(a), float(b)) for a, b in zip(f, g)]
    wt = np.ones(len(f)) if w is None else w
    k = np.array([v[0] for v in vals])
    dk = np.array([v[1] for v in vals])
    obj = p.integ(wt * k, sph)
    cols = {"both": range(2 * p.m), "coeffs": range(p.m), "expons": range(p.m, 2 * p.m)}[sel]
    grad = np.array([p.integ(wt * dk * dg[:, i], sph) for i in cols])
    wt = np.abs(wt)
    gs = np.array([p.integ(wt * np.abs(dk) * dscale[:, i], sph) for i in cols])
    con = total - p.integ(g, sph)
    osc = p.integ(wt * (np.abs(k) + f + np.abs(g)), sph)
    return obj, osc, grad, gs, con, p.integ(np.abs(g), sph) + abs(total), g, dg[:, list(cols)]


def xargs(sel, c, e):
    if sel == "both":
        return np.concatenate((c, e)), ()
    return (c, ("fixed_expons", e)) if sel == "coeffs" else (e, ("fixed_coeffs", c))


def formulas(ch, sizes, dens, starts, kinds=(*fitref.GRIDS, "molecule1"), measures=("kl", "square", "tsallis", "default"),
             weights=("none", "generic", "half", "signed", "uniform"), totals=(None, 4.5, "nearly")):
    kind = ch.choose("grid", list(kinds))
    ns, np_ = ch.choose("basis", sizes)
    norm = ch.flag("normalize")
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    mk = ch.choose("measure", list(measures))
    wk = ch.choose("weights", list(weights))
    p = fitref.Problem(kind, ns, np_, norm, small=True)
    f = np.asarray(p.density(ch.choose("density", dens)), dtype=float)
    c, e = p.params(ch.choose("start", starts))
    sel = ch.choose("optimize", ["both", "coeffs", "expons"])
    tot = ch.choose("integral", list(totals))
    tot = p.integ(f, sph) * (1.0 + 1e-6) if tot == "nearly" else tot
    mask = ch.choose("mask", [1e-18, 2e-2])
    w = weight(wk, len(f))
    total = p.integ(f, sph) if tot is None else tot
    fit = ScipyFit(p.grid, f, p.model, measure=MEAS[mk][0](mask), weights=w, integral_dens=tot, spherical=sph,
                   mask_value=mask)
    x, a = xargs(sel, c, e)
    kx, kf, kw = x.copy(), f.copy(), None if w is None else w.copy()
    obj, osc, grad, gs, con, csc, g, dg = expected(p, f, c, e, sel, lambda x, y: MEAS[mk][1](x, y, mask), w, sph, total)
    out = fit.func(x, *a)
    gen.need(isinstance(out, tuple) and len(out) == 2, "objective must return value and gradient")
    gen.need_close(out[0], obj, "objective", scale=osc, rtol=1e-9)
    gen.need_close(out[1], grad, f"gradient w.r.t. {sel}", scale=gs, rtol=1e-8)
    gen.need_close(fit.const_norm(x, *a), con, "constraint", scale=csc, rtol=1e-9)
    m, dm = fit.evaluate_model(x, *a)
    gen.need_close(m, g, "model", scale=np.max(np.abs(g)), rtol=1e-9)
    gen.need_close(dm, dg, "model derivative", scale=np.max(np.abs(dg), axis=0), rtol=1e-9)
    gen.need_close(fit.integral_dens, total, "integral of the density", rtol=1e-10)
    gen.need(np.array_equal(x, kx) and np.array_equal(f, kf), "arguments modified")
    gen.need(w is None or np.array_equal(w, kw), "weights modified")
    return kind, ns, np_, norm, sph, mk, wk, sel, float(f"{obj:.5e}")


def slopes(ch):
    """The gradient is the slope of the objective the same object reports."""
    kind = ch.choose("grid", fitref.GRIDS)
    ns, np_ = ch.choose("basis", [(1, 0), (1, 1), (2, 2)])
    norm = ch.flag("normalize")
    mk = ch.choose("measure", ["kl", "square", "tsallis"])
    p = fitref.Problem(kind, ns, np_, norm, small=True)
    f = np.asarray(p.density("slater"), dtype=float)
    w = weight(ch.choose("weights", ["none", "generic", "signed"]), len(f))
    fit = ScipyFit(p.grid, f, p.model, measure=MEAS[mk][0](1e-18), weights=w,
                   spherical=kind in fitref.RADIAL and ch.flag("spherical"))
    c, e = p.params("generic")
    sel = ch.choose("optimize", ["both", "coeffs", "expons"])
    x, a = xargs(sel, c, e)
    grad = np.asarray(fit.func(x, *a)[1], dtype=float)
    for i in range(len(x)):
        h = 1e-5 * x[i]
        up, dn = x.copy(), x.copy()
        up[i] += h
        dn[i] -= h
        num = float(fit.func(up, *a)[0] - fit.func(dn, *a)[0]) / (2 * h)
        gen.need_close(grad[i], num, f"slope along parameter {i}",
                       scale=np.max(np.abs(grad)) + abs(num), rtol=1e-5)
    return kind, ns, np_, mk, sel


_HIST = {}


def histories(ch, depth):
    """Interleaved evaluations (and rejected calls) of one object agree with fresh objects."""
    if not _HIST:
        _HIST["p"] = fitref.Problem("molecule2", 1, 1, True, small=True)
        _HIST["f"] = np.asarray(_HIST["p"].density("slater"), dtype=float)
    p, f = _HIST["p"], _HIST["f"].copy()
    fit = ScipyFit(p.grid, f, p.model, measure=SquaredDifference())
    kept = []
    for i in range(depth):
        sel = ch.choose(f"select{i}", ["both", "coeffs", "expons"])
        op = ch.choose(f"op{i}", ["func", "const", "bad"])
        ck, ek = ch.choose(f"coeffs{i}", ["generic", "spread"]), ch.choose(f"expons{i}", ["generic", "spread"])
        c, e = p.params(ck)[0], p.params(ek)[1]
        x, a = xargs(sel, c, e)
        if op == "bad":
            gen.need(gen.raises(lambda: fit.func(x, "fixed", e)), "unknown selection accepted")
            continue
        if (sel, ck, ek) not in _HIST:
            _HIST[sel, ck, ek] = expected(p, f, c, e, sel, refs.squared, None, False, p.integ(f, False))
        obj, osc, grad, gs, con, csc, _, _ = _HIST[sel, ck, ek]
        if op == "func":
            v, d = fit.func(x, *a)
            gen.need_close(v, obj, "objective", scale=osc)
            gen.need_close(d, grad, "gradient", scale=gs, rtol=1e-8)
            kept.append((d, d.copy()))
        else:
            gen.need_close(fit.const_norm(x, *a), con, "constraint", scale=csc)
    for a, b in kept:
        gen.need(np.array_equal(a, b), "a gradient returned earlier changed")
    return sel, op


def scaled(ch):
    """Models far above and far below the density: the divergence is what it is, of either sign."""
    kind = ch.choose("grid", fitref.GRIDS + ["molecule5"])
    mk = ch.choose("measure", ["kl", "square", "tsallis"])
    sel = ch.choose("optimize", ["both", "coeffs", "expons"])
    p = fitref.Problem(kind, 1, 1, True, small=True)
    f = np.asarray(p.density("slater"), dtype=float) * ch.choose("density scale", [1.0, 1e-4, 1e8])
    fit = ScipyFit(p.grid, f, p.model, measure=MEAS[mk][0](0.0))
    c, e = p.params("generic")
    x, a = xargs(sel, c * ch.choose("model scale", [1.0, 1e-6, 1e5, 1e10]), e)
    c, e = {"both": (x[:p.m], x[p.m:]), "coeffs": (x, e), "expons": (a[1] if sel == "expons" else c, x)}[sel]
    obj, osc, grad, gs, con, csc, _, _ = expected(p, f, c, e, sel, lambda u, v: MEAS[mk][1](u, v, 0.0), None, False,
                                                  p.integ(f, False))
    v, d = fit.func(x, *a)
    gen.need_close(v, obj, "objective", scale=osc)
    gen.need_close(d, grad, "gradient", scale=gs, rtol=1e-8)
    gen.need_close(fit.const_norm(x, *a), con, "constraint", scale=csc)
    return kind, mk, sel, float(f"{obj:.5e}")


class Linear(Measure):
    """A user-defined measure: f * g, slope f."""

    def evaluate(self, density, model, deriv=False):
        v = density * model
        return (v, density * 1.0) if deriv else v


def custom(ch):
    """Any subclass of the measure class is used as it is."""
    kind = ch.choose("grid", fitref.GRIDS)
    sel = ch.choose("optimize", ["both", "coeffs", "expons"])
    p = fitref.Problem(kind, 2, 1, True, small=True)
    f = np.asarray(p.density("noisy"), dtype=float)
    sph = kind in fitref.RADIAL
    fit = ScipyFit(p.grid, f, p.model, measure=Linear(), spherical=sph)
    c, e = p.params("generic")
    x, a = xargs(sel, c, e)
    obj, osc, grad, gs, _, _, _, _ = expected(p, f, c, e, sel, lambda u, v: (u * v, u), None, sph, 1.0)
    v, d = fit.func(x, *a)
    gen.need_close(v, obj, "objective", scale=osc)
    gen.need_close(d, grad, "gradient", scale=gs, rtol=1e-8)
    gen.need(isinstance(fit.measure, Linear) and math.isfinite(float(v)), "measure")
    return kind, sel


def dtypes(ch):
    """Element types a caller may hand in."""
    kind = ch.choose("grid", ["radial", "cubic", "molecule2"])
    fd = ch.choose("density dtype", ["float64", "longdouble", "float32", "int64"])
    wd = ch.choose("weights dtype", [None, "float64", "longdouble", "float32", "int64", "bool"])
    xd = ch.choose("parameters dtype", ["float64", "longdouble", "int64"])
    mk = ch.choose("measure", ["kl", "square", "tsallis"])
    sel = ch.choose("optimize", ["both", "coeffs", "expons"])
    p = fitref.Problem(kind, 1, 1, True, small=True, dtype=np.float64)
    n = len(p.pts)
    f = (1.0 + np.arange(n) % 3).astype(fd)
    w = None if wd is None else np.full(n, 2.5 if wd not in ("int64", "bool") else 1.0).astype(wd)
    if w is not None:
        w[::4] = 0
    fit = ScipyFit(p.grid, f, p.model, measure=MEAS[mk][0](1e-18), weights=w)
    c, e = (2.0 + np.arange(p.m) % 2).astype(xd), (1.0 + np.arange(p.m) % 3).astype(xd)
    f, wf = np.asarray(f, dtype=float), None if w is None else np.asarray(w, dtype=float)
    total = p.integ(f, False)
    x, a = xargs(sel, c, e)
    obj, osc, grad, gs, con, csc, _, _ = expected(p, f, c.astype(float), e.astype(float), sel,
                                                  lambda u, v: MEAS[mk][1](u, v, 1e-18), wf, False, total)
    v, d = fit.func(x, *a)
    tol = 1e-5 if "float32" in (fd, wd) else 1e-9
    gen.need_close(v, obj, "objective", scale=osc, rtol=tol)
    gen.need_close(d, grad, "gradient", scale=gs, rtol=10 * tol)
    gen.need_close(fit.const_norm(x, *a), con, "constraint", scale=csc, rtol=tol)
    return kind, fd, wd, mk, sel


def undefined(ch):
    """Parameters that are not numbers have neither an objective nor a satisfied constraint."""
    kind = ch.choose("grid", fitref.GRIDS)
    sel = ch.choose("optimize", ["both", "coeffs", "expons"])
    mk = ch.choose("measure", ["kl", "square", "tsallis"])
    p = fitref.Problem(kind, 2, 1, True, small=True)
    fit = ScipyFit(p.grid, np.asarray(p.density("slater"), dtype=float), p.model, measure=MEAS[mk][0](1e-18))
    c, e = p.params("generic")
    x, a = xargs(sel, c, e)
    x = x.copy()
    x[ch.choose("position", [0, 1, 2])] = np.nan
    with np.errstate(all="ignore"):
        gen.need(np.isnan(fit.const_norm(x, *a)), f"constraint {fit.const_norm(x, *a)} at {x}")
        gen.need(np.isnan(fit.func(x, *a)[0]), f"objective {fit.func(x, *a)[0]} at {x}")
    return kind, sel, mk


def scenarios(tier):
    t = tier == "thorough"
    sizes = SIZES if t else SIZES[:3]
    dens = ["slater", "zeros", "noisy", "flat", "model"] if t else ["slater", "zeros"]
    starts = ["generic", "spread", "equal", "zero-c", "sharp"] if t else ["generic", "sharp"]
    return [("formulas", lambda ch: formulas(ch, sizes, dens, starts), None), ("slopes", slopes, None),
            ("histories", lambda ch: histories(ch, 4 if t else 3), None), ("custom", custom, None),
            ("undefined", undefined, None), ("scaled", scaled, None),
            ("many", lambda ch: formulas(ch, fitref.MANY, ["slater"], ["dense", "dense-mixed"], ["radial", "molecule2", "molecule5"],
                                         ["kl", "square"], ["none", "generic"], [None]), None), ("dtypes", dtypes, None),
            ("signs", lambda ch: formulas(ch, sizes, ["slater"], ["zero", "negative", "signed"], measures=["square"],
                                          weights=["none", "signed"], totals=[None, 4.5]), None)]
