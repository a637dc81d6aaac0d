r"""C28: complete greedy searches with the real optimizers end in consistent, feasible, improving models."""
import warnings

import numpy as np

import bfit.fit
from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.greedy import GreedyKLFPI, GreedyLeastSquares
from bfit.measure import SquaredDifference
from mc import fitref, gen, refs

BOUNDS = {
    "quick": "least squares: 4 grids x 4 densities x 3 choice functions x normalize x spherical x constraint, up to 3 "
             "functions; Kullback-Leibler: 3 grids x 4 densities x 3 choice functions x spherical x total, up to 3 "
             "functions; exact one-Gaussian densities; two runs of one object against fresh objects; "
             "every pair of local and global limits on both optimization routines; coefficient tables up to 4 x 3; densities that rise over "
             "most of the grid; the other method; every optimization of a search posed with its method, limits and constraint",
    "thorough": "up to 5 (least squares) and 4 (Kullback-Leibler) functions, 2 factors, 3 seeds of the random guesses, "
                "full iteration limits, three runs of one object",
}
ASSUMPTIONS = ["the density is non-negative, decays and is not identically zero",
               "feasibility of the constrained search is required from the second iteration on (the one-function "
               "least-squares solution is analytic and unconstrained)"]
CHOICES = ["pick-one", "pick-two", "pick-two-lose-one"]


class Prob(fitref.Problem):
    """A problem whose basis can be changed."""

    def resize(self, ns, np_):
        self.basis = [(ns, np_)]
        self.lay = refs.layout(self.basis)
        self.m = ns + np_
        self.pref = np.array([1.5 if k == "s" else 2.5 for _, k in self.lay])


def dens(p, kind):
    r2 = p.r2[0]
    if kind == "two":
        return 2.5 * np.exp(-1.4 * r2) + 0.3 * np.exp(-0.3 * r2)
    if kind == "s+p":
        return 0.3 * np.exp(-0.5 * r2) + 0.5 * r2 * np.exp(-0.9 * r2)
    return np.asarray(p.density(kind), dtype=float)


def run(g, factor, posed=None, **kw):
    """A search; ``posed`` is (method, constrained, limits, tolerances) every optimization of it must be called with."""
    if posed is not None:
        method, con, its, tols = posed
        real = getattr(bfit.fit, "minimize", None)

        def minimize(*args, **kws):
            opt = kws.get("options") or {}
            cons = kws.get("constraints", ())
            gen.need(str(kws.get("method", method)).lower() == method.lower(), f"method {kws.get('method')}, expected {method}")
            gen.need(bool(cons) == con, f"constraints {cons}, constrained search: {con}")
            gen.need(opt.get("maxiter", its[0]) in its, f"iteration limit {opt.get('maxiter')} is none of {its}")
            for key in ("ftol", "xtol"):
                gen.need(opt.get(key, tols[0]) in tols, f"tolerance {opt.get(key)} is none of {tols}")
            return real(*args, **kws)
        if real is not None:
            bfit.fit.minimize = minimize
            try:
                return run(g, factor, **kw)
            finally:
                bfit.fit.minimize = real
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return g.run(factor, **kw)


def objective(p, f, c, e, what, mask, sph):
    g = p.value(c, e)
    if what == "ls":
        return p.integ((f - g) ** 2, sph), p.integ(f ** 2 + g ** 2, sph)
    return p.kl(f, c, e, mask, sph), p.integ(f, sph) + abs(p.integ(g, sph))


def check(p, f, r, what, inc, maxf, mask, sph, norm, total, con):
    """Everything the result promises; returns the discrete outcome."""
    ns, np_ = r["num_s"], r["num_p"]
    c, e = np.asarray(r["coeffs"], dtype=float), np.asarray(r["exps"], dtype=float)
    gen.need(ns >= 1 and np_ >= 0 and c.shape == e.shape == (ns + np_,), f"{ns} s, {np_} p, {c}, {e}")
    gen.need(ns + np_ <= max(maxf, 1), "more functions than allowed")
    its = [np.asarray(q, dtype=float) for q in r["parameters_iteration"]]
    perf = np.asarray(r["performance"], dtype=float)
    gen.need([len(q) // 2 for q in its] == list(range(1, ns + np_ + 1, inc)),
             f"sizes of the iterations {[len(q) // 2 for q in its]}")
    gen.need(np.array_equal(its[-1], np.concatenate((c, e))), "the last iteration is not the answer")
    gen.need(perf.shape == (len(its), 5), f"shape of performance {perf.shape}")
    gmask = mask if what == "kl" else 1e-18
    last = None
    for k, q in enumerate(its):
        m = len(q) // 2
        gen.need(bool(np.all(np.isfinite(q))), f"iteration {k}: {q}")
        fit = []
        for a in ([(ns, np_)] if k == len(its) - 1 else [(m - b, b) for b in range(m)]):
            p.resize(*a)
            good = p.goodness(f, q[:m], q[m:], gmask, sph)
            scale = np.array([p.integ(f, sph) + abs(good[0])] * 5)
            scale[2] = np.max(f) + np.max(np.abs(p.value(q[:m], q[m:])))
            scale[3] = p.integ(f ** 2, sph) + p.integ(p.value(q[:m], q[m:]) ** 2, sph)
            scale[4] = max(scale[4], abs(good[4]))
            if np.all(np.abs(perf[k] - good) <= 1e-7 * scale):
                fit.append(a)
        gen.need(fit, lambda: f"performance of iteration {k}: {perf[k]}, parameters {q}, no split of {m} functions"
                 f" has these measures (final split: {good})")
        p.resize(*fit[0])
        obj, osc = objective(p, f, q[:m], q[m:], what, mask, sph)
        if last is not None:
            gen.need(obj <= last + 1e-9 * (osc + 1e-3), f"objective rises from {last} to {obj} at iteration {k}")
        last = obj
        if what == "kl":
            gen.need(bool(np.all(q[:m] >= 0)) and bool(np.all(q[m:] > 0)), f"iteration {k}: {q}")
            # points where the model is below the mask value do not take part in the update
            tol = 1e-6 if np.min(p.value(q[:m], q[m:])) > 1e6 * mask else 0.05
            gen.need_close(np.sum(q[:m]), total, f"iteration {k}: sum of coefficients", scale=total, rtol=tol)
        elif k > 0:
            gen.need(bool(np.all(q >= -1e-10)), f"iteration {k}: {q}")
            if con:
                gen.need(abs(p.integ(p.value(q[:m], q[m:]), sph) - total) <= 1e-4 * (total + 1),
                         f"iteration {k}: integral {p.integ(p.value(q[:m], q[m:]), sph)} is not {total}")
    p.resize(ns, np_)
    obj, osc = objective(p, f, c, e, what, mask, sph)
    gen.need_close(r["fun"], obj, "reported objective", scale=osc, rtol=1e-7)
    return ns, np_, bool(r["success"])


def best_log_fit(p, f, norm, sph):
    """Best of the three weighted logarithmic fits, solved by numpy's least squares."""
    ok = f > 0
    best = None
    for w in (np.ones(len(f)), f, f ** 2):
        w = np.sqrt(w[ok])
        a = np.vstack((w, w * p.r2[0][ok])).T
        x = np.linalg.lstsq(a, w * np.log(f[ok]), rcond=None)[0]
        c, e = np.exp(x[0]), -x[1]
        if norm:
            if not e > 0:
                continue  # no normalized Gaussian rises
            c *= (np.pi / e) ** 1.5
        v = objective(p, f, np.array([c]), np.array([e]), "ls", None, sph)[0]
        if best is None or v < best[0]:
            best = (v, c, e)
    return best


def least_squares(ch, kinds, densities, choices, tops, factors, seeds):
    kind = ch.choose("grid", kinds)
    d = ch.choose("density", densities)
    choice = ch.choose("choice", choices)
    norm = ch.flag("normalize")
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    con = ch.flag("constraint")
    maxf = ch.choose("max_numb_funcs", tops)
    factor = ch.choose("factor", factors)
    np.random.seed(ch.choose("seed", seeds))
    p = Prob(kind, 1, 0, norm, small=kind == "cubic")
    f = dens(p, d)
    g = GreedyLeastSquares(p.grid, f.copy(), choice, normalize=norm, spherical=sph, with_constraint=con)
    r = run(g, factor, ("slsqp", con, (1000, 2500), (1e-5, 1e-8)), max_numb_funcs=maxf)
    q = np.asarray(r["parameters_iteration"][0], dtype=float)
    v, c, e = best_log_fit(p, f, norm, sph)
    got = objective(p, f, q[:1], q[1:], "ls", None, sph)[0]
    gen.need(got <= v * (1 + 1e-6) + 1e-12, f"one-function solution {q} costs {got}; {c, e} costs {v}")
    out = check(p, f, r, "ls", 2 if choice == "pick-two" else 1, maxf, None, sph, norm, p.integ(f, sph), con)
    return kind, d, choice, out


def trust(ch, kinds, choices):
    """Searches with the other documented method."""
    kind = ch.choose("grid", kinds)
    d = ch.choose("density", ["two", "s+p"])
    choice = ch.choose("choice", choices)
    norm = ch.flag("normalize")
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    con = ch.flag("constraint")
    method = ch.choose("method", ["trust-constr", "Trust-Constr"])
    np.random.seed(0)
    p = Prob(kind, 1, 0, norm, small=kind == "cubic")
    f = dens(p, d)
    g = GreedyLeastSquares(p.grid, f.copy(), choice, normalize=norm, spherical=sph, with_constraint=con, method=method,
                           l_maxiter=15, g_maxiter=60)
    maxf = 3 if choice == "pick-two" else 2
    r = run(g, 2.0, (method, con, (15, 60), (1e-5, 1e-8)), max_numb_funcs=maxf)
    # stopped short by the limits, the constraint is not met to the last digit
    out = check(p, f, r, "ls", 2 if choice == "pick-two" else 1, maxf, None, sph, norm, p.integ(f, sph), False)
    return kind, d, choice, out


def single(ch):
    """The one-function solution for densities of any size."""
    kind = ch.choose("grid", ["radial", "clenshaw", "cubic"])
    what = ch.choose("method", ["ls", "ls normalized", "kl"])
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    p = Prob(kind, 1, 0, what != "ls", small=kind == "cubic")
    f = dens(p, ch.choose("density", ["slater", "two", "s+p", "zeros"])) * ch.choose("scale", [1e-12, 1e-6, 1e-3, 1e3, 1e5, 1e9])
    if what == "kl":
        q = GreedyKLFPI(p.grid, f.copy(), spherical=sph).get_best_one_function_solution()
        n = p.integ(f, sph)
        gen.need_close(q, np.array([n, 1.5 * n / p.integ(f * p.r2[0], sph)]), "one-function solution", scale=np.abs(q), rtol=1e-9)
        return kind, what
    q = GreedyLeastSquares(p.grid, f.copy(), normalize=what != "ls", spherical=sph).get_best_one_function_solution()
    v, c, e = best_log_fit(p, f, what != "ls", sph)
    got = objective(p, f, q[:1], q[1:], "ls", None, sph)[0]
    gen.need(got <= v * (1 + 1e-6), f"one-function solution {q} costs {got}; {c, e} costs {v}")
    return kind, what, float(f"{got:.4e}")


def flat(ch):
    """A constant density: every weighting of the logarithmic fit is equally good."""
    kind = ch.choose("grid", ["radial", "clenshaw", "cubic"])
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    choice = ch.choose("choice", CHOICES)
    p = Prob(kind, 1, 0, False, small=kind == "cubic")
    f = np.full(len(p.r2[0]), ch.choose("height", [1.0, 0.5, 2.0, 3.0]))
    g = GreedyLeastSquares(p.grid, f.copy(), choice, normalize=False, spherical=sph)
    q = g.get_best_one_function_solution()
    got, scale = objective(p, f, q[:1], q[1:], "ls", None, sph)
    gen.need(got <= 1e-12 * scale, f"one-function solution {q} of a constant density costs {got}")
    return kind, choice, sph


def rising(ch, maxfs):
    """A narrow core inside a shell of p functions: the logarithm of the density rises over most of the grid, so that
    some weightings of the logarithmic fit give no normalized Gaussian at all."""
    kind = ch.choose("grid", ["radial", "clenshaw", "cubic"])
    norm = ch.flag("normalize")
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    p = Prob(kind, 1, 0, norm, small=kind == "cubic")
    far = np.max(p.r2[0])
    width = ch.choose("width", [0.002, 0.02, 0.1])
    f = np.exp(-p.r2[0] / (width * far)) + ch.choose("shell", [1e-6, 1e-4, 1e-2]) * p.r2[0] / far * np.exp(-0.3 * p.r2[0] / far)
    f *= ch.choose("scale", [1.0, 1e3])
    g = GreedyLeastSquares(p.grid, f.copy(), normalize=norm, spherical=sph)
    best = best_log_fit(p, f, norm, sph)
    with np.errstate(all="ignore"):
        q = g.get_best_one_function_solution()
    if best is None:
        return kind, norm, "none"
    v, c, e = best
    gen.need(bool(np.all(np.isfinite(q))), f"one-function solution {q}; {c, e} costs {v}")
    got = objective(p, f, q[:1], q[1:], "ls", None, sph)[0]
    gen.need(got <= v * (1 + 1e-6), f"one-function solution {q} costs {got}; {c, e} costs {v}")
    if not maxfs:
        return kind, norm, float(f"{got:.4e}")
    np.random.seed(0)
    maxf = ch.choose("max_numb_funcs", maxfs)
    r = run(g, 2.0, max_numb_funcs=maxf)
    return kind, norm, check(p, f, r, "ls", 1, maxf, None, sph, norm, p.integ(f, sph), False)


def kullback(ch, kinds, densities, choices, tops, factors, seeds, local, glob):
    kind = ch.choose("grid", kinds)
    d = ch.choose("density", densities)
    choice = ch.choose("choice", choices)
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    tot = ch.choose("integral", [None, 3.0])
    mask = ch.choose("mask", [None, 1e-10])
    maxf = ch.choose("max_numb_funcs", tops)
    factor = ch.choose("factor", factors)
    np.random.seed(ch.choose("seed", seeds))
    p = Prob(kind, 1, 0, True, small=kind == "cubic")
    f = dens(p, d)
    kw = {} if mask is None else {"mask_value": mask}
    mask = 1e-12 if mask is None else mask
    g = GreedyKLFPI(p.grid, f.copy(), choice, spherical=sph, integral_dens=tot, l_maxiter=local, g_maxiter=glob, **kw)
    r = run(g, factor, max_numb_funcs=maxf)
    n = p.integ(f, sph)
    q = np.asarray(r["parameters_iteration"][0], dtype=float)
    gen.need_close(q[0], n if tot is None else tot, "one-function coefficient", scale=n, rtol=1e-9)
    gen.need_close(q[1], 1.5 * n / p.integ(f * p.r2[0], sph), "one-function exponent", scale=q[1], rtol=1e-9)
    out = check(p, f, r, "kl", 2 if choice == "pick-two" else 1, maxf, mask, sph, True, n if tot is None else tot, False)
    return kind, d, choice, out


def exact(ch):
    """A density that is one Gaussian is found immediately and not spoilt by the later iterations."""
    kind = ch.choose("grid", ["radial", "clenshaw", "cubic"])
    a = ch.choose("exponent", [0.4, 0.9])
    what = ch.choose("method", ["ls", "ls normalized", "kl"])
    choice = ch.choose("choice", CHOICES)
    sph = ch.flag("spherical") if kind != "cubic" else False
    p = Prob(kind, 1, 0, what != "ls", small=False)
    coef = 1.7
    f = p.value(np.array([coef]), np.array([a]))
    if what == "kl":
        g = GreedyKLFPI(p.grid, f, choice, spherical=sph, l_maxiter=15, g_maxiter=30)
        one = g.get_best_one_function_solution()
        n = p.integ(f, sph)
        gen.need_close(one[0], n, "coefficient", scale=n, rtol=1e-9)
        # only where the grid integrates Gaussians in three dimensions exactly is this the density itself
        if sph or kind == "cubic":
            gen.need(abs(one[1] - a) <= (0.02 if sph else 0.15) * a, f"exponent {one[1]} of a Gaussian with exponent {a}")
    else:
        g = GreedyLeastSquares(p.grid, f, choice, normalize=what != "ls", spherical=sph)
        one = g.get_best_one_function_solution()
        gen.need_close(one, np.array([coef, a]), "one-function solution", scale=2.0, rtol=1e-6)
        r = run(g, 2.0, max_numb_funcs=3)
        gen.need(float(r["fun"]) <= 1e-9 * p.integ(f ** 2, sph), f"objective {r['fun']}")
    return kind, a, what, choice, sph


def nnls_reference(a, b):
    """Non-negative least squares by trying every set of active columns."""
    best = None
    for k in range(2 ** a.shape[1]):
        cols = [j for j in range(a.shape[1]) if k >> j & 1]
        x = np.zeros(a.shape[1])
        if cols:
            x[cols] = np.linalg.lstsq(a[:, cols], b, rcond=None)[0]
        if np.all(x >= 0):
            v = float(np.sum((a @ x - b) ** 2))
            if best is None or v < best[0]:
                best = (v, x)
    return best[1]


def routines(ch):
    """Guesses and the chosen one are optimized with the limits that the caller gave for each."""
    what = ch.choose("method", ["ls", "kl"])
    kind = ch.choose("grid", ["radial", "cubic"])
    sph = ch.flag("spherical") if kind == "radial" else False
    local = ch.flag("local")
    sk = ch.choose("exponents", ["generic", "diffuse", "sharp"])
    ns, np_ = ch.choose("basis", [(1, 0), (2, 0), (2, 1), (1, 2)] if sk == "generic" else [(1, 0), (1, 1)])
    norm = ch.flag("normalize") if what == "ls" else True
    p = Prob(kind, ns, np_, norm, small=True)
    f = dens(p, ch.choose("density", ["slater", "two"]))
    c, e = p.params(sk)
    start = np.concatenate((c, e))
    keep = start.copy()
    if what == "ls":
        tols = ch.choose("tolerances", [(1e-2, 1e-10), (1e-3, 1e-3), (1e-10, 1e-2)])
        its = ch.choose("iterations", [(1, 4), (5, 2), (60, 60)])
        con = ch.flag("constraint")
        g = GreedyLeastSquares(p.grid, f.copy(), local_tol=tols[0], global_tol=tols[1], l_maxiter=its[0],
                               g_maxiter=its[1], normalize=norm, spherical=sph, with_constraint=con)
        gen.need((g.local_tol, g.global_tol, g.l_maxiter, g.g_maxiter, g.with_constraint) == tols + its + (con,),
                 "attributes differ from the arguments")
        b = p.basis_functions(e)
        c = nnls_reference(b, f)
        fit = ScipyFit(p.grid, f.copy(), p.model, measure=SquaredDifference(), spherical=sph)
        k = 0 if local else 1
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            g.model.change_numb_s_and_numb_p(ns, np_)
            got = np.asarray(g.get_optimization_routine(start, local=local), dtype=float)
            want = [fit.run(c * q, e, tol=tols[k], maxiter=its[k], with_constraint=con) for q in (1.0, 1 + 1e-9, 1 - 1e-9)]
        # how strongly the optimizer amplifies rounding of its start decides how closely the answers must agree
        xs = [np.concatenate((w["coeffs"], w["exps"])) for w in want]
        loose = max(np.max(np.abs(x - xs[0])) for x in xs)
        seen = bool(loose < 1e-5)
        if seen:
            gen.need_close(got, xs[0], f"answer of the {'local' if local else 'global'} optimization",
                           scale=np.abs(xs[0]) + 1.0, rtol=1e-5 + 100 * loose)
    else:
        thr = ch.choose("thresholds", [((1e-2, 1e-9, 0.0), (1e-9, 1e-2, 0.0)), ((1e-9, 1e-1, 0.0), (1e-1, 1e-9, 0.0)),
                                       ((1e-9, 1e-9, 1e-3), (1e-9, 1e-9, 1e-6)), ((1e-9, 1e-9, 1e-6), (1e-9, 1e-9, 1e-3))])
        its = ch.choose("iterations", [(2, 7), (6, 3), (60, 60)])
        mask = ch.choose("mask", [1e-12, 1e-3])
        (lc, le, lo), (gc, ge, go) = thr
        g = GreedyKLFPI(p.grid, f.copy(), l_eps_coeff=lc, l_eps_exp=le, l_eps_obj=lo, g_eps_coeff=gc, g_eps_exp=ge,
                        g_eps_obj=go, l_maxiter=its[0], g_maxiter=its[1], mask_value=mask, spherical=sph)
        gen.need((g.l_threshold_coeff, g.l_threshold_exp, g.l_threshold_obj, g.g_threshold_coeff, g.g_threshold_exp,
                  g.g_threshold_obj, g.l_maxiter, g.g_maxiter) == (lc, le, lo, gc, ge, go) + its,
                 "attributes differ from the arguments")
        fit = KLDivergenceFPI(p.grid, f.copy(), p.model, mask_value=mask, spherical=sph)
        t, n = (thr[0], its[0]) if local else (thr[1], its[1])
        with np.errstate(all="ignore"):
            g.model.change_numb_s_and_numb_p(ns, np_)
            got = np.asarray(g.get_optimization_routine(start, local=local), dtype=float)
            w = fit.run(c, e, maxiter=n, c_threshold=t[0], e_threshold=t[1], d_threshold=t[2])
        want = np.concatenate((w["coeffs"], w["exps"]))
        seen = len(w["fun"])
        gen.need(np.allclose(got, want, rtol=1e-9, atol=0, equal_nan=True), f"answer {got}, expected {want}")
    gen.need(np.array_equal(start, keep), "the guess is modified")
    return what, kind, sph, local, ns, np_, seen


def nnls_tables(ch):
    """The coefficients of a guess are the non-negative least-squares solution of the table of basis functions."""
    n = ch.choose("points", [3, 4])
    m = ch.choose("functions", [1, 2, 3])
    a = np.abs(gen.generic(n * m, -0.8, 3.0, ch.choose("table", [3, 5, 11]))).reshape(n, m)
    b = np.array([ch.choose(f"d{i}", [0.0, 1e-6, 4e-3, 1.5]) for i in range(n)])
    b = b * ch.choose("scale", [1.0, 1e-12, 1e9])
    ka, kb = a.copy(), b.copy()
    got = GreedyLeastSquares.optimize_using_nnls(b, a)
    want = nnls_reference(a, b)
    gen.need_close(got, want, f"coefficients for {a} {b}", scale=np.max(np.abs(want)) + np.max(np.abs(b)), rtol=1e-7)
    gen.need(np.array_equal(a, ka) and np.array_equal(b, kb), "arguments modified")
    return n, m, tuple(np.round(got, 6))


def reuse(ch, runs):
    """A second run of one object does what a fresh object does."""
    what = ch.choose("method", ["ls", "kl"])
    kind = ch.choose("grid", ["radial", "cubic"])
    choice = ch.choose("choice", CHOICES[:2])
    p = Prob(kind, 1, 0, what == "kl", small=True)
    f = dens(p, "two")

    def make():
        if what == "kl":
            return GreedyKLFPI(p.grid, f.copy(), choice, l_maxiter=10, g_maxiter=20)
        return GreedyLeastSquares(p.grid, f.copy(), choice)
    g = make()
    for i in range(runs):
        maxf = ch.choose(f"max{i}", [1, 3])
        factor = ch.choose(f"factor{i}", [2.0, 3.5])
        np.random.seed(i)
        r = run(g, factor, max_numb_funcs=maxf)
        np.random.seed(i)
        w = run(make(), factor, max_numb_funcs=maxf)
        for k in ("coeffs", "exps", "num_s", "num_p", "fun", "success", "performance", "exit_information"):
            gen.need(np.array_equal(r[k], w[k]), f"run {i}: {k} is {r[k]}, a fresh object gives {w[k]}")
        gen.need(len(r["parameters_iteration"]) == len(w["parameters_iteration"]), f"run {i}: iterations")
        gen.need(np.array_equal(g.density, f), "the density changed")
    return what, kind, choice, r["num_s"], r["num_p"]


def scenarios(tier):
    t = tier == "thorough"
    ds = ["slater", "two", "s+p", "zeros"]
    if t:
        return [("least-squares", lambda ch: least_squares(ch, ["radial", "clenshaw", "cubic"], ds, CHOICES, [1, 2, 5],
                                                           [2.0, 1.3], [0, 1]), None),
                ("kullback", lambda ch: kullback(ch, ["radial", "clenshaw", "cubic"], ds, CHOICES, [4], [2.0], [0, 1],
                                                 60, 200), None),
                ("exact", exact, None), ("reuse", lambda ch: reuse(ch, 3), None),
                ("routines", routines, None), ("single", single, None), ("flat", flat, None), ("trust", lambda ch: trust(ch, ["radial", "cubic"], CHOICES[:2]), None), ("rising", lambda ch: rising(ch, [1, 3]), None), ("nnls", nnls_tables, None)]
    return [("least-squares", lambda ch: least_squares(ch, ["radial", "cubic"], ds, CHOICES, [3], [2.0], [0]), None),
            ("kullback", lambda ch: kullback(ch, ["radial", "cubic"], ds, CHOICES[:2], [3], [2.0], [0], 10, 20), None),
            ("exact", exact, None), ("reuse", lambda ch: reuse(ch, 2), None),
            ("routines", routines, None), ("single", single, None), ("flat", flat, None), ("trust", lambda ch: trust(ch, ["radial"], CHOICES[:1]), None), ("rising", lambda ch: rising(ch, []), None), ("nnls", nnls_tables, None)]
