r"""C21: ScipyFit poses the documented problem and reports whatever the optimizer answers."""
import contextlib
import io
import time
import warnings

import numpy as np
import scipy.optimize

_REAL = scipy.optimize.minimize
_STUB = {"fn": None, "calls": 0}


def _dispatch(*a, **k):
    if _STUB["fn"] is None:
        return _REAL(*a, **k)
    _STUB["calls"] += 1
    return _STUB["fn"](*a, **k)


scipy.optimize.minimize = _dispatch         # before bfit binds the name

from bfit.fit import ScipyFit               # noqa: E402
from checks import c20                      # noqa: E402
from mc import fitref, gen                  # noqa: E402

BOUNDS = {
    "quick": "every optimizer answer in {start, moved, at the lower bound, swapped order, negative, huge, NaN, inf} x success/failure x "
             "0..2 callbacks, for 2 methods x 3 parameter selections x constraint on/off x display x 5 problems; "
             "two consecutive runs with different answers",
    "thorough": "9 problems, 3 measures, 4 tolerances and iteration limits",
}
ASSUMPTIONS = ["the optimizer is replaced at scipy.optimize.minimize, the documented interface"]
PROBLEMS = [("radial", 2, 1), ("molecule2", 1, 1), ("cubic-center", 1, 0), ("clenshaw", 0, 2), ("molecule3", 1, 1),
            ("radial", 1, 0), ("cubic", 3, 2), ("molecule1", 2, 0), ("clenshaw", 2, 2)]


class Answer(dict):
    """Like scipy's OptimizeResult."""

    __getattr__ = dict.__getitem__


def _eval(fun, jac, x, args):
    if jac is True:
        v, g = fun(x, *args)
        return v, g
    v = fun(x, *args)
    return v, jac(x, *args) if callable(jac) else None


def environment(log, answer, success, ncall, probes, expect, method, nvar, fixed, tol, maxiter, constrained):
    """The stub: inspects the posed problem completely, then answers."""

    def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None,
                 constraints=(), tol=None, callback=None, options=None):
        args = args if isinstance(args, tuple) else (args,)
        x0 = np.asarray(x0)
        gen.need(str(method).lower() == log["method"], f"method {method}")
        gen.need(x0.shape == (nvar,) and np.array_equal(x0, fixed), f"start {x0}, expected {fixed}")
        gen.need(x0.dtype == np.float64, f"start of type {x0.dtype}")
        if isinstance(bounds, scipy.optimize.Bounds):
            lo, hi = np.broadcast_to(bounds.lb, nvar), np.broadcast_to(bounds.ub, nvar)
        else:
            gen.need(bounds is not None and len(bounds) == nvar, f"{bounds} bounds for {nvar} variables")
            lo = np.array([-np.inf if b[0] is None else b[0] for b in bounds])
            hi = np.array([np.inf if b[1] is None else b[1] for b in bounds])
        gen.need(bool(np.all(lo > 0.0)) and bool(np.all(lo <= 1e-6)), f"lower bounds {lo}")
        gen.need(bool(np.all(hi == np.inf)), f"upper bounds {hi}")
        cons = constraints if isinstance(constraints, (list, tuple)) else [constraints]
        gen.need(len(cons) == (1 if constrained else 0), f"{len(cons)} constraints")
        for x in probes:
            obj, osc, grad, gs, con, csc = expect(x)
            v, g = _eval(fun, jac, x.copy(), args)
            gen.need_close(v, obj, "objective posed to the optimizer", scale=osc)
            if g is not None:
                gen.need_close(g, grad, "gradient posed to the optimizer", scale=gs, rtol=1e-8)
            for k in cons:
                if isinstance(k, dict):
                    gen.need(k["type"] == "eq", "the constraint must be an equality")
                    cv = k["fun"](x.copy(), *k.get("args", ()))
                else:
                    cv = k.fun(x.copy())
                    con = con + np.broadcast_to(k.lb, ()) * 0
                    gen.need(np.all(np.asarray(k.lb) == np.asarray(k.ub)), "the constraint must be an equality")
                    cv = cv - np.asarray(k.lb)
                gen.need_close(np.abs(np.ravel(cv)), np.abs(np.ravel(con)), "constraint posed to the optimizer",
                               scale=csc)
        opt = dict(options or {})
        gen.need(opt.get("maxiter") == maxiter, f"iteration limit {opt.get('maxiter')}, expected {maxiter}")
        got = opt.get("ftol" if log["method"] == "slsqp" else "xtol", tol)
        gen.need(got == log["tol"], f"tolerance {got}, expected {log['tol']}")
        x = answer(x0)
        for _ in range(ncall):
            if callback is not None:
                if log["method"] == "slsqp":
                    callback(x.copy())
                else:
                    callback(x.copy(), Answer(x=x.copy(), nit=1))
        v, g = _eval(fun, jac, x.copy(), args)
        log["x"] = x.copy()
        log["fun"], log["jac"], log["message"] = v, np.asarray(g).copy(), log["says"] or f"because {success}"
        return Answer(x=x, fun=v, jac=log["jac"].copy(), success=success, message=log["message"], nit=log["nit"],
                      nfev=4, njev=4, status=log["status"] if log["says"] else 0 if success else 9)

    return minimize


ANSWERS = {"start": lambda x: x.copy(), "moved": lambda x: x * 1.25 + 0.01 * np.arange(len(x)),
           "bound": lambda x: np.where(np.arange(len(x)) % 2, x, 1e-12), "reversed": lambda x: x[::-1].copy(),
           "negative": lambda x: x - 2.0, "huge": lambda x: x * 1e6, "one nan": lambda x: np.r_[x[:-1], np.nan],
           "all nan": lambda x: x * np.nan, "inf": lambda x: np.r_[np.inf, x[1:]]}
BROKEN = ("negative", "one nan", "all nan", "inf")     # no documented goodness of fit to compare with


def same(a, b):
    return np.shape(a) == np.shape(b) and np.array_equal(a, b, equal_nan=True)


def one_run(ch, fit, p, f, sel, method, constrained, meas, disp, ak, success, ncall, tol, maxiter, sph,
            dtype=np.float64, says="", status=0, nit=3, scale=1.0):
    c, e = p.params("generic")
    if dtype is np.int64:
        c, e = np.ceil(c), np.ceil(e)
    c, e = (c * scale).astype(dtype), e.astype(dtype)
    fixed = {"both": np.concatenate((c, e)), "coeffs": c, "expons": e}[sel]
    total = p.integ(f, sph)

    def expect(x):
        cc, ee = {"both": (x[:p.m], x[p.m:]), "coeffs": (x, e), "expons": (c, x)}[sel]
        return c20.expected(p, f, cc, ee, sel, c20.MEAS[meas][1], None, sph, total)[:6]

    fixed = fixed.astype(np.float64)
    log = {"method": method.lower(), "tol": tol, "says": says, "status": status, "nit": nit}
    probes = [fixed.copy(), fixed * 1.3 + 0.05]
    _STUB["fn"] = environment(log, ANSWERS[ak], success, ncall, probes, expect, method, len(fixed), fixed, tol,
                              maxiter, constrained)
    _STUB["calls"] = 0
    kc, ke = c.copy(), e.copy()
    out = io.StringIO()
    try:
        with warnings.catch_warnings(record=True) as caught, contextlib.redirect_stdout(out):
            warnings.simplefilter("always")
            t0 = time.time()
            r = fit.run(c, e, opt_coeffs=sel != "expons", opt_expons=sel != "coeffs", maxiter=maxiter, tol=tol,
                        disp=disp, with_constraint=constrained)
            took = time.time() - t0
    finally:
        _STUB["fn"] = None
    if _STUB["calls"] != 1 or "x" not in log:
        gen.need(_STUB["calls"] <= 1, "the optimizer was run more than once")
        return None
    gen.need(np.array_equal(c, kc) and np.array_equal(e, ke), "initial guess modified")
    x = log["x"]
    wc, we = {"both": (x[:p.m], x[p.m:]), "coeffs": (x, ke), "expons": (kc, x)}[sel]
    gen.need(same(r["coeffs"], wc), f"coefficients {r['coeffs']}, optimizer said {wc}")
    gen.need(same(r["exps"], we), f"exponents {r['exps']}, optimizer said {we}")
    gen.need(bool(r["success"]) is success, "success flag")
    gen.need(r["message"] == log["message"], "message")
    gen.need(same(float(r["fun"]), float(log["fun"])), "objective value")
    gen.need(same(r["jacobian"], log["jac"]), "jacobian")
    if ak not in BROKEN:
        good = p.goodness(f, wc, we, 1e-18, sph)
        gen.need_close(r["performance"], good, "performance",
                       scale=np.abs(good) + p.integ(f, sph) + np.abs(good[0]), rtol=1e-8)
    gen.need(0.0 < r["time"] < 1.1 * took + 0.05, f"reported time {r['time']} of a call that took {took} s")
    failed = [w for w in caught if "ailed" in str(w.message)]
    gen.need(bool(failed) is (not success), f"{len(failed)} failure warnings with success={success}")
    gen.need(bool(out.getvalue()) is bool(disp), "display")
    return sel, method, ak, success, float(f"{float(r['fun']):.5e}")


def answers(ch, probs, meas, lims):
    kind, ns, np_ = ch.choose("problem", probs)
    method = ch.choose("method", ["SLSQP", "slsqp", "trust-constr"])
    mk = ch.choose("measure", meas)
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    p = fitref.Problem(kind, ns, np_, True, small=True)
    f = np.asarray(p.density("slater"), dtype=float)
    fit = ScipyFit(p.grid, f, p.model, measure=c20.MEAS[mk][0](), method=method, spherical=sph)
    sel = ch.choose("optimize", ["both", "coeffs", "expons"])
    con = ch.flag("constraint")
    disp = ch.flag("display")
    tol, maxiter = ch.choose("limits", lims)
    ak = ch.choose("answer", list(ANSWERS))
    success = ch.choose("success", [True, False])
    ncall = ch.choose("callbacks", [0, 2]) if disp else 0
    dt = ch.choose("dtype", [np.float64, np.longdouble, np.int64])
    return kind, one_run(ch, fit, p, f, sel, method, con, mk, disp, ak, success, ncall, tol, maxiter, sph, dt)


def limits(ch):
    """Every tolerance and iteration limit reaches the optimizer, and nothing else depends on them."""
    method = ch.choose("method", ["slsqp", "trust-constr"])
    kind, ns, np_ = ch.choose("problem", PROBLEMS[:4])
    tol = ch.choose("tol", [1e-14, 1e-10, 1e-3, 0.5])
    maxiter = ch.choose("maxiter", [1, 2, 100, 501, 1000, 5000, 10 ** 6])
    sel = ch.choose("optimize", ["both", "coeffs", "expons"])
    p = fitref.Problem(kind, ns, np_, True, small=True)
    f = np.asarray(p.density("slater"), dtype=float)
    fit = ScipyFit(p.grid, f, p.model, measure=c20.MEAS["square"][0](), method=method)
    return tol, maxiter, one_run(ch, fit, p, f, sel, method, ch.flag("constraint"), "square", ch.flag("display"), "moved",
                                 ch.flag("success"), 0, tol, maxiter, False)


# what scipy's optimizers answer: status and message by method
SAYS = {"slsqp": [(0, "Optimization terminated successfully"), (1, "Function evaluation required (f & c)"),
                  (2, "More equality constraints than independent variables"),
                  (3, "More than 3*n iterations in LSQ subproblem"), (4, "Inequality constraints incompatible"),
                  (5, "Singular matrix E in LSQ subproblem"), (6, "Singular matrix C in LSQ subproblem"),
                  (7, "Rank-deficient equality constraint subproblem HFTI"),
                  (8, "Positive directional derivative for linesearch"), (9, "Iteration limit reached"),
                  (-1, "Gradient evaluation required (g & a)")],
        "trust-constr": [(1, "`gtol` termination condition is satisfied."),
                         (2, "`xtol` termination condition is satisfied."),
                         (0, "The maximum number of function evaluations is exceeded."),
                         (3, "`callback` function requested termination."),
                         (4, "Constraint violation exceeds 'gtol'")]}


def codes(ch):
    """Every way in which scipy's optimizers end, after any number of iterations, from starts of any size."""
    method = ch.choose("method", list(SAYS))
    status, says = ch.choose("ending", SAYS[method])
    nit = ch.choose("iterations", [0, 1, 20, 25])
    sel = ch.choose("optimize", ["both", "coeffs", "expons"])
    con = ch.flag("constraint")
    scale = ch.choose("scale", [1.0, 1e4, 1e-5])
    ak = ch.choose("answer", ["moved", "start", "bound"])
    p = fitref.Problem("radial", 2, 1, True, small=True)
    f = np.asarray(p.density("slater"), dtype=float)
    fit = ScipyFit(p.grid, f, p.model, measure=c20.MEAS["square"][0](), method=method)
    ok = status == 0 if method == "slsqp" else status in (1, 2)
    return status, nit, scale, one_run(ch, fit, p, f, sel, method, con, "square", False, ak, ok, 0, 1e-10, 20, False,
                                       says=says, status=status, nit=nit, scale=scale)


def sequences(ch):
    """Two or three runs of one object under different answers."""
    method = ch.choose("method", ["slsqp", "trust-constr"])
    kind, ns, np_ = ch.choose("problem", PROBLEMS[:2])
    p = fitref.Problem(kind, ns, np_, True, small=True)
    f = np.asarray(p.density("slater"), dtype=float)
    fit = ScipyFit(p.grid, f, p.model, measure=c20.MEAS["square"][0](), method=method)
    res = []
    for i in range(2):
        sel = ch.choose(f"optimize{i}", ["both", "coeffs", "expons"])
        con = ch.flag(f"constraint{i}")
        ak = ch.choose(f"answer{i}", ["moved", "bound"])
        ok = ch.choose(f"success{i}", [True, False])
        res.append(one_run(ch, fit, p, f, sel, method, con, "square", False, ak, ok, 0, 1e-10, 20, False))
    return tuple(res)


def scenarios(tier):
    t = tier == "thorough"
    lims = [(1e-14, 1000), (1e-6, 7), (0.5, 1)] if t else [(1e-6, 7)]
    return [("answers", lambda ch: answers(ch, PROBLEMS if t else PROBLEMS[:5],
                                           ["kl", "square", "tsallis"] if t else ["kl", "square"], lims), None),
            ("codes", codes, None), ("limits", limits, None), ("sequences", sequences, None)]
