r"""C32: what is displayed during a run is what happened."""
import contextlib
import io
import math
import re
import warnings

from checks import c21                        # installs the optimizer stub before bfit binds the name

import numpy as np

from bfit.fit import KLDivergenceFPI, ScipyFit  # noqa: E402
from bfit.greedy import GreedyStrategy        # noqa: E402
from bfit.model import AtomicGaussianDensity  # noqa: E402
from checks import c20                        # noqa: E402
from checks.c27 import Points, Read           # noqa: E402
from mc import fitref, gen                    # noqa: E402

BOUNDS = {
    "quick": "fixed-point runs of 0..5 and up to 60 iterations on 6 problems; every sequence of up to 3 optimizer callbacks for 2 "
             "methods x 3 selections; every sequence of better/worse answers of 3 kinds of greedy searches up to 4 functions",
    "thorough": "all 6 grids, 4 callbacks, greedy searches up to 7 functions",
}
ASSUMPTIONS = ["the layout of the display is not claimed, only that a line holds the numbers of each iteration in order"]
TOKEN = re.compile(r"(?<![\w.])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)(?![A-Za-z_])")


def agrees(token, value):
    """A printed number shows the value to the digits it has."""
    value = float(value)
    got = float(token)
    if not math.isfinite(value) or not math.isfinite(got):
        return repr(got) == repr(value) or (got != got and value != value)
    mant, _, ex = token.lower().partition("e")
    digits = len(mant.partition(".")[2])
    return abs(got - value) <= 0.51 * 10.0 ** (int(ex or 0) - digits) + 1e-9 * abs(value) + 1e-15


def holds(tokens, row):
    n = len(row)
    return any(all(agrees(t, v) for t, v in zip(tokens[i:i + n], row)) for i in range(len(tokens) - n + 1))


def table(text):
    """The lines of the table, the text after it."""
    lines = text.splitlines()
    end = next((i for i, x in enumerate(lines) if "uccess" in x), len(lines))
    return [TOKEN.findall(x) for x in lines[:end]], "\n".join(lines[end:])


def examine(text, rows, result, what):
    lines, rest = table(text)
    i = 0
    for k, row in enumerate(rows):
        while i < len(lines) and not holds(lines[i], row):
            i += 1
        gen.need(i < len(lines), lambda: f"{what}: no line shows iteration {k}: {[float(x) for x in row]} in\n{text[:1500]}")
        i += 1
    if rows:
        n = sum(len(x) >= len(rows[0]) for x in lines)
        gen.need(n == len(rows), f"{what}: {n} rows for {len(rows)} iterations")
    if result is not None:
        said = re.search(r"uccess\w*\W+(True|False)", text)
        gen.need(said is not None and said[1] == str(bool(result["success"])), f"{what}: displayed success")
        tail = TOKEN.findall(rest)
        for k in ("coeffs", "exps"):
            gen.need(holds(tail, list(np.asarray(result[k], dtype=float))), f"{what}: displayed {k}")


def quiet(fn, *a, **k):
    out = io.StringIO()
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(out):
        warnings.simplefilter("ignore")
        r = fn(*a, **k)
    return r, out.getvalue()


def same(a, b, what):
    for k in a:
        if k != "time":
            gen.need(np.array_equal(np.asarray(a[k], dtype=object), np.asarray(b[k], dtype=object)) or
                     np.array_equal(np.asarray(a[k], dtype=float), np.asarray(b[k], dtype=float), equal_nan=True),
                     f"{what}: {k} depends on the display")


def fixed_point(ch, kinds):
    kind = ch.choose("grid", kinds)
    ns, np_ = ch.choose("basis", [(1, 0), (1, 1), (2, 1)])
    sph = ch.flag("spherical") if kind in fitref.RADIAL else False
    sel = ch.choose("optimize", ["both", "coeffs", "expons"])
    p = fitref.Problem(kind, ns, np_, True, small=True)
    f = np.asarray(p.density(ch.choose("density", ["slater", "noisy"])), dtype=float)
    c, e = p.params(ch.choose("start", ["generic", "spread"]))
    n, thr = ch.choose("limits", [(0, 0.0), (1, 0.0), (2, 0.0), (5, 0.0), (60, 1e-2), (60, 1e-4)])
    opt = {"opt_coeffs": sel != "expons", "opt_expons": sel != "coeffs"}

    def fresh():
        return KLDivergenceFPI(p.grid, f.copy(), p.model, mask_value=1e-18, spherical=sph)

    def run(n, disp, thr=0.0, at=(c, e)):
        return quiet(fresh().run, at[0].copy(), at[1].copy(), maxiter=n, c_threshold=thr, e_threshold=thr, d_threshold=thr * 0.1,
                     disp=disp, **opt)

    r, text = run(n, True, thr)
    same(r, run(n, False, thr)[0], "fixed-point run")
    gen.need(run(n, False, thr)[1] == "", "a run without display prints")
    oc, oe, rows, last = c, e, [], math.nan
    for k in range(1, len(r["fun"]) + 1):
        s = run(1, False, at=(oc, oe))[0]     # one iteration on a fresh object
        d = math.inf if k == 1 else abs(s["fun"][-1] - last)
        last = s["fun"][-1]
        rows.append([k, *s["performance"][-1], np.max(np.abs(s["coeffs"] - oc)), np.max(np.abs(s["exps"] - oe)), d])
        oc, oe = s["coeffs"], s["exps"]
    # rounding of a change between neighbouring iterations: only its printed digits are compared
    examine(text, rows, r, "fixed-point run")
    return kind, ns, np_, sph, sel, len(rows)


def optimizer(ch, kinds, most):
    kind = ch.choose("grid", kinds)
    method = ch.choose("method", ["slsqp", "trust-constr"])
    sel = ch.choose("optimize", ["both", "coeffs", "expons"])
    con = ch.flag("constraint")
    ok = ch.flag("success")
    p = fitref.Problem(kind, 2, 1, True, small=True)
    f = np.asarray(p.density("slater"), dtype=float)
    scale = ch.choose("scale", [1.0, 1e-6])
    c, e = (q * scale for q in p.params("generic"))
    steps = [ch.choose(f"callback{i}", [1.0, 1.3, 0.6]) for i in range(ch.choose("callbacks", range(most + 1)))]
    x0 = {"both": np.concatenate((c, e)), "coeffs": c, "expons": e}[sel]
    p = fitref.Problem(kind, 2, 1, True, small=True)

    def minimize(fun, x0, args=(), callback=None, **kw):
        args = args if isinstance(args, tuple) else (args,)
        x = np.array(x0)
        for q in steps:
            x = x0 * q
            if callback is not None:
                if method == "slsqp":
                    callback(x.copy())
                else:
                    callback(x.copy(), c21.Answer(x=x.copy(), nit=1))
        v = fun(x, *args)
        return c21.Answer(x=x, fun=v[0], jac=v[1], success=ok, message="so it ends", nit=len(steps), nfev=1, njev=1,
                          status=0 if ok else 9)

    res = []
    for disp in (True, False):
        fit = ScipyFit(p.grid, f.copy(), p.model, measure=c20.MEAS["square"][0](), method=method)
        c21._STUB["fn"] = minimize
        try:
            res.append(quiet(fit.run, c.copy(), e.copy(), opt_coeffs=sel != "expons", opt_expons=sel != "coeffs",
                             disp=disp, with_constraint=con))
        finally:
            c21._STUB["fn"] = None
    (r, text), (r2, none) = res
    gen.need(none == "", "a run without display prints")
    same(r, r2, "optimizer run")
    rows = []
    for q in steps:
        x = x0 * q
        cc, ee = {"both": (x[:p.m], x[p.m:]), "coeffs": (x, e), "expons": (c, x)}[sel]
        rows.append(list(fit.goodness_of_fit(cc, ee)))
    examine(text, rows, r, "optimizer run")
    gen.need("so it ends" in text, "the optimizer's message is not displayed")
    return kind, method, sel, con, ok, tuple(steps)


class Search(GreedyStrategy):
    """Answers better via s, better via p, or worse."""

    def __init__(self, choice, ch, drop):
        m = AtomicGaussianDensity(np.zeros(1), num_s=1, num_p=0)
        super().__init__(ScipyFit(Points(), np.ones(1), m, measure=Read()), choice)
        self.ch, self.drop = ch, drop
        self.at = (1, 0)
        self.value, self.rows, self.prev, self.k = 64.0, [(64.0, 1, 0, math.nan)], math.inf, 0
        self.want, self.script = None, []

    def get_best_one_function_solution(self):
        return np.array([64.0, 1.0])

    def params(self, value, ns, np_):
        c = np.r_[np.ones(ns), 0.5 + np.arange(np_)]
        c[0] = value - (ns - 1)
        return np.r_[c, 0.5 * 1.5 ** np.arange(ns), 0.7 * 1.4 ** np.arange(np_)]

    def get_optimization_routine(self, params, *args, local=False):
        ns, np_ = self.model.num_s, self.model.num_p
        if local:
            if self.want is None:
                self.k += 1
                self.want = self.ch.choose(f"answer{self.k}", ["s", "p", "worse"])
                self.script.append(self.want)
            kind = "s" if ns > self.at[0] else "p"
            return self.params(70.0 - (kind == self.want), ns, np_)
        v = self.value + (1.0 if self.want == "worse" else -self.drop * self.k)
        if self.want != "worse":
            self.rows.append((v, ns, np_, abs(v - self.value)))
            self.prev, self.value, self.at = self.value, v, (ns, np_)
        else:
            self.rows.append(self.rows[-1][:3] + (abs(self.value - self.prev),))
        self.want = None
        return self.params(v, ns, np_)


def greedy(ch, most):
    choice = ch.choose("choice", ["pick-one", "pick-two", "pick-two-lose-one"])
    maxf = ch.choose("functions", most)
    drop = ch.choose("drop", [1.0, 0.0625])
    g = Search(choice, ch, drop)
    r, text = quiet(g.run, 2.0, max_numb_funcs=maxf, d_threshold=1e-6, disp=True)

    class Same:
        def choose(self, label, options):
            return g.script[int(label[6:]) - 1]

    r2, none = quiet(Search(choice, Same(), drop).run, 2.0, max_numb_funcs=maxf, d_threshold=1e-6)
    gen.need(none == "", "a run without display prints")
    same({k: r[k] for k in ("coeffs", "exps", "num_s", "num_p", "success", "fun", "performance")}, r2, "greedy search")
    rows = []
    for v, ns, np_, d in g.rows:
        kl = math.log(1.0 / v)
        rows.append([ns + np_, ns, np_, v, abs(1.0 - v), abs(1.0 - v), (1.0 - v) ** 2, kl, d])
    examine(text, rows, r, "greedy search")
    gen.need(r["exit_information"] in text, "the reason of termination is not displayed")
    for k in ("s", "p"):
        said = re.search(rf"{k}-type\D*(\d+)\s*$", table(text)[1], re.M)
        gen.need(said is not None and int(said[1]) == r["num_" + k], f"displayed number of {k} functions")
    return choice, maxf, drop, tuple(g.script)


def scenarios(tier):
    t = tier == "thorough"
    return [("fixed-point", lambda ch: fixed_point(ch, fitref.GRIDS if t else ["radial", "molecule2"]), None),
            ("optimizer", lambda ch: optimizer(ch, fitref.GRIDS if t else ["radial", "cubic-center"], 4 if t else 3), None),
            ("greedy", lambda ch: greedy(ch, [1, 2, 3, 4, 5, 7] if t else [1, 2, 3, 4]), None)]
