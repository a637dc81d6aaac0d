r"""C34: a call that is stopped at any point leaves nothing behind."""
import io
import os
import sys
import warnings

import numpy as np

from checks import c33                        # stubs the optimizer and prepares the data before bfit is imported
from checks import c21
from mc import faults, gen

BOUNDS = {
    "quick": "13 families of shared objects, every call stopped at every operation that can fail (calls of more than 200: "
             "every distinct one, first, second, middle and last arrival) by an error and by an interrupt; then every call "
             "again; grids, measures, optimizers and output streams of the caller that fail at their k-th use, for every k",
    "thorough": "greedy searches up to 3 functions; every pair of stops in two calls in a row of up to 60 steps",
}
ASSUMPTIONS = ["a resize or a search that is stopped may leave the model resized, as documented; it is then simply made again",
               "stops happen at operations of the package outside its own clean-up code, and inside the caller's own objects"]
A = np.array
R, F1, F2, C1, E1, C2, E2 = c33.R, c33.F1, c33.F2, c33.C1, c33.E1, c33.C2, c33.E2
clean, same = c33.clean, c33.same


def resizing(b):
    m = b.AtomicGaussianDensity(R.copy(), num_s=2, num_p=1, normalize=True)

    def to(s, p, deriv=False):
        m.change_numb_s_and_numb_p(s, p)
        n = s + p
        return m.evaluate(1.0 + np.arange(n), 0.5 + np.arange(n), deriv=deriv), m.nbasis, m.num_s, m.num_p, list(m.prefactor)
    return [lambda: to(1, 0), lambda: to(0, 3, True), lambda: to(3, 2), lambda: to(2, 1)]


def building(b):
    g = b.UniformRadialGrid(9, 0.0, 6.0, np.float64)
    m = b.AtomicGaussianDensity(g.points, num_s=2, num_p=1, normalize=True)
    k = b.KLDivergence(1e-3)
    return [lambda: b.KLDivergenceFPI(g, F1, m, spherical=True).goodness_of_fit(C1, E1),
            lambda: b.ScipyFit(g, F1, m, measure=k, weights=1.0 + R).func(np.r_[C1, E1]),
            lambda: b.ScipyFit(g, F2, m, measure=b.SquaredDifference(), integral_dens=3.0).const_norm(np.r_[C1, E1]),
            lambda: m.evaluate(C1, E1), lambda: g.integrate(F1),
            lambda: b.GreedyLeastSquares(g, F1).get_best_one_function_solution(),
            lambda: b.MolecularGaussianDensity(c33.XYZ, c33.XYZ[:2] + 0.1, A([[1, 0], [1, 1]])).evaluate(C1, E1),
            lambda: b.UniformRadialGrid(5, 0.0, 6.0).points]


def searches(kind, funcs):
    def family(b):
        g = b.UniformRadialGrid(9, 0.0, 6.0, np.float64)
        if kind == "ls":
            s = b.GreedyLeastSquares(g, F1.copy(), l_maxiter=2, g_maxiter=2)
        elif kind == "kl":
            s = b.GreedyKLFPI(g, F1.copy(), l_maxiter=2, g_maxiter=2, spherical=True)
        else:
            s = b.GreedyKLFPI(g, F2.copy(), "pick-two", l_maxiter=1, g_maxiter=1)

        def go(n):
            np.random.seed(5)
            r = s.run(2.0, max_numb_funcs=n)
            return clean(r), s.num_s, s.num_p, s.model.nbasis, len(s.err_arr)
        return [lambda: go(funcs), lambda: go(1), lambda: (s.integral_dens, s.numb_func_increase, s.grid.integrate(F2))]
    return family


FAMILIES = dict(c33.FAMILIES)
FAMILIES.update({"resizing": resizing, "building": building})
_SOLO, _COUNT = {}, {}


def families(tier):
    f = dict(FAMILIES)
    n = 3 if tier == "thorough" else 2
    f.update({"search ls": searches("ls", n), "search kl": searches("kl", n), "search two": searches("two", 3)})
    return f


def settings():
    return np.geterr(), list(warnings.filters), sys.stdout, os.getcwd()


def stop(op, at, kind, what):
    """Run op, stopped at step `at`: the exception must come out unchanged and no global setting may be left changed."""
    before = settings()
    raised, (ok, value), steps = faults.run(op, at, kind)
    gen.need(raised is not None, f"{what} did not reach step {at}")
    where = f"line {steps[-1][1]} of {os.path.basename(steps[-1][0])}"
    gen.need(not ok, f"{what} swallows the {kind.__name__} raised at {where}")
    gen.need(value is raised, f"{what} stopped at {where} raises {value!r} instead of the {kind.__name__}")
    gen.need(settings() == before, f"{what} stopped at {where} leaves numpy's or the process's settings changed")
    return where


def solo(table, name, i):
    if (name, i) not in _SOLO:
        with np.errstate(all="ignore"):
            table[name](c33.Package())[i]()             # imports and caches of other packages are warm
        _, (ok, value), steps = faults.run(table[name](c33.Package())[i])
        gen.need(ok, f"{name}: call {i} raises {value!r}")
        _SOLO[name, i] = value, steps
    return _SOLO[name, i]


def stops(ch, table, names, most, pairs):
    name = ch.choose("objects", names)
    warnings.simplefilter("ignore")
    c21._STUB["fn"] = c33.posing
    try:
        if name not in _COUNT:
            _COUNT[name] = len(table[name](c33.Package()))
        n = _COUNT[name]
        i = ch.choose("call", range(n))
        _, steps = solo(table, name, i)
        kind = ch.choose("exception", [faults.Fault, faults.Interrupt])
        at = ch.choose("stopped at", faults.points(steps, most))
        data = [x.copy() for x in (R, F1, F2, C1, E1, C2, E2, c33.XYZ)]
        ops = table[name](c33.Package())
        where = stop(ops[i], at, kind, f"{name}: call {i}")
        if pairs:
            j = ch.choose("second call", range(n))
            _, steps2 = solo(table, name, j)
            if max(len(steps), len(steps2)) <= pairs:
                k = ch.choose("second stop", len(steps2))
                where += " and " + stop(ops[j], k, kind, f"{name}: call {j} after a stop at {where},")
        for j in [i] + list(range(n)):
            want, _ = solo(table, name, j)
            try:
                got = ops[j]()
            except Exception as e:                   # pylint: disable=broad-except
                gen.need(False, f"{name}: after call {i} was stopped at {where}, call {j} raises {e!r}")
            gen.need(same(want, got), f"{name}: after call {i} was stopped at {where}, call {j} returns something else")
        for x, y in zip((R, F1, F2, C1, E1, C2, E2, c33.XYZ), data):
            gen.need(np.array_equal(x, y), f"{name}: call {i} stopped at {where} leaves the caller's data changed")
    finally:
        c21._STUB["fn"] = None
    return name, i, at, kind.__name__


class Budget:
    """Counts the uses of the caller's objects; the k-th one fails."""

    def __init__(self):
        self.left, self.used, self.error = None, 0, None

    def use(self):
        self.used += 1
        if self.left is not None:
            if self.left == 0:
                self.left, self.error = None, faults.Fault("k-th use")
                raise self.error
            self.left -= 1


class Stream(io.StringIO):
    def __init__(self, budget):
        super().__init__()
        self.budget = budget

    def write(self, s):
        self.budget.use()
        return super().write(s)


def collaborators(what, display, budget):
    """Objects of which one collaborator, the caller's own, counts its uses; and the call that uses them."""
    b = c33.Package()

    class Grid:
        points = np.linspace(0.0, 6.0, 9)

        def integrate(self, arr):
            if what == "grid":
                budget.use()
            return float(np.trapezoid(arr, self.points) if hasattr(np, "trapezoid") else np.trapz(arr, self.points))

    class Own(b.SquaredDifference):
        def evaluate(self, density, model, deriv=False):
            if what == "measure":
                budget.use()
            return super().evaluate(density, model, deriv)

    def optimizer(*a, **k):
        if what == "optimizer":
            budget.use()
        out = c33.posing(*a, **k)
        if k.get("callback"):
            k["callback"](out["x"])
        if what == "optimizer":
            budget.use()
        return out
    g = Grid()
    m = b.AtomicGaussianDensity(g.points, num_s=2, num_p=1, normalize=True)
    fpi = b.KLDivergenceFPI(g, F1.copy(), m)
    fit = b.ScipyFit(g, F1.copy(), m, measure=Own())
    ls = b.GreedyLeastSquares(g, F1.copy(), l_maxiter=2, g_maxiter=2)
    kl = b.GreedyKLFPI(g, F1.copy(), l_maxiter=2, g_maxiter=2)

    def extra(p):
        if what == "extra choices":
            budget.use()
        return p

    def greedy(s):
        np.random.seed(5)
        return s.run(2.0, max_numb_funcs=2, disp=display, add_extra_choices=extra)
    calls = {"fpi run": lambda: fpi.run(C1.copy(), E1.copy(), maxiter=2, disp=display),
             "fpi goodness": lambda: fpi.goodness_of_fit(C2, E2),
             "fit run": lambda: fit.run(C1.copy(), E1.copy(), disp=display),
             "fit coeffs": lambda: fit.run(C2.copy(), E2.copy(), opt_expons=False, disp=display),
             "fit func": lambda: fit.func(np.r_[C1, E1]), "fit constraint": lambda: fit.const_norm(np.r_[C1, E1]),
             "search ls": lambda: greedy(ls), "search kl": lambda: greedy(kl)}
    return calls, optimizer


USES = {}


def callers(ch):
    what = ch.choose("failing object", ["grid", "measure", "optimizer", "stream", "extra choices"])
    display = ch.flag("display")
    names = ["fpi run", "fpi goodness", "fit run", "fit coeffs", "fit func", "fit constraint", "search ls", "search kl"]
    name = ch.choose("call", names)
    warnings.simplefilter("ignore")

    def do(call, opt, budget):
        c21._STUB["fn"] = opt
        old, sys.stdout = sys.stdout, Stream(budget) if what == "stream" else io.StringIO()
        try:
            return clean(call())
        finally:
            sys.stdout = old
            c21._STUB["fn"] = None
    key = what, display, name
    if key not in USES:
        budget = Budget()
        calls, opt = collaborators(what, display, budget)
        budget.used = 0
        want = do(calls[name], opt, budget)
        USES[key] = budget.used, want
    n, want = USES[key]
    if not n:
        return None
    k = ch.choose("use", n)
    budget = Budget()
    calls, opt = collaborators(what, display, budget)
    budget.left, before = k, (np.geterr(), list(warnings.filters))
    try:
        do(calls[name], opt, budget)
        got = None
    except Exception as e:                           # pylint: disable=broad-except
        got = e
    gen.need(got is not None, f"{name} swallows the error of the caller's {what}, use {k}")
    gen.need(got is budget.error, f"{name} raises {got!r} instead of the error of the caller's {what}, use {k}")
    gen.need(before == (np.geterr(), list(warnings.filters)), f"{name} leaves settings changed")
    again = do(calls[name], opt, budget)
    gen.need(same(want, again), f"{name} returns something else after the caller's {what} failed at use {k}")
    return key, k


def scenarios(tier):
    t = tier == "thorough"
    table = families(tier)
    out = [("stops", lambda ch: stops(ch, table, list(table), 3000 if t else 200, 0), None), ("callers", callers, None)]
    if t:
        short = [n for n in table if not n.startswith("search")]
        out.append(("two-stops", lambda ch: stops(ch, table, short, 60, 60), None))
    return out
