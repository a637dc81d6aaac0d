r"""C33: concurrent calls on shared objects return what each returns alone."""
import importlib
import sys
import warnings
from importlib.machinery import SourceFileLoader

import numpy as np

from mc import gen, slaterref

slaterref.scratch()                           # before bfit is imported
from checks import c21                        # noqa: E402  the optimizer is stubbed before bfit binds the name
from mc import threads                        # noqa: E402  imports bfit

BOUNDS = {
    "quick": "every ordered pair of operations on 10 families of shared objects, two threads, every schedule with one "
             "switch at any source line, and with two switches (there and back) for calls of up to 45 lines",
    "thorough": "two switches for calls of up to 160 lines, three for calls of up to 30",
}
ASSUMPTIONS = ["switches happen between source lines of the package; calls that are documented to change an object (resize, "
               "greedy search) are not run concurrently on one object"]
A = np.array
R = np.linspace(0.0, 6.0, 9)
XYZ = gen.generic(18, -1.5, 1.5, 3).reshape(6, 3)
C1, E1 = A([0.9, 1.1, 0.4]), A([0.6, 2.5, 0.8])
C2, E2 = A([2.0, 0.3, 0.7]), A([1.6, 0.2, 3.0])
F1 = 2.5 * np.exp(-1.4 * R) + 0.1
F2 = 0.7 * np.exp(-0.6 * R)


def posing(fun, x0, args=(), **kw):
    """An optimizer that evaluates the problem at its start and beside it and answers the latter."""
    args = args if isinstance(args, tuple) else (args,)
    fun(np.array(x0), *args)
    x = x0 * 1.25
    v = fun(x, *args)
    for k in kw.get("constraints") or ():
        if isinstance(k, dict):
            k["fun"](x, *k.get("args", ()))
    return c21.Answer(x=x, fun=v[0], jac=v[1], success=True, message="ok", nit=1, nfev=2, njev=2, status=0)


def clean(r):
    return {k: v for k, v in r.items() if k != "time"} if isinstance(r, dict) else r


def atomic(b, norm):
    m = b.AtomicGaussianDensity(R.copy(), num_s=2, num_p=1, normalize=norm)
    return [lambda: m.evaluate(C1, E1), lambda: m.evaluate(C1, E1, deriv=True), lambda: m.evaluate(C2, E2, deriv=True),
            lambda: m.evaluate(C2, E2), lambda: (m.radii.copy(), list(m.prefactor), m.nbasis)]


def molecular(b, norm):
    m = b.MolecularGaussianDensity(XYZ.copy(), A([[0.0, 0.1, 0.2], [1.0, 0.0, 0.5]]), A([[1, 1], [1, 0]]), norm)
    return [lambda: m.evaluate(C1, E1), lambda: m.evaluate(C1, E1, deriv=True), lambda: m.evaluate(C2, E2, deriv=True),
            lambda: [m.assign_basis_to_center(i) for i in range(3)],
            lambda: ([np.array(x) for x in m.radii], list(m.prefactor))]


def measures(b):
    k, t, s = b.KLDivergence(1e-3), b.TsallisDivergence(1.5, 1e-3), b.SquaredDifference()
    g = A([0.5, 1e-4, 0.2, 3.0])
    out = []
    for m in (k, t, s):
        out += [lambda m=m: m.evaluate(F1, F2, deriv=True), lambda m=m: m.evaluate(F1[:4], g),
                lambda m=m: m.evaluate(F2, F1)]
    return out


def grids(b):
    u, c = b.UniformRadialGrid(9, 0.0, 6.0, np.float64), b.ClenshawRadialGrid(6, 5, 4)
    q = b.CubicGrid(A([0.0, 0.0, 0.0]), np.eye(3) * 0.3, (2, 2, 3))
    return [lambda: u.integrate(F1), lambda: u.integrate(F2), lambda: c.integrate(np.exp(-c.points)),
            lambda: q.integrate(np.arange(12.0)), lambda: q.integrate(np.ones(12)),
            lambda: b.ClenshawRadialGrid(3, 4, 3, extra_pts=[60.0]).points,
            lambda: b.CubicGrid.from_molecule(A([1.0, 8.0]), A([[0.0, 0.1, 0.2], [0.9, 0.0, 0.5]]), 1.5, 0.5).points]


def fixed_point(b):
    g = b.UniformRadialGrid(9, 0.0, 6.0, np.float64)
    m = b.AtomicGaussianDensity(g.points, num_s=2, num_p=1, normalize=True)
    f = b.KLDivergenceFPI(g, F1.copy(), m, mask_value=1e-18)
    h = b.KLDivergenceFPI(g, F2.copy(), m, spherical=True, mask_value=1e-18)
    return [lambda: clean(f.run(C1.copy(), E1.copy(), maxiter=2)), lambda: clean(f.run(C2.copy(), E2.copy(), maxiter=2)),
            lambda: f.goodness_of_fit(C2, E2), lambda: clean(h.run(C2.copy(), E2.copy(), maxiter=1)),
            lambda: h.goodness_of_fit(C1, E1)]


def scipy_fit(b):
    g = b.UniformRadialGrid(9, 0.0, 6.0, np.float64)
    m = b.AtomicGaussianDensity(g.points, num_s=2, num_p=1)
    f = b.ScipyFit(g, F1.copy(), m, measure=b.KLDivergence(), spherical=True)
    h = b.ScipyFit(g, F2.copy(), m, measure=b.SquaredDifference(), weights=1.0 + R)
    x = np.concatenate((C1, E1))
    return [lambda: f.func(x), lambda: f.func(C2, "fixed_expons", E2), lambda: f.const_norm(x),
            lambda: h.func(E2, "fixed_coeffs", C2), lambda: h.goodness_of_fit(C2, E2),
            lambda: clean(f.run(C1.copy(), E1.copy())), lambda: clean(f.run(C2.copy(), E2.copy(), opt_expons=False)),
            lambda: clean(h.run(C2.copy(), E2.copy(), opt_coeffs=False, with_constraint=False))]


def slater(b):
    a, n = b.SlaterAtoms("c"), b.SlaterAtoms("ne")
    r, q = R[1:4], R[2:8]
    return [lambda: a.atomic_density(r), lambda: a.atomic_density(q, "valence"), lambda: a.phi_matrix(q, deriv=True),
            lambda: a.derivative_density(r), lambda: a.positive_definite_kinetic_energy(r),
            lambda: n.atomic_density(r, "core"), lambda: n.positive_definite_kinetic_energy(q)]


def loading(b):
    return [lambda: flat(b.load_slater_wfn("he")), lambda: flat(b.load_slater_wfn("b")),
            lambda: flat(b.load_slater_wfn("c", anion=True)), lambda: b.SlaterAtoms("be").atomic_density(R)]


def flat(d):
    return {k: ({q: np.asarray(v[q]) for q in v} if isinstance(v, dict) else np.asarray(v)) for k, v in d.items()}


def exponents(b):
    return [lambda: b.get_ugbs_exponents("h"), lambda: b.get_ugbs_exponents("li"), lambda: b.get_ugbs_exponents("c")]


def searching(b):
    cs, es = A([1.0, 2.0]), A([0.5, 4.0])
    return [lambda: b.get_next_choices(2.0, cs, es), lambda: b.get_two_next_choices(3.0, cs[:1], es[:1]),
            lambda: b.pick_two_lose_one(2.0, cs[:1], es[:1]), lambda: b.remove_redundancies(cs, es, 10.0),
            lambda: b.get_next_choices(2.0, es, cs, coeff_val=3.0)]


FAMILIES = {"atomic": lambda b: atomic(b, False), "atomic normalized": lambda b: atomic(b, True),
            "molecular": lambda b: molecular(b, True), "measures": measures, "grids": grids, "fixed point": fixed_point,
            "optimizer": scipy_fit, "slater": slater, "loading": loading, "exponents": exponents,
            "searching": searching}
_SOLO, _COUNT = {}, {}


class Package:
    """A fresh copy of the package: nothing is left from earlier executions, in its modules either."""
    _code = {}

    def __init__(self):
        held = {k: sys.modules.pop(k) for k in list(sys.modules) if k.split(".")[0] == "bfit"}
        try:
            for name in ("density", "fit", "greedy", "grid", "measure", "model", "_slater", "parse_ugbs"):
                self.__dict__.update((k, v) for k, v in vars(importlib.import_module("bfit." + name)).items() if k[0] != "_")
        finally:
            for k in [k for k in sys.modules if k.split(".")[0] == "bfit"]:
                del sys.modules[k]
            sys.modules.update(held)


def _get_code(loader, name, orig=SourceFileLoader.get_code):
    if name not in Package._code:
        Package._code[name] = orig(loader, name)
    return Package._code[name]


SourceFileLoader.get_code = _get_code         # compiled once


def operations(name):
    return FAMILIES[name](Package())


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, np.ndarray):
        b = np.asarray(b)
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    return a == b or (a != a and b != b)


def solo(name, i):
    """Result and lines of operation i by itself, on objects of its own."""
    if (name, i) not in _SOLO:
        with np.errstate(all="ignore"):
            threads.alone(operations(name)[i])          # imports and caches of other packages are warm
        _SOLO[name, i] = threads.alone(operations(name)[i])
    return _SOLO[name, i]


def count(name):
    if name not in _COUNT:
        _COUNT[name] = len(operations(name))
    return _COUNT[name]


def schedules(ch, names, most, twice, thrice):
    name = ch.choose("objects", names)
    warnings.simplefilter("ignore")
    c21._STUB["fn"] = posing
    try:
        n = count(name)
        i, j = ch.choose("first call", range(n)), ch.choose("second call", range(n))
        (ok1, want1), l1 = solo(name, i)
        (ok2, want2), l2 = solo(name, j)
        gen.need(ok1 and ok2, f"{name}: a call by itself raises {want1 if not ok1 else want2!r}")
        long = max(len(l1), len(l2))
        plan = [ch.choose("switch after", threads.points(l1, most))]
        if long <= twice:
            plan.append(ch.choose("back after", range(len(l2) + 1)))
            if long <= thrice:
                plan.append(ch.choose("again after", range(len(l1) - plan[0] + 1)))
        ops = operations(name)
        out, _ = threads.interleave([ops[i], ops[j]], plan)
    finally:
        c21._STUB["fn"] = None
    for k, want, o in ((i, want1, out[0]), (j, want2, out[1])):
        gen.need(o[0], lambda: f"{name}: call {k} raises {o[1]!r} when call {i} is interrupted by call {j} after {plan} lines")
        gen.need(same(want, o[1]), f"{name}: call {k} returns something else when call {i} is interrupted by call {j} after "
                 f"{plan} lines")
    return name, i, j, tuple(plan)


def scenarios(tier):
    t = tier == "thorough"
    return [("schedules", lambda ch: schedules(ch, list(FAMILIES), 10 ** 4 if t else 60, 160 if t else 25, 30 if t else 0), None)]
