r"""C31: an argument left out means its documented default; position and name agree."""
import contextlib
import inspect
import io
import re
import warnings

import numpy as np

from mc import gen, slaterref

slaterref.scratch()                           # before bfit is imported
from checks import c21                        # noqa: E402  installs the optimizer stub before bfit binds the name

from bfit import greedy as _greedy            # noqa: E402
from bfit._slater import load_slater_wfn      # noqa: E402
from bfit.density import SlaterAtoms          # noqa: E402
from bfit.fit import KLDivergenceFPI, ScipyFit  # noqa: E402
from bfit.greedy import GreedyKLFPI, GreedyLeastSquares, GreedyStrategy  # noqa: E402
from bfit.grid import ClenshawRadialGrid, CubicGrid, UniformRadialGrid  # noqa: E402
from bfit.measure import KLDivergence, SquaredDifference, TsallisDivergence  # noqa: E402
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity  # noqa: E402
from checks.c27 import Points, Read           # noqa: E402

BOUNDS = {
    "quick": "every public callable with optional arguments: every combination of omitted and given arguments, with up to "
             "2 others away from their default; every number of arguments passed by position",
    "thorough": "up to 4 arguments away from their default",
}
ASSUMPTIONS = ["the documented default is the one stated in the description of the argument or, where that states none, "
               "the one in the documented signature"]
A = np.array
G = UniformRadialGrid(41, 0.0, 8.0, np.float64)
R = G.points
DENS = 2.5 * np.exp(-1.4 * R) + 0.3 * R ** 2 * np.exp(-0.9 * R)
DENS[-4:] = 0.0
DENS[12:15] = 0.0
XYZ = gen.generic(15, -1.5, 1.5, 3).reshape(5, 3)


def cubic(o):
    return np.asarray(o.axes), np.asarray(o.points), float(o.integrate(np.arange(1.0, len(o) + 1)))


def mol(points=XYZ, pos=(), **kw):
    return MolecularGaussianDensity(points.copy(), A([[0.0, 0.1, 0.2], [1.0, 0.0, 0.5]]), A([[1, 1], [1, 0]]), *pos, **kw)


def model_view(m):
    n = m.nbasis
    return m.natoms, n, np.asarray(m.radii), np.asarray(m.prefactor), m.evaluate(gen.generic(n, 0.5, 2.0, 3),
                                                                                 gen.generic(n, 0.4, 1.5, 5))


MVALS = A([0.9, 0.5, 1e-4, 1e-11, 3e-12, 5e-13, 2e-18, 1e-19, 0.0, 2.0])
DVALS = A([0.5, 0.9, 1e-3, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0])


def measure_view(m):
    neg = MVALS.copy()
    neg[3] = -1e-3
    with np.errstate(all="ignore"):
        return m.evaluate(DVALS, MVALS, deriv=True), m.evaluate(DVALS, neg, deriv=True)


def fit_model(**kw):
    return AtomicGaussianDensity(R, num_s=2, num_p=1, **kw)


C0, E0 = A([0.9, 1.1, 0.4]), A([0.6, 2.5, 0.8])


def plain(r):
    return {k: v for k, v in r.items() if k != "time"}


def fit_view(f):
    return (f.integral_dens, f.goodness_of_fit(C0, E0), f.goodness_of_fit(C0 * 0.3, E0 * 9.0),
            f.integrate(np.exp(-f.grid.points)))


def klfpi(pos, kw):
    f = KLDivergenceFPI(G, DENS.copy(), fit_model(normalize=True), *pos, **kw)
    with np.errstate(all="ignore"):
        return fit_view(f), f.lagrange_multiplier, plain(f.run(C0 * 0.5, E0 * 6.0, maxiter=2))


def klrun(pos, kw):
    f = KLDivergenceFPI(G, DENS.copy(), fit_model(normalize=True), mask_value=1e-18)
    out = io.StringIO()
    with contextlib.redirect_stdout(out), np.errstate(all="ignore"):
        r = plain(f.run(C0.copy(), E0.copy(), *pos, **kw))
    return r, bool(out.getvalue())


def recording(log):
    """An optimizer that notes the posed problem and answers with its start."""
    def minimize(fun, x0, args=(), method=None, jac=None, bounds=None, constraints=(), tol=None, callback=None,
                 options=None, **_):
        args = args if isinstance(args, tuple) else (args,)
        v = fun(np.array(x0), *args)
        cons = constraints if isinstance(constraints, (list, tuple)) else [constraints]
        vals = [k["fun"](np.array(x0), *k.get("args", ())) if isinstance(k, dict) else k.fun(np.array(x0)) for k in cons]
        b = (bounds.lb, bounds.ub) if hasattr(bounds, "lb") else bounds
        log.append((str(method).lower(), np.array(x0), v, vals, b, tol, callback is None, dict(options or {})))
        return c21.Answer(x=np.array(x0), fun=v[0], jac=v[1], success=True, message="ok", nit=1, nfev=1, njev=1, status=0)
    return minimize


def recorded(call):
    log = []
    c21._STUB["fn"] = recording(log)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()) as out:
            warnings.simplefilter("ignore")
            r = call()
    finally:
        c21._STUB["fn"] = None
    return r, log, bool(out.getvalue())


def scipy_init(pos, kw):
    f = ScipyFit(G, DENS.copy(), fit_model(), *pos, **kw)
    with np.errstate(all="ignore"):
        r, log, _ = recorded(lambda: f.run(C0.copy(), E0 * 4.0))
        r2, log2, _ = recorded(lambda: f.run(C0.copy(), E0 * 0.2))
    return fit_view(f), f.method, plain(r), log, plain(r2), log2


def scipy_run(pos, kw):
    f = ScipyFit(G, DENS.copy(), fit_model(), measure=SquaredDifference())
    r, log, out = recorded(lambda: f.run(C0.copy(), E0.copy(), *pos, **kw))
    return plain(r), log, out


def attributes(o):
    """Public properties of an object that hold plain values."""
    out = {}
    for n in sorted(dir(type(o))):
        if not n.startswith("_") and isinstance(getattr(type(o), n), property):
            v = getattr(o, n)
            if isinstance(v, (int, float, str, bool, np.ndarray, np.generic)):
                out[n] = v
    return out


START = A([0.9, 1.1, 0.6, 2.5])


def routine(g, local):
    g.model.change_numb_s_and_numb_p(2, 0)
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return np.asarray(g.get_optimization_routine(START.copy(), local=local))


def greedy_ls(pos, kw):
    g = GreedyLeastSquares(G, DENS.copy(), *pos, **kw)
    res = []
    for local in (True, False):
        r, log, _ = recorded(lambda: routine(g, local))
        res.append((r, log))
    r, log, _ = recorded(lambda: g.run(2.0, max_numb_funcs=3))
    np.random.seed(1)
    return attributes(g), res, len(log), r["num_s"], r["num_p"], r["coeffs"][:1]


def greedy_kl(pos, kw):
    g = GreedyKLFPI(G, DENS.copy(), *pos, **kw)
    out = attributes(g), fit_view_greedy(g), routine(g, True), routine(g, False)
    g2 = GreedyKLFPI(G, DENS.copy(), *pos, **kw)
    with np.errstate(all="ignore"):
        r = g2.run(2.0, max_numb_funcs=2)
    return out, r["num_s"], r["num_p"], r["coeffs"][:1], r["exps"][:1]


def ls_routine(pos, kw):
    g = GreedyLeastSquares(G, DENS.copy(), l_maxiter=2, g_maxiter=3)
    g.model.change_numb_s_and_numb_p(2, 0)
    return recorded(lambda: np.asarray(g.get_optimization_routine(START.copy(), *pos, **kw)))


def kl_routine(pos, kw):
    g = GreedyKLFPI(G, DENS.copy(), l_maxiter=2, g_maxiter=3)
    g.model.change_numb_s_and_numb_p(2, 0)
    return np.asarray(g.get_optimization_routine(START.copy(), *pos, **kw))


def fit_view_greedy(g):
    g.model.change_numb_s_and_numb_p(2, 1)
    with np.errstate(all="ignore"):
        return fit_view(g.fitting_obj)


class Counting(GreedyStrategy):
    """Each added function improves the objective by a fixed step."""

    def __init__(self, step, *pos, **kw):
        m = AtomicGaussianDensity(np.zeros(1), num_s=1, num_p=0)
        super().__init__(ScipyFit(Points(), np.ones(1), m, measure=Read()), *pos, **kw)
        self.step, self.n = step, 0

    def value(self):
        return 64.0 - self.step * self.n

    def get_best_one_function_solution(self):
        return A([64.0, 1.0])

    def get_optimization_routine(self, params, *args, local=False):
        ns, np_ = self.model.num_s, self.model.num_p
        self.n += not local
        c, e = np.ones(ns + np_), np.r_[0.5 * 1.5 ** np.arange(ns), 0.7 * 1.4 ** np.arange(np_)]
        c[0] = self.value() - (ns - 1)
        return np.r_[c, e]


def greedy_run(pos, kw):
    res = []
    for step in (1.0, 3e-7, 2e-8, 1.01e-8, 0.98e-8, 1e-9):
        g = Counting(step)
        with contextlib.redirect_stdout(io.StringIO()) as out:
            r = g.run(2.0, *pos, **kw)
        res.append((len(r["coeffs"]), r["fun"], r["exit_information"], r["success"], bool(out.getvalue())))
    return res


def strategy(pos, kw):
    g = Counting(1.0, *pos, **kw)
    return attributes(g), [np.asarray(x) for x in g.next_param_func(2.0, A([1.0, 2.0]), A([0.5, 4.0]))]


def atoms(pos, kw):
    a = SlaterAtoms("c", *pos, **kw)
    return a.energy, a.configuration, list(a.orbitals), np.asarray(a.orbitals_energy), a.atomic_density(R)


def wfn(pos, kw):
    d = load_slater_wfn("c", *pos, **kw)
    return d["configuration"], float(d["energy"]), list(d["orbitals"]), np.asarray(d["orbitals_energy"])


CS, ES = A([1.0, 2.0, 3.0]), A([0.5, 0.5007, 4.0])
# (name, function of (positional, keyword), ((argument, documented default, other value), ...))
SPECS = [
    ("UniformRadialGrid", lambda p, k: UniformRadialGrid(9, *p, **k).points,
     (("min_radii", 0.0, 0.5), ("max_radii", 100.0, 7.0), ("dtype", np.longdouble, np.float32))),
    ("ClenshawRadialGrid", lambda p, k: ClenshawRadialGrid(6, 8, 5, *p, **k).points,
     (("extra_pts", None, [7.0, 120.0]), ("include_origin", True, False), ("dtype", np.longdouble, np.float64))),
    ("CubicGrid.from_molecule", lambda p, k: cubic(CubicGrid.from_molecule(
        A([1.0, 6.0]), A([[0.0, 0.1, 0.2], [0.3, 0.4, 0.3]]), *p, **k)),
     (("spacing", 0.2, 0.9), ("extension", 5.0, 1.0), ("rotate", True, False))),
    ("AtomicGaussianDensity", lambda p, k: model_view(AtomicGaussianDensity(XYZ.copy(), *p, **k)),
     (("center", None, A([0.3, 0.2, 0.1])), ("num_s", 1, 2), ("num_p", 0, 1), ("normalize", False, True))),
    ("MolecularGaussianDensity", lambda p, k: model_view(mol(pos=p, **k)), (("normalize", False, True),)),
    ("AtomicGaussianDensity.evaluate", lambda p, k: fit_model().evaluate(C0, E0, *p, **k), (("deriv", False, True),)),
    ("MolecularGaussianDensity.evaluate", lambda p, k: mol().evaluate(C0, E0, *p, **k), (("deriv", False, True),)),
    ("SquaredDifference.evaluate", lambda p, k: SquaredDifference().evaluate(DVALS, MVALS, *p, **k),
     (("deriv", False, True),)),
    ("KLDivergence.evaluate", lambda p, k: KLDivergence().evaluate(DVALS, MVALS, *p, **k), (("deriv", False, True),)),
    ("TsallisDivergence.evaluate", lambda p, k: TsallisDivergence().evaluate(DVALS, MVALS, *p, **k),
     (("deriv", False, True),)),
    ("KLDivergence", lambda p, k: measure_view(KLDivergence(*p, **k)),
     (("mask_value", 1e-12, 1e-3), ("negative_val", 100000.0, 7.0))),
    ("TsallisDivergence", lambda p, k: measure_view(TsallisDivergence(*p, **k)),
     (("alpha", 1.001, 1.5), ("mask_value", 1e-12, 1e-3))),
    ("SlaterAtoms", atoms, (("anion", False, True), ("cation", False, True))),
    ("load_slater_wfn", wfn, (("anion", False, True), ("cation", False, True))),
    ("SlaterAtoms.atomic_density", lambda p, k: SlaterAtoms("c").atomic_density(R, *p, **k), (("mode", "total", "core"),)),
    ("SlaterAtoms.phi_matrix", lambda p, k: SlaterAtoms("c").phi_matrix(R[1:], *p, **k), (("deriv", False, True),)),
    ("KLDivergenceFPI", klfpi, (("mask_value", 0.0, 1e-3), ("integral_dens", None, 3.0), ("spherical", False, True))),
    ("KLDivergenceFPI.run", klrun,
     (("opt_coeffs", True, False), ("opt_expons", True, False), ("maxiter", 500, 3), ("c_threshold", 1e-6, 1e-2),
      ("e_threshold", 1e-6, 1e-2), ("d_threshold", 1e-6, 0.0), ("disp", False, True))),
    ("ScipyFit", scipy_init,
     (("measure", None, SquaredDifference()), ("method", "SLSQP", "trust-constr"), ("weights", None, 1.0 + R),
      ("integral_dens", None, 3.0), ("spherical", False, True), ("mask_value", 1e-18, 1e-2))),
    ("ScipyFit.run", scipy_run,
     (("opt_coeffs", True, False), ("opt_expons", True, False), ("maxiter", 1000, 7), ("tol", 1e-14, 1e-3),
      ("disp", False, True), ("with_constraint", True, False))),
    ("remove_redundancies", lambda p, k: _greedy.remove_redundancies(CS, ES, *p, **k),
     (("eps", 1e-3, 1e-5),)),
    ("get_next_choices", lambda p, k: _greedy.get_next_choices(2.0, CS, ES, *p, **k), (("coeff_val", 100.0, 3.0),)),
    ("get_two_next_choices", lambda p, k: _greedy.get_two_next_choices(2.0, CS, ES, *p, **k),
     (("coeff_val", 100.0, 3.0),)),
    ("pick_two_lose_one", lambda p, k: _greedy.pick_two_lose_one(2.0, CS, ES, *p, **k), (("coeff_val", 100.0, 3.0),)),
    ("GreedyStrategy", strategy, (("choice_function", "pick-one", "pick-two"),)),
    ("GreedyStrategy.run", greedy_run,
     (("d_threshold", 1e-8, 1e-3), ("max_numb_funcs", 30, 4), ("add_extra_choices", None, None), ("disp", False, True))),
    ("GreedyLeastSquares.get_optimization_routine", ls_routine, (("local", False, True),)),
    ("GreedyKLFPI.get_optimization_routine", kl_routine, (("local", False, True),)),
    ("GreedyLeastSquares", greedy_ls,
     (("choice", "pick-one", "pick-two"), ("local_tol", 1e-5, 1e-3), ("global_tol", 1e-8, 1e-6),
      ("method", "SLSQP", "trust-constr"), ("normalize", False, True), ("integral_dens", None, 3.0),
      ("with_constraint", False, True), ("l_maxiter", 1000, 5), ("g_maxiter", 2500, 6), ("spherical", False, True))),
    ("GreedyKLFPI", greedy_kl,
     (("choice", "pick-one", "pick-two"), ("g_eps_coeff", 1e-4, 1e-2), ("g_eps_exp", 1e-5, 1e-2),
      ("g_eps_obj", 1e-10, 1e-3), ("l_eps_coeff", 1e-2, 1e-1), ("l_eps_exp", 1e-3, 1e-1), ("l_eps_obj", 1e-8, 1e-2),
      ("l_maxiter", 1000, 2), ("g_maxiter", 2500, 3), ("mask_value", 1e-12, 1e-3), ("integral_dens", None, 3.0),
      ("spherical", False, True))),
]


def alike(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(alike, a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    if isinstance(a, (float, np.floating)) and a != a:
        return b != b
    return a == b


def attempt(fn, pos, kw):
    """The observation, or the kind of error."""
    np.random.seed(7)
    try:
        return fn(pos, kw)
    except (TypeError, ValueError, RuntimeError, NotImplementedError) as e:
        return type(e).__name__


_SEEN = {}


def reference(i, values):
    """The observation with every argument given by name."""
    key = i, tuple(values)
    if key not in _SEEN:
        _SEEN[key] = attempt(SPECS[i][1], (), {a: (d, o)[v] for (a, d, o), v in zip(SPECS[i][2], values)})
    return _SEEN[key]


def omitted(ch):
    """Leaving arguments out."""
    i = ch.choose("callable", range(len(SPECS)))
    name, fn, args = SPECS[i]
    few = len(args) > 7                       # long signatures: all but up to two omitted, or up to two omitted
    most = ch.flag("most omitted") if few else True
    kw, values = {}, []
    for a, d, o in args:
        ways = (["omitted", "given"] if most else ["given", "omitted"]) + (["other"] if o is not None else [])
        how = ch.choose(a, ways, 1 if few else None)
        values.append(int(how == "other"))
        if how != "omitted":
            kw[a] = o if how == "other" else d
    if len(kw) == len(args):
        return name, "all given"
    gen.need(alike(attempt(fn, (), kw), reference(i, values)),
             lambda: f"{name}({', '.join(kw)}): differs from the documented defaults of the arguments left out")
    return name, tuple(kw), tuple(values)


def positional(ch):
    """Arguments by position mean the same as by name."""
    i = ch.choose("callable", range(len(SPECS)))
    name, fn, args = SPECS[i]
    n = ch.choose("positional", range(1, len(args) + 1))
    j = ch.choose("other", range(n + 1))      # which of them is away from its default (the last option: none)
    values = [int(k == j < n) for k in range(len(args))]
    pos = tuple((d, o)[v] for (_, d, o), v in zip(args[:n], values))
    gen.need(alike(attempt(fn, pos, {}), reference(i, values)),
             lambda: f"{name}: argument {args[min(j, n - 1)][0]} by position differs from by name")
    return name, n, j


OWNERS = {"UniformRadialGrid": UniformRadialGrid, "ClenshawRadialGrid": ClenshawRadialGrid, "CubicGrid": CubicGrid,
          "AtomicGaussianDensity": AtomicGaussianDensity, "MolecularGaussianDensity": MolecularGaussianDensity,
          "SquaredDifference": SquaredDifference, "KLDivergence": KLDivergence, "TsallisDivergence": TsallisDivergence,
          "SlaterAtoms": SlaterAtoms, "KLDivergenceFPI": KLDivergenceFPI, "ScipyFit": ScipyFit,
          "GreedyStrategy": GreedyStrategy, "GreedyLeastSquares": GreedyLeastSquares, "GreedyKLFPI": GreedyKLFPI}


def described(ch):
    """Where the description of an argument states a default, it is the one used above."""
    name, _, args = SPECS[ch.choose("callable", range(len(SPECS)))]
    owner, _, method = name.partition(".")
    obj = OWNERS.get(owner) or getattr(_greedy, owner, None) or load_slater_wfn
    obj = getattr(obj, method) if method else obj.__init__ if isinstance(obj, type) else obj
    doc = inspect.getdoc(obj) or ""
    found = []
    for a, d, _ in args:
        part = re.search(rf"^{a} *:.*\n((?: .*\n|\n)*)", doc + "\n", re.M)
        said = part and re.search(r"[Dd]efault is[\s`\"']*([^\s`\"',]+?)[.`\"',]*(?:\s|$)", part[1])
        if said:
            try:
                ok = float(said[1]) == d
            except ValueError:
                ok = said[1].lower() == str(d).lower()
            gen.need(ok, f"{name}: the default of {a} is {d}, its description says {said[1]}")
            found.append(a)
    return name, tuple(found)


def scenarios(tier):
    return [("omitted", omitted, 4 if tier == "thorough" else 2), ("positional", positional, None),
            ("described", described, None)]
