r"""C24: calls do not modify what callers own, and no call influences the result of another."""
import warnings

import numpy as np

from checks import c13
from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.greedy import (GreedyKLFPI, GreedyLeastSquares, get_next_choices, get_two_next_choices,
                         pick_two_lose_one, remove_redundancies)
from bfit.measure import KLDivergence, SquaredDifference, TsallisDivergence
from bfit.model import AtomicGaussianDensity
from bfit.parse_ugbs import get_ugbs_exponents
from mc import fitref, gen

BOUNDS = {
    "quick": "every sequence of 3 operations out of 25 (2 for greedy runs) on shared grids, densities, models and "
             "fitting objects, returned arrays overwritten by the caller or not, read-only inputs; state of the random numbers",
    "thorough": "every sequence of 4 operations out of 12, of 3 out of 22",
}


class World:
    """Objects that share one grid and one density."""

    def __init__(self):
        self.p = fitref.Problem("radial", 2, 1, True, small=True)
        self.f = np.asarray(self.p.density("slater"), dtype=float)
        self.f.flags.writeable = False
        self.c, self.e = self.p.params("generic")
        self.c.flags.writeable = self.e.flags.writeable = False
        self.grid = self.p.grid
        self.kl, self.sq, self.ts = KLDivergence(), SquaredDifference(), TsallisDivergence(alpha=1.3)
        self.model = self.p.model
        self.fpi = KLDivergenceFPI(self.grid, self.f, self.model, spherical=True)
        self.ls = ScipyFit(self.grid, self.f, self.model, measure=self.sq)
        self.skl = ScipyFit(self.grid, self.f, self.model, measure=self.kl, spherical=True)
        self.gls = GreedyLeastSquares(self.grid, self.f, l_maxiter=3, g_maxiter=4)
        self.gkl = GreedyKLFPI(self.grid, self.f, l_maxiter=3, g_maxiter=4, spherical=True)
        self.other = AtomicGaussianDensity(self.grid.points, None, 2, 1, False)
        self.inputs = [self.f, self.c, self.e, self.grid.points]
        self.before = [x.copy() for x in self.inputs]


def ro(x):
    x = np.array(x)
    x.flags.writeable = False
    return x


def seeded(fn):
    np.random.seed(7)
    return fn()


_ATOM = {}


def slater(name="c"):
    if name not in _ATOM:
        _ATOM[name] = c13.SlaterAtoms(name)
    return _ATOM[name]


def moved(w):
    return ro(w.c * 1.7 + 0.05), ro(w.e * 0.6 + 0.1)


R = ro([0.1, 0.5, 1.0, 2.0])
OPS = {
    "value": lambda w: w.model.evaluate(w.c, w.e),
    "gradient": lambda w: w.model.evaluate(w.c, w.e, deriv=True),
    "other model": lambda w: w.other.evaluate(w.c, w.e, deriv=True),
    "kl": lambda w: w.kl.evaluate(w.f, w.f + 0.1, deriv=True),
    "square": lambda w: w.sq.evaluate(w.f, w.f + 0.1, deriv=True),
    "tsallis": lambda w: w.ts.evaluate(w.f, w.f + 0.1, deriv=True),
    "integrate": lambda w: w.grid.integrate(w.f),
    "goodness": lambda w: w.fpi.goodness_of_fit(w.c, w.e),
    "fpi both": lambda w: w.fpi.run(w.c, w.e, maxiter=2),
    "fpi coeffs": lambda w: w.fpi.run(w.c, w.e, opt_expons=False, maxiter=3),
    "fpi expons": lambda w: w.fpi.run(w.c, w.e, opt_coeffs=False, maxiter=2),
    "ls fit": lambda w: w.ls.run(w.c, w.e, maxiter=3),
    "kl fit": lambda w: w.skl.run(w.c, w.e, maxiter=3, opt_expons=False),
    "objective": lambda w: w.skl.func(ro(np.r_[w.c, w.e])),
    "value elsewhere": lambda w: w.model.evaluate(*moved(w)),
    "gradient elsewhere": lambda w: w.model.evaluate(*moved(w), deriv=True),
    "measures elsewhere": lambda w: [m.evaluate(w.f + 0.3, w.f, deriv=True) for m in (w.kl, w.sq, w.ts)],
    "goodness elsewhere": lambda w: [w.fpi.goodness_of_fit(*moved(w)), w.ls.goodness_of_fit(*moved(w))],
    "objective elsewhere": lambda w: [w.skl.func(ro(np.r_[moved(w)])), w.ls.func(ro(np.r_[moved(w)]))],
    "constraint": lambda w: [w.skl.const_norm(ro(np.r_[moved(w)])), w.ls.const_norm(ro(np.r_[w.c, w.e]))],
    "slater heavy": lambda w: [slater("ce").atomic_density(R, m) for m in ("valence", "core", "total")]
    + [slater("ce").orbitals_occupation.copy(), slater("ce").orbitals_energy.copy()],
    "slater other points": lambda w: [slater().atomic_density(ro(R[:3] * 1.5), "valence"),
                                      slater().derivative_density(ro(R[:3] * 1.5)), slater().phi_matrix(ro(R[:2]))],
    "rejected": lambda w: [gen.raises(lambda: w.fpi.run(w.c[:1], w.e)), gen.raises(lambda: w.ls.run(
        w.c, w.e, opt_coeffs=False, opt_expons=False)), gen.raises(lambda: w.grid.integrate(w.c)),
        gen.raises(lambda: w.model.evaluate(w.c[:1], w.e))],
    "greedy helpers": lambda w: [remove_redundancies(w.c, w.e), get_next_choices(2.0, w.c, w.e),
                                 get_two_next_choices(2.0, w.c, w.e), pick_two_lose_one(2.0, w.c, w.e)],
    "slater": lambda w: [slater().atomic_density(R), slater().atomic_density(R, "core"),
                         slater().derivative_density(R), slater().positive_definite_kinetic_energy(R),
                         slater().phi_matrix(R)],
    "ugbs": lambda w: [get_ugbs_exponents("be")["S"]],
    "tiny start": lambda w: [w.fpi.run(ro(w.c * [1e-9, 1.0, 1.0]), ro(w.e * [1.0, 1e-7, 1e-4]), maxiter=2),
                             w.ls.run(ro(w.c * [0.0, 1.0, 1e9]), ro(w.e * [1e-14, 1e-5, 1e8]), maxiter=1),
                             w.skl.run(ro(w.c * [0.0, 1.0, 1e9]), ro(w.e * [1e-14, 1e-5, 1e8]), maxiter=1, opt_coeffs=False)],
    "greedy ls more": lambda w: seeded(lambda: w.gls.run(1.5, max_numb_funcs=3)),
    "greedy kl more": lambda w: seeded(lambda: w.gkl.run(1.5, max_numb_funcs=3)),
    "greedy ls": lambda w: seeded(lambda: w.gls.run(2.0, max_numb_funcs=2)),
    "greedy kl": lambda w: seeded(lambda: w.gkl.run(2.0, max_numb_funcs=2)),
}
FEW = ["value", "gradient", "kl", "goodness", "fpi both", "fpi expons", "ls fit", "rejected", "slater",
       "tsallis", "objective", "greedy helpers"]
_EXP = {}


def flat(x):
    """Comparable tree of a result."""
    if isinstance(x, dict):
        return tuple((k, flat(x[k])) for k in sorted(x) if k != "time")
    if isinstance(x, (list, tuple)):
        return tuple(flat(v) for v in x)
    if isinstance(x, np.ndarray):
        return (x.shape, tuple(repr(float(v)) for v in x.ravel()))
    if isinstance(x, (float, np.floating, np.longdouble)):
        return repr(float(x))
    return repr(x)


def arrays(x):
    if isinstance(x, dict):
        for v in x.values():
            yield from arrays(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays(v)
    elif isinstance(x, np.ndarray):
        yield x


def call(op, w):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return OPS[op](w)


def expected(op):
    if op not in _EXP:
        _EXP[op] = flat(call(op, World()))
    return _EXP[op]


def sequences(ch, names, depth):
    w = World()
    scribble = ch.flag("caller overwrites results")
    kept = []
    for i in range(depth):
        op = ch.choose(f"op{i}", names)
        r = call(op, w)
        gen.need(flat(r) == expected(op), f"'{op}' as call {i} differs from the same call on fresh objects")
        for a, b in zip(w.inputs, w.before):
            gen.need(np.array_equal(a, b), f"'{op}' modified an input")
        for old, snap, name in kept:
            gen.need(flat(old) == snap, f"result of '{name}' changed by a later '{op}'")
        if scribble:
            for a in arrays(r):
                if a.flags.writeable and not any(np.shares_memory(a, x) for x in w.inputs):
                    a[...] = 77.0
        else:
            kept.append((r, flat(r), op))
    return depth, op, scribble


def writable(ch):
    """The same with writable inputs: nobody writes into them."""
    op = ch.choose("op", list(OPS))
    w = World()
    for x in (w.f, w.c, w.e):
        x.flags.writeable = True
    call(op, w)
    for a, b in zip(w.inputs, w.before):
        gen.need(np.array_equal(a, b), f"'{op}' modified an input")
    return op


def random_state(ch):
    """The caller's random numbers: only searches draw from them, and nothing sets them."""
    op = ch.choose("op", list(OPS))
    after = []
    for seed in (11, 12):
        w = World()
        np.random.seed(seed)
        before = np.random.get_state()[1].copy(), np.random.get_state()[2]
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            if op.startswith("greedy") and op != "greedy helpers":
                (w.gls if "ls" in op else w.gkl).run(2.0, max_numb_funcs=2)
            else:
                OPS[op](w)
                gen.need(np.array_equal(before[0], np.random.get_state()[1]) and before[1] == np.random.get_state()[2],
                         f"'{op}' changes the state of the caller's random numbers")
        after.append(np.random.random(4))
    gen.need(not np.array_equal(*after), f"'{op}' sets the caller's random numbers")
    return op


def scenarios(tier):
    t = tier == "thorough"
    greedy = ["greedy ls", "greedy ls more", "greedy kl", "greedy kl more"]
    cheap = [x for x in OPS if x not in greedy and x != "tiny start"]
    return [("sequences", lambda ch: sequences(ch, FEW if t else cheap, 4 if t else 3), None),
            ("sequences3", lambda ch: sequences(ch, list(OPS) if t else greedy + ["tiny start", "gradient", "ls fit", "fpi both"],
                                                3 if t else 2), None),
            ("writable", writable, None), ("random state", random_state, None)]
