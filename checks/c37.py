r"""C37: neither the order in which things are listed, nor where they are put, nor the unit of length matters."""
import itertools

import numpy as np

from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.measure import KLDivergence, SquaredDifference
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
from mc import gen

BOUNDS = {
    "quick": "molecules of 1..5 centres (6 shapes, up to 9 functions): all orders of the centres (9 orders of five) x all orders of "
             "the functions of a kind x 3 groupings of coincident functions into centres x 4 orders of the points x 6 "
             "placements x 3 units, up to 3 of these changed at once; values, gradients, bookkeeping, fits",
    "thorough": "all changed at once",
}
ASSUMPTIONS = ["results are compared within 1e-8 of their scale"]
# ids of the s and p functions on each centre
SHAPES = [[("ab", "c")], [("a", "b"), ("c", "")], [("ab", "cd"), ("", "efg")], [("a", ""), ("b", "c"), ("", "d")],
          [("abc", "d"), ("e", "fg"), ("h", "i")], [("a", ""), ("", "b"), ("cd", ""), ("e", "f"), ("", "g")]]
ALL = "abcdefghi"
C = dict(zip(ALL, gen.generic(9, 0.3, 2.0, 5)))
E = dict(zip(ALL, gen.generic(9, 0.3, 2.5, 15)))
POS = np.array([[0.3, 0.1, -0.2], [-0.9, 0.4, 0.5], [0.2, -1.1, 0.8], [1.1, 0.9, -0.7], [-0.2, 0.6, 1.2]])
FIVE = [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (1, 0, 2, 3, 4), (0, 2, 1, 3, 4), (0, 1, 3, 2, 4), (0, 1, 2, 4, 3), (1, 2, 3, 4, 0),
        (3, 4, 0, 1, 2), (2, 4, 1, 0, 3)]
PTS = gen.generic(36, -1.6, 1.6, 3).reshape(12, 3)
PTS[4], PTS[9] = POS[0] + [0.012, -0.009, 0.004], POS[1] + [0.005, 0.008, 0.013]       # close to a centre
PTS, POS = np.round(PTS * 2 ** 20) / 2 ** 20, np.round(POS * 2 ** 20) / 2 ** 20   # sums with places are exact
W = gen.generic(12, 0.5, 1.5, 40)
WT = gen.generic(12, 0.2, 2.0, 60)
F = 1.7 * np.exp(-1.1 * np.linalg.norm(PTS, axis=1)) + 0.05
POINTS = {"given": np.arange(12), "reversed": np.arange(12)[::-1], "rolled": np.roll(np.arange(12), 5),
          "shuffled": np.array([7, 2, 11, 0, 5, 9, 1, 10, 3, 8, 6, 4])}


def rotation(a, b):
    x = np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])
    z = np.array([[np.cos(b), -np.sin(b), 0], [np.sin(b), np.cos(b), 0], [0, 0, 1]])
    return x @ z


PLACES = {"given": (np.eye(3), np.zeros(3)), "moved": (np.eye(3), np.array([3.0, -40.0, 17.0])),
          "turned": (rotation(0.7, 2.1), np.zeros(3)), "mirrored": (np.diag([1.0, -1.0, 1.0]), np.array([0.0, 0.0, -2.5])),
          "far": (np.eye(3), np.array([70000.0, -290000.0, 130000.0])),
          "exchanged": (np.array([[0.0, 1, 0], [0, 0, 1], [1, 0, 0]]), np.array([-1.0, 0.5, 0.25]))}


class Grid:
    def __init__(self, points, w):
        self.points, self.w = points, w

    def integrate(self, arr):
        return float(np.sum(self.w * arr))


def arrange(shape, order, inner, grouping):
    """List of (centre, s ids, p ids) in the chosen order."""
    out = []
    for j in order:
        s, p = shape[j]
        s, p = (x if len(x) < 2 else "".join(list(itertools.permutations(x))[inner % (2 if len(x) == 2 else 6)]) for x in (s, p))
        if grouping == "apart" and len(s) + len(p) > 1:
            out += [(j, s[:1], p[1:]), (j, s[1:], p[:1])]
        elif grouping == "single":
            out += [(j, x, "") for x in s] + [(j, "", x) for x in p]
        else:
            out.append((j, s, p))
    return [x for x in out if x[1] or x[2]]


def ids(lst):
    return "".join(s + p for _, s, p in lst)


def answers(lst, norm, order, place, unit, atomic):
    """Everything the library says about one arrangement, by function and point, in the original unit."""
    turn, shift = PLACES[place]
    names = ids(lst)
    m = len(names)
    pts = ((PTS @ turn.T + shift) * unit)[order]
    pos = (POS @ turn.T + shift) * unit
    if atomic:
        (j, s, p), = lst
        mdl = AtomicGaussianDensity(pts, pos[j], len(s), len(p), norm)
    else:
        mdl = MolecularGaussianDensity(pts, np.array([pos[j] for j, _, _ in lst]), np.array([[len(s), len(p)] for _, s, p in lst]), norm)
    power = 3.0 if norm else 0.0
    c, e = np.array([C[i] for i in names]), np.array([E[i] for i in names]) / unit ** 2
    back = np.argsort(order)
    out = {"functions": m}
    by = lambda x, f=1.0: [x[names.index(i)] * f for i in sorted(names)]          # noqa: E731
    g, dg = mdl.evaluate(c, e, deriv=True)
    out["value"] = mdl.evaluate(c, e)[back] * unit ** power
    out["value with gradient"] = g[back] * unit ** power
    out["gradient coeffs"] = by(dg[back][:, :m].T, unit ** power)
    out["gradient expons"] = by(dg[back][:, m:].T, unit ** (power - 2.0))
    out["prefactor"] = by(np.asarray(mdl.prefactor))
    if not atomic:
        where = [lst[int(mdl.assign_basis_to_center(i))][0] for i in range(m)]
        out["centres"] = by(where)
        out["radii"] = by([np.asarray(mdl.radii)[int(mdl.assign_basis_to_center(i))][back] / unit for i in range(m)])
    else:
        out["centres"] = [lst[0][0]] * m
        out["radii"] = [np.ravel(mdl.radii)[back] / unit] * m
    f = F[order] * unit ** -power
    grid = Grid(pts, W[order] * unit ** power)
    perf = np.array([1.0, 1.0, unit ** power, unit ** power, 1.0])
    if norm:
        fit = KLDivergenceFPI(grid, f, mdl, integral_dens=2.0)
        out["goodness"] = np.array(fit.goodness_of_fit(c, e)) * perf
        for label, kw in (("both", {}), ("coeffs", {"opt_expons": False}), ("expons", {"opt_coeffs": False})):
            r = fit.run(c, e, maxiter=2, c_threshold=-1.0, e_threshold=-1.0, d_threshold=-1.0, **kw)
            out[f"run {label} coeffs"] = by(r["coeffs"])
            out[f"run {label} expons"] = by(r["exps"], unit ** 2)
            out[f"run {label} performance"] = np.array(r["performance"]) * perf
    for label, measure, s in (("kl", KLDivergence(mask_value=0.0), 1.0), ("squares", SquaredDifference(), unit ** power)):
        fit = ScipyFit(grid, f, mdl, measure=measure, weights=WT[order])
        obj, grad = fit.func(np.concatenate((c, e)))
        out[f"objective {label}"] = obj * s
        out[f"objective {label} coeffs"] = by(grad[:m], s)
        out[f"objective {label} expons"] = by(grad[m:], s * unit ** -2)
        out[f"fixed coeffs {label}"] = by(fit.func(e, "fixed_coeffs", c)[1], s * unit ** -2)
        out[f"fixed expons {label}"] = by(fit.func(c, "fixed_expons", e)[1], s)
    out["constraint"] = fit.const_norm(np.concatenate((c, e)))
    return out


_WANT = {}


def orders(ch):
    n = ch.choose("shape", range(len(SHAPES)))
    shape = SHAPES[n]
    norm = ch.flag("normalize")
    perms = list(itertools.permutations(range(len(shape)))) if len(shape) < 5 else FIVE
    order = ch.choose("order of the centres", perms, 1)
    inner = ch.choose("order of the functions", [0, 1, 2, 3, 4, 5], 1)
    grouping = ch.choose("grouping", ["together", "apart", "single"], 1)
    points = ch.choose("order of the points", list(POINTS), 1)
    place = ch.choose("place", list(PLACES), 1)
    unit = ch.choose("unit", [1.0, 2.0, 0.03125], 1) if norm else 1.0
    lst = arrange(shape, order, inner, grouping)
    atomic = ch.choose("class", ["molecular", "atomic"], 1) == "atomic" if len(lst) == 1 else False
    if (n, norm) not in _WANT:
        _WANT[n, norm] = answers(arrange(shape, perms[0], 0, "together"), norm, POINTS["given"], "given", 1.0, False)
    want, got = _WANT[n, norm], answers(lst, norm, POINTS[points], place, unit, atomic)
    what = f"centres {order}, functions {ids(lst)} {grouping}, points {points}, {place}, unit {unit}, {'atomic' if atomic else 'molecular'}"
    gen.need(want.keys() == got.keys(), what)
    for k, w in want.items():
        w, x = np.asarray(w, dtype=float), np.asarray(got[k], dtype=float)
        gen.need(w.shape == x.shape, f"{k}: shape {x.shape} instead of {w.shape} for {what}")
        scale = np.maximum(np.abs(w), 1e-2 * np.max(np.abs(w)) + 1e-3)
        bad = ~(np.abs(w - x) <= 1e-8 * scale)
        gen.need(not np.any(bad), f"{k} depends on the arrangement ({what}): {x[bad][:3]} instead of {w[bad][:3]}")
    return n, order, inner, grouping, points, place, unit, atomic


def scenarios(tier):
    return [("orders", orders, None if tier == "thorough" else 3)]
