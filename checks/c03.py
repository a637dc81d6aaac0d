r"""C03: a normalized model integrates to the sum of its coefficients."""
import numpy as np

from bfit.grid import ClenshawRadialGrid, CubicGrid, UniformRadialGrid
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
from mc import gen, refs

BOUNDS = {
    "quick": "atomic: num_s,num_p in 0..4, 4 exponent patterns in [0.3,40], 4 coefficient patterns, "
             "3 resolved radial grids, normalized and not; molecular: 1..3 centres on resolved, "
             "rotated and skewed 3D lattices, 4 centres with up to 2 deviations; length scales 1e-6..1e6; 33 to 130 functions",
    "thorough": "as quick with num_s,num_p in 0..7 and finer lattices",
}
ASSUMPTIONS = ["grids resolve every exponent in the alphabet; integral tolerance 2e-6 of sum|c|"]

EXPO = {
    "generic": lambda m: gen.generic(m, 0.4, 6.0, 3),
    "equal": lambda m: np.full(m, 1.7),
    "spread": lambda m: 0.3 * 40.0 ** (np.arange(m) / max(m - 1, 1)),
    "descending": lambda m: (0.4 * 1.9 ** np.arange(m))[::-1].copy(),
}
_GRIDS = {}


def grid(kind):
    if kind not in _GRIDS:
        _GRIDS[kind] = {
            "uniform": lambda: UniformRadialGrid(4001, 0.0, 14.0, dtype=np.float64),
            "uniform-long": lambda: UniformRadialGrid(3001, 0.0, 12.0),
            "clenshaw": lambda: ClenshawRadialGrid(1, 4000, 6000, extra_pts=[50., 75., 100.]),
        }[kind]()
    return _GRIDS[kind]


def atomic(ch, top):
    gk = ch.choose("grid", ["uniform", "uniform-long", "clenshaw"])
    ns = ch.choose("num_s", top + 1)
    np_ = ch.choose("num_p", list(range(0 if ns else 1, top + 1)))
    ek = ch.choose("expons", sorted(EXPO))
    ck = ch.choose("coeffs", ["positive", "signs", "zeros", "unit"])
    norm = ch.choose("normalize", [True, False])
    m = ns + np_
    es, cs = EXPO[ek](m), gen.coeffs(ck, m)
    g = grid(gk)
    mdl = AtomicGaussianDensity(g.points, None, ns, np_, norm)
    val = g.integrate(mdl.evaluate(cs, es) * 4.0 * np.pi * g.points ** 2)
    kinds = ["s"] * ns + ["p"] * np_
    terms = [c * refs.norm_const(k, a, norm) for c, k, a in zip(cs, kinds, es)]
    want = float(np.sum(terms))
    # the trapezoidal rule converges geometrically for these functions
    gen.need_close(val, want, "integral over all space", scale=np.sum(np.abs(terms)),
                   rtol=2e-6 if gk == "clenshaw" else 1e-11)
    return gk, ns, np_, round(want, 6)


def lattice(kind):
    if kind == "straight":
        axes = np.eye(3) * 0.25
    elif kind == "rotated":
        a, b = 0.6, 0.35
        rx = np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])
        rz = np.array([[np.cos(b), -np.sin(b), 0], [np.sin(b), np.cos(b), 0], [0, 0, 1]])
        axes = 0.25 * rx @ rz
    elif kind == "uneven":
        axes = np.diag([0.2, 0.25, 0.3])
    elif kind == "lefthanded":
        axes = np.array([[0, 0.25, 0], [0.25, 0, 0], [0, 0, 0.25]])
    else:
        axes = np.array([[0.25, 0.05, 0.0], [0.0, 0.25, 0.04], [0.03, 0.0, 0.25]])
    shape = np.ceil(11.0 / np.abs(np.diag(axes) if kind != "lefthanded" else 0.25 * np.ones(3)))
    shape = tuple(int(x) for x in shape * np.ones(3))
    origin = -0.5 * np.dot(np.array(shape) - 1, axes)
    return origin, axes, shape


def molecular(ch, shapes):
    lk = ch.choose("lattice", ["straight", "rotated", "uneven", "lefthanded", "skew"])
    if lk not in _GRIDS:
        _GRIDS[lk] = CubicGrid(*lattice(lk))
    g = _GRIDS[lk]
    nat = ch.choose("natoms", [1, 2, 3])
    basis = ch.choose("basis", shapes[nat])
    xyz = gen.molecule(ch.choose("coords", ["spread", "coincident"]), 3, nat) * 0.5
    m = sum(a + b for a, b in basis)
    es, cs = gen.generic(m, 0.8, 3.0, 3), gen.coeffs(ch.choose("coeffs", ["positive", "signs"]), m)
    mdl = MolecularGaussianDensity(g.points, xyz, np.array(basis), True)
    val = g.integrate(mdl.evaluate(cs, es))
    gen.need_close(val, np.sum(cs), "integral over the lattice", scale=np.sum(np.abs(cs)), rtol=1e-7)
    return lk, nat, round(float(np.sum(cs)), 6)


def big_molecule(ch, nmax):
    lk = "straight"
    if lk not in _GRIDS:
        _GRIDS[lk] = CubicGrid(*lattice(lk))
    g = _GRIDS[lk]
    nat = ch.choose("natoms", list(range(4, nmax + 1)))
    basis = [ch.choose(f"basis{i}", [(1, 1), (1, 0), (0, 1), (0, 2), (2, 0)], 1) for i in range(nat)]
    xyz = gen.molecule("spread", 3, nat) * 0.5
    m = sum(a + b for a, b in basis)
    es, cs = gen.generic(m, 0.8, 3.0, 3), gen.coeffs("positive", m)
    val = g.integrate(MolecularGaussianDensity(g.points, xyz, np.array(basis), True).evaluate(cs, es))
    gen.need_close(val, np.sum(cs), "integral over the lattice", scale=np.sum(np.abs(cs)), rtol=1e-7)
    return nat, round(float(np.sum(cs)), 6)


def scales(ch):
    """Very diffuse and very sharp functions, on grids scaled with them."""
    s = ch.choose("length", [1e-6, 1e-3, 0.05, 20.0, 1e3, 1e6])
    ns = ch.choose("num_s", 3)
    np_ = ch.choose("num_p", list(range(0 if ns else 1, 3)))
    ek = ch.choose("expons", sorted(EXPO))
    kind = ch.choose("model", ["atomic", "molecular"])
    m = ns + np_
    es, cs = EXPO[ek](m) / s ** 2, gen.coeffs(ch.choose("coeffs", ["positive", "signs"]), m)
    g = UniformRadialGrid(4001, 0.0, 14.0 * s, dtype=np.float64)
    if kind == "atomic":
        mdl = AtomicGaussianDensity(g.points, None, ns, np_, True)
    else:
        mdl = MolecularGaussianDensity(g.points, np.zeros((1, 1)), np.array([[ns, np_]]), True)
    val = g.integrate(mdl.evaluate(cs, es) * 4.0 * np.pi * g.points ** 2)
    gen.need_close(val, np.sum(cs), "integral over all space", scale=np.sum(np.abs(cs)), rtol=1e-11)
    return s, ns, np_, kind


MANY = [(33, 0), (0, 33), (17, 18), (3, 40), (66, 5), (130, 0), (64, 64)]


def many(ch):
    """Models of many functions."""
    ns, np_ = ch.choose("sizes", MANY)
    m = ns + np_
    cs = gen.coeffs(ch.choose("coeffs", ["positive", "signs", "zeros"]), m)
    es = {"rising": np.geomspace(0.3, 12.0, m), "generic": gen.generic(m, 0.4, 6.0, 3)}[ch.choose("expons", ["rising", "generic"])]
    g = grid("uniform")
    if ch.choose("model", ["atomic", "molecular"]) == "atomic":
        mdl = AtomicGaussianDensity(g.points, None, ns, np_, True)
    else:
        mdl = MolecularGaussianDensity(g.points, np.zeros((2, 1)), np.array([[ns - ns // 2, np_ // 2], [ns // 2, np_ - np_ // 2]]), True)
    val = g.integrate(mdl.evaluate(cs, es) * 4.0 * np.pi * g.points ** 2)
    gen.need_close(val, np.sum(cs), "integral over all space", scale=np.sum(np.abs(cs)), rtol=1e-11)
    return ns, np_, round(float(np.sum(cs)), 6)


def scenarios(tier):
    top = 7 if tier == "thorough" else 4
    shapes = {1: [[(1, 0)], [(0, 1)], [(2, 2)]],
              2: [[(1, 0), (1, 0)], [(0, 1), (2, 0)], [(1, 2), (2, 1)]],
              3: [[(1, 0)] * 3, [(0, 1), (1, 0), (1, 1)]]}
    return [("atomic", lambda ch: atomic(ch, top), None),
            ("molecular", lambda ch: molecular(ch, shapes), None), ("scales", scales, None), ("many", many, None),
            ("big-molecule", lambda ch: big_molecule(ch, 5 if tier == "thorough" else 4), 3 if tier == "thorough" else 2)]
