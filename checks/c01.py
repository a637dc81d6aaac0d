r"""C01: the model's value is the documented sum of s- and p-type Gaussians, everywhere."""
import numpy as np

from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
from mc import gen, refs

BOUNDS = {
    "quick": "atomic: num_s,num_p in 0..3, 5 dimensions kinds, 5 centres, 7 point sets, 6 exponent and "
             "5 coefficient patterns, normalized or not; molecular: 1..3 centres of 4 shapes each, "
             "dims 1..3; 4..6 centres with up to 2 deviations from (1 s, 1 p) each; sizes up to 4099 points x 64 functions; 4 dtypes; 5 offsets x 8 gaps between centres x 5 distances",
    "thorough": "as quick with num_s,num_p in 0..5, 1..4 centres of 5 shapes, 4..7 centres with up to 3 deviations, all point sets",
}
ASSUMPTIONS = ["values compared to 1e-9 of the sum of absolute terms"]


def atomic_case(ch, top, points, expo, coef):
    dim = ch.choose("dim", [0, 1, 2, 3, 4])
    ns = ch.choose("num_s", top + 1)
    np_ = ch.choose("num_p", list(range(0 if ns else 1, top + 1)))
    norm = ch.flag("normalize")
    pk = ch.choose("points", points)
    ck = ch.choose("center", ["none", "zero", "offset", "far", "last"])
    ek = ch.choose("expons", expo)
    if ek == "zero" and norm:
        ek = "generic"
    kk = ch.choose("coeffs", coef)
    pts, cen = gen.points(pk, dim), gen.center(ck, dim)
    es, cs = gen.expons(ek, ns + np_), gen.coeffs(kk, ns + np_)
    mdl = AtomicGaussianDensity(pts, cen, ns, np_, norm)
    cref = np.zeros(max(dim, 1)) if cen is None else cen
    return mdl, pts, [cref], [(ns, np_)], cs, es, norm


def molecular_case(ch, natoms_max, shapes, points, expo, coef, dims=(0, 1, 2, 3)):
    dim = ch.choose("dim", list(dims))
    nat = ch.choose("natoms", list(range(1, natoms_max + 1)))
    basis = [ch.choose(f"basis{i}", shapes) for i in range(nat)]
    norm = ch.flag("normalize")
    pk = ch.choose("points", points)
    mk = ch.choose("coords", ["spread", "coincident", "far"])
    ek = ch.choose("expons", expo)
    kk = ch.choose("coeffs", coef)
    m = sum(a + b for a, b in basis)
    pts, xyz = gen.points(pk, dim), gen.molecule(mk, dim, nat)
    es, cs = gen.expons(ek, m), gen.coeffs(kk, m)
    mdl = MolecularGaussianDensity(pts, xyz, np.array(basis), norm)
    return mdl, pts, list(xyz), basis, cs, es, norm


BIG = [(1, 1), (1, 0), (0, 1), (0, 2), (3, 0), (2, 3)]


def big_molecule(ch, nmax):
    """Molecules of 4..nmax centres: all layouts in which at most so many centres deviate from (1 s, 1 p)."""
    dim = ch.choose("dim", [3, 0, 1], 1)
    nat = ch.choose("natoms", list(range(4, nmax + 1)))
    basis = [ch.choose(f"basis{i}", BIG, 1) for i in range(nat)]
    norm = ch.flag("normalize")
    kk = ch.choose("coeffs", ["signs", "unit", "first-zero"], 1)
    mk = ch.choose("coords", ["spread", "coincident", "far"], 1)
    m = sum(a + b for a, b in basis)
    pts, xyz = gen.points("origin", dim), gen.molecule(mk, dim, nat)
    es, cs = gen.expons("generic", m), gen.coeffs(kk, m)
    mdl = MolecularGaussianDensity(pts, xyz, np.array(basis), norm)
    return mdl, pts, list(xyz), basis, cs, es, norm


def check_value(mdl, pts, cens, basis, cs, es, norm):
    g, _, scale, _ = refs.model(pts, cens, basis, cs, es, norm)
    got = mdl.evaluate(cs, es)
    gen.need(isinstance(got, np.ndarray) and got.shape == (len(pts),),
             f"value has shape {getattr(got, 'shape', type(got))}, expected ({len(pts)},)")
    gen.need_close(got, g, "model value", scale)
    return tuple(float(f"{x:.6e}") for x in g)


def large(ch):
    """Sizes at which blocked / vectorized / special-cased code would differ."""
    n = ch.choose("npoints", [1, 2, 3, 7, 64, 100, 101, 255, 256, 257, 1000, 1025, 4099, 10001])
    m = ch.choose("nbasis", [1, 2, 5, 16, 17, 64])
    split = ch.choose("split", ["s", "p", "sp"])
    norm = ch.flag("normalize")
    mol = ch.flag("molecular")
    deriv = ch.flag("deriv")
    if n * m > 200000:
        return None
    ns = {"s": m, "p": 0, "sp": (m + 1) // 2}[split]
    pts = gen.points(str(n), 3)
    es = gen.generic(m, 0.05, 30.0, 7)
    cs = gen.generic(m, -1.0, 4.0, 9)
    if mol:
        xyz = gen.molecule("spread", 3, 2)
        basis = [(ns, m - ns), (m - ns, ns)]
        cs, es = np.concatenate((cs, cs[::-1])), np.concatenate((es, es[::-1] * 1.1))
        mdl = MolecularGaussianDensity(pts, xyz, np.array(basis), norm)
    else:
        xyz, basis = np.array([[0.1, -0.2, 0.3]]), [(ns, m - ns)]
        mdl = AtomicGaussianDensity(pts, xyz[0], ns, m - ns, norm)
    out = mdl.evaluate(cs, es, deriv=deriv)
    val = out[0] if deriv else out
    want, scale, wantd, dscale = vec(pts, xyz, basis, cs, es, norm)
    gen.need_close(val, want, "model value", scale, rtol=1e-9)
    if deriv:
        gen.need_close(out[1], wantd, "model gradient", dscale, rtol=1e-9)
    return n, m, split


def vec(pts, xyz, basis, cs, es, norm):
    """Vectorized reference (for sizes where the scalar one is slow)."""
    lay = refs.layout(basis)
    n, m = len(pts), len(lay)
    g, s = np.zeros(n), np.zeros(n)
    dg, ds = np.zeros((n, 2 * m)), np.zeros((n, 2 * m))
    for k, (j, kind) in enumerate(lay):
        r2 = np.sum((pts - xyz[j]) ** 2, axis=1)
        a = es[k]
        b = np.exp(-a * r2) * (r2 if kind == "p" else 1.0)
        if norm:
            b = b * ((a / np.pi) ** 1.5 if kind == "s" else 2 * a ** 2.5 / (3 * np.pi ** 1.5))
        q = (1.5 if kind == "s" else 2.5) if norm else 0.0
        g += cs[k] * b
        s += np.abs(cs[k] * b)
        dg[:, k], ds[:, k] = b, np.abs(b)
        dg[:, m + k] = cs[k] * b * (q / a - r2)
        ds[:, m + k] = np.abs(cs[k] * b) * (q / a + r2)
    return g, s, dg, ds


def dtypes(ch, deriv=None):
    """Element types a caller may hand in."""
    pt = ch.choose("points dtype", ["float64", "longdouble", "float32", "int64"])
    ct = ch.choose("coeffs dtype", ["float64", "longdouble", "float32", "int64"])
    et = ch.choose("expons dtype", ["float64", "longdouble", "float32", "int64"])
    ns = ch.choose("num_s", [0, 1, 2])
    np_ = ch.choose("num_p", [0, 1, 2] if ns else [1, 2])
    norm = ch.flag("normalize")
    dim = ch.choose("dim", [0, 3])
    if deriv is None:
        deriv = ch.flag("deriv")
    base = np.array([0, 1, 2, 1, 0, 3])
    pts = (base if dim == 0 else base.reshape(2, 3)).astype(pt)
    cens, basis = [np.zeros(max(dim, 1))], [(ns, np_)]
    if dim == 3 and ch.flag("molecule"):
        cens, basis = [np.array([1.0, 0.0, 1.0]), np.zeros(3)], [(ns, np_), (1, 1)]
        mdl = MolecularGaussianDensity(pts, np.array(cens), np.array(basis), norm)
    else:
        mdl = AtomicGaussianDensity(pts, None, ns, np_, norm)
    m = sum(a + b for a, b in basis)
    cs, es = np.array([2, 1, 3, 5, 4, 7][:m]).astype(ct), np.array([1, 2, 1, 3, 1, 2][:m]).astype(et)
    out = mdl.evaluate(cs, es, deriv=deriv)
    g, dg, scale, dscale = refs.model(pts, cens, basis, cs, es, norm)
    tol = 2e-5 if et == "float32" else 1e-9
    gen.need_close(out[0] if deriv else out, g, "model value", scale, rtol=tol)
    if deriv:
        gen.need_close(out[1], dg, "model gradient", dscale, rtol=tol)
    return pt, ct, et


def placed(ch):
    """Centres and points together far from the coordinate origin, and centres close to each other."""
    dim = ch.choose("dim", [0, 1, 2, 3])
    off = ch.choose("offset", [0.0, 40.0, -1e3, 1e5, 1e7])
    gap = ch.choose("gap", [0.0, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2])
    away = ch.choose("points from the centres", [0.0, 1e-6, 1e-3, 1.0, 1e4])
    nat = ch.choose("natoms", [1, 2, 3])
    kind = ch.choose("basis", [(1, 0), (0, 1), (1, 1)])
    norm = ch.flag("normalize")
    d = max(dim, 1)
    xyz = off + gap * np.arange(nat)[:, None] * np.array([1.0, -1.0, 0.5])[:d]
    pts = off + away * gen.points("signed", dim)
    m = sum(kind) * nat
    es, cs = gen.generic(m, 0.3, 3.0, 5) / max(away, gap, 1e-9) ** 2, gen.coeffs("positive", m)
    if nat == 1 and ch.flag("atomic"):
        return AtomicGaussianDensity(pts, xyz[0], *kind, norm), pts, list(xyz), [kind], cs, es, norm
    basis = [kind] * nat
    return MolecularGaussianDensity(pts, xyz, np.array(basis), norm), pts, list(xyz), basis, cs, es, norm


def scenarios(tier):
    thorough = tier == "thorough"
    pts = ["single", "origin", "signed", "far", "repeat", "tiny"] if thorough else \
        ["single", "origin", "far", "repeat"]
    expo = ["generic", "equal", "descending", "extreme", "zero"]
    coef = ["positive", "signs", "zeros", "huge", "none", "unit", "ones"]
    top = 5 if thorough else 3
    shapes = [(1, 0), (0, 1), (2, 1), (1, 3)] + ([(0, 2)] if thorough else [])

    def atomic(ch):
        return check_value(*atomic_case(ch, top, pts, expo, coef))

    def molecular(ch):
        return check_value(*molecular_case(
            ch, 4 if thorough else 3, shapes, ["origin", "far"] if thorough else ["origin"],
            ["generic", "extreme"], ["positive", "signs", "first-zero", "none"]))

    return [("atomic", atomic, None), ("molecular", molecular, None), ("large", large, None),
            ("big-molecule", lambda ch: check_value(*big_molecule(ch, 7 if thorough else 6)), 3 if thorough else 2),
            ("dtypes", dtypes, None), ("placed", lambda ch: check_value(*placed(ch)), None)]
