r"""C05: basis bookkeeping -- which centre, prefactor and distance belongs to each function."""
import numpy as np

from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
from mc import gen, refs

BOUNDS = {
    "quick": "every molecule of 1..4 centres with each centre holding one of 6 (s,p) shapes, dims "
             "0..3, every function index, out-of-range indices; up to 12 centres with up to 71 functions each",
    "thorough": "1..5 centres, 8 shapes",
}


def bookkeeping(ch, nmax, shapes):
    dim = ch.choose("dim", [0, 1, 2, 3])
    nat = ch.choose("natoms", list(range(1, nmax + 1)))
    basis = [ch.choose(f"basis{i}", shapes) for i in range(nat)]
    pts, xyz = gen.points("origin", dim), gen.molecule("spread", dim, nat)
    mdl = MolecularGaussianDensity(pts, xyz, np.array(basis), False)
    lay = refs.layout(basis)
    gen.need(mdl.nbasis == len(lay), f"nbasis {mdl.nbasis}, expected {len(lay)}")
    gen.need(mdl.natoms == nat, f"natoms {mdl.natoms}, expected {nat}")
    pref = [1.5 if k == "s" else 2.5 for _, k in lay]
    gen.need(np.array_equal(np.asarray(mdl.prefactor), pref),
             f"prefactor {mdl.prefactor}, expected {pref}")
    gen.need(np.asarray(mdl.radii).shape == (nat, len(pts)), "radii shape")
    for j in range(nat):
        gen.need_close(np.asarray(mdl.radii)[j] ** 2, refs.dist2(pts, xyz[j]), f"radii of {j}",
                       rtol=1e-10, atol=1e-28)
    got = [int(mdl.assign_basis_to_center(i)) for i in range(len(lay))]
    gen.need(got == [j for j, _ in lay], f"centres of functions {got}, expected {[j for j, _ in lay]}")
    for i in (len(lay), len(lay) + 1, len(lay) + 7):
        gen.need(gen.raises(lambda: mdl.assign_basis_to_center(i)), f"index {i} accepted")
    # the index map agrees with where evaluate() puts that function
    m = len(lay)
    es = gen.expons("generic", m)
    for i in range(m):
        c = np.zeros(m)
        c[i] = 1.0
        j, kind = lay[i]
        want = [refs.basis_value(kind, r2, es[i], False) for r2 in refs.dist2(pts, xyz[j])]
        gen.need_close(mdl.evaluate(c, es), want, f"function {i} on its centre", rtol=1e-9)
    gen.need(mdl.points is pts or np.array_equal(mdl.points, pts), "points")
    return dim, tuple(basis)


def atomic(ch):
    dim = ch.choose("dim", [0, 1, 2, 3, 4])
    ck = ch.choose("center", ["none", "zero", "offset", "far", "last"])
    pk = ch.choose("points", ["single", "origin", "signed", "far", "repeat", "tiny"])
    ns, np_ = ch.choose("shape", [(1, 0), (0, 1), (3, 2), (0, 4), (5, 0)])
    cen, pts = gen.center(ck, dim), gen.points(pk, dim)
    mdl = AtomicGaussianDensity(pts, cen, ns, np_)
    want = refs.dist2(pts, np.zeros(max(dim, 1)) if cen is None else cen)
    gen.need(np.asarray(mdl.radii).shape == (len(pts),), "radii shape")
    gen.need_close(np.asarray(mdl.radii) ** 2, want, "radii", rtol=1e-10, atol=1e-28)
    gen.need(bool(np.all(np.asarray(mdl.radii) >= 0)), "negative distance")
    gen.need((mdl.num_s, mdl.num_p, mdl.nbasis, mdl.natoms) == (ns, np_, ns + np_, 1), "counts")
    gen.need(np.array_equal(np.asarray(mdl.prefactor), [1.5] * ns + [2.5] * np_), "prefactor")
    gen.need(np.array_equal(mdl.points, pts), "points")
    return dim, ck, pk


def long(ch, sizes):
    """Many centres in regular patterns."""
    dim = ch.choose("dim", [1, 3])
    nat = ch.choose("natoms", sizes)
    pat = ch.choose("pattern", [[(1, 0)], [(2, 1)], [(0, 3)], [(1, 0), (0, 1)], [(3, 2), (1, 0)],
                                [(2, 0), (2, 0), (0, 1), (4, 4)], [(1, 2), (2, 1), (1, 2)], [(7, 0), (1, 1)], [(33, 2), (0, 1)], [(1, 0), (40, 31)]])
    basis = [pat[i % len(pat)] for i in range(nat)]
    if ch.flag("last differs"):
        basis[-1] = (5, 3)
    pts, xyz = gen.points("origin", dim), gen.molecule("spread", dim, nat)
    mdl = MolecularGaussianDensity(pts, xyz, np.array(basis), ch.flag("normalize"))
    lay = refs.layout(basis)
    gen.need((mdl.nbasis, mdl.natoms) == (len(lay), nat), f"counts {(mdl.nbasis, mdl.natoms)}")
    gen.need(np.array_equal(np.asarray(mdl.prefactor), [1.5 if k == "s" else 2.5 for _, k in lay]), "prefactor")
    got = [int(mdl.assign_basis_to_center(i)) for i in range(len(lay))]
    gen.need(got == [j for j, _ in lay], f"centres of functions {got}, expected {[j for j, _ in lay]}")
    gen.need(gen.raises(lambda: mdl.assign_basis_to_center(len(lay))), "index past the end accepted")
    want = np.array([refs.dist2(pts, x) for x in xyz])
    gen.need_close(np.asarray(mdl.radii) ** 2, want, "radii", rtol=1e-10, atol=1e-28)
    return dim, nat, len(pat)


def scenarios(tier):
    shapes = [(1, 0), (0, 1), (2, 1), (1, 2), (3, 0), (0, 2)]
    if tier == "thorough":
        return [("molecular", lambda ch: bookkeeping(ch, 5, shapes + [(4, 3), (1, 1)]), None),
                ("long", lambda ch: long(ch, [5, 6, 7, 9, 12, 20]), None), ("atomic", atomic, None)]
    return [("molecular", lambda ch: bookkeeping(ch, 4, shapes), None),
            ("long", lambda ch: long(ch, [5, 6, 8, 12]), None), ("atomic", atomic, None)]
