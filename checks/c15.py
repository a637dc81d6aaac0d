r"""C15: density gradient and kinetic energy density of Slater atoms."""
import numpy as np

from checks import c13, c14
from mc import gen, slaterref

SlaterAtoms = c13.SlaterAtoms
BOUNDS = {
    "quick": "every shipped atom and ion x 8 point sets, integrals against the file's kinetic "
             "energy, central differences; derivative of Slater functions n=1..7 x 9 exponents",
}
BOUNDS["thorough"] = BOUNDS["quick"]
ASSUMPTIONS = ["at r=0 the derivative is defined as zero", "kinetic energy integral to 2e-4 relative"]
ANG = {"S": 0.0, "P": 2.0, "D": 6.0, "F": 12.0}


def pointwise(ch):
    el, kind = ch.choose("file", c14.pool())
    pk = ch.choose("points", list(c14.POINTS))
    what = ch.choose("what", ["gradient", "kinetic", "phi"])
    r = c14.POINTS[pk].copy()
    ref = c13.ref(el, kind)
    val, der = slaterref.orbital_values(ref, r)
    occ = np.array(ref["occ"], dtype=float)
    rl = np.asarray(r, dtype=np.longdouble)
    zero = np.abs(rl) < 1e-10
    der[zero, :] = 0.0
    mv, md = slaterref.orbital_scales(ref, r)
    a = c14.atom(el, kind)
    if what == "phi":
        got, want = a.phi_matrix(r, deriv=True), der
        sc = md
    elif what == "gradient":
        got, want = a.derivative_density(r), (2 * val * der) @ occ / (4 * np.pi)
        sc = (2 * mv * md) @ occ / (4 * np.pi)
    else:
        ang = np.array([ANG[o[-1]] for o in ref["orbitals"]])
        cen = ang[None, :] * (val / np.where(zero, 1, rl)[:, None]) ** 2
        cen[zero, :] = 0.0
        want = (der ** 2 + cen) @ occ / (8 * np.pi)
        got = a.positive_definite_kinetic_energy(r)
        mv[zero, :] = 0.0
        sc = (md ** 2 + ang[None, :] * (mv / np.where(zero, 1, rl)[:, None]) ** 2) @ occ / (8 * np.pi)
        gen.need(bool(np.all(got >= 0)), "negative kinetic energy density")
    gen.need(np.shape(got) == np.shape(want), f"shape {np.shape(got)}, expected {np.shape(want)}")
    gen.need_close(got, want, f"{what} of {kind} {el} at {pk}", scale=sc, rtol=1e-8, atol=1e-290)
    gen.need(np.array_equal(r, c14.POINTS[pk]), "points modified")
    return el, kind, pk, what


def laws(ch):
    el, kind = ch.choose("file", c14.pool())
    a, ref = c14.atom(el, kind), c13.ref(el, kind)
    r, q = c14.quadrature()
    t = float(np.sum(q * 4 * np.pi * r ** 2 * a.positive_definite_kinetic_energy(r)))
    gen.need_close(t, ref["kinetic"], f"kinetic energy of {kind} {el}", rtol=2e-4)
    g = a.derivative_density(r)
    n = c13.electrons(el, kind)
    # integration by parts: int 4 pi r^3 rho' = -3 N
    gen.need_close(np.sum(q * 4 * np.pi * r ** 3 * g), -3.0 * n, "integral of r rho'", rtol=2e-4)
    x = np.array([0.05, 0.3, 0.9, 1.7, 3.0])
    h = 1e-5 * x
    num = (a.atomic_density(x + h) - a.atomic_density(x - h)) / (2 * h)
    gen.need_close(a.derivative_density(x), num, "central difference of the density",
                   scale=np.abs(num) + a.atomic_density(x), rtol=1e-6)
    return el, kind, round(t, 2)


def sto(ch):
    n = ch.choose("n", [1, 2, 3, 4, 5, 6, 7])
    z = ch.choose("zeta", [1e-2, 0.2, 0.75, 1.0, 2.5, 11.0, 40.0, 110.0])
    m = ch.choose("batch", [1, 2, 5])
    pk = ch.choose("points", list(c14.POINTS))
    r = c14.POINTS[pk]
    num = np.array([[(n + i - 1) % 7 + 1] for i in range(m)])
    ex = np.array([[z * 1.5 ** i] for i in range(m)])
    got = SlaterAtoms.derivative_radial_slater_type_orbital(ex, num, r)
    gen.need(got.shape == (len(r), m), f"shape {got.shape}")
    rl = np.asarray(r, dtype=np.longdouble)
    zero = np.abs(rl) < 1e-10
    for i in range(m):
        k, a = int(num[i, 0]), np.longdouble(ex[i, 0])
        f = np.longdouble(1)
        for t in range(2, 2 * k + 1):
            f = f * t
        norm = (2 * a) ** k * np.sqrt(2 * a / f)
        s = norm * rl ** (k - 1) * np.exp(-a * rl)
        with np.errstate(all="ignore"):
            p = (k - 1) / rl
        sc = np.where(zero, 0, (np.where(zero, 0, p) + a) * s)
        want = np.where(zero, 0, (np.where(zero, 0, p) - a) * s)
        gen.need_close(got[:, i], want, f"derivative n={k} zeta={float(a)}", scale=sc, rtol=1e-10,
                       atol=1e-300)
    return n, z, m, pk


def scenarios(tier):
    return [("pointwise", pointwise, None), ("laws", laws, None), ("sto", sto, None)]
