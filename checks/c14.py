r"""C14: Slater densities follow the wavefunction file and integrate to the electron count."""
import os

import numpy as np

from checks import c13
from mc import gen, slaterref

SlaterAtoms = c13.SlaterAtoms
BOUNDS = {
    "quick": "every shipped atom and ion x 3 density kinds x 8 point sets; orbitals one by one; "
             "Slater functions n=1..7 x 9 exponents",
    "thorough": "as quick, with every pair of calls (kind, points) in sequence",
}
ASSUMPTIONS = ["shipped orbitals are normalized to 1e-4 (7 printed digits)"]


def pool():
    return [x for x in slaterref.shipped() if x not in (("cs", "cation"), ("ag", "anion"))]


def quadrature():
    """Nodes and weights for int_0^inf f(r) dr, geometric panels of 12-point Gauss-Legendre."""
    x, w = np.polynomial.legendre.leggauss(12)
    edges = np.concatenate(([0.0], np.geomspace(1e-5, 60.0, 60)))
    r, q = [], []
    for a, b in zip(edges[:-1], edges[1:]):
        r.append(0.5 * (b - a) * x + 0.5 * (a + b))
        q.append(0.5 * (b - a) * w)
    return np.concatenate(r), np.concatenate(q)


POINTS = {
    "origin": np.array([0.0]),
    "one": np.array([0.7]),
    "near": np.array([0.0, 1e-7, 1e-5, 1e-3, 0.01, 0.02]),
    "mixed": np.array([2.0, 0.0, 0.3, 0.3, 15.0, 1.0, 0.001]),
    "far": np.array([10.0, 30.0, 80.0, 400.0]),
    "int": np.array([0, 1, 2, 3, 7]),
    "long": np.linspace(0, 6, 13).astype(np.longdouble),
    "tiny": np.array([3e-9, 1e-6, 1e-4, 2e-3]),
    "reversed": np.geomspace(2e-6, 250.0, 24)[::-1],
    "strided": np.linspace(0.05, 6.0, 30)[::5],
    "single": np.array([0.0, 0.1, 0.7, 3.3, 20.0], dtype=np.float32),
    "many": np.linspace(0.0, 12.0, 1030),
}


def atom(el, kind):
    return SlaterAtoms(el, anion=kind == "anion", cation=kind == "cation")


def weights(ref, mode):
    n, e = np.array(ref["occ"], dtype=float), np.array(ref["energies"])
    v = np.exp(-(e - e.max()) ** 2)
    return {"total": n, "valence": n * v, "core": n * (1 - v)}[mode]


def density(ch, npts):
    el, kind = ch.choose("file", pool())
    mode = ch.choose("mode", ["total", "valence", "core", "default"])
    pk = ch.choose("points", npts)
    r = POINTS[pk].copy()
    ref = c13.ref(el, kind)
    val, _ = slaterref.orbital_values(ref, r)
    w = weights(ref, "total" if mode == "default" else mode)
    want = (val ** 2 @ w) / (4 * np.pi)
    a = atom(el, kind)
    got = a.atomic_density(r) if mode == "default" else a.atomic_density(r, mode)
    gen.need(got.shape == r.shape, f"density has shape {got.shape}")
    gen.need(np.array_equal(r, POINTS[pk]), "points modified")
    # the linear combinations cancel: the error scale is set by the sums of magnitudes
    mag = slaterref.orbital_scales(ref, r)[0] ** 2 / (4 * np.pi)
    sc = mag @ w + 1e-6 * mag @ np.array(ref["occ"], dtype=float)
    gen.need_close(got, want, f"{mode} density of {kind} {el} at {pk}", scale=sc, rtol=1e-8, atol=1e-290)
    gen.need(bool(np.all(got >= 0)), f"negative {mode} density")
    return el, kind, mode, pk, float(f"{float(got[0]):.6e}")


def laws(ch):
    el, kind = ch.choose("file", pool())
    a, ref = atom(el, kind), c13.ref(el, kind)
    r, q = quadrature()
    q = q * 4 * np.pi * r ** 2
    t, v, c = (a.atomic_density(r, m) for m in ("total", "valence", "core"))
    n = c13.electrons(el, kind)
    gen.need_close(np.sum(q * t), n, f"electrons of {kind} {el}", rtol=1e-4)
    gen.need_close(v + c, t, "core + valence", rtol=1e-10)
    gen.need_close(np.sum(q * v), np.sum(weights(ref, "valence")), "valence electrons", rtol=1e-3, atol=1e-4)
    e = np.array(ref["energies"])
    homo = int(np.argmax(e))
    # the highest occupied orbital is all valence
    phi = a.phi_matrix(r)
    gen.need(phi.shape == (len(r), len(e)), "phi_matrix shape")
    norms = (q / (4 * np.pi)) @ phi ** 2
    gen.need_close(norms, np.ones(len(e)), f"orbital norms of {kind} {el}", rtol=2e-4)
    gen.need(bool(np.all(v * 4 * np.pi >= ref["occ"][homo] * phi[:, homo] ** 2 * (1 - 1e-9) - 1e-12)),
             "the highest occupied orbital is not part of the valence density")
    val, _ = slaterref.orbital_values(ref, r)
    gen.need_close(phi, val, "orbitals", scale=np.max(np.abs(val), axis=0)[None, :] * np.ones_like(phi),
                   rtol=1e-9)
    # overlap of different orbitals of one subshell vanishes
    for i, oi in enumerate(ref["orbitals"]):
        for j in range(i):
            if ref["orbitals"][j][-1] == oi[-1]:
                s = float(np.sum(q / (4 * np.pi) * phi[:, i] * phi[:, j]))
                gen.need(abs(s) < 2e-3, f"orbitals {oi} and {ref['orbitals'][j]} overlap by {s}")
    gen.need(gen.raises(lambda: a.atomic_density(r, "all")), "unknown mode accepted")
    gen.need(gen.raises(lambda: a.atomic_density(r[:, None]), (ValueError, TypeError, IndexError)),
             "2D points accepted")
    return el, kind, n


def sto(ch):
    """One normalized Slater function and batches of them."""
    n = ch.choose("n", [1, 2, 3, 4, 5, 6, 7])
    z = ch.choose("zeta", [1e-2, 0.2, 0.75, 1.0, 2.5, 11.0, 40.0, 110.0])
    m = ch.choose("batch", [1, 2, 5])
    pk = ch.choose("points", list(POINTS))
    r = POINTS[pk]
    num = np.array([[(n + i - 1) % 7 + 1] for i in range(m)])
    ex = np.array([[z * 1.5 ** i] for i in range(m)])
    got = SlaterAtoms.radial_slater_orbital(ex, num, r)
    gen.need(got.shape == (len(r), m), f"shape {got.shape}")
    rl = np.asarray(r, dtype=np.longdouble)
    for i in range(m):
        k, a = int(num[i, 0]), np.longdouble(ex[i, 0])
        f = np.longdouble(1)
        for t in range(2, 2 * k + 1):
            f = f * t
        want = (2 * a) ** k * np.sqrt(2 * a / f) * rl ** (k - 1) * np.exp(-a * rl)
        gen.need_close(got[:, i], want, f"Slater function n={k} zeta={float(a)}", rtol=1e-10,
                       atol=1e-300)
    return n, z, m, pk


def sequences(ch):
    """Every pair of calls on one object gives what each gives alone."""
    el, kind = ch.choose("file", pool()[::9])
    a = atom(el, kind)
    ops = [("total", "near"), ("valence", "near"), ("core", "mixed"), ("total", "many"), ("deriv", "mixed"),
           ("kinetic", "near"), ("phi", "mixed")]

    def call(o, obj):
        r = POINTS[o[1]]
        return {"deriv": lambda: obj.derivative_density(r), "phi": lambda: obj.phi_matrix(r),
                "kinetic": lambda: obj.positive_definite_kinetic_energy(r)}.get(
                    o[0], lambda: obj.atomic_density(r, o[0]))()
    x, y, z = (ch.choose(f"call{i}", ops) for i in range(3))
    first = call(x, a)
    keep = first.copy()
    second = call(y, a)
    third = call(z, a)
    gen.need(np.array_equal(first, keep), "an earlier result changed")
    for o, v in ((x, first), (y, second), (z, third)):
        gen.need_close(v, call(o, atom(el, kind)), f"{o} after other calls", rtol=1e-13)
    return el, kind, x, y, z


def scenarios(tier):
    return [("density", lambda ch: density(ch, list(POINTS)), None), ("laws", laws, None), ("sto", sto, None),
            ("sequences", sequences, None)]
