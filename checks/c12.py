r"""C12: a grid built for a molecule encloses every atom with the requested margin."""
import numpy as np

from bfit.grid import CubicGrid
from mc import gen

BOUNDS = {
    "quick": "11 molecules (1..5 atoms; off-centre, linear, planar, coincident, heavy/light) x 4 "
             "rigid placements x 5 charge patterns (also fractional) x 3 spacings x 3 extensions x rotate on/off",
    "thorough": "8 rigid placements, 5 spacings, 5 extensions",
}
ASSUMPTIONS = ["the box may be rounded by one grid spacing on either side"]

MOL = {
    "atom": [[0.3, -0.2, 1.0]],
    "pair": [[0, 0, 0], [0, 0, 1.4]],
    "pair-far": [[5, 5, 5], [5, 8, 5]],
    "linear3": [[0, 0, 0], [0.5, 0.5, 0.5], [3, 3, 3]],
    "bent": [[0, 0, 0], [1.8, 0, 0], [-0.5, 1.7, 0]],
    "asym": [[0, 0, 0], [4, 0, 0], [0, 1, 0], [0, 0, 0.5]],
    "tetra": [[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]],
    "coincident": [[1, 2, 3], [1, 2, 3]],
    "nearly centred": [[1, 0, 0], [-1.0003, 0.0002, 0], [0, 1.3, 0.0001], [0.0001, -1.3, 0]],
    "tiny": [[0, 0, 0], [0.003, 0, 0], [0, 0.001, 0.0005]],
    "long": [[0, 0, 0], [700.0, 0, 0]],
    "tall": [[3, 1, -400.0], [3, 1.5, 500.0], [2.5, 1, 0]],
    "five": [[0, 0, 0], [6, 0.1, 0], [0.3, 2, 0], [1, 1, 1], [-0.4, 0.2, -0.9]],
}


def placement(k):
    a, b, c = [(0, 0, 0), (0.7, 0.2, -0.4), (0, 0, 1.1), (2.0, -1.0, 0.5), (0.3, 0.3, 0.3), (1.5, 0, 0),
               (0, 1.5, 0), (-0.9, 2.2, 1.7)][k]
    rx = np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])
    ry = np.array([[np.cos(b), 0, np.sin(b)], [0, 1, 0], [-np.sin(b), 0, np.cos(b)]])
    rz = np.array([[np.cos(c), -np.sin(c), 0], [np.sin(c), np.cos(c), 0], [0, 0, 1]])
    return rx @ ry @ rz, np.array([[0, 0, 0], [1, -2, 3], [10, 0, 0], [-4, 4, 0.5], [0, 0, 0], [2, 2, 2],
                                   [-7, 0, 1], [0, 3, 0]][k], dtype=float)


def charges(kind, n):
    return {"equal": np.ones(n), "mixed": np.array([8.0, 1, 1, 6, 26])[:n],
            "heavy-last": np.r_[np.ones(n - 1), 80.0], "int": np.arange(1, n + 1),
            "pseudo": np.array([0.4, 1.9, 3.7, 2.5, 0.9])[:n]}[kind]


def build(ch, nplace, spacings, extensions, molecules=tuple(MOL)[:-3] + ("five",)):
    mk = ch.choose("molecule", list(molecules))
    pk = ch.choose("placement", nplace)
    ck = ch.choose("charges", ["equal", "mixed", "heavy-last", "int", "pseudo"])
    sp = ch.choose("spacing", spacings)
    ex = ch.choose("extension", extensions)
    rot = ch.flag("rotate")
    r, t = placement(pk)
    xyz = np.array(MOL[mk], dtype=float) @ r.T + t
    z = charges(ck, len(xyz))
    kx, kz = xyz.copy(), z.copy()
    g = CubicGrid.from_molecule(z, xyz, spacing=sp, extension=ex, rotate=rot)
    gen.need(np.array_equal(xyz, kx) and np.array_equal(z, kz), "arguments modified")
    axes = np.asarray(g.axes)
    gen.need_close(axes @ axes.T, sp * sp * np.eye(3), "axes are not orthogonal with length spacing",
                   scale=sp * sp, rtol=1e-9)
    pts = g.points
    # recover shape and origin from the points only
    u = (pts - pts[0]) @ np.linalg.inv(axes)
    gen.need(bool(np.all(np.abs(u - np.rint(u)) < 1e-6)), "points are not on the lattice of the axes")
    ui = np.rint(u).astype(int)
    lo, hi = ui.min(axis=0), ui.max(axis=0)
    gen.need(bool(np.all(lo == 0)), "first point is not the corner of the lattice")
    gen.need(int(np.prod(hi + 1)) == len(pts) and len(np.unique(ui, axis=0)) == len(pts),
             "lattice has holes or repeated points")
    frac = (xyz - pts[0]) @ np.linalg.inv(axes)          # atoms in lattice units
    below = frac.min(axis=0) * sp
    above = (hi - frac.max(axis=0)) * sp
    slack = sp * (1 + 1e-6) + 1e-9
    gen.need(bool(np.all(below >= ex - slack) and np.all(above >= ex - slack)),
             f"atoms reach within {below} / {above} of the boundary, extension {ex}, spacing {sp}")
    gen.need(bool(np.all(below <= ex + slack) and np.all(above <= ex + slack)),
             f"margins {below} / {above} exceed the extension {ex}, spacing {sp}")
    if rot:
        com = (z[:, None] * xyz).sum(axis=0) / z.sum()
        d = xyz - com
        it = sum(q * (np.dot(v, v) * np.eye(3) - np.outer(v, v)) for q, v in zip(z, d))
        m = (axes / sp) @ it @ (axes / sp).T
        off = m - np.diag(np.diag(m))
        gen.need(bool(np.all(np.abs(off) <= 1e-7 * (np.abs(it).max() + 1e-12))),
                 "rows of the axes are not principal axes of the molecule")
    else:
        gen.need_close(axes, sp * np.eye(3), "axes without rotation", scale=sp, rtol=1e-12)
    gen.need_close(g.integrate(np.ones(len(pts))), sp ** 3 * len(pts), "volume", rtol=1e-9)
    return mk, pk, rot, len(pts)


def gaussians(ch):
    """What the grid is for: atom-centred Gaussians integrate to their charges."""
    mk = ch.choose("molecule", [m for m in MOL if m not in ("long", "tall")])
    pk = ch.choose("placement", 4)
    rot = ch.flag("rotate")
    r, t = placement(pk)
    xyz = np.array(MOL[mk], dtype=float) @ r.T + t
    z = charges("mixed", len(xyz))
    g = CubicGrid.from_molecule(z, xyz, spacing=0.45, extension=3.5, rotate=rot)
    dens = np.zeros(len(g))
    for q, c in zip(z, xyz):
        dens += q * (1.3 / np.pi) ** 1.5 * np.exp(-1.3 * np.sum((g.points - c) ** 2, axis=1))
    gen.need_close(g.integrate(dens), z.sum(), "charge on the grid", rtol=1e-3)
    return mk, pk, rot


def defaults(ch):
    mk = ch.choose("molecule", ["atom", "bent", "pair"])
    xyz = np.array(MOL[mk], dtype=float)
    z = charges("mixed", len(xyz))
    a = CubicGrid.from_molecule(z, xyz)
    b = CubicGrid.from_molecule(z, xyz, 0.2, 5.0, True)
    gen.need(np.array_equal(a.points, b.points), "defaults differ from spacing 0.2, extension 5, rotate")
    return mk, len(a)


def scenarios(tier):
    t = tier == "thorough"
    return [("build", lambda ch: build(ch, 8 if t else 4, [0.3, 0.5, 0.75, 1.0, 1.3] if t else
                                       [0.5, 0.75, 1.0], [0.9, 1.0, 2.2, 3.0, 5.0] if t else
                                       [0.8, 2.2, 3.0]), None),
            ("long", lambda ch: build(ch, 1, [0.5, 0.75], [0.5, 1.0], ("long", "tall")), None),
            ("gaussians", gaussians, None), ("defaults", defaults, None)]
