r"""C02: the model's gradient is the exact derivative of its value, column by column."""
import numpy as np

from bfit.model import AtomicGaussianDensity
from checks import c01
from mc import gen, refs

BOUNDS = {
    "quick": "as C01 (num_s,num_p in 0..3; 1..3 centres, 4..6 with up to 2 deviations; 5 exponent and 4 coefficient patterns)",
    "thorough": "num_s,num_p in 0..5; 1..4 centres of 5 shapes, 4..7 with up to 3 deviations",
}
ASSUMPTIONS = ["gradient entries compared to 1e-9 of the sum of absolute summands"]


def check_grad(mdl, pts, cens, basis, cs, es, norm):
    g, dg, scale, dscale = refs.model(pts, cens, basis, cs, es, norm)
    plain = mdl.evaluate(cs, es, deriv=False)
    out = mdl.evaluate(cs, es, deriv=True)
    gen.need(isinstance(out, (tuple, list)) and len(out) == 2, "deriv=True must return a pair")
    gen.need(isinstance(plain, np.ndarray), "deriv=False must return one array")
    m = len(cs)
    gen.need(out[1].shape == (len(pts), 2 * m),
             f"gradient has shape {out[1].shape}, expected {(len(pts), 2 * m)}")
    gen.need_close(out[0], g, "value with deriv=True", scale)
    gen.need_close(plain, out[0], "value with and without deriv", scale, rtol=1e-12)
    gen.need_close(out[1][:, :m], dg[:, :m], "d/d coeffs", dscale[:, :m])
    gen.need_close(out[1][:, m:], dg[:, m:], "d/d expons", dscale[:, m:])
    return tuple(float(f"{x:.5e}") for x in dg[:2].ravel())


def finite_difference(ch):
    """The reference derivative itself is checked against the code's own values."""
    ns = ch.choose("num_s", [0, 1, 2])
    np_ = ch.choose("num_p", [0, 1, 2] if ns else [1, 2])
    norm = ch.flag("normalize")
    pts = gen.points("signed", 3)
    mdl = AtomicGaussianDensity(pts, gen.center("offset", 3), ns, np_, norm)
    m = ns + np_
    x = np.concatenate((gen.coeffs("signs", m), gen.expons("generic", m)))
    k = ch.choose("parameter", 2 * m)
    h = 1e-5
    xp, xm = x.copy(), x.copy()
    xp[k] += h
    xm[k] -= h
    num = (mdl.evaluate(xp[:m], xp[m:]) - mdl.evaluate(xm[:m], xm[m:])) / (2 * h)
    got = mdl.evaluate(x[:m], x[m:], deriv=True)[1][:, k]
    gen.need_close(got, num, f"gradient column {k} vs central difference of the values",
                   scale=np.abs(num) + 1.0, rtol=1e-7)
    return ns, np_, norm, k


def scenarios(tier):
    thorough = tier == "thorough"
    pts = ["single", "origin", "signed", "far", "repeat", "tiny"] if thorough else ["origin", "far"]
    expo = ["generic", "equal", "descending", "extreme", "zero"]
    coef = ["positive", "signs", "zeros", "huge", "none"]
    top = 5 if thorough else 3
    shapes = [(1, 0), (0, 1), (2, 1), (1, 3)] + ([(0, 2)] if thorough else [])

    def atomic(ch):
        return check_grad(*c01.atomic_case(ch, top, pts, expo, coef))

    def molecular(ch):
        return check_grad(*c01.molecular_case(
            ch, 4 if thorough else 3, shapes, ["origin"], ["generic", "extreme"],
            ["positive", "signs", "first-zero", "none", "unit"] if thorough else ["signs", "first-zero", "none"]))

    return [("atomic", atomic, None), ("molecular", molecular, None),
            ("finite-difference", finite_difference, None), ("sizes", c01.large, None),
            ("big-molecule", lambda ch: check_grad(*c01.big_molecule(ch, 7 if thorough else 6)), 3 if thorough else 2),
            ("dtypes", lambda ch: c01.dtypes(ch, True), None),
            ("placed", lambda ch: check_grad(*c01.placed(ch)), None)]
