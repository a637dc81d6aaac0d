r"""C07: the second output of every measure is the derivative of the first w.r.t. the model."""
import numpy as np

from bfit.measure import KLDivergence, SquaredDifference, TsallisDivergence
from checks import c06
from mc import gen

BOUNDS = c06.BOUNDS
ASSUMPTIONS = c06.ASSUMPTIONS


def slope(ch):
    """The derivative output against a central difference of the code's own values."""
    kind = ch.choose("measure", ["square", "kl", "tsallis"])
    mask = 1e-12
    if kind == "square":
        m = SquaredDifference()
    elif kind == "kl":
        mask = ch.choose("mask", [0.0, 1e-12, 1e-3])
        m = KLDivergence(mask_value=mask)
    else:
        mask = ch.choose("mask", [0.0, 1e-12, 1e-3])
        m = TsallisDivergence(alpha=ch.choose("alpha", c06.ALPHAS), mask_value=mask)
    f = ch.choose("density", [0.0, 1e-3, 0.3, 1.0, 4.0, 50.0])
    g = np.array([0.01, 0.1, 0.3, 0.9, 1.0, 1.1, 4.0, 60.0])
    fa = np.full(len(g), f)
    h = 1e-5 * g
    num = (m.evaluate(fa, g + h) - m.evaluate(fa, g - h)) / (2 * h)
    got = m.evaluate(fa, g, deriv=True)[1]
    if kind in ("kl", "tsallis") and f == 0.0:
        num = np.zeros(len(g))
    gen.need_close(got, num, f"{kind} derivative at f={f}", scale=np.abs(num) + 1e-2 * (f + g),
                   rtol=1e-5)
    return kind, mask, f


def scenarios(tier):
    return c06.scenarios(tier, which=1) + [("slope", slope, None)]
