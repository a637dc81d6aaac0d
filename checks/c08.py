r"""C08: divergences vanish at equality, are non-negative when they must be, and are ordered."""
import itertools

import numpy as np

from bfit.measure import KLDivergence, SquaredDifference, TsallisDivergence
from mc import gen

BOUNDS = {
    "quick": "all pairs of distributions on 2..4 points with weights from a 5-value alphabet (4 positive ones for the "
             "model), normalized to equal mass (2 masses); 11 Tsallis exponents (to 1e-8 from one); 4 common scalings",
    "thorough": "distributions on up to 6 points",
}
ASSUMPTIONS = ["sums over points stand for integrals: any non-negative quadrature gives the same laws"]
VAL = [0.0, 0.02, 0.6, 2.5, 40.0]
ALPHAS = (0.5, 0.9, 0.9999, 1 - 1e-6, 1 - 1e-8, 1 + 1e-8, 1 + 1e-6, 1.0001, 1.5, 2.0, 3.0)


def laws(ch, nmax):
    n = ch.choose("n", list(range(2, nmax + 1)))
    f0 = np.array([ch.choose(f"f{i}", VAL) for i in range(n)])
    mass = ch.choose("mass", [1.0, 7.0])
    if f0.sum() == 0.0:
        return None
    f0 = f0 / f0.sum() * mass
    kl = KLDivergence(mask_value=0.0)
    ts = {a: TsallisDivergence(alpha=a, mask_value=0.0) for a in ALPHAS}
    sq = SquaredDifference()
    gs = np.array(list(itertools.product(VAL[1:], repeat=n)))
    gs = gs / gs.sum(axis=1)[:, None] * mass
    shape = gs.shape
    f, g = np.tile(f0, len(gs)), gs.ravel()

    def total(v):
        return v.reshape(shape).sum(axis=1)

    def at(bad):
        i = int(np.argmax(bad))
        return f"for {f0} {gs[i]}"

    k = kl.evaluate(f, g)
    bad = total(k) < -1e-12 * mass
    gen.need(not bad.any(), lambda: f"KL is negative {at(bad)}")
    s = sq.evaluate(f, g)
    gen.need(bool(np.all(s >= 0)), "squared difference is negative")
    gen.need(np.allclose(s, sq.evaluate(g, f), rtol=1e-13, atol=0), "squared difference is not symmetric")
    apart = np.max(np.abs(f0 - gs), axis=1) > 1e-3 * mass
    bad = apart & ~(total(k) > 0)
    gen.need(not bad.any(), lambda: f"KL vanishes {at(bad)}")
    bad = apart & ~(total(s) > 0)
    gen.need(not bad.any(), lambda: f"squared difference vanishes {at(bad)}")
    last, slack0 = None, 0.0
    x = np.abs(np.log(np.where(f > 0, f, g) / g))
    for a in ALPHAS:
        v = ts[a].evaluate(f, g)
        bad = total(v) < -1e-10 * mass
        gen.need(not bad.any(), lambda: f"Tsallis({a}) is negative {at(bad)}")
        slack = 1e-9 * (np.abs(k) + np.abs(v) + f) + 1e-15 * f / abs(a - 1)
        if a > 1:
            gen.need(bool(np.all(v >= k - slack)), f"Tsallis({a}) does not upper-bound KL")
        else:
            gen.need(bool(np.all(v <= k + slack)), f"Tsallis({a}) does not lower-bound KL")
        if last is not None:
            gen.need(bool(np.all(v >= last - slack - slack0)), f"Tsallis decreases with its exponent at {a}")
        last, slack0 = v, slack
        if abs(a - 1) < 1e-3:
            gen.need(bool(np.all(np.abs(v - k) <= 1e-4 * f * x * x * np.exp(1e-4 * x) + (1e-9 + 1e-15 / abs(a - 1)) * f)),
                     "Tsallis does not tend to KL as its exponent tends to one")
    rev = np.arange(len(f))[::-1]
    for nm, m, power, loss in [("KL", kl, 1, 0.0), ("squared", sq, 2, 0.0)] + \
            [(f"Tsallis({a})", t, 1, 3e-15 / abs(a - 1)) for a, t in ts.items()]:
        v = m.evaluate(f, g)
        for c in (3.0, 1e-3, 1e9, 1e-12):
            gen.need_close(m.evaluate(c * f, c * g), c ** power * v, f"{nm} of a density and model scaled by {c}",
                           scale=c ** power * (np.abs(v) + f ** power), rtol=1e-11 + loss)
        gen.need_close(m.evaluate(f[rev], g[rev]), v[rev], f"{nm} of permuted points", scale=np.abs(v[rev]), rtol=1e-13)
        v, d = m.evaluate(f0, f0.copy(), deriv=True)
        gen.need(bool(np.all(np.abs(v) <= 1e-13 * np.maximum(f0, 1e-300))), f"{nm} of equal arguments is {v}")
        if nm == "squared":
            gen.need(bool(np.all(d == 0)), "derivative at the minimum")
        else:
            gen.need(bool(np.all(np.abs(d[f0 > 0] + 1.0) < 1e-12)), f"{nm} derivative at equality is {d}")
    return n, mass, round(float(k.sum()), 6)


def scenarios(tier):
    return [("laws", lambda ch: laws(ch, 6 if tier == "thorough" else 4), None)]
