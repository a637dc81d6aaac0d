r"""C06: every measure is its documented pointwise formula, including masks and zeros."""
import math

import numpy as np

from bfit.measure import KLDivergence, SquaredDifference, TsallisDivergence
from mc import gen, refs

BOUNDS = {
    "quick": "all pairs (density, model) from a 15 x 17 value lattice (zeros, masks, subnormals, "
             "huge, negative), in every one of 4 array embeddings; 4 masks, 3 negative values, "
             "7 alphas, 4 dtypes; all arrays of length <= 3 over a 5-value alphabet",
    "thorough": "all arrays of length <= 4 over a 6-value alphabet, all masks and alphas",
}
ASSUMPTIONS = ["the density is non-negative (fitting classes reject negative densities)"]

F = [0.0, 1e-300, 1e-30, 1e-18, 1e-12, 1e-6, 0.3, 0.5, 1.0, 1.5, 2.0, 7.25, 1e3, 1e10, 1e100]
G = [0.0, 1e-300, 1e-30, 1e-18, 9.999e-13, 1e-12, 1.001e-12, 1e-6, 0.25, 0.5, 1.0, 1.5, 3.0,
     7.25, 1e3, 1e10, 1e100]
MASKS = [0.0, 1e-18, 1e-12, 0.25]
ALPHAS = [1.001, 1.5, 2.0, 3.7, 0.5, 0.25, 0.999]
SMALL = [0.0, 1e-13, 0.5, 1.0, 3.0, 1e-9]


def measures(ch):
    kind = ch.choose("measure", ["kl", "tsallis", "square"])
    if kind == "square":
        return kind, SquaredDifference(), (lambda f, g: refs.squared(f, g)), None
    mask = ch.choose("mask", MASKS + ["default"])
    kw = {} if mask == "default" else {"mask_value": mask}
    mv = 1e-12 if mask == "default" else mask
    if kind == "kl":
        m = KLDivergence(**kw)
        gen.need(m.mask_value == mv and m.negative_val == 100000.0, "constructor arguments")
        return kind, m, (lambda f, g: refs.kl(f, g, mv)), mv
    al = ch.choose("alpha", ALPHAS + ["default"])
    if al != "default":
        kw["alpha"] = al
    av = 1.001 if al == "default" else al
    m = TsallisDivergence(**kw)
    gen.need(m.mask_value == mv and m.alpha == av, "constructor arguments")
    return kind, m, (lambda f, g: refs.tsallis(f, g, av, mv)), mv


def scale(kind, f, g, v, mask):
    """Magnitude of the summands (cancellation near f = g)."""
    if kind == "square":
        return abs(v)
    return f + abs(v)


def check(kind, m, ref, mask, f, g, which):
    f, g = np.array(f, dtype=float), np.array(g, dtype=float)
    want = []
    for a, b in zip(f, g):
        try:
            want.append(ref(float(a), float(b))[which])
        except OverflowError:
            want.append(math.inf)
    want = np.array(want)
    out = m.evaluate(f, g, deriv=True) if which else m.evaluate(f, g)
    got = out[which] if which else out
    if which:
        gen.need(isinstance(out, tuple) and len(out) == 2, "deriv=True must return a pair")
        plain = m.evaluate(f, g, deriv=False)
        same = (plain == out[0]) | (np.isnan(plain) & np.isnan(out[0]))
        gen.need(bool(np.all(same)), "value differs with and without deriv")
    gen.need(isinstance(got, np.ndarray) and got.shape == f.shape, "shape of the result")
    sel = np.isfinite(want) & (np.abs(want) < 1e290)
    if which:
        sc = np.abs(want)
        if kind == "square":
            sc = np.abs(want)
        if kind == "tsallis":
            sc = sc * (1 + np.abs(np.log(np.maximum(sc, 1e-300))))
    else:
        sc = np.array([scale(kind, a, b, w, mask) for a, b, w in zip(f, g, want)])
        if kind == "tsallis":
            sc = sc + f / abs(m.alpha - 1.0)
    gen.need_close(got[sel], want[sel], f"{kind} {'derivative' if which else 'value'} at f,g="
                   f"{list(zip(f[sel][:6], g[sel][:6]))}", scale=sc[sel], rtol=1e-11, atol=1e-305)
    gen.need(not np.any(np.isnan(got)), f"{kind} is NaN at {list(zip(f[np.isnan(got)], g[np.isnan(got)]))[:4]}")
    return got


def lattice(ch, which):
    kind, m, ref, mask = measures(ch)
    f = ch.choose("density", F)
    emb = ch.choose("embedding", ["row", "single", "rev", "tile"])
    if emb == "single":
        g = [ch.choose("model", G)]
    elif emb == "row":
        g = G
    elif emb == "rev":
        g = G[::-1]
    else:
        g = G * 31
    got = check(kind, m, ref, mask, [f] * len(g), g, which)
    return kind, mask, f, float(f"{got[0]:.6e}") if np.isfinite(got[0]) else str(got[0])


def arrays(ch, n, alphabet, which):
    kind, m, ref, mask = measures(ch)
    k = ch.choose("length", list(range(1, n + 1)))
    f = [ch.choose(f"f{i}", alphabet) for i in range(k)]
    gs = [[]]
    for _ in range(k):
        gs = [x + [y] for x in gs for y in alphabet]
    last = None
    for g in gs:
        last = check(kind, m, ref, mask, f, g, which)
    return kind, mask, tuple(f), float(np.sum(last[np.isfinite(last)]))


def negative(ch):
    """Models with negative entries: KL returns its constant, the others stay pointwise."""
    kind = ch.choose("measure", ["kl", "square", "tsallis"])
    neg = ch.choose("negative", [-1e-300, -1e-13, -0.5, -1e5])
    pos = ch.choose("position", [0, 1, 2, "all", "two"])
    g = np.array([0.5, 1.0, 0.0])
    if pos == "all":
        g[:] = neg
    elif pos == "two":
        g[[0, 2]] = neg
    else:
        g[pos] = neg
    f = np.array([1.0, ch.choose("f1", [0.0, 2.0]), 0.3])
    deriv = ch.flag("deriv")
    if kind == "kl":
        nv = ch.choose("negative value", [100000.0, np.inf, 7.0])
        m = KLDivergence(negative_val=nv) if nv != 100000.0 else KLDivergence()
        out = m.evaluate(f, g, deriv=deriv)
        for o in (out if deriv else (out,)):
            gen.need(o.shape == f.shape and bool(np.all(o == nv)), f"KL of a negative model: {o}")
        return kind, pos, nv
    m = SquaredDifference() if kind == "square" else TsallisDivergence(alpha=1.5)
    out = m.evaluate(f, g, deriv=deriv)
    v, d = out if deriv else (out, None)
    ref = [refs.squared(a, b) if kind == "square" else refs.tsallis(a, b, 1.5, 1e-12)
           for a, b in zip(f, g)]
    gen.need_close(v, [r[0] for r in ref], kind, rtol=1e-11, scale=1.0)
    if deriv:
        gen.need_close(d, [r[1] for r in ref], kind + " derivative", rtol=1e-11, scale=1.0)
    return kind, pos, neg


def undefined(ch, which):
    """A model value that is not a number never counts as agreement with the density."""
    kind, m, ref, _ = measures(ch)
    pos = ch.choose("position", [[0], [1], [2], [0, 2], [0, 1, 2]])
    f = np.array([1.0, ch.choose("f1", [0.0, 2.0]), 0.3])
    g = np.array([0.5, 1.0, 2.0])
    want = np.array([ref(float(a), float(b))[which] for a, b in zip(f, g)])
    g[pos] = np.nan
    out = m.evaluate(f, g, deriv=True)[which]
    gen.need(bool(np.all(np.isnan(out[pos]))), f"{kind} of an undefined model {g}: {out}")
    keep = [i for i in range(3) if i not in pos]
    gen.need_close(out[keep], want[keep], f"{kind} beside an undefined model value", scale=2.0, rtol=1e-11)
    return kind, tuple(pos)


def mixed(ch):
    """A negative model value next to an undefined one still gives the constant everywhere."""
    g = np.array([ch.choose(f"g{i}", [0.5, np.nan, -0.5, -1e-300, np.inf]) for i in range(3)])
    if not np.any(g < 0):
        return None
    nv = ch.choose("negative value", [100000.0, np.inf, 7.0])
    out = KLDivergence(negative_val=nv).evaluate(np.array([1.0, 0.0, 0.3]), g, deriv=True)
    for o in out:
        gen.need(o.shape == (3,) and bool(np.all(o == nv)), f"KL of the model {g}: {o}")
    return tuple(map(str, g)), nv


def extended(ch, which):
    """Values outside the range of double precision in extended precision arrays."""
    kind = ch.choose("measure", ["kl", "tsallis", "square"])
    if np.finfo(np.longdouble).maxexp <= np.finfo(float).maxexp:
        return None
    u = np.longdouble(10) ** ch.choose("magnitude", [-1000, -400, 400, 1000])
    a, b = ch.choose("density", [1.0, 0.5, 3.0]), ch.choose("model", [1.0, 0.25, 2.0])
    f, g = np.array([a * u, a]), np.array([b * u, b])
    m = {"kl": KLDivergence(mask_value=0.0), "tsallis": TsallisDivergence(1.5, 0.0), "square": SquaredDifference()}[kind]
    ref = {"kl": lambda x, y: refs.kl(x, y, 0.0), "tsallis": lambda x, y: refs.tsallis(x, y, 1.5, 0.0),
           "square": refs.squared}[kind]
    out = m.evaluate(f, g, deriv=True)[which] / np.array([{"kl": (u, 1), "tsallis": (u, 1), "square": (u * u, u)}[kind][which], 1])
    w = ref(a, b)[which]
    gen.need_close(np.asarray(out, dtype=float), [w, w], f"{kind} of {f}, {g}", scale=a + b, rtol=1e-10)
    return kind, a, b


def dtypes(ch, which):
    kind, m, ref, mask = measures(ch)
    ft = ch.choose("density dtype", ["float64", "longdouble", "float32", "int64"])
    gt = ch.choose("model dtype", ["float64", "longdouble", "float32", "int64"])
    f = np.array([1, 2, 3, 0, 5]).astype(ft)
    g = np.array([2, 2, 1, 3, 0]).astype(gt)
    out = m.evaluate(f, g, deriv=True)[which]
    want = np.array([ref(float(a), float(b))[which] for a, b in zip(f, g)])
    ok = np.isfinite(want)
    # alpha - 1 in single precision loses digits when alpha is close to one
    tol = 2e-2 if "float32" in (ft, gt) else 1e-10
    gen.need_close(np.asarray(out, dtype=float)[ok], want[ok], f"{kind} on {ft}/{gt}", scale=5.0,
                   rtol=tol)
    return kind, ft, gt


def scenarios(tier, which=0):
    n, al = (4, SMALL) if tier == "thorough" else (2, SMALL)
    return [("lattice", lambda ch: lattice(ch, which), None),
            ("arrays", lambda ch: arrays(ch, n, al, which), None),
            ("negative", negative, None),
            ("undefined", lambda ch: undefined(ch, which), None),
            ("mixed", mixed, None), ("extended", lambda ch: extended(ch, which), None),
            ("dtypes", lambda ch: dtypes(ch, which), None)]
