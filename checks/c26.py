r"""C26: removing redundant functions conserves coefficients and leaves well separated exponents."""
import itertools

import numpy as np

from bfit.greedy import remove_redundancies
from mc import gen

BOUNDS = {
    "quick": "every exponent sequence up to length 5 over 7 values around the threshold (near 1, near 1e6 and near the threshold itself) x 2 coefficient "
             "patterns x default and 2 other thresholds; groups of up to 40; triples at 11 x 11 distances around the threshold",
    "thorough": "every sequence up to length 6",
}
ALPHA = [1.0, 1.0004, 1.0008, 1.0016, 1.0012, 5.0, 0.9995]


def check(e, c, eps):
    ke, kc = e.copy(), c.copy()
    nc, ne = remove_redundancies(c, e) if eps is None else remove_redundancies(c, e, eps)
    lim = 1e-3 if eps is None else eps
    gen.need(np.array_equal(e, ke) and np.array_equal(c, kc), "arguments modified")
    gen.need(len(nc) == len(ne), "coefficients and exponents differ in number")
    gen.need_close(np.sum(nc), np.sum(c), "sum of coefficients", scale=np.sum(np.abs(c)), rtol=1e-12)
    # which inputs were kept: match exponents as a subsequence; coefficients must be explained by groups
    for i, j in itertools.combinations(range(len(ne)), 2):
        gen.need(abs(ne[i] - ne[j]) >= lim, f"exponents {ne[i]!r} and {ne[j]!r} kept within {lim}")
    pos = 0
    kept = []
    for x in ne:
        while pos < len(e) and e[pos] != x:
            pos += 1
        gen.need(pos < len(e), f"{list(ne)} is not a subsequence of {list(e)}")
        kept.append(pos)
        pos += 1
    lost = [k for k in range(len(e)) if k not in kept]
    opts = []
    for k in lost:
        near = [i for i, x in enumerate(ne) if abs(x - e[k]) < lim]
        gen.need(near, f"{e[k]!r} removed although no kept exponent is within {lim}")
        opts.append(near)
    if np.prod([len(o) for o in opts] or [1]) <= 5000:
        for assign in itertools.product(*opts):
            s = [c[k] for k in kept]
            for k, i in zip(lost, assign):
                s[i] = s[i] + c[k]
            if np.allclose(s, nc, rtol=1e-12, atol=1e-12):
                break
        else:
            gen.need(False, f"coefficients {list(nc)} do not collect {list(c)} into {list(ne)} from {list(e)}")
    if not lost:
        gen.need(np.array_equal(nc, c) and np.array_equal(ne, e), "nothing redundant, but something changed")
    return tuple(ne)


def sequences(ch, maxlen):
    n = ch.choose("length", list(range(0, maxlen + 1)))
    e = np.array([ch.choose(f"e{i}", ALPHA) for i in range(n)]) + ch.choose("offset", [0.0, 1e6, -0.999])
    eps = ch.choose("eps", [None, 5e-4, 2.0])
    ck = ch.choose("coeffs", ["powers", "signs"])
    c = 2.0 ** np.arange(n) if ck == "powers" else gen.generic(n, 1, 2, 5) * (-1.0) ** np.arange(n)
    return n, ck, eps, check(e, c, eps)


def boundary(ch):
    """Triples around the threshold: within it of the first, of the second, of both or of neither."""
    eps = ch.choose("eps", [None, 0.25, 1e-6])
    lim = 1e-3 if eps is None else eps
    steps = [0.0, 1e-3, 0.5, 0.999, 0.9999, 1.0001, 1.0005, 1.001, 1.5, 1.999, 2.001]
    e = 3.0 + lim * np.array([0.0, ch.choose("second", steps), ch.choose("third", steps)])
    e = e[list(ch.choose("order", list(itertools.permutations(range(3)))))]
    return eps, check(e, np.array([1.0, 2.0, 4.0]), eps)


def large(ch):
    n = ch.choose("size", [10, 25, 40])
    kind = ch.choose("pattern", ["all equal", "pairs", "two groups", "spread", "chain", "reversed chain", "tiled", "mirrored", "nested"])
    e = {"all equal": np.full(n, 2.0), "pairs": np.repeat(np.arange(1, n + 1), 2)[:n] * 1.0,
         "two groups": np.where(np.arange(n) % 2, 1.0, 2.0), "spread": 1.7 ** np.arange(n),
         "chain": 1.0 + 6e-4 * np.arange(n), "reversed chain": 1.0 + 6e-4 * np.arange(n)[::-1],
         "tiled": 1.0 + np.arange(n) % (n // 2), "mirrored": 1.0 + np.abs(np.arange(n) - n // 2),
         "nested": 1.0 + np.arange(n) % max(3, n // 3) + 6e-4 * (np.arange(n) // max(3, n // 3) % 3)}[kind]
    return kind, n, check(e, 1.0 + np.arange(n), None)


def scenarios(tier):
    return [("sequences", lambda ch: sequences(ch, 6 if tier == "thorough" else 5), None), ("large", large, None),
            ("boundary", boundary, None)]
