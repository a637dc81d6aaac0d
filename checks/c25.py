r"""C25: the greedy candidate generators produce exactly the documented initial guesses."""
import numpy as np

from bfit.greedy import get_next_choices, get_two_next_choices, pick_two_lose_one
from mc import gen

BOUNDS = {
    "quick": "3 generators x all exponent orderings over a 4-value alphabet up to length 3 x 3 coefficient "
             "patterns x 4 factors x 3 fill values; up to 40 functions in regular patterns",
    "thorough": "alphabet of 5 values up to length 5, 6 factors",
}
ASSUMPTIONS = ["candidates are compared as a collection; their order is not claimed"]


def one(factor, c, e, val):
    n = len(e)
    out = []
    for i in range(n + 1):
        x = e[0] / factor if i == 0 else e[-1] * factor if i == n else (e[i - 1] + e[i]) / 2
        out.append((c[:i] + [val] + c[i:], e[:i] + [x] + e[i:]))
    return out


def two(factor, c, e, val):
    out = []
    for i, (c1, e1) in enumerate(one(factor, c, e, val)):
        out += one(factor, c1, e1, val)[i:]
    return out


def lose(factor, c, e, val):
    out = []
    for c2, e2 in two(factor, c, e, val):
        for j in range(len(e2)):
            out.append((c2[:j] + c2[j + 1:], e2[:j] + e2[j + 1:]))
    return out


GEN = {"pick-one": (get_next_choices, one), "pick-two": (get_two_next_choices, two),
       "pick-two-lose-one": (pick_two_lose_one, lose)}


def same_collection(got, want):
    """Equal as multisets up to rounding."""
    if len(got) != len(want):
        return False
    if all(np.allclose(a, b, rtol=1e-12, atol=0) for a, b in zip(got, want)):
        return True
    left = list(want)
    for a in got:
        for i, b in enumerate(left):
            if np.allclose(a, b, rtol=1e-12, atol=0):
                del left[i]
                break
        else:
            return False
    return not left


def check(ch, name, e, ck, factor, val):
    fn, ref = GEN[name]
    n = len(e)
    c = {"generic": gen.generic(n, -1.0, 3.0, 3), "zeros": np.zeros(n), "big": 1e6 + np.arange(n)}[ck]
    e = np.array(e, dtype=float)
    kc, ke = c.copy(), e.copy()
    got = fn(factor, c, e) if val is None else fn(factor, c, e, val)
    want = [np.array(x + y) for x, y in ref(factor, list(c), list(e), 100.0 if val is None else val)]
    for g in got:
        gen.need(isinstance(g, np.ndarray) and g.ndim == 1, "a candidate is not a flat array")
        gen.need(len(g) == len(want[0]), f"candidate of length {len(g)}, expected {len(want[0])}")
    gen.need(len(got) == len(want), f"{len(got)} candidates, expected {len(want)}")
    gen.need(same_collection(got, want), f"{name} from {list(ke)} factor {factor}: got {got[:3]}..., expected {want[:3]}")
    gen.need(np.array_equal(c, kc) and np.array_equal(e, ke), "arguments modified")
    return len(got)


def generators(ch, alphabet, maxlen, factors):
    name = ch.choose("generator", list(GEN))
    n = ch.choose("size", list(range(1, maxlen + 1)))
    e = [ch.choose(f"e{i}", alphabet) for i in range(n)]
    factor = ch.choose("factor", factors)
    val = ch.choose("fill", [None, 0.0, 3.5])
    ck = ch.choose("coeffs", ["generic", "zeros", "big"])
    return name, n, tuple(e), factor, check(ch, name, e, ck, factor, val)


def large(ch):
    name = ch.choose("generator", list(GEN))
    n = ch.choose("size", [6, 7, 8, 12, 20, 33, 40])
    if name == "pick-two-lose-one" and n > 12:
        return None
    kind = ch.choose("exponents", ["ascending", "descending", "generic", "equal"])
    factor = ch.choose("factor", [2.0, 100.0])
    return name, n, check(ch, name, list(gen.expons(kind, n)), "generic", factor, None)


def scales(ch):
    """Exponents and coefficients of any size."""
    name = ch.choose("generator", list(GEN))
    n = ch.choose("size", [1, 2, 3, 4])
    e = np.array(gen.expons(ch.choose("exponents", ["ascending", "generic"]), n))
    e = e * ch.choose("scale", [1e-200, 1e-12, 1e-6, 1e6, 1e13, 1e200])
    return name, n, check(ch, name, list(e), ch.choose("coeffs", ["generic", "big"]), ch.choose("factor", [1e-6, 1.0, 1e6]),
                          ch.choose("fill", [None, 1e-9, 1e9, -1.0]))


def dtypes(ch):
    """Element types a caller may hand in."""
    name = ch.choose("generator", list(GEN))
    n = ch.choose("size", [1, 2, 3, 5])
    cd = ch.choose("coeffs dtype", ["int64", "float32", "longdouble", "float64"])
    ed = ch.choose("exponents dtype", ["int64", "float32", "longdouble", "float64"])
    val = ch.choose("fill", [100.0, 0.25])
    factor = ch.choose("factor", [2.0, 0.5])
    c, e = (3 + np.arange(n)).astype(cd), (1 + 2 * np.arange(n) + np.arange(n) % 2).astype(ed)
    got = GEN[name][0](factor, c, e, val)
    want = [np.array(x + y) for x, y in GEN[name][1](factor, list(map(float, c)), list(map(float, e)), val)]
    gen.need(len(got) == len(want) and same_collection([np.asarray(g, dtype=float) for g in got], want),
             f"{name} from {e}, {c}: got {got[:3]}..., expected {want[:3]}")
    return name, n, cd, ed


def scenarios(tier):
    t = tier == "thorough"
    al = [0.5, 3.0, 3.0, 700.0, 1e-4] if t else [0.5, 3.0, 700.0, 1e-4]
    return [("generators", lambda ch: generators(ch, al, 5 if t else 3, [2.0, 1.5, 100.0, 0.5, 1.0, 1e6] if t else
                                                 [2.0, 100.0, 0.5]), None), ("large", large, None), ("scales", scales, None),
            ("dtypes", dtypes, None)]
