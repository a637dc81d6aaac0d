r"""Alphabets shared by the checks (fixed lattices; no sampling)."""
import numpy as np

from mc import refs

# deterministic "generic" numbers
_G = (np.arange(1, 4001) * 0.6180339887498949) % 1.0


def generic(n, lo, hi, start=0):
    """n generic numbers in [lo, hi)."""
    idx = (np.arange(n) + start) % len(_G)
    return lo + (hi - lo) * _G[idx]


def points(kind, dim):
    """Point sets by name; dim 0 means a 1D array of shape (N,), otherwise (N, dim)."""
    d = max(dim, 1)
    if kind == "single":
        p = generic(d, 0.2, 1.4, 3).reshape(1, d)
    elif kind == "pair":
        p = generic(2 * d, -1.0, 1.5, 5).reshape(2, d)
    elif kind == "origin":
        p = np.vstack((np.zeros((1, d)), generic(4 * d, 0.0, 2.0, 7).reshape(4, d)))
    elif kind == "signed":
        p = generic(6 * d, -3.0, 3.0, 11).reshape(6, d)
    elif kind == "far":
        p = np.vstack((generic(2 * d, 0.0, 0.5, 1).reshape(2, d), np.full((1, d), 40.0),
                       np.full((1, d), -1.0e3)))
    elif kind == "repeat":
        q = generic(d, 0.0, 1.0, 2).reshape(1, d)
        p = np.vstack((q, q, -q, q * 2, q))
    elif kind == "tiny":
        p = np.vstack((np.zeros((1, d)), np.full((1, d), 1e-9), np.full((1, d), 1e-3)))
    else:
        n = int(kind)
        p = generic(n * d, -2.0, 2.5, 13).reshape(n, d)
    return p[:, 0].copy() if dim == 0 else p


def expons(kind, m):
    if kind == "generic":
        return generic(m, 0.3, 4.0, 17)
    if kind == "equal":
        return np.full(m, 1.25)
    if kind == "ascending":
        return 0.1 * 2.7 ** np.arange(m)
    if kind == "descending":
        return (0.1 * 2.7 ** np.arange(m))[::-1].copy()
    if kind == "extreme":
        return np.array([1e-8, 1e10, 1e-3, 1e6, 0.5, 1e3, 1e-5, 1e8, 3.0, 1e12] * 8)[:m]
    if kind == "close":
        return 2.0 + 1e-7 * np.arange(m)
    if kind == "zero":
        e = generic(m, 0.3, 2.0, 19)
        e[0] = 0.0
        return e
    raise KeyError(kind)


def coeffs(kind, m):
    if kind == "positive":
        return generic(m, 0.5, 3.0, 23)
    if kind == "signs":
        return generic(m, 0.5, 3.0, 29) * (-1.0) ** np.arange(m)
    if kind == "zeros":
        c = generic(m, 0.5, 3.0, 31)
        c[::2] = 0.0
        return c
    if kind == "huge":
        return generic(m, 0.5, 3.0, 37) * 10.0 ** ((np.arange(m) % 5) * 4 - 8)
    if kind == "ones":
        return np.ones(m)
    if kind == "none":
        return np.zeros(m)
    if kind == "first-zero":        # all but the last function without weight
        c = generic(m, 0.5, 3.0, 31)
        c[:m // 2 + 1] = 0.0
        return c
    if kind == "unit":
        c = np.zeros(m)
        c[-1] = 1.0
        return c
    raise KeyError(kind)


def center(kind, dim):
    d = max(dim, 1)
    if kind == "none":
        return None
    if kind == "zero":
        return np.zeros(d)
    if kind == "offset":
        return generic(d, -1.0, 1.0, 41)
    if kind == "far":
        return np.full(d, 3.0)
    if kind == "last":
        c = np.zeros(d)
        c[-1] = 0.7
        return c
    raise KeyError(kind)


def molecule(kind, dim, natoms):
    """Coordinates (natoms, dim)."""
    d = max(dim, 1)
    if kind == "spread":
        return generic(natoms * d, -1.5, 1.5, 43).reshape(natoms, d)
    if kind == "coincident":
        c = generic(natoms * d, -1.5, 1.5, 47).reshape(natoms, d)
        c[-1] = c[0]
        return c
    if kind == "line":
        return np.outer(np.arange(natoms) * 1.1, np.ones(d))
    if kind == "far":
        c = generic(natoms * d, -1.5, 1.5, 53).reshape(natoms, d)
        c[0] += 30.0
        return c
    raise KeyError(kind)


def need(ok, msg):
    from mc.core import Violation
    if not ok:
        raise Violation(msg() if callable(msg) else msg)


def need_close(got, want, what, scale=None, rtol=1e-9, atol=1e-290):
    from mc.core import Violation
    if not refs.close(got, want, scale, rtol, atol):
        raise Violation(f"{what}: {refs.worst(got, want)}")


def raises(fn, types=(ValueError, TypeError)):
    """True if fn() raises one of types; any other exception propagates."""
    try:
        fn()
    except types:
        return True
    return False
