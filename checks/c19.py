r"""C19: histories, stopping and success of a fixed-point run."""
import contextlib
import io
import time

import numpy as np

from bfit.fit import KLDivergenceFPI
from mc import fitref, gen

BOUNDS = {
    "quick": "10 problems x 3 parameter selections; every stopping iteration 1..6 provoked through each of the "
             "three thresholds separately and jointly x every maxiter 0..7; display on/off; failing problems",
    "thorough": "24 problems, stopping iterations 1..12, maxiter 0..13",
}
ASSUMPTIONS = ["when the last allowed iteration meets the parameter thresholds but not the objective "
               "threshold either answer for success is accepted"]
NEVER = dict(c_threshold=-1.0, e_threshold=-1.0, d_threshold=-1.0)
PROBLEMS = [("radial", 2, 1, "slater", True), ("radial", 1, 0, "slater", False),
            ("cubic", 2, 0, "slater", False), ("molecule2", 1, 1, "noisy", False),
            ("cubic-center", 1, 1, "zeros", False), ("radial", 0, 2, "noisy", True),
            ("clenshaw", 3, 0, "slater", True), ("molecule3", 1, 0, "slater", False),
            ("radial", 2, 2, "model", True), ("molecule2", 2, 0, "flat", False)]
_CACHE = {}


def make(key):
    kind, ns, np_, dens, sph = key
    p = fitref.Problem(kind, ns, np_, True, small=kind not in fitref.RADIAL)
    f = np.asarray(p.density(dens), dtype=float)
    return p, f, KLDivergenceFPI(p.grid, f, p.model, spherical=sph), p.params("generic")


def sel(ch):
    return ch.choose("optimize", [(True, True), (True, False), (False, True)])


def trajectory(key, opt, n):
    """Parameters after 0..n iterations, from separate runs, and the full history."""
    k = (key, opt, n)
    if k not in _CACHE:
        p, f, fit, (c, e) = make(key)
        runs = []
        for i in range(n + 1):
            t0 = time.time()
            runs.append(fit.run(c.copy(), e.copy(), *opt, maxiter=i, **NEVER))
            runs[i]["took"] = 1.1 * (time.time() - t0) + 0.05
        _CACHE[k] = runs
    return _CACHE[k]


def same(a, b, what):
    gen.need(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True), f"{what}: {a} differs from {b}")


def prefix(ch, probs, n):
    """A run with maxiter=k is the prefix of every longer run."""
    key = ch.choose("problem", probs)
    opt = sel(ch)
    runs = trajectory(key, opt, n)
    p, f, fit, (c, e) = make(key)
    k = ch.choose("maxiter", list(range(n + 1)))
    r = runs[k]
    gen.need(r["time"] > (0.0 if k else -1.0) and r["time"] < r["took"],
             f"reported time {r['time']} of a call that took less than {r['took']} s")
    gen.need(len(r["fun"]) == k and len(r["performance"]) == k,
             f"{len(r['fun'])} objective values and {len(r['performance'])} performance rows after {k} iterations")
    if k == 0:
        same(r["coeffs"], c, "coefficients after no iteration")
        same(r["exps"], e, "exponents after no iteration")
        gen.need(not r["success"], "success without any iteration")
        return key, opt, 0
    full = runs[n]
    same(r["fun"], full["fun"][:k], "objective history")
    same(r["performance"], full["performance"][:k], "performance history")
    same(r["fun"], np.asarray(r["performance"])[:, 4], "objective and performance columns")
    good = np.array(fit.goodness_of_fit(r["coeffs"], r["exps"]), dtype=float)
    gen.need_close(r["performance"][-1], good, "last performance row", scale=np.abs(good) + 1.0, rtol=1e-12)
    gen.need(not r["success"], "success although no threshold was met within maxiter")
    if k < n:
        nxt = fit.run(np.asarray(r["coeffs"]).copy(), np.asarray(r["exps"]).copy(), *opt, maxiter=1, **NEVER)
        gen.need_close(nxt["coeffs"], runs[k + 1]["coeffs"], "continuing from the result", rtol=1e-12)
        gen.need_close(nxt["exps"], runs[k + 1]["exps"], "continuing from the result", rtol=1e-12)
    return key, opt, k, float(f"{full['fun'][k - 1]:.5e}")


def stopping(ch, probs, n):
    """The run ends exactly at the first iteration that meets the documented thresholds."""
    key = ch.choose("problem", probs)
    opt = sel(ch)
    runs = trajectory(key, opt, n)
    cs = [np.asarray(r["coeffs"], dtype=float) for r in runs]
    es = [np.asarray(r["exps"], dtype=float) for r in runs]
    fun = np.asarray(runs[n]["fun"], dtype=float)
    dc = [float(np.max(np.abs(cs[i] - cs[i - 1]))) for i in range(1, n + 1)]
    de = [float(np.max(np.abs(es[i] - es[i - 1]))) for i in range(1, n + 1)]
    dd = [np.inf] + [float(abs(fun[i] - fun[i - 1])) for i in range(1, n)]
    via = ch.choose("via", ["params", "objective", "c-only", "e-only", "all"])
    j = ch.choose("at", n)                           # provoke a stop at (or near) iteration j + 1
    up = 1.0000001
    th = {"params": (dc[j] * up, de[j] * up, -1.0), "objective": (-1.0, -1.0, dd[j] * up if j else 1e-300),
          "c-only": (dc[j] * up, -1.0, -1.0), "e-only": (-1.0, de[j] * up, -1.0),
          "all": (dc[j] * up, de[j] * up, dd[j] * up if j else 1e-300)}[via]
    stop = None
    for i in range(n):
        if (dc[i] <= th[0] and de[i] <= th[1]) or dd[i] <= th[2]:
            stop = i + 1
            break
    # a limit far away only where the thresholds end the run
    mx = ch.choose("maxiter", list(range(n + 1)) + ([] if stop is None else [500, 10 ** 6]))
    p, f, fit, (c, e) = make(key)
    r = fit.run(c, e, *opt, maxiter=mx, c_threshold=th[0], e_threshold=th[1], d_threshold=th[2])
    want = mx if stop is None else min(stop, mx)
    # thresholds recomputed from rounded differences: skip the ambiguous comparisons
    for i in range(want):
        for d, t in ((dc[i], th[0]), (de[i], th[1]), (dd[i], th[2])):
            if t > 0 and abs(d - t) <= 1e-9 * t:
                return None
    got = len(r["fun"])
    gen.need(got == want, f"{got} iterations, expected {want} (thresholds {th} by {via}, maxiter {mx})")
    if want:
        same(r["coeffs"], runs[want]["coeffs"], "coefficients at the stop")
        same(r["exps"], runs[want]["exps"], "exponents at the stop")
        i = want - 1
        par, obj = dc[i] <= th[0] and de[i] <= th[1], dd[i] <= th[2]
        if not (par or obj):
            gen.need(not r["success"], "success although no threshold was met")
        if obj or (par and want < mx):
            gen.need(bool(r["success"]), f"no success although thresholds were met in {want} of {mx} iterations")
    gen.need(isinstance(bool(r["success"]), bool) and r["success"] in (True, False), "success is not a bool")
    return key, opt, via, want, bool(r["success"])


def display(ch, probs):
    """disp changes what is printed and nothing else."""
    key = ch.choose("problem", probs)
    opt = sel(ch)
    mx = ch.choose("maxiter", [0, 1, 4])
    p, f, fit, (c, e) = make(key)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        a = fit.run(c, e, *opt, maxiter=mx, disp=False)
    gen.need(out.getvalue() == "", "output although display is off")
    with contextlib.redirect_stdout(out):
        b = fit.run(c, e, *opt, maxiter=mx, disp=True)
    text = out.getvalue()
    gen.need(len(text) > 0, "nothing displayed")
    rows = [x for x in text.splitlines() if x.startswith("|")]
    gen.need(len(rows) == len(a["fun"]) + 1, f"{len(rows) - 1} rows displayed for {len(a['fun'])} iterations")
    gen.need(set(a) == set(b), "keys differ")
    for k in a:
        if k != "time":
            same(a[k], b[k], k)
    return key, opt, mx


def failing(ch):
    """Degenerate problems never claim success with unusable parameters."""
    kind = ch.choose("kind", ["function sees no point", "masked everywhere", "all coefficients zero",
                              "underflow everywhere", "huge exponent"])
    mx = ch.choose("maxiter", [1, 2, 3, 50])
    opt = sel(ch)
    p = fitref.Problem("radial", 2, 0, True)
    f = np.asarray(p.density("slater"), dtype=float)
    mask = 0.0
    c, e = p.params("generic")
    if kind == "function sees no point":
        p = fitref.Problem("cubic-center", 2, 0, True, small=True)
        f, e = np.asarray(p.density("slater"), dtype=float), np.array([1.0, 1e7])
    elif kind == "masked everywhere":
        mask = 1e6
    elif kind == "all coefficients zero":
        c = np.zeros(2)
    elif kind == "underflow everywhere":
        p = fitref.Problem("cubic-center", 2, 0, True, small=True)
        f, e = np.asarray(p.density("slater"), dtype=float), np.array([2e7, 1e7])
    else:
        e = np.array([1.0, 1e300])
    fit = KLDivergenceFPI(p.grid, f, p.model, mask_value=mask)
    with np.errstate(all="ignore"):
        r = fit.run(c, e, *opt, maxiter=mx)
    fin = bool(np.all(np.isfinite(r["coeffs"])) and np.all(np.isfinite(r["exps"])))
    gen.need(len(r["fun"]) <= mx, "more iterations than allowed")
    gen.need(fin or not r["success"], f"success with parameters {r['coeffs']} {r['exps']}")
    gen.need(np.isfinite(r["fun"][-1]) or not r["success"], f"success with objective {r['fun'][-1]}")
    return kind, mx, opt, fin, bool(r["success"])


def reuse(ch, probs):
    """Runs of one object do not influence each other."""
    key = ch.choose("problem", probs)
    p, f, fit, (c, e) = make(key)
    first = None
    for i in range(3):
        opt = ch.choose(f"run{i}", [(True, True), (True, False), (False, True), "raise"])
        if opt == "raise":
            gen.need(gen.raises(lambda: fit.run(c[:-1], e)), "too few coefficients accepted")
            gen.need(gen.raises(lambda: fit.run(c, e, False, False)), "nothing to optimize accepted")
            continue
        a = fit.run(c, e, *opt, maxiter=3)
        b = make(key)[2].run(c.copy(), e.copy(), *opt, maxiter=3)
        for k in a:
            if k != "time":
                same(a[k], b[k], f"{k} of run {i} of a used and of a fresh object")
        first = first or a
    return key, None if first is None else float(f"{first['fun'][-1]:.5e}")


def scenarios(tier):
    t = tier == "thorough"
    probs = PROBLEMS + [(k, 2, 2, d, k in fitref.RADIAL) for k in fitref.GRIDS for d in ("slater", "noisy")] \
        if t else PROBLEMS
    n = 12 if t else 6
    few = PROBLEMS if t else PROBLEMS[:5]
    return [("prefix", lambda ch: prefix(ch, probs, n), None), ("stopping", lambda ch: stopping(ch, few, n), None),
            ("display", lambda ch: display(ch, probs), None), ("failing", failing, None),
            ("reuse", lambda ch: reuse(ch, few), None)]
