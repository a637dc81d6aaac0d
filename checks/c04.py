r"""C04: after any history of resizes and evaluations a model equals a freshly built one."""
import numpy as np

from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
from mc import gen, refs

BOUNDS = {
    "quick": "every sequence of up to 3 steps over 13 operations (8 resizes, 3 rejected resizes, "
             "rejected evaluation, repeat) x 2 evaluation modes, 3 initial sizes, normalized or not, "
             "1D and 3D points; sizes up to 262",
    "thorough": "every sequence of up to 4 steps",
}

OPS = [("resize", 1, 0), ("resize", 0, 1), ("resize", 2, 0), ("resize", 3, 0), ("resize", 1, 2),
       ("resize", 2, 1), ("resize", 0, 3), ("resize", 4, 3),
       ("bad", 2.0, 1), ("bad", 1, 2.0), ("bad", "2", 1), ("wrongsize",), ("again",)]


def observe(mdl, pts, cen, ns, np_, norm, mode):
    m = ns + np_
    gen.need((mdl.num_s, mdl.num_p, mdl.nbasis, mdl.natoms) == (ns, np_, m, 1),
             f"counts are {(mdl.num_s, mdl.num_p, mdl.nbasis)}, expected {(ns, np_, m)}")
    gen.need(np.array_equal(np.asarray(mdl.prefactor), [1.5] * ns + [2.5] * np_),
             f"prefactor {mdl.prefactor} for {ns} s and {np_} p")
    fresh = AtomicGaussianDensity(pts, cen, ns, np_, norm)
    gen.need(np.array_equal(mdl.points, pts), "points changed")
    gen.need(np.array_equal(mdl.radii, fresh.radii), "radii differ from those of a fresh model")
    if hasattr(fresh, "coord"):
        gen.need(np.array_equal(mdl.coord, fresh.coord), f"the centre is {mdl.coord}, of a fresh model {fresh.coord}")
    es = gen.expons("generic" if mode else "descending", m)
    cs = gen.coeffs("signs" if mode else "positive", m)
    g, dg, scale, dscale = refs.model(pts, [cen], [(ns, np_)], cs, es, norm)
    out = mdl.evaluate(cs, es, deriv=bool(mode))
    gen.need_close(out[0] if mode else out, g, f"value after resize to {(ns, np_)}", scale)
    if mode:
        gen.need_close(out[1], dg, f"gradient after resize to {(ns, np_)}", dscale)
    return out[0] if mode else out


def history(ch, depth):
    dim, norm = ch.choose("dim,normalize", [(3, True), (0, False)])
    ns, np_ = ch.choose("initial", [(1, 0), (2, 1), (0, 2)])
    pts, cen = gen.points("origin", dim), gen.center("offset", dim)
    mdl = AtomicGaussianDensity(pts, cen, ns, np_, norm)
    keep = []
    for step in range(depth):
        op = ch.choose(f"op{step}", OPS)
        if op[0] == "resize":
            mdl.change_numb_s_and_numb_p(op[1], op[2])
            ns, np_ = op[1], op[2]
        elif op[0] == "bad":
            gen.need(gen.raises(lambda: mdl.change_numb_s_and_numb_p(op[1], op[2])),
                     f"non-integer size {op[1:]} accepted")
        elif op[0] == "wrongsize":
            k = ns + np_ + 1
            gen.need(gen.raises(lambda: mdl.evaluate(np.ones(k), np.ones(k))),
                     f"{k} parameters accepted by a model of {ns + np_} functions")
        mode = ch.choose(f"eval{step}", [0, 1])
        val = observe(mdl, pts, cen, ns, np_, norm, mode)
        keep.append((val, val.copy()))
    for a, b in keep:
        gen.need(np.array_equal(a, b), "a value returned earlier changed afterwards")
    return ns, np_, norm, dim


def many(ch):
    """Resizes to and from many functions."""
    norm = ch.flag("normalize")
    pts, cen = gen.points("origin", 3), gen.center("offset", 3)
    sizes = [(2, 1), (33, 0), (0, 35), (20, 20), (70, 3), (3, 140), (260, 2)]
    now = ch.choose("initial", sizes)
    mdl = AtomicGaussianDensity(pts, cen, *now, norm)
    for step in range(2):
        now = ch.choose(f"size{step}", sizes)
        mdl.change_numb_s_and_numb_p(*now)
        m = sum(now)
        es, cs = np.geomspace(0.05, 30.0, m)[::-1].copy(), gen.coeffs("signs", m)
        g, dg, scale, dscale = refs.model(pts, [cen], [now], cs, es, norm)
        out = mdl.evaluate(cs, es, deriv=True)
        gen.need_close(out[0], g, f"value after resize to {now}", scale)
        gen.need_close(out[1], dg, f"gradient after resize to {now}", dscale)
        gen.need(np.array_equal(np.asarray(mdl.prefactor), [1.5] * now[0] + [2.5] * now[1]), "prefactor")
    return now, norm


def two_models(ch):
    """Two models on the same points: operations on one do not leak into the other."""
    norm = ch.flag("normalize")
    pts = gen.points("signed", 3)
    c1, c2 = gen.center("offset", 3), gen.center("last", 3)
    a = AtomicGaussianDensity(pts, c1, 2, 1, norm)
    b = AtomicGaussianDensity(pts, c2, 1, 1, not norm if ch.flag("other normalize") else norm)
    bn = b.normalized
    sizes = {0: (2, 1), 1: (1, 1)}
    for step in range(3):
        who = ch.choose(f"who{step}", [0, 1])
        if ch.flag(f"resize{step}"):
            sizes[who] = [(1, 2), (3, 0), (0, 1)][step]
            (a, b)[who].change_numb_s_and_numb_p(*sizes[who])
        observe(a, pts, c1, *sizes[0], norm, step % 2)
        observe(b, pts, c2, *sizes[1], bn, (step + 1) % 2)
    return sizes[0], sizes[1]


def molecular_history(ch, depth):
    """Evaluations of one molecular model, in every order, agree with fresh models."""
    norm = ch.flag("normalize")
    pts, xyz = gen.points("signed", 3), gen.molecule("spread", 3, 3)
    basis = np.array([(1, 1), (2, 0), (0, 2)])
    mdl = MolecularGaussianDensity(pts, xyz, basis, norm)
    m = int(basis.sum())
    for step in range(depth):
        deriv = ch.flag(f"deriv{step}")
        ck = ch.choose(f"coeffs{step}", ["positive", "signs", "unit"])
        ek = ch.choose(f"expons{step}", ["generic", "descending"])
        bad = ch.flag(f"bad first{step}")
        if bad:
            gen.need(gen.raises(lambda: mdl.evaluate(np.ones(m - 1), np.ones(m - 1), deriv)),
                     "too few parameters accepted")
        cs, es = gen.coeffs(ck, m), gen.expons(ek, m)
        out = mdl.evaluate(cs, es, deriv=deriv)
        g, dg, scale, dscale = refs.model(pts, xyz, basis, cs, es, norm)
        gen.need_close(out[0] if deriv else out, g, "value", scale)
        if deriv:
            gen.need_close(out[1], dg, "gradient", dscale)
    return norm, ck, ek


def scenarios(tier):
    d = 4 if tier == "thorough" else 3
    return [("history", lambda ch: history(ch, d if tier == "thorough" else 3), None),
            ("two-models", two_models, None), ("many", many, None),
            ("molecular-history", lambda ch: molecular_history(ch, 3 if tier == "thorough" else 2),
             None)]
