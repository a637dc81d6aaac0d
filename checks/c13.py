r"""C13: every shipped wavefunction file loads to exactly its contents."""
import os

import numpy as np

from mc import gen, slaterref
from mc.core import Violation

DATA = slaterref.scratch()
from bfit._slater import load_slater_wfn  # noqa: E402  pylint: disable=wrong-import-position
from bfit.density import SlaterAtoms  # noqa: E402  pylint: disable=wrong-import-position

BOUNDS = {
    "quick": "every file the package ships (unpacked or inside data.tar), 3 letter cases, both "
             "loaders, loaded alone and after another file; every symbol x kind without a file",
}
BOUNDS["thorough"] = BOUNDS["quick"] + "; every ordered pair of a 40-file subset"
EXT = {"neutral": ".slater", "anion": ".an", "cation": ".cat"}
_REF = {}


def ref(el, kind):
    if (el, kind) not in _REF:
        _REF[el, kind] = slaterref.parse(os.path.join(DATA, kind, el + EXT[kind]))
    return _REF[el, kind]


def electrons(el, kind):
    return slaterref.NUMBER[el] + {"neutral": 0, "anion": 1, "cation": -1}[kind]


def flat(x):
    return np.asarray(x, dtype=float).ravel()


def same(got, want, what):
    got, want = flat(got), np.asarray(want, dtype=float)
    if got.shape != want.shape or not np.array_equal(got, want):
        raise Violation(f"{what}: got {got[:8]}, file has {want[:8]}")


def compare(d, el, kind):
    """d: dictionary of loaded values."""
    w = ref(el, kind)
    what = f"{kind} {el}"
    same(d["energy"], [w["energy"]], what + " energy")
    same(d["kinetic_energy"], [w["kinetic"]], what + " kinetic energy")
    same(d["potential_energy"], [w["potential"]], what + " potential energy")
    gen.need(list(d["orbitals"]) == w["orbitals"], f"{what} orbitals {d['orbitals']}")
    same(d["orbitals_energy"], w["energies"], what + " orbital energies")
    same(d["orbitals_cusp"], w["cusps"], what + " cusps")
    same(d["orbitals_occupation"], w["occ"], what + " occupations")
    n = int(np.sum(flat(d["orbitals_occupation"])))
    gen.need(n == electrons(el, kind), f"{what} has {n} electrons, expected {electrons(el, kind)}")
    gen.need(slaterref.occupation(d["configuration"]) ==
             slaterref.occupation(w["config"]), f"{what} configuration {d['configuration']}")
    for s, exps in w["exp"].items():
        same(d["orbitals_exp"][s], exps, f"{what} exponents {s}")
        gen.need(list(d["orbitals_basis"][s]) == w["basis"][s], f"{what} basis labels {s}")
        same(d["basis_numbers"][s], [int(x[:-1]) for x in w["basis"][s]], f"{what} numbers {s}")
    gen.need({k for k, v in d["orbitals_exp"].items() if np.size(v)} == set(w["exp"]), "subshells")
    gen.need(set(d["orbitals_coeff"]) == set(w["orbitals"]), f"{what} coefficient keys")
    for o, cs in w["coeff"].items():
        same(d["orbitals_coeff"][o], cs, f"{what} coefficients {o}")
    for k in ("orbitals_energy", "orbitals_occupation"):
        gen.need(np.asarray(d[k]).shape == (len(w["orbitals"]), 1), f"{what} {k} is not a column")
    gen.need(abs(w["kinetic"] + w["potential"] - w["energy"]) < 1e-5 * abs(w["energy"]), "T + V = E")
    return round(w["energy"], 3)


FIELDS = ["energy", "kinetic_energy", "potential_energy", "orbitals", "orbitals_energy", "orbitals_cusp",
          "orbitals_occupation", "configuration", "orbitals_exp", "orbitals_basis", "basis_numbers",
          "orbitals_coeff"]


def load(el, kind, how, known):
    an, cat = kind == "anion", kind == "cation"
    try:
        if how == "function":
            return load_slater_wfn(el, an, cat)
        a = SlaterAtoms(el, anion=an, cation=cat)
        return {f: getattr(a, f) for f in FIELDS}
    except (ValueError, KeyError) as e:
        if known and (el.lower(), kind) in (("cs", "cation"), ("ag", "anion")):
            raise Violation(f"{kind} {el} ships a file that cannot be loaded: {e!r}",
                            key=f"load-{el.lower()}-{kind}")
        raise


def files(ch):
    todo = slaterref.shipped()
    el, kind = ch.choose("file", todo)
    case = ch.choose("case", ["lower", "title", "upper"])
    how = ch.choose("loader", ["function", "class"])
    name = {"lower": el, "title": el.title(), "upper": el.upper()}[case]
    return el, kind, compare(load(name, kind, how, True), el, kind)


def tampered(ch):
    """The returned values do not share state: changing one load leaves the next unaffected."""
    pool = [x for x in slaterref.shipped() if x not in (("cs", "cation"), ("ag", "anion"))]
    el, kind = ch.choose("file", pool[::5])
    a = SlaterAtoms(el, anion=kind == "anion", cation=kind == "cation")
    def spoil(arr, val):
        try:
            np.asarray(arr)[...] = val
        except (ValueError, TypeError):
            pass  # read-only results cannot be spoiled
    for s in list(a.orbitals_exp):
        spoil(a.orbitals_exp[s], -1.0)
    for s in list(a.orbitals_coeff):
        spoil(a.orbitals_coeff[s], -1.0)
    spoil(a.orbitals_energy, 0.0)
    spoil(a.orbitals_occupation, 0)
    if isinstance(a.orbitals, list):
        a.orbitals.append("9S")
    return compare(load(el, kind, ch.choose("loader", ["function", "class"]), False), el, kind)


def pairs(ch, pool):
    """Loading one file after another."""
    a = ch.choose("first", pool)
    b = ch.choose("second", pool)
    x = load(*a, "class", False)
    y = load(*b, ch.choose("loader", ["class", "function"]), False)
    compare(y, *b)
    compare(x, *a)
    return a, b


def missing(ch):
    """Symbols and charge states without data are refused."""
    have = set(slaterref.shipped())
    kind = ch.choose("kind", ["neutral", "anion", "cation"])
    todo = [s for s in slaterref.SYMBOLS + ["xx", "q", "rf", "uue"] if (s, kind) not in have]
    for el in todo:
        ok = gen.raises(lambda: SlaterAtoms(el, anion=kind == "anion", cation=kind == "cation"),
                        (ValueError, FileNotFoundError, OSError))
        gen.need(ok, f"{kind} {el} has no data but was loaded")
    for bad in ("", "1", "h1", "he ", "../neutral/h", None, 3, b"he"):
        gen.need(gen.raises(lambda: SlaterAtoms(bad), (TypeError, ValueError)), f"element {bad!r} accepted")
    for el in ("c", "ag", "xe"):
        gen.need(gen.raises(lambda: SlaterAtoms(el, anion=True, cation=True)), "anion and cation accepted")
    return kind, len(todo)


def scenarios(tier):
    good = [x for x in slaterref.shipped() if x not in (("cs", "cation"), ("ag", "anion"))]
    pool = good[::5] if tier == "thorough" else good[::17]
    return [("files", files, None), ("tampered", tampered, None),
            ("pairs", lambda ch: pairs(ch, pool), None), ("missing", missing, None)]
