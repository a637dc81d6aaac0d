r"""C16: the universal basis-set exponents of every element are exactly those of the shipped file."""
import hashlib
import json
import os

import bfit
from bfit.parse_ugbs import get_ugbs_exponents
from mc import gen

BOUNDS = {"quick": "every element of the shipped file x 3 spellings x every ordered pair of calls over 12 "
                   "elements; unknown and non-string names"}
BOUNDS["thorough"] = "every ordered pair of calls over all elements"
_PATH = os.path.join(os.path.dirname(os.path.abspath(bfit.__file__)), "data", "ygbs")
Z = ("H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb "
     "Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn"
     ).split()


def parse():
    """Independent reading: blocks '#BASIS SET: (20s,10p)' and pairs of lines 'El  S' / 'exp coeff'."""
    res, declared = {}, {}
    with open(_PATH, encoding="utf8") as f:
        lines = [x.split() for x in f]
    cur = None
    i = 0
    pend = None
    while i < len(lines):
        w = lines[i]
        if w[:2] == ["#BASIS", "SET:"]:
            pend = {}
            for part in w[2].strip("()").split(","):
                pend[part[-1].upper()] = int(part[:-1])
        elif len(w) == 2 and w[1] in ("S", "P", "D", "F") and w[0].isalpha():
            cur = w[0].lower()
            if cur not in res:
                res[cur] = {"S": [], "P": [], "D": [], "F": []}
                declared[cur] = pend
            res[cur][w[1]].append(float(lines[i + 1][0]))
            i += 1
        i += 1
    return res, declared


RES, DECL = parse()
ELEMENTS = sorted(RES)


with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "refdata",
                       "ugbs_digests.json"), encoding="utf8") as _f:
    DIGESTS = json.load(_f)     # of the published table, one per element and shell


def digest(values):
    return hashlib.sha256(" ".join(repr(float(x)) for x in values).encode()).hexdigest()[:16]


def check(el, name):
    got = get_ugbs_exponents(name)
    gen.need(set(got) == {"S", "P", "D", "F"}, f"keys {sorted(got)}")
    for k in "SPDF":
        gen.need(isinstance(got[k], list) and got[k] == RES[el][k],
                 f"{name} {k}: {got[k][:4]} ... ({len(got[k])}), file has {RES[el][k][:4]} ... "
                 f"({len(RES[el][k])})")
        gen.need(all(type(x) is float and x > 0 for x in got[k]), "exponents must be positive floats")
        gen.need(len(set(got[k])) == len(got[k]), "repeated exponent")
    return got


def content(ch):
    el = ch.choose("element", ELEMENTS)
    sp = ch.choose("spelling", ["lower", "upper", "title"])
    got = check(el, getattr(el, {"lower": "lower", "upper": "upper", "title": "title"}[sp])())
    for k in "SPDF":
        gen.need(digest(got[k]) == DIGESTS[el][k], f"{el} {k}: not the published exponents")
        n = DECL[el].get(k, 0) if DECL[el] else None
        gen.need(n is None or len(got[k]) == n, f"{el} {k}: {len(got[k])} exponents, file declares {n}")
    # every shell of these universal sets is taken from one sequence of exponents of the element
    return el, tuple(len(got[k]) for k in "SPDF")


def pairs(ch, names):
    a = ch.choose("first", names)
    ga = check(a, a)
    mutate = ch.flag("caller edits the first result")
    if mutate:
        ga["S"].append(-1.0)
        ga["S"][0] = 0.0
        ga["P"].clear()
    b = ch.choose("second", names)
    check(b, b)
    if not mutate:
        gen.need(all(ga[k] == RES[a][k] for k in "SPDF"), "an earlier result changed")
    return a, b


def unknown(ch):
    name = ch.choose("name", ["xx", "", "#basis", "basis", "s", "p", "end", "1", "zz", "#", "*", "lw", "uue", " h", "he ", "h\n", "h s", "*h", "heh",
                              "hydrogen", "H0", "c6", "d", "t"])
    if name in RES:
        return name
    try:
        got = get_ugbs_exponents(name)
    except Exception as e:
        return type(e).__name__
    gen.need(all(got[k] == [] for k in got), f"{name!r} has exponents {got}")
    return "empty"


def types(ch):
    bad = ch.choose("argument", [1, None, 2.0, ["h"], b"h"])
    gen.need(gen.raises(lambda: get_ugbs_exponents(bad), (AssertionError, TypeError, ValueError)),
             f"{bad!r} accepted")
    return repr(bad)


def coverage(ch):
    """Every element of the universal basis set shipped with the package is found."""
    el = ch.choose("element", Z)
    gen.need(el.lower() in RES, f"{el} has no exponents in the file")
    got = get_ugbs_exponents(el)
    gen.need(len(got["S"]) > 0, f"{el} has no s exponents")
    return el, len(got["S"]), len(got["P"])


def scenarios(tier):
    few = ["h", "he", "c", "ca", "cs", "co", "n", "na", "ne", "s", "si", "f", "fe"]
    names = ELEMENTS if tier == "thorough" else [x for x in few if x in RES]
    return [("content", content, None), ("pairs", lambda ch: pairs(ch, names), None),
            ("unknown", unknown, None), ("types", types, None), ("coverage", coverage, None)]
