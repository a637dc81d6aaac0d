r"""Independent reader of the shipped Slater files, and the scratch copy of the package.

``scratch()`` copies /repo/bfit (the current working tree) to a temporary directory and adds the data
files that are only inside data/data.tar (the archive the package ships, which users unpack), then
makes that copy the importable ``bfit``.  Unpacked files of the working tree are never overwritten.
"""
import atexit
import os
import shutil
import sys
import tarfile
import tempfile

import numpy as np

SYMBOLS = ("h he li be b c n o f ne na mg al si p s cl ar k ca sc ti v cr mn fe co ni cu zn ga ge as "
           "se br kr rb sr y zr nb mo tc ru rh pd ag cd in sn sb te i xe cs ba la ce pr nd pm sm eu gd "
           "tb dy ho er tm yb lu hf ta w re os ir pt au hg tl pb bi po at rn fr ra ac th pa u np pu am "
           "cm bk cf es fm md no lr").split()
NUMBER = {s: i + 1 for i, s in enumerate(SYMBOLS)}
REPO = os.environ.get("VERIF_REPO", "/repo")
_STATE = {}


def scratch():
    """Return the data directory of a scratch copy of the package that holds every shipped file."""
    if "dir" in _STATE:
        return _STATE["data"]
    if "bfit" in sys.modules:
        raise RuntimeError("bfit imported before the scratch copy was made")
    top = tempfile.mkdtemp(prefix="bfit-verif-")
    pid = os.getpid()

    def remove():
        if os.getpid() == pid:
            shutil.rmtree(top, ignore_errors=True)
    atexit.register(remove)
    pkg = os.path.join(top, "bfit")
    shutil.copytree(os.path.join(REPO, "bfit"), pkg,
                    ignore=shutil.ignore_patterns("__pycache__", "test"))
    data = os.path.join(pkg, "data")
    added = []
    with tarfile.open(os.path.join(data, "data.tar")) as tar:
        for mem in tar.getmembers():
            parts = [p for p in mem.name.split("/") if p not in ("", ".")]
            if not mem.isfile() or len(parts) != 2 or ".." in parts or \
                    parts[0] not in ("neutral", "anion", "cation"):
                continue
            dst = os.path.join(data, *parts)
            if not os.path.exists(dst):
                with open(dst, "wb") as f:
                    f.write(tar.extractfile(mem).read())
                added.append(parts)
    sys.path.insert(0, top)
    _STATE.update(dir=top, data=data, added=added)
    return data


def shipped():
    """All (element, charge kind) that have a data file, in a fixed order."""
    data = scratch()
    out = []
    for kind, ext in (("neutral", ".slater"), ("anion", ".an"), ("cation", ".cat")):
        for name in sorted(os.listdir(os.path.join(data, kind))):
            if name.endswith(ext) and name[:-len(ext)] in NUMBER:
                out.append((name[:-len(ext)], kind))
    return out


SHELL = {"K": [("1S", 2)], "L": [("2S", 2), ("2P", 6)], "M": [("3S", 2), ("3P", 6), ("3D", 10)],
         "N": [("4S", 2), ("4P", 6), ("4D", 10), ("4F", 14)]}
CORE = {"XE": "K(2)L(8)M(18)4S(2)4P(6)5S(2)4D(10)5P(6)"}
CORE["RN"] = CORE["XE"] + "4F(14)6S(2)5D(10)6P(6)"


def occupation(text):
    """Occupation numbers of a configuration such as K(2)L(8)3S(1) or [XE]6S(1)."""
    occ = {}
    i = 0
    while i < len(text):
        if text[i] == "[":
            j = text.index("]", i)
            occ.update(occupation(CORE[text[i + 1:j]]))
            i = j + 1
            continue
        j = text.index("(", i)
        k = text.index(")", j)
        label, n = text[i:j], int(text[j + 1:k])
        if label in SHELL:
            for o, c in SHELL[label]:
                occ[o] = c
        else:
            occ[label] = n
        i = k + 1
    return occ


def parse(path):
    """Contents of a Slater file."""
    with open(path, encoding="utf8", errors="replace") as f:
        lines = [x.rstrip("\r\n") for x in f]
    res = {"config": lines[0].split()[1].split(",")[0]}
    at = next(i for i, x in enumerate(lines) if x.strip().startswith("E =") or x.strip().startswith("E="))
    res["energy"] = float(lines[at].split("=")[1])
    tline = lines[at + 1].replace("=", " = ").split()
    res["kinetic"] = float(tline[tline.index("T") + 2])
    res["potential"] = float(tline[tline.index("V") + 2])
    res["orbitals"], res["energies"], res["cusps"] = [], [], []
    res["basis"], res["exp"], res["coeff"] = {}, {}, {}
    i = at + 2
    sub = None
    cols = []
    while i < len(lines):
        w = lines[i].split()
        if not w:
            if sub is not None:
                break
        elif w[0] in ("S", "P", "D", "F") and len(w) > 1 and w[1].endswith(w[0]):
            sub, cols = w[0], w[1:]
            res["orbitals"] += cols
            res["basis"][sub], res["exp"][sub] = [], []
            for c in cols:
                res["coeff"][c] = []
        elif w[0].startswith("BASIS"):
            res["energies"] += [float(x) for x in w[1:]]
        elif w[0] == "CUSP":
            res["cusps"] += [float(x) for x in w[1:]]
        elif sub and w[0][:-1].isdigit() and w[0][-1] == sub:
            res["basis"][sub].append(w[0])
            res["exp"][sub].append(float(w[1]))
            for c, v in zip(cols, w[2:]):
                res["coeff"][c].append(float(v))
        i += 1
    occ = occupation(res["config"])
    res["occ"] = [occ[o] for o in res["orbitals"]]
    return res


def orbital_values(ref, r):
    """Radial parts R_i(r) and derivatives, as (len(r), number of orbitals) arrays (longdouble)."""
    r = np.asarray(r, dtype=np.longdouble)
    val = np.zeros((len(r), len(ref["orbitals"])), dtype=np.longdouble)
    der = np.zeros_like(val)
    fact = [1]
    for k in range(1, 20):
        fact.append(fact[-1] * k)
    for i, o in enumerate(ref["orbitals"]):
        sub = o[-1]
        for lab, z, c in zip(ref["basis"][sub], ref["exp"][sub], ref["coeff"][o]):
            n = int(lab[:-1])
            z = np.longdouble(z)
            norm = (2 * z) ** n * np.sqrt(2 * z / np.longdouble(fact[2 * n]))
            e = np.exp(-z * r)
            val[:, i] += c * norm * r ** (n - 1) * e
            d = -z * r ** (n - 1)
            if n > 1:
                d = d + (n - 1) * r ** (n - 2)
            der[:, i] += c * norm * d * e
    return val, der


def orbital_scales(ref, r):
    """Sums of the magnitudes of the terms of orbital_values (the error scale of the sums)."""
    r = np.asarray(r, dtype=np.longdouble)
    val = np.zeros((len(r), len(ref["orbitals"])), dtype=np.longdouble)
    der = np.zeros_like(val)
    fact = [1]
    for k in range(1, 20):
        fact.append(fact[-1] * k)
    for i, o in enumerate(ref["orbitals"]):
        sub = o[-1]
        for lab, z, c in zip(ref["basis"][sub], ref["exp"][sub], ref["coeff"][o]):
            n, z = int(lab[:-1]), np.longdouble(z)
            f = abs(c) * (2 * z) ** n * np.sqrt(2 * z / np.longdouble(fact[2 * n])) * np.exp(-z * r)
            val[:, i] += f * r ** (n - 1)
            der[:, i] += f * (z * r ** (n - 1) + ((n - 1) * r ** (n - 2) if n > 1 else 0))
    return val, der
