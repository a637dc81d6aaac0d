r"""C38: the same calls give the same results in any process."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from mc import gen

BOUNDS = {
    "quick": "a run of calls into every part of the package (45 results), in a process of its own for each setting: 9 "
             "first-imported modules, 4 working directories, 5 interpreter flags, 4 hash seeds, 4 text settings, 4 places of "
             "the package, 5 numerical settings, 3 kinds of caller, 3 output streams, up to 2 changed at once",
    "thorough": "up to 3 changed at once",
}
ASSUMPTIONS = ["results are compared within 1e-9; ordinary files, one platform and interpreter"]
PKG = list(importlib.util.find_spec("bfit").submodule_search_locations)[0]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = ["bfit", "bfit.model", "bfit.grid", "bfit.measure", "bfit.fit", "bfit.greedy", "bfit.density", "bfit._slater",
         "bfit.parse_ugbs"]
FLAGS = [[], ["-O"], ["-OO"], ["-X", "dev"], ["-bb"]]
TEXT = [{}, {"PYTHONIOENCODING": "ascii:strict"}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
        {"PYTHONUTF8": "1"}]
PLACES = ["lib", "link", "a b%7E ü", "site.bfit/data/neutral"]
SETTINGS = [[], ["print"], ["ignore"], ["warn"], ["recursion"]]


def listing(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = (os.path.getsize(p), os.stat(p).st_mtime_ns)
    return out


def decoy(cwd):
    """Files of the names the package reads, with other contents, where the process is started."""
    for d in ("data", ".", "bfit/data"):
        os.makedirs(os.path.join(cwd, d), exist_ok=True)
        shutil.copy(os.path.join(PKG, "data", "ygbs"), os.path.join(cwd, d, "ygbs"))
        with open(os.path.join(cwd, d, "ygbs"), "r+", encoding="utf8") as f:
            text = f.read()
            f.seek(0)
            f.write(text.replace("1", "2"))
        for sub, a, b in (("neutral", "li", "be"), ("neutral", "n", "c"), ("anion", "h", "c")):
            os.makedirs(os.path.join(cwd, d, sub), exist_ok=True)
            for name in os.listdir(os.path.join(PKG, "data", sub)):
                stem, ext = os.path.splitext(name)
                if stem.lower() == a:
                    shutil.copy(os.path.join(PKG, "data", sub, name), os.path.join(cwd, d, sub, b + ext))


def call(first="bfit", cwd="empty", flags=(), seed="0", text=None, place="lib", settings=(), caller="main", stream="pipe"):
    kw = (first, cwd, flags, seed, text, place, settings, caller, stream)
    top = tempfile.mkdtemp(prefix="c38-")
    try:
        where = os.path.join(top, "lib" if place == "link" else place)
        shutil.copytree(PKG, os.path.join(where, "bfit"), ignore=shutil.ignore_patterns("__pycache__", "test", "*.npz", "*.tar"))
        if place == "link":
            os.makedirs(os.path.join(top, "links"))
            os.symlink(os.path.join(where, "bfit"), os.path.join(top, "links", "bfit"))
            path = os.path.join(top, "links")
        else:
            path = where
        start = "/" if cwd == "root" else os.path.join(top, "start")
        os.makedirs(os.path.join(top, "start"))
        if cwd == "decoy":
            decoy(start)
        out = os.path.join(top, "out.json")
        env = {"PATH": "/usr/bin:/bin", "PYTHONPATH": path, "PYTHONHASHSEED": seed, "PYTHONDONTWRITEBYTECODE": "1",
               "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MPLBACKEND": "Agg", "HOME": top, "PYTHONWARNINGS": "ignore",
               "TMPDIR": os.path.join(top, "tmp"), **(text or {})}
        os.makedirs(env["TMPDIR"])
        before = listing(top)
        cfg = {"first": [first], "settings": list(settings), "caller": caller, "stream": stream, "out": out,
               "removed": cwd == "removed"}
        p = subprocess.run([sys.executable, *flags, os.path.join(HERE, "mc", "battery.py"), json.dumps(cfg)], cwd=start, env=env,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=110, check=False)
        what = p.stderr.decode("utf8", "replace")[-600:]
        gen.need(p.returncode == 0 and os.path.exists(out), f"the calls failed (status {p.returncode}): {what}")
        with open(out, encoding="utf8") as f:
            res = json.load(f)
        after = listing(top)
        del after["out.json"]
        if cwd == "removed":
            before = {k: v for k, v in before.items() if not k.startswith("start/")}
        gen.need(before == after, f"the calls left other files: {sorted(set(before.items()) ^ set(after.items()))[:3]} for {kw}")
        return res
    finally:
        shutil.rmtree(top, ignore_errors=True)


_WANT = {}


def processes(ch):
    kw = {"first": ch.choose("first import", FIRST, 1), "cwd": ch.choose("directory", ["empty", "root", "decoy", "removed"], 1),
          "flags": ch.choose("flags", FLAGS, 1), "seed": ch.choose("hash seed", ["0", "1", "2", "77"], 1),
          "text": ch.choose("text", TEXT, 1), "place": ch.choose("place", PLACES, 1),
          "settings": ch.choose("settings", SETTINGS, 1), "caller": ch.choose("caller", ["main", "thread", "fork"], 1),
          "stream": ch.choose("stream", ["pipe", "none", "file"], 1)}
    if not _WANT:
        _WANT.update(call())
    got = call(**kw)
    gen.need(got.keys() == _WANT.keys(), f"other results: {sorted(got)}")
    for k, w in _WANT.items():
        x = got[k]
        gen.need(len(x) == len(w), f"{k}: {len(x)} numbers instead of {len(w)} for {kw}")
        for a, b in zip(x, w):
            if isinstance(a, str) or isinstance(b, str):
                gen.need(a == b, f"{k} depends on the process: {a} instead of {b} for {kw}")
            else:
                ok = a == b or abs(a - b) <= 1e-9 * (1.0 + abs(b)) or (np.isnan(a) and np.isnan(b))
                gen.need(ok, f"{k} depends on the process: {a!r} instead of {b!r} for {kw}")
    return json.dumps(kw, sort_keys=True)


def scenarios(tier):
    return [("processes", processes, 3 if tier == "thorough" else 2)]
