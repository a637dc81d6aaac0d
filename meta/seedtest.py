"""Development aid: runs checks against planted changes, each in a private mount namespace with its own copies of /repo
and /verif. usage: python3 meta/seedtest.py [--all] [id ...]; --all runs every check (else only the property's own);
results are merged into meta/caught.json."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "meta", "caught.json")


def main():
    every = "--all" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    ids = ids or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(HERE + "/seeded/*/meta.json"))
    names = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(HERE + "/checks/c[0-9]*.py"))
    for i in ids:
        own = json.load(open(f"{HERE}/seeded/{i}/meta.json"))["property"]
        w = tempfile.mkdtemp(prefix="st-", dir="/tmp")
        shutil.copytree("/repo", w + "/repo", symlinks=True)
        shutil.copytree(HERE, w + "/verif", symlinks=True, ignore=shutil.ignore_patterns(".git", "evidence"))
        r = subprocess.run(["git", "-C", w + "/repo", "apply", f"{HERE}/seeded/{i}/patch.diff"])
        got = []
        for c in names if every else [own]:
            p = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {w}/repo /repo && mount --bind {w}/verif "
                                f"{HERE} && cd {HERE} && timeout 890 bash check.sh {c}"], capture_output=True, text=True)
            if p.returncode == 1 and f"VIOLATION property={c} " in p.stdout:
                got.append(c)
            elif p.returncode != 0:
                print(i, c, "exit", p.returncode, p.stderr[-300:])
        shutil.rmtree(w)
        print(i, own, "CAUGHT" if own in got else "MISSED" if r.returncode == 0 else "DOES NOT APPLY",
              *(got if every else []), flush=True)
        res = json.load(open(OUT)) if os.path.exists(OUT) else {}
        old = [] if every else [c for c in res.get(i, []) if c != own]
        res[i] = sorted(set(old + got))
        with open(OUT, "w") as f:
            json.dump(res, f, indent=1, sort_keys=True)
            f.write("\n")


if __name__ == "__main__":
    main()
