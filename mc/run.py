r"""Entry point: python -m mc.run C01 [--replay FILE].

Runs every scenario of checks/<id>.py for the tier in VERIF_TIER, rewrites evidence/<id>.json, and
ends with exit 0 (held on everything explored) or exit 1 and a VIOLATION line.
"""
import importlib
import json
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


def load_known(prop):
    r"""Lines ``known: property=<id> key=<key> <what fails>``; ``fixed:`` lines suppress nothing."""
    res = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf8") as f:
            for line in f:
                if line.startswith("known: "):
                    parts = line[7:].strip().split(" ", 2)
                    if parts[0] == f"property={prop}" and parts[1].startswith("key="):
                        res[parts[1][4:]] = parts[2] if len(parts) > 2 else ""
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    t0 = time.time()
    warnings.simplefilter("ignore")
    from mc import core
    known = load_known(prop)
    evid_dir = os.path.join(HERE, "evidence")
    rep_dir = os.path.join(evid_dir, "replay")
    os.makedirs(rep_dir, exist_ok=True)
    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
        scenarios = mod.scenarios(tier)
    except Exception as e:  # the code under test cannot even be imported / set up
        import traceback
        path = os.path.join(rep_dir, f"{prop}-setup.json")
        msg = traceback.format_exc()
        with open(path, "w", encoding="utf8") as f:
            json.dump({"property": prop, "error": msg}, f)
        print(msg)
        write_evidence(prop, tier, t0, None, {}, 1, [])
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1

    if "--replay" in sys.argv:
        return replay(prop, scenarios, sys.argv[sys.argv.index("--replay") + 1], core)

    # past this deadline exploration stops after the execution in progress and is reported as capped
    res = core.explore_all(scenarios, known=set(known), deadline=t0 + float(os.environ.get("VERIF_DEADLINE", "660")))
    viol, seen_known = [], {}
    for name, st in res.items():
        for v in st.violations:
            v["scenario"] = name
            if v["key"] is not None and v["key"] in known:
                seen_known.setdefault(v["key"], v)
            else:
                viol.append(v)
    for key, v in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} key={key} {known[key]}")
    code = 0
    for n, v in enumerate(viol[:5]):
        path = os.path.join(rep_dir, f"{prop}-{n}.json")
        v["property"], v["tier"] = prop, tier
        v["reproduced"] = confirm(dict((s[0], s[1]) for s in scenarios), v, core)
        with open(path, "w", encoding="utf8") as f:
            json.dump(core.jsonable(v), f, indent=1)
        print(f"--- {prop} {v['scenario']} reproduced={v['reproduced']} choices="
              f"{list(zip(v['labels'], v['choices']))}\n{v['msg'][:3000]}")
        print(f"VIOLATION property={prop} replay={path}")
        code = 1
    if hasattr(mod, "cleanup"):
        mod.cleanup()
    write_evidence(prop, tier, t0, mod, res, len(viol), scenarios)
    ex = sum(s.executions for s in res.values())
    print(f"{prop} {tier}: scenarios={len(res)} executions={ex} "
          f"states={sum(s.nodes for s in res.values())} "
          f"outcomes={sum(len(s.outcomes) for s in res.values())} "
          f"known={len(seen_known)} violations={len(viol)} "
          f"{'CAPPED ' if any(s.capped for s in res.values()) else ''}wall={time.time() - t0:.1f}s", flush=True)
    return code


def _confirm_child(body, v, core, q):
    n = 0
    for _ in range(2):
        try:
            _, _, vs = core.run_once(body, v["choices"])
            n += bool(vs)
        except BaseException:
            pass
    q.put(n)


def confirm(bodies, v, core):
    """Run the recorded execution twice more, each time from a process that ran nothing else."""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    if v["exec"] == 0:
        return "not replayed"
    q = ctx.SimpleQueue()
    p = ctx.Process(target=_confirm_child, args=(bodies[v["scenario"]], v, core, q), daemon=True)
    p.start()
    p.join(60)
    if p.is_alive():
        p.terminate()
        return "replay did not finish in 60 s"
    if q.empty():
        return "replay process died"
    n = q.get()
    if n == 2:
        return "2/2"
    return f"{n}/2 alone; history dependent: replay all executions below prefix {v['prefix']}"


def replay(prop, scenarios, path, core):
    with open(path, encoding="utf8") as f:
        v = json.load(f)
    body = dict((s[0], s[1]) for s in scenarios)[v["scenario"]]
    _, outcome, vs = core.run_once(body, v["choices"])
    print("choices:", list(zip(v["labels"], v["choices"])))
    print("outcome:", outcome)
    for key, msg in vs:
        print("key:", key, "\n", msg)
    if not vs and v["exec"]:
        st = core.dfs(body, v["prefix"])
        vs = st.violations
        for x in vs:
            print("after history:", x["choices"], x["msg"])
    if vs:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def write_evidence(prop, tier, t0, mod, res, nviol, scenarios):
    level = getattr(mod, "LEVEL", "model_checking") if mod else "model_checking"
    states = sum(s.nodes for s in res.values())
    trans = sum(s.edges for s in res.values())
    execs = sum(s.executions for s in res.values())
    samples = []
    for name, s in res.items():
        for x in s.samples[:1]:
            samples.append({"scenario": name, **x})
    cov = {
        "states": states, "transitions": trans, "traces_validated_against_impl": execs,
        "samples": samples[:12] or ["none"],
        "exhaustive": not any(s.capped for s in res.values()),
        "distinct_outcomes": sum(len(s.outcomes) for s in res.values()),
        "per_scenario": {n: {"executions": s.executions, "states": s.nodes,
                             "distinct_outcomes": len(s.outcomes), "capped": s.capped}
                         for n, s in res.items()},
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, "") if mod else "",
        "explanation": "states/transitions = nodes/edges of the enumerated choice tree; every leaf "
                       "is one execution of the real bfit code compared step by step with the "
                       "reference model in /verif/mc/refs.py (traces_validated_against_impl).",
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": level, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
          "wall_s": round(time.time() - t0, 3), "violations": nviol}
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w", encoding="utf8") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
