r"""Stateless explorer with controlled choice points, and an explicit-state (BFS) explorer.

An *execution* is one call ``body(ch)``.  Every nondeterministic decision of the harness (which
operation comes next, which argument from the alphabet, which answer the environment -- the
optimizer, the candidate generator, ... -- gives) is taken with ``ch.choose(label, options)``.  The
explorer enumerates *all* choice sequences (depth first, replaying prefixes), optionally within a
bound on the number of deviations from the first ("default") option.  Nothing is sampled.
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import time
import traceback

import numpy as np

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
EXEC_LIMIT_S = float(os.environ.get("VERIF_EXEC_LIMIT", "120"))


class Violation(Exception):
    """The property does not hold on this execution."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class _Probe(Exception):
    """Raised to stop an execution at the requested depth (prefix collection)."""

    def __init__(self, n, costs):
        super().__init__()
        self.n = n
        self.costs = costs


class Diverged(Exception):
    """Replaying a recorded prefix met another choice point."""


class Chooser:
    """Supplies the decisions of one execution."""

    def __init__(self, prefix=(), probe=False):
        self.prefix = list(prefix)
        self.probe = probe
        self.points = []     # (label, number of options, cost vector or None)
        self.choices = []
        self.notes = []      # findings raised without aborting the execution: (key, msg)

    def choose(self, label, options, cost=None):
        """Return one of options; every one of them is explored by some execution.

        cost: None (a plain enumeration point) or 1 (any option but the first is a deviation).
        """
        if isinstance(options, int):
            options = range(options)
        n = len(options)
        if n == 0:
            raise Violation(f"harness: empty choice at {label}")
        i = len(self.choices)
        if i < len(self.prefix):
            k = self.prefix[i]
            if k >= n:
                raise Diverged(f"prefix asks option {k} of {n} at {label}")
        elif self.probe:
            raise _Probe(n, cost)
        else:
            k = 0
        self.points.append((label, n, cost))
        self.choices.append(k)
        return options[k]

    def flag(self, label, cost=None):
        """Choose False / True."""
        return self.choose(label, (False, True), cost)

    def note(self, key, msg):
        """Record a violation but let the execution continue (for independent findings)."""
        self.notes.append((key, msg))


class _Timeout(BaseException):
    pass


def _alarm(_sig, _frm):
    raise _Timeout()


def run_once(body, prefix):
    """One execution. Returns (chooser, outcome, violations)."""
    ch = Chooser(prefix)
    np.random.seed(SEED % (2 ** 32))
    viols = []
    outcome = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, EXEC_LIMIT_S)
    try:
        outcome = body(ch)
    except Violation as e:
        viols.append((e.key, str(e)))
    except Diverged:
        raise
    except _Timeout:
        viols.append((None, f"execution did not finish within {EXEC_LIMIT_S} s"))
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # the code under test raised where it must not
        tb = traceback.format_exc(limit=-6)
        viols.append((None, f"unexpected {type(e).__name__}: {e}\n{tb}"))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    viols.extend(ch.notes)
    return ch, outcome, viols


def _cost(points, choices, upto):
    return sum(1 for p, c in zip(points[:upto], choices[:upto]) if p[2] and c)


def _fp(outcome):
    return hashlib.blake2b(repr(outcome).encode(), digest_size=8).digest()


class Stats:
    def __init__(self):
        self.executions = 0
        self.nodes = 0          # distinct nodes of the choice tree (states)
        self.edges = 0          # distinct edges of the choice tree (transitions)
        self.outcomes = set()
        self.samples = []
        self.violations = []    # dicts
        self.capped = False

    def merge(self, o):
        self.executions += o.executions
        self.nodes += o.nodes
        self.edges += o.edges
        self.outcomes |= o.outcomes
        self.samples = (self.samples + o.samples)[:4]
        self.violations += o.violations
        self.capped = self.capped or o.capped


def dfs(body, prefix=(), budget=None, known=(), stop_after=3, deadline=None):
    """Explore every execution below prefix (with <= budget deviations in all)."""
    st = Stats()
    root = len(prefix)
    stack_prefix = list(prefix)
    first = True
    unknown = 0
    while True:
        ch, outcome, viols = run_once(body, stack_prefix)
        st.executions += 1
        new = len(ch.choices) - (root if first else len(stack_prefix) - 1)
        st.nodes += new + (1 if first else 0)
        st.edges += new
        first = False
        if outcome is not None:
            st.outcomes.add(_fp(outcome))
        if len(st.samples) < 2:
            st.samples.append({"choices": [f"{p[0]}={c}" for p, c in zip(ch.points, ch.choices)],
                               "outcome": repr(outcome)[:300]})
        for key, msg in viols:
            if key is None or key not in known:
                unknown += 1
            if key is None or sum(v["key"] == key for v in st.violations) < 1:
                st.violations.append({"key": key, "msg": msg, "choices": list(ch.choices),
                                      "labels": [p[0] for p in ch.points],
                                      "prefix": list(prefix), "exec": st.executions})
        if unknown >= stop_after:
            st.capped = True
            return st
        if deadline is not None and time.time() > deadline:
            st.capped = True
            return st
        # next choice sequence in depth-first order
        i = len(ch.choices) - 1
        nxt = None
        while i >= root:
            k = ch.choices[i] + 1
            if k < ch.points[i][1]:
                c = _cost(ch.points, ch.choices, i) + (1 if ch.points[i][2] else 0)
                if budget is None or c <= budget:
                    nxt = ch.choices[:i] + [k]
                    break
            i -= 1
        if nxt is None:
            return st
        stack_prefix = nxt


def prefixes(body, target, budget=None):
    """Enough prefixes to feed the workers (collected breadth first, exact partition)."""
    level = [((), 0)]
    done = []
    for _ in range(12):
        if not level or len(level) + len(done) >= target:
            break
        new = []
        for pre, cost in level:
            ch = Chooser(pre, probe=True)
            np.random.seed(SEED % (2 ** 32))
            try:
                body(ch)
                done.append(pre)
            except _Probe as p:
                for k in range(p.n):
                    c = cost + (1 if p.costs and k else 0)
                    if budget is None or c <= budget:
                        new.append((pre + (k,), c))
            except BaseException:
                done.append(pre)
        level = new
    return done + [p for p, _ in level]


_JOBS = {}


def _worker(args):
    name, pre, budget, known, deadline = args
    return name, dfs(_JOBS[name], pre, budget, known, deadline=deadline)


def explore_all(scenarios, known=(), procs=None, deadline=None, hang_limit=820):
    """scenarios: list of (name, body, budget). Returns {name: Stats}."""
    procs = procs or int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)
    out = {name: Stats() for name, _, _ in scenarios}
    jobs = []
    for name, body, budget in scenarios:
        _JOBS[name] = body
        pre = _collect(body, budget)
        for p in pre:
            jobs.append((name, p, budget, frozenset(known), deadline))
    ctx = mp.get_context("fork")
    t_end = time.time() + hang_limit
    pool = ctx.Pool(procs, maxtasksperchild=None)
    try:
        pending = [(j, pool.apply_async(_worker, (j,))) for j in jobs]
        for j, r in pending:
            try:
                name, st = r.get(timeout=max(1.0, t_end - time.time()))
                out[name].merge(st)
                if sum(1 for v in out[name].violations
                       if v["key"] is None or v["key"] not in known) >= 3:
                    out[name].capped = True
                    break
            except mp.TimeoutError:
                out[j[0]].violations.append(
                    {"key": None, "msg": f"exploration below {j[1]} hangs", "choices": list(j[1]),
                     "labels": [], "prefix": list(j[1]), "exec": 0})
                break
            except Exception as e:  # worker died
                out[j[0]].violations.append(
                    {"key": None, "msg": f"exploration below {j[1]} failed: {e!r}",
                     "choices": list(j[1]), "labels": [], "prefix": list(j[1]), "exec": 0})
                break
    finally:
        pool.terminate()
        pool.join()
    return out


def _collect_child(body, budget, q):
    try:
        q.put(prefixes(body, 48, budget))
    except BaseException:
        q.put([()])


def _collect(body, budget):
    # in a child, so that the parent process never runs code under test before it forks workers
    ctx = mp.get_context("fork")
    q = ctx.SimpleQueue()
    p = ctx.Process(target=_collect_child, args=(body, budget, q), daemon=True)
    p.start()
    res = None
    t0 = time.time()
    while time.time() - t0 < 300:
        if not q.empty():
            res = q.get()
            break
        if not p.is_alive() and q.empty():
            break
        time.sleep(0.002)
    p.terminate()
    p.join()
    return res or [()]


def jsonable(x):
    return json.loads(json.dumps(x, default=str))
