r"""C27: the greedy search follows its documented protocol whatever the optimizer answers."""
import contextlib
import io

import numpy as np

from bfit.fit import ScipyFit
from bfit.greedy import GreedyStrategy
from bfit.measure import Measure
from bfit.model import AtomicGaussianDensity
from checks import c25
from mc import gen

BOUNDS = {
    "quick": "every sequence of {better via s, better via p, rejected} answers for 3 choice functions and "
             "max_numb_funcs 1..4; with up to 2 deviations every answer in {improved, below threshold, equal, worse, "
             "a hair worse, NaN, redundant s, redundant p, huge} x best guess in {first, middle, last s, p, NaN guesses, ties, nearly ties}",
    "thorough": "max_numb_funcs up to 6; up to 3 deviations; three consecutive runs of one object",
}
ASSUMPTIONS = ["the optimizer and the one-function solution are supplied through the documented abstract methods",
               "the objective at the one-function solution is finite",
               "which of several equally good guesses is refined is not claimed"]
THR = 1e-3


class Points:
    """A grid of one point at the origin: the model's value there is the sum of the s coefficients."""

    points = np.zeros(1)

    def __len__(self):
        return 1

    def integrate(self, arr):
        return float(np.sum(arr))


class Read(Measure):
    """The objective is the model's value itself."""

    def evaluate(self, density, model, deriv=False):
        return (model, np.ones_like(model)) if deriv else model


class Scripted(GreedyStrategy):
    """Records what it is asked and answers from the script."""

    def __init__(self, choice, script):
        grid = Points()
        model = AtomicGaussianDensity(grid.points, num_s=1, num_p=0)
        super().__init__(ScipyFit(grid, np.ones(1), model, measure=Read()), choice)
        self.script = script

    def get_best_one_function_solution(self):
        return self.script.first(self)

    def get_optimization_routine(self, params, *args, local=False):
        return self.script.optimize(self, np.array(params), local)


def split(params, ns, np_):
    c, e = params[:len(params) // 2], params[len(params) // 2:]
    return c[:ns], e[:ns], c[ns:], e[ns:]


def rnd(v):
    """A close value of 40 digits, so that sums of its dyadic parts are exact."""
    m, e = np.frexp(v)
    return v if not np.isfinite(v) else float(np.ldexp(np.round(np.ldexp(m, 40)), e - 40))


class Script:
    """Environment and reference model of one run, in lock step."""

    def __init__(self, ch, choice, maxf, thr, factor, answers, guesses, cost, start=64.0, tag=""):
        self.ch, self.choice, self.maxf, self.thr = ch, choice, maxf, thr
        self.factor0, self.answers, self.guesses, self.cost = factor, answers, guesses, cost
        self.inc = 2 if choice == "pick-two" else 1
        self.ns, self.np_ = 1, 0
        self.best, self.prev = rnd(start), np.inf
        self.accepted = []
        self.rejects = 0
        self.factor = factor
        self.queue = None                 # outstanding guesses of this iteration
        self.iter = 0
        self.calls = 0
        self.tag = tag
        self.dead = False                 # reference says the run must have ended

    # -- parameters that evaluate to a given objective
    def params(self, value, ns, np_, stretch=1.0, red=None):
        self.calls += 1
        cs = rnd(value) * 0.5 ** np.append(np.arange(1, ns), ns - 1)     # add up exactly
        es = stretch * (0.7 + 0.01 * (self.calls % 7)) * 2.0 ** np.arange(ns)
        ep = stretch * (0.9 + 0.01 * (self.calls % 5)) * 3.0 ** np.arange(np_)
        cp = 0.5 + np.arange(np_)
        if red == "s":
            es[-1] = es[0] + 2e-4
        if red == "p":
            ep[-1] = ep[0] - 3e-4
        return np.concatenate((cs, cp, es, ep))

    def first(self, g):
        gen.need((g.model.num_s, g.model.num_p) == (1, 0), "the search must start with one s function")
        p = self.params(self.best, 1, 0)
        self.accepted = [p]
        return p.copy()

    def expected_guesses(self):
        """Documented guesses: (kind, parameters or None for a random p function)."""
        cs, es, cp, ep = split(self.accepted[-1], self.ns, self.np_)
        ref = {"pick-one": c25.one, "pick-two": c25.two, "pick-two-lose-one": c25.lose}[self.choice]
        out = [("s", np.concatenate((c, cp, e, ep))) for c, e in ref(self.factor, list(cs), list(es), 100.0)]
        if self.np_ == 0:
            out += [("p", None)] * 3
        else:
            out += [("p", np.concatenate((cs, c, es, e))) for c, e in ref(self.factor, list(cp), list(ep), 100.0)]
        return out

    def running(self):
        return self.ns + self.np_ + self.inc <= self.maxf and self.rejects < 5 and \
            abs(self.best - self.prev) >= self.thr

    def start_iteration(self):
        gen.need(self.running(), lambda: f"the search goes on with {self.ns}+{self.np_} functions, {self.rejects} "
                 f"rejections, change {self.best - self.prev}")
        self.iter += 1
        self.queue = self.expected_guesses()
        n_s = sum(k == "s" for k, _ in self.queue)
        n = len(self.queue)
        self.gmode = self.ch.choose(f"guess{self.tag}{self.iter}", self.guesses, self.cost)
        self.joint = None
        if isinstance(self.gmode, tuple):
            self.gmode, self.joint = self.gmode
        self.pick = {"s": 0, "p": n_s, "mid": n_s // 2, "last": n - 1, "last s": n_s - 1, "nan": n_s - 1,
                     "all nan": None, "tie": 0, "close": n_s, "worse": n_s - 1}[self.gmode]
        self.used = set()
        self.local = []

    def optimize(self, g, params, local):
        if local:
            return self.local_answer(g, params)
        return self.global_answer(g, params)

    def matches(self, i, params, ns, np_):
        kind, want = self.queue[i]
        if (ns, np_) != ((self.ns + self.inc, self.np_) if kind == "s" else (self.ns, self.np_ + self.inc)):
            return False
        if params.shape != (2 * (ns + np_),):
            return False
        if want is not None:
            return bool(np.all(np.abs(params - want) <= 1e-12 * np.abs(want)))
        cs, es, _, _ = split(self.accepted[-1], self.ns, self.np_)
        c1, e1, cp, ep = split(params, self.ns, self.np_ + self.inc)
        lo, hi = [(0, 1), (1, 10), (10, 100)][i - (len(self.queue) - 3)]
        return np.array_equal(c1, cs) and np.array_equal(e1, es) and len(cp) == self.inc and len(ep) == self.inc \
            and bool(np.all((cp >= lo) & (cp <= hi))) and bool(np.all((ep >= lo) & (ep <= hi)))

    def local_answer(self, g, params):
        if self.queue is None:
            self.start_iteration()
        gen.need(len(self.used) < len(self.queue), lambda: f"more than {len(self.queue)} guesses are tried")
        ns, np_ = g.model.num_s, g.model.num_p
        pos = len(self.used)
        if pos in self.used or not self.matches(pos, params, ns, np_):      # any order is fine
            for pos in range(len(self.queue)):
                if pos not in self.used and self.matches(pos, params, ns, np_):
                    break
            else:
                gen.need(False, lambda: f"{params} by a model of {ns} s and {np_} p is not one of the documented guesses"
                         f" {[q for i, q in enumerate(self.queue) if i not in self.used]} (factor {self.factor})")
        self.used.add(pos)
        kind = self.queue[pos][0]
        m = self.gmode
        if m == "all nan":
            v = np.nan
        elif m == "tie":
            v = 0.9 * self.best
        elif m == "close":
            v = 0.95 * self.best * (1.0 if pos == self.pick else 1.0 + 3e-10)
        elif pos == self.pick:
            v = self.best * (1.3 if m == "worse" else 0.95)
        else:
            v = np.nan if m == "nan" and pos % 2 == 0 else self.best * (1.5 + 0.01 * (pos % 9))
        p = self.params(v, ns, np_)
        self.local.append((kind, rnd(v), p))
        return p.copy()

    def global_answer(self, g, params):
        gen.need(self.queue is not None and len(self.used) == len(self.queue),
                 lambda: f"refinement before all guesses were tried ({len(self.used)})")
        vals = [v for _, v, _ in self.local if not np.isnan(v)]
        ok = [k for k, v, p in self.local if np.array_equal(p, params, equal_nan=True)
              and (not vals or v == min(vals))]
        gen.need(ok, lambda: f"refined {params}, which is not the best guess (values {[v for _, v, _ in self.local]})")
        ns, np_ = g.model.num_s, g.model.num_p
        exp = [(self.ns + self.inc, self.np_) if k == "s" else (self.ns, self.np_ + self.inc) for k in ok]
        gen.need((ns, np_) in exp, lambda: f"refined by a model of {ns} s and {np_} p, expected {exp}")
        a = self.joint or self.ch.choose(f"answer{self.tag}{self.iter}", self.answers, self.cost)
        red = None
        if a in ("redundant s", "redundant p"):
            red = a[-1]
            if (ns if red == "s" else np_) < 2:
                a, red = "worse", None
        v = {"improved": self.best / 2, "below": self.best - 0.4 * self.thr, "equal": self.best,
             "worse": self.best * 1.01, "hair": self.best * (1.0 + 1e-10), "nan": np.nan, "huge": 1e300, "exact": 0.0,
             "just": self.best - 1.5 * self.thr}.get(a, self.best / 2)
        p = self.params(v, ns, np_, red=red)
        val = float(np.sum(p[:ns]))          # what the objective really evaluates to
        # reference step
        self.queue = None
        if red is None and val <= self.best:
            self.accepted.append(p)
            self.ns, self.np_ = ns, np_
            self.prev, self.best = self.best, val
            self.rejects, self.factor = 0, self.factor0
        else:
            self.rejects += 1
            self.factor *= 2
        return p.copy()

    def finish(self, g, r):
        gen.need(self.queue is None, "the search ended in the middle of an iteration")
        gen.need(not self.running(), f"the search ended although it could go on: {self.ns}+{self.np_} of {self.maxf}"
                 f" functions, {self.rejects} rejections, change {self.best - self.prev}")
        gen.need((r["num_s"], r["num_p"]) == (self.ns, self.np_),
                 f"result counts {(r['num_s'], r['num_p'])}, expected {(self.ns, self.np_)}")
        gen.need(self.ns + self.np_ <= max(self.maxf, 1), "more functions than allowed")
        n = self.ns + self.np_
        gen.need(np.array_equal(np.concatenate((r["coeffs"], r["exps"])), self.accepted[-1]),
                 f"result {r['coeffs']} {r['exps']}, expected {self.accepted[-1]}")
        gen.need(len(r["coeffs"]) == n and len(r["exps"]) == n, "number of parameters")
        it = r["parameters_iteration"]
        gen.need(len(it) == len(self.accepted), f"{len(it)} stored iterations, expected {len(self.accepted)}")
        gen.need(all(np.array_equal(a, b) for a, b in zip(it, self.accepted)), "stored parameters")
        perf = np.asarray(r["performance"])
        gen.need(perf.shape == (len(self.accepted), 5), f"performance has shape {perf.shape}")
        # integral of the model at the single point = its value = the objective of that iteration
        sizes, vals = [], []
        for p in self.accepted:
            vals.append(None)
            sizes.append(len(p) // 2)
        gen.need(sizes == sorted(sizes), "number of functions decreased")
        gen.need_close(perf[-1, 0], self.best, "last performance row", scale=n)
        gen.need(bool(np.all(np.diff(perf[:, 0]) <= 1e-12 * np.abs(perf[:-1, 0]) + 0.0)),
                 f"objective of accepted iterations rises: {perf[:, 0]}")
        gen.need_close(r["fun"], self.best, "objective", scale=n)
        gen.need(bool(r["success"]) is (self.rejects < 5), f"success={r['success']} after {self.rejects} rejections")
        info = str(r["exit_information"]).lower()
        if self.rejects >= 5:
            key = "did not find"
        elif n + self.inc > self.maxf:
            key = "max"
        else:
            key = "cost function"
        gen.need(key in info, f"exit information {info!r} does not mention {key!r}")
        gen.need((g.num_s, g.num_p) == (self.ns, self.np_) and
                 (g.model.num_s, g.model.num_p) == (self.ns, self.np_), "counts of the object after the run")
        return self.ns, self.np_, bool(r["success"]), key


def go(g, s, factor, disp=False, **kw):
    g.script = s
    out = io.StringIO()
    with contextlib.redirect_stdout(out), np.errstate(all="ignore"):
        r = g.run(factor, d_threshold=s.thr, max_numb_funcs=s.maxf, disp=disp, **kw)
    gen.need(bool(out.getvalue()) is disp, "display")
    return s.finish(g, r)


CHOICES = ["pick-one", "pick-two", "pick-two-lose-one"]


def accept_reject(ch, top):
    """Every sequence of acceptances (via s or p) and rejections."""
    choice = ch.choose("choice", CHOICES)
    maxf = ch.choose("max_numb_funcs", list(range(1, top + (choice != CHOICES[2]))))
    s = Script(ch, choice, maxf, THR, 2.0, [], [("s", "improved"), ("p", "improved"), ("last", "worse")], None)
    return choice, maxf, go(Scripted(choice, None), s, 2.0)


def rejections(ch, top):
    """Rejections only matter through their number: guess fixed, answers free."""
    choice = ch.choose("choice", CHOICES)
    maxf = ch.choose("max_numb_funcs", [2, 3] if top > 4 else [3])
    factor = ch.choose("factor", [2.0, 1.5, 100.0, 0.5])
    s = Script(ch, choice, maxf, THR, factor, ["improved", "worse", "nan"] if top > 4 else ["improved", "worse"],
               [ch.choose("guess", ["s", "last", "last s"])], None)
    return choice, maxf, go(Scripted(choice, None), s, factor)


ANSWERS = ["improved", "worse", "nan", "redundant s", "redundant p", "equal", "below", "huge", "exact", "just", "hair"]
GUESSES = ["s", "p", "last", "last s", "mid", "nan", "all nan", "tie", "close", "worse"]


def deviations(ch, top, start):
    """Long runs with a few unusual answers."""
    choice = ch.choose("choice", CHOICES)
    start = ch.choose("start", start, 1)
    s = Script(ch, choice, top, THR * min(1.0, start), 2.0, ANSWERS, GUESSES, 1, start=start)
    return choice, go(Scripted(choice, None), s, 2.0, disp=ch.flag("display", 1))


def stubborn(ch, top):
    """Long runs whose default answer is a rejection."""
    choice = ch.choose("choice", CHOICES)
    ans = ["redundant s", "improved", "worse", "nan", "redundant p", "equal", "below"]
    s = Script(ch, choice, top, THR, 2.0, ans, ["p", "s", "nan", "worse"], 1)
    return choice, go(Scripted(choice, None), s, 2.0)


def again(ch, runs):
    """Later runs of one object start afresh."""
    choice = ch.choose("choice", CHOICES)
    g = Scripted(choice, None)
    out = []
    for i in range(runs):
        maxf = ch.choose(f"max{i}", [1, 3])
        s = Script(ch, choice, maxf, THR, 2.0, ["improved", "worse", "nan"], ["s", "p"], 1, tag=f"run{i}.",
                   start=[64.0, 1e6][i % 2])
        out.append(go(g, s, 2.0))
    return choice, tuple(out)


def thresholds(ch, tops):
    """The search stops exactly when the change is below the threshold."""
    choice = ch.choose("choice", CHOICES)
    thr = ch.choose("threshold", [1e-8, 1e-3, 16.0, 31.9999, 32.0, 32.0001, 1e9])
    maxf = ch.choose("max_numb_funcs", tops)
    s = Script(ch, choice, maxf, thr, 2.0, ["improved", "equal", "worse"], ["s", "p"], 1)
    return choice, thr, maxf, go(Scripted(choice, None), s, 2.0)


def extra(ch):
    """Guesses supplied by the caller take part in the search."""
    choice = ch.choose("choice", CHOICES)
    inc = 2 if choice == "pick-two" else 1
    seen, given = [], []

    class Free(Scripted):
        def get_best_one_function_solution(self):
            return np.array([64.0, 1.0])

        def get_optimization_routine(self, params, *args, local=False):
            if local:
                seen.append(np.array(params))
            n = len(params) // 2
            c = np.ones(n)
            c[0] = 64.0 / 2 ** n - (self.model.num_s - 1)
            return np.concatenate((c, 0.5 * 2.0 ** np.arange(n)))

    def more(params):
        n = len(params) // 2 + inc
        given.append(np.concatenate((np.full(n, 7.0), 11.0 + np.arange(n))))
        return [given[-1]]

    with np.errstate(all="ignore"):
        Free(choice, None).run(2.0, max_numb_funcs=1 + inc, add_extra_choices=more)
    gen.need(len(given) == 1, "the caller's function was not asked once per iteration")
    if not any(x.shape == given[0].shape and np.array_equal(x, given[0]) for x in seen):
        ch.note("greedy-extra-choices-ignored", "guesses returned by add_extra_choices are never optimized")
    return choice


class First:
    """Always the first option, without a choice point."""

    def choose(self, label, options, cost=None):
        return options[0]


def ranges(ch, tops):
    """The random guesses use the whole of their documented ranges."""
    choice = ch.choose("choice", CHOICES)
    lows, highs = np.full((3, 2), np.inf), np.full((3, 2), -np.inf)

    class Watch(Scripted):
        def get_optimization_routine(self, params, *args, local=False):
            if local and self.model.num_s == 1 and self.model.num_p:
                k = self.model.num_p
                cs, es, cp, ep = split(np.asarray(params), 1, k)
                for j, x in enumerate((cp, ep)):
                    i = int(np.searchsorted([1.0, 10.0], x[0]))
                    lows[i, j], highs[i, j] = min(lows[i, j], *x), max(highs[i, j], *x)
            return super().get_optimization_routine(params, *args, local=local)

    np.random.seed(ch.choose("seed", [0, 7]))
    inc = 2 if choice == "pick-two" else 1
    for _ in range(tops):
        s = Script(First(), choice, 1 + inc, THR, 2.0, ["improved"], ["s"], None)
        go(Watch(choice, None), s, 2.0)
    for i, (lo, hi) in enumerate([(0, 1), (1, 10), (10, 100)]):
        w = 0.2 * (hi - lo)
        gen.need(bool(np.all(lows[i] < lo + w) and np.all(highs[i] > hi - w)), lambda: f"random guesses of {tops}"
                 f" searches span {lows[i]} to {highs[i]}, documented {lo} to {hi}")
    return choice


def scenarios(tier):
    t = tier == "thorough"
    return [("accept-reject", lambda ch: accept_reject(ch, 5 if t else 4), None),
            ("rejections", lambda ch: rejections(ch, 5 if t else 4), None),
            ("deviations", lambda ch: deviations(ch, 6 if t else 4, [64.0, 1e290, 1e-7]), 3 if t else 2),
            ("stubborn", lambda ch: stubborn(ch, 5 if t else 4), 3 if t else 2),
            ("again", lambda ch: again(ch, 3 if t else 2), 4 if t else 2),
            ("thresholds", lambda ch: thresholds(ch, [1, 4, 6] if t else [1, 4]), 3 if t else 2), ("extra", extra, None),
            ("ranges", lambda ch: ranges(ch, 400 if t else 200), None)]
