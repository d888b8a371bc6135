"""C32: searchers sample from the prior the user declared (or uniformly)."""
from __future__ import annotations

import math
import random

from vlib import gen, mfsim, mw, simopt

LEVEL = "exploration"
RULE = ("one case is one searcher at one state of one history (none, some trials, running trials), asked for some 500 new configurations: each value (in unit coordinates, on the log scale for log parameters), the distance to the defaults summed over the "
        "parameters and the number of categoricals at their default are compared (two-sample Kolmogorov-Smirnov, p < 1e-8) with 8000 draws of an independent sampler of the declared distribution; or an asynchronous Hyperband searcher asked 600 times on an empty history, the rungs compared (chi-square, p < 1e-8) with the declared shares of the brackets; distinct_nontrivial counts distinct (searcher, options, kinds of parameters, state)")
ASSUMPTIONS = ["statistical comparisons reject correct samplers with probability below 1e-8 each", "distributions are those documented: a gaussian truncated to the bounds around the default, with a standard deviation of 0.5, 0.25 or 0.125 of the range for low, medium and high confidence "
               "(the default 2, 4 or 6 times as likely as another choice); for pibo 0.75, 0.5 and 0.25 of the range"]
MIN = {"quick": {"cases_compared": 80, "samples": 40000, "ks_tests": 350, "prior_params": 120, "uniform_params": 150, "after_history": 20, "rung_cases": 9}}
JOBS = 8

NUM = {"low": 0.5, "medium": 0.25, "high": 0.125}
CAT = {"low": 2.0, "medium": 4.0, "high": 6.0}
P = 1e-8
# searcher -> options
KINDS = ["random_search", "random_search+prior", "successive_halving_prior", "asha_prior", "hyperband_custom_default", "successive_halving", "asha", "hyperband", "mobster", "pibo", "bayesian_optimization", "pibo-fallback", "bayesian_optimization-fallback"]


def cases(tier, seed):
    rng = random.Random(f"c32-{seed}")
    for r in range(12 if tier == "quick" else 160):
        for k in KINDS:
            s = rng.randrange(1 << 30)
            yield {"kind": k, "space": mkspace(rng, sobol="bayesian" in k), "conf": rng.choice(["low", "medium", "high", None, "omit"]), "interleave": rng.choice([0.0, 0.0, 0.5, 0.9, 1.0]), "eta": rng.choice([2, 3]),
                   "steps": rng.choice([0, 0, 1, 7, 30]), "running": rng.choice([0, 0, 3]), "seed": s}
    for r in range(9 if tier == "quick" else 90):
        yield {"kind": "rungs", "searcher": ["mobster", "priorband_asha_hyperband"][r % 2], "space": mkspace(rng, sobol=False), "eta": rng.choice([2, 3, 4]), "upper": rng.choice([9, 27, 81]), "seed": rng.randrange(1 << 30)}


def mkspace(rng, sobol):
    sp = {}
    n = rng.choice([1, 2, 3, 4])
    for i in range(n):
        t = rng.choice(["float", "float", "int", "int", "cat"]) if i else rng.choice(["float", "int"])
        name = f"{rng.choice('abxyz')}{i}"
        if t == "float":
            log = rng.random() < 0.4
            lo, hi = rng.choice([(1e-5, 1e-1), (1.0, 1000.0), (0.5, 1.0)]) if log else rng.choice([(0.0, 1.0), (-5.0, 10.0), (0.0, 1e6)])
            s = {"type": "float", "lower": lo, "upper": hi, "log": log}
        elif t == "int":
            log = rng.random() < 0.4
            lo, hi = rng.choice([(1, 1000), (1, 50), (8, 512)]) if log else rng.choice([(0, 1000), (1, 20), (-50, 50), (0, 3)])
            s = {"type": "int", "lower": lo, "upper": hi, "log": log}
        else:
            s = {"type": "cat", "choices": rng.choice([["a", "b"], ["x", "y", "z"], [1, 2, 3, 4], ["c%d" % j for j in range(8)]])}
        if rng.random() < (0.8 if not sobol else 0.5):
            if t == "cat":
                s["default"] = rng.choice(s["choices"])
            else:
                u = rng.choice([0.0, 0.05, 0.3, 0.9, 1.0])
                v = math.exp(math.log(lo) + u * math.log(hi / lo)) if log else lo + u * (hi - lo)
                s["default"] = int(min(hi, max(lo, round(v)))) if t == "int" else min(hi, max(lo, v))
            s["default_confidence"] = rng.choice(["low", "medium", "high"])
        sp[name] = s
    sp["epochs"] = {"type": "int", "lower": 1, "upper": rng.choice([4, 9, 27]), "log": False, "is_fidelity": True}
    items = list(sp.items())
    rng.shuffle(items)
    return dict(items)


# ---- the declared distributions ----------------------------------------------------------------------------------
def bounds(s):
    """What the float behind covers (integers: half a step more on both sides), on the scale on which it is sampled."""
    lo, hi = (s["lower"] - 0.5, s["upper"] + 0.5) if s["type"] == "int" else (s["lower"], s["upper"])
    return (math.log(lo), math.log(hi)) if s["log"] else (lo, hi)


def unit(s, v):
    if s["type"] == "cat":
        return [type(c) is type(v) and c == v for c in s["choices"]].index(True)
    lo, hi = bounds(s)
    return ((math.log(v) if s["log"] else v) - lo) / (hi - lo)


def snap(s, u, dom):
    """The value in unit coordinates after rounding to an integer (dom: as the domains do, which Bayesian optimization samples)."""
    if s["type"] != "int":
        return u
    a, b = s["lower"], s["upper"]
    if dom:
        v = math.exp(math.log(a) + u * math.log(b / a)) if s["log"] else a + math.floor(u * (b - a + 1))
    else:
        lo, hi = bounds(s)
        v = lo + u * (hi - lo)
        v = math.exp(v) if s["log"] else v
    return unit(s, min(b, max(a, round(v))))


def tnorm(npr, m, sd):
    while True:
        v = npr.normal(m, sd)
        if 0 <= v <= 1:
            return v


def draw(npr, s, prior, conf, pibo):
    """One value (unit coordinate or index of the choice)."""
    k = len(s["choices"]) if s["type"] == "cat" else 0
    if not prior or s.get("default") is None:
        return int(npr.integers(k)) if k else snap(s, npr.random(), pibo)
    c = conf or s["default_confidence"]
    if k:
        w = [1.0] * k
        w[unit(s, s["default"])] = CAT[c]
        t = sum(w)
        return int(npr.choice(k, p=[x / t for x in w]))
    if not pibo:
        return snap(s, tnorm(npr, unit(s, s["default"]), NUM[c]), False)
    f = math.log if s["log"] else float
    mu = (f(s["default"]) - f(s["lower"])) / (f(s["upper"]) - f(s["lower"]))
    return snap(s, tnorm(npr, min(1.0, max(0.0, mu)), {"low": 0.75, "medium": 0.5, "high": 0.25}[c]), True)


def features(sp):
    names = sorted(n for n in sp if n != "epochs")
    d = {n: (unit(sp[n], sp[n]["default"]) if sp[n].get("default") is not None else (0.5 if sp[n]["type"] != "cat" else 0)) for n in names}
    out = {n: (lambda v, n=n: float(v[n])) for n in names}
    nums, cats = [n for n in names if sp[n]["type"] != "cat"], [n for n in names if sp[n]["type"] == "cat"]
    out["distance to the defaults"] = lambda v: round(sum(abs(v[n] - d[n]) for n in nums), 9)
    if cats:
        out["categoricals at their default"] = lambda v: float(sum(v[n] == d[n] for n in cats)) + 10.0 * (sum(abs(v[n] - d[n]) for n in nums) > 0.3 * len(nums))
    return out


def rungs(case, res):
    """Asynchronous Hyperband: bracket s with a share proportional to eta^(K - s) (K + 1) / (K - s + 1)."""
    from scipy.stats import chisquare

    sp = {**case["space"], "epochs": {**case["space"]["epochs"], "upper": case["upper"]}}
    if case["searcher"].startswith("priorband"):
        sp = {n: ({**s, "default": s.get("default", s["choices"][0] if s["type"] == "cat" else s["lower"])} if n != "epochs" else s) for n, s in sp.items()}
    rng = random.Random(case["seed"])
    mw.seed_all(case["seed"])
    eta = case["eta"]
    sc = mfsim.Sched(sp["epochs"], eta)
    K = sc.max_rung
    sim = simopt.Sim(simopt.mkopt(case["searcher"], sp, ignore_errors=True, eta=eta, sample_default_first=False))
    cnt = [0] * (K + 1)
    for _ in range(600):
        s = sim.ask(rng)[0]
        cnt[int(s.id.split("_")[1])] += 1
    w = [eta ** (K - s) * (K + 1) / (K - s + 1) for s in range(K + 1)]
    want = [600 * x / sum(w) for x in w]
    res.count("rung_cases")
    res.sig("rungs", case["searcher"], eta, K)
    keep = [i for i in range(K + 1) if want[i] >= 5]
    a, b = [cnt[i] for i in keep] + [sum(c for i, c in enumerate(cnt) if i not in keep)], [want[i] for i in keep] + [sum(x for i, x in enumerate(want) if i not in keep)]
    if b[-1] < 1:  # next to never
        a, b = [a[0] + a[-1], *a[1:-1]], [b[0] + b[-1], *b[1:-1]]
    if len(a) > 1 and chisquare(a, b).pvalue < P:
        res.viol("rungs", f"{case['searcher']} with eta {eta} and fidelity {sp['epochs']}: 600 new configurations per rung {cnt}, expected {[round(x, 1) for x in want]}")


# ---- one case ----------------------------------------------------------------------------------------------------
def run_case(case, d, res):
    import numpy as np
    from scipy.stats import ks_2samp

    if case["kind"] == "rungs":
        return rungs(case, res)
    rng = random.Random(case["seed"])
    mw.seed_all(case["seed"])
    sp, kind = case["space"], case["kind"]
    npr = np.random.default_rng(case["seed"])
    if kind.startswith(("pibo", "bayesian")):
        sp = {n: v for n, v in sp.items() if n != "epochs"}
    searcher = kind.split("+")[0].split("-")[0]
    opts, conf, p_prior, after = {}, None, 0.0, 0
    if kind.startswith("random_search"):
        opts = {"ignore_fidelity": rng.random() < 0.5, "use_priors": kind.endswith("+prior")}
        p_prior = float(kind.endswith("+prior"))
    elif searcher in ("pibo", "bayesian_optimization"):
        p_prior = float(searcher == "pibo")
        opts = {"initial_design_size": 1 if kind.endswith("fallback") else 400, "sample_default_first": False}
    else:
        opts = {"eta": case["eta"], "random_interleave_prob": case["interleave"], "sample_default_first": False}
        if searcher in ("successive_halving_prior", "asha_prior", "hyperband_custom_default"):
            p_prior = (0.5 if searcher == "hyperband_custom_default" else 1.0) * (1 - case["interleave"])
            conf = case["conf"]
            if conf == "omit":
                conf = "medium"  # documented default
            else:
                opts["prior_confidence"] = conf
    sim = simopt.Sim(simopt.mkopt(searcher, sp, ignore_errors=True, **opts))
    got = []

    def take(s):
        if s.previous_config_id is not None:
            return False
        got.append({n: unit(sp[n], s.config[n]) for n in sp if n != "epochs"})
        res.count("samples")
        return True

    if searcher in ("pibo", "bayesian_optimization"):
        for i in range(400):
            s = sim.opt.ask(trials=sim.trials, budget_info=None)
            if kind.endswith("fallback"):
                if i:  # the first is the initial design
                    take(s)
                if i < 2:
                    sim.add(s)
            else:
                take(s)
                sim.add(s)
    else:
        model = searcher == "mobster"  # proposals of a model are not those of the prior
        steps = 0 if model else case["steps"]
        def step():
            s, _, _ = sim.ask(rng)
            t = sim.add(s)
            if len(sim.running) > case["running"]:
                sim.finish(rng.choice(sim.running), loss=rng.gauss(0, 1), cost=1.0)
            return t
        for _ in range(steps):
            step()
        for _ in range(300):
            if sim.ask(rng)[0].previous_config_id is None:
                break
            step()
        after = len(sim.trials)
        for _ in range(500):
            take(sim.ask(rng)[0])
    if len(got) < 100:
        res.inconclusive("too few new configurations")
        return
    names = [n for n in sp if n != "epochs"]
    want = []
    for _ in range(8000):
        prior = npr.random() < p_prior
        want.append({n: draw(npr, sp[n], prior, conf, searcher in ("pibo", "bayesian_optimization")) for n in names})
    res.count("cases_compared")
    res.count("after_history", after > 0)
    res.count("prior_params" if p_prior else "uniform_params", len(names))
    res.sig(kind, tuple(sorted((sp[n]["type"], sp[n].get("log"), sp[n].get("default") is not None) for n in names)), str(case["conf"] if conf else None), case["interleave"] if "random_interleave_prob" in opts else 0, after > 0)
    for name, fn in features(sp).items():
        a, b = [fn(v) for v in got], [fn(v) for v in want]
        if kind == "bayesian_optimization" and name not in sp:
            continue  # a Sobol sequence: only the margins are uniform by chance
        # equal up to rounding is equal
        p = ks_2samp([round(x, 9) for x in a], [round(x, 9) for x in b], method="asymp").pvalue
        res.count("ks_tests")
        if p < P:
            q = lambda z: [round(sorted(z)[int(t * (len(z) - 1))], 3) for t in (0.1, 0.3, 0.5, 0.7, 0.9)]
            res.viol("prior" if p_prior else "uniform", f"{kind} {opts} on {sp} after {after} trials: {name} of {len(a)} new configurations is not distributed as declared (p={p:.1e}); deciles 1 3 5 7 9 {q(a)}, expected {q(b)} (share of the prior {p_prior})")
            return
    if case["seed"] % 20 == 0:
        res.sample = case
