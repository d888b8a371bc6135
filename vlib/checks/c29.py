"""C29: where PriorBand searchers take new configurations from."""
from __future__ import annotations

import inspect
import math
import random

from vlib import gen, mfsim, mw, simopt

LEVEL = "exploration"
RULE = ("three kinds of cases. mixture: a PriorBand searcher on an asynchronous history, given (through its public argument) a sampling policy that records what it is handed, compared at every new configuration with an independent "
        "computation from the history (shares, start of incumbent sampling, incumbent). policy: the ensemble policy sampled 500 times with given shares and incumbent, compared (two-sample Kolmogorov-Smirnov, p < 1e-8) with an independent "
        "sampler. ask: a searcher asked 250 times at one state of a history, the proposals compared likewise with an independent sampler; distinct_nontrivial counts distinct (searcher, weighting, style, rung, incumbent sampling) and (policy, shares)")
ASSUMPTIONS = ["statistical comparisons reject correct samplers with probability below 1e-8 each", "early_stopping_rate is 0 (other values only shift the rungs)"]
MIN = {"quick": {"histories": 60, "new_configs": 1200, "inc_active": 300, "inc_inactive": 300, "incumbents": 250, "policies": 60, "asks": 2500, "ask_inc": 2, "ks_tests": 150}}
JOBS = 8

SEARCHERS = ["priorband", "priorband_asha", "priorband_asha_hyperband"]
CONF = {"low": 0.5, "medium": 0.25, "high": 0.125}
P = 1e-8


def cases(tier, seed):
    rng = random.Random(f"c29-{seed}")
    q = tier == "quick"
    for r in range(24 if q else 400):
        for s in SEARCHERS:
            c = mfsim.gen_case(rng, s)
            c["opts"].pop("early_stopping_rate", None)
            c["opts"].update(prior_weight_type=rng.choice(["geometric", "geometric", "linear", "50-50"]), inc_style=rng.choice(["dynamic", "constant", "decay"]))
            yield {"kind": "mixture", **c}
    for r in range(72 if q else 800):
        w = rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, 1), (0.2, 0.3, 0.5), (0.6, 0.1, 0.3), (0.1, 0.8, 0.1), (0.5, 0.5, 0.0), (0.25, 0.25, 0.5)])
        yield {"kind": "policy", "w": w, "inc_type": ["mutation", "gaussian", "crossover", "hypersphere"][r % 4], "pts": points(rng), "rate": rng.choice([0.5, 0.2, 0.9, None]), "std": rng.choice([0.25, 0.05, 0.1]),
               "dist": rng.choice([0.3, 0.1, 0.6]), "seed": rng.randrange(1 << 30)}
    for r in range(24 if q else 240):
        yield {"kind": "ask", "searcher": SEARCHERS[r % 3], "pts": points(rng), "opts": {"eta": rng.choice([2, 3]), "prior_weight_type": rng.choice(["geometric", "linear", "50-50"]), "inc_style": rng.choice(["constant", "decay"]),
               "inc_sample_type": ["mutation", "gaussian", "crossover"][(r // 3) % 3], "inc_mutation_rate": rng.choice([0.5, 0.2, 0.9]), "inc_mutation_std": rng.choice([0.05, 0.1, 0.25]), "prior_confidence": rng.choice(["low", "medium", "high"]),
               "sample_default_first": rng.random() < 0.5, "sample_default_at_target": False}, "steps": rng.choice([3, 25, 60, 90]), "workers": rng.choice([1, 3]), "upper": rng.choice([4, 9]), "seed": rng.randrange(1 << 30)}


def points(rng):
    """Default and incumbent in the unit square, far apart, and the confidences."""
    a = rng.choice([0.0, 0.1, 0.2])
    return {"default": (a, rng.choice([0.05, 0.95])), "inc": (rng.choice([0.8, 0.9, 0.97]), rng.choice([0.4, 0.5])), "conf": [rng.choice(["medium", "high"]) for _ in range(2)]}


def run_case(case, d, res):
    {"mixture": mixture, "policy": policy, "ask": ask}[case["kind"]](case, res)
    if case["seed"] % 20 == 0:
        res.sample = case


# ---- mixture ---------------------------------------------------------------------------------------------------
def recorder(log, fid):
    from neps.optimizers.multi_fidelity.sampling_policy import EnsemblePolicy

    class Recorder(EnsemblePolicy):
        def sample(self, *a, **kw):
            b = inspect.signature(EnsemblePolicy.sample).bind(self, *a, **kw).arguments
            inc = b.get("inc")
            log.append((None if inc is None else {k: v for k, v in inc.hp_values().items() if k != fid}, dict(b["weights"]) if b.get("weights") is not None else None))
            return super().sample(*a, **kw)

    return Recorder


def split(tid):
    c, r = tid.split("_")
    return int(c), int(r)


def state(case, sim, sc):
    """(resources used, number of finished evaluations at the highest rung, {config: (loss, hp values)} of evaluated configurations not being continued)"""
    top = {}
    for tid in sim.trials:
        c, r = split(tid)
        top[c] = max(top.get(c, -1), r)
    best, used, nmax = {}, 0.0, 0
    for tid, t in sim.trials.items():
        c, r = split(tid)
        if t.report is not None:
            nmax += r == sc.max_rung
            if r == top[c]:
                used += sc.fid[r]
                best[c] = (mfsim.rank_loss(case, t), t.config)
    return used, nmax, best


def bracket_cost(sc):
    tot = sc.size(0, 0) * sc.fid[0]
    for r in range(1, sc.kmax + 1):
        tot += sc.size(0, r) * (sc.fid[r] - sc.fid[r - 1])
    return tot


def uniform_share(opts, sc, rung):
    eta = opts["eta"]
    t = opts["prior_weight_type"]
    wp = 1.0 if t == "50-50" else float(eta) ** rung if t == "geometric" else 1.0 + (eta - 1.0) * (rung / sc.kmax if sc.kmax else 0.0)
    return 1 / (1 + wp)


def inc_ratio(opts, used, fmax):
    """Share of the incumbent among prior and incumbent; None if it depends on more than counts."""
    if opts["inc_style"] == "constant":
        return 1 / (1 + opts["eta"])
    if opts["inc_style"] == "decay":
        return 1 - 0.5 ** math.floor(used / (opts["eta"] * fmax))
    return None


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def mixture(case, res):
    name, o = case["searcher"], case["opts"]
    fid = mfsim.fid_of(case["spec"])
    f = case["spec"][fid]
    sc = mfsim.Sched(f, o["eta"])
    what = f"{name} {o} with fidelity {f}"
    log = []
    c2 = {**case, "opts": {**o, "sampling_policy": recorder(log, fid)}}
    res.count("histories")
    cost = bracket_cost(sc)
    for sim, s in mfsim.drive(c2, res):
        calls, log[:] = list(log), []
        if s.previous_config_id is not None or (not sim.trials and o.get("sample_default_first")):
            continue
        if not calls:
            res.viol("not-from-mixture", f"{what}: new configuration {s.id} was not sampled by the policy")
            return
        inc, w = calls[-1]
        rung = split(s.id)[1]
        used, nmax, best = state(case, sim, sc)
        res.count("new_configs")
        hist = f"proposal {s.id} after {len(sim.trials)} trials, resources {used} of {cost}, {nmax} finished at the highest rung, shares {w}"
        if w is None or set(w) != {"random", "prior", "inc"} or any(not math.isfinite(v) or v < -1e-12 for v in w.values()) or not near(sum(w.values()), 1.0):
            res.viol("shares-invalid", f"{what}: {hist}")
            return
        u = uniform_share(o, sc, rung)
        if not near(w["random"], u):
            res.viol("uniform-share", f"{what}: uniform sampling has share {w['random']}, expected {u} at rung {rung}; {hist}")
            return
        if near(used, cost, 1e-6) and used != cost:
            continue  # rounding decides
        active = used >= cost and nmax > 0
        res.count("inc_active" if active else "inc_inactive")
        ratio = inc_ratio(o, used, f["upper"])
        res.sig(name, o["prior_weight_type"], o["inc_style"], rung, active)
        if not active:
            if w["inc"] > 1e-12:
                res.viol("incumbent-too-early", f"{what}: incumbent sampling has a share before one successive halving bracket was spent and a configuration evaluated at the highest fidelity; {hist}")
                return
            continue
        if ratio is not None and not near(w["inc"], (1 - u) * ratio):
            k = used / (o["eta"] * f["upper"])
            if o["inc_style"] == "decay" and near(k, round(k), 1e-6):
                continue
            res.viol("incumbent-share", f"{what}: incumbent sampling has share {w['inc']}, expected {(1 - u) * ratio}; {hist}")
            return
        lo = min(v for v, _ in best.values())
        ok = [{k: v for k, v in c.items() if k != fid} for v, c in best.values() if v == lo]
        res.count("incumbents")
        if inc is None or not any(same(inc, c) for c in ok):
            res.viol("wrong-incumbent", f"{what}: incumbent {inc}, but the best evaluated configuration is {ok[:3]} with loss {lo}; losses {sorted((c, v[0]) for c, v in best.items())}")
            return


def same(a, b):
    return set(a) == set(b) and all(near(a[k], b[k]) if isinstance(a[k], float) and isinstance(b[k], float) else a[k] == b[k] for k in a)


# ---- independent samplers --------------------------------------------------------------------------------------
def tnorm(npr, mu, sd):
    while True:
        v = npr.normal(mu, sd)
        if 0 <= v <= 1:
            return v


def ref(npr, w, inc_type, pts, conf, rate=0.5, std=0.25, dist=None, gconf=None):
    """One configuration (x, y) of the mixture w = (random, prior, inc)."""
    dflt, inc = pts["default"], pts["inc"]
    prior = lambda: tuple(tnorm(npr, m, c) for m, c in zip(dflt, conf))
    unif = lambda: (npr.random(), npr.random())
    k = npr.choice(3, p=w)
    if k == 0:
        return unif()
    if k == 1:
        return prior()
    if inc_type == "gaussian":
        return tuple(tnorm(npr, m, c) for m, c in zip(inc, gconf or conf))
    if inc_type == "hypersphere":
        while True:
            v = unif()
            if math.hypot(v[0] - inc[0], v[1] - inc[1]) < dist:
                return v
    if inc_type == "mutation":
        while True:
            hit = [npr.random() <= rate for _ in inc]
            if any(hit):
                return tuple(tnorm(npr, m, std) if h else m for m, h in zip(inc, hit))
    # crossover with a sample from the prior, the less likely the more the shares of prior and incumbent differ
    diff = abs(w[1] - w[2]) / (1 - w[0])
    other = unif() if npr.random() < diff else prior()
    while True:
        hit = [npr.random() < 0.5 for _ in inc]
        if any(hit):
            return tuple(o if h else m for o, m, h in zip(other, inc, hit))


def compare(res, mech, what, got, want, inc):
    """Marginals, the distance to the incumbent and the number of coordinates of the incumbent that were kept."""
    from scipy.stats import ks_2samp

    feats = {"x": lambda v: v[0], "y": lambda v: v[1], "distance to the incumbent": lambda v: math.hypot(v[0] - inc[0], v[1] - inc[1]), "kept values": lambda v: (v[0] == inc[0]) + 2 * (v[1] == inc[1])}
    for name, fn in feats.items():
        a, b = [float(fn(v)) for v in got], [float(fn(v)) for v in want]
        p = ks_2samp(a, b, method="asymp").pvalue
        if res is not None:
            res.count("ks_tests")
        if p < P and res is None:
            return False
        if p < P:
            q = lambda z: [round(sorted(z)[int(t * (len(z) - 1))], 3) for t in (0.1, 0.3, 0.5, 0.7, 0.9)]
            res.viol(mech, f"{what}: {name} of {len(a)} samples is not distributed as expected (p={p:.1e}); deciles 1 3 5 7 9 {q(a)}, expected {q(b)}")
            return False
    return True


def unit_spec(pts, upper=9):
    return {"x": {"type": "float", "lower": 0.0, "upper": 1.0, "log": False, "default": pts["default"][0], "default_confidence": pts["conf"][0]},
            "y": {"type": "float", "lower": 0.0, "upper": 1.0, "log": False, "default": pts["default"][1], "default_confidence": pts["conf"][1]},
            "epochs": {"type": "int", "lower": 1, "upper": upper, "log": False, "is_fidelity": True}}


def policy(case, res):
    import numpy as np

    from neps.optimizers.multi_fidelity.sampling_policy import EnsemblePolicy

    mw.seed_all(case["seed"])
    pts, w = case["pts"], case["w"]
    space = simopt.mkspace(unit_spec(pts))
    pol = EnsemblePolicy(pipeline_space=space, inc_type=case["inc_type"])
    inc = space.from_dict({"x": pts["inc"][0], "y": pts["inc"][1], "epochs": 3})
    before = dict(inc.hp_values())
    kw = {}
    rate, std = 0.5, 0.25
    if case["inc_type"] == "hypersphere":
        kw["distance"] = case["dist"]
    elif case["inc_type"] == "mutation" and case["rate"] is not None:
        rate, std = case["rate"], case["std"]
        kw.update(inc_mutation_rate=rate, inc_mutation_std=std)
    got = []
    for _ in range(500):
        c = pol.sample(inc=inc, weights={"random": w[0], "prior": w[1], "inc": w[2]}, **kw)
        v = c.hp_values()
        if not (0 <= v["x"] <= 1 and 0 <= v["y"] <= 1):
            res.viol("outside", f"{v}")
            return
        got.append((v["x"], v["y"]))
        if dict(inc.hp_values()) != before:
            res.viol("incumbent-changed", f"sampling with {case['inc_type']} changed the incumbent from {before} to {dict(inc.hp_values())}")
            return
    res.count("policies")
    res.sig("policy", case["inc_type"] if w[2] else "", w)
    npr = np.random.default_rng(case["seed"])
    want = [ref(npr, w, case["inc_type"], pts, [CONF[c] for c in pts["conf"]], rate, std, case["dist"]) for _ in range(8000)]
    compare(res, f"policy:{case['inc_type'] if w[2] else 'random-prior'}", f"ensemble policy with shares (random, prior, incumbent) {w}, {case['inc_type']} {kw}, {pts}", got, want, pts["inc"])


def ask(case, res):
    import numpy as np

    rng = random.Random(case["seed"])
    mw.seed_all(case["seed"])
    o = case["opts"]
    pts = case["pts"]
    spec = unit_spec(pts, case["upper"])
    sc = mfsim.Sched(spec["epochs"], o["eta"])
    sim = simopt.Sim(simopt.mkopt(case["searcher"], spec, ignore_errors=True, **o))
    best = (math.inf, None)
    for step in range(case["steps"]):
        sim.add(sim.ask(rng)[0])
        while len(sim.running) >= case["workers"]:
            tid = rng.choice(sim.running)
            c = sim.trials[tid].config
            # a minimum far from the default
            sim.finish(tid, loss=math.hypot(c["x"] - pts["inc"][0], c["y"] - pts["inc"][1]) + 0.1 / c["epochs"], cost=1.0)
    for _ in range(200):  # to a state in which a new configuration is due (never only promotions)
        s, _, _ = sim.ask(rng)
        if s.previous_config_id is None:
            break
        sim.add(s)
        tid = rng.choice(sim.running)
        c = sim.trials[tid].config
        sim.finish(tid, loss=math.hypot(c["x"] - pts["inc"][0], c["y"] - pts["inc"][1]) + 0.1 / c["epochs"], cost=1.0)
    else:
        res.inconclusive("only promotions")
        return
    used, nmax, best = state({"eloss": None}, sim, sc)
    active = used >= bracket_cost(sc) and nmax > 0
    by = {}
    for _ in range(250):
        s, _, _ = sim.ask(rng)
        if s.previous_config_id is None:
            by.setdefault(split(s.id)[1], []).append((s.config["x"], s.config["y"]))
        res.count("asks")
    lo = min(best.values(), key=lambda v: v[0]) if best else None
    for rung, got in by.items():
        if len(got) < 60:
            continue
        u = uniform_share(o, sc, rung)
        wi = (1 - u) * inc_ratio(o, used, case["upper"]) if active else 0.0
        w = (u, 1 - u - wi, wi)
        inc = (lo[1]["x"], lo[1]["y"]) if active else (0.5, 0.5)
        npr = np.random.default_rng(case["seed"])
        # around the incumbent, a gaussian may have the confidence asked of the searcher or that of the parameters (the documentation leaves it open)
        confs = [[CONF[o["prior_confidence"]]] * 2] + ([[CONF[c] for c in pts["conf"]]] if o["inc_sample_type"] == "gaussian" else [])
        want = [[ref(npr, w, o["inc_sample_type"], {"default": pts["default"], "inc": inc}, [CONF[o["prior_confidence"]]] * 2, o["inc_mutation_rate"], o["inc_mutation_std"], gconf=c) for _ in range(8000)] for c in confs]
        res.count("ask_inc", active)
        res.sig("ask", case["searcher"], o["inc_sample_type"], rung, active)
        what = f"{case['searcher']} {o} asked {len(got)} times at rung {rung} after {len(sim.trials)} trials (shares {w}, default {pts['default']}, incumbent {inc})"
        if len(want) == 2 and compare(None, "", what, got, want[1], inc):
            continue
        if not compare(res, "proposals", what, got, want[0], inc):
            return
