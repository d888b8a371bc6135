"""C24: what the surrogate models are given, and that the proposals follow from it."""
from __future__ import annotations

import math
import random
import warnings

from vlib import gen, mfsim, simopt

LEVEL = "exploration"
RULE = ("a case is a generated history given to Bayesian optimization (plain, with priors, with costs) or to a multi-fidelity searcher with a model, with recorders on the constructors of the third-party model and acquisition function: "
        "their rows are decoded and compared with the history; or a group of problems with a known answer, on which the proposals are judged statistically; or an initial design; distinct_nontrivial counts distinct (searcher, evaluated, failed, pending, options)")
ASSUMPTIONS = ["at most 30 combinations of categorical values (more are refused)", "failed, NaN and infinite losses are replaced by a median of the others", "statistical judgements have thresholds far from the behaviour observed (see DESIGN.md)"]
MIN = {"quick": {"fits": 120, "rows": 400, "pending_rows": 70, "replaced_losses": 80, "cost_rows": 70, "mf_fits": 60, "mf_rows": 400, "designs": 60, "design_points": 300, "problems_min": 20, "problems_prior": 20, "problems_cost": 20}}
CASE_TIMEOUT = 300


def cases(tier, seed):
    rng = random.Random(f"c24-{seed}")
    k = 1 if tier == "quick" else 12
    for i in range(2 * k):
        for t in ("prior", "cost", "min"):
            yield {"kind": t, "n": 16, "seed": rng.randrange(1 << 30)}
    for i in range(14 * k):
        s = rng.choice(["mobster", "priorband_bo"])
        yield {"kind": "mf", "case": mfsim.gen_case(rng, s, n=rng.choice([20, 30]))}
    for i in range(140 * k):
        spec = gen_small(rng)
        prior = all("default" in s for s in spec.values() if s["type"] != "const") and rng.random() < 0.5
        yield {"kind": "fit", "spec": spec, "prior": prior, "cost": rng.random() < 0.35, "logcost": rng.random() < 0.6, "done": rng.choice([1, 2, 4, 7, 12]), "pend": rng.choice([0, 0, 1, 3]), "fail": rng.choice([0, 0, 0.3, 0.7]),
               "losses": rng.choice(["plain", "plain", "ties", "nonfinite", "wild"]), "init": rng.choice([None, 1, 3]), "seed": rng.randrange(1 << 30)}
    for i in range(72 * k):
        if rng.random() < 0.5:
            spec = {n: {"type": "float", "lower": rng.choice([0.0, -5.0]), "upper": rng.choice([1.0, 30.0]), "log": False, "default": 0.9, "default_confidence": "high"} for n in "abc"[: rng.randint(1, 3)]}
        else:
            spec = gen_small(rng)
        hasdef = all("default" in s for s in spec.values() if s["type"] != "const")
        yield {"kind": "design", "spec": spec, "prior": hasdef and rng.random() < 0.5, "first": hasdef and rng.random() < 0.5, "init": rng.choice([None, 1, 4, 8, 16, 33]), "seed": rng.randrange(1 << 30)}


def gen_small(rng):
    while True:
        spec = gen.gen_space(rng, nmin=1, nmax=4, fid=False, default=rng.random() < 0.5)
        combos = math.prod(len(s["choices"]) for s in spec.values() if s["type"] == "cat")
        if combos <= 30 and not any(s["type"] == "float" and s["upper"] - s["lower"] < 1e-3 * max(abs(s["lower"]), abs(s["upper"])) for s in spec.values()):
            return spec


class Rec:
    def __init__(self):
        self.models, self.pending, self.baseline = [], [], []

    def clear(self):
        del self.models[:], self.pending[:], self.baseline[:]


CUR = []


def install(new):
    """Record what the third-party model and acquisition function are built from."""
    import inspect

    CUR[:] = [new]
    if getattr(install, "done", False):
        return
    install.done = True

    from botorch.acquisition.logei import qLogNoisyExpectedImprovement as Q
    from botorch.models import SingleTaskGP as G

    def bind(f, a, k):
        b = inspect.signature(f).bind(*a, **k)
        return b.arguments

    g0, q0 = G.__init__, Q.__init__

    def g1(self, *a, **k):
        b = bind(g0, (self, *a), k)
        CUR[0].models.append((b["train_X"].detach().clone(), b["train_Y"].detach().clone()))
        return g0(self, *a, **k)

    def q1(self, *a, **k):
        b = bind(q0, (self, *a), k)
        CUR[0].baseline.append(b["X_baseline"].detach().clone())
        if b.get("X_pending") is not None:
            CUR[0].pending.append(b["X_pending"].detach().clone())
        return q0(self, *a, **k)

    G.__init__, Q.__init__ = g1, q1


def run_case(case, d, res):
    import torch

    from vlib import mw

    warnings.simplefilter("ignore")
    torch.set_num_threads(1)
    if case["kind"] == "mf":
        return mf(case["case"], res)
    mw.seed_all(case["seed"] % 2**31)
    return {"fit": fit, "design": design, "min": minimise, "prior": follow_prior, "cost": follow_cost}[case["kind"]](case, res)


def encoder_of(space):
    from neps.search_spaces.encoding import ConfigEncoder

    return ConfigEncoder.default({**space.numerical, **space.categoricals}, constants=space.constants)


def same_value(s, a, b):
    if s["type"] == "float":
        w = (math.log(s["upper"]) - math.log(s["lower"])) if s.get("log") else s["upper"] - s["lower"]
        d = abs(math.log(a) - math.log(b)) if s.get("log") else abs(a - b)
        return d <= 1e-6 * w
    return a == b and type(a) is type(b)


def same_config(spec, a, b, skip=()):
    return all(same_value(s, a[k], b[k]) for k, s in spec.items() if k not in skip)


def match(spec, rows, want, skip=()):
    """Match (config, y) rows one to one with the wanted (config, check) pairs. None or a row without a partner."""
    fits = [[i for i, (wc, ok) in enumerate(want) if ok(y) and same_config(spec, c, wc, skip)] for c, y in rows]
    owner = {}

    def place(r, seen):
        for i in fits[r]:
            if i not in seen:
                seen.add(i)
                if i not in owner or place(owner[i], seen):
                    owner[i] = r
                    return True
        return False

    for r in sorted(range(len(rows)), key=lambda r: len(fits[r])):
        if not place(r, set()):
            return rows[r]
    return None


def rows_of(enc, X, Y=None):
    cfgs = enc.decode(X)
    ys = [None] * len(cfgs) if Y is None else Y.reshape(-1).tolist()
    return list(zip(cfgs, ys, strict=True))


def usable(v):
    return v is not None and math.isfinite(v)


def loss_checks(trials):
    """Per finished trial: configuration and the test its modelled loss has to pass."""
    fin = sorted(t.report.loss for t in trials if usable(t.report.loss))
    lo, hi = fin[(len(fin) - 1) // 2], fin[len(fin) // 2]
    eps = lambda v: 1e-9 * max(1.0, abs(v))
    out = []
    for t in trials:
        v = t.report.loss
        out.append((t.config, (lambda y, v=v: abs(y - v) <= eps(v)) if usable(v) else (lambda y: lo - eps(lo) <= y <= hi + eps(hi))))
    return out


def mkbo(space, enc, case):
    from neps.optimizers.bayesian_optimization.optimizer import BayesianOptimization

    return BayesianOptimization(pipeline_space=space, encoder=enc, use_priors=case.get("prior", False), use_cost=case.get("cost", False), cost_on_log_scale=case.get("logcost", True), initial_design_size=case.get("init"),
                                sample_default_first=case.get("first", False))


def n_design(case, spec):
    n = sum(s["type"] != "const" for s in spec.values()) if case["init"] is None else case["init"]
    return n + bool(case.get("first"))


def fit(case, res):
    rng = random.Random(case["seed"])
    spec = case["spec"]
    space = simopt.mkspace(spec)
    enc = encoder_of(space)
    rec = Rec()
    install(rec)
    opt = mkbo(space, enc, case)
    sim = simopt.Sim(opt, max_cost=1000.0 if case["cost"] else None)
    what = f"Bayesian optimization (priors: {case['prior']}, cost: {case['cost']})"
    n0 = n_design(case, spec)
    from neps.optimizers.base_optimizer import SampledConfig

    # a history of configurations from anywhere in the space, the initial design is not needed for it
    for i in range(max(n0, case["done"]) + case["pend"]):
        sim.add(SampledConfig(id=str(i + 1), config=gen.gen_config(rng, spec)))
    ids = list(sim.trials)
    rng.shuffle(ids)
    for j, tid in enumerate(ids[: len(ids) - case["pend"]]):
        sim.finish(tid, loss=1.0 + rng.random() if j == 0 else simopt.loss_of(rng, case["losses"]), cost=rng.choice([None, rng.uniform(0.1, 9), 5, 0.0]) if j else 1.0, err=bool(j) and rng.random() < case["fail"], err_cost=rng.choice([None, 0.5]))
    s, before, after = sim.ask(rng)
    res.evals += 1
    if before != after:
        res.viol("history-changed", f"{what}: asking for a configuration changed the trials handed over")
        return
    err = gen.check_config(spec, s.config)
    if err:
        res.viol("illegal", f"{what}: proposal is not legal: {err}")
        return
    done = [t for t in sim.trials.values() if t.report is not None]
    pend = [t for t in sim.trials.values() if t.report is None]
    if not rec.models:
        res.viol("no-model", f"{what}: {len(done)} of {len(sim.trials)} trials are evaluated and the initial design has {n0}, but no model was used")
        return
    want = loss_checks(done)
    found = [m for m in rec.models if len(m[0]) == len(done) and match(spec, rows_of(enc, *m), want) is None]
    if not found:
        X, Y = rec.models[0]
        bad = match(spec, rows_of(enc, X, Y), want)
        res.viol("model-data", f"{what}: the model was given {len(X)} rows for {len(done)} evaluated trials ({len(pend)} in progress); row {bad} is none of "
                               f"{[(dict(t.config), t.report.loss) for t in done][:6]}")
        return
    res.count("fits")
    res.count("rows", len(done))
    res.count("replaced_losses", sum(not usable(t.report.loss) for t in done))
    got = rows_of(enc, rec.pending[-1]) if rec.pending else []
    bad = match(spec, got, [(t.config, lambda y: True) for t in pend])
    if len(got) != len(pend) or bad is not None:
        res.viol("pending-data", f"{what}: {len(got)} pending points were given for {len(pend)} trials in progress ({bad})")
        return
    res.count("pending_rows", len(pend))
    if case["cost"]:
        withc = [t for t in done if usable(t.report.cost)]
        low = min((t.report.cost for t in withc if t.report.cost > 0), default=1.0)
        wc = [(t.config, lambda y, v=max(t.report.cost, low) if t.report.cost <= 0 else t.report.cost: abs(y - v) <= 1e-9 * max(1, abs(v))) for t in withc]
        if not any(len(m[0]) == len(withc) and match(spec, rows_of(enc, *m), wc) is None for m in rec.models):
            res.viol("cost-data", f"{what}: no model was given the {len(withc)} costs {[t.report.cost for t in withc]}; models have {[len(m[0]) for m in rec.models]} rows, costs {[m[1].reshape(-1).tolist() for m in rec.models[1:]]}")
            return
        res.count("cost_rows", len(withc))
    res.sig("bo", len(done), sum(not usable(t.report.loss) for t in done), len(pend), case["prior"], case["cost"], case["losses"])
    res.sample = {"searcher": what, "losses": [t.report.loss for t in done][:8], "model_y": found[0][1].reshape(-1).tolist()[:8], "pending": len(pend)}


def design(case, res):
    rng = random.Random(case["seed"])
    spec = case["spec"]
    space = simopt.mkspace(spec)
    rec = Rec()
    install(rec)
    opt = mkbo(space, encoder_of(space), case)
    sim = simopt.Sim(opt)
    n0 = n_design(case, spec)
    what = f"initial design of {n0} (default first: {case.get('first')}, priors: {case['prior']}) for {spec}"[:400]
    exact = any(s["type"] == "float" for s in spec.values())  # otherwise there may be too few distinct points
    pts = []
    for i in range(n0):
        s, _, _ = sim.ask(rng)
        res.evals += 1
        err = gen.check_config(spec, s.config)
        if err:
            res.viol("illegal", f"{what}: proposal {i + 1} is not legal: {err}")
            return
        if rec.models:
            if exact:
                res.viol("design-short", f"{what}: the model was used for proposal {i + 1}")
                return
            break
        pts.append(dict(s.config))
        sim.add(s)
        if rng.random() < 0.7:
            sim.finish(s.id, loss=rng.random())
    else:
        # complete: the model takes over as soon as something is evaluated
        for tid in list(sim.running):
            sim.finish(tid, loss=rng.random())
        if n0 >= 2 and n0 <= 8:
            s, _, _ = sim.ask(rng)
            if not rec.models:
                res.viol("design-long", f"{what}: proposal {n0 + 1} was still made without a model although all were evaluated")
                return
    if case.get("first") and any(not same_value(s, pts[0][k], s["default"]) for k, s in spec.items() if s["type"] != "const"):
        res.viol("default-first", f"{what}: the first configuration is {pts[0]}, not the default")
        return
    body = pts[1:] if case.get("first") else pts
    keys = {repr(sorted(p.items())) for p in body}
    if exact and len(keys) != len(body):
        res.viol("design-repeats", f"{what}: only {len(keys)} of {len(body)} points are distinct: {body[:4]}")
        return
    if len(body) >= 8:
        for k, s in spec.items():
            if s["type"] not in ("float", "int"):
                continue
            f = (lambda v: math.log(v)) if s.get("log") else (lambda v: float(v))
            us = [(f(p[k]) - f(s["lower"])) / (f(s["upper"]) - f(s["lower"])) for p in body]
            if not case["prior"]:
                if s["type"] == "int" and s["upper"] - s["lower"] < 5:
                    continue
                if min(us) > 0.5 or max(us) < 0.5:
                    res.viol("design-coverage", f"{what}: all {len(body)} values of {k} lie in one half of its range: {[p[k] for p in body]}")
                    return
                res.count("covered")
            elif s["type"] == "float" and s.get("default_confidence") == "high":
                u0 = (f(s["default"]) - f(s["lower"])) / (f(s["upper"]) - f(s["lower"]))
                near = sum(abs(u - u0) < 0.45 for u in us)
                if near < 0.6 * len(us):
                    res.viol("design-prior", f"{what}: only {near} of {len(us)} values of {k} are near the default {s['default']}: {[p[k] for p in body]}")
                    return
                res.count("near_default")
    res.count("designs")
    res.count("design_points", len(pts))
    res.sig("design", len(pts), case["prior"], case.get("first"), len(spec))


def plain(rng, nd):
    return {f"x{i}": {"type": "float", "lower": 0.0, "upper": 1.0, "log": False} for i in range(nd)}


def minimise(case, res):
    """The model is there to find low losses: proposals after a dozen evaluations of a bowl are much better than random."""
    rng = random.Random(case["seed"])
    good = 0
    for i in range(case["n"]):
        nd = rng.choice([1, 2, 3])
        spec = plain(rng, nd)
        if rng.random() < 0.3:
            spec["c"] = {"type": "cat", "choices": ["u", "v"]}
        opt_at = {k: rng.uniform(0.1, 0.9) for k in spec}
        scale, shift = 10 ** rng.uniform(-3, 3), rng.choice([0.0, -7.0, 100.0])
        f = lambda c: shift + scale * (sum((c[k] - opt_at[k]) ** 2 for k in spec if k != "c") + (0.7 if c.get("c") == "u" else 0))
        space = simopt.mkspace(spec)
        sim = simopt.Sim(mkbo(space, encoder_of(space), {"init": 2}))
        from neps.optimizers.base_optimizer import SampledConfig

        for j in range(14):
            c = {k: rng.random() if k != "c" else rng.choice("uv") for k in spec}
            sim.add(SampledConfig(id=str(j + 1), config=c))
            sim.finish(str(j + 1), loss=f(c))
        s, _, _ = sim.ask(rng)
        res.evals += 1
        res.count("problems_min")
        ls = sorted(t.report.loss for t in sim.trials.values())
        good += f(s.config) <= ls[6]
    res.count("good_min", good)
    res.sig("min", good)
    if good < 0.68 * case["n"]:
        res.viol("not-minimising", f"on {case['n']} simple problems with 14 evaluations only {good} proposals are better than the median of random configurations")


def follow_prior(case, res):
    """Right after the initial design the prior matters, a long time afterwards it does not."""
    rng = random.Random(case["seed"])
    early, late = 0, 0
    from neps.optimizers.base_optimizer import SampledConfig

    for i in range(case["n"]):
        nd = 2
        spec = plain(rng, nd)
        for s in spec.values():
            s.update(default=rng.choice([0.12, 0.88]), default_confidence="high")
        space = simopt.mkspace(spec)
        sim = simopt.Sim(mkbo(space, encoder_of(space), {"init": 6, "prior": True}))
        for j in range(6):
            c = {k: rng.random() for k in spec}
            sim.add(SampledConfig(id=str(j + 1), config=c))
            sim.finish(str(j + 1), loss=1 + 0.01 * rng.random())
        s, _, _ = sim.ask(rng)
        early += all(abs(s.config[k] - p["default"]) < 0.5 for k, p in spec.items())
        # many evaluations later
        target = {k: 1 - p["default"] for k, p in spec.items()}
        sim = simopt.Sim(mkbo(space, encoder_of(space), {"init": 6, "prior": True}))
        for j in range(6 + 12 * nd):
            c = {k: rng.random() for k in spec}
            sim.add(SampledConfig(id=str(j + 1), config=c))
            sim.finish(str(j + 1), loss=sum((c[k] - target[k]) ** 2 for k in spec))
        s, _, _ = sim.ask(rng)
        late += all(abs(s.config[k] - target[k]) < 0.3 for k in spec)
        res.evals += 2
        res.count("problems_prior")
    res.count("good_prior_early", early)
    res.count("good_prior_late", late)
    res.sig("prior", early, late)
    if early < 0.68 * case["n"]:
        res.viol("prior-ignored", f"with priors of high confidence and uninformative losses only {early} of {case['n']} first proposals after the initial design are near the default")
    if late < 0.68 * case["n"]:
        res.viol("prior-forever", f"after 12 evaluations per parameter beyond the initial design only {late} of {case['n']} proposals are near the observed optimum instead of the misleading default")


def follow_cost(case, res):
    """With most of the budget left, cheap configurations are preferred among equally promising ones."""
    rng = random.Random(case["seed"])
    cheap = 0
    from neps.optimizers.base_optimizer import SampledConfig

    for i in range(case["n"]):
        spec = plain(rng, rng.choice([1, 2]))
        low = rng.random() < 0.5
        space = simopt.mkspace(spec)
        sim = simopt.Sim(mkbo(space, encoder_of(space), {"init": 2, "cost": True, "logcost": rng.random() < 0.8}), max_cost=1e9)
        for j in range(10):
            c = {k: rng.random() for k in spec}
            c["x0"] = (j + rng.random()) / 10
            sim.add(SampledConfig(id=str(j + 1), config=c))
            u = c["x0"] if low else 1 - c["x0"]
            sim.finish(str(j + 1), loss=1 + 0.01 * rng.random(), cost=10 ** (4 * u))
        s, _, _ = sim.ask(rng)
        res.evals += 1
        cheap += (s.config["x0"] < 0.5) == low
        res.count("problems_cost")
    res.count("good_cost", cheap)
    res.sig("cost", cheap)
    if cheap < 0.68 * case["n"]:
        res.viol("cost-ignored", f"with nearly all of the cost budget left and uninformative losses only {cheap} of {case['n']} proposals are in the cheap half (costs differ by up to 10000 times)")


def mf(case, res):
    """Multi-fidelity searchers with a model: its rows are finished evaluations, each with its own loss."""
    import torch

    rec = Rec()
    install(rec)
    spec = case["spec"]
    fid = mfsim.fid_of(spec)
    space = simopt.mkspace(spec)
    enc = encoder_of(space)
    what = f"{case['searcher']} {case['opts']}"
    first = True
    for sim, s in mfsim.drive(case, res):
        res.evals += 1
        if rec.models:
            X, Y = rec.models[-1]
            rows = rows_of(enc, X, Y)
            pend = rows_of(enc, rec.pending[-1]) if rec.pending else []
            rung = lambda t: int(t.id.split("_")[1])
            done = [t for t in sim.trials.values() if t.report is not None]
            # one model per rung, or one for all of them
            groups = [[t for t in done if rung(t) == r] for r in sorted({rung(t) for t in done})] + [done]
            ok = None
            for g in groups:
                if len(g) == len(rows) and any(usable(mfsim.rank_loss(case, t)) for t in g):
                    fin = sorted(v for v in (mfsim.rank_loss(case, t) for t in g) if usable(v))
                    lo, hi = fin[(len(fin) - 1) // 2], fin[len(fin) // 2]
                    eps = 1e-9 * max(1.0, abs(lo), abs(hi))
                    want = []
                    for t in g:
                        v = mfsim.rank_loss(case, t)
                        want.append((t.config, (lambda y, v=v: abs(y - v) <= 1e-9 * max(1.0, abs(v))) if usable(v) else (lambda y: lo - eps <= y <= hi + eps)))
                    if match(spec, rows, want, skip=(fid,)) is None:
                        ok = g
                        break
            if ok is None:
                res.viol("mf-model-data", f"{what}: the {len(rows)} rows given to the model are not the evaluations of a rung nor all of them: {[(c, y) for c, y in rows][:4]}; evaluations {[(t.id, mfsim.rank_loss(case, t)) for t in done][:12]}")
                return
            # those in progress at the rung, or all if all evaluations are used
            rungs = {rung(t) for t in ok}
            open_ = [t for t in sim.trials.values() if t.report is None and (rung(t) in rungs or len(ok) == len(done))]
            if len(pend) > len(open_) or match(spec, pend, [(t.config, lambda y: True) for t in open_], skip=(fid,)) is not None or (len(pend) < len(open_) and len(ok) < len(done)):
                res.viol("mf-pending-data", f"{what}: {len(pend)} pending points were given, in progress are {[t.id for t in open_]}")
                return
            res.count("mf_fits")
            res.count("mf_rows", len(rows))
            res.count("mf_pending", len(pend))
            res.sig(case["searcher"], len(rows), len(pend), len(rungs) > 1)
        rec.clear()
