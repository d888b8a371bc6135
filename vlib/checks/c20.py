"""C20: every searcher proposes legal configurations on every history."""
from __future__ import annotations

import random

from vlib import gen, mw, simopt

LEVEL = "exploration"
RULE = ("a case is one searcher with generated options on a generated search space, driven through an asynchronous history (1-12 virtual workers; trials finish in arbitrary order with generated losses and "
        "costs, fail, or stay pending; the optimizer object is sometimes replaced by a fresh one, as another worker process would); each proposal is one monitored event; distinct_nontrivial counts distinct "
        "(searcher, options, shape of the history at the proposal)")
ASSUMPTIONS = ["losses are numbers, infinity or NaN", "bayesian optimization within its limit of categorical combinations",
               "prior-based searchers that evaluate the default first get spaces in which every parameter has a default"]
MIN = {"quick": {"proposals": 4500, "histories": 120, "with_pending": 3000, "after_errors": 1500, "promotions": 800, "model_proposals": 60, "fresh_object": 300}}
QUICK_DEADLINE, CASE_TIMEOUT = 400, 150

MF = ["successive_halving", "successive_halving_prior", "asha", "asha_prior", "hyperband", "hyperband_custom_default", "priorband", "priorband_asha", "priorband_asha_hyperband", "mobster", "priorband_bo"]
PRIOR = {"successive_halving_prior", "asha_prior", "hyperband_custom_default", "priorband", "priorband_asha", "priorband_asha_hyperband", "priorband_bo"}
BO = ["bayesian_optimization", "pibo"]


def with_defaults(rng, spec):
    for s in spec.values():
        if s["type"] in ("float", "int", "cat") and not s.get("is_fidelity") and "default" not in s:
            s["default"] = gen.gen_value(rng, s)
            s["default_confidence"] = rng.choice(["low", "medium", "high"])
    return spec


def mf_case(rng, searcher, tier):
    spec = gen.gen_space(rng, nmin=1, nmax=4, fid=True)
    opts = {"eta": rng.choice([2, 3, 3, 4]), "random_interleave_prob": rng.choice([0.0, 0.0, 0.3, 1.0]), "sample_default_first": rng.random() < 0.4, "sample_default_at_target": rng.random() < 0.4}
    if searcher in ("successive_halving", "asha", "hyperband", "mobster"):
        opts["use_priors"] = rng.random() < 0.3
    if searcher in ("successive_halving", "asha", "successive_halving_prior", "asha_prior", "priorband_asha"):
        opts["early_stopping_rate"] = rng.choice([0, 0, 1])
    if searcher in PRIOR:
        opts["prior_confidence"] = rng.choice(["low", "medium", "high"])
    if searcher.startswith("priorband"):
        opts.update(prior_weight_type=rng.choice(["geometric", "linear", "50-50"]), inc_sample_type=rng.choice(["mutation", "gaussian", "crossover", "hypersphere"]),
                    inc_style=rng.choice(["dynamic", "decay", "constant"]), inc_mutation_rate=rng.choice([0.1, 0.5, 1.0]), inc_mutation_std=rng.choice([0.01, 0.25, 1.0]))
    if searcher == "priorband_bo":
        opts.update(modelling_type=rng.choice(["joint", "rung"]), initial_design_size=rng.choice([2, 5, 10]))
    if searcher in PRIOR or opts["sample_default_first"] or rng.random() < 0.5:
        with_defaults(rng, spec)
    f = next(s for s in spec.values() if s.get("is_fidelity"))
    lim = 0
    while f["lower"] * opts["eta"] ** (lim + 1) <= f["upper"] * (1 + 1e-12):
        lim += 1
    if opts.get("early_stopping_rate", 0) > lim:
        opts["early_stopping_rate"] = lim
    return spec, opts


def cases(tier, seed):
    rng = random.Random(f"c20-{seed}")
    q = tier == "quick"
    for r in range(12 if q else 120):
        for s in MF:
            if s in ("mobster", "priorband_bo") and r % 2 and q:
                continue
            spec, opts = mf_case(rng, s, tier)
            yield {"searcher": s, "spec": spec, "opts": opts, "workers": rng.choice([1, 2, 3, 5, 12]), "n": rng.choice([20, 40, 60]), "perr": rng.choice([0, 0.1, 0.5, 1.0]), "loss": rng.choice(["plain", "ties", "wild", "nonfinite"]),
                   "fresh": rng.choice([0, 0.1, 1.0]), "eloss": rng.choice([None, None, 100.0]), "seed": rng.randrange(1 << 30)}
        for s in ["random_search"]:
            spec = gen.gen_space(rng, nmin=1, nmax=5)
            yield {"searcher": s, "spec": spec, "opts": {"use_priors": rng.random() < 0.5, "ignore_fidelity": rng.random() < 0.5}, "workers": rng.choice([1, 3, 8]), "n": 40, "perr": rng.choice([0, 0.3]), "loss": "wild", "fresh": rng.choice([0, 1.0]),
                   "eloss": None, "seed": rng.randrange(1 << 30)}
        if r % 2 == 0 or not q:
            for s in BO:
                spec = bo_spec(rng)
                opts = {"initial_design_size": rng.choice([None, 1, 2, 4]), "sample_default_first": rng.random() < 0.5}
                if s == "bayesian_optimization" and rng.random() < 0.3:
                    opts["use_cost"] = True
                yield {"searcher": s, "spec": spec, "opts": opts, "workers": rng.choice([1, 2, 4, 10]), "n": 14 if q else 25, "perr": rng.choice([0, 0.2, 0.9]), "loss": rng.choice(["plain", "ties", "wild", "nonfinite"]), "fresh": rng.choice([0, 0.3]),
                       "eloss": rng.choice([None, 10.0]), "seed": rng.randrange(1 << 30), "const_loss": rng.random() < 0.15}


def bo_spec(rng):
    while True:
        spec = gen.gen_space(rng, nmin=1, nmax=4, fid=False, maxcat=4)
        n = 1
        for s in spec.values():
            n *= len(s["choices"]) if s["type"] == "cat" else 1
        if n <= 30 and any(s["type"] != "const" for s in spec.values()):
            return spec


def run_case(case, d, res):
    rng = random.Random(f"c20-run-{case['seed']}")
    mw.seed_all(case["seed"])
    spec, name = case["spec"], case["searcher"]
    fid = next((k for k, s in spec.items() if s.get("is_fidelity")), None)
    kw = dict(case["opts"])
    if case["eloss"] is not None:
        kw.update(loss_value_on_error=case["eloss"], cost_value_on_error=1.0)
    else:
        kw.update(ignore_errors=True)
    mk = lambda: simopt.mkopt(name, spec, **kw)
    what = f"{name} {case['opts']} on {spec}"
    try:
        opt = mk()
    except Exception as e:
        res.viol("cannot-construct", f"{what}: {type(e).__name__}: {e}")
        return
    sim = simopt.Sim(opt, max_cost=1000.0 if kw.get("use_cost") else None)
    res.count("histories")
    bo = name in BO
    for step in range(case["n"]):
        if step and rng.random() < case["fresh"]:
            sim.opt = mk()
            res.count("fresh_object")
        npend, nfin = len(sim.running), len(sim.finished)
        nerr = sum(1 for i in sim.finished if sim.trials[i].report.reported_as != "success")
        try:
            s, before, after = sim.ask(rng)
        except Exception as e:
            import traceback

            tb = traceback.extract_tb(e.__traceback__)
            loc = next((f"{f.filename.split('/neps/')[-1]}:{f.name}" for f in reversed(tb) if "/neps/" in f.filename), "?")
            res.viol(f"proposal-fails:{name}:{loc}:{type(e).__name__}", f"{what}: after {nfin} finished ({nerr} failed) and {npend} unfinished trials, asking for a configuration raised {type(e).__name__}: {str(e)[:300]} in {loc}")
            return
        res.count("proposals")
        res.count("with_pending", bool(npend))
        res.count("after_errors", bool(nerr))
        res.sig(name, str(sorted(case["opts"].items())), min(npend, 6), min(nfin, 20), min(nerr, 5))
        if before != after:
            res.viol("history-modified", f"{what}: proposing a configuration changed the recorded trials")
            return
        r = gen.check_config(spec, s.config)
        if r:
            res.viol("illegal-config", f"{what}: proposal {s.id} = {dict(s.config)}: {r}")
            return
        if s.id in sim.trials:
            res.viol("id-reused", f"{what}: proposal {s.id} after {npend} unfinished and {nfin} finished trials has the id of an existing trial")
            return
        if not isinstance(s.id, str):
            res.viol("id-type", f"{what}: id {s.id!r} is not a string")
        p = s.previous_config_id
        if p is not None:
            res.count("promotions")
            pt = sim.trials.get(p)
            if pt is None:
                res.viol("unknown-predecessor", f"{what}: proposal {s.id} continues {p}, which does not exist")
                return
            if pt.report is None:
                res.viol("unfinished-predecessor", f"{what}: proposal {s.id} continues {p}, which is not finished")
            a, b = ({k: v for k, v in c.items() if k != fid} for c in (dict(s.config), dict(pt.config)))
            if a != b or {k: type(v) for k, v in a.items()} != {k: type(v) for k, v in b.items()}:
                res.viol("continuation-differs", f"{what}: proposal {s.id} = {a} continues {p} = {b} with other values")
            if not s.config[fid] > pt.config[fid]:
                res.viol("continuation-fidelity", f"{what}: proposal {s.id} at fidelity {s.config[fid]} continues {p} at {pt.config[fid]}")
        if bo and nfin and len(sim.trials) >= len(sim.opt.init_design or []):
            res.count("model_proposals")
        if name == "random_search" and fid and case["opts"]["ignore_fidelity"] and s.config[fid] != spec[fid]["upper"]:
            res.viol("fidelity-not-max", f"{what}: fidelity {s.config[fid]} instead of the maximum")
        sim.add(s)
        while len(sim.running) >= case["workers"] or (sim.running and rng.random() < 0.3):
            tid = rng.choice(sim.running)
            if rng.random() < 0.2:
                sim.start(rng.choice(sim.running))
            if rng.random() < case["perr"]:
                sim.finish(tid, err=True, err_loss=case["eloss"], err_cost=None if case["eloss"] is None else 1.0)
            else:
                sim.finish(tid, loss=0.5 if case.get("const_loss") else simopt.loss_of(rng, case["loss"]), cost=rng.choice([0.1, 1.0, 3.0]))
    res.sample = {"searcher": name, "proposals": len(sim.trials), "last": str(dict(s.config))[:200]}
