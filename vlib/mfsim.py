"""Asynchronous histories for the multi-fidelity searchers, and an independent computation of their schedule."""
from __future__ import annotations

import math
import random

from vlib import gen, mw, simopt

SYNC_SH = ["successive_halving", "successive_halving_prior"]
SYNC_HB = ["hyperband", "hyperband_custom_default", "priorband"]
ASHA = ["asha", "asha_prior", "priorband_asha"]
ASYNC_HB = ["priorband_asha_hyperband", "mobster"]
ALL = SYNC_SH + SYNC_HB + ASHA + ASYNC_HB
PRIOR = {"successive_halving_prior", "hyperband_custom_default", "priorband", "asha_prior", "priorband_asha", "priorband_asha_hyperband", "priorband_bo"}


def fid_of(spec):
    return next(k for k, s in spec.items() if s.get("is_fidelity"))


class Sched:
    """The textbook schedule of a fidelity range and a halving rate."""

    def __init__(self, f, eta, s=0):
        lo, up = f["lower"], f["upper"]
        k = 0
        while up / eta ** (k + 1) >= lo * (1 - 1e-9):
            k += 1
        self.kmax = k  # number of reductions that fit
        self.eta = eta
        self.s = s
        self.max_rung, self.min_rung = k, s
        self.is_int = f["type"] == "int"
        self.fid = {}
        for r in range(k + 1):
            v = max(up / eta ** (k - r), lo)
            self.fid[r] = int(math.floor(v + 1e-9)) if self.is_int else v

    def size(self, s, rung):
        """Number of configurations of the bracket starting at rung s that get to a rung."""
        left = self.kmax - s
        n = (self.kmax + 1) // (left + 1) * self.eta**left
        return n // self.eta ** (rung - s)

    def brackets(self, hb):
        """(start position, entry rung, size) in order, cyclic for hyperband."""
        pos, i = 0, 0
        while True:
            s = i % (self.kmax + 1) if hb else self.s
            n = self.size(s, s)
            yield pos, s, n
            pos, i = pos + n, i + 1


def gen_fid(rng, kind=None):
    k = kind or rng.choice(["int", "int", "float"])
    if k == "int":
        lo = rng.choice([1, 1, 1, 2, 3, 5, 7])
        f = {"type": "int", "lower": lo, "upper": max(lo + 1, lo * rng.choice([2, 3, 4, 8, 9, 10, 16, 27, 31, 81]) + rng.choice([0, 0, 0, 1, 5])), "log": rng.random() < 0.3, "is_fidelity": True}
    else:
        lo = rng.choice([0.1, 0.01, 1.0, 0.5, 0.3, 1e-3])
        f = {"type": "float", "lower": lo, "upper": lo * rng.choice([1.5, 2.0, 3.0, 8.0, 9.0, 10.0, 27.0, 30.0, 81.0]), "log": rng.random() < 0.3, "is_fidelity": True}
    return f


def gen_case(rng, searcher, *, n=None):
    from vlib.checks.c20 import with_defaults

    spec = gen.gen_space(rng, nmin=1, nmax=3, fid=False, const=rng.random() < 0.3, maxcat=4)
    spec = {k: v for k, v in spec.items()}
    spec[rng.choice(["epochs", "a_fid", "zz"])] = gen_fid(rng)
    items = list(spec.items())
    rng.shuffle(items)
    spec = dict(items)
    f = spec[fid_of(spec)]
    opts = {"eta": rng.choice([2, 3, 3, 4])}
    if searcher in ("successive_halving", "asha", "hyperband", "mobster"):
        opts["use_priors"] = rng.random() < 0.3
    prior = searcher in PRIOR or opts.get("use_priors")
    if prior:
        with_defaults(rng, spec)
        if searcher != "mobster":
            opts["sample_default_first"] = rng.random() < 0.5
            opts["sample_default_at_target"] = rng.random() < 0.5
    else:
        opts["sample_default_first"] = opts["sample_default_at_target"] = False
    if searcher == "mobster":
        opts["use_priors"] = False
    kmax = Sched(f, opts["eta"]).kmax
    if searcher in ("successive_halving", "asha", "successive_halving_prior", "asha_prior", "priorband_asha"):
        opts["early_stopping_rate"] = rng.choice([0, 0, 0, min(1, kmax), kmax])
    if searcher.startswith("priorband"):
        opts["inc_sample_type"] = rng.choice(["mutation", "mutation", "gaussian", "crossover"])
    if searcher == "priorband_bo":
        opts["initial_design_size"] = rng.choice([1, 2, 3])
        opts["modelling_type"] = rng.choice(["joint", "rung"])
    return {"searcher": searcher, "spec": spec, "opts": opts, "workers": rng.choice([1, 1, 2, 3, 5, 9, 20]), "n": n or (rng.choice([20, 30, 40]) if searcher in ("mobster", "priorband_bo") else rng.choice([30, 60, 110])), "perr": rng.choice([0, 0, 0.1, 0.5]),
            "loss": rng.choice(["plain", "plain", "ties", "wild", "nonfinite"]), "fresh": rng.choice([0, 0.1, 1.0]), "eloss": rng.choice([None, None, 0.0, 0.3, 100.0]), "burst": rng.choice([0.0, 0.3, 0.6]), "seed": rng.randrange(1 << 30)}


def drive(case, res):
    """Yields (sim, proposal) before the proposal is added to the history."""
    rng = random.Random(f"mf-{case['seed']}")
    mw.seed_all(case["seed"])
    kw = dict(case["opts"])
    kw.update({"loss_value_on_error": case["eloss"], "cost_value_on_error": 1.0} if case["eloss"] is not None else {"ignore_errors": True})
    if case["searcher"] == "mobster":
        kw.pop("sample_default_first", None), kw.pop("sample_default_at_target", None)
    mk = lambda: simopt.mkopt(case["searcher"], case["spec"], **kw)
    sim = simopt.Sim(mk())
    for step in range(case["n"]):
        if step and rng.random() < case["fresh"]:
            sim.opt = mk()
        s, _, _ = sim.ask(rng)
        res.count("proposals")
        yield sim, s
        sim.add(s)
        # workers are busy for varying times, and now and then many finish before anybody asks again
        while len(sim.running) >= case["workers"] or (sim.running and rng.random() < case["burst"]):
            tid = rng.choice(sim.running)
            if rng.random() < case["perr"]:
                sim.finish(tid, err=True, err_loss=case["eloss"], err_cost=None if case["eloss"] is None else 1.0)
            else:
                sim.finish(tid, loss=simopt.loss_of(rng, case["loss"]), cost=1.0)


def default_at_target(case):
    o = case["opts"]
    return bool((case["searcher"] in PRIOR or o.get("use_priors")) and o.get("sample_default_first") and o.get("sample_default_at_target"))


def rank_loss(case, trial):
    """The loss a finished evaluation is ranked by."""
    if trial.report.reported_as != "success":
        return case["eloss"] if case["eloss"] is not None else math.inf
    v = trial.report.loss
    return math.inf if math.isnan(v) else v
