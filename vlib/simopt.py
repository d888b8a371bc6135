"""Drives an optimizer object through an asynchronous history held in memory (no files): sampled trials stay
pending, are started, and finish in arbitrary order with losses, costs, errors chosen by the case."""
from __future__ import annotations

import copy
import json
import math
import random


def mkspace(spec):
    from neps.search_spaces.search_space import SearchSpace

    from vlib import gen

    return SearchSpace(**gen.build(spec))


def mkopt(searcher, spec, **kw):
    """As neps.run would build it: defaults of the searcher's yaml, then the user's arguments."""
    from vlib import gen, mw

    return mw.make_optimizer(searcher, gen.build(spec), **kw)


def freeze(trials):
    """A fingerprint of everything recorded in the trials."""
    out = {}
    for i, t in trials.items():
        r = t.report
        out[i] = (str(t.state), json.dumps(dict(t.config), sort_keys=True, default=repr), repr(t.metadata), None if r is None else repr((r.loss, r.cost, r.learning_curve, r.extra, r.reported_as)))
    return out


class Sim:
    def __init__(self, opt, *, max_cost=None):
        self.opt, self.trials, self.running, self.order, self.max_cost = opt, {}, [], [], max_cost
        self.finished = []  # ids in order of completion
        self.used_cost = 0.0

    def budget(self):
        from neps.state.optimizer import BudgetInfo

        return None if self.max_cost is None else BudgetInfo(max_cost_budget=self.max_cost, used_cost_budget=self.used_cost)

    def view(self, rng=None):
        """What the worker sees: a mapping in the order in which the repository lists trials (arbitrary)."""
        ids = list(self.trials)
        if rng is not None:
            rng.shuffle(ids)
        return {i: copy.deepcopy(self.trials[i]) for i in ids}

    def ask(self, rng=None):
        """(sampled, trials as handed over before, after)"""
        v = self.view(rng)
        before = freeze(v)
        s = self.opt.ask(trials=v, budget_info=self.budget())
        return s, before, freeze(v)

    def add(self, sampled):
        from neps.state.trial import Trial

        prev = sampled.previous_config_id
        t = Trial.new(trial_id=sampled.id, config=copy.deepcopy(dict(sampled.config)), location="", previous_trial=prev, previous_trial_location=None, time_sampled=float(len(self.trials)), worker_id="w")
        self.trials[sampled.id] = t
        self.order.append(sampled.id)
        self.running.append(sampled.id)
        return t

    def start(self, tid):
        t = self.trials[tid]
        if t.state.value == "pending":
            t.set_submitted(time_submitted=1.0)
            t.set_evaluating(time_started=1.0, worker_id="w")

    def finish(self, tid, *, loss=None, cost=None, err=False, err_loss=None, err_cost=None):
        """Report as the worker would; err: failed evaluation (with the configured loss and cost, if any)."""
        self.start(tid)
        t = self.trials[tid]
        self.running.remove(tid)
        self.finished.append(tid)
        if err:
            t.report = t.set_complete(report_as="crashed", time_end=2.0, loss=err_loss, cost=err_cost, learning_curve=None, err=ValueError("x"), tb="tb", extra={}, evaluation_duration=None)
            c = err_cost
        else:
            t.report = t.set_complete(report_as="success", time_end=2.0, loss=loss, cost=cost, learning_curve=None, err=None, tb=None, extra={}, evaluation_duration=1.0)
            c = cost
        self.used_cost += c or 0.0


def loss_of(rng: random.Random, kind="plain"):
    """Losses: plain distinct values, ties, huge and tiny scales, negative."""
    k = rng.random()
    if kind == "ties":
        return float(rng.randint(0, 3))
    if kind == "nonfinite" and rng.random() < 0.3:
        return rng.choice([math.inf, math.nan])
    if kind == "wild":
        return rng.choice([rng.gauss(0, 1), rng.gauss(0, 1), -rng.random() * 10 ** rng.randint(0, 8), rng.random() * 10 ** rng.randint(-8, 8), 0.0, -0.0])
    return rng.gauss(0, 1) if k < 0.9 else rng.uniform(-50, 50)
