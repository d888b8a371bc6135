"""C21: multi-fidelity schedules."""
from __future__ import annotations

import itertools
import math
import random
import re

from vlib import gen, mfsim, mw, simopt

LEVEL = "exploration"
RULE = ("a case is one multi-fidelity searcher with a generated fidelity range, eta, early-stopping rate and asynchronous history; the id, fidelity and entry rung of each proposal are compared with an independently "
        "computed schedule; distinct_nontrivial counts distinct (searcher, fidelity range, eta, rate, rung) observed")
ASSUMPTIONS = ["the fidelity has a positive lower bound", "the default is evaluated first only if priors are used"]
MIN = {"quick": {"proposals": 6000, "histories": 140, "entries": 3000, "at_higher_rung": 1500, "new_brackets": 250, "runs": 8}}


def cases(tier, seed):
    rng = random.Random(f"c21-{seed}")
    for r in range(16 if tier == "quick" else 160):
        for s in mfsim.ALL:
            yield {"kind": "sim", **mfsim.gen_case(rng, s)}
        yield {"kind": "run", **mfsim.gen_case(rng, rng.choice([x for x in mfsim.ALL if x not in ("hyperband_custom_default", "priorband_asha", "priorband_asha_hyperband")]), n=25)}


def run_case(case, d, res):
    f = case["spec"][mfsim.fid_of(case["spec"])]
    sc = mfsim.Sched(f, case["opts"]["eta"], case["opts"].get("early_stopping_rate", 0))
    if case["kind"] == "run":
        return real_run(case, d, res, sc)
    res.count("histories")
    m = Monitor(case, sc, res)
    for sim, s in mfsim.drive(case, res):
        if not m.proposal(s.id, dict(s.config), s.previous_config_id):
            return
    res.sample = {"searcher": case["searcher"], "fidelity": [f["lower"], f["upper"]], "eta": sc.eta, "rungs": {str(k): v for k, v in sc.fid.items()}, "entries": m.entries[:12]}


class Monitor:
    def __init__(self, case, sc, res):
        self.case, self.sc, self.res, self.entries = case, sc, res, []
        self.name = case["searcher"]
        self.hb = self.name in mfsim.SYNC_HB
        self.br = sc.brackets(self.hb) if self.name in mfsim.SYNC_HB + mfsim.SYNC_SH else None
        self.cur = None
        self.fid = mfsim.fid_of(case["spec"])
        self.what = f"{self.name} {case['opts']} with fidelity {case['spec'][self.fid]}"

    def proposal(self, tid, config, prev):
        res, sc = self.res, self.sc
        m = re.fullmatch(r"(\d+)_(\d+)", tid)
        if not m:
            return res.viol("id-form", f"{self.what}: id {tid!r} is not of the form <config>_<rung>")
        c, r = int(m[1]), int(m[2])
        if r not in sc.fid or r < sc.min_rung:
            return res.viol("unknown-rung", f"{self.what}: proposal {tid}, but the rungs are {sc.min_rung} to {sc.max_rung}")
        v = config[self.fid]
        if type(v) is not (int if sc.is_int else float):
            return res.viol("fidelity-type", f"{self.what}: proposal {tid} at fidelity {v!r} of type {type(v).__name__}")
        if not math.isclose(v, sc.fid[r], rel_tol=1e-9):
            return res.viol("fidelity-of-rung", f"{self.what}: proposal {tid} at fidelity {v!r}, the schedule has {sc.fid[r]!r} at rung {r} (all: {sc.fid})")
        res.sig(self.name, str(self.case["spec"][self.fid]), sc.eta, sc.s, r)
        if prev is not None:
            res.count("at_higher_rung")
            return True
        res.count("entries")
        if c != len(self.entries):
            return res.viol("config-number", f"{self.what}: new configuration number {c}, expected {len(self.entries)}")
        off = 1 if mfsim.default_at_target(self.case) else 0
        if c < off:
            want = sc.max_rung
        elif self.br is not None:
            pos = c - off
            while self.cur is None or pos >= self.cur[0] + self.cur[2]:
                self.cur = next(self.br)
                res.count("new_brackets")
            want = self.cur[1]
        elif self.name in mfsim.ASHA:
            want = sc.min_rung
        else:
            want = r
        self.entries.append(r)
        if r != want:
            return res.viol("entry-rung", f"{self.what}: new configuration {c} enters at rung {r} instead of {want}; entries so far {self.entries[-40:]}")
        return True


def real_run(case, d, res, sc):
    """Through neps.run, with the evaluation function as the observer."""
    import neps
    from neps.search_spaces.search_space import SearchSpace

    name = case["searcher"]
    kw = dict(case["opts"])
    if name == "mobster":
        kw.pop("sample_default_first", None), kw.pop("sample_default_at_target", None)
    seen = []
    rng = random.Random(case["seed"])
    fid = mfsim.fid_of(case["spec"])

    def f(pipeline_directory, previous_pipeline_directory, **config):
        seen.append((pipeline_directory.name, config, previous_pipeline_directory))
        return {"loss": simopt.loss_of(rng, case["loss"] if case["loss"] != "nonfinite" else "plain"), "cost": 1.0}

    mw.seed_all(case["seed"])
    n = 0
    for part in (10, 15):
        neps.run(f, root_directory=d / "r", pipeline_space=gen.build(case["spec"]), searcher={"strategy": "priorband" if name == "priorband_bo" else name, **kw}, max_evaluations_total=None, max_evaluations_per_run=part,
                 max_cost_total=10**6, post_run_summary=False)
        n += part
    res.count("runs")
    if len(seen) != n:
        res.viol("evaluations", f"{name}: {len(seen)} evaluations instead of {n}")
    m = Monitor(case, sc, res)
    names = set()
    for dirname, config, prev in seen:
        tid = dirname.removeprefix("config_")
        if not m.proposal(tid, config, prev):
            return
        c, r = tid.split("_")
        want = f"config_{c}_{int(r) - 1}" if prev is not None else None
        if prev is not None and (prev.name != want or want not in names):
            res.viol("previous-directory", f"{m.what}: {dirname} got {prev} as directory of its previous evaluation, expected {want}")
        names.add(dirname)
