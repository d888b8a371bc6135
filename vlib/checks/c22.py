"""C22: promotions."""
from __future__ import annotations

import random
from collections import defaultdict

from vlib import mfsim

LEVEL = "exploration"
RULE = ("a case is one multi-fidelity searcher on an asynchronous history (1-20 virtual workers, any order of completion, ties, failures, NaN and infinite losses); each proposal is judged by an independent reference model "
        "of the rungs: a promotion must be allowed, and a new configuration must only be proposed if no promotion is due; distinct_nontrivial counts distinct (searcher, eta, rung, number of members, tie, failures) of judged proposals")
ASSUMPTIONS = ["the fidelity has a positive lower bound", "the default is evaluated first only if priors are used", "one searcher with the same arguments for the whole history"]
MIN = {"quick": {"proposals": 8000, "histories": 180, "promotions": 2500, "promotions_sync": 900, "promotions_async": 900, "with_failures": 400, "ties": 150, "waiting": 400, "failed_promoted": 20}}


def cases(tier, seed):
    rng = random.Random(f"c22-{seed}")
    for r in range(20 if tier == "quick" else 250):
        for s in mfsim.ALL:
            yield mfsim.gen_case(rng, s)


def split(tid):
    c, r = tid.split("_")
    return int(c), int(r)


def run_case(case, d, res):
    name = case["searcher"]
    fid = mfsim.fid_of(case["spec"])
    sc = mfsim.Sched(case["spec"][fid], case["opts"]["eta"], case["opts"].get("early_stopping_rate", 0))
    sync = name in mfsim.SYNC_SH + mfsim.SYNC_HB
    what = f"{name} {case['opts']} with fidelity {case['spec'][fid]}"
    res.count("histories")
    skip = {0} if mfsim.default_at_target(case) else set()
    npromo = 0
    for sim, s in mfsim.drive(case, res):
        # state of the history at the time of the proposal
        top = {}  # config -> highest rung it was proposed at
        loss = defaultdict(dict)  # rung -> config -> ranked loss of its finished evaluation
        for tid, t in sim.trials.items():
            c, r = split(tid)
            top[c] = max(top.get(c, -1), r)
            if t.report is not None:
                loss[r][c] = mfsim.rank_loss(case, t)
        failed = any(t.report is not None and t.report.reported_as != "success" for t in sim.trials.values())
        res.count("with_failures", failed)
        due = due_sync(sc, name, top, loss, skip) if sync else due_async(sc, top, loss, skip)
        c, r = split(s.id)
        hist = lambda: f"losses per rung {[{k: round(v, 4) for k, v in sorted(loss[x].items())} for x in range(sc.min_rung, sc.max_rung + 1)]}, highest rungs {top}"
        if s.previous_config_id is None:
            if c in top:
                res.viol("new-config-exists", f"{what}: {s.id} names no predecessor, but configuration {c} exists")
                return
            floor = r if name in mfsim.ASYNC_HB else 0
            missed = {k: v for k, v in due.items() if k >= floor and v}
            if skip and not top:
                missed = {}
            if missed:
                res.viol("promotion-missed", f"{what}: new configuration {s.id} although configurations could be promoted: {missed} (rung: candidates); {hist()}")
                return
            if sync and any(len(loss[x]) for x in loss):
                res.count("waiting")
            res.sig(name, "new", sc.eta, len(top) % 13, r)
            continue
        npromo += 1
        res.count("promotions")
        res.count("promotions_sync" if sync else "promotions_async")
        frm = r - 1
        if s.previous_config_id != f"{c}_{frm}":
            res.viol("predecessor", f"{what}: {s.id} continues {s.previous_config_id}, not {c}_{frm}")
            return
        if c in skip:
            res.viol("default-promoted", f"{what}: the default, evaluated at the highest rung, was promoted as {s.id}")
            return
        if c not in loss[frm]:
            res.viol("promoted-unfinished", f"{what}: {s.id} was proposed before {c}_{frm} finished; {hist()}")
            return
        if top[c] != frm:
            res.viol("promoted-twice", f"{what}: {s.id} was proposed although configuration {c} was already at rung {top[c]}")
            return
        if c not in due.get(frm, ()):
            res.viol("promoted-wrong", f"{what}: {s.id} was promoted with loss {loss[frm][c]}, allowed are {due} (rung: candidates); {hist()}")
            return
        old, new = dict(sim.trials[s.previous_config_id].config), dict(s.config)
        old.pop(fid), new.pop(fid)
        if old != new:
            res.viol("promoted-changed", f"{what}: {s.id} has {new}, its predecessor {old}")
            return
        vals = list(loss[frm].values())
        tie = vals.count(loss[frm][c]) > 1
        res.count("ties", tie)
        res.count("failed_promoted", loss[frm][c] == float("inf"))
        res.sig(name, "promotion", sc.eta, frm, min(len(vals), 30), tie, failed)
    res.sample = {"searcher": name, "eta": sc.eta, "proposals": len(sim.trials), "promotions": npromo}


def due_sync(sc, name, top, loss, skip):
    """rung -> configurations that may be promoted: the best 1/eta of a complete rung of their bracket."""
    due = defaultdict(set)
    ids = sorted(c for c in top if c not in skip)
    if ids != list(range(len(skip), len(skip) + len(ids))):
        return due
    for pos, s, n in sc.brackets(name in mfsim.SYNC_HB):
        members = ids[pos:pos + n]
        if len(members) < n:
            return due
        for r in range(s, sc.max_rung):
            done = {c: loss[r][c] for c in members if c in loss[r]}
            if len(done) < sc.size(s, r):
                break
            quota = sc.size(s, r + 1)
            up = [c for c in done if top[c] > r]
            if len(up) >= quota:
                continue
            ranked = sorted(done.values())
            worst = ranked[quota - 1]
            # with ties at the border any of them may be taken
            due[r] |= {c for c, v in done.items() if top[c] == r and v <= worst}


def due_async(sc, top, loss, skip):
    """rung -> configurations that may be promoted: the best of at least eta finished ones that are still there.
    Only the highest such rung counts."""
    due = {}
    for r in range(sc.max_rung - 1, sc.min_rung - 1, -1):
        here = {c: v for c, v in loss[r].items() if top[c] == r and c not in skip}
        if len(here) >= sc.eta:
            best = min(here.values())
            due[r] = {c for c, v in here.items() if v == best}
            break
    return due
