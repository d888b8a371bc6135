"""C01: exactly-once evaluation across workers."""
from __future__ import annotations

import random
from collections import Counter

from vlib import mw, sched

LEVEL = "exploration"
RULE = ("a case is one execution of 2-4 real worker processes on one root directory under a seeded scheduler that "
        "switches at every file/lock/sleep call; distinct_nontrivial counts distinct interleavings (hash of the step "
        "sequence) with at least one context switch inside a worker's scan/claim/report")
ASSUMPTIONS = ["file-system calls are atomic at call granularity and flock semantics are those of the local kernel",
               "scheduling points are calls below the root directory plus sleeps; pure computation is not preempted"]
MIN = {"quick": {"executions": 40, "evaluations_started": 150}}


def cases(tier, seed):
    rng = random.Random(f"c01-{seed}")
    n = 330 if tier == "quick" else 4000
    for i, st in enumerate(mw.strategies(rng, n)):
        searcher = rng.choice(["random_search"] * 4 + ["grid_search", "asha", "hyperband", "successive_halving"])
        yield {"workers": rng.choice([2, 2, 3, 3, 4]), "strategy": st, "searcher": searcher, "seed": rng.randrange(1 << 20),
               "total": rng.choice([3, 4, 5, 6]), "pending": rng.choice([0, 0, 1, 2, 4]), "cont": rng.random() < 0.3,
               "stat": rng.random() < 0.15, "perrun": rng.choice([None, None, 2])}


def space_of(searcher):
    return {"grid_search": "grid", "asha": "mf", "hyperband": "mf", "successive_halving": "mf"}.get(searcher, "basic")


def run_case(case, d, res):
    root = d / "root"
    space = space_of(case["searcher"])
    kw = {"space": space, "searcher": case["searcher"], "seed": case["seed"], "max_evaluations_total": case["total"],
          "continue_until_max_evaluation_completed": case["cont"], "max_evaluations_per_run": case["perrun"]}
    if case["pending"]:
        mw.make_pending(root, case["pending"], space=space, searcher=case["searcher"], seed=case["seed"])
    fns = [mw.neps_worker(root, **kw) for _ in range(case["workers"])]
    out = sched.run_workers(fns, root, case["strategy"], mask=sched.M_DEFAULT | (sched.M_STAT if case["stat"] else 0))
    check_exactly_once(out, root, res, partial=case["perrun"] is not None)
    res.count("executions")
    res.count("steps", len(out.trace))
    res.count("context_switches", out.switches)
    if out.switches > 5:
        res.sigs.append(out.signature())
    res.sample = {"case": case, "steps": len(out.trace), "switches": out.switches, "order": [(e["w"], e["kind"], e.get("id")) for e in out.events][:30]}


def check_exactly_once(out, root, res, *, partial=False):
    mw.unexpected(out, res)
    starts = Counter(e["id"] for e in out.events if e["kind"] == "start")
    res.count("evaluations_started", sum(starts.values()))
    for tid, n in starts.items():
        if n > 1:
            who = [e["w"] for e in out.events if e["kind"] == "start" and e["id"] == tid]
            res.viol("evaluated-more-than-once", f"trial {tid} was handed to the evaluation function {n} times, by workers {who}")
    if out.stuck:
        return
    _, trials = mw.load_trials(root)
    ends = {e["id"]: e for e in out.events if e["kind"] == "end"}
    for tid, e in ends.items():
        t = trials.get(tid)
        if t is None:
            res.viol("evaluated-trial-missing", f"trial {tid} was evaluated but is not on disk")
        elif t.report is None or t.report.loss != e["loss"]:
            res.viol("result-lost", f"trial {tid}: evaluation returned {e['loss']}, recorded {t.report and t.report.loss} state={t.state}")
    for tid, t in trials.items():
        if tid in starts and mw.cfg_key(t.config) != next(e["config"] for e in out.events if e["kind"] == "start" and e["id"] == tid):
            res.viol("config-mismatch", f"trial {tid} evaluated with another configuration than recorded")
        if t.state.value in ("evaluating", "submitted") and not any(r and not r["ok"] for r in out.results):
            res.viol("left-in-progress", f"trial {tid} is {t.state} after all workers stopped normally")
        if t.state.value == "success" and tid not in starts:
            res.viol("finished-without-evaluation", f"trial {tid} is {t.state} but was never evaluated")
