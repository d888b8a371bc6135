"""C04: cost and time budgets; persisted spent cost."""
from __future__ import annotations

import random
import time
from pathlib import Path

from vlib import mw, sched

LEVEL = "exploration"
RULE = ("a case is (a) 1-4 real neps.run processes under the scheduler with generated costs (dyadic, so sums are exact), failures "
        "and limits, or (b) a single worker with its own cost/evaluation-time/wall-clock limits and real sleeping evaluations; "
        "distinct_nontrivial counts distinct executions in which a budget decided that a worker stopped")
ASSUMPTIONS = ["costs are multiples of 1/8, so the order of summation does not matter",
               "evaluation time is judged by the durations recorded in the reports, wall-clock time by enclosing measurements"]
MIN = {"quick": {"executions": 60, "budget_stops": 80, "worker_cases": 30}}

COSTS = {"mixed": [0.125, 0.5, 1.0, 2, 0, None, 3.25], "small": [0.125, 0.25], "neg": [1.0, -0.5, 2.0, 0.25, -1.0, 0.5], "int": [1, 2, 3], "zero": [0, 0.0, None, 1.0]}


def cases(tier, seed):
    rng = random.Random(f"c04-{seed}")
    n = 200 if tier == "quick" else 2500
    for st in mw.strategies(rng, n):
        w = rng.choice([1, 2, 2, 3, 4])
        yield {"kind": "total", "workers": w, "strategy": st, "seed": rng.randrange(1 << 20), "costs": rng.choice(["mixed", "small", "int", "zero"] + (["neg"] * 3 if w == 1 else [])),
               "limit": rng.choice([0.125, 0.5, 1, 2.5, 4, 6.25]), "max_evals": 12, "fail": rng.choice([0, 0, 0.3]), "err_cost": rng.choice([None, 0.5, 2.0]),
               "split": rng.random() < 0.3}
    m = 64 if tier == "quick" else 600
    for i in range(m):
        yield {"kind": "worker", "what": ["cost", "evaltime", "totaltime", "wall"][i % 4], "seed": rng.randrange(1 << 20), "costs": rng.choice(["mixed", "small", "int", "neg"]),
               "limit": rng.choice([0.0, 0.004, 0.01, 0.02]) if i % 4 else rng.choice([0.5, 1.0, 3.0, 5.5]), "fail": rng.choice([0, 0.3]), "err_cost": rng.choice([None, 0.25]), "prior": rng.choice([0, 2])}


def cost_fn(case):
    opts = COSTS[case["costs"]]

    def f(config):
        return opts[int(mw.cfg_hash(config, "cost") * len(opts))]

    return f


def run_case(case, d, res):
    return worker_limits(case, d, res) if case["kind"] == "worker" else total(case, d, res)


def total(case, d, res):
    root = d / "root"
    B, W, cost = case["limit"], case["workers"], cost_fn(case)
    mk = lambda seed: mw.neps_worker(root, seed=seed, max_cost_total=B, max_evaluations_total=case["max_evals"], ignore_errors=True,
                                     cost_value_on_error=case["err_cost"], evalkw={"cost": cost, "fail_frac": case["fail"]})
    outs = []
    if case["split"]:  # an earlier call already spent some
        pre = mw.neps_worker(root, seed=case["seed"], max_cost_total=B, max_evaluations_total=case["max_evals"], max_evaluations_per_run=1, ignore_errors=True,
                             cost_value_on_error=case["err_cost"], evalkw={"cost": cost, "fail_frac": case["fail"]})
        outs.append(sched.run_workers([pre], root, case["strategy"]))
    outs.append(sched.run_workers([mk(case["seed"]) for _ in range(W)], root, case["strategy"]))
    base = 0.0
    nbase = 0
    for o in outs:
        mw.unexpected(o, res)
        if o.stuck:
            return
    if case["split"]:
        ev0 = outs[0].events
        base = sum(ecost(e, case) for e in ev0 if e["kind"] in ("end", "fail"))
        nbase = sum(e["kind"] in ("end", "fail") for e in ev0)
    out = outs[-1]
    res.count("executions")
    res.count("steps", len(out.trace))
    acked, seen = base, base
    n_start = n_end = 0
    pend = {}
    snap = {w: base for w in range(W)}
    for e in out.events:
        w = e["w"]
        acked += pend.pop(w, 0.0)
        if e["kind"] == "start":
            if snap[w] >= B:
                res.viol("started-over-budget", f"worker {w} started {e['id']} although finished evaluations had already cost {snap[w]} of {B}")
            n_start += 1
        elif e["kind"] in ("end", "fail"):
            c = ecost(e, case)
            pend[w] = c
            seen += c
            n_end += 1
            # its own cost counts for its next decision, others' once acknowledged
            snap[w] = acked + c
        elif e["kind"] == "stop" and e["ok"]:
            res.count("stops")
            if seen < B and nbase + n_start < case["max_evals"]:
                res.viol("stopped-under-budget", f"worker {w} stopped with {seen} of {B} spent and {nbase + n_start} of {case['max_evals']} evaluations")
            if seen >= B:
                res.count("budget_stops")
                res.sigs.append(out.signature() + str((B, case["costs"])))
    st, trials = mw.load_trials(root)
    evs = [e for o in outs for e in o.events if e["kind"] in ("end", "fail")]
    for e in evs:
        t = trials[e["id"]]
        want = e["cost"] if e["kind"] == "end" else case["err_cost"]
        got = t.report.cost if t.report else "no report"
        if got != want:
            res.viol("recorded-cost", f"trial {e['id']} cost {want}, recorded {got}")
    used = st.optimizer_state().budget.used_cost_budget
    tot = sum(t.report.cost or 0.0 for t in trials.values() if t.report is not None)
    exp = sum(ecost(e, case) for e in evs)
    res.count("counter_checks")
    if used != exp or used != tot:
        res.viol("spent-cost-counter", f"persisted spent cost {used}, sum of recorded {tot}, sum of reported {exp}")
    res.sample = {"case": case, "spent": used, "events": [(e["w"], e["kind"], e.get("cost")) for e in out.events][:30]}


def ecost(e, case):
    c = e.get("cost") if e["kind"] == "end" else case["err_cost"]
    return float(c) if c is not None else 0.0


def worker_limits(case, d, res):
    from neps.runtime import DefaultWorker
    from neps.state.filebased import load_filebased_neps_state
    from neps.state.settings import DefaultReportValues, OnErrorPossibilities, WorkerSettings

    root = d / "root"
    rng = random.Random(case["seed"])
    mw.init_root(root, seed=case["seed"])
    what, L, cost = case["what"], case["limit"], cost_fn(case)
    log = []

    def evaluate(**config):
        a = time.monotonic()
        log.append(["start", a])
        time.sleep(0.0015 + 0.002 * mw.cfg_hash(config, "dur"))
        try:
            if case["fail"] and mw.cfg_hash(config, "fail") < case["fail"]:
                c = case["err_cost"]
                raise mw.UserErr("x")
            c = cost(config)
            return {"loss": 1.0, **({"cost": c} if c is not None else {})}
        finally:
            log[-1] += [time.monotonic(), float(c) if c is not None else 0.0]

    def settings(**kw):
        base = dict(on_error=OnErrorPossibilities.IGNORE, default_report_values=DefaultReportValues(cost_value_on_error=case["err_cost"]), max_evaluations_total=None,
                    include_in_progress_evaluations_towards_maximum=True, max_cost_total=None, max_evaluations_for_worker=25, max_evaluation_time_total_seconds=None,
                    max_wallclock_time_for_worker_seconds=None, max_evaluation_time_for_worker_seconds=None, max_cost_for_worker=None)
        return WorkerSettings(**{**base, **kw})

    def make(**kw):
        return DefaultWorker.new(state=load_filebased_neps_state(root), optimizer=mw.make_optimizer("random_search", "basic"), settings=settings(**kw), evaluation_fn=evaluate)

    if case["prior"]:
        make(max_evaluations_for_worker=case["prior"]).run()
    nprior = len(log)
    prior_ids = set(load_filebased_neps_state(root).all_trial_ids())
    key = {"cost": "max_cost_for_worker", "evaltime": "max_evaluation_time_for_worker_seconds", "totaltime": "max_evaluation_time_total_seconds", "wall": "max_wallclock_time_for_worker_seconds"}[what]
    t0 = time.monotonic()
    make(**{key: L}).run()
    t1 = time.monotonic()
    _, trials = mw.load_trials(root)
    mine = log[nprior:]
    res.count("worker_cases")
    recs = sorted((t for i, t in trials.items() if i not in prior_ids), key=lambda t: t.metadata.time_started)
    durs = [t.report.evaluation_duration for t in recs]
    for t, m in zip(recs, mine):
        real = m[2] - m[1]
        dur = t.report.evaluation_duration
        if not (dur >= real - 1e-4) or dur > (t1 - t0) + 1e-3 or t.metadata.evaluation_duration != dur:
            res.viol("recorded-duration", f"evaluation took {real}, recorded {dur}")
    n = len(mine)
    if what == "wall":
        for k in range(1, n):
            if mine[k - 1][2] - mine[0][1] >= L:
                res.viol("started-after-wallclock", f"evaluation {k} started {mine[k - 1][2] - mine[0][1]:.4f}s after the worker's first start, limit {L}")
        if n < 25 and t1 - t0 < L:
            res.viol("stopped-before-wallclock", f"worker stopped after {t1 - t0}s, limit {L}")
        if L == 0.0 and n:
            res.viol("started-after-wallclock", "limit 0 but evaluated")
    else:
        vals = [m[3] for m in mine] if what == "cost" else durs
        s = 0.0
        if what == "totaltime":
            s = sum(t.report.evaluation_duration for i, t in trials.items() if i in prior_ids)
        want = None
        for k in range(26):
            if s >= L + 1e-9:
                want = k
                break
            if abs(s - L) <= 1e-9 and what != "cost":
                want = "ambiguous"
                break
            if s >= L:
                want = k
                break
            if k >= n:
                break
            s += vals[k]
        exp = 25 if want is None else want
        if exp != "ambiguous" and n != min(exp, 25) and not (want is None and n == 25):
            res.viol(f"{what}-limit", f"limit {L}: performed {n} evaluations with values {vals[:30]}, expected {exp}")
        if want not in (None, "ambiguous"):
            res.count("budget_stops")
    res.sig(what, L, n, case["seed"])
    res.sample = {"case": case, "evaluations": n}
