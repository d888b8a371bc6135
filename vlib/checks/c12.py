"""C12: trial life cycle and metadata, watched by observer processes."""
from __future__ import annotations

import json
import random
import time
from dataclasses import asdict

from vlib import mw, sched

LEVEL = "exploration"
RULE = ("a case runs 1-3 real workers (failing evaluations, pending and pre-recorded trials, multi-fidelity) together with observer processes that poll all trials, all under the "
        "scheduler; a state-machine checker judges every observed version of every trial and the final state; distinct_nontrivial counts distinct interleavings "
        "in which an observer saw at least one trial in two different states")
ASSUMPTIONS = ["one machine: wall-clock times of different processes are comparable (tolerance 10 ms)"]
MIN = {"quick": {"executions": 100, "observed_versions": 700, "observed_transitions": 150, "trials_checked": 500, "continued_trials": 20}}
ORDER = {"pending": 0, "submitted": 1, "evaluating": 2, "success": 3, "failed": 3, "crashed": 3}


def cases(tier, seed):
    rng = random.Random(f"c12-{seed}")
    for st in mw.strategies(rng, 350 if tier == "quick" else 3500):
        if rng.random() < 0.6:
            st = {"kind": rng.choice(["random", "lock"]), "seed": st["seed"]}
        s = rng.choice(["random_search", "random_search", "asha", "hyperband", "successive_halving"])
        yield {"w": rng.choice([1, 2, 2, 3]), "obs": rng.choice([1, 1, 2]), "searcher": s, "space": "basic" if s == "random_search" else "mf", "n": rng.randint(3, 6), "fail": rng.choice([0, 0, 0.4]),
               "pending": rng.choice([0, 0, 2]), "lossonerr": rng.random() < 0.3, "seed": rng.randrange(1 << 20), "strategy": st}


def view(t):
    m = asdict(t.metadata)
    r = None
    if t.report is not None:
        r = {"loss": t.report.loss, "cost": t.report.cost, "as": t.report.reported_as, "dur": t.report.evaluation_duration, "lc": t.report.learning_curve, "extra": repr(t.report.extra), "err": str(t.report.err), "id": t.report.trial_id}
    return {"state": t.state.value, "config": mw.cfg_key(t.config), "meta": m, "report": r}


def observer(root, polls, fresh):
    def fn():
        from neps.state.filebased import load_filebased_neps_state

        st = load_filebased_neps_state(root)
        last = {}
        for _ in range(polls):
            if fresh:
                st = load_filebased_neps_state(root)
            for tid, t in st.get_all_trials().items():
                v = view(t)
                if last.get(tid) != v:
                    sched.emit("seen", id=tid, v=v)
                    last[tid] = v
                else:
                    sched.emit("same", id=tid)
            sched.point("poll")
        return "done"

    return fn


def worker(case, root, i):
    def fn():
        import neps

        with sched.quiet():
            sp = mw.make_space(case["space"])
            mw.seed_all(case["seed"] + i)
        base = mw.make_eval(fail_frac=case["fail"])

        def pipeline(pipeline_directory, previous_pipeline_directory, **config):
            from pathlib import Path
            tid = Path(pipeline_directory).name.split("_", 1)[1]
            t0 = time.time()
            try:
                return base(pipeline_directory, previous_pipeline_directory, **config)
            finally:
                sched.emit("times", id=tid, t0=t0, t1=time.time())

        neps.run(pipeline, root_directory=root, pipeline_space=sp, searcher=case["searcher"], max_evaluations_total=case["n"], ignore_errors=True, post_run_summary=False,
                 **({"loss_value_on_error": 3.5, "cost_value_on_error": 1.5} if case["lossonerr"] else {}))
        return "done"

    return fn


def run_case(case, d, res):
    root = d / "root"
    if case["pending"]:
        mw.make_pending(root, case["pending"], space=case["space"], searcher=case["searcher"], seed=case["seed"])
    else:
        mw.init_root(root, space=case["space"], searcher=case["searcher"], seed=case["seed"])
    W = case["w"]
    fns = [worker(case, root, i) for i in range(W)] + [observer(root, 25, bool(j)) for j in range(case["obs"])]
    out = sched.run_workers(fns, root, case["strategy"])
    mw.unexpected(out, res)
    res.count("executions")
    if out.stuck or res.inconclusive:
        return
    # observed histories
    moved = False
    first, fin = {}, {}
    last = {}
    for e in out.events:
        if e["kind"] != "seen":
            continue
        res.count("observed_versions")
        tid, v, o = e["id"], e["v"], e["w"]
        static(res, tid, v, f"observed by {o}")
        fixed = {k: v["meta"][k] for k in ("id", "location", "previous_trial_id", "previous_trial_location", "sampling_worker_id", "time_sampled")} | {"config": v["config"]}
        if first.setdefault(tid, fixed) != fixed:
            res.viol("fixed-field-changed", f"trial {tid}: {first[tid]} became {fixed}")
        p = last.get((o, tid))
        if p is not None:
            res.count("observed_transitions")
            moved = True
            if ORDER[v["state"]] < ORDER[p["state"]] or (ORDER[p["state"]] == 3 and v != p):
                res.viol("illegal-transition", f"trial {tid} went from {p['state']} to {v['state']} ({p} -> {v})")
            if p["state"] == v["state"] == "evaluating" and p != v:
                res.viol("evaluating-changed", f"trial {tid} changed while evaluating: {p} -> {v}")
        last[(o, tid)] = v
        if ORDER[v["state"]] == 3 and fin.setdefault(tid, v) != v:
            res.viol("final-changed", f"trial {tid} finished as {fin[tid]} and later {v}")
    # final state
    st, trials = mw.load_trials(root)
    ended = {e["id"]: e for e in out.events if e["kind"] in ("end", "fail")}
    times = {e["id"]: e for e in out.events if e["kind"] == "times"}
    starts = {e["id"]: e for e in out.events if e["kind"] == "start"}
    wid: dict[int, set] = {}
    for tid, t in trials.items():
        v = json.loads(json.dumps(view(t)))
        static(res, tid, v, "at the end")
        if tid in fin and fin[tid] != v:
            res.viol("final-changed", f"trial {tid} finished as {fin[tid]} and later {v}")
        if str(root) not in t.metadata.location or not t.metadata.location.endswith(f"configs/config_{tid}"):
            res.viol("location", f"trial {tid} has location {t.metadata.location}")
        if t.metadata.id != tid or (t.report and t.report.trial_id != tid):
            res.viol("id", f"trial in directory of {tid} has id {t.metadata.id}")
        pid = t.metadata.previous_trial_id
        if pid is not None:
            res.count("continued_trials")
            if pid not in trials or t.metadata.previous_trial_location != trials[pid].metadata.location:
                res.viol("predecessor", f"trial {tid} continues {pid} at {t.metadata.previous_trial_location}")
            elif trials[pid].metadata.time_sampled > t.metadata.time_sampled:
                res.viol("predecessor-order", f"trial {tid} was sampled before its predecessor {pid}")
        elif t.metadata.previous_trial_location is not None:
            res.viol("predecessor", f"trial {tid} has a predecessor location but no predecessor")
        if tid not in ended:
            continue
        res.count("trials_checked")
        want = "success" if ended[tid]["kind"] == "end" else "crashed"
        if t.state.value != want:
            res.viol("outcome", f"trial {tid} ended as {want} but is recorded as {t.state.value}")
        wid.setdefault(starts[tid]["w"], set()).add(t.metadata.evaluating_worker_id)
        x = times[tid]
        m = t.metadata
        tol = 0.01
        if not (m.time_sampled <= m.time_started + tol and m.time_started <= x["t0"] + tol and x["t1"] <= m.time_end + tol and m.evaluation_duration >= x["t1"] - x["t0"] - tol and m.evaluation_duration <= m.time_end - m.time_started + tol):
            res.viol("timestamps", f"trial {tid}: sampled {m.time_sampled}, started {m.time_started}, ended {m.time_end}, duration {m.evaluation_duration}; evaluation ran {x['t0']}..{x['t1']}")
    allw = [w for s in wid.values() for w in s]
    if any(len(s) != 1 for s in wid.values()) or len(set(allw)) != len(allw) or None in allw:
        res.viol("evaluating-worker", f"recorded evaluating workers by process: {wid}")
    for p, s in wid.items():
        pids = {e["pid"] for e in out.events if e["kind"] == "start" and e["w"] == p}
        res.count("workers_identified", len(pids))
    if moved:
        res.sigs.append(out.signature())
    res.sample = {"case": {k: v for k, v in case.items() if k != "strategy"}, "observed": [(e["w"], e["id"], e["v"]["state"]) for e in out.events if e["kind"] == "seen"][:15]}


def static(res, tid, v, who):
    """Things that hold of any single version of a trial."""
    s, m, r = v["state"], v["meta"], v["report"]
    if s not in ORDER:
        res.viol("unknown-state", f"trial {tid} {who}: {s}")
        return
    done = ORDER[s] == 3
    if done != (r is not None):
        res.viol("report-iff-finished", f"trial {tid} {who}: state {s}, report {r}")
        return
    if done and r["as"] != s:
        res.viol("report-matches-state", f"trial {tid} {who}: state {s}, reported as {r['as']}")
    if s == "pending" and (m["time_started"] is not None or m["evaluating_worker_id"] is not None or m["time_end"] is not None):
        res.viol("pending-has-start", f"trial {tid} {who}: pending with {m}")
    if s in ("evaluating", "success", "crashed") and (m["time_started"] is None or m["evaluating_worker_id"] is None):
        res.viol("no-start-recorded", f"trial {tid} {who}: {s} with {m}")
    if s == "evaluating" and (m["time_end"] is not None or m["evaluation_duration"] is not None):
        res.viol("evaluating-has-end", f"trial {tid} {who}: evaluating with {m}")
    if done and (m["time_end"] is None or m["evaluation_duration"] is None or m["evaluation_duration"] < 0 or m["time_end"] < m["time_started"] - 0.01 or m["time_started"] < m["time_sampled"] - 0.01 or r["dur"] != m["evaluation_duration"]):
        res.viol("timestamps", f"trial {tid} {who}: {m}, report duration {r['dur']}")
