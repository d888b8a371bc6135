"""C03: evaluation-count limits with any number of workers."""
from __future__ import annotations

import random
from pathlib import Path

from vlib import mw, sched

LEVEL = "exploration"
RULE = ("a case runs 1-4 real neps.run processes with generated limits on a generated prior history under the scheduler (or one "
        "held in progress by a gate); distinct_nontrivial counts distinct (interleaving, limits, history) executions in which "
        "a limit was actually decisive (a worker stopped because of it)")
ASSUMPTIONS = ["a worker's stop decision is taken somewhere between its previous evaluation's end and its next one's start"]
MIN = {"quick": {"executions": 40, "stops": 80, "gated": 8, "late_finish": 6}}


def cases(tier, seed):
    rng = random.Random(f"c03-{seed}")
    n = 240 if tier == "quick" else 3000
    for st in mw.strategies(rng, n):
        w = rng.choice([1, 2, 2, 3, 4])
        yield {"kind": "free", "workers": w, "strategy": st, "seed": rng.randrange(1 << 20), "total": rng.choice([1, 1, 2, 3, 4, 6]),
               "per": rng.choice([None, None, 0, 1, 2, 3]), "cont": rng.random() < 0.5, "prior_ok": rng.choice([0, 0, 1, 2]),
               "prior_fail": rng.choice([0, 0, 1]), "orphans": rng.choice([0, 0, 0, 1]), "pending": rng.choice([0, 0, 1, 2]),
               "fail": rng.random() < 0.3, "searcher": rng.choice(["random_search", "random_search", "asha"])}
    for i in range(24 if tier == "quick" else 200):
        yield {"kind": "gated", "cont": bool(i % 2), "total": rng.choice([1, 2, 3]), "seed": rng.randrange(1 << 20), "strategy": {"kind": "random", "seed": rng.randrange(1 << 20)}}
    for i in range(16 if tier == "quick" else 150):
        yield {"kind": "late", "total": 2 + i % 3, "others": 1 + (i // 3) % 2, "seed": rng.randrange(1 << 20), "fail": rng.random() < 0.3, "strategy": {"kind": "random", "seed": rng.randrange(1 << 20)},
               "searcher": rng.choice(["random_search", "asha"])}


def prior_history(root, case, space):
    """n_ok finished, n_fail crashed, orphaned in-progress and pending trials."""
    import time

    from neps.state.filebased import load_filebased_neps_state

    mw.init_root(root, space=space, searcher=case["searcher"], seed=case["seed"])
    st = load_filebased_neps_state(Path(root))
    opt = mw.make_optimizer(case["searcher"], space, ignore_errors=True)
    kinds = ["ok"] * case["prior_ok"] + ["fail"] * case["prior_fail"] + ["busy"] * case["orphans"] + ["pending"] * case["pending"]
    for k in kinds:
        t = st.sample_trial(opt, worker_id="prior")
        if k == "pending":
            continue
        t = st.get_trial_by_id(t.id)
        t.set_evaluating(time_started=time.time(), worker_id="prior")
        st.put_updated_trial(t)
        if k == "busy":
            continue
        err = ValueError("x") if k == "fail" else None
        rep = t.set_complete(report_as="crashed" if err else "success", time_end=time.time(), loss=None if err else mw.cfg_hash(t.config), cost=None, learning_curve=None, err=err, tb=None, extra={}, evaluation_duration=0.1)
        st.report_trial_evaluation(t, rep, worker_id="prior")


def run_case(case, d, res):
    if case["kind"] == "gated":
        return gated(case, d, res)
    if case["kind"] == "late":
        return late(case, d, res)
    root = d / "root"
    M, W, per = case["total"], case["workers"], case["per"]
    space = "mf" if case["searcher"] == "asha" else "basic"
    if case["prior_ok"] + case["prior_fail"] + case["orphans"] + case["pending"]:
        prior_history(root, case, space)
    fns = [mw.neps_worker(root, space=space, searcher=case["searcher"], seed=case["seed"], max_evaluations_total=M, max_evaluations_per_run=per,
                          continue_until_max_evaluation_completed=case["cont"], ignore_errors=True, evalkw={"fail_frac": 0.4 if case["fail"] else 0.0}) for _ in range(W)]
    out = sched.run_workers(fns, root, case["strategy"])
    mw.unexpected(out, res)
    res.count("executions")
    res.count("steps", len(out.trace))
    if out.stuck:
        return
    reported0 = case["prior_ok"] + case["prior_fail"]
    judge(out, res, M=M, W=W, per=per, cont=case["cont"], reported0=reported0, orphans=case["orphans"])
    res.sample = {"case": case, "events": [(e["w"], e["kind"], e.get("id")) for e in out.events][:40]}


def judge(out, res, *, M, W, per, cont, reported0, orphans):
    ev = out.events
    starts = [e for e in ev if e["kind"] == "start"]
    ends = [e for e in ev if e["kind"] in ("end", "fail")]
    base = reported0 + (0 if cont else orphans)
    n = len(starts)
    res.count("evaluations_started", n)
    if n > max(0, M - base + W - 1):
        res.viol("total-limit-exceeded", f"{n} evaluations started; limit {M}, {base} already counted, {W} workers")
    if W == 1:
        want = max(0, M - base)
        if per is not None:
            want = min(want, per)
        if n != want:
            res.viol("single-worker-count", f"single worker performed {n} evaluations, expected {want} (limit {M}, counted before {base}, per-run {per})")
    last_idx: dict[int, int] = {}
    per_w: dict[int, int] = {}
    n_start = n_end = 0
    acked = 0
    snap: dict[int, tuple[int, int]] = {w: (0, 0) for w in range(W)}
    pend_ack: dict[int, int] = {}
    for e in ev:
        w = e["w"]
        # an evaluation's report is certainly recorded once its worker shows any later activity
        acked += pend_ack.pop(w, 0)
        if e["kind"] == "start":
            s0, a0 = snap[w]
            counted = (base + s0) if not cont else (reported0 + a0)  # a0 includes its own last report: it is recorded before the worker looks for more work
            if counted >= M:
                res.viol("started-after-limit", f"worker {w} started {e['id']} although {counted} of {M} were already counted when it last finished (continue-until={cont})")
            per_w[w] = per_w.get(w, 0) + 1
            if per is not None and per_w[w] > per:
                res.viol("per-run-limit-exceeded", f"worker {w} started {per_w[w]} evaluations, per-run limit {per}")
            n_start += 1
        elif e["kind"] in ("end", "fail"):
            n_end += 1
            pend_ack[w] = 1
            snap[w] = (n_start, acked + 1)
        elif e["kind"] == "stop" and e["ok"]:
            res.count("stops")
            done_here = per is not None and per_w.get(w, 0) >= per
            if not done_here:
                if cont and reported0 + n_end < M:
                    res.viol("stopped-before-limit", f"worker {w} stopped with {reported0 + n_end} finished of {M} (continue-until-completed)")
                if not cont and base + n_start + (W - 1) < M:
                    res.viol("stopped-before-limit", f"worker {w} stopped with {base + n_start} counted of {M}")
                if W == 1 or n_end > 0:
                    res.sigs.append(out.signature() + str((M, per, cont, base)))
    if per is None and all(r and r["ok"] for r in out.results):
        if base + n < M:
            res.viol("limit-not-reached", f"all workers stopped with {base + n} of {M} evaluations")


def gated(case, d, res):
    """Worker 0 is held inside its M-th evaluation while worker 1 starts."""
    root = d / "root"
    M, cont = case["total"], case["cont"]
    mk = lambda: mw.neps_worker(root, seed=case["seed"], max_evaluations_total=M, continue_until_max_evaluation_completed=cont, evalkw={"extra_points": 1})
    state = {"phase": 0}

    def gate(enabled, out):
        held = [w for w in enabled if w.i == 0]
        starts0 = sum(e["kind"] == "start" and e["w"] == 0 for e in out.events)
        at_last = bool(held) and held[0].pending and held[0].pending[0] == "point" and held[0].pending[1].startswith("eval-0") and starts0 == M
        if state["phase"] == 0:
            if at_last:
                state["phase"] = 1
            else:
                return [w for w in enabled if w.i == 0]
        if state["phase"] == 1:
            stop1 = any(e["w"] == 1 and e["kind"] == "stop" for e in out.events)
            start1 = any(e["w"] == 1 and e["kind"] == "start" for e in out.events)
            if stop1 or start1:
                state["phase"] = 2
            else:
                return [w for w in enabled if w.i == 1]
        return enabled

    out = sched.run_workers([mk(), mk()], root, case["strategy"], gate=gate)
    mw.unexpected(out, res)
    res.count("gated")
    if out.stuck:
        return
    s1 = [e for e in out.events if e["w"] == 1 and e["kind"] == "start"]
    n = sum(e["kind"] == "start" for e in out.events)
    if not cont and s1:
        res.viol("in-progress-not-counted", f"a second worker started an evaluation although {M} of {M} were finished or in progress")
    if cont and not s1:
        res.viol("in-progress-counted", f"with continue-until-completed a second worker stopped while only {M - 1} of {M} were finished")
    if n > M + 1:
        res.viol("total-limit-exceeded", f"{n} evaluations for limit {M} with two workers")
    res.sig("gated", M, cont, out.signature())
    res.sample = {"case": case, "events": [(e["w"], e["kind"], e.get("id")) for e in out.events][:40]}


def late(case, d, res):
    """Continue-until-completed: worker 0 starts its evaluation while the others are in the middle of theirs, and finishes it only when
    they have stopped (at their own per-run limits) with all but one of the total finished; its own is then the last one."""
    root = d / "root"
    M, k = case["total"], min(case["others"], case["total"] - 1)
    space = "mf" if case["searcher"] == "asha" else "basic"
    quota = [(M - 1) // k + (1 if i < (M - 1) % k else 0) for i in range(k)]
    mk = lambda per: mw.neps_worker(root, space=space, searcher=case["searcher"], seed=case["seed"], max_evaluations_total=M, max_evaluations_per_run=per, continue_until_max_evaluation_completed=True,
                                    ignore_errors=True, evalkw={"extra_points": 1, "fail_frac": 0.4 if case["fail"] else 0.0})
    mw.init_root(root, space=space, searcher=case["searcher"], seed=case["seed"])
    state = {"phase": 0}

    def inside(w):
        return bool(w.pending) and w.pending[0] == "point" and w.pending[1].startswith("eval-0")

    def gate(enabled, out):
        if state["phase"] == 0:  # the others up to the middle of their first evaluation
            todo = [w for w in enabled if w.i > 0 and not inside(w)]
            if todo:
                return todo
            state["phase"] = 1
        if state["phase"] == 1:  # worker 0 up to the middle of its own
            mine = [w for w in enabled if w.i == 0]
            if mine and not inside(mine[0]):
                return mine
            state["phase"] = 2
        if state["phase"] == 2:  # the others to their end
            todo = [w for w in enabled if w.i > 0]
            if todo:
                return todo
            state["phase"] = 3
        return enabled

    out = sched.run_workers([mk(None), *[mk(q) for q in quota]], root, case["strategy"], gate=gate)
    mw.unexpected(out, res)
    if out.stuck:
        return
    n0 = sum(e["kind"] == "start" and e["w"] == 0 for e in out.events)
    n = sum(e["kind"] == "start" for e in out.events)
    res.count("late_finish")
    if n > M:
        res.viol("started-after-limit", f"worker 0 started {n0} evaluations although the others had stopped with {M - 1} finished and its first one completed the limit of {M} (continue-until-completed)")
    if n < M:
        res.viol("limit-not-reached", f"all workers stopped with {n} of {M} evaluations")
    res.sig("late", M, k, out.signature())
    res.sample = {"case": case, "events": [(e["w"], e["kind"], e.get("id")) for e in out.events][:40]}
