"""C02: concurrent sampling never duplicates, drops or overwrites a trial."""
from __future__ import annotations

import random
from collections import Counter
from pathlib import Path

from vlib import mw, sched

LEVEL = "exploration"
RULE = ("a case is one scheduled execution of 2-4 processes that sample from (and in part evaluate on) one shared state; every "
        "proposal is recorded with the trials it was given; distinct_nontrivial counts distinct interleavings with overlapping "
        "sampling attempts")
ASSUMPTIONS = ["scheduling points are file/lock calls below the root directory plus sleeps"]
MIN = {"quick": {"executions": 40, "samples": 200}}


def cases(tier, seed):
    rng = random.Random(f"c02-{seed}")
    n = 260 if tier == "quick" else 3000
    for st in mw.strategies(rng, n):
        yield {"workers": rng.choice([2, 3, 3, 4]), "per": rng.choice([1, 2, 2, 3]), "strategy": st, "seed": rng.randrange(1 << 20),
               "searcher": rng.choice(["random_search", "random_search", "random_search", "grid_search", "asha", "hyperband", "successive_halving", "bayesian_optimization"]),
               "evaluate": rng.random() < 0.5, "pre": rng.choice([0, 0, 2])}


def space_of(s):
    return {"grid_search": "grid", "asha": "mf", "hyperband": "mf", "successive_halving": "mf"}.get(s, "basic")


def sampler(root, case, w):
    def fn():
        import time

        from neps.state.filebased import load_filebased_neps_state

        with sched.quiet():
            opt = mw.make_optimizer(case["searcher"], space_of(case["searcher"]))
            mw.seed_all(1000 + w)
        st = load_filebased_neps_state(Path(root))
        real = opt.ask

        def ask(trials, budget_info):
            sched.emit("ask", known={k: bool(t.report is not None) for k, t in trials.items()})
            sched.point("ask")
            return real(trials=trials, budget_info=budget_info)

        opt.ask = ask
        for _ in range(case["per"]):
            sched.emit("begin")
            t = st.sample_trial(opt, worker_id=f"w{w}")
            sched.emit("sampled", id=t.id, config=mw.cfg_key(t.config))
            if case["evaluate"]:
                t2 = st.get_trial_by_id(t.id)
                t2.set_evaluating(time_started=time.time(), worker_id=f"w{w}")
                st.put_updated_trial(t2)
                rep = t2.set_complete(report_as="success", time_end=time.time(), loss=mw.cfg_hash(t2.config), cost=None, learning_curve=None, err=None, tb=None, extra={}, evaluation_duration=0.0)
                st.report_trial_evaluation(t2, rep, worker_id=f"w{w}")
                sched.emit("reported", id=t.id)
        return None

    return fn


def run_case(case, d, res):
    root = d / "root"
    mw.make_pending(root, case["pre"], space=space_of(case["searcher"]), searcher=case["searcher"], seed=case["seed"])
    _, pre = mw.load_trials(root)
    out = sched.run_workers([sampler(root, case, w) for w in range(case["workers"])], root, case["strategy"])
    mw.unexpected(out, res)
    res.count("executions")
    res.count("steps", len(out.trace))
    ev = out.events
    sampled = [e for e in ev if e["kind"] == "sampled"]
    res.count("samples", len(sampled))
    overlap = overlapping(ev)
    res.count("overlapping_samples", overlap)
    if overlap:
        res.sigs.append(out.signature())
    res.sample = {"case": case, "events": [(e["w"], e["kind"], e.get("id")) for e in ev][:40]}
    if out.stuck:
        return
    ids = Counter(e["id"] for e in sampled)
    for tid, n in ids.items():
        if n > 1 or tid in pre:
            res.viol("duplicate-id", f"trial id {tid} was handed out {n} times (existed before: {tid in pre})")
    _, trials = mw.load_trials(root)
    want = {tid: mw.cfg_key(t.config) for tid, t in pre.items()}
    want.update({e["id"]: e["config"] for e in sampled})
    have = {tid: mw.cfg_key(t.config) for tid, t in trials.items()}
    if want != have:
        res.viol("trial-lost-or-overwritten", f"sampled {want} but on disk {have}")
    if case["searcher"] in ("random_search", "bayesian_optimization"):
        exp = {str(i) for i in range(1, len(want) + 1)}
    elif case["searcher"] == "grid_search":
        exp = {str(i) for i in range(len(want))}
    else:
        exp = None
    if exp is not None and set(have) != exp:
        res.viol("numbering-gap", f"ids {sorted(have)} are not consecutive")
    # knowledge at each proposal
    done_s, done_r, since = set(pre), set(), {}
    for e in ev:
        if e["kind"] == "begin":
            since[e["w"]] = (set(done_s), set(done_r))
        elif e["kind"] == "sampled":
            done_s.add(e["id"])
        elif e["kind"] == "reported":
            done_r.add(e["id"])
        elif e["kind"] == "ask":
            s, r = since[e["w"]]
            res.count("asks")
            miss = s - set(e["known"])
            if miss:
                res.viol("proposal-misses-trials", f"worker {e['w']} proposed without knowing trials {sorted(miss)}")
            stale = {t for t in r if t in e["known"] and not e["known"][t]}
            if stale:
                res.viol("proposal-misses-results", f"worker {e['w']} proposed without the recorded results of {sorted(stale)}")
    sizes = sorted(len(e["known"]) for e in ev if e["kind"] == "ask")
    if len(set(sizes)) != len(sizes):
        res.viol("proposals-not-serialised", f"two proposals were made from equally large histories: {sizes}")


def overlapping(ev):
    open_, n = set(), 0
    for e in ev:
        if e["kind"] == "begin":
            n += bool(open_)
            open_.add(e["w"])
        elif e["kind"] == "sampled":
            open_.discard(e["w"])
    return n
