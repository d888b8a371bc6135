"""C10: a worker killed at any file operation does not damage the run."""
from __future__ import annotations

import random
from collections import Counter

from vlib import mw, sched

LEVEL = "fault_enumeration"
RULE = ("a case runs a scenario of 1-3 workers and SIGKILLs one of them at its k-th file/lock operation (before it, right "
        "after it, or half-way through a write), then lets survivors finish and starts a fresh worker; the single-worker "
        "scenarios enumerate every k; distinct_nontrivial counts distinct (scenario, operation kind, file, occurrence, mode)")
ASSUMPTIONS = ["a kill is a process kill (SIGKILL), not a power loss: completed write calls survive",
               "crash points are file-system calls below the root directory; between them nothing observable changes"]
MIN = {"quick": {"kills": 150}}
SCEN = {
    # name: (workers, evaluations before/after, keyword arguments)
    "fresh": dict(workers=1, total=2),
    "resume": dict(workers=1, total=3, prior=2),
    "error": dict(workers=1, total=3, prior=1, fail=True),
    "pending": dict(workers=1, total=3, pending=2),
    "mf": dict(workers=1, total=4, prior=3, searcher="asha", space="mf"),
    "two": dict(workers=2, total=5, prior=1),
    "three": dict(workers=3, total=6, pending=1),
    "start2": dict(workers=2, total=2),
}


def steps_bound(name):
    return {"fresh": 260, "resume": 220, "error": 330, "pending": 330, "mf": 330}[name]


def cases(tier, seed):
    rng = random.Random(f"c10-{seed}")
    cs = []
    for name in ("fresh", "resume", "error", "pending", "mf"):
        n = steps_bound(name)
        ks = range(n) if tier == "thorough" else sorted(rng.sample(range(n), n // 2))
        for k in ks:
            for mode in ("k", "a", "t") if tier == "thorough" else (rng.choice("katt"),):
                cs.append({"scen": name, "k": k, "mode": mode, "strategy": {"kind": "random", "seed": 1}})
    n = 150 if tier == "quick" else 2500
    for st in mw.strategies(rng, n):
        cs.append({"scen": rng.choice(["two", "two", "three", "start2"]), "k": rng.randrange(10, 420), "mode": rng.choice("katt"), "strategy": st})
    rng.shuffle(cs)
    return cs


def run_case(case, d, res):
    sc = SCEN[case["scen"]]
    root = d / "root"
    space, searcher = sc.get("space", "basic"), sc.get("searcher", "random_search")
    common = dict(space=space, searcher=searcher, seed=5)
    before = {}
    if sc.get("prior"):
        out0 = sched.run_workers([mw.neps_worker(root, max_evaluations_total=sc["prior"], **common)], root, {"kind": "random", "seed": 0}, mask=0)
        mw.unexpected(out0, res)
    if sc.get("pending"):
        mw.make_pending(root, sc["pending"], space=space, searcher=searcher, seed=5)
    if root.exists():
        before = snapshot(root)
    ignore = bool(sc.get("fail"))
    evalkw = {"fail_ids": ("2",)} if sc.get("fail") else {}
    run_kw = dict(max_evaluations_total=sc["total"], ignore_errors=ignore, evalkw=evalkw, **common)
    hit = {}

    def plan(i, step, op, path):
        if i == 0 and step == case["k"]:
            hit.update(op=op, path=path)
            m = case["mode"]
            if m == "t" and op not in ("write", "fclose"):
                m = "a"
            hit["mode"] = m
            return m
        return "g"

    out = sched.run_workers([mw.neps_worker(root, **run_kw) for _ in range(sc["workers"])], root, case["strategy"], plan=plan)
    if not hit:
        res.count("no_kill")
        mw.unexpected(out, res)
        return
    res.count("kills")
    res.count("kill_in_" + hit["op"])
    nth = sum(1 for w, o, p in out.trace if w == 0 and (o, p) == (hit["op"], hit["path"]))
    res.sig(case["scen"], hit["op"], hit["path"], hit["mode"], nth)
    res.sample = {"case": case, "killed_at": hit, "steps": len(out.trace)}
    at = f"killed {hit['mode']}:{hit['op']} {hit['path']} (step {case['k']}, scenario {case['scen']})"
    mw.unexpected(out, res)  # survivors
    judge_disk(root, before, out, res, at)
    # a fresh worker carries on
    more = sc["total"] + 3
    out2 = sched.run_workers([mw.neps_worker(root, **{**run_kw, "max_evaluations_total": more})], root, {"kind": "random", "seed": 2}, mask=sched.M_SLEEP)
    n0 = len(res.violations)
    mw.unexpected(out2, res)
    for v in res.violations[n0:]:
        v["mechanism"] = "restart-" + v["mechanism"]
        v["msg"] = at + ": " + v["msg"]
    if len(res.violations) == n0 and not out2.stuck:
        st, trials = mw.load_trials(root)
        done = sum(t.report is not None for t in trials.values())
        busy = sum(t.report is None and t.state.value == "evaluating" for t in trials.values())
        if done + busy < more:
            res.viol("restart-stopped-early", f"{at}: fresh worker stopped with {done} finished + {busy} orphaned of {more}")
        multi = Counter(e["id"] for e in out.events + out2.events if e["kind"] == "start")
        for tid, n in multi.items():
            if n > 1:
                res.viol("restart-evaluated-again", f"{at}: trial {tid} evaluated {n} times")
        judge_disk(root, before, out, res, at + ", after restart")
        res.count("restarts_ok")
        from neps.status.status import get_summary_dict

        get_summary_dict(root)


def snapshot(root):
    _, trials = mw.load_trials(root)
    return {tid: (mw.cfg_key(t.config), t.report.loss if t.report else None, t.state.value) for tid, t in trials.items()}


def judge_disk(root, before, out, res, at):
    if not (root / ".optimizer_info" / "info.yaml").exists() and not before:
        return  # killed during initialisation: nothing recorded yet
    try:
        from neps.state.filebased import load_filebased_neps_state
        from neps.exceptions import VersionedResourceDoesNotExistsError

        try:
            st = load_filebased_neps_state(root)
        except VersionedResourceDoesNotExistsError:
            if before:
                raise
            return  # not completely initialised
        trials = st.get_all_trials()
        errs = st.get_errors()
        st.optimizer_state()
    except Exception as e:  # noqa: BLE001
        from vlib.core import neps_frame

        res.viol(f"state-unreadable:{type(e).__name__}@{neps_frame(e)}", f"{at}: reading the state fails: {type(e).__name__}: {e}")
        return
    for tid, (cfg, loss, state) in before.items():
        t = trials.get(tid)
        if t is None:
            res.viol("recorded-trial-lost", f"{at}: trial {tid} recorded before is gone")
        elif mw.cfg_key(t.config) != cfg or (loss is not None and (t.report is None or t.report.loss != loss)):
            res.viol("recorded-trial-changed", f"{at}: trial {tid} changed")
    # evaluations whose report was acknowledged (the worker went on to another evaluation or returned normally)
    by_w = {}
    for e in out.events:
        by_w.setdefault(e["w"], []).append(e)
    for w, evs in by_w.items():
        fin = [e for e in evs if e["kind"] in ("end", "fail")]
        n_ack = len([e for e in evs if e["kind"] == "start"]) - 1 if out.killed[w] else len(fin)
        for e in fin[:n_ack]:
            t = trials.get(e["id"])
            want = "success" if e["kind"] == "end" else "crashed"
            if t is None or t.report is None or t.state.value != want or (want == "success" and t.report.loss != e["loss"]):
                res.viol("reported-result-lost", f"{at}: result of trial {e['id']} reported before the kill is not recorded: {t}")
            if want == "crashed" and sum(x.trial_id == e["id"] for x in errs.errs) != 1:
                res.viol("reported-error-lost", f"{at}: error of trial {e['id']} not in the log once")
    for tid, t in trials.items():
        fin = t.state.value in ("success", "failed", "crashed")
        if fin and t.report is None:
            res.viol("finished-without-report", f"{at}: trial {tid} is {t.state} but has no report")
        if t.report is not None and t.report.reported_as == "success" and t.report.loss is None:
            res.viol("incomplete-report", f"{at}: trial {tid} has an incomplete report")
