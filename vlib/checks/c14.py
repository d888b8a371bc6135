"""C14: status, summary and CSV files against an independent recount of the recorded trials."""
from __future__ import annotations

import contextlib
import csv
import io
import json
import math
import os
import random
from pathlib import Path

from vlib import gen, mw, sched
from vlib.checks.c07 import snap

LEVEL = "exploration"
RULE = ("a case builds a run directory with a generated history (any mix of pending, in-progress, successful and crashed trials; losses with ties, infinities, NaN, integers; costs, "
        "extra data; any order of completion) or lets 1-3 scheduled real workers write post-run summaries concurrently, then compares summary, status output and CSV "
        "with a recount made from the trial files; distinct_nontrivial counts distinct (numbers per category, loss pattern) with at least one trial")
ASSUMPTIONS = ["the best evaluated trial is one with the smallest loss below infinity; none is named if there is none", "trials that crashed are never named best, even with a configured error loss"]
MIN = {"quick": {"histories": 350, "trials_recounted": 900, "csv_rows": 1500, "concurrent_runs": 20, "no_trials": 3, "only_failed": 10, "with_pending": 100, "ties": 12}}
CASE_TIMEOUT = 150


def cases(tier, seed):
    rng = random.Random(f"c14-{seed}")
    for i in range(420 if tier == "quick" else 5000):
        n = rng.choice([0, 1, 1, 2, 3, 4, 6, 9, 14])
        kind = rng.choice(["mixed", "mixed", "mixed", "success", "failed", "pendingonly", "weird"])
        yield {"kind": "hist", "n": n, "mix": kind, "fid": rng.random() < 0.4, "ids": rng.choice(["num", "num", "mf", "pad"]), "cost": rng.random() < 0.5, "extra": rng.choice(["none", "flat", "info", "nested", "curve"]),
               "losses": rng.choice(["rand", "ties", "inf", "nan", "neg", "int", "allinf"]), "seed": rng.randrange(1 << 30)}
    # a worker is put aside while it writes its summary
    park = [{"kind": "park", "seed": rng.randrange(1 << 30), "worker": 0, "match": "summary_csv", "after": rng.randint(0, 90)} for _ in range(60 if tier == "quick" else 600)]
    for st in mw.strategies(rng, 36 if tier == "quick" else 400) + park:
        yield {"kind": "conc", "w": rng.choice([1, 2, 2, 3]), "n": rng.randint(2, 5), "fail": rng.choice([0, 0.4, 1.0]), "pending": rng.choice([0, 2]), "per": rng.choice([None, 1, 2]), "seed": rng.randrange(1 << 20), "strategy": st}


def gen_loss(rng, kind, i):
    return {"rand": rng.uniform(0, 10), "ties": rng.choice([1.0, 1.0, 2.0]), "inf": rng.choice([float("inf"), float("-inf"), rng.random(), rng.random()]) if rng.random() < 0.7 else rng.random(),
            "nan": rng.choice([float("nan"), rng.random(), rng.random()]), "neg": -rng.uniform(0, 1e6), "int": rng.randint(-3, 9), "allinf": float("inf")}[kind]


def gen_extra(rng, kind):
    return {"none": {}, "flat": {"acc": rng.random(), "note": rng.choice(["x", "a,b", 'q"q', "l\nl"]), "k": rng.randint(0, 9)}, "info": {"info_dict": {"a": rng.random(), "b": "t"}},
            "nested": {"info_dict": {"d": {"e": {"f": 1}}, "g": [1, 2, 3]}, "m": {"z": None}}, "curve": {"learning_curve": [rng.random() for _ in range(3)]}}[kind]


def build_history(case, root, rng):
    """Make the trials through the shared state, in a random order of completion."""
    import neps
    from neps.optimizers.base_optimizer import BaseOptimizer, SampledConfig
    from neps.search_spaces.search_space import SearchSpace
    from neps.state._eval import evaluate_trial
    from neps.state.filebased import load_filebased_neps_state
    from neps.state.settings import DefaultReportValues

    spec = gen.gen_space(rng, nmin=1, nmax=4, fid=case["fid"])
    space = gen.build(spec)
    neps.run(mw.make_eval(), root_directory=root, pipeline_space=space, post_run_summary=False, max_evaluations_per_run=0, max_evaluations_total=10**6, searcher="random_search", **({"ignore_fidelity": True} if case["fid"] else {}))
    st = load_filebased_neps_state(Path(root))
    todo = []

    class Feed(BaseOptimizer):
        def ask(self, trials, budget_info):
            return todo[0]

    opt = Feed(pipeline_space=SearchSpace(**space))
    exp = {}
    open_ = []
    for i in range(case["n"]):
        tid = {"num": str(i + 1), "mf": f"{i // 2}_{i % 2}", "pad": f"{i:03d}"}[case["ids"]]
        cfg = gen.gen_config(rng, spec)
        prev = f"{i // 2}_0" if case["ids"] == "mf" and i % 2 else None
        todo[:] = [SampledConfig(id=tid, config=cfg, previous_config_id=prev)]
        t = st.sample_trial(opt, worker_id="s")
        exp[tid] = {"state": "pending", "config": cfg, "prev": prev}
        open_.append(t)
        while open_ and rng.random() < 0.6:
            finish(case, rng, st, open_.pop(rng.randrange(len(open_))), exp)
    while open_ and rng.random() < 0.85:
        finish(case, rng, st, open_.pop(rng.randrange(len(open_))), exp)
    return spec, exp


def finish(case, rng, st, t, exp):
    from neps.state._eval import evaluate_trial
    from neps.state.settings import DefaultReportValues
    import time

    mix = case["mix"]
    k = {"mixed": rng.choice(["pending", "evaluating", "success", "success", "success", "crashed"]), "success": "success", "failed": "crashed", "pendingonly": rng.choice(["pending", "evaluating"]), "weird": rng.choice(["evaluating", "success", "crashed"])}[mix]
    if k == "pending":
        return
    t.set_evaluating(time_started=time.time(), worker_id="e")
    st.put_updated_trial(t)
    e = exp[t.id]
    e["state"] = "evaluating"
    if k == "evaluating":
        return
    loss = gen_loss(rng, case["losses"], 0)
    cost = rng.choice([0, 1.5, -2.0, 1e9]) if case["cost"] else None
    extra = gen_extra(rng, case["extra"])

    def fn(**config):
        if k == "crashed":
            raise ValueError("no")
        return {"loss": loss, **({"cost": cost} if cost is not None else {}), **extra} if cost is not None or extra else loss

    lossonerr = rng.choice([None, -1e9, float("nan")])
    _, rep = evaluate_trial(t, evaluation_fn=fn, default_report_values=DefaultReportValues(loss_value_on_error=lossonerr, cost_value_on_error=None))
    if rng.random() < 0.5:  # evaluations of all lengths
        t.metadata.evaluation_duration = rep.evaluation_duration = rng.choice([0.25, 3.7, 59.99, 61.2, 3600.5, 40271.25])
    st.report_trial_evaluation(t, rep, worker_id="e")
    e.update(state=k, loss=float(loss) if k == "success" else None, cost=cost if k == "success" else None, meta=dict(vars(t.metadata)))


def recount(exp):
    done = {i: e for i, e in exp.items() if e["state"] in ("success", "crashed")}
    good = {i: e["loss"] for i, e in done.items() if e["state"] == "success" and e["loss"] < math.inf}
    return {"eval": len(done), "err": sum(e["state"] == "crashed" for e in exp.values()), "pend": sum(e["state"] == "pending" for e in exp.values()), "prog": sum(e["state"] == "evaluating" for e in exp.values()),
            "best": min(good.values()) if good else None, "best_ids": {i for i, v in good.items() if v == min(good.values())} if good else set()}


def same(a, b):
    return (a == b and type(a) is type(b)) or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))


def cell_eq(cell: str, v) -> bool:
    if v is None:
        return cell == ""
    if isinstance(v, float) and math.isnan(v):
        return cell in ("", "nan")
    if isinstance(v, str):
        return cell == v
    if cell == str(v):
        return True
    if isinstance(v, bool):
        return cell in (("1", "1.0") if v else ("0", "0.0"))
    try:
        return float(cell) == float(v)
    except ValueError:
        return False


def judge(res, root, exp):
    import neps
    from neps.status.status import get_summary_dict, post_run_csv

    want = recount(exp)
    before = snap(root)
    s = get_summary_dict(root, add_details=True)
    s2 = get_summary_dict(str(root))

    def eq(what, a, b):
        if not same(a, b):
            res.viol(f"summary:{what}", f"{what} is {a!r} instead of {b!r} for {({i: (e['state'], e.get('loss')) for i, e in exp.items()})}")

    for d in (s, s2):
        eq("num_evaluated_configs", d["num_evaluated_configs"], want["eval"])
        eq("num_error", d["num_error"], want["err"])
        eq("num_pending_configs", d["num_pending_configs"], want["pend"] + want["prog"])
        eq("num_pending_configs_with_worker", d["num_pending_configs_with_worker"], want["prog"])
        if want["best"] is None:
            eq("best_config_id", d["best_config_id"], None)
            eq("best_config", d["best_config"], None)
        else:
            eq("best_loss", d["best_loss"], want["best"])
            if d["best_config_id"] not in want["best_ids"]:
                res.viol("summary:best_config_id", f"best is {d['best_config_id']} instead of one of {want['best_ids']}")
            else:
                eq("best_config", mw.cfg_key(d["best_config"]), mw.cfg_key(exp[d["best_config_id"]]["config"]))
                eq("best_config_metadata", d["best_config_metadata"]["id"], d["best_config_id"])
    eq("previous_results", sorted(s["previous_results"]), sorted(i for i, e in exp.items() if e["state"] in ("success", "crashed")))
    eq("pending_configs", sorted(s["pending_configs"]), sorted(i for i, e in exp.items() if e["state"] in ("pending", "evaluating")))
    eq("pending_configs_free", sorted(s["pending_configs_free"]), sorted(i for i, e in exp.items() if e["state"] == "pending"))
    for i, c in s["pending_configs"].items():
        eq("pending config", mw.cfg_key(c), mw.cfg_key(exp[i]["config"]))
    for i, r in s["previous_results"].items():
        e = exp[i]
        eq("result config", mw.cfg_key(r.config), mw.cfg_key(e["config"]))
        if e["state"] == "crashed":
            eq("error result", r.result, "error")
        else:
            eq("result loss", r.loss, e["loss"])
        res.count("trials_recounted")
    # status output
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        prev, pend = neps.status(root, best_losses=True, best_configs=True, all_configs=True)
        neps.status(root, print_summary=False)
    eq("status previous", sorted(prev), sorted(s["previous_results"]))
    eq("status pending", sorted(pend), sorted(s["pending_configs"]))
    txt = out.getvalue()
    for head, v in (("#Evaluated configs", want["eval"]), ("#Pending configs", want["pend"] + want["prog"]), ("#Pending configs with worker", want["prog"]), ("#Crashed configs", want["err"])):
        if f"{head}: {v}\n" not in txt:
            res.viol("status-output", f"'{head}: {v}' is missing in {txt[:300]!r}")
    if want["best"] is not None and (f"Best loss: {want['best']}\n" not in txt or not any(f"Best config id: {i}\n" in txt for i in want["best_ids"])):
        res.viol("status-output", f"best loss {want['best']} of {want['best_ids']} is missing in {txt[:400]!r}")
    if want["eval"]:
        order = sorted((i for i in exp if exp[i]["state"] in ("success", "crashed")), key=lambda i: exp[i]["meta"]["time_end"]) if all("meta" in e for e in exp.values() if e["state"] in ("success", "crashed")) else None
        if order is not None and len({exp[i]["meta"]["time_end"] for i in order}) == len(order):
            inc, b = [], math.inf
            for i in order:
                if exp[i]["state"] == "success" and exp[i]["loss"] < b:
                    b = exp[i]["loss"]
                    inc.append(i)
            sect = txt.split("Best loss across evaluations:")[1].split("Best configs and")[0].split()
            if sect != [str(exp[i]["loss"]) for i in inc]:
                res.viol("status-trajectory", f"the printed trajectory is {sect}, recorded are {[exp[i]['loss'] for i in inc]}")
            sect = txt.split("All evaluated configs and their losses:")[1]
            got = [x.split("Config ID: ")[1].split("\n")[0] for x in sect.split("-" * 79) if "Config ID: " in x]
            if sorted(got) != sorted(order):
                res.viol("status-all-configs", f"listed {got}, evaluated {order}")
            res.count("trajectories")
    # CSV
    p1, p2 = post_run_csv(root)
    check_csv(res, p1, p2, exp, want)
    if "config_data.csv" not in str(p1) or Path(p1).parent != Path(os.path.realpath(root)) / "summary_csv":
        res.viol("csv-location", f"{p1}, {p2}")
    p1, p2 = post_run_csv(root)  # again, over existing files
    check_csv(res, p1, p2, exp, want)
    after = {k: v for k, v in snap(root).items() if not k.startswith("summary_csv")}
    b = {k: v for k, v in before.items() if not k.startswith("summary_csv")}
    if after != b:
        res.viol("reporting-changed-run", f"files changed by status or csv: {[k for k in set(after) | set(b) if after.get(k) != b.get(k)]}")
    return want


def check_csv(res, p1, p2, exp, want):
    with open(p1, newline="") as f:
        rows = list(csv.DictReader(f))
    ids = [r["config_id"] for r in rows]
    if sorted(ids) != sorted(exp):
        res.viol("csv-rows", f"rows for {sorted(ids)}, trials are {sorted(exp)}")
        return
    for r in rows:
        e = exp[r["config_id"]]
        res.count("csv_rows")
        done = e["state"] in ("success", "crashed")
        if r["status"] != ("complete" if done else "pending"):
            res.viol("csv-status", f"{r['config_id']} in state {e['state']} has status {r['status']}")
        for k, v in e["config"].items():
            if not cell_eq(r.get(f"config.{k}", "<missing>"), v):
                res.viol("csv-config", f"{r['config_id']}: config.{k} is {r.get(f'config.{k}')!r} instead of {v!r}")
        if e["state"] == "success":
            for k in ("loss", "cost"):
                if not cell_eq(r.get(f"result.{k}", ""), e[k]):
                    res.viol("csv-result", f"{r['config_id']}: result.{k} is {r.get(f'result.{k}')!r} instead of {e[k]!r}")
            for k in ("time_sampled", "time_started", "time_end", "evaluation_duration", "evaluating_worker_id", "previous_trial_id"):
                if "meta" in e and not cell_eq(r.get(f"metadata.{k}", ""), e["meta"][k]):
                    res.viol("csv-metadata", f"{r['config_id']}: metadata.{k} is {r.get(f'metadata.{k}')!r} instead of {e['meta'][k]!r}")
        elif r.get("result.loss"):
            res.viol("csv-result", f"{r['config_id']} in state {e['state']} has result.loss {r['result.loss']!r}")
    with open(p2, newline="") as f:
        run = {r[0]: r[1] for r in list(csv.reader(f))[1:]}
    for k, v in (("num_evaluated_configs", want["eval"]), ("num_pending_configs", want["pend"] + want["prog"]), ("num_pending_configs_with_worker", want["prog"]), ("num_error", want["err"])):
        if not cell_eq(run.get(k, "<missing>"), v):
            res.viol("csv-run-status", f"{k} is {run.get(k)!r} instead of {v}")
    if want["best"] is not None and (not cell_eq(run.get("best_loss", ""), want["best"]) or run.get("best_config_id") not in {x for i in want["best_ids"] for x in (i, i.lstrip("0"))}):
        res.viol("csv-run-status", f"best is {run.get('best_config_id')} with {run.get('best_loss')} instead of {want['best_ids']} with {want['best']}")


def run_case(case, d, res):
    root = d / "root"
    rng = random.Random(case["seed"])
    mw.seed_all(case["seed"])
    if case["kind"] == "conc":
        return concurrent(case, root, res)
    _, exp = build_history(case, root, rng)
    want = judge(res, root, exp)
    res.count("histories")
    if not exp:
        res.count("no_trials")
    elif want["err"] == len(exp):
        res.count("only_failed")
    if want["pend"] + want["prog"]:
        res.count("with_pending")
    if len(want["best_ids"]) > 1:
        res.count("ties")
    if exp:
        res.sig(want["eval"], want["err"], want["pend"], want["prog"], case["losses"], case["extra"], len(want["best_ids"]))
    res.sample = {"case": case, "recount": {k: (sorted(v) if isinstance(v, set) else v) for k, v in want.items()}}


def concurrent(case, root, res):
    if case["pending"]:
        mw.make_pending(root, case["pending"], seed=case["seed"])
    fns = [mw.neps_worker(root, seed=case["seed"] + i, max_evaluations_total=case["n"], max_evaluations_per_run=case["per"], ignore_errors=True, post_run_summary=True, evalkw={"fail_frac": case["fail"]}) for i in range(case["w"])]
    out = sched.run_workers(fns, root, case["strategy"])
    mw.unexpected(out, res)
    if out.stuck or res.inconclusive or res.violations:
        return
    _, trials = mw.load_trials(root)
    exp = {}
    for i, t in trials.items():
        exp[i] = {"state": t.state.value, "config": t.config}
        if t.report is not None:
            exp[i].update(loss=t.report.loss, cost=t.report.cost, meta=dict(vars(t.metadata)))
    want = recount(exp)
    # what the workers left behind, before anybody refreshes it
    check_csv(res, root / "summary_csv" / "config_data.csv", root / "summary_csv" / "run_status.csv", exp, want)
    judge(res, root, exp)
    res.count("concurrent_runs")
    res.sigs.append(out.signature())
