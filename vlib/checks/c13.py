"""C13: what pipelines see of their trial, directories and checkpoints; nothing leaks."""
from __future__ import annotations

import json
import random
from pathlib import Path

from vlib import mw
from vlib.checks.c07 import in_child

LEVEL = "exploration"
RULE = ("a case is a sequence of 2-5 run calls in one process (several roots with equal trial ids, continued runs, multi-fidelity lineages) whose pipelines succeed, raise, return "
        "invalid results, are interrupted or exit; monitors inside the pipeline compare every accessor with an independent record; "
        "distinct_nontrivial counts distinct (searcher, outcome, lineage depth, previous outcome, roots used before) situations monitored")
ASSUMPTIONS = ["the lineage of a trial is judged against its recorded predecessor, which C22 checks on its own"]
MIN = {"quick": {"evaluations": 900, "with_predecessor": 150, "checkpoints_loaded": 80, "interrupts": 30, "invalid": 30, "errors": 60, "callbacks": 500}}


def cases(tier, seed):
    rng = random.Random(f"c13-{seed}")
    for _ in range(160 if tier == "quick" else 2500):
        runs = []
        for _ in range(rng.randint(2, 5)):
            s = rng.choice(["random_search", "successive_halving", "hyperband", "asha", "asha", "priorband"])
            runs.append({"root": rng.choice(["A", "B", "C"]), "searcher": s, "n": rng.choice([3, 5, 8, 12, 16]), "seed": rng.randrange(1 << 20),
                         "p": rng.choice([{}, {}, {"error": 0.3}, {"interrupt": 0.15}, {"invalid": 0.15}, {"exit": 0.15}, {"error": 0.2, "interrupt": 0.1, "invalid": 0.1}])})
        yield {"runs": runs, "seed": rng.randrange(1 << 20)}


def run_case(case, d, res):
    st, exc = in_child(lambda: body(case, d))
    f = d / "result.json"
    if not f.exists():
        if exc is not None and exc["in_neps"]:
            res.viol("failed:" + exc["chain"][-1]["type"] + "@" + exc["chain"][-1]["where"], exc["msg"], tb=exc["tb"])
        else:
            res.inconclusive = (exc or {}).get("tb", f"status {st}")
        return
    r = json.loads(f.read_text())
    for m, msg in r["viol"]:
        res.viol(m, msg)
    for k, v in r["counts"].items():
        res.count(k, v)
    for s in r["sigs"]:
        res.sig(*s)
    res.evals = max(1, r["counts"].get("evaluations", 1))
    res.sample = {"runs": case["runs"][:2], "log": r["log"][:12]}


class Exit(SystemExit):
    pass


def body(case, d):
    import torch

    import neps
    from neps.runtime import get_in_progress_trial, get_workers_neps_state, register_notify_trial_end
    from neps.utils.common import get_initial_directory, load_checkpoint, load_lightning_checkpoint, save_checkpoint

    viol, counts, sigs, log = [], {}, [], []
    saved = {}  # (root, tid, name) -> values
    parent = {}  # (root, tid) -> (root, prev tid) or None
    roots = {}
    cbs = []

    def cnt(k, n=1):
        counts[k] = counts.get(k, 0) + n

    def bad(m, msg):
        if len(viol) < 10:
            viol.append((m, msg))

    def no_trial(when):
        try:
            t = get_in_progress_trial()
        except RuntimeError:
            return
        bad("trial-leaked", f"{when}: trial {t.id} is still set as in progress")

    register_notify_trial_end("verif", lambda t: cbs.append((t.id, str(t.metadata.location))))
    state = {"last": "none"}
    for k, run in enumerate(case["runs"]):
        # one searcher per root
        root = d / (run["root"] + "_" + run["searcher"])
        space = {"random_search": "basic", "priorband": "mfprior"}.get(run["searcher"], "mf")
        done = []
        r = random.Random(run["seed"])
        no_trial(f"before run {k}")
        reused = sum(1 for p in roots if p != root)
        roots[root] = True
        n0 = len(cbs)

        def pipeline(pipeline_directory, previous_pipeline_directory, **config):
            cnt("evaluations")
            pd = Path(pipeline_directory)
            tid = pd.name.split("_", 1)[1]
            where = f"run {k} ({run['searcher']} in {root.name}), trial {tid}"
            if pd.resolve() != (root / "configs" / f"config_{tid}").resolve() or not pd.is_dir():
                bad("pipeline-directory", f"{where}: {pd}")
            t = get_in_progress_trial()
            if t.id != tid or dict(t.config) != config or Path(t.metadata.location).resolve() != pd.resolve():
                bad("in-progress-trial", f"{where}: accessor gives trial {t.id} at {t.metadata.location} with {t.config}, pipeline got {config}")
            if neps.__dict__.get("get_in_progress_trial", get_in_progress_trial)().id != tid:
                bad("in-progress-trial", f"{where}: public accessor differs")
            if Path(get_workers_neps_state().location).resolve() != root.resolve():
                bad("state-of-other-run", f"{where}: state of {get_workers_neps_state().location}")
            # independent record of the predecessor
            f = pd / "previous_trial_id.txt"
            pid = f.read_text() if f.exists() else None
            parent[(root, tid)] = (root, pid) if pid is not None else None
            chain = [(root, tid)]
            while parent.get(chain[-1]) is not None:
                chain.append(parent[chain[-1]])
            depth = len(chain) - 1
            if pid is None:
                if previous_pipeline_directory is not None:
                    bad("previous-directory", f"{where}: continues nothing but got {previous_pipeline_directory}")
            else:
                cnt("with_predecessor")
                want = root / "configs" / f"config_{pid}"
                if previous_pipeline_directory is None or Path(previous_pipeline_directory).resolve() != want.resolve() or not Path(previous_pipeline_directory).is_dir():
                    bad("previous-directory", f"{where}: continues {pid} but got {previous_pipeline_directory}")
                elif chain[1] not in parent:
                    bad("previous-directory", f"{where}: predecessor {pid} was never evaluated in this run")
            init = (root / "configs" / f"config_{chain[-1][1]}").resolve()
            for arg in [None, pd] + ([previous_pipeline_directory] if pid is not None else []):
                got = get_initial_directory() if arg is None else get_initial_directory(arg)
                if Path(got).resolve() != init:
                    bad("initial-directory", f"{where}: initial directory {got} (argument {arg}), lineage {[c[1] for c in chain]}")
            # checkpoints
            name = r.choice(["checkpoint", "checkpoint", "other"])
            got = load_checkpoint() if name == "checkpoint" else load_checkpoint(checkpoint_name=name)
            want = saved.get((root, pid, name)) if pid is not None else None
            if (got is None) != (want is None) or (want is not None and got["v"] != want["v"]):
                bad("load-checkpoint", f"{where}: loaded {got and got.get('v')}, predecessor {pid} saved {want and want['v']}")
            if want is not None:
                cnt("checkpoints_loaded")
                if "w" in want:
                    m = torch.nn.Linear(2, 1)
                    o = torch.optim.SGD(m.parameters(), lr=0.5, momentum=0.9)
                    load_checkpoint(checkpoint_name=name, model=m, optimizer=o)
                    if m.weight.tolist() != want["w"] or o.param_groups[0]["lr"] != want["lr"]:
                        bad("load-checkpoint-model", f"{where}: model or optimizer state not restored")
            if r.random() < 0.2:
                lt = load_lightning_checkpoint(pd / "lightning") if pid is None else None
                if pid is None and lt != (None, None):
                    bad("lightning", f"{where}: {lt}")
            if r.random() < 0.8:
                sname = r.choice(["checkpoint", "checkpoint", "other"])
                vals = {"v": [tid, root.name, r.randrange(10**9)]}
                if r.random() < 0.5:
                    m = torch.nn.Linear(2, 1)
                    lr = 0.001 * r.randint(1, 9)
                    save_checkpoint(checkpoint_name=sname, values_to_save=vals, model=m, optimizer=torch.optim.SGD(m.parameters(), lr=lr, momentum=0.9))
                    vals = {**vals, "w": m.weight.tolist(), "lr": lr}
                else:
                    save_checkpoint(checkpoint_name=sname, values_to_save=vals)
                saved[(root, tid, sname)] = vals
                if not (pd / f"{sname}.pth").exists():
                    bad("save-checkpoint", f"{where}: nothing written to {pd}")
                back = load_checkpoint(directory=pd, checkpoint_name=sname)
                if back is None or back["v"] != vals["v"]:
                    bad("save-checkpoint", f"{where}: saved {vals}, loaded {back}")
            out = "ok"
            x = r.random()
            for o, p in run["p"].items():
                if x < p:
                    out = o
                    break
                x -= p
            sigs.append((run["searcher"], out, depth, state["last"], min(reused, 2)))
            log.append((k, tid, out, depth))
            state["last"] = out
            # still the same trial at the end of the evaluation
            if get_in_progress_trial().id != tid:
                bad("in-progress-trial", f"{where}: changed during the evaluation")
            if out == "error":
                cnt("errors")
                done.append(tid)
                raise mw.UserErr("x")
            if out == "interrupt":
                cnt("interrupts")
                raise KeyboardInterrupt
            if out == "exit":
                cnt("exits")
                raise Exit(3)
            if out == "invalid":
                cnt("invalid")
                return r.choice(["foo", None, {"cost": 1.0}, [1]])
            done.append(tid)
            return mw.cfg_hash(config)

        mw.seed_all(run["seed"])
        expected = None
        try:
            neps.run(pipeline, root_directory=root, pipeline_space=mw.make_space(space), searcher=run["searcher"], max_evaluations_total=1000, max_evaluations_per_run=run["n"], ignore_errors=True, post_run_summary=False)
        except (KeyboardInterrupt, Exit):
            expected = state["last"] in ("interrupt", "exit")
        except Exception:
            expected = state["last"] == "invalid"
            if not expected:
                raise
        if expected is False:
            bad("unexpected-exception", f"run {k} raised after outcome {state['last']}")
        if expected is None and state["last"] in ("interrupt", "exit"):
            bad("interrupt-swallowed", f"run {k}: {state['last']} did not end the run")
        no_trial(f"after run {k} (last outcome {state['last']})")
        mine = cbs[n0:]
        cnt("callbacks", len(mine))
        if [c[0] for c in mine] != done or any(Path(c[1]).resolve() != (root / "configs" / f"config_{c[0]}").resolve() for c in mine):
            bad("callbacks", f"run {k}: end-of-trial callbacks for {mine}, completed evaluations {done}")
    (d / "result.json").write_text(json.dumps({"viol": viol, "counts": counts, "sigs": sigs, "log": log}))
