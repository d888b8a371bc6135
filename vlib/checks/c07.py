"""C07: re-running continues; overwriting starts afresh; nothing outside is touched."""
from __future__ import annotations

import hashlib
import json
import os
import random
import signal
from pathlib import Path

from vlib import mw

LEVEL = "exploration"
RULE = ("a case is a generated sequence of 2-6 run calls on one root directory (new process or same process; limits, failures, "
        "pending and orphaned trials, overwriting, task and stage ids); files of recorded trials are compared byte by byte around each call and "
        "the evaluation log with a prediction; distinct_nontrivial counts distinct (operation, searcher, history class) observed "
        "on a directory that already held trials")
ASSUMPTIONS = ["trials are sampled at distinct clock times (the order of pending trials is the order of their recorded sampling times)"]
MIN = {"quick": {"continued_calls": 150, "recorded_trials_compared": 300, "overwrites": 20, "pending_first": 40, "nothing_left": 10}}
SEARCHERS = [("random_search", "basic"), ("random_search", "prior"), ("hyperband", "mf"), ("asha", "mf"), ("successive_halving", "mf"), ("priorband", "mfprior"), ("grid_search", "grid"), ("bayesian_optimization", "basic")]


def cases(tier, seed):
    rng = random.Random(f"c07-{seed}")
    for _ in range(260 if tier == "quick" else 2500):
        s, sp = rng.choice(SEARCHERS)
        loc = rng.choice([{}, {}, {}, {"task_id": rng.choice(["a", 3, "x_1"])}, {"development_stage_id": rng.choice(["b", 1])}, {"task_id": 1, "development_stage_id": 2}])
        ops = []
        total = rng.randint(1, 3)
        for i in range(rng.randint(2, 6)):
            k = rng.choices(["run", "pending", "die", "overwrite", "sibling"], [8, 2 if i else 1, 1.5, 1.5 if i else 0.3, 1 if loc else 0])[0]
            ops.append({"op": k, "proc": rng.choice(["fork", "fork", "here"]), "seed": rng.randrange(1 << 20), "total": rng.choice([total, total, total, rng.randint(1, 9)]), "per": rng.choice([None, None, None, 1, 2, 3, 0]),
                        "fail": rng.choice([0, 0, 0, 0.4]), "ignore": rng.random() < 0.75, "cont": rng.random() < 0.3, "n": rng.randint(1, 3), "summary": rng.random() < 0.4})
            total = total + rng.choice([0, 1, 2, 3, 4])
        yield {"searcher": s, "space": sp, "loc": loc, "ops": ops}
    # long queues of pending trials: the order sampled is not the order of their ids as text
    for i in range(24 if tier == "quick" else 200):
        s, sp = [x for x in SEARCHERS if x[0] != "bayesian_optimization"][i % 7]
        mk = lambda k, **kw: {"op": k, "proc": rng.choice(["fork", "here"]), "seed": rng.randrange(1 << 20), "total": 1, "per": None, "fail": 0, "ignore": True, "cont": False, "n": 1, "summary": False, **kw}
        a, n = rng.randint(0, 9), rng.randint(8, 12)
        a = min(a, 12 - n) if s == "grid_search" else a
        cut = rng.randint(2, n - 1)
        yield {"searcher": s, "space": sp, "loc": {}, "ops": [*([mk("run", total=a)] if a else []), mk("pending", n=n), mk("run", total=a + n, per=cut), mk("run", total=a + n + 1)]}


def make_pipeline(log, fail, die_at=None):
    n = [0]

    def evaluate(pipeline_directory, **config):
        tid = Path(pipeline_directory).name.split("_", 1)[1]
        n[0] += 1
        with open(log, "a") as f:
            f.write(json.dumps({"id": tid, "config": mw.cfg_key(config), "dir": str(pipeline_directory)}) + "\n")
        (Path(pipeline_directory) / "user.bin").write_bytes(os.urandom(20))
        (Path(pipeline_directory) / "sub").mkdir(exist_ok=True)
        (Path(pipeline_directory) / "sub" / "x.txt").write_text(tid)
        if die_at is not None and n[0] >= die_at:
            os.kill(os.getpid(), signal.SIGKILL)
        if fail and mw.cfg_hash(config, "fail") < fail:
            raise mw.UserErr("x")
        return mw.cfg_hash(config)

    return evaluate


def call(case, op, base, log, *, overwrite=False, die_at=None, loc=None):
    import neps

    mw.seed_all(op["seed"])
    space = mw.make_space(case["space"])
    s = case["searcher"]
    kw = {"initial_design_size": 3} if s == "bayesian_optimization" else {}
    mw.seed_all(op["seed"])
    neps.run(make_pipeline(log, op["fail"], die_at), root_directory=base, pipeline_space=space, searcher=mw.make_optimizer(s, case["space"]) if s == "grid_search" else s,
             max_evaluations_total=op["total"], max_evaluations_per_run=op["per"], ignore_errors=op["ignore"], continue_until_max_evaluation_completed=op["cont"],
             post_run_summary=op["summary"], overwrite_working_directory=overwrite, **(case["loc"] if loc is None else loc), **kw)


def in_child(fn):
    """(exit status, exception description) of fn in a forked child."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                fn()
                msg = None
            except BaseException as e:  # noqa: BLE001
                from vlib.sched import describe_exc
                msg = describe_exc(e)
            os.write(w, json.dumps(msg, default=repr).encode()[:60000])
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while x := os.read(r, 65536):
        data += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return st, (json.loads(data) if data else None)


def snap(dir_: Path):
    out = {}
    for p in sorted(dir_.rglob("*")):
        if p.is_file() and p.name != ".lock" and not p.name.endswith(".lock"):
            out[str(p.relative_to(dir_))] = hashlib.sha256(p.read_bytes()).hexdigest()
        elif p.is_dir():
            out[str(p.relative_to(dir_))] = "dir"
    return out


def table(root):
    """[(id, state, config)] in sampling order."""
    if not (root / "configs").exists():
        return []
    _, tr = mw.load_trials(root)
    return [(t.id, t.state.value, mw.cfg_key(t.config)) for t in sorted(tr.values(), key=lambda t: t.metadata.time_sampled)]


def run_case(case, d, res):
    outer = d / "outer"
    base = outer / "root"
    outer.mkdir()
    root = base
    if "task_id" in case["loc"]:
        root = root / f"task_{case['loc']['task_id']}"
    if "development_stage_id" in case["loc"]:
        root = root / f"dev_{case['loc']['development_stage_id']}"
    # things that must survive everything
    (outer / "rootx").mkdir()
    (outer / "rootx" / "configs").mkdir()
    (outer / "rootx" / "configs" / "f").write_text("keep")
    (outer / "file.txt").write_text("keep")
    log = d / "log.jsonl"
    errors = False
    for k, op in enumerate(case["ops"]):
        tag = f"call {k} ({op['op']}/{op['proc']}, {case['searcher']}, {case['loc']})"
        before = table(root) if root.exists() else []
        finished = [i for i, s, _ in before if s in ("success", "crashed", "failed")]
        busy = [i for i, s, _ in before if s == "evaluating"]
        pend = [i for i, s, _ in before if s in ("pending", "submitted")]
        files = {i: snap(root / "configs" / f"config_{i}") for i, _, _ in before}
        outside = outside_snap(d, outer, root)
        log.write_text("")
        if op["op"] == "pending":
            if not root.exists():
                st, exc = in_child(lambda: call(case, {**op, "per": 0, "total": 10**6, "fail": 0}, base, log))
                if exc is not None:
                    return fail(res, exc, tag)
            from neps.state.filebased import load_filebased_neps_state

            stt = load_filebased_neps_state(root)
            opt = mw.make_optimizer(case["searcher"], case["space"], ignore_errors=True, **({"initial_design_size": 3} if case["searcher"] == "bayesian_optimization" else {}))
            nmax = 18 - len(before) if case["searcher"] == "grid_search" else 99
            for _ in range(min(op["n"], nmax)):
                stt.sample_trial(opt, worker_id="pre")
            continue
        if op["op"] == "sibling":  # another task / stage of the same project, overwritten
            loc = {**case["loc"]}
            key = "development_stage_id" if "development_stage_id" in loc else "task_id"
            loc[key] = "other"
            mine = snap(root) if root.exists() else {}
            st, exc = in_child(lambda: call(case, {**op, "fail": 0, "total": 2, "per": None}, base, log, overwrite=True, loc=loc))
            if exc is not None:
                return fail(res, exc, tag)
            if (snap(root) if root.exists() else {}) != mine:
                res.viol("outside-root-touched", f"{tag}: running another task/stage with overwriting changed this one's files")
            ev = [json.loads(x) for x in log.read_text().splitlines()]
            bad = [e["dir"] for e in ev if (f"/dev_other/" if key == "development_stage_id" else "/task_other/") not in e["dir"]]
            if bad or not ev:
                res.viol("wrong-directory", f"{tag}: evaluations in {bad[:2]}")
            res.count("siblings")
            continue
        over = op["op"] == "overwrite"
        die = op["op"] == "die"
        if over and root.exists():
            (root / "junk.txt").write_text("old")
            (root / "configs" / "config_zz").mkdir(parents=True, exist_ok=True)
        if case["searcher"] == "grid_search":
            op = {**op, "total": min(op["total"], 12)}
        fn = lambda: call(case, op, base, log, overwrite=over, die_at=op["n"] if die else None)
        if op["proc"] == "here" and not die:
            exc = None
            try:
                fn()
            except BaseException as e:  # noqa: BLE001
                from vlib.sched import describe_exc
                exc = describe_exc(e)
        else:
            st, exc = in_child(fn)
        ev = [json.loads(x) for x in log.read_text().splitlines()]
        ids = [e["id"] for e in ev]
        res.count("calls")
        if outside_snap(d, outer, root) != outside:
            res.viol("outside-root-touched", f"{tag}: files outside the run's root directory changed")
        for e in ev:
            if Path(e["dir"]).resolve() != (root / "configs" / f"config_{e['id']}").resolve():
                res.viol("wrong-directory", f"{tag}: evaluation of {e['id']} in {e['dir']}, run directory {root}")
        if over:
            res.count("overwrites")
            before, finished, busy, pend, files, errors = [], [], [], [], {}, False
            if (root / "junk.txt").exists() or (root / "configs" / "config_zz").exists():
                res.viol("overwrite-left-files", f"{tag}: files of the old run are still there")
        # expected number of evaluations
        counted = len(finished) + (0 if op["cont"] else len(busy))
        want = max(0, op["total"] - counted)
        if op["per"] is not None:
            want = min(want, op["per"])
        raising = not op["ignore"]
        limits_met = want == 0
        if raising and errors:
            want = 0
        stopped = die and want >= op["n"]
        failing = [e for e in ev if op["fail"] and mw.cfg_hash(json.loads(e["config"]), "fail") < op["fail"]]
        if stopped:
            want = op["n"]
        if raising and failing:
            want = len(ids)  # stops at the first failure
            if ids.index(failing[0]["id"]) != len(ids) - 1:
                res.viol("evaluated-after-error", f"{tag}: evaluations went on after an error")
            stopped = stopped and len(ids) == op["n"]
        # (whether the limits or the earlier error is reported first is not specified)
        expect_exc = raising and (errors or bool(failing))
        if not stopped or (raising and failing):
            if expect_exc and exc is None and not stopped and not limits_met:
                res.viol("error-not-raised", f"{tag}: recorded error and not ignored, but the call returned normally")
            if not expect_exc and exc is not None:
                return fail(res, exc, tag)
        if len(ids) != want:
            res.viol("evaluation-count", f"{tag}: {len(ids)} evaluations, expected {want} (limit {op['total']}, per run {op['per']}, recorded {len(finished)} finished + {len(busy)} in progress, continue-until={op['cont']})")
        if want == 0 and before:
            res.count("nothing_left")
        if failing and not (stopped and failing[0]["id"] == ids[-1] and len(failing) == 1):
            errors = True
        # only never-evaluated trials, pending ones first in order
        for i in ids:
            if i in finished or i in busy:
                res.viol("evaluated-again", f"{tag}: trial {i} was evaluated already")
        if len(set(ids)) != len(ids):
            res.viol("evaluated-again", f"{tag}: evaluated {ids}")
        npend = min(len(pend), len(ids))
        if ids[:npend] != pend[:npend]:
            res.viol("pending-not-first-in-order", f"{tag}: evaluated {ids}, pending before were {pend}")
        if npend:
            res.count("pending_first")
        # recorded things unchanged
        after = {i: (s, c) for i, s, c in table(root)}
        for i, s, c in before:
            if i not in after:
                res.viol("recorded-trial-lost", f"{tag}: trial {i} is gone")
                continue
            if after[i][1] != c:
                res.viol("recorded-trial-changed", f"{tag}: configuration of {i} changed")
            if i in ids:
                continue
            now = snap(root / "configs" / f"config_{i}")
            if now != files[i]:
                diff = [f for f in set(now) | set(files[i]) if now.get(f) != files[i].get(f)]
                res.viol("recorded-trial-changed", f"{tag}: files {diff} of trial {i} ({s}) changed")
            res.count("recorded_trials_compared")
        if before:
            res.count("continued_calls")
            res.sig(op["op"], op["proc"], case["searcher"], len(pend) > 0, len(busy) > 0, len(finished), want, errors)
        if over and not expect_exc:
            # like a fresh run with the same random state
            d2 = d / f"fresh{k}"
            log2 = d / "log2.jsonl"
            log2.write_text("")
            st, exc2 = in_child(lambda: call(case, op, d2, log2))
            ref = [json.loads(x) for x in log2.read_text().splitlines()]
            if [(e["id"], e["config"]) for e in ref] != [(e["id"], e["config"]) for e in ev]:
                res.viol("overwrite-not-fresh", f"{tag}: overwritten run evaluated {[(e['id'], e['config']) for e in ev][:4]}, a fresh one {[(e['id'], e['config']) for e in ref][:4]}")
            res.count("overwrite_vs_fresh")
        res.sample = {"searcher": case["searcher"], "last_call": op, "evaluated": ids, "recorded_before": [x[:2] for x in before]}


def outside_snap(d, outer, root):
    out = {}
    for p in sorted(outer.rglob("*")):
        if p == root or root in p.parents or p in root.parents:
            continue
        out[str(p)] = p.read_bytes() if p.is_file() else "dir"
    return out


def fail(res, exc, tag):
    last = exc["chain"][-1]
    mech = "run-failed:" + "<-".join(f"{c['type']}@{c['where']}" for c in exc["chain"][:3])
    if exc["in_neps"]:
        res.viol(mech, f"{tag}: {exc['exc']}: {exc['msg'][:300]} / {last['type']}: {last['msg'][:200]}", tb=exc["tb"])
    else:
        res.inconclusive = exc["tb"]
