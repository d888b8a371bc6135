"""Multi-worker scenarios: real worker processes running neps under the scheduler."""
from __future__ import annotations

import hashlib
import json
import os
import random
from pathlib import Path

import numpy as np

from vlib import sched


def cfg_key(config) -> str:
    return json.dumps({k: (v.item() if hasattr(v, "item") else v) for k, v in dict(config).items()}, sort_keys=True, default=repr)


def cfg_hash(config, salt="") -> float:
    """Deterministic pseudo-loss in [0,1) of a configuration."""
    h = hashlib.sha256((cfg_key(config) + str(salt)).encode()).digest()
    return int.from_bytes(h[:6], "big") / 2**48


def make_space(name: str):
    import neps

    if name == "basic":
        return {"x": neps.Float(0.0, 1.0), "n": neps.Integer(1, 1000), "c": neps.Categorical(["a", "b", "c"])}
    if name == "prior":
        return {"x": neps.Float(1e-4, 1.0, log=True, default=0.01, default_confidence="medium"), "n": neps.Integer(1, 50, default=7), "c": neps.Categorical(["a", "b"], default="a")}
    if name == "mf":
        return {"x": neps.Float(0.0, 1.0), "c": neps.Categorical(["a", "b", "c"]), "e": neps.Integer(1, 9, is_fidelity=True)}
    if name == "mfprior":
        return {"x": neps.Float(0.0, 1.0, default=0.3, default_confidence="low"), "c": neps.Categorical(["a", "b"], default="b"), "e": neps.Integer(1, 9, is_fidelity=True)}
    if name == "grid":
        return {"c": neps.Categorical(["a", "b", "c"]), "d": neps.Categorical([1, 2, 3, 4, 5, 6]), "k": neps.Constant(5)}
    raise KeyError(name)


def seed_all(s: int):
    import torch

    random.seed(s)
    np.random.seed(s % 2**32)
    torch.manual_seed(s)


class UserErr(RuntimeError):
    pass


def make_eval(*, fail_ids=(), fail_frac=0.0, cost=None, extra_points=0, log_config=True, consume_rng=False, salt="", errtype=None):
    """The user's pipeline: emits start/end events and is deterministic in the config."""

    def evaluate(pipeline_directory, previous_pipeline_directory, **config):
        tid = Path(pipeline_directory).name.split("_", 1)[1]
        sched.emit("start", id=tid, config=cfg_key(config), pid=os.getpid(),
                   prev=Path(previous_pipeline_directory).name.split("_", 1)[1] if previous_pipeline_directory is not None else None)
        sched.point(f"eval-start {tid}")
        for i in range(extra_points):
            sched.point(f"eval-{i} {tid}")
        if consume_rng:
            import torch
            random.random(), np.random.rand(3), torch.rand(2)
            random.seed(len(tid)), np.random.seed(3), torch.manual_seed(5)
        loss = cfg_hash({k: v for k, v in config.items()}, salt)
        if tid in fail_ids or (fail_frac and cfg_hash(config, "fail") < fail_frac):
            et, msg = errtype(tid) if errtype else (UserErr, f"user error of {tid}")
            sched.emit("fail", id=tid, etype=et.__name__, msg=msg)
            raise et(msg)
        c = None
        if cost is not None:
            c = cost(config) if callable(cost) else cost
        sched.emit("end", id=tid, loss=loss, cost=c)
        if c is None:
            return loss
        return {"loss": loss, "cost": c}

    return evaluate


def neps_worker(root, *, space="basic", searcher="random_search", seed=0, evalkw=None, searcher_kwargs=None, **run_kw):
    """A callable running one real neps.run call; for use in run_workers."""

    def fn():
        import neps

        with sched.quiet():
            sp = make_space(space) if isinstance(space, str) else space
            seed_all(seed)
            srch = make_optimizer(searcher, space) if searcher in ("grid_search", "stream") else searcher
        kw = dict(post_run_summary=False)
        kw.update(run_kw)
        sched.emit("begin")
        try:
            neps.run(make_eval(**(evalkw or {})), root_directory=root, pipeline_space=sp, searcher=srch, **(searcher_kwargs or {}), **kw)
        except BaseException:
            sched.emit("stop", ok=False)
            raise
        sched.emit("stop", ok=True)
        return "done"

    return fn


def settings_worker(root, *, space="basic", searcher="random_search", evalkw=None, seed=0, worker_id=None, defaults=None, on_error="IGNORE", **kw):
    """A callable running a DefaultWorker with explicit settings on an existing run."""

    def fn():
        from neps.runtime import DefaultWorker
        from neps.state.filebased import load_filebased_neps_state
        from neps.state.settings import DefaultReportValues, OnErrorPossibilities, WorkerSettings

        with sched.quiet():
            seed_all(seed)
            opt = make_optimizer(searcher, space, ignore_errors=True)
        base = dict(on_error=OnErrorPossibilities[on_error], default_report_values=DefaultReportValues(**(defaults or {})), max_evaluations_total=None,
                    include_in_progress_evaluations_towards_maximum=True, max_cost_total=None, max_evaluations_for_worker=None, max_evaluation_time_total_seconds=None,
                    max_wallclock_time_for_worker_seconds=None, max_evaluation_time_for_worker_seconds=None, max_cost_for_worker=None)
        base.update(kw)
        sched.emit("begin")
        w = DefaultWorker.new(state=load_filebased_neps_state(Path(root)), optimizer=opt, settings=WorkerSettings(**base), evaluation_fn=make_eval(**(evalkw or {})), worker_id=worker_id)
        try:
            w.run()
        except BaseException:
            sched.emit("stop", ok=False)
            raise
        sched.emit("stop", ok=True)
        return "done"

    return fn


def load_trials(root):
    from neps.state.filebased import load_filebased_neps_state

    st = load_filebased_neps_state(Path(root))
    return st, st.get_all_trials()


def neps_dir():
    import neps

    return os.path.dirname(neps.__file__)


def make_optimizer(searcher, space, **kw):
    """An optimizer object as neps.run would build it."""
    from neps.optimizers import SearcherMapping
    from neps.search_spaces.search_space import SearchSpace

    sp = make_space(space) if isinstance(space, str) else space
    if searcher == "stream":
        return stream_optimizer(SearchSpace(**sp))
    if searcher == "grid_search":
        from neps.optimizers.grid_search.optimizer import GridSearch

        kw.setdefault("seed", 7)
        kw.pop("ignore_errors", None)
        return GridSearch(SearchSpace(**sp), **kw)
    import yaml

    f = Path(neps_dir()) / "optimizers" / "default_searchers" / f"{searcher}.yaml"
    conf = yaml.safe_load(f.read_text()) if f.exists() else {"strategy": searcher}
    alg = conf.pop("strategy")
    conf = {**conf, "budget": None, "loss_value_on_error": None, "cost_value_on_error": None, "ignore_errors": False, **kw}
    return SearcherMapping[alg](pipeline_space=SearchSpace(**sp), **conf)


def stream_optimizer(space):
    """A user-defined searcher drawing from all three global generators in varying amounts."""
    from neps.optimizers.base_optimizer import BaseOptimizer, SampledConfig

    class StreamSearch(BaseOptimizer):
        def ask(self, trials, budget_info):
            import torch

            n = len(trials)
            for _ in range(n % 3):
                random.gauss(0, 1), np.random.randn(), torch.randn(1)
            g = [random.gauss(0, 1), float(np.random.randn()), float(torch.randn(1)), random.random(), float(np.random.rand()), float(torch.rand(1)), float(torch.randn(17)[3])]
            x = hashlib.sha256(repr(g).encode()).digest()
            prev = str(1 + x[9] % n) if n and x[10] % 2 else None  # sometimes continues an earlier trial
            return SampledConfig(id=str(n + 1), config={"x": int.from_bytes(x[:6], "big") / 2**48, "n": 1 + x[7], "c": "abc"[x[8] % 3]}, previous_config_id=prev)

    return StreamSearch(pipeline_space=space)


def init_root(root, *, space="basic", searcher="random_search", seed=0, **kw):
    """Create the run state without sampling or evaluating anything."""
    import neps

    seed_all(seed)
    sp = make_space(space)
    neps.run(make_eval(), root_directory=root, pipeline_space=sp, post_run_summary=False, max_evaluations_per_run=0, max_evaluations_total=10**6,
             searcher=make_optimizer(searcher, space) if searcher in ("grid_search", "stream") else searcher, **kw)


def make_pending(root, n, *, space="basic", searcher="random_search", seed=0):
    """Create the run state and n sampled, not yet started trials."""
    from neps.state.filebased import load_filebased_neps_state

    init_root(root, space=space, searcher=searcher, seed=seed)
    st = load_filebased_neps_state(Path(root))
    opt = make_optimizer(searcher, space)
    for _ in range(n):
        st.sample_trial(opt, worker_id="presampler")


def strategies(rng: random.Random, n: int):
    out = []
    for _ in range(n):
        k = rng.choices(["random", "sticky", "pct", "lock"], [3, 3, 4, 4])[0]
        s = {"kind": k, "seed": rng.randrange(1 << 30)}
        if k == "sticky":
            s["p"] = rng.choice([0.5, 0.8, 0.95, 0.98])
        if k == "pct":
            s["depth"] = rng.choice([1, 2, 3, 5, 8])
            s["length"] = rng.choice([150, 400, 1000, 2500])
        out.append(s)
    return out


def unexpected(out: sched.Outcome, res, *, allow=lambda r: False):
    """Workers that failed although nothing in the scenario entitles them to."""
    for i, r in enumerate(out.results):
        if out.killed[i]:
            continue
        if r is None:
            if out.stuck:
                continue
            res.inconclusive = f"worker {i} vanished"
        elif not r["ok"] and not allow(r):
            last = r["chain"][-1]
            mech = "worker-failed:" + "<-".join(f"{c['type']}@{c['where']}" for c in r["chain"][:3])
            if r["in_neps"] or any(c["where"] for c in r["chain"]):
                res.viol(mech, f"worker {i} failed: {r['exc']}: {r['msg'][:200]} / root cause {last['type']}: {last['msg'][:300]}", tb=r["tb"])
            else:
                res.inconclusive = r["tb"]
    if out.stuck:
        res.viol("workers-stuck", f"no progress after {len(out.trace)} steps; last steps {out.trace[-6:]}")
