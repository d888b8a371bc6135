"""C08: one random stream, however the run is split over calls, processes and workers."""
from __future__ import annotations

import json
import random
import time

from vlib import mw, sched
from vlib.checks.c07 import in_child

LEVEL = "exploration"
RULE = ("a case samples a run in one process (reference) and again split over several run calls in new processes, over workers taking turns, "
        "over concurrently scheduled workers, or with evaluations that consume and reseed the global generators; the sampled sequences must be "
        "identical; distinct_nontrivial counts distinct (searcher, kind of split, split points/interleaving, seed)")
ASSUMPTIONS = ["evaluation results are deterministic functions of the configuration",
               "for searchers whose proposals depend on the history the split executions see the same history at each sample (one evaluation at a time)"]
MIN = {"quick": {"split": 40, "turns": 60, "concurrent": 60, "samples_compared": 1200}}
SEQ = [("random_search", "basic"), ("stream", "basic"), ("random_search", "prior"), ("hyperband", "mf"), ("asha", "mf"), ("successive_halving", "mf"), ("priorband", "mfprior"), ("asha_prior", "mfprior"), ("successive_halving_prior", "mfprior")]


def cases(tier, seed):
    rng = random.Random(f"c08-{seed}")
    q = tier == "quick"
    for i in range(90 if q else 1200):
        s, sp = SEQ[i % len(SEQ)]
        yield {"kind": "split", "searcher": s, "space": sp, "seed": rng.randrange(1 << 30), "n": rng.randint(4, 14), "cuts": [rng.randint(1, 4) for _ in range(14)], "rng": rng.random() < 0.6, "s2": rng.randrange(1 << 30)}
    for i in range(110 if q else 2000):
        s, sp = SEQ[i % len(SEQ)]
        yield {"kind": "turns", "searcher": s, "space": sp, "seed": rng.randrange(1 << 30), "n": rng.randint(6, 30), "w": rng.choice([1, 2, 3, 4]), "s2": rng.randrange(1 << 30), "order": rng.random() < 0.5}
    for st in mw.strategies(rng, 80 if q else 1500):
        yield {"kind": "concurrent", **rng.choice([{"searcher": "stream", "space": "basic"}, {"searcher": "random_search", "space": "basic"}, {"searcher": "random_search", "space": "prior"}, {"searcher": "random_search", "space": "mf"}]), "seed": rng.randrange(1 << 30), "n": rng.randint(4, 8), "w": rng.choice([2, 3, 4]), "strategy": st, "s2": rng.randrange(1 << 30), "rng": rng.random() < 0.7}
    for i in range(36 if q else 400):
        s, sp = SEQ[i % len(SEQ)]
        yield {"kind": "memory", "searcher": s, "space": sp, "seed": rng.randrange(1 << 30), "n": rng.randint(4, 14), "gauss": rng.random() < 0.5}
    for i in range(4 if q else 30):
        yield {"kind": "split", "searcher": "bayesian_optimization", "space": "basic", "seed": rng.randrange(1 << 30), "n": rng.randint(3, 6), "cuts": [rng.randint(1, 3) for _ in range(14)], "rng": True, "s2": rng.randrange(1 << 30)}
        # resumption before the first and after the initial design only, with the design known: the model phase draws from the shared stream
        yield {"kind": "whole", "searcher": rng.choice(["bayesian_optimization", "pibo"]), "space": "prior", "seed": rng.randrange(1 << 30), "n": rng.randint(4, 6), "rng": True}


def seq(root):
    _, tr = mw.load_trials(root)
    return [(t.id, mw.cfg_key(t.config), t.metadata.previous_trial_id) for t in sorted(tr.values(), key=lambda t: t.metadata.time_sampled)]


def reference(case, root, res, *, rng=False):
    kw = {"initial_design_size": 3} if case["searcher"] in ("bayesian_optimization", "pibo") else {}
    out = sched.run_workers([mw.neps_worker(root, space=case["space"], searcher=case["searcher"], searcher_kwargs=kw, seed=case["seed"], max_evaluations_total=case["n"], evalkw={"consume_rng": rng})], root, {"kind": "random", "seed": 0}, mask=0)
    mw.unexpected(out, res)
    return seq(root)


def compare(res, case, ref, got, what):
    n = min(len(ref), len(got))
    res.count("samples_compared", n)
    if len(got) != len(ref):
        res.viol("sequence-length", f"{what}: {len(got)} sampled instead of {len(ref)}")
    for i in range(n):
        if ref[i] != got[i]:
            mech = "sequence-differs"
            if case["searcher"] == "bayesian_optimization" and case["kind"] == "split" and i < case["n"]:
                mech = "bo-initial-design-drawn-per-process"
            res.viol(mech, f"{what}: sample {i} is {got[i]}, in one uninterrupted process {ref[i]} ({case['searcher']}, seed {case['seed']})")
            return


def run_case(case, d, res):
    kind = case["kind"]
    res.count(kind)
    ref = reference(case, d / "ref", res)
    if res.violations or res.inconclusive:
        return
    root = d / "root"
    if kind == "whole":
        got = reference(case, root, res, rng=True)
        compare(res, case, ref, got, "evaluations consuming and reseeding the global generators")
    elif kind == "memory":
        st, exc = in_child(lambda: memory(case, root))
        if exc is not None:
            if exc["in_neps"]:
                res.viol("run-failed:" + exc["chain"][-1]["type"], exc["msg"], tb=exc["tb"])
            else:
                res.inconclusive = exc["tb"]
            return
        got = json.loads((d / "turns.json").read_text())
        if got is None:  # the snapshot is not taken where this monitor can see it: nothing to compare with
            res.count("memory_skipped")
            return
        res.sig("memory", case["searcher"], case["seed"], case["n"])
        compare(res, case, ref, [tuple(x) for x in got], "the generators as they stood when the run was created, drawn from without storing them in between")
        other = reference({**case, "seed": case["seed"] + 1}, d / "other", res)
        if [x[1] for x in other] == [x[1] for x in ref]:
            res.viol("seed-ignored", f"two runs created with generators seeded {case['seed']} and {case['seed'] + 1} sampled the same {len(ref)} configurations ({case['searcher']})")
    elif kind == "split":
        done, k = 0, 0
        kw = {"initial_design_size": 3} if case["searcher"] == "bayesian_optimization" else {}
        while done < case["n"]:
            step = min(case["cuts"][k % len(case["cuts"])], case["n"] - done)
            out = sched.run_workers([mw.neps_worker(root, space=case["space"], searcher=case["searcher"], searcher_kwargs=kw, seed=case["seed"] if k == 0 else case["s2"] + k, max_evaluations_total=case["n"], max_evaluations_per_run=step,
                                                    evalkw={"consume_rng": case["rng"]})], root, {"kind": "random", "seed": 0}, mask=0)
            mw.unexpected(out, res)
            if res.violations or res.inconclusive:
                return
            done += step
            k += 1
        res.sig("split", case["searcher"], k, case["seed"])
        compare(res, case, ref, seq(root), f"run split over {k} processes")
    elif kind == "turns":
        st, exc = in_child(lambda: turns(case, root))
        if exc is not None:
            if exc["in_neps"]:
                res.viol("run-failed:" + exc["chain"][-1]["type"], exc["msg"], tb=exc["tb"])
            else:
                res.inconclusive = exc["tb"]
            return
        got = json.loads((d / "turns.json").read_text())
        res.sig("turns", case["searcher"], case["w"], case["seed"], case["n"])
        compare(res, case, ref, [tuple(x) for x in got], f"{case['w']} workers taking turns" + (" (trials listed in another order)" if case["order"] else ""))
    else:
        fns = [mw.neps_worker(root, space=case["space"], searcher=case["searcher"], seed=case["seed"] if i == 0 else case["s2"] + i, max_evaluations_total=case["n"], evalkw={"consume_rng": case["rng"]}) for i in range(case["w"])]
        mw.init_root(root, space=case["space"], searcher=case["searcher"], seed=case["seed"])
        out = sched.run_workers(fns, root, case["strategy"])
        mw.unexpected(out, res)
        if out.stuck or res.violations:
            return
        got = seq(root)[: len(ref)]
        res.sigs.append(out.signature())
        compare(res, case, ref, got, f"{case['w']} concurrent workers")
    res.sample = {"case": {k: v for k, v in case.items() if k != "cuts"}, "sequence": [x[:2] for x in ref[:3]]}


def memory(case, root):
    """In-process reference: the global generators are never stored or restored, only drawn from."""
    import neps  # noqa: F401
    from neps.state import seed_snapshot
    from neps.state.filebased import load_filebased_neps_state

    cls = getattr(seed_snapshot, "SeedSnapshot", None)
    orig = getattr(cls, "new_capture", None)
    out, seen = None, []
    if orig is not None and hasattr(cls, "recapture") and hasattr(cls, "set_as_global_seed_state"):
        import numpy as np
        import torch

        def capture(*a, **k):
            seen.append((random.getstate(), np.random.get_state(), torch.random.get_rng_state()))
            return orig(*a, **k)

        cls.new_capture = staticmethod(capture)
        mw.init_root(root, space=case["space"], searcher=case["searcher"], seed=case["seed"])
        cls.new_capture = orig
        if seen:
            cls.recapture = lambda self: None
            cls.set_as_global_seed_state = lambda self: None
            random.setstate(seen[0][0]), np.random.set_state(seen[0][1]), torch.random.set_rng_state(seen[0][2])
            st = load_filebased_neps_state(root)
            opt = None
            out = []
            for _ in range(case["n"]):
                if opt is None:
                    keep = (random.getstate(), np.random.get_state(), torch.random.get_rng_state())
                    opt = mw.make_optimizer(case["searcher"], case["space"])
                    random.setstate(keep[0]), np.random.set_state(keep[1]), torch.random.set_rng_state(keep[2])
                out.append(one(st, opt, "w"))
    (root.parent / "turns.json").write_text(json.dumps(out))


def one(st, opt, w):
    """Sample, evaluate and report one trial."""
    t = st.sample_trial(opt, worker_id=w)
    out = (t.id, mw.cfg_key(t.config), t.metadata.previous_trial_id)
    t = st.get_trial_by_id(t.id)
    t.set_evaluating(time_started=time.time(), worker_id=w)
    st.put_updated_trial(t)
    rep = t.set_complete(report_as="success", time_end=time.time(), loss=mw.cfg_hash(t.config), cost=None, learning_curve=None, err=None, tb=None, extra={}, evaluation_duration=0.01)
    st.report_trial_evaluation(t, rep, worker_id=w)
    return out


def turns(case, root):
    """In-process: several states and optimizers, one evaluation at a time, each sample by a random one of them."""
    import neps  # noqa: F401
    from neps.state import filebased
    from neps.state.filebased import load_filebased_neps_state

    r = random.Random(case["s2"])
    mw.init_root(root, space=case["space"], searcher=case["searcher"], seed=case["seed"])
    if case["order"]:
        orig = filebased.TrialRepoInDirectory.all

        def shuffled(self):
            items = list(orig(self).items())
            r.shuffle(items)
            return dict(items)

        filebased.TrialRepoInDirectory.all = shuffled
    ws = [(load_filebased_neps_state(root), mw.make_optimizer(case["searcher"], case["space"])) for _ in range(case["w"])]
    out = []
    for _ in range(case["n"]):
        i = r.randrange(len(ws))
        st, opt = ws[i]
        mw.seed_all(r.randrange(1 << 30))
        out.append(one(st, opt, f"w{i}"))
    (root.parent / "turns.json").write_text(json.dumps(out))
