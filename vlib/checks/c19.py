"""C19: grid search visits every grid point exactly once."""
from __future__ import annotations

import json
import math
import os
import random
from collections import Counter

from vlib import gen, mw, sched
from vlib.checks.c07 import in_child

LEVEL = "exploration"
RULE = ("a case is either a generated space and grid size whose grid is compared with the declared ranges, or a generated history (several processes one after the other, scheduled concurrent workers, "
        "failing evaluations, sampled but unevaluated trials) on a small generated grid up to and beyond its end; distinct_nontrivial counts distinct (parameter kinds, size) and distinct histories")
ASSUMPTIONS = ["all workers use the same search space, grid size and seed (or none)"]
MIN = {"quick": {"grids": 150, "grid_points": 5000, "histories": 60, "points_visited": 350, "exhausted": 60, "scheduled": 10}}


def cases(tier, seed):
    rng = random.Random(f"c19-{seed}")
    for i in range(200 if tier == "quick" else 3000):
        yield {"kind": "grid", "spec": gen.gen_space(rng, nmin=1, nmax=3, maxcat=4), "size": rng.choice([1, 2, 3, 4, 5, 7, 10]), "seed": rng.randrange(1 << 30)}
    for i in range(140 if tier == "quick" else 1200):
        spec = small(rng)
        yield {"kind": "run", "spec": spec, "size": rng.choice([2, 3, 4]), "gseed": rng.choice([None, None, 0, 7, rng.randrange(1000)]), "parts": [rng.randint(0, 4) for _ in range(rng.randint(1, 5))],
               "fail": rng.choice([0, 0, 0.3]), "workers": rng.choice([0, 2, 2, 3]), "strategy": mw.strategies(rng, 1)[0], "seed": rng.randrange(1 << 30), "pending": rng.choice([0, 0, 1, 2])}


def small(rng):
    while True:
        sp = gen.gen_space(rng, nmin=1, nmax=3, fid=rng.random() < 0.2, maxcat=3)
        n = 1
        for s in sp.values():
            n *= len(s["choices"]) if s["type"] == "cat" else 1 if s["type"] == "const" else 3
        if 2 <= n <= 18:
            return sp


def values(s, size):
    """Evenly spaced positions on the declared scale, as real numbers."""
    lo, hi = s["lower"], s["upper"]
    if s["type"] == "int":  # every integer owns a cell of width one
        lo, hi = lo - 0.499999, hi + 0.499999
    ks = [k / (size - 1) for k in range(size)] if size > 1 else [0.0]
    return [math.exp(math.log(lo) + k * (math.log(hi) - math.log(lo))) if s["log"] else lo + k * (hi - lo) for k in ks]


def check_grid(res, spec, size, configs, what):
    keys = [mw.cfg_key(c) for c in configs]
    dup = [k for k, n in Counter(keys).items() if n > 1]
    if dup:
        res.viol("grid-duplicates", f"{what}: {len(dup)} points occur more than once in the grid of {spec} with size {size}, such as {dup[0]}")
    for c in configs:
        r = gen.check_config(spec, c)
        if r:
            res.viol("grid-illegal", f"{what}: {r} in the grid of {spec} with size {size}")
            return
    n = 1
    for k, s in spec.items():
        have = []
        for c in configs:
            if not any(type(c[k]) is type(h) and c[k] == h for h in have):
                have.append(c[k])
        n *= len(have)
        if s["type"] == "const":
            ok = have == [s["value"]]
        elif s["type"] == "cat":
            ok = len(have) == len(s["choices"])
        else:
            want = values(s, size)
            have.sort()
            span = s["upper"] - s["lower"]
            ok = len(have) <= size and math.isclose(have[0], s["lower"], rel_tol=1e-12, abs_tol=1e-12 * span) and (size == 1 or math.isclose(have[-1], s["upper"], rel_tol=1e-12))
            if s["type"] == "float":
                ok = ok and len(have) == size and all(abs(a - b) <= 1e-6 * span + 1e-6 * abs(b) * bool(s["log"]) for a, b in zip(have, want))
            else:
                if not s["log"] and size >= s["upper"] - s["lower"] + 1:
                    ok = ok and have == list(range(s["lower"], s["upper"] + 1))
                ok = ok and all(any(abs(h - w) <= 1.0 for w in want) for h in have) and all(any(abs(h - w) <= 1.0 for h in have) for w in want)
        res.sig(s["type"], "log" if s.get("log") else "", size, "fid" if s.get("is_fidelity") else "")
        if not ok:
            res.viol("grid-values", f"{what}: {k} of {spec} has the values {have[:12]} in a grid of size {size}")
    if n != len(set(keys)):
        res.viol("grid-incomplete", f"{what}: {len(set(keys))} points instead of all {n} combinations for {spec}")


def optimizer(case):
    from neps.optimizers.grid_search.optimizer import GridSearch
    from neps.search_spaces.search_space import SearchSpace

    return GridSearch(pipeline_space=SearchSpace(**gen.build(case["spec"])), grid_step_size=case["size"], **({} if case.get("gseed", 0) is None else {"seed": case.get("gseed", 0)}))


def run_case(case, d, res):
    mw.seed_all(case["seed"])
    rng = random.Random(case["seed"])
    if case["kind"] == "grid":
        from neps.search_spaces.search_space import SearchSpace

        sp = SearchSpace(**gen.build(case["spec"]))
        g = sp.get_search_space_grid(size_per_numerical_hp=case["size"], include_endpoints=True)
        res.count("grids")
        res.count("grid_points", len(g))
        check_grid(res, case["spec"], case["size"], [dict(c.hp_values()) for c in g], "space")
        check_grid(res, case["spec"], case["size"], optimizer(case).configs_list, "searcher")
        if rng.random() < 0.02:
            res.sample = case
        return
    run(case, d, res, rng)


def run(case, d, res, rng):
    import neps

    root, log = d / "root", d / "log"
    log.touch()
    spec, fail = case["spec"], case["fail"]
    grid = [dict(c) for c in optimizer(case).configs_list]
    check_grid(res, spec, case["size"], grid, "searcher")
    want = sorted(mw.cfg_key(c) for c in grid)
    total = len(want)

    def pipeline(**c):
        with open(log, "a") as f:
            f.write(json.dumps([os.getpid(), mw.cfg_key(c)]) + "\n")
        if mw.cfg_hash(c, "fail") < fail:
            raise ValueError("no")
        return mw.cfg_hash(c)

    def part(n, seed):
        def fn():
            mw.seed_all(seed)
            neps.run(pipeline, root_directory=root, pipeline_space=gen.build(spec), searcher=optimizer(case), max_evaluations_total=10**6, max_evaluations_per_run=n, ignore_errors=True, post_run_summary=False)
        return fn

    def done():
        return [json.loads(line)[1] for line in log.read_text().splitlines()]

    st, err = in_child(part(0, 1))
    hist = []
    for n in case["parts"]:
        left = total - len(done())
        st, err = in_child(part(min(n, left), rng.randrange(1 << 20)))
        hist.append(min(n, left))
        if err:
            res.viol("run-failed", f"{err['type']}: {err.get('msg')} with {left} of {total} points left, {spec}")
            return
        if case["pending"] and rng.random() < 0.5 and left > 6:
            def pend():
                from neps.state.filebased import load_filebased_neps_state
                mw.seed_all(rng.randrange(1 << 20))
                s = load_filebased_neps_state(root)
                for _ in range(case["pending"]):
                    s.sample_trial(optimizer(case), worker_id="p")
            in_child(pend)
            hist.append("p")
    sig = ["fail" if fail else "", *map(str, hist)]
    left = total - len(done())
    if case["workers"] and left > 0:
        fns = []
        for w in range(case["workers"]):
            share = left // case["workers"]

            def fn(w=w, share=share):
                from neps.runtime import DefaultWorker  # noqa: F401

                with sched.quiet():
                    mw.seed_all(100 + w)
                    opt = optimizer(case)
                neps.run(pipeline, root_directory=root, pipeline_space=gen.build(spec), searcher=opt, max_evaluations_total=10**6, max_evaluations_per_run=share, ignore_errors=True, post_run_summary=False)
                return "done"
            fns.append(fn)
        out = sched.run_workers(fns, root, case["strategy"])
        mw.unexpected(out, res)
        res.count("scheduled")
        sig.append(out.signature())
        if out.stuck:
            return
    st, err = in_child(part(None, rng.randrange(1 << 20)))
    got = sorted(done())
    res.count("histories")
    res.count("points_visited", len(got))
    res.sig(*sig)
    res.sample = {k: case[k] for k in ("spec", "size", "gseed", "parts", "workers")}
    if got != want:
        c = Counter(got)
        res.viol("visits", f"grid of {total} points: {len(got)} evaluations, never {[k for k in want if k not in c][:3]}, repeated {[k for k, n in c.items() if n > 1][:3]}, foreign {[k for k in c if k not in want][:3]}")
    if err is None:
        res.viol("not-refused", f"a run beyond the {total} points of the grid ended without an error")
    else:
        res.count("exhausted")
    _, trials = mw.load_trials(root)
    if len(trials) != total:
        res.viol("trials", f"{len(trials)} trials recorded for {total} points")
    try:
        c = optimizer(case).ask(trials, None)
        res.viol("not-refused", f"proposed {c} after all points")
    except ValueError:
        pass
