"""C11: simultaneous starts share one state; mismatching optimizers are refused."""
from __future__ import annotations

import random

from vlib import mw, sched
from vlib.checks.c07 import snap
from vlib.checks.c08 import seq

LEVEL = "exploration"
RULE = ("a case starts 2-4 real workers at the same moment on a missing, empty, partially initialised (killed initialiser) or existing directory under the "
        "scheduler, with equal or differing optimizer settings; distinct_nontrivial counts distinct interleavings of the starts")
ASSUMPTIONS = ["random_search's sequence identifies the random state a run was initialised with"]
MIN = {"quick": {"starts": 150, "crashed_inits": 30, "refused": 40, "mixed": 30, "sequences_attributed": 80}}
SETTINGS = [("random_search", "mf", {}), ("random_search", "mf", {"ignore_fidelity": False}), ("hyperband", "mf", {"eta": 3}), ("hyperband", "mf", {"eta": 2}), ("asha", "mf", {}), ("successive_halving", "mf", {"eta": 4}), ("successive_halving", "mf", {"early_stopping_rate": 1})]


def cases(tier, seed):
    rng = random.Random(f"c11-{seed}")
    q = tier == "quick"
    for st in mw.strategies(rng, 150 if q else 2500):
        yield {"kind": "simul", "where": rng.choice(["missing", "missing", "empty", "nested", "existing"]), "w": rng.choice([2, 3, 4]), "strategy": st, "seed": rng.randrange(1 << 20), "n": rng.randint(2, 4)}
    for st in mw.strategies(rng, 90 if q else 1500):
        yield {"kind": "crash", "w": rng.choice([2, 3]), "strategy": st, "seed": rng.randrange(1 << 20), "k": rng.randrange(2, 140), "mode": rng.choice("kat"), "n": rng.randint(2, 4)}
    for i in range(50 if q else 600):
        a, b = rng.sample(range(len(SETTINGS)), 2)
        yield {"kind": "refuse", "a": a, "b": b, "seed": rng.randrange(1 << 20), "n": rng.randint(0, 4), "pending": rng.choice([0, 1])}
    for st in mw.strategies(rng, 50 if q else 900):
        a, b = rng.sample(range(len(SETTINGS)), 2)
        yield {"kind": "mixed", "a": a, "b": b, "wa": rng.choice([1, 2]), "wb": rng.choice([1, 2]), "seed": rng.randrange(1 << 20), "strategy": st}


def run_case(case, d, res):
    if case["kind"] in ("simul", "crash"):
        simul(case, d, res)
    elif case["kind"] == "refuse":
        refuse(case, d, res)
    else:
        mixed(case, d, res)


def wk(root, seed, n, setting=SETTINGS[0], **kw):
    s, sp, args = setting
    return mw.neps_worker(root, space=sp, searcher=s, seed=seed, max_evaluations_total=n, searcher_kwargs=args, **kw)


def simul(case, d, res):
    crash = case["kind"] == "crash"
    root = d / "root"
    where = "missing" if crash else case["where"]
    if where == "nested":
        root = d / "a" / "b" / "root"
    if where == "empty":
        root.mkdir()
    n = case["n"]
    seeds = [case["seed"] + 1000 * i for i in range(case["w"])]
    if where == "existing":
        out0 = sched.run_workers([wk(root, case["seed"] + 77, 1)], root, {"kind": "random", "seed": 0}, mask=0)
        mw.unexpected(out0, res)
        seeds_ref = [case["seed"] + 77]
        n += 1
    else:
        seeds_ref = seeds
    hit = {}

    def plan(i, step, op, path):
        if crash and i == 0 and step == case["k"] and not any(e["w"] == 0 and e["kind"] == "start" for e in ev):
            m = case["mode"]
            if m == "t" and op not in ("write", "fclose"):
                m = "a"
            hit.update(op=op, path=path, mode=m)
            return m
        return "g"

    ev = []
    out = None
    # scheduling below the deepest directory that exists beforehand
    watch = d if where in ("missing", "nested") else root
    fns = [wk(root, s, n) for s in seeds]
    out = sched.run_workers(fns, watch, case["strategy"], plan=plan)
    mw.unexpected(out, res)
    res.count("starts", case["w"])
    if crash and hit:
        res.count("crashed_inits")
    if out.stuck or res.violations:
        return
    res.sigs.append(out.signature())
    res.sample = {"case": {k: v for k, v in case.items() if k != "strategy"}, "killed_at": hit, "first_steps": out.trace[:12]}
    ids = [e["id"] for e in out.events if e["kind"] == "start"]
    got = sorted(seq(root), key=lambda x: int(x[0]))
    if not got or (crash and hit):
        # a kill between creating a trial and storing the random state repeats the draw; compare the ids only then
        if crash and hit and got and [g[0] for g in got] != [str(i + 1) for i in range(len(got))]:
            res.viol("ids-not-consecutive", f"{[g[0] for g in got]} after a killed initialiser")
        cfgs = [g[1] for g in got]
    cfgs = [g[1] for g in got]
    refs = {}
    for s in seeds_ref:
        r = d / f"ref{s}"
        o = sched.run_workers([wk(r, s, len(got))], r, {"kind": "random", "seed": 0}, mask=0)
        mw.unexpected(o, res)
        refs[s] = [g[1] for g in sorted(seq(r), key=lambda x: int(x[0]))]
    strict = not (crash and hit)
    match = [s for s, r in refs.items() if (r[: len(cfgs)] == cfgs if strict else r[0] == cfgs[0])]
    if got and not match:
        res.viol("not-one-initial-random-state", f"the sampled configurations {cfgs[:3]} are not those of any one worker's initial random state {[r[:3] for r in refs.values()]}")
    res.count("sequences_attributed", len(match) > 0)
    if len(set(ids)) != len(ids):
        res.viol("evaluated-twice", f"evaluated {ids}")


def refuse(case, d, res):
    root = d / "root"
    a, b = SETTINGS[case["a"]], SETTINGS[case["b"]]
    out = sched.run_workers([wk(root, case["seed"], max(1, case["n"]), a, **({} if case["n"] else {"max_evaluations_per_run": 0}))], root, {"kind": "random", "seed": 0}, mask=0)
    mw.unexpected(out, res)
    if res.violations:
        return
    if case["pending"]:
        from neps.state.filebased import load_filebased_neps_state

        load_filebased_neps_state(root).sample_trial(mw.make_optimizer(a[0], a[1], **a[2]), worker_id="p")
    before = snap(root)
    out = sched.run_workers([wk(root, case["seed"] + 1, 50, b)], root, {"kind": "random", "seed": 0}, mask=0)
    r = out.results[0]
    if r["ok"]:
        res.viol("mismatch-accepted", f"directory of {a} accepted a worker with {b}")
    elif r["exc"] != "NePSError":
        res.viol("mismatch-other-error", f"{r['exc']}: {r['msg'][:200]}", tb=r["tb"])
    after = snap(root)
    diff = [f for f in set(after) | set(before) if after.get(f) != before.get(f)]
    if diff:
        res.viol("refused-worker-changed-files", f"refused worker changed {diff}")
    if any(e["kind"] == "start" for e in out.events):
        res.viol("refused-worker-evaluated", "a refused worker evaluated something")
    res.count("refused")
    res.sig("refuse", case["a"], case["b"], case["n"], case["pending"])
    # and the original settings still work
    out = sched.run_workers([wk(root, case["seed"] + 2, max(1, case["n"]) + 1, a)], root, {"kind": "random", "seed": 0}, mask=0)
    mw.unexpected(out, res)


def mixed(case, d, res):
    root = d / "root"
    a, b = SETTINGS[case["a"]], SETTINGS[case["b"]]
    sets = [a] * case["wa"] + [b] * case["wb"]
    out = sched.run_workers([wk(root, case["seed"] + i, 4, s) for i, s in enumerate(sets)], d, case["strategy"])
    mw.unexpected(out, res, allow=lambda r: r["exc"] == "NePSError" and "does not match" in r["msg"])
    if out.stuck or res.violations:
        return
    ok = [r["ok"] for r in out.results]
    groups = {0: ok[: case["wa"]], 1: ok[case["wa"]:]}
    won = [g for g, v in groups.items() if all(v)]
    lost = [g for g, v in groups.items() if not any(v)]
    if len(won) != 1 or len(lost) != 1:
        res.viol("mixed-start", f"workers with two different settings started at once: success by group {groups}")
        return
    info = mw.load_trials(root)[0].optimizer_info().info
    want = sets[0] if won == [0] else sets[-1]
    if info["searcher_name"] != want[0] or any(info["searcher_args"].get(k) != v for k, v in want[2].items()):
        res.viol("mixed-start-info", f"recorded optimizer {info}, but the workers with {want} were accepted")
    starters = {e["w"] for e in out.events if e["kind"] == "start"}
    if any(not ok[w] for w in starters):
        res.viol("refused-worker-evaluated", f"workers {starters} evaluated, accepted {ok}")
    res.count("mixed")
    res.sigs.append(out.signature())
