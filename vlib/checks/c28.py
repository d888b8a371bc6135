"""C28: what searchers are asked with, and what becomes of their answers."""
from __future__ import annotations

import copy
import json
import math
import random
import time
from pathlib import Path

from vlib import mw
from vlib.checks.c05 import STRINGS
from vlib.checks.c07 import in_child, snap

LEVEL = "exploration"
RULE = ("a case drives a recording user-defined searcher with generated answers, either through several state objects (as different workers hold them) in generated turns of sampling, starting, reporting and reloading, or through "
        "successive real neps.run calls with changing limits, hooks, failing evaluations and failing answers; each ask is compared with an independent record of everything done before, each answer with what is recorded afterwards; "
        "distinct_nontrivial counts distinct (kind of answer, trials per state given, worker's staleness) of asks")
ASSUMPTIONS = ["answers consist of plain values", "asks and reports do not overlap here (C02 and C09 judge overlapping ones)", "the searcher does not modify the trials it is given"]
MIN = {"quick": {"asks": 2300, "trials_given": 10000, "answers_recorded": 2000, "failed_asks": 250, "hooks": 200, "run_calls": 200, "with_state": 300, "limits_changed": 60}}

FAILS = ["raise", "interrupt", "unknown-previous", "id-in-use", "garbage"]


def cases(tier, seed):
    rng = random.Random(f"c28-{seed}")
    q = tier == "quick"
    for _ in range(200 if q else 2500):
        yield {"kind": "turns", "seed": rng.randrange(1 << 30), "n": rng.randint(20, 70), "w": rng.randint(1, 4)}
    for _ in range(4 if q else 60):  # long histories
        yield {"kind": "turns", "seed": rng.randrange(1 << 30), "n": rng.choice([300, 500, 900]), "w": rng.randint(1, 3)}
    for _ in range(150 if q else 1500):
        yield {"kind": "runs", "seed": rng.randrange(1 << 30), "calls": rng.randint(1, 4)}


def value(rng):
    k = rng.randrange(8)
    if k < 3:
        return rng.choice([0.0, -0.0, 1e-300, 1e300, 0.1, 1 / 3, rng.random(), rng.gauss(0, 1e6), 5e-324, 1.0, 1e22, 123456789.123456789])
    if k < 5:
        return rng.choice([0, 1, -1, 2**53 + 1, 10**25, rng.randrange(10**6)])
    if k < 7:
        return rng.choice([s for s in STRINGS if s.isprintable() or s == ""])
    return rng.choice([True, False, None])


def same(a, b):
    """Equal with equal types (NaN equals NaN)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b)
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def rngfp():
    import numpy as np
    import torch

    s = np.random.get_state()
    return (hash(random.getstate()), hash((s[0], s[1].tobytes(), *s[2:])), hash(torch.get_rng_state().numpy().tobytes()))


def draw(rng):
    import numpy as np
    import torch

    for _ in range(rng.randint(0, 4)):
        rng.choice([random.random, lambda: random.gauss(0, 1), lambda: np.random.randn(3), lambda: np.random.rand(), lambda: torch.randn(2), lambda: torch.rand(1)])()


class AskFailed(RuntimeError):
    pass


class Model:
    """The independent record."""

    def __init__(self):
        self.trials = {}  # id -> dict(config, state, prev, worker, evaluator, report)
        self.cost = 0.0
        self.evals = 0
        self.max_cost = None
        self.max_evals = None
        self.rng = None  # random state left by the last recorded ask
        self.shared = {}
        self.n = 0


def make(space, model, rng, res, plan):
    """A recording searcher; plan() says what to answer."""
    from neps.optimizers.base_optimizer import BaseOptimizer, SampledConfig

    class Recorder(BaseOptimizer):
        def ask(self, trials, budget_info):
            res.count("asks")
            fp = rngfp()
            if model.rng is not None and fp != model.rng:
                res.viol("random-state-at-ask", f"the global generators at ask {model.n} are not at the state the previous sample left")
            judge_given(res, model, trials, budget_info)
            model.n += 1
            kind = plan()
            if kind != "ok":
                self.failed.append(kind)
            ids = list(model.trials)
            st = {s: sum(t["state"] == s for t in model.trials.values()) for s in ("pending", "evaluating", "success", "crashed")}
            res.sig(kind, *[min(v, 5) for v in st.values()])
            budget_info.used_cost_budget += 1e6  # "We don't want optimizers mutating this before serialization"
            budget_info.max_evaluations = -1
            draw(rng)
            if kind == "raise":
                raise AskFailed("asked for")
            if kind == "interrupt":
                raise KeyboardInterrupt("asked for")
            if kind == "garbage":
                return {"config": {}}
            new = rng.choice([f"{model.n}", f"t{model.n}", f"{model.n}_0", f"{model.n}_{rng.randint(1, 3)}", f"c-{model.n}.{rng.randint(0, 9)}"])
            cfg = {f"p{i}": value(rng) for i in range(rng.randint(0, 5))}
            prev = rng.choice(ids) if ids and rng.random() < 0.5 else None
            if kind == "unknown-previous":
                return SampledConfig(id=new, config=cfg, previous_config_id=f"{new}x")
            if kind == "id-in-use":
                return SampledConfig(id=rng.choice(ids), config=cfg, previous_config_id=prev)
            self.last = (new, copy.deepcopy(cfg), prev, rngfp())
            self.state = None
            ans = SampledConfig(new, cfg, prev)
            if rng.random() < 0.3:
                self.state = {f"k{i}": value(rng) for i in range(rng.randint(0, 3))}
                return ans, copy.deepcopy(self.state)
            return ans

    o = Recorder(pipeline_space=space)
    o.last = o.state = None
    o.failed = []
    return o


def judge_given(res, m, trials, budget):
    ids = list(trials)
    res.count("trials_given", len(ids))
    miss, extra = sorted(set(m.trials) - set(ids)), sorted(set(ids) - set(m.trials))
    if miss or extra:
        res.viol("trials-given", f"asked with trials {ids[:12]}: missing {miss}, unknown {extra}")
    for i in ids:
        if i not in m.trials:
            continue
        judge_trial(res, trials[i], i, m.trials[i], "given to the searcher")
    if budget is None:
        return res.viol("budget-given", "asked without budget")
    for f, w in (("used_cost_budget", m.cost), ("used_evaluations", m.evals), ("max_cost_budget", m.max_cost), ("max_evaluations", m.max_evals)):
        if getattr(budget, f) != w:
            res.viol(f"budget-given:{f}", f"asked with {f}={getattr(budget, f)!r} instead of {w!r} ({m.evals} evaluations reported)")


def judge_trial(res, t, i, w, where):
    got = {"id": t.id, "state": t.state.value, "prev": t.metadata.previous_trial_id, "worker": t.metadata.sampling_worker_id, "evaluator": t.metadata.evaluating_worker_id}
    want = {"id": i, "state": w["state"], "prev": w["prev"], "worker": w["worker"], "evaluator": w["evaluator"]}
    for k in want:
        if got[k] != want[k]:
            res.viol(f"trial-{k}", f"trial {i} {where}: {k} is {got[k]!r} instead of {want[k]!r}")
    if not same(dict(t.config), w["config"]):
        res.viol("trial-config", f"trial {i} {where}: config {dict(t.config)!r} instead of {w['config']!r}")
    if w["loc"] is not None and t.metadata.location != w["loc"]:
        res.viol("trial-location", f"trial {i} {where}: location {t.metadata.location!r} instead of {w['loc']!r}")
    if t.metadata.previous_trial_location != w["prevloc"]:
        res.viol("trial-previous-location", f"trial {i} {where}: location of the previous trial {t.metadata.previous_trial_location!r} instead of {w['prevloc']!r}")
    if (t.report is None) != (w["report"] is None):
        return res.viol("trial-report", f"trial {i} {where}: report {t.report!r} instead of {w['report']!r}")
    if w["report"] is not None:
        for k, v in w["report"].items():
            if not same(getattr(t.report, k), v):
                res.viol(f"trial-report-{k}", f"trial {i} {where}: {k} reported as {getattr(t.report, k)!r} instead of {v!r}")


def recorded(res, m, opt, worker, root, t, before):
    """Account for an answer that was accepted."""
    new, cfg, prev, fp = opt.last
    opt.last = None
    res.count("answers_recorded")
    m.trials[new] = {"config": cfg, "state": "pending", "prev": prev, "worker": worker, "evaluator": None, "report": None,
                     "loc": str((Path(root) / "configs" / f"config_{new}").absolute().resolve()), "prevloc": m.trials[prev]["loc"] if prev is not None else None}
    m.rng = fp
    if opt.state is not None:
        res.count("with_state")
        m.shared = opt.state
    if t is not None:
        judge_trial(res, t, new, m.trials[new], "returned")
        if not before <= t.metadata.time_sampled <= time.time():
            res.viol("time-sampled", f"trial {new} sampled at {t.metadata.time_sampled}, really in [{before}, {time.time()}]")


def final(res, m, root):
    st, tr = mw.load_trials(root)
    if set(tr) != set(m.trials):
        res.viol("trials-recorded", f"recorded {sorted(tr)} instead of {sorted(m.trials)}")
    for i in tr:
        if i in m.trials:
            judge_trial(res, tr[i], i, m.trials[i], "recorded")
    s = st.optimizer_state()
    if not same(dict(s.shared_state), m.shared):
        res.viol("searcher-state", f"recorded state of the searcher {s.shared_state!r} instead of {m.shared!r}")
    return st


def turns(case, d, res):
    from neps.search_spaces.search_space import SearchSpace
    from neps.state.filebased import create_or_load_filebased_neps_state, load_filebased_neps_state
    from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo

    rng = random.Random(case["seed"])
    root = d / "run"
    mw.seed_all(case["seed"])
    m = Model()
    m.max_cost, m.max_evals = rng.choice([None, 10.0, 3.5]), rng.choice([None, 7, 1000])
    st0 = create_or_load_filebased_neps_state(directory=root, optimizer_info=OptimizerInfo({"x": 1}),
                                              optimizer_state=OptimizationState(budget=BudgetInfo(max_cost_budget=m.max_cost, used_cost_budget=0, max_evaluations=m.max_evals), shared_state={}))
    states = [st0] + [load_filebased_neps_state(root) for _ in range(case["w"] - 1)]
    how = ["ok"]
    space = SearchSpace(**mw.make_space("basic"))
    opts = [make(space, m, rng, res, lambda: how[0]) for _ in states]
    held = []  # (trial object, state index) being evaluated
    for _ in range(case["n"]):
        w = rng.randrange(len(states))
        st = states[w]
        op = rng.choices(["sample", "start", "report", "reload", "disturb"], [5, 4, 4, 0.7, 1])[0]
        if op == "reload":
            states[w] = load_filebased_neps_state(root)
        elif op == "disturb":
            mw.seed_all(rng.randrange(100))
        elif op == "start":
            t = st.get_next_pending_trial()
            pend = [i for i, x in m.trials.items() if x["state"] == "pending"]
            if t is None:
                if pend:
                    res.viol("pending-not-found", f"no pending trial found, {pend} are")
                continue
            if t.id not in pend:
                return res.viol("pending-wrong", f"{t.id} handed out as pending, {pend} are")
            t.set_evaluating(time_started=time.time(), worker_id=f"w{w}")
            st.put_updated_trial(t)
            m.trials[t.id].update(state="evaluating", evaluator=f"w{w}")
            held.append((t, w))
        elif op == "report" and held:
            t, w = held.pop(rng.randrange(len(held)))
            ok = rng.random() < 0.7
            rep = {"loss": rng.choice([0.5, rng.random(), math.inf, math.nan, 3.0]) if ok else rng.choice([None, 9.0]), "cost": rng.choice([None, 0.0, 0.25, 1.5, 2.0]),
                   "learning_curve": rng.choice([None, [], [0.5, 0.25]]) if ok else None, "extra": {f"e{i}": value(rng) for i in range(rng.randint(0, 2))} if ok else {}, "reported_as": "success" if ok else "crashed"}
            r = t.set_complete(report_as=rep["reported_as"], time_end=time.time(), loss=rep["loss"], cost=rep["cost"], learning_curve=rep["learning_curve"], err=None if ok else ValueError("boom"), tb=None if ok else "tb",
                               extra=copy.deepcopy(rep["extra"]), evaluation_duration=0.5)
            states[w].report_trial_evaluation(t, r, worker_id=f"w{w}")
            m.trials[t.id].update(state=rep["reported_as"], report=rep)
            m.cost += rep["cost"] or 0.0
            m.evals += 1
        elif op == "sample":
            how[0] = rng.choice(FAILS) if rng.random() < 0.15 else "ok"
            if how[0] == "id-in-use" and not m.trials:
                how[0] = "raise"
            hooks, calls = None, []
            if rng.random() < 0.3:
                other = rng.choice(opts)

                def hook(o, other=other, calls=calls):
                    calls.append(o)
                    return other

                def hook2(o, calls=calls):
                    calls.append(o)
                    return o

                hooks = [hook, hook2] if rng.random() < 0.6 else [hook2, hook]
                asked = other
            else:
                asked = opts[w]
            before, b = snap(root), time.time()
            for o in opts:
                o.last = None
            try:
                t = st.sample_trial(opts[w], worker_id=f"w{w}", _sample_hooks=hooks)
            except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                if how[0] == "ok":
                    raise
                res.count("failed_asks")
                if how[0] in ("raise", "interrupt") and not (isinstance(e, AskFailed) if how[0] == "raise" else isinstance(e, KeyboardInterrupt)):
                    res.viol("ask-error-lost", f"the searcher raised, but the sample failed with {e!r}")
                now = snap(root)
                if now != before:
                    res.viol("failed-ask-recorded", f"an answer of kind {how[0]} failed, but changed {[k for k in set(now) | set(before) if now.get(k) != before.get(k)][:5]}")
            else:
                if how[0] != "ok":
                    return res.viol("bad-answer-accepted", f"an answer of kind {how[0]} was accepted as {t!r}")
                if asked.last is None:
                    return res.viol("wrong-searcher-asked", "the searcher returned by the hooks was not asked")
                recorded(res, m, asked, f"w{w}", root, t, b)
            if hooks:
                res.count("hooks", len(calls))
                want = [opts[w], other] if hooks[0] is hook else [opts[w], opts[w]]
                if len(calls) != 2 or calls[0] is not want[0] or calls[1] is not want[1]:
                    res.viol("hooks", f"{len(calls)} hooks called, or not with the searcher the one before returned")
    s = final(res, m, root).optimizer_state().budget
    if (s.used_cost_budget, s.used_evaluations, s.max_cost_budget, s.max_evaluations) != (m.cost, m.evals, m.max_cost, m.max_evals):
        res.viol("budget-recorded", f"recorded budget {s} after {m.evals} evaluations with total cost {m.cost}, limits {m.max_cost}, {m.max_evals}")


def runs(case, d, res):
    import neps
    from neps.search_spaces.search_space import SearchSpace

    rng = random.Random(case["seed"])
    root = d / "run"
    m = Model()
    mw.seed_all(case["seed"])
    space = SearchSpace(**mw.make_space("basic"))
    fails = []
    opt = make(space, m, rng, res, lambda: fails.pop(0) if fails else "ok")
    hookcalls = [0]

    def hook(o):
        hookcalls[0] += 1
        if o is not opt:
            res.viol("hooks", "the hook was not called with the searcher of the run")
        return o

    cur = [None]

    def evaluate(pipeline_directory, **config):
        b = cur[0]
        t = neps.runtime.get_in_progress_trial()
        if opt.last is None:
            res.viol("evaluated-not-sampled", f"trial {t.id} evaluated although nothing was sampled")
            return 0.0
        new = opt.last[0]
        recorded(res, m, opt, t.metadata.sampling_worker_id, root, None, b)
        if t.id != new or not same(dict(config), m.trials[new]["config"]):
            res.viol("answer-evaluated", f"evaluated {t.id} with {config!r}, answered was {new} with {m.trials[new]['config']!r}")
        x = m.trials[new]
        x["evaluator"] = t.metadata.evaluating_worker_id
        ok = rng.random() < 0.7
        c = rng.choice([0.0, 0.25, 1.5]) if ok else None
        m.evals += 1
        if not ok:
            x.update(state="crashed", report={"loss": lov, "cost": cov, "learning_curve": None, "extra": {}, "reported_as": "crashed"})
            m.cost += cov or 0.0
            raise mw.UserErr("x")
        loss = rng.choice([0.5, rng.random(), math.inf, math.nan])
        x.update(state="success", report={"loss": loss, "cost": c, "learning_curve": [loss], "extra": {}, "reported_as": "success"})
        m.cost += c
        draw(rng)
        return {"loss": loss, "cost": c}

    lov, cov = rng.choice([(None, None), (7.0, 0.5), (math.inf, 0.0)])
    total = 0
    for k in range(case["calls"]):
        res.count("run_calls")
        total = m.evals + rng.randint(1, 5)
        mc = rng.choice([None, None, m.cost + rng.choice([1.0, 2.5, 50.0])])
        mx = total if mc is None or rng.random() < 0.7 else None
        per = rng.choice([None, rng.randint(1, 4)]) if mx is not None else rng.randint(1, 4)
        if k and ((mc is not None and mc != m.max_cost) or (mx is not None and mx != m.max_evals)):
            res.count("limits_changed")
        m.max_cost = mc if mc is not None else m.max_cost
        m.max_evals = mx if mx is not None else m.max_evals
        # a failing answer may end the call, the next one goes on
        fails[:] = [rng.choice(["ok"] * 6 + [f for f in FAILS if f != "id-in-use"]) for _ in range(12)]
        it = rng.random() < 0.4
        hooks = [hook] if rng.random() < 0.6 else None
        asks0, h0 = m.n, hookcalls[0]
        cur[0] = time.time()
        opt.failed = []
        try:
            neps.run(evaluate, root_directory=root, pipeline_space=space, searcher=opt, max_evaluations_total=mx, max_cost_total=mc, max_evaluations_per_run=per, ignore_errors=True,
                     loss_value_on_error=lov, cost_value_on_error=cov, post_run_summary=rng.random() < 0.2, pre_load_hooks=iter(hooks) if hooks and it else hooks)
        except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
            if not opt.failed:
                raise
            chain, x = [], e
            while x is not None:
                chain.append(x)
                x = x.__cause__ or x.__context__
            if opt.failed[-1] in ("raise", "interrupt") and not any(str(x) == "asked for" for x in chain):
                res.viol("ask-error-lost", f"the searcher raised, but the call failed with {chain!r}")
            if sum(f == "interrupt" for f in opt.failed) and not isinstance(e, KeyboardInterrupt):
                res.viol("interrupt-lost", f"an interrupt while sampling ended in {chain!r}")
        else:
            if "interrupt" in opt.failed:
                res.viol("interrupt-lost", "an interrupt while sampling was swallowed")
        res.count("failed_asks", len(opt.failed))
        if hooks:
            res.count("hooks", hookcalls[0] - h0)
            if hookcalls[0] - h0 != m.n - asks0:
                res.viol("hooks", f"the hook was called {hookcalls[0] - h0} times for {m.n - asks0} asks")
    s = final(res, m, root).optimizer_state().budget
    if (s.used_cost_budget, s.used_evaluations, s.max_cost_budget, s.max_evaluations) != (m.cost, m.evals, m.max_cost, m.max_evals):
        res.viol("budget-recorded", f"recorded budget {s} after {m.evals} evaluations with total cost {m.cost}, limits {m.max_cost}, {m.max_evals}")


def run_case(case, d, res):
    (turns if case["kind"] == "turns" else runs)(case, d, res)
