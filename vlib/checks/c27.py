"""C27: ifBO steps configurations through the fidelity, on the model data of the recorded trials."""
from __future__ import annotations

import math
import random
from collections import defaultdict

from vlib import gen, simopt

LEVEL = "exploration"
RULE = ("a case is ifBO on an asynchronous history (1-6 virtual workers, any order of completion, failures, restarts), with a recording stand-in for the pre-trained network (which can not be downloaded here); each proposal is judged "
        "against the history and against the scores the stand-in gave, and the data handed to the network against the recorded trials; distinct_nontrivial counts distinct (kind of proposal, steps done, pending, failed) of model-based proposals")
ASSUMPTIONS = ["the pre-trained network is replaced at the boundary of the third-party package (ifbo.FTPFN) by a recording stand-in with the same shapes", "fidelity not on log scale (rejected by ifBO), losses in [0, 1]",
               "one searcher with the same arguments for the whole history"]
MIN = {"quick": {"histories": 110, "proposals": 2200, "continued": 600, "new": 500, "initial": 250, "model_rows": 20000, "with_pending": 800, "with_failed": 500, "finished_configs": 60, "restarts": 60, "rejected_losses": 10}}
CASE_TIMEOUT = 240
B = 16


def cases(tier, seed):
    rng = random.Random(f"c27-{seed}")
    for i in range(128 if tier == "quick" else 1600):
        spec = gen.gen_space(rng, nmin=1, nmax=4, fid=False)
        k = rng.choice(["int", "int", "int", "float", "unit", "big"])
        if k == "int":
            lo = rng.choice([1, 1, 1, 2, 5])
            step = rng.choice([1, 1, 2, 3])
            f = {"type": "int", "lower": lo, "upper": lo + step * rng.choice([1, 2, 3, 5, 9]) + rng.randint(0, step - 1), "log": False, "is_fidelity": True}
        elif k == "big":
            lo, step = rng.choice([(1, 100), (1, 999), (1000, 1000), (10, 37)])
            f = {"type": "int", "lower": lo, "upper": lo + step * rng.choice([2, 5, 30]) + rng.choice([0, 1, step - 1]), "log": False, "is_fidelity": True}
        elif k == "float":
            lo, step = rng.choice([(1.0, 1), (1.0, 0.5), (0.5, 0.25), (2.5, 1.5)])
            f = {"type": "float", "lower": lo, "upper": lo + step * rng.choice([1, 2, 4, 7]) + rng.choice([0.0, 0.0, step / 3]), "log": False, "is_fidelity": True}
        else:
            lo, step = rng.choice([(0.1, 0.1), (0.05, 0.05), (0.2, 0.2), (0.25, 0.25)])
            f = {"type": "float", "lower": lo, "upper": 1.0, "log": False, "is_fidelity": True}
        items = [*spec.items(), ("epo", f)]
        rng.shuffle(items)
        prior = all("default" in s for s in spec.values() if s["type"] != "const") and rng.random() < 0.6
        yield {"kind": "hist", "spec": dict(items), "step": step, "prior": prior, "first": prior and rng.random() < 0.5, "init": rng.choice(["ndim", "ndim", 1, 2, 5]), "n": rng.choice([15, 25, 40]),
               "w": rng.choice([1, 1, 2, 3, 6]), "fail": rng.choice([0, 0, 0.15, 0.4]), "bias": rng.choice([0.0, 1.0, 3.0]), "restart": rng.choice([0, 0, 0.1]), "seed": rng.randrange(1 << 30)}
    for i in range(14 if tier == "quick" else 100):
        yield {"kind": "range", "loss": rng.choice([1.5, -0.01, 7.0, -3.0, math.inf]), "pending": rng.random() < 0.6, "seed": rng.randrange(1 << 30)}


class Rec:
    """What the network was given and which scores came out, per call."""

    def __init__(self, seed, bias):
        self.calls, self.seed, self.bias, self.pis, self.means = [], seed, bias, [], []


def install(rec):
    import torch
    from ifbo import FTPFN

    mid = (torch.linspace(0, 1, B + 1)[:-1] + torch.linspace(0, 1, B + 1)[1:]) / 2

    class Crit:
        borders = torch.linspace(0, 1, B + 1)

        def mean(self, logits):
            m = torch.softmax(logits, -1) @ mid
            rec.means.append(m.detach().clone())
            return m

        def pi(self, logits, best_f, maximize=True):
            p = torch.softmax(logits, -1)
            out = (p * (1.0 - ((best_f - self.borders[:-1]) * B).clamp(0, 1))).sum(-1)
            rec.pis.append((out.detach().clone(), float(best_f)))
            return out

    class Net:
        criterion = Crit()

        def __call__(self, train_x, train_y, test_x, *a, **k):
            rec.calls.append((train_x.detach().clone(), train_y.detach().clone(), test_x.detach().clone()))
            g = torch.Generator().manual_seed((rec.seed * 1000003 + len(rec.calls)) % (1 << 62))
            out = torch.randn(test_x.shape[0], 1, B, generator=g)
            # configurations that were evaluated already are more (or less) promising
            known = (test_x[:, :, :1] > 0).float()
            return out + known * rec.bias * torch.linspace(-1, 1, B)

    def init(self, target_path=None, version="0.0.1", device=None):
        torch.nn.Module.__init__(self)
        self.version, self.target_path, self.device = version, target_path, device
        self.__dict__["model"] = Net()

    FTPFN.__init__ = init
    import neps.optimizers.bayesian_optimization.models.ftpfn as m

    getattr(m, "_CACHED_FTPFN_MODEL", {}).clear()


def make(case):
    kw = {"surrogate_model_args": {"target_path": "/nonexistent", "version": "0.0.1"}, "step_size": case.get("step", 1), "use_priors": case.get("prior", False), "sample_default_first": case.get("first", False),
          "initial_design_size": case.get("init", "ndim")}
    return simopt.mkopt("ifbo", case["spec"], **kw)


def grid_of(f, step):
    n = int((f["upper"] - f["lower"]) / step + 1e-9)
    vals = [f["upper"] - i * step for i in range(n, -1, -1)]
    return vals


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def units(spec, config):
    """Positions in [0, 1] of the numeric parameters of a configuration."""
    out = []
    for k, s in spec.items():
        if s.get("is_fidelity") or s["type"] not in ("float", "int"):
            continue
        lo, hi, v = s["lower"], s["upper"], config[k]
        out.append((math.log(v) - math.log(lo)) / (math.log(hi) - math.log(lo)) if s.get("log") else (v - lo) / (hi - lo))
    return out


def has_units(spec, config, row):
    """All the numeric values of the configuration are in the row (in any column). Integers may be anywhere in their bin."""
    cols = [float(x) for x in row]
    for k, s in spec.items():
        if s.get("is_fidelity") or s["type"] not in ("float", "int"):
            continue
        if s["upper"] - s["lower"] < 1e-3 * max(abs(s["lower"]), abs(s["upper"])):
            continue  # the network works on 32 bit numbers, which do not resolve such a range
        u = units({k: s}, config)[0]
        tol = 2e-3 if s["type"] == "float" else (1.01 / (s["upper"] - s["lower"]) if not s.get("log") else 1.0)
        if not any(abs(u - c) <= tol for c in cols):
            return False
    return True


def run_case(case, d, res):
    import torch

    from vlib import mw

    torch.set_num_threads(1)
    mw.seed_all(case["seed"] % 2**31)
    if case["kind"] == "range":
        return rejected(case, res)
    rng = random.Random(case["seed"])
    spec, step = case["spec"], case["step"]
    fidspec = spec["epo"]
    rec = Rec(case["seed"], case["bias"])
    install(rec)
    opt = make(case)
    grid = grid_of(fidspec, step)
    sim = simopt.Sim(opt)
    what = f"ifBO step_size={step} fidelity={fidspec['type']}[{fidspec['lower']}, {fidspec['upper']}]"
    nparam = sum(s["type"] != "const" and not s.get("is_fidelity") for s in spec.values())
    n_init = (nparam if case["init"] == "ndim" else case["init"]) + case["first"]
    res.count("histories")
    exact = any(s["type"] == "float" for k, s in spec.items() if k != "epo")  # otherwise there may be too few distinct points
    handed = {}

    def ix_of(v):
        i = min(range(len(grid)), key=lambda j: abs(grid[j] - v))
        return i if close(grid[i], v) else None

    for i in range(case["n"]):
        if case["restart"] and rng.random() < case["restart"] and i:
            sim.opt = make(case)
            res.count("restarts")
        del rec.calls[:], rec.pis[:], rec.means[:]
        s, before, after = sim.ask(rng)
        res.count("proposals")
        res.evals += 1
        if before != after:
            res.viol("history-changed", f"{what}: asking for a configuration changed the trials handed over")
            return
        cfg = dict(s.config)
        err = gen.check_config(spec, cfg)
        if err:
            res.viol("illegal", f"{what}: proposal {s.id} is not legal: {err}")
            return
        if s.id in sim.trials:
            res.viol("id-reused", f"{what}: proposal has the id {s.id} of an existing trial")
            return
        rest = lambda c: {k: v for k, v in c.items() if k != "epo"}
        ix = ix_of(cfg["epo"])
        if ix is None:
            res.viol("not-a-step", f"{what}: proposal {s.id} has fidelity {cfg['epo']!r}, not one of {grid[:4]}...")
            return
        new_cid = 1 + max((int(x.split("_")[0]) for x in sim.trials), default=-1)
        cid = int(s.id.split("_")[0])
        byc = defaultdict(list)
        for tid, t in sim.trials.items():
            byc[int(tid.split("_")[0])].append(t)
        if s.previous_config_id is None:
            if cid in byc:
                res.viol("id-reused", f"{what}: new configuration {s.id} shares the number of an earlier one")
                return
            if ix != 0:
                res.viol("new-not-lowest", f"{what}: new configuration {s.id} starts at fidelity {cfg['epo']!r} instead of {grid[0]!r}")
                return
        else:
            p = sim.trials.get(s.previous_config_id)
            if p is None or int(s.previous_config_id.split("_")[0]) != cid:
                res.viol("previous", f"{what}: proposal {s.id} continues {s.previous_config_id}, which is no trial of that configuration")
                return
            best = max(byc[cid], key=lambda t: t.config["epo"])
            if p is not best:
                res.viol("not-latest", f"{what}: proposal {s.id} continues {s.previous_config_id} although {best.id} got further")
                return
            if any(t.report is None for t in byc[cid]):
                res.viol("continues-pending", f"{what}: proposal {s.id} continues a configuration which is being evaluated")
                return
            if rest(cfg) != rest(p.config):
                res.viol("config-changed", f"{what}: proposal {s.id} continues {p.id} but is another configuration: {rest(cfg)} and {rest(p.config)}")
                return
            pix = ix_of(p.config["epo"])
            if ix != pix + 1:
                res.viol("not-one-step", f"{what}: proposal {s.id} continues {p.id} from fidelity {p.config['epo']!r} to {cfg['epo']!r}, not by one step")
                return
            res.count("continued")
        initial = len(byc) < n_init and (exact or not rec.calls)
        if initial:
            res.count("initial")
            if s.previous_config_id is not None or rec.calls:
                res.viol("initial", f"{what}: {s.id} continues a configuration while only {len(byc)} of {n_init} of the initial design were proposed")
                return
            if case["first"] and not byc and any(cfg[k] != sp["default"] for k, sp in spec.items() if sp["type"] != "const" and k != "epo"):
                res.viol("default-first", f"{what}: first configuration is {cfg}, not the default")
                return
            key = repr(sorted(rest(cfg).items()))
            handed[key] = handed.get(key, 0) + 1
        else:
            if s.previous_config_id is None:
                res.count("new")
            if judge_model(res, case, what, spec, sim, s, rec, byc, grid, ix_of):
                return
            res.sig(s.previous_config_id is not None, ix, len(sim.running), sum(t.report is not None and t.report.loss is None for t in sim.trials.values()))
        sim.add(s)
        res.count("with_pending", bool(len(sim.running) > 1))
        res.count("with_failed", any(t.report is not None and t.report.loss is None for t in sim.trials.values()))
        res.count("finished_configs", ix == len(grid) - 1)
        while sim.running and (len(sim.running) >= case["w"] or rng.random() < 0.35):
            tid = rng.choice(sim.running)
            sim.finish(tid, loss=rng.choice([rng.random(), rng.random(), 0.0, 1.0]), err=rng.random() < case["fail"])
    res.sample = {"searcher": what, "trials": {t: [sim.trials[t].config["epo"], None if sim.trials[t].report is None else sim.trials[t].report.loss] for t in list(sim.trials)[:6]}}


def judge_model(res, case, what, spec, sim, s, rec, byc, grid, ix_of):
    """The network was asked about the recorded trials and the proposal is what it scored best. True if violated."""
    pi_calls = rec.calls[-len(rec.pis):] if rec.pis else []
    if not pi_calls or len(rec.calls) != len(rec.pis) + len(rec.means):
        res.viol("model-unused", f"{what}: proposal {s.id} after the initial design was made without asking the model")
        return True
    npend = sum(t.report is None for t in sim.trials.values())
    if bool(rec.means) != bool(npend):
        res.viol("fantasy", f"{what}: {npend} trials are being evaluated, but the model was asked {len(rec.means)} times what to expect of them")
        return True
    fant = {}
    if rec.means:
        tx, ty, qx = rec.calls[0]
        if len(tx) != len(sim.trials) - npend or len(qx) != npend:
            res.viol("rows", f"{what}: expectation for trials in progress made from {len(tx)} rows for {len(qx)}, there are {len(sim.trials) - npend} evaluated and {npend} in progress")
            return True
        m = rec.means[0].reshape(-1)
        for r, v in zip(qx[:, 0].tolist(), m.tolist(), strict=True):
            fant.setdefault(int(r[0]), []).append((r[1], v))
    for tx, ty, _ in pi_calls[:1] + pi_calls[-1:]:
        rows = defaultdict(list)
        for r, y in zip(tx[:, 0].tolist(), ty.reshape(-1).tolist(), strict=True):
            rows[int(r[0])].append((r[1], y, r[2:]))
        if sorted((k, len(v)) for k, v in rows.items()) != sorted((c + 1, len(ts)) for c, ts in byc.items()):
            res.viol("rows", f"{what}: model rows per configuration {sorted((k - 1, len(v)) for k, v in rows.items())} differ from the trials {sorted((c, len(ts)) for c, ts in byc.items())}")
            return True
        for c, ts in byc.items():
            for (bud, y, enc), t in zip(sorted(rows[c + 1]), sorted(ts, key=lambda t: t.config["epo"]), strict=True):
                res.count("model_rows")
                full = ix_of(t.config["epo"]) == len(grid) - 1
                if not 0 < bud <= 1 + 1e-6 or full != (bud > 1 - 1e-6):
                    res.viol("budget", f"{what}: trial {t.id} with fidelity {t.config['epo']!r} (maximum {grid[-1]!r}) is given to the model with budget {bud}")
                    return True
                if not has_units(spec, t.config, enc):
                    res.viol("row-config", f"{what}: model row of trial {t.id} does not hold its configuration {dict(t.config)}: {enc}")
                    return True
                if t.report is None:
                    want = min((v for b, v in fant.get(c + 1, []) if abs(b - bud) < 1e-6), default=None, key=lambda v: abs(v - y))
                    if want is None or abs(want - y) > 1e-5:
                        res.viol("fantasy", f"{what}: trial {t.id} is being evaluated but the model is given score {y}, expected {want}")
                        return True
                else:
                    want = 0.0 if t.report.loss is None else 1 - t.report.loss
                    if abs(want - y) > 1e-5:
                        res.viol("score", f"{what}: trial {t.id} with loss {t.report.loss} ({t.report.reported_as}) is given to the model with score {y} instead of {want}")
                        return True
            bs = [b for b, _, _ in sorted(rows[c + 1])]
            if any(b2 - b1 < 1e-9 for b1, b2 in zip(bs, bs[1:])):
                res.viol("budget", f"{what}: different fidelities of configuration {c} have the same budget {bs}")
                return True
    # the proposal is what scored best
    best = max(float(p.max()) for p, _ in rec.pis)
    asked = {}
    cands = []
    for (_, _, qx), (p, _) in zip(pi_calls, rec.pis, strict=True):
        q = qx[:, 0].tolist()
        for r, v in zip(q, p.reshape(-1).tolist(), strict=True):
            if r[0] > 0:
                asked[int(r[0]) - 1] = r[1]
            if v >= best - 1e-7:
                cands.append(r)
        if any(not 0 < r[1] <= 1 + 1e-6 for r in q):
            res.viol("budget", f"{what}: the model was asked about budgets outside of (0, 1]")
            return True
    can = {c for c, ts in byc.items() if all(t.report is not None for t in ts) and max(ix_of(t.config["epo"]) for t in ts) < len(grid) - 1}
    if set(asked) != can:
        res.viol("considered", f"{what}: configurations considered for continuation: {sorted(asked)}; can be continued: {sorted(can)}")
        return True
    cid = int(s.id.split("_")[0]) if s.previous_config_id is not None else None
    ok = any((r[0] > 0 and int(r[0]) - 1 == cid) or (r[0] == 0 and cid is None and has_units(spec, s.config, r[2:])) for r in cands)
    if not ok:
        res.viol("not-best", f"{what}: proposal {s.id} (continues {s.previous_config_id}) is not what the model scored best ({best:.4f}): {dict(s.config)} {cands[:2]}")
        return True
    return False


def rejected(case, res):
    """Losses outside of [0, 1] are refused, whatever else is in progress."""
    rng = random.Random(case["seed"])
    case = {**case, "spec": {"a": {"type": "float", "lower": 0.0, "upper": 1.0, "log": False}, "epo": {"type": "int", "lower": 1, "upper": 5, "log": False, "is_fidelity": True}}, "init": 2}
    rec = Rec(case["seed"], 0.0)
    install(rec)
    sim = simopt.Sim(make(case))
    for i in range(2):
        s, _, _ = sim.ask(rng)
        sim.add(s)
    a, b = rng.sample(list(sim.trials), 2)
    sim.finish(a, loss=case["loss"])
    if not case["pending"]:
        sim.finish(b, loss=0.5)
    res.count("rejected_losses")
    try:
        s, _, _ = sim.ask(rng)
    except Exception as e:  # noqa: BLE001
        if rec.calls:
            res.viol("loss-range", f"ifBO gave the model a loss of {case['loss']} before it was refused: {e!r}")
        return
    res.viol("loss-range", f"ifBO accepted a loss of {case['loss']} (outside of [0, 1]) with {'a trial' if case['pending'] else 'no trial'} in progress")
