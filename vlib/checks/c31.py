"""C31: plots draw the best recorded losses."""
from __future__ import annotations

import math
import random
import runpy
import sys
from pathlib import Path

import numpy as np

from vlib import gen, mw
from vlib.checks.c07 import snap

LEVEL = "exploration"
RULE = ("a case is 1-9 generated run directories (several benchmarks, algorithms and seeds; failed, unfinished and continued trials; finishing in any order) plotted through neps.plot, `python -m neps.plot` or the 3D plotter; "
        "the figure handed to savefig is taken apart and every drawn point compared with the step function computed from the generated history; distinct_nontrivial counts distinct (options, number of benchmarks/algorithms/seeds) combinations")
ASSUMPTIONS = ["the figure saved is the one matplotlib is asked to save; its rasterisation is not judged", "what is drawn to the left of the first evaluation is not judged"]
MIN = {"quick": {"plots": 150, "points": 1800, "seeds_averaged": 60, "bands": 900, "lines3d": 60, "refused": 12, "cli": 30, "continued": 100, "crashed": 150}}
CASE_TIMEOUT = 120


def cases(tier, seed):
    rng = random.Random(f"c31-{seed}")
    q = tier == "quick"
    for i in range(400 if q else 4000):
        k = rng.random()
        if k < 0.1:
            yield {"kind": "3d", "n": rng.choice([6, 12, 24]), "crash": rng.choice([0, 0, 0.3]), "seed": rng.randrange(1 << 30)}
        elif k < 0.2:
            yield {"kind": "missing", "what": rng.choice(["root", "benchmark", "algorithm", "empty", "failed", "pending"]), "seed": rng.randrange(1 << 30)}
        else:
            sci = rng.random() < 0.5
            yield {"kind": "plot", "sci": sci, "nb": rng.choice([1, 1, 2, 3]) if sci else 1, "na": rng.choice([1, 2]) if sci else 1, "ns": rng.choice([1, 2, 3]) if sci else 1, "n": rng.choice([2, 6, 12, 20]), "crash": rng.choice([0, 0, 0.3]),
                   "pending": rng.choice([0, 0.2]), "mf": rng.random() < 0.5, "loss": rng.choice(["unit", "unit", "neg", "nan", "inf", "few"]), "key": rng.choice([None, None, "cost", "fidelity"]), "cc": rng.random() < 0.4, "workers": rng.choice([1, 1, 4]),
                   "x_range": rng.choice([None, None, "int", "float"]), "log_x": rng.random() < 0.2, "log_y": rng.random() < 0.7, "cli": rng.random() < 0.35, "zero": rng.random() < 0.2, "seed": rng.randrange(1 << 30)}


# ---- histories -------------------------------------------------------------------------------------------------
def history(case, root, rng):
    """Trials recorded through the shared state; [(id, state, loss, info, prev, time_sampled, time_started, time_end)] in any order."""
    import neps
    from neps.optimizers.base_optimizer import BaseOptimizer, SampledConfig
    from neps.search_spaces.search_space import SearchSpace
    from neps.state._eval import evaluate_trial
    from neps.state.filebased import load_filebased_neps_state
    from neps.state.settings import DefaultReportValues

    space = {"x": neps.Float(0, 1), "e": neps.Integer(1, 81, is_fidelity=True)}
    neps.run(mw.make_eval(), root_directory=root, pipeline_space=space, post_run_summary=False, max_evaluations_per_run=0, max_evaluations_total=10**6, searcher="random_search", ignore_fidelity=True)
    st = load_filebased_neps_state(Path(root))
    todo = []

    class Feed(BaseOptimizer):
        def ask(self, trials, budget_info):
            return todo[0]

    opt = Feed(pipeline_space=SearchSpace(**space))
    clock = rng.choice([0.0, 1.7e9])
    out, open_, level, spent, new = [], [], {}, {}, 0
    for i in range(case["n"]):
        done = [c for c, (r, ok) in level.items() if ok and r < 4]
        if case["mf"] and done and rng.random() < 0.5:
            c = rng.choice(done)
            r = level[c][0] + 1
            tid, prev = f"{c}_{r}", f"{c}_{r - 1}"
        else:
            c, r, prev = new, 0, None
            new += 1
            tid = f"{c}_0" if case["mf"] else str(c + 1)
        level[c] = (r, False)
        todo[:] = [SampledConfig(id=tid, config={"x": rng.random(), "e": 3**r}, previous_config_id=prev)]
        t = st.sample_trial(opt, worker_id="s")
        clock += rng.uniform(0.01, 2)
        t.metadata.time_sampled = clock
        st.put_updated_trial(t)
        open_.append((t, c, r, prev))
        while open_ and (rng.random() < 0.6 or len(open_) > 6):
            t, c, r, prev = open_.pop(rng.randrange(len(open_)))
            clock += rng.uniform(0.01, 2)
            rec = {"id": t.id, "c": c, "r": r, "prev": prev, "ts": t.metadata.time_sampled, "start": clock, "end": None, "loss": None, "state": "pending", "info": {"fidelity": 3**r, "cost": 0.0 if case.get("zero") and rng.random() < 0.5 else rng.choice([1.0, 2.5, rng.uniform(0.1, 9)])}}
            # as trained from scratch
            rec["info"]["cost"] = spent[t.id] = rec["info"]["cost"] + spent.get(prev, 0.0)
            out.append(rec)
            if rng.random() < case.get("pending", 0):
                continue
            t.set_evaluating(time_started=clock, worker_id="e")
            st.put_updated_trial(t)
            crash = rng.random() < case["crash"]
            loss = {"unit": rng.random, "neg": lambda: rng.uniform(-50, 50), "nan": lambda: rng.choice([float("nan"), rng.random()]), "inf": lambda: rng.choice([float("inf"), rng.random()]), "few": lambda: rng.choice([0.0, 0.5, 1.0])}[case.get("loss", "unit")]()

            def fn(**config):
                if crash:
                    raise ValueError("no")
                return {"loss": loss, "info_dict": dict(rec["info"])}

            clock += rng.uniform(0.01, 5)
            _, rep = evaluate_trial(t, evaluation_fn=fn, default_report_values=DefaultReportValues(loss_value_on_error=rng.choice([None, -1e3]) if crash else None))
            t.metadata.time_end = clock
            st.report_trial_evaluation(t, rep, worker_id="e")
            rec.update(state="crashed" if crash else "ok", loss=None if crash else float(loss), end=clock)
            level[c] = (r, not crash)
    return out


def steps(hist, case):
    """[(x, best loss so far)] in order of x."""
    ok = sorted((h for h in hist if h["state"] == "ok"), key=lambda h: h["end"])
    by = {h["id"]: h for h in ok}
    cost = lambda h: 1.0 if case["key"] is None else float(h["info"][case["key"]])
    start = min((h["ts"] for h in hist if h["state"] in ("ok", "crashed")), default=None)
    x, best, out = 0.0, float("inf"), []
    for h in ok:
        c = cost(h)
        if case["cc"] and case["workers"] == 1 and h["prev"] in by:
            c -= cost(by[h["prev"]])
        x += c
        if case["cc"] and case["workers"] > 1:
            x = h["end"] - start
        best = min(best, h["loss"]) if not math.isnan(h["loss"]) else best
        out.append((x, best, math.isnan(h["loss"]) and best == float("inf")))
    return out


def at(st, x):
    """(value after everything up to x, value before) of a step function; None left of the first evaluation."""
    tol = 1e-9 * max(1.0, abs(x))
    after = before = None
    for sx, y, nan in st:
        y = float("nan") if nan else y
        if sx <= x + tol:
            after = y
        if sx < x - tol:
            before = y
    return after, before


def same(a, b):
    if a is None or b is None:
        return a is b
    if math.isnan(a) or math.isnan(b):
        return not (math.isfinite(a) or math.isfinite(b))
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def run_case(case, d, res):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    figs = []
    old = matplotlib.figure.Figure.savefig

    def savefig(self, *a, **kw):
        figs.append((self, str(a[0] if a else kw.get("fname"))))
        return old(self, *a, **kw)

    matplotlib.figure.Figure.savefig = savefig
    try:
        {"plot": plot, "missing": missing, "3d": plot3d}[case["kind"]](case, d, res, figs)
    finally:
        matplotlib.figure.Figure.savefig = old
        plt.close("all")
    if case["seed"] % 10 == 0:
        res.sample = case


def call(case, root, kw):
    import neps

    if not case.get("cli"):
        return neps.plot(str(root) if case["seed"] % 2 else root, **kw)
    argv = ["neps.plot", str(root)]
    for k, v in kw.items():
        if v is True:
            argv.append(f"--{k}")
        elif v is None or v is False:
            continue
        elif isinstance(v, (list, tuple)):
            argv += [f"--{k}", *[str(x) for x in v]]
        else:
            argv += [f"--{k}", str(v)]
    old = sys.argv
    sys.argv = argv
    try:
        runpy.run_module("neps.plot", run_name="__main__", alter_sys=False)
    finally:
        sys.argv = old


def plot(case, d, res, figs):
    rng = random.Random(case["seed"])
    root = d / "R"
    # benchmarks and algorithms are drawn in the order asked for
    B = rng.sample(["zeta", "alpha", "mid dle"], case["nb"]) if case["sci"] else ["example"]
    A = rng.sample(["random_search", "asha"], case["na"]) if case["sci"] else ["neps"]
    hist = {}
    for b in B:
        for a in A:
            for s in range(case["ns"]):
                p = root if not case["sci"] else root / f"benchmark={b}" / f"algorithm={a}" / f"seed={s}" / "neps_root_directory"
                p.parent.mkdir(parents=True, exist_ok=True)
                hist[b, a, s] = history(case, p, rng)
    S = {k: steps(h, case) for k, h in hist.items()}
    res.count("continued", sum(1 for h in hist.values() for t in h if t["prev"] is not None and t["state"] == "ok"))
    res.count("crashed", sum(1 for h in hist.values() for t in h if t["state"] == "crashed"))
    kw = {"scientific_mode": case["sci"], "key_to_extract": case["key"], "consider_continuations": case["cc"], "n_workers": case["workers"], "log_x": case["log_x"] and not case["zero"] and not case["x_range"] and case["loss"] not in ("nan", "inf")}
    if case["sci"]:
        kw.update(benchmarks=B, algorithms=A)
    if not case.get("cli"):
        kw["log_y"] = case["log_y"]
    xs = [x for st in S.values() for x, _, _ in st]
    if case["x_range"] and xs:
        lo = rng.choice([0.0, 0.5, 1.0]) if case["x_range"] == "float" else rng.choice([0, 1, 2])
        hi = lo + (rng.uniform(0.3, 6) if case["x_range"] == "float" else rng.choice([1, 4, 20]))
        kw["x_range"] = (lo, hi)
    name, ext = rng.choice([("incumbent_trajectory", "png"), ("my plot", "png"), ("p", "pdf")])
    if name != "incumbent_trajectory":
        kw.update(filename=name, extension=ext)
    if case["seed"] % 3 == 0:
        kw["dpi"] = 60
    before = snap(root)
    where = f"{kw} on {[len(h) for h in hist.values()]} trials"
    try:
        call(case, root, kw)
    except FileNotFoundError:
        if all(S.values()):
            raise
        res.count("refused")
        if snap(root) != before:
            res.viol("changed", f"{where}: refused, but the run directory changed")
        return
    if not all(S.values()):
        res.viol("nothing-to-plot", f"{where}: a run without any successful evaluation was plotted")
        return
    res.count("plots")
    if case.get("cli"):
        res.count("cli")
    res.sig("plot", case["sci"], len(B), len(A), case["ns"], case["key"], case["cc"], case["workers"] > 1, case["x_range"], bool(case.get("cli")), case["crash"] > 0, case["mf"], case["loss"])
    after = snap(root)
    target = root / f"{name}.{ext}"
    extra = {k for k in set(after) ^ set(before) | {k for k in before if k in after and before[k] != after[k]}}
    if not target.exists() or target.stat().st_size < 1000:
        res.viol("file", f"{where}: {target.name} was not written; changed: {sorted(map(str, extra))[:5]}")
        return
    if {Path(str(e)).name for e in extra} != {target.name}:
        res.viol("changed", f"{where}: besides {target.name}, changed {sorted(map(str, extra))[:5]}")
    if len(figs) != 1:
        res.viol("figures", f"{where}: {len(figs)} figures saved")
        return
    fig = figs[0][0]
    axes = [ax for ax in fig.axes if ax.lines]
    if case["sci"]:
        titles = [ax.get_title() for ax in axes]
        if titles != B:
            res.viol("benchmarks", f"{where}: titles {titles}")
            return
    elif len(axes) != 1:
        res.viol("benchmarks", f"{where}: {len(axes)} plots")
        return
    for b, ax in zip(B, axes):
        labels = [ln.get_label() for ln in ax.lines]
        if labels != A:
            res.viol("algorithms", f"{where}: lines {labels}")
            return
        want = ("log" if kw["log_x"] else "linear", "symlog" if case.get("cli") or case["log_y"] else "linear")
        if case.get("cli"):
            want = (want[0], "linear")  # a switch of the command line
        if (ax.get_xscale(), ax.get_yscale()) != want:
            res.viol("scale", f"{where}: scales {ax.get_xscale()}, {ax.get_yscale()} instead of {want}")
        if kw.get("x_range") and not (same(ax.get_xlim()[0], kw["x_range"][0]) or kw["log_x"]) | same(ax.get_xlim()[1], kw["x_range"][1]):
            res.viol("range", f"{where}: x limits {ax.get_xlim()}")
        for a, ln, band in zip(A, ax.lines, ax.collections):
            line(case, res, where + f"; {b}/{a}", [S[b, a, s] for s in range(case["ns"])], max((t["info"]["fidelity"] for s in range(case["ns"]) for t in hist[b, a, s] if t["state"] == "ok")), ln, band, kw.get("x_range"))
    if case["sci"]:
        leg = [t.get_text() for L in fig.legends for t in L.get_texts()]
        if leg != A:
            res.viol("legend", f"{where}: legend {leg}")


def line(case, res, where, S, fmax, ln, band, xr):
    scale = float(fmax) if case["key"] == "fidelity" else 1.0
    S = [[(x / scale, y, n) for x, y, n in st] for st in S]
    X, Y = np.asarray(ln.get_xdata(), dtype=float), np.asarray(ln.get_ydata(), dtype=float)
    inside = lambda x: math.isfinite(x) and (xr is None or xr[0] - 1e-12 <= x <= xr[1] + 1e-12)
    if any(X[i] > X[i + 1] for i in range(len(X) - 1)):
        res.viol("order", f"{where}: x values {X.tolist()[:12]} are not ascending")
        return
    if len(S) > 1:
        res.count("seeds_averaged")
    good = set()
    for i, (x, y) in enumerate(zip(X, Y)):
        if not inside(x):
            continue
        vals = [at(st, x) for st in S]
        if any(v[0] is None for v in vals):
            good.add(x)
            continue
        res.count("points")
        if any(math.isnan(v[0]) for v in vals):  # a seed without any number yet
            good.add(x)
            continue
        now = [v[0] for v in vals]
        ok = same(float(np.mean(now)), y)
        dup = (i and X[i - 1] == x) or (i + 1 < len(X) and X[i + 1] == x)
        if not ok and dup:
            # the ends of the range are drawn besides an evaluation at the same place
            opts = [float(np.mean([v[k] if v[k] is not None and not math.isnan(v[k]) else v[0] for v in vals])) for k in (0, 1)]
            if same(opts[1], y) or min(o for o in opts) - 1e-12 <= y <= max(o for o in opts) + 1e-12:
                continue
        if not ok:
            res.viol("value", f"{where}: at x={x!r} the plot shows {y!r}, the best losses so far are {now} (mean {float(np.mean(now))!r}); {[s[:8] for s in S][:3]}")
            return
        good.add(float(x))
        if math.isfinite(y) and not dup and len(band.get_paths()):
            m = len(now)
            se = float(np.std(now, ddof=1)) / math.sqrt(m) if m > 1 else 0.0
            v = np.concatenate([p.vertices for p in band.get_paths()])
            yy = v[np.isclose(v[:, 0], x, rtol=1e-12, atol=1e-12)][:, 1]
            if len(yy) and not (any(abs(t - (y - se)) < 1e-9 * max(1, abs(y), se) for t in yy) and any(abs(t - (y + se)) < 1e-9 * max(1, abs(y), se) for t in yy)):
                res.viol("error-band", f"{where}: at x={x!r} the band is {sorted(set(yy.tolist()))}, mean {y!r}, standard error {se!r} of {now}")
                return
            res.count("bands")
    first = max(st[0][0] for st in S)
    for st in S:
        for x, y, n in st:
            if inside(x) and x >= first and not (math.isfinite(y) and any(abs(x - g) <= 1e-9 * max(1, abs(x)) for g in good)) and math.isfinite(y):
                res.viol("missing-point", f"{where}: nothing drawn at x={x!r}, where an evaluation ended; drawn at {X.tolist()[:20]}")
                return


def missing(case, d, res, figs):
    import neps

    rng = random.Random(case["seed"])
    root = d / "R"
    w = case["what"]
    kw = {}
    if w != "root":
        p = root if w in ("empty", "failed", "pending") else root / "benchmark=a" / "algorithm=b" / "seed=1" / "neps_root_directory"
        p.parent.mkdir(parents=True, exist_ok=True)
        history({"n": 0 if w == "empty" else 3, "mf": False, "crash": 1 if w == "failed" else 0, "pending": 1 if w == "pending" else 0}, p, rng)
    if w in ("benchmark", "algorithm"):
        kw = {"scientific_mode": True, "benchmarks": ["a", "q"] if w == "benchmark" else ["a"], "algorithms": ["b", "q"] if w == "algorithm" else ["b"]}
    before = snap(d)
    try:
        neps.plot(root, **kw)
    except FileNotFoundError:
        pass
    else:
        res.viol("missing-plotted", f"{w}: nothing to plot, but no FileNotFoundError")
    if snap(d) != before:
        res.viol("missing-changed", f"{w}: the refused plot changed the directory")
    res.count("refused")
    res.sig("missing", w)


def plot3d(case, d, res, figs):
    from neps.plot.plot3D import Plotter3D
    from neps.status.status import post_run_csv

    rng = random.Random(case["seed"])
    root = d / "R"
    hist = history({**case, "mf": True}, root, rng)
    ok = [h for h in hist if h["state"] == "ok"]
    if not ok:
        return
    post_run_csv(root)
    name = rng.choice(["freeze_thaw", "x"])
    before = snap(root)
    Plotter3D(run_path=root, fidelity_key="e").plot3D(**({"filename": name} if name != "freeze_thaw" else {}))
    changed = {Path(str(k)).name for k in set(snap(root)) ^ set(before)}
    if changed != {f"Plot3D_{name}.png"}:
        res.viol("file-3d", f"wrote {sorted(changed)}")
    fig = figs[-1][0]
    flat = next(ax for ax in fig.axes if ax.get_xlabel() == "e" and ax.name != "3d")
    off = 1
    want = {}
    for c in {h["c"] for h in hist}:
        pts = sorted((h["r"] + off, h["loss"]) for h in ok if h["c"] == c)
        if len(pts) >= 2:
            want[c] = pts
    segs = []
    for col in flat.collections:
        if hasattr(col, "get_segments"):
            segs.append([tuple(map(float, p)) for s in col.get_segments() for p in s])
    for c, pts in want.items():
        flatpts = [p for a, b in zip(pts, pts[1:]) for p in (a, b)]
        if not any(len(s) >= len(flatpts) and [p for p in s if not math.isnan(p[1])][: len(flatpts)] == [tuple(map(float, p)) for p in flatpts] for s in segs):
            res.viol("curve-3d", f"learning curve {pts} of configuration {c} is not drawn; drawn {[s[:4] for s in segs][:5]}")
            return
        res.count("lines3d")
    if len(segs) < len(want):
        res.viol("curve-3d", f"{len(segs)} curves for {len(want)} configurations")
    res.sig("3d", len(want), case["crash"] > 0)
