"""C30: what pipelines log through tblogger is written once, unchanged, under the right configuration."""
from __future__ import annotations

import io
import json
import os
import random
from collections import Counter
from pathlib import Path

import numpy as np

from vlib import gen, mw
from vlib.checks.c07 import in_child

LEVEL = "exploration"
RULE = ("a case is a sequence of 1-4 run calls in one process, or several worker processes on one root, whose pipelines log generated losses, epochs, extra scalars and images through tblogger (and succeed, raise, return nonsense or are interrupted); "
        "every event file below the case's directory is then read back and compared as a multiset with the calls recorded inside the pipelines; "
        "distinct_nontrivial counts distinct (searcher, outcome, lineage depth, previous outcome, options of the log call) situations")
ASSUMPTIONS = ["TensorBoard stores scalars as 32-bit floats", "event files are read with TensorBoard's own reader"]
MIN = {"quick": {"log_calls": 2800, "scalars": 5000, "hparams": 1500, "images": 450, "images_compared": 350, "incumbents": 500, "continued": 90, "interrupted_before": 20, "worker_cases": 10, "disabled_calls": 100}}
CASE_TIMEOUT = 120

SEARCHERS = ["random_search", "random_search", "hyperband", "asha", "successive_halving", "priorband"]


def cases(tier, seed):
    rng = random.Random(f"c30-{seed}")
    q = tier == "quick"
    for i in range(128 if q else 1600):
        p = rng.choice([{}, {"error": 0.3}, {"interrupt": 0.15}, {"invalid": 0.1, "interrupt": 0.1}, {"error": 0.2, "interrupt": 0.1, "exit": 0.1}])
        if i % 8 == 7:
            yield {"kind": "workers", "searcher": rng.choice(["random_search", "asha"]), "n": rng.choice([6, 10]), "workers": rng.choice([2, 3]), "spec": space(rng, True), "p": {}, "seed": rng.randrange(1 << 30)}
            continue
        runs = [{"root": rng.choice("AAB"), "searcher": rng.choice(SEARCHERS), "n": rng.choice([3, 5, 8, 12]), "enabled": rng.random() < 0.85, "p": p, "inc": rng.choice([0, 1, 0.5]), "seed": rng.randrange(1 << 30)} for _ in range(rng.randint(1, 4))]
        # what an interrupted trial logged is written at the latest when the next one logs
        runs.append({"root": "Z", "searcher": "random_search", "n": 1, "enabled": True, "p": {}, "inc": 1, "seed": rng.randrange(1 << 30)})
        yield {"kind": "runs", "runs": runs, "spec": space(rng, False), "mfspec": space(rng, True), "seed": rng.randrange(1 << 30)}


def space(rng, fid):
    while True:
        s = gen.gen_space(rng, nmin=2, nmax=4, fid=fid, cat=True)
        f = [v for v in s.values() if v.get("is_fidelity")]
        if (not fid or f[0]["upper"] >= 3 * f[0]["lower"]) and len(str(s)) < 700:
            # a large part of the space is continuous, so that nothing is sampled twice
            s["zz"] = {"type": "float", "lower": 0.0, "upper": 1.0, "log": False, "default": 0.5, "default_confidence": "low"}
            return s


def run_case(case, d, res):
    st, exc = in_child(lambda: (workers if case["kind"] == "workers" else runs)(case, d))
    f = d / "result.json"
    if not f.exists():
        if exc is not None and exc["in_neps"]:
            res.viol("failed:" + exc["chain"][-1]["type"] + "@" + exc["chain"][-1]["where"], exc["msg"], tb=exc["tb"])
        else:
            res.inconclusive = (exc or {}).get("tb", f"status {st}")
        return
    r = json.loads(f.read_text())
    for m, msg in r["viol"]:
        res.viol(m, msg)
    for k, v in r["counts"].items():
        res.count(k, v)
    for s in r["sigs"]:
        res.sig(*s)
    if case["kind"] == "workers":
        res.count("worker_cases")
    if case["seed"] % 8 == 0:
        res.sample = {"case": {k: v for k, v in case.items() if k != "spec"}, "log": r["log"][:6]}


class Log:
    """The calls made in one process and what they should leave on disk."""

    def __init__(self):
        self.viol, self.counts, self.sigs, self.log = [], {}, [], []
        self.scalars, self.hparams, self.images, self.inc = [], [], [], []
        self.last = "none"
        self.finished = {}  # root -> [losses]
        self.inc_trials = {}

    def cnt(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def bad(self, m, msg):
        if len(self.viol) < 10:
            self.viol.append((m, msg))

    def dump(self):
        return {k: getattr(self, k) for k in ("viol", "counts", "sigs", "log", "scalars", "hparams", "images", "inc", "finished")}


def lineage(root, tid):
    ids = [tid]
    while (f := root / "configs" / f"config_{ids[-1]}" / "previous_trial_id.txt").exists():
        ids.append(f.read_text())
    return ids


def rng_state():
    import torch

    s = np.random.get_state()
    return random.getstate(), (s[0], s[1].tobytes(), *s[2:]), torch.random.get_rng_state().numpy().tobytes()


def number(r, v):
    import torch

    k = r.choice(["float", "float", "int", "np32", "np64", "torch"])
    if k == "int":
        return int(v * 10), float(int(v * 10))
    if k == "np32":
        return np.float32(v), float(np.float32(v))
    if k == "np64":
        return np.float64(v), v
    if k == "torch":
        return torch.tensor(v), float(np.float32(v))
    return v, v


def make_pipeline(L: Log, root, r, p, enabled, inc_p, single):
    import torch

    from neps import tblogger
    from neps.utils.common import get_initial_directory  # noqa: F401

    def pipeline(pipeline_directory, **config):
        pd = Path(pipeline_directory)
        tid = pd.name.split("_", 1)[1]
        ids = lineage(root, tid)
        init = root / "configs" / f"config_{ids[-1]}"
        where = f"{root.name}, trial {tid} (continues {ids[1:]})"
        depth = len(ids) - 1
        if depth:
            L.cnt("continued")
        wrote = refused = False
        want_inc = False
        loss = r.choice([r.random(), r.random() * 100, r.uniform(-1, 0)])
        steps = r.choice([0, 1, 2, 3, 5]) if not (enabled and not depth) else r.choice([1, 2, 3, 5])
        first = True
        want_inc_trial = r.random() < inc_p
        for step in range(steps):
            epoch = r.choice([step, step + 10 * depth, step * 2])
            opts = {"writer_config_scalar": r.random() < 0.8 or first, "writer_config_hparam": r.random() < 0.6, "write_summary_incumbent": want_inc_trial}
            first = False
            lv, lf = number(r, r.choice([r.uniform(-5, 5), r.random() * 1e3]))
            extra, esc, eim = {}, [], []
            for name in r.sample(["a", "val_err", "x/y", "lr.decay"], r.choice([0, 0, 1, 2])):
                v, f = number(r, r.uniform(-9, 9))
                extra[name] = tblogger.scalar_logging(v)
                esc.append((name, f))
            if r.random() < 0.25:
                n, h, w = r.randint(1, 6), r.choice([4, 5]), r.choice([4, 6])
                # distinct images whose values survive 8 bits
                g = np.random.RandomState(r.randrange(1 << 30))
                img = torch.tensor(g.randint(1, 255, size=(n, 3, h, w)) / 255.0, dtype=torch.float32)
                kw = {"counter": r.choice([1, 2, 3]), "random_images": r.random() < 0.5, "num_images": r.choice([1, 2, 4, 20])}
                seed = r.choice([1, 2, 7])
                same = r.random() < 0.8
                extra["im"] = tblogger.image_logging(img, resize_images=[h, w] if same else r.choice([None, [8, 8]]), seed=seed, **kw)
                if epoch % kw["counter"] == 0:
                    eim.append(("im", (img.numpy() * 255).round().astype(int).tolist() if same else None, min(n, kw["num_images"]), kw["random_images"], [kw["num_images"], seed, n]))
            if not enabled:
                L.cnt("disabled_calls")
            g0 = rng_state()
            c0 = dict(config)
            try:
                tblogger.log(lv, epoch, extra_data=extra or r.choice([None, {}]), **opts)
            except FileNotFoundError:
                if (init / "tbevents").exists() or not depth or not enabled:
                    raise
                refused = True
                L.cnt("refused")
                break
            if rng_state() != g0:
                L.bad("random-state", f"{where}: logging changed the state of the global random generators ({opts}, {sorted(extra)})")
            if config != c0:
                L.bad("config-changed", f"{where}: logging changed the configuration")
            L.cnt("log_calls")
            L.sigs.append((tblogger.get_status(), depth, L.last, opts["writer_config_scalar"], opts["writer_config_hparam"], len(esc), len(eim)))
            if len(L.log) < 40:
                L.log.append([tid, epoch, lf, opts, sorted(extra)])
            if not enabled:
                continue
            if L.last in ("interrupt", "invalid", "exit") and step == 0:
                L.cnt("interrupted_before")
            want_inc = want_inc_trial
            t = str(init / "tbevents")
            tag = f"config_{ids[-1]}"
            if opts["writer_config_scalar"]:
                L.scalars.append((t, f"{tag}/Loss", epoch, lf))
            if opts["writer_config_hparam"]:
                L.hparams.append((t, {k: v for k, v in config.items()}))
                L.scalars.append((t, "Summary/Loss", epoch, lf))
            for name, f in esc:
                L.scalars.append((t, f"{tag}/{name}", epoch, f))
            for name, arr, k, rand, key in eim:
                L.images.append((t, f"{tag}/{name}", epoch, arr, k, rand, key))
            wrote = True
        out, x = "ok", r.random()
        for o, q in p.items():
            if x < q:
                out = o
                break
            x -= q
        L.last = out
        if out == "interrupt":
            raise KeyboardInterrupt
        if out == "exit":
            raise SystemExit(3)
        if out == "invalid":
            return "nonsense"
        fin = L.finished.setdefault(str(root), [])
        fin.append(loss if out == "ok" else float("inf"))
        if refused:
            L.inc.append((str(root), "any", len(fin), None))
        elif want_inc and wrote:
            n = len(fin)
            L.inc.append((str(root), "must", n, [min([*fin[:-1], float("inf")]), min(fin)]))
        if out == "error":
            raise mw.UserErr("x")
        return float(loss)

    return pipeline


# ---- reading back ----------------------------------------------------------------------------------------------
def read_events(d):
    from tensorboard.backend.event_processing.event_file_loader import LegacyEventFileLoader
    from tensorboard.plugins.hparams.plugin_data_pb2 import HParamsPluginData

    scal, hp, im, odd = [], [], [], []
    for f in sorted(d.rglob("*tfevents*")):
        where = str(f.parent)
        for e in LegacyEventFileLoader(str(f)).Load():
            for v in e.summary.value:
                k = v.WhichOneof("value")
                if v.metadata.plugin_data.plugin_name == "hparams":
                    h = HParamsPluginData.FromString(v.metadata.plugin_data.content)
                    if h.WhichOneof("data") == "session_start_info":
                        hp.append((where, {n: getattr(x, x.WhichOneof("kind")) for n, x in h.session_start_info.hparams.items()}))
                elif k == "simple_value":
                    scal.append((where, v.tag, e.step, v.simple_value, e.wall_time))
                elif k == "image":
                    im.append((where, v.tag, e.step, v.image.encoded_image_string))
                elif k is not None:
                    odd.append((where, v.tag, k))
    return scal, hp, im, odd


def f32(v):
    return float(np.float32(v))


def stable(v):
    """JSON-able form under which equal hyperparameter values coincide."""
    return repr(float(v)) if isinstance(v, (bool, int, float)) else str(v)


def compare(L, d, E, single):
    scal, hp, im, odd = read_events(d)
    for o in odd[:3]:
        L.bad("unknown-event", str(o))
    rel = lambda p: os.path.relpath(p, d)
    inc = [s for s in scal if s[1] == "Summary/Incumbent_graph"]
    got = Counter((rel(w), t, s, f32(v)) for w, t, s, v, _ in scal if t != "Summary/Incumbent_graph")
    want = Counter((rel(w), t, s, f32(v)) for w, t, s, v in E["scalars"])
    L.cnt("scalars", sum(want.values()))
    if got != want:
        L.bad("scalars", f"logged but not written: {list((want - got).items())[:4]}; written but not logged: {list((got - want).items())[:4]}")
    key = lambda w, c: (rel(w), tuple(sorted((k, stable(v)) for k, v in c.items())))
    got, want = Counter(key(*h) for h in hp), Counter(key(*h) for h in E["hparams"])
    L.cnt("hparams", sum(want.values()))
    if got != want:
        L.bad("hparams", f"logged but not written: {list((want - got).items())[:3]}; written but not logged: {list((got - want).items())[:3]}")
    images(L, d, im, E["images"], rel)
    incumbents(L, d, inc, E["inc"], single, E["finished"])


def images(L, d, got, want, rel):
    from PIL import Image

    L.cnt("images", len(want))
    a, b = Counter((rel(w), t, s) for w, t, s, _ in got), Counter((rel(x[0]), x[1], x[2]) for x in want)
    if a != b:
        L.bad("images", f"logged but not written: {list((b - a).items())[:4]}; written but not logged: {list((a - b).items())[:4]}")
        return
    for w, tag, step, arr, k, rand, _key in want:
        cand = [x for x in got if (x[0], x[1], x[2]) == (w, tag, step)]
        if arr is None:
            continue
        arr = np.array(arr)
        best = None
        for c in cand:
            pic = np.array(Image.open(io.BytesIO(c[3])).convert("RGB")).astype(int).transpose(2, 0, 1)
            h, wd = arr.shape[2:]
            if pic.shape[1] < h or pic.shape[2] < wd:
                continue
            win = np.lib.stride_tricks.sliding_window_view(pic, (h, wd), axis=(1, 2))
            found = [i for i in range(len(arr)) if (abs(win - arr[i][:, None, None]).max(axis=(0, 3, 4)) <= 2).any()]
            if len(found) == k and (rand or found == list(range(k))):
                best = found
                break
            best = best or [f"wrong: {found}"]
        if best is None or isinstance(best[0], str):
            L.bad("image-content", f"{rel(w)} {tag} step {step}: {k} of {len(arr)} images expected ({'random' if rand else 'the first ones'}), found {best}")
        else:
            L.cnt("images_compared")


def incumbents(L, d, got, want, single, finished):
    L.cnt("incumbents", len(got))
    for g in got:
        if Path(g[0]).name != "summary" or not (Path(g[0]).parent / "configs").is_dir():
            L.bad("incumbent-place", f"incumbent written to {g[0]}")
    roots = {Path(g[0]).parent for g in got} | {Path(w[0]) for w in want}
    for root in sorted(roots):
        G = sorted((g for g in got if Path(g[0]).parent == root), key=lambda g: g[4])
        W = [w for w in want if Path(w[0]) == root]
        if single:
            i = 0
            for _, kind, n, best in W:
                g = G[i] if i < len(G) else None
                if kind == "any":
                    # the logger refused this trial: a point is neither needed nor wrong
                    if g is not None and g[2] in (n - 1, n) and (i + 1 >= len(G) or len(G) - i > sum(1 for w in W if w[1] == "must" and w[2] > n)):
                        i += 1
                    continue
                if g is None or (g[2], f32(g[3])) not in ((n - 1, f32(best[0])), (n, f32(best[1]))):
                    L.bad("incumbent", f"{root.name}: after {n} evaluations (best loss {best[0]} before, {best[1]} after the last) the trajectory got {g and (g[2], g[3])}; trajectory {[(x[2], x[3]) for x in G]}")
                    break
                i += 1
            else:
                if i < len(G):
                    L.bad("incumbent", f"{root.name}: more points than evaluations asked for: {[(x[2], x[3]) for x in G[i:]][:5]}")
        else:
            # any order of the evaluations of different workers is possible, that of one worker is known
            losses = finished.get(str(root), [])
            final = {f32(x) for x in losses} | {float("inf")}
            for g in G:
                if g[2] > len(losses) or f32(g[3]) not in final or (g[2] == 0) != (g[3] == float("inf")) or (g[2] and sum(f32(x) >= f32(g[3]) for x in losses) < g[2]):
                    L.bad("incumbent", f"{root.name}: point {g[2], g[3]} with evaluations {losses}")
            if len(G) != sum(1 for w in W if w[1] == "must"):
                L.bad("incumbent", f"{root.name}: {len(G)} points for {len(W)} evaluations")


def finish(L, d, E, single):
    compare(L, d, E, single)
    out = L.dump()
    (d / "result.json").write_text(json.dumps({k: out[k] for k in ("viol", "counts", "sigs", "log")}, default=str))


def runs(case, d):
    import neps
    from neps import tblogger

    L = Log()
    for k, run in enumerate(case["runs"]):
        root = d / f"{run['root']}_{run['searcher']}"
        r = random.Random(run["seed"])
        (tblogger.enable if run["enabled"] else tblogger.disable)()
        if tblogger.get_status() != run["enabled"]:
            L.bad("status", f"enabled is {tblogger.get_status()}, asked for {run['enabled']}")
        spec = case["spec"] if run["searcher"] == "random_search" else case["mfspec"]
        if run["searcher"] == "priorband":
            # all parameters need a default
            spec = {k: v for k, v in spec.items() if v["type"] == "const" or v.get("is_fidelity") or "default" in v}
        mw.seed_all(run["seed"])
        L.last = "none" if L.last in ("ok", "error") else L.last
        try:
            neps.run(make_pipeline(L, root, r, run["p"], run["enabled"], run["inc"], True), root_directory=root, pipeline_space=gen.build(spec), searcher=run["searcher"], max_evaluations_total=1000,
                     max_evaluations_per_run=run["n"], ignore_errors=True, post_run_summary=False)
        except (KeyboardInterrupt, SystemExit):
            if L.last not in ("interrupt", "exit"):
                raise
        except Exception:
            if L.last != "invalid":
                raise
    finish(L, d, L.dump(), True)


def workers(case, d):
    import neps

    root = d / "W"
    pids = []
    for w in range(case["workers"]):
        pid = os.fork()
        if pid == 0:
            st = 1
            try:
                L = Log()
                mw.seed_all(case["seed"] + w)
                neps.run(make_pipeline(L, root, random.Random(case["seed"] + w), {}, True, 1, False), root_directory=root, pipeline_space=gen.build({k: v for k, v in case["spec"].items() if case["searcher"] == "asha" or not v.get("is_fidelity")}),
                         searcher=case["searcher"], max_evaluations_total=1000, max_evaluations_per_run=case["n"], ignore_errors=True, post_run_summary=False)
                (d / f"w{w}.json").write_text(json.dumps(L.dump(), default=lambda v: v.item() if hasattr(v, "item") else str(v)))
                st = 0
            except BaseException:
                import traceback

                (d / f"w{w}.err").write_text(traceback.format_exc())
            finally:
                os._exit(st)
        pids.append(pid)
    L = Log()
    E = {"scalars": [], "hparams": [], "images": [], "inc": [], "finished": {}}
    for w, pid in enumerate(pids):
        _, st = os.waitpid(pid, 0)
        if st != 0:
            f = d / f"w{w}.err"
            L.bad("worker-failed", f.read_text()[-1500:] if f.exists() else f"status {st}")
            continue
        x = json.loads((d / f"w{w}.json").read_text())
        L.viol += x["viol"]
        for k, v in x["counts"].items():
            L.cnt(k, v)
        L.sigs += [("workers", *s) for s in x["sigs"]]
        L.log += x["log"][:3]
        for k in ("scalars", "hparams", "images", "inc"):
            E[k] += x[k]
        for k, v in x["finished"].items():
            E["finished"].setdefault(k, []).extend(v)
    if not L.viol:
        compare(L, d, E, False)
    out = L.dump()
    (d / "result.json").write_text(json.dumps({k: out[k] for k in ("viol", "counts", "sigs", "log")}, default=str))
