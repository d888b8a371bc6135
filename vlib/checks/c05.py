"""C05: what the pipeline returns / receives is what is stored and reloaded."""
from __future__ import annotations

import collections
import copy
import functools
import math
import os
import pickle
import random
import types
from pathlib import Path

from vlib import gen, mw

LEVEL = "exploration"
RULE = ("a case is one real neps.run on a generated space whose pipeline returns generated values; every returned value, received "
        "configuration and injected argument is compared with the report in memory, after reload by the same and by another "
        "process; distinct_nontrivial counts distinct shapes of returned values")
ASSUMPTIONS = ["extra data are mappings, sequences, strings, numbers, booleans, None, numpy and torch values; sequences come back as lists and numpy/torch values as the plain values they hold"]
MIN = {"quick": {"evaluations": 300, "extra_entries": 200, "injection_checks": 100}}


def cases(tier, seed):
    rng = random.Random(f"c05-{seed}")
    for _ in range(160 if tier == "quick" else 3000):
        yield {"seed": rng.randrange(1 << 30), "n": rng.choice([2, 3, 4]), "sig": rng.choice(SIGS), "searcher": rng.choice(["random_search", "random_search", "hyperband"])}


SIGS = ["kwargs", "both", "dir", "prev", "kwonly", "partial", "object", "default"]


def gen_num(rng):
    import numpy as np
    import torch

    v = rng.choice([0.0, -0.0, 1.5, -3.25, 1e-320, 1e308, math.inf, -math.inf, math.nan, 0.1, 3, -7, 2**60, rng.gauss(0, 1e3)])
    k = rng.choice(["py"] * 4 + ["f64", "f32", "i64", "t64", "a0"])
    fv = float(v)
    with np.errstate(all="ignore"):
        if k == "f64":
            return np.float64(fv)
        if k == "f32":
            return np.float32(fv)
        if k == "i64" and math.isfinite(fv) and abs(fv) < 2**62:
            return np.int64(int(fv))
        if k == "t64":
            return torch.tensor(fv, dtype=torch.float64)
        if k == "a0":
            return np.array(fv)
    return v


STRINGS = ["", "x", "a: b", "- x", "yes", "null", "1e5", "1.0", "ü→", "multi\nline\n", "  lead", "tab\t", "'\"", "#c", "\x07", "%s", "{a}", "0o17", "=", "!tag", "&a", "*b", "a" * 500, "\u2028", "é\r\nf"]


def gen_plain(rng, depth=0):
    import numpy as np
    import torch

    k = rng.choice(["num"] * 4 + ["str", "bool", "none"] + (["list", "dict", "tuple", "arr", "tens", "npscal", "npbool"] if depth < 3 else []))
    if k == "num":
        return gen_num(rng)
    if k == "str":
        return rng.choice(STRINGS)
    if k == "bool":
        return rng.random() < 0.5
    if k == "none":
        return None
    if k == "list":
        return [gen_plain(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    if k == "tuple":
        return tuple(gen_plain(rng, depth + 1) for _ in range(rng.randint(0, 3)))
    if k == "arr":
        return np.random.RandomState(rng.randrange(1000)).rand(rng.randint(0, 3), 2)
    if k == "tens":
        return torch.arange(rng.randint(0, 4)).reshape(-1, 1)
    if k == "npscal":
        return np.float32(rng.random())
    if k == "npbool":
        return np.bool_(rng.random() < 0.5)
    return {rng.choice(["k", "x y", "1", "ü", "loss", "null", "a.b", 3]): gen_plain(rng, depth + 1) for _ in range(rng.randint(0, 3))}


def gen_return(rng):
    import numpy as np

    if rng.random() < 0.25:
        return gen_num(rng)
    d = {"loss": gen_num(rng)}
    if rng.random() < 0.5:
        d["cost"] = rng.choice([gen_num(rng), None, 0, 1.5])
    lc = None
    if rng.random() < 0.4:
        lc = [gen_num(rng) for _ in range(rng.randint(0, 4))]
        lc = rng.choice([lc, tuple(lc), np.array([float(x) for x in lc]), None])
        if rng.random() < 0.3:
            d["info_dict"] = {"learning_curve": lc, "other": gen_plain(rng)}
        else:
            d["learning_curve"] = lc
    for _ in range(rng.randint(0, 3)):
        d[rng.choice(["info_dict", "acc", "note", "nested", "x y", "err", "state", "extra"])] = gen_plain(rng) if rng.random() < 0.7 else {"a": gen_plain(rng)}
    if "info_dict" in d and not isinstance(d["info_dict"], dict):
        d["info_dict"] = {"v": d["info_dict"]}
    items = list(d.items())
    rng.shuffle(items)
    d = dict(items)
    r = rng.random()
    if r < 0.15:
        return collections.OrderedDict(d)
    if r < 0.25:
        return types.MappingProxyType(d)
    return d


def norm(v):
    import numpy as np
    import torch

    if isinstance(v, collections.abc.Mapping):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (np.ndarray, np.generic, torch.Tensor)):
        return norm(v.tolist())
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(map(repr, a)) == set(map(repr, b)) and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float):
        return type(b) is float and ((math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b)))
    return type(a) is type(b) and a == b


def expected(r):
    """loss, cost, learning curve and extra according to the documented contract."""
    if isinstance(r, collections.abc.Mapping):
        extra = {k: v for k, v in r.items() if k not in ("loss", "cost", "learning_curve")}
        loss = float(r["loss"])
        cost = r.get("cost")
        if "learning_curve" in r:
            lc = r["learning_curve"]
        elif "info_dict" in r and "learning_curve" in r["info_dict"]:
            lc = r["info_dict"]["learning_curve"]
            extra["info_dict"] = {k: v for k, v in extra["info_dict"].items() if k != "learning_curve"}
        else:
            lc = [loss]
        return loss, None if cost is None else float(cost), None if lc is None else [float(x) for x in lc], norm(extra)
    return float(r), None, [float(r)], {}


def shape(v):
    if isinstance(v, collections.abc.Mapping):
        return (type(v).__name__, sorted((str(k), shape(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [shape(x) for x in v])
    return type(v).__name__


def deep_same(a, b):
    """Unmodified? (arrays by value, types unchanged)"""
    return type(a) is type(b) and shape(a) == shape(b) and same(norm(a), norm(b))


def run_case(case, d, res):
    import neps
    from neps.state.filebased import load_filebased_neps_state

    rng = random.Random(case["seed"])
    spec = gen.gen_space(rng, fid=case["searcher"] == "hyperband")
    rets = [gen_return(rng) for _ in range(case["n"])]
    if case["seed"] % 3 == 0:  # the pipeline hands out the very same object every time
        rets = [rets[0]] * case["n"]
    keep = [copy.deepcopy(dict(r)) if isinstance(r, collections.abc.Mapping) else copy.deepcopy(r) for r in rets]
    root = d / "root"
    calls = []

    def body(got, asked):
        calls.append((dict(got), asked))
        return rets[len(calls) - 1]

    if case["sig"] == "kwargs":
        def fn(**kw):
            return body(kw, ())
    elif case["sig"] == "both":
        def fn(pipeline_directory, previous_pipeline_directory, **kw):
            return body(kw, (("pipeline_directory", pipeline_directory), ("previous_pipeline_directory", previous_pipeline_directory)))
    elif case["sig"] == "dir":
        def fn(pipeline_directory, **kw):
            return body(kw, (("pipeline_directory", pipeline_directory),))
    elif case["sig"] == "prev":
        def fn(previous_pipeline_directory, **kw):
            return body(kw, (("previous_pipeline_directory", previous_pipeline_directory),))
    elif case["sig"] == "kwonly":
        def fn(*, pipeline_directory, **kw):
            return body(kw, (("pipeline_directory", pipeline_directory),))
    elif case["sig"] == "partial":
        def fn0(myarg, pipeline_directory, **kw):
            assert myarg == 7
            return body(kw, (("pipeline_directory", pipeline_directory),))
        fn = functools.partial(fn0, 7)
    elif case["sig"] == "object":
        class Obj:
            def __call__(self, pipeline_directory, **kw):
                return body(kw, (("pipeline_directory", pipeline_directory),))
        fn = Obj()
    else:
        def fn(pipeline_directory=None, previous_pipeline_directory="unset", **kw):
            return body(kw, (("pipeline_directory", pipeline_directory), ("previous_pipeline_directory", previous_pipeline_directory)))

    mw.seed_all(case["seed"] % 1000)
    neps.run(fn, root_directory=root, pipeline_space=gen.build(spec), searcher=case["searcher"], max_evaluations_total=case["n"], post_run_summary=False, ignore_errors=False)
    st = load_filebased_neps_state(root)
    trials = sorted(st.get_all_trials().values(), key=lambda t: t.metadata.time_started)
    if len(trials) != case["n"] or len(calls) != case["n"]:
        res.viol("evaluations-missing", f"{len(calls)} evaluations, {len(trials)} trials, expected {case['n']}")
        return
    other = in_other_process(root)
    for r, k, (got, asked), t in zip(rets, keep, calls, trials):
        res.count("evaluations")
        loss, cost, lc, extra = expected(k)
        if isinstance(k, collections.abc.Mapping):
            res.count("extra_entries", len(extra))
        res.sig(shape(k))
        for who, rep in (("same process", pickle.dumps(t.report)), ("another process", pickle.dumps(other[t.id].report))):
            rep = pickle.loads(rep)
            if rep is None or rep.reported_as != "success":
                res.viol("not-recorded", f"{who}: no successful report for {k!r}")
                continue
            for nm, a, b in (("loss", loss, rep.loss), ("cost", cost, rep.cost), ("learning_curve", lc, rep.learning_curve), ("extra", extra, rep.extra)):
                if not same(a, b):
                    res.viol(f"{nm}-changed", f"{who}: returned {k!r}: expected {nm} {a!r}, recorded {b!r}")
            if not (rep.err is None and rep.tb is None):
                res.viol("error-on-success", f"{rep.err!r}")
        if not deep_same(dict(r) if isinstance(r, collections.abc.Mapping) else r, k):
            res.viol("user-object-modified", f"returned object was {k!r}, now {r!r}")
        cfg = dict(t.config)
        if not same(norm(cfg), dict(got)) or any(type(cfg[x]) is not type(got[x]) for x in cfg):
            res.viol("config-changed", f"evaluated with {got!r}, stored {cfg!r}")
        bad = gen.check_config(spec, got)
        if bad:
            res.viol("config-illegal", f"pipeline received {got!r}: {bad}")
        want = {"pipeline_directory": Path(t.metadata.location), "previous_pipeline_directory": Path(t.metadata.previous_trial_location) if t.metadata.previous_trial_location else None}
        for nm, v in asked:
            res.count("injection_checks")
            if v != want[nm] or (v is not None and not isinstance(v, Path)):
                res.viol("wrong-injection", f"{nm} was {v!r}, expected {want[nm]!r}")
        if Path(t.metadata.location).resolve() != (root / "configs" / f"config_{t.id}").resolve():
            res.viol("wrong-location", f"{t.id}: {t.metadata.location}")
        # what searchers see
        from neps.search_spaces.search_space import SearchSpace

        cr = t.into_config_result(SearchSpace(**gen.build(spec)).from_dict)
        if not same(loss, cr.result["loss"]) or not same(cost, cr.result["cost"]) or not same(cfg, norm(cr.config.hp_values())):
            res.viol("searcher-view", f"searcher sees {cr.result!r} / {cr.config.hp_values()!r} for loss {loss} cost {cost} config {cfg}")
    res.sample = {"case": case, "space": spec, "returned": repr(keep[0])[:300]}


def in_other_process(root):
    """Load the trials in a forked process and ship them back pickled."""
    from neps.state.filebased import load_filebased_neps_state

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            data = pickle.dumps({k: v for k, v in load_filebased_neps_state(root).get_all_trials().items()})
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)
