"""C23: run arguments mean the same from Python, a settings file or the command line; searcher selection and its arguments."""
from __future__ import annotations

import json
import math
import os
import random
import sys
import time
from pathlib import Path

from vlib import mw
from vlib.checks.c07 import in_child, snap

LEVEL = "exploration"
RULE = ("a case generates values for a subset of the run arguments and spreads them over Python arguments, a settings file (nested, with empty and "
        "overridden entries) and command-line options, runs the real neps.run, and compares directory, evaluations, recorded results, error handling, "
        "summary, hooks, recorded searcher and the searcher's constructor arguments with those the values stand for; rejected cases must fail before "
        "anything is evaluated or changed; distinct_nontrivial counts distinct (sources, arguments, searcher) combinations")
ASSUMPTIONS = ["the documented default arguments of a searcher are those of its file in neps/optimizers/default_searchers at the time of writing"]
MIN = {"quick": {"runs": 250, "from_yaml": 120, "from_cli": 40, "overridden": 40, "rejected": 80, "auto": 25, "named": 120, "catalogue_entries": 80}}
CASE_TIMEOUT = 120

MF = dict(eta=3, initial_design_type="max_budget", random_interleave_prob=0.0, sample_default_first=False, sample_default_at_target=False)
PB = dict(prior_confidence="medium", prior_weight_type="geometric", inc_sample_type="mutation", inc_mutation_rate=0.5, inc_mutation_std=0.25, inc_style="dynamic")
MODEL = dict(surrogate_model="gp", acquisition="EI", log_prior_weighted=False)
DOC = {  # name -> (strategy, documented default arguments)
    "random_search": ("random_search", dict(use_priors=False, ignore_fidelity=True)),
    "bayesian_optimization": ("bayesian_optimization", dict(initial_design_size=None, use_cost=False, use_priors=False, sample_default_first=False, device=None)),
    "pibo": ("pibo", dict(initial_design_size=None, use_cost=False, use_priors=True, sample_default_first=True, device=None)),
    "asha": ("asha", dict(MF, early_stopping_rate=0, use_priors=False)),
    "successive_halving": ("successive_halving", dict(MF, early_stopping_rate=0, use_priors=False)),
    "hyperband": ("hyperband", dict(MF, use_priors=False)),
    "asha_prior": ("asha_prior", dict(MF, early_stopping_rate=0, prior_confidence="medium")),
    "successive_halving_prior": ("successive_halving_prior", dict(MF, early_stopping_rate=0, prior_confidence="medium")),
    "mobster": ("mobster", dict(**MF, **MODEL, use_priors=False, acquisition_sampler="random")),
    "priorband": ("priorband", {**MF, **PB, "sample_default_first": True, "model_based": False}),
    "grid_search": ("grid_search", dict(grid_step_size=4)),  # has no defaults file, only by strategy in a file
    "priorband_bo": ("priorband", {**MF, **PB, **MODEL, "sample_default_first": True, "model_based": True, "modelling_type": "joint", "initial_design_size": 10, "acquisition_sampler": "mutation"}),
}
NEEDS = {"random_search": (None, None), "grid_search": (None, None), "bayesian_optimization": (None, False), "pibo": (True, False)}  # (prior, fidelity); the others below
for _s in ("asha", "successive_halving", "hyperband", "mobster"):
    NEEDS[_s] = (None, True)
for _s in ("asha_prior", "successive_halving_prior", "priorband", "priorband_bo"):
    NEEDS[_s] = (True, True)
KW = {"eta": [2, 3, 4], "early_stopping_rate": [0, 1], "sample_default_first": [False], "random_interleave_prob": [0.0, 0.25, 0.5], "prior_confidence": ["low", "high"],
      "initial_design_size": [2, 3, 5], "ignore_fidelity": [True], "inc_mutation_rate": [0.2, 0.9], "inc_mutation_std": [0.1, 0.4], "inc_style": ["constant", "dynamic"],
      "use_cost": [False], "grid_step_size": [3, 5], "initial_design_type": ["max_budget", "unique_configs"], "prior_weight_type": ["linear", "geometric"]}
STATIC = ["overwrite_working_directory", "post_run_summary", "development_stage_id", "task_id", "max_evaluations_total", "max_evaluations_per_run",
          "continue_until_max_evaluation_completed", "max_cost_total", "ignore_errors", "loss_value_on_error", "cost_value_on_error"]
DEFAULT = {"overwrite_working_directory": False, "post_run_summary": True, "development_stage_id": None, "task_id": None, "max_evaluations_total": None, "max_evaluations_per_run": None,
           "continue_until_max_evaluation_completed": False, "max_cost_total": None, "ignore_errors": False, "loss_value_on_error": None, "cost_value_on_error": None}


def gen_value(rng, k):
    return {
        "overwrite_working_directory": lambda: rng.random() < 0.4, "post_run_summary": lambda: rng.random() < 0.5,
        "development_stage_id": lambda: rng.choice([1, 7, "a", "stage_x"]), "task_id": lambda: rng.choice([0, 3, "t1"]),
        "max_evaluations_total": lambda: rng.choice([1, 2, 3, 4, 5]), "max_evaluations_per_run": lambda: rng.choice([1, 2, 3]),
        "continue_until_max_evaluation_completed": lambda: rng.random() < 0.6, "max_cost_total": lambda: rng.choice([1, 2, 3, 1.5, 2.25]),
        "ignore_errors": lambda: rng.random() < 0.6, "loss_value_on_error": lambda: rng.choice([0.0, 1.5, 100.0, -3.25]), "cost_value_on_error": lambda: rng.choice([0.0, 0.5, 2.0]),
    }[k]()


def gen_args(rng):
    a = {k: gen_value(rng, k) for k in STATIC if rng.random() < 0.4}
    if "max_evaluations_total" not in a and ("max_cost_total" not in a or rng.random() < 0.5):
        a["max_evaluations_total"] = gen_value(rng, "max_evaluations_total")
    if "max_evaluations_total" not in a:  # a failing evaluation without a cost must not run for ever
        a["ignore_errors"] = False
    return a


def gen_space(rng, prior, fid):
    # priors have to be given for all parameters, if any
    pr = lambda v: dict(default=v, default_confidence=rng.choice(["low", "medium", "high"])) if prior else {}
    s = {"x": dict(type="float", lower=0.0, upper=1.0, **pr(0.25)), "c": dict(type="categorical", choices=["a", "b", "q"], **pr("b")), "k": dict(type="constant", value=rng.choice([3, "s"]))}
    if rng.random() < 0.5:
        s["n"] = dict(type="int", lower=1, upper=40, log=rng.random() < 0.5, **pr(7))
    if fid:
        s["e"] = dict(type="int", lower=1, upper=9, is_fidelity=True)
        if rng.random() < 0.3:  # documented to be ignored
            s["e"]["default"] = 3
    items = list(s.items())
    rng.shuffle(items)
    return dict(items)


def cases(tier, seed):
    rng = random.Random(f"c23-{seed}")
    out = []
    for i in range(330 if tier == "quick" else 3300):
        mode = ["py", "yaml", "mix", "mix", "cli", "clionly"][i % 6]
        auto = rng.random() < 0.2
        if auto:
            prior, fid = rng.random() < 0.5, rng.random() < 0.5
            form, name = rng.choice(["omit", "default", "none"] if mode in ("py",) else ["omit", "default"]), None
        else:
            name = rng.choice(["random_search"] * 3 + sorted(DOC))
            p, f = NEEDS[name]
            prior, fid = (rng.random() < 0.5 if p is None else p), (rng.random() < 0.5 if f is None else f)
            form = rng.choice(["name", "name", "dict", "file", "class", "instance"] if mode != "clionly" else ["name", "name", "file"])
            if name == "grid_search":
                form = "file"
            if form == "instance" and mode in ("yaml", "cli"):
                form = "class"
        kw = {}
        if name:
            for k in sorted(DOC[name][1]):
                if k in KW and rng.random() < 0.3:
                    kw[k] = rng.choice(KW[k])
        args = gen_args(rng)
        src = {k: ("py" if mode in ("py", "clionly") else "yaml" if mode == "yaml" else rng.choice(["py", "yaml"])) for k in [*args, "run_pipeline", "root_directory", "pipeline_space", "searcher"]}
        over = {k: gen_value(rng, k) for k in args if src[k] == "py" and mode in ("mix", "cli") and rng.random() < 0.5 and not (k in ("max_evaluations_total", "max_cost_total"))}
        for k in ("max_evaluations_total", "max_cost_total"):
            if k in args and src[k] == "py" and mode in ("mix", "cli") and rng.random() < 0.5:
                over[k] = gen_value(rng, k)
        cli = mode in ("cli", "clionly")
        if cli:  # flags can only be switched on, ids are strings and numbers floats on a command line
            for k in ("overwrite_working_directory", "continue_until_max_evaluation_completed", "ignore_errors"):
                if src.get(k) == "py" and not args[k]:
                    if mode == "clionly":
                        del args[k]
                        over.pop(k, None)
                    else:
                        src[k] = "yaml"
                        over.pop(k, None)
        hooks = rng.choice([None, None, ["h1"], ["h1", "h2"]]) if not (cli and src["searcher"] == "py" and mode == "clionly") else None
        out.append({"kind": "run", "mode": mode, "space": gen_space(rng, prior, fid), "space_form": rng.choice(["dict", "file", "cs"]) if src["pipeline_space"] == "py" else rng.choice(["inline", "file", "object"]),
                    "auto": auto, "form": form, "name": name, "kw": kw, "kwsrc": rng.choice(["py", "yaml", "both"]), "args": args, "src": src, "over": over, "hooks": hooks, "yover": rng.random() < 0.3,
                    "prior_n": rng.choice([0, 0, 1, 2]) if name == "random_search" else 0, "busy": rng.choice([0, 1]), "fail": rng.choice([None, None, 0, 1, 2]), "nest": rng.random() < 0.5, "empties": rng.random() < 0.4,
                    "custom_name": rng.choice([None, None, "my searcher"]), "seed": rng.randrange(1 << 30)})
    for i in range(100 if tier == "quick" else 600):
        out.append({"kind": "reject", "what": REJECT[i % len(REJECT)], "mode": rng.choice(["mix", "yaml", "py"]), "populated": rng.random() < 0.5, "overwrite": rng.random() < 0.3, "seed": rng.randrange(1 << 30)})
    for i in range(8 if tier == "quick" else 40):
        out.append({"kind": "catalogue", "seed": rng.randrange(1 << 30)})
    rng.shuffle(out)
    return out


REJECT = ["unknown yaml key", "unknown nested yaml key", "yaml type", "missing pipeline", "missing root", "missing space", "missing budget", "unknown searcher", "unknown searcher argument",
          "missing object", "missing module", "missing settings file", "bad space", "searcher type", "unknown strategy", "not yaml", "class type", "working_directory"]
ILL = {"max_evaluations_total": ["ten", 2.5, [1]], "max_evaluations_per_run": ["x", 1.5], "max_cost_total": ["much", [1]], "overwrite_working_directory": ["yes please", 1, 0.0], "post_run_summary": ["no thanks", 0],
       "ignore_errors": ["maybe", 1], "loss_value_on_error": ["high", [1.0]], "cost_value_on_error": ["high"], "continue_until_max_evaluation_completed": ["yep", 2], "root_directory": [3, 1.5]}

PIPE = '''
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
FAIL = {fail!r}
def pipeline(**config):
    with open(os.path.join(HERE, "log.jsonl"), "a+") as f:
        f.seek(0)
        n = len(f.readlines())
        f.write(json.dumps(config) + "\\n")
    if n == FAIL:
        raise ValueError("planned failure")
    return {{"loss": float(n) + 0.5, "cost": 1.0}}
def other_pipeline(**config):
    with open(os.path.join(HERE, "wrong.txt"), "a") as f:
        f.write("called")
    return 0.0
def h1(opt):
    with open(os.path.join(HERE, "hooks.txt"), "a") as f:
        f.write("h1 " + type(opt).__name__ + "\\n")
    return opt
def h2(opt):
    with open(os.path.join(HERE, "hooks.txt"), "a") as f:
        f.write("h2 " + type(opt).__name__ + "\\n")
    return opt
def build():
    import neps
    sp = {space!r}
    out = {{}}
    for k, v in sp.items():
        v = dict(v)
        t = v.pop("type")
        out[k] = dict(float=neps.Float, int=neps.Integer, categorical=neps.Categorical, constant=neps.Constant)[t](**v)
    return out
space = build()
from neps.optimizers.random_search.optimizer import RandomSearch
class Mine(RandomSearch):
    def __init__(self, pipeline_space, alpha=1, beta="b", **kw):
        super().__init__(pipeline_space=pipeline_space)
        with open(os.path.join(HERE, "mine.jsonl"), "a") as f:
            f.write(json.dumps(dict(alpha=alpha, beta=beta, kw=kw, params=sorted(pipeline_space.keys()))) + "\\n")
'''


def build_space(spec):
    import neps

    cls = dict(float=neps.Float, int=neps.Integer, categorical=neps.Categorical, constant=neps.Constant)
    return {k: cls[v["type"]](**{a: b for a, b in v.items() if a != "type"}) for k, v in spec.items()}


def cs_space(spec):
    """As a ConfigSpace space (it has neither fidelities nor prior confidences)."""
    import ConfigSpace as CS

    cs = CS.ConfigurationSpace()
    for k, v in spec.items():
        if v["type"] == "constant":
            h = CS.Constant(k, v["value"])
        elif v["type"] == "categorical":
            h = CS.CategoricalHyperparameter(k, v["choices"], **({"default_value": v["default"]} if "default" in v else {}))
        elif v["type"] == "int":
            h = CS.UniformIntegerHyperparameter(k, v["lower"], v["upper"], log=v.get("log", False))
        else:
            h = CS.UniformFloatHyperparameter(k, v["lower"], v["upper"], log=v.get("log", False))
        (cs.add if hasattr(cs, "add") else cs.add_hyperparameter)(h)
    return cs


def as_yaml(spec):
    return {k: (v["value"] if v["type"] == "constant" else v) for k, v in spec.items()}


def yaml_dump(path, data):
    import yaml

    path.write_text(yaml.safe_dump(data, sort_keys=False))


def install_spy(log):
    """Records the effective constructor arguments of the searcher that is built."""
    import functools
    import inspect

    from neps.optimizers import SearcherMapping

    depth = [0]
    for cls in {c.func if isinstance(c, functools.partial) else c for c in SearcherMapping.values()}:
        def wrap(cls=cls, init=cls.__init__):
            sig = inspect.signature(init)

            @functools.wraps(init)
            def spy(self, *a, **k):
                depth[0] += 1
                try:
                    if depth[0] == 1:
                        b = sig.bind(self, *a, **k)
                        b.apply_defaults()
                        args = dict(b.arguments)
                        args.update(args.pop("kwargs", {}) or {})
                        sp = args.pop("pipeline_space", None)
                        args.pop("self")
                        with open(log, "a") as f:
                            f.write(json.dumps({"cls": type(self).__name__, "space": {n: repr_param(p) for n, p in sp.hyperparameters.items()}, "args": args,
                                                "given": sorted(set(k)), "defaults": {n: p.default for n, p in sig.parameters.items() if p.default is not inspect._empty}}, default=repr) + "\n")
                    return init(self, *a, **k)
                finally:
                    depth[0] -= 1
            cls.__init__ = spy
        wrap()


def repr_param(p):
    out = {"type": type(p).__name__.lower().replace("parameter", ""), "fid": bool(p.is_fidelity)}
    for a in ("lower", "upper", "log", "choices", "value", "default"):
        if a == "value" and out["type"] != "constant" or a == "default" and out["type"] == "constant":
            continue
        if hasattr(p, a):
            v = getattr(p, a)
            out[a] = list(v) if isinstance(v, tuple) else v
    return out


def want_param(v):
    t = {"float": "float", "int": "integer", "categorical": "categorical", "constant": "constant"}[v["type"]]
    out = {"type": t, "fid": bool(v.get("is_fidelity", False))}
    if t in ("float", "integer"):
        out.update(lower=v["lower"], upper=v["upper"], log=v.get("log", False), default=v.get("default"))
    elif t == "categorical":
        out.update(choices=list(v["choices"]), default=v.get("default"))
    else:
        out.update(value=v["value"])
    return out


def run_case(case, d, res):
    return {"reject": reject, "catalogue": catalogue}.get(case["kind"], accept)(case, d, res)


def catalogue(case, d, res):
    """SearcherConfigs tells what neps.run uses, in whatever order the directory is listed."""
    import yaml
    from neps.optimizers.info import SearcherConfigs

    rng = random.Random(case["seed"])
    real = Path.iterdir

    def shuffled(self):
        fs = sorted(real(self))
        rng.shuffle(fs)
        return iter(fs)

    Path.iterdir = shuffled
    try:
        names = SearcherConfigs.get_searchers()
        want = sorted(n for n in DOC if n != "grid_search")
        if len(names) != len(set(names)) or set(want) - set(names):
            res.viol("catalogue:searchers", f"{sorted(names)} are listed, {want} are documented")
        algs = SearcherConfigs.get_available_algorithms()
        if sorted(algs) != sorted(set(algs)) or {DOC[n][0] for n in want} - set(algs):
            res.viol("catalogue:algorithms", f"{sorted(algs)} are listed, {sorted({DOC[n][0] for n in want})} are documented")
        for n in rng.sample(want, len(want)):
            text = SearcherConfigs.get_searcher_kwargs(n)
            got = dict(yaml.safe_load(text))
            strategy = got.pop("strategy", None)
            got = {k: None if v == "None" else v for k, v in got.items()}
            if strategy != DOC[n][0] or got != DOC[n][1]:
                res.viol("catalogue:arguments", f"{n} is shown as {strategy} with {got}, it is {DOC[n][0]} with {DOC[n][1]}")
            res.count("catalogue_entries")
        for alg in algs:
            users = SearcherConfigs.get_searcher_from_algorithm(alg)
            exp = {n for n in want if DOC[n][0] == alg}
            if len(users) != len(set(users)) or exp - set(users) or (set(users) - exp) & set(want):
                res.viol("catalogue:users", f"{sorted(users)} are said to use {alg}, {sorted(exp)} do")
        for bad in ("", "a", "bayes", "nothing_like_that", "grid"):
            try:
                t = SearcherConfigs.get_searcher_kwargs(bad)
                res.viol("catalogue:unknown", f"there is a configuration of {bad!r}: {t[:80]!r}")
            except FileNotFoundError:
                pass
    finally:
        Path.iterdir = real
    res.sig("catalogue", tuple(names))


def accept(case, d, res):
    args, src, over, mode = case["args"], dict(case["src"]), case["over"], case["mode"]
    cli, spec, name, form = mode in ("cli", "clionly"), case["space"], case["name"], case["form"]
    sform = case["space_form"]
    if cli and src["pipeline_space"] == "py":
        sform = "file"
    if sform == "cs" and (any(v.get("is_fidelity") or "default_confidence" in v for v in spec.values()) or form == "instance"):
        sform = "dict"
    if form == "instance":
        src["searcher"] = "py"
    if form in ("class", "dict") and cli:
        src["searcher"] = "yaml"
    if form == "none":
        src["searcher"] = "py"
    (d / "pipe.py").write_text(PIPE.format(fail=case["fail"], space=spec))
    base = d / "out" / "root"
    pipe = {"path": str(d / "pipe.py"), "name": "pipeline"}
    y, py = {}, {}
    put = lambda k, v, yv=None: (py if src[k] == "py" else y).__setitem__(k, v if src[k] == "py" else (yv if yv is not None else v))
    for k, v in args.items():
        put(k, v)
    for k, v in over.items():
        y[k] = v
    yaml_dump(d / "space.yaml", as_yaml(spec))
    put("run_pipeline", "PIPELINE", pipe)
    put("root_directory", str(base))
    if src["pipeline_space"] == "py":
        py["pipeline_space"] = sform
    else:
        y["pipeline_space"] = {"inline": as_yaml(spec), "file": str(d / "space.yaml"), "object": {"path": str(d / "pipe.py"), "name": "space"}}[sform]
    # what is overridden by Python must not matter
    if mode in ("mix", "cli") and case["yover"]:
        if src["run_pipeline"] == "py":
            y["run_pipeline"] = {"path": str(d / "pipe.py"), "name": "other_pipeline"}
        if src["root_directory"] == "py":
            y["root_directory"] = str(d / "out" / "elsewhere")
        if src["searcher"] == "py" and form != "omit":
            y["searcher"] = ["asha", {"strategy": "hyperband", "eta": 5}, {"path": str(d / "pipe.py"), "name": "Mine", "alpha": 9}][case["seed"] % 3]
        if src["pipeline_space"] == "py":
            y["pipeline_space"] = {"zzz": {"type": "float", "lower": 0.0, "upper": 2.0}}
    kw = dict(case["kw"])
    ykw, pkw = {}, {}
    if form in ("dict", "file", "class") and src["searcher"] == "yaml" or form in ("dict", "file"):
        for i, (k, v) in enumerate(kw.items()):
            if case["kwsrc"] == "py" and (mode != "yaml"):
                pkw[k] = v
            elif case["kwsrc"] == "both" and mode != "yaml":
                pkw[k] = v
                ykw[k] = next(x for x in [*KW[k], v] if x != v or len(KW[k]) == 1)
            else:
                ykw[k] = v
    else:
        pkw = kw if mode != "yaml" else {}
        kw = pkw
    if form == "class":
        ykw, pkw = {"alpha": 5}, {}
        if mode != "yaml":
            pkw = {"beta": "z"} if case["kwsrc"] != "both" else {"alpha": 7}
        kw = {**ykw, **pkw}
    clskw = None
    if form == "class":
        if src["searcher"] == "yaml":
            y["searcher"] = {"path": str(d / "pipe.py"), "name": "Mine", **ykw}
        else:
            py["searcher"] = "CLASS"
            pkw = {**ykw, **pkw}
        clskw = kw
    elif form == "instance":
        py["searcher"], kw, pkw, ykw = "INSTANCE", {}, {}, {}
    elif form == "file":
        content = {"strategy": DOC[name][0], **DOC[name][1], **ykw}
        if case["custom_name"]:
            content["name"] = case["custom_name"]
        yaml_dump(d / "my_file.yaml", content)
        put("searcher", str(d / "my_file.yaml"))
    elif form == "dict":
        content = {"strategy": name, **ykw}
        if case["custom_name"]:
            content["name"] = case["custom_name"]
        put("searcher", content)
    elif form == "name":
        put("searcher", name)
    elif form == "default":
        put("searcher", "default")
    elif form == "none":
        py["searcher"] = None
    if case["hooks"]:
        if cli or src["searcher"] == "yaml":
            y["pre_load_hooks"] = {h: str(d / "pipe.py") for h in case["hooks"]}
        else:
            py["pre_load_hooks"] = case["hooks"]
    if case["empties"] and y:
        for k in STATIC:
            if k not in y and k not in args and random.Random(case["seed"]).random() < 0.5:
                y[k] = None if case["seed"] % 2 else "None"
    if case["nest"] and y:
        keys = [k for k in y if k in STATIC]
        random.Random(case["seed"]).shuffle(keys)
        grp = {}
        for k in keys[: len(keys) // 2 + 1]:
            grp[k] = y.pop(k)
        if grp:
            y["some group"] = {"inner": grp} if case["seed"] % 3 == 0 else grp
    use_yaml = bool(y) or mode == "yaml"
    if use_yaml:
        yaml_dump(d / "settings.yaml", y)

    # what the arguments stand for
    eff = {**DEFAULT, **args}
    opt_cls = None
    if case["auto"]:
        hasp = any("default" in v for v in spec.values() if v["type"] != "constant" and not v.get("is_fidelity"))
        if sform == "cs":
            hasp = None  # a ConfigSpace parameter always has a default value
        hasf = any(v.get("is_fidelity") for v in spec.values())
        sname = None if hasp is None else (("priorband" if hasf else "pibo") if hasp else ("hyperband" if hasf else "bayesian_optimization"))
        strat, want = (DOC[sname][0], dict(DOC[sname][1])) if sname else (None, None)
        pkw = {"eta": 2} if case["seed"] % 4 == 0 and mode != "yaml" and not cli else {}  # ignored if neps chooses
    elif form in ("class", "instance"):
        sname, strat, want = "baseoptimizer", "Mine" if form == "class" else "RandomSearch", None
    else:
        strat, want = DOC[name][0], {**DOC[name][1], **ykw, **pkw}
        if form == "dict":
            strat = name
        sname = name if form == "name" else (case["custom_name"] or ("my_file" if form == "file" else "custom_" + name))
    root = base
    if eff["task_id"] is not None:
        root = root / f"task_{eff['task_id']}"
    if eff["development_stage_id"] is not None:
        root = root / f"dev_{eff['development_stage_id']}"

    n0 = busy = 0
    if case["prior_n"] and form == "name" and not cli and name == "random_search" and sform != "cs":
        n0, busy = case["prior_n"], case["busy"]
        st, err = in_child(lambda: prior_run(root, case, pkw, n0, busy, eff))
        if err:
            raise RuntimeError(f"prior run failed: {err}")
    before = snap(d / "out") if (d / "out").exists() else {}

    def go():
        import neps

        install_spy(d / "spy.jsonl")
        mw.seed_all(case["seed"])
        sys.path.insert(0, str(d))
        os.chdir(d)
        import importlib

        kwargs = dict(py)
        mod = None
        if {"PIPELINE", "CLASS"} & {v for v in kwargs.values() if isinstance(v, str)} or "pre_load_hooks" in kwargs:
            mod = importlib.import_module("pipe")
        if kwargs.get("run_pipeline") == "PIPELINE" and not cli:
            kwargs["run_pipeline"] = mod.pipeline
        if not cli and "pipeline_space" in kwargs:
            kwargs["pipeline_space"] = {"dict": build_space, "file": lambda s: str(d / "space.yaml"), "cs": cs_space}[sform](spec)
        if kwargs.get("searcher") == "CLASS":
            kwargs["searcher"] = mod.Mine
        if kwargs.get("searcher") == "INSTANCE":
            from neps.optimizers.random_search.optimizer import RandomSearch
            from neps.search_spaces.search_space import SearchSpace

            kwargs["searcher"] = RandomSearch(pipeline_space=SearchSpace(**build_space(spec)))
        if "pre_load_hooks" in kwargs and not cli:
            kwargs["pre_load_hooks"] = [getattr(mod, h) for h in kwargs["pre_load_hooks"]]
        if cli:
            return run_cli(d, kwargs, use_yaml, pkw)
        if use_yaml:
            kwargs["run_args"] = str(d / "settings.yaml") if case["seed"] % 2 else d / "settings.yaml"
        neps.run(**kwargs, **pkw)

    st, err = in_child(go)
    res.count("runs")
    if use_yaml:
        res.count("from_yaml")
    if cli:
        res.count("from_cli")
    if over:
        res.count("overridden")
    res.count("auto" if case["auto"] else "named")
    desc = f"python {sorted(py)} file {sorted(y)} searcher {form}:{name}"
    label = mode
    log = [json.loads(x) for x in (d / "log.jsonl").read_text().splitlines()] if (d / "log.jsonl").exists() else []
    if st:
        res.viol("no-answer", f"[{label}] the run died with status {st}; {desc}")
        return
    # expected course
    fin, cost, run, failed, stop = (0, 0.0, 0, False, None) if eff["overwrite_working_directory"] else (n0, float(n0), 0, False, None)
    live = 0 if eff["overwrite_working_directory"] else busy
    M, per, C = eff["max_evaluations_total"], eff["max_evaluations_per_run"], eff["max_cost_total"]
    recs = []
    while True:
        if M is not None and fin + (0 if eff["continue_until_max_evaluation_completed"] else live) >= M:
            break
        if per is not None and run >= per:
            break
        if C is not None and cost >= C:
            break
        bad = case["fail"] == run
        run += 1
        fin += 1
        if bad:
            recs.append(("crashed", eff["loss_value_on_error"], eff["cost_value_on_error"]))
            cost += eff["cost_value_on_error"] or 0.0
            if not eff["ignore_errors"]:
                failed = True
                break
        else:
            recs.append(("success", float(run - 1) + 0.5, 1.0))
            cost += 1.0
    if failed and not err:
        res.viol("error-policy", f"[{label}] the failing evaluation did not end the run although errors are not ignored; {desc}")
    if err and not failed:
        res.viol("run-failed", f"[{label}] {err}; {desc} {json.dumps({'args': args, 'over': over}, default=repr)}")
        return
    if err and "planned failure" not in json.dumps(err):
        res.viol("run-failed", f"[{label}] failed with another error than the pipeline's: {err}; {desc}")
    if (d / "wrong.txt").exists():
        res.viol("argument-ignored", f"[{label}] the pipeline of the settings file ran although another was given in Python; {desc}")
    if len(log) != run:
        res.viol("argument-effect", f"[{label}] {len(log)} evaluations, the arguments {eff} stand for {run} (recorded before: {n0}+{busy}); {desc}")
        return
    tops = {str(p.relative_to(d / "out")) for p in (d / "out").glob("*")} if (d / "out").exists() else set()
    if tops != {"root"}:
        res.viol("argument-effect", f"[{label}] created {tops} instead of root; {desc}")
        return
    if not (root / "configs").is_dir():
        res.viol("argument-effect", f"[{label}] nothing in {root.relative_to(d)}: {sorted(str(p.relative_to(d)) for p in (d / 'out').rglob('configs'))}; task {eff['task_id']!r} stage {eff['development_stage_id']!r}; {desc}")
        return
    _, trials = mw.load_trials(root)
    got = sorted(((t.state.value, t.report.loss, t.report.cost) for t in trials.values() if t.report is not None and t.metadata.time_end >= t0_of(d)), key=repr)
    if got != sorted(recs, key=repr):
        res.viol("argument-effect", f"[{label}] recorded {got}, expected {recs}; {eff}; {desc}")
    if eff["overwrite_working_directory"] and len(trials) != run:
        res.viol("argument-effect", f"[{label}] {len(trials)} trials after overwriting, {run} evaluated; {desc}")
    if not eff["overwrite_working_directory"] and len(trials) != run + n0 + busy:
        res.viol("argument-effect", f"[{label}] {len(trials)} trials, {run} evaluated and {n0 + busy} before; {desc}")
    sums = list(root.glob("summary*"))
    if bool(sums) != (eff["post_run_summary"] and not failed) and not (n0 and sums):
        res.viol("argument-effect", f"[{label}] summary files {[p.name for p in sums]} with post_run_summary={eff['post_run_summary']}; {desc}")
    for t in trials.values():
        if set(t.config) != set(spec):
            res.viol("argument-effect", f"[{label}] config {t.config} for space {sorted(spec)}; {desc}")
    hk = (d / "hooks.txt").read_text().splitlines() if (d / "hooks.txt").exists() else []
    wanted = case["hooks"] or []
    if wanted and run and ([h.split()[0] for h in hk][: len(wanted)] != wanted or len(hk) % len(wanted)):
        res.viol("argument-effect", f"[{label}] hooks called {hk}, given {wanted}; {desc}")
    if not wanted and hk:
        res.viol("argument-effect", f"[{label}] hooks called {hk}, none given")
    # the searcher
    import yaml

    info = yaml.safe_load((root / ".optimizer_info" / "info.yaml").read_text())
    spy = [json.loads(x) for x in (d / "spy.jsonl").read_text().splitlines()] if (d / "spy.jsonl").exists() else []
    if form == "class":
        mine = [json.loads(x) for x in (d / "mine.jsonl").read_text().splitlines()]
        w = {"alpha": 1, "beta": "b", "kw": {}, **clskw}
        if [{k: m[k] for k in w} for m in mine] != [w] or mine[0]["params"] != sorted(spec):
            res.viol("searcher-arguments", f"[{label}] the searcher class got {mine}, expected {w}; {desc}")
        if {k: v for k, v in info["searcher_args"].items()} != clskw:
            res.viol("searcher-record", f"[{label}] recorded arguments {info['searcher_args']}, given {clskw}; {desc}")
    if sname and (info["searcher_name"] != sname or (strat is not None and info["searcher_alg"] != strat and form not in ("class", "instance"))):
        res.viol("searcher-selection", f"[{label}] recorded {info['searcher_name']!r}/{info['searcher_alg']!r}, expected {sname!r}/{strat!r} for a space with {sorted(k for k, v in spec.items() if 'default' in v)} as priors; {desc}")
        return
    if info["neps_decision_tree"] != case["auto"]:
        res.viol("searcher-record", f"[{label}] recorded that neps chose the searcher: {info['neps_decision_tree']}; {desc}")
    if form not in ("class", "instance"):
        if len(spy) != 1:
            res.viol("searcher-arguments", f"[{label}] {len(spy)} searchers built; {desc}")
            return
        s = spy[0]
        wsp = {k: want_param(v) for k, v in spec.items()}
        if sform != "cs" and s["space"] != json.loads(json.dumps(wsp)):
            res.viol("searcher-arguments", f"[{label}] searcher got the space {s['space']}, declared {wsp}; {desc}")
        if want is not None:
            import functools

            from neps.optimizers import SearcherMapping

            cls = SearcherMapping[strat]
            preset = {}
            if isinstance(cls, functools.partial):
                cls, preset = cls.func, cls.keywords
            if cls.__name__ != s["cls"]:
                res.viol("searcher-selection", f"[{label}] built {s['cls']} for {strat}; {desc}")
            full = {**want, "budget": eff["max_cost_total"], "ignore_errors": eff["ignore_errors"], "loss_value_on_error": eff["loss_value_on_error"], "cost_value_on_error": eff["cost_value_on_error"]}
            for k, v in full.items():
                if s["args"].get(k, "missing") != v:
                    res.viol("searcher-arguments", f"[{label}] searcher {sname} got {k}={s['args'].get(k, 'missing')!r}, expected {v!r}; {desc}")
            for k, v in s["args"].items():
                if k not in full and k not in preset and v != json.loads(json.dumps(s["defaults"].get(k, "missing"), default=repr)):
                    res.viol("searcher-arguments", f"[{label}] searcher {sname} got {k}={v!r} that nobody gave; {desc}")
            if info["searcher_args"] != want:
                res.viol("searcher-record", f"[{label}] recorded arguments {info['searcher_args']}, expected {want}; {desc}")
    res.sig(mode, form, name, sform, sorted(src.items()), sorted(over), sorted(kw), case["hooks"], case["fail"])
    res.sample = {"case": {k: case[k] for k in ("mode", "form", "name", "args", "over", "src")}, "evaluations": run, "info": info}


def t0_of(d):
    p = d / "t0"
    return float(p.read_text()) if p.exists() else 0.0


def prior_run(root, case, pkw, n0, busy, eff):
    """An earlier run of the same searcher on the directory: n0 evaluations and one abandoned in progress."""
    import neps

    mw.seed_all(case["seed"] + 1)
    neps.run(lambda **c: {"loss": 1.0, "cost": 1.0}, root_directory=root, pipeline_space=build_space(case["space"]), searcher="random_search", max_evaluations_total=n0, post_run_summary=False, **pkw)
    if busy:
        from neps.state.filebased import load_filebased_neps_state

        st = load_filebased_neps_state(Path(root))
        t = st.sample_trial(mw.make_optimizer("random_search", build_space(case["space"])), worker_id="prior")
        t = st.get_trial_by_id(t.id)
        t.set_evaluating(time_started=time.time(), worker_id="prior")
        st.put_updated_trial(t)
    (root.parents[[p.name for p in root.parents].index("out")].parent / "t0").write_text(repr(time.time()))


def run_cli(d, kwargs, use_yaml, pkw):
    import contextlib
    import io

    from neps.utils import cli

    argv = ["neps", "run"]
    if use_yaml:
        argv += ["--run-args", str(d / "settings.yaml")]
    for k, v in kwargs.items():
        opt = "--" + k.replace("_", "-")
        if k == "run_pipeline":
            argv += [opt, f"{d / 'pipe.py'}:pipeline"]
        elif k == "pipeline_space":
            argv += [opt, str(d / "space.yaml")]
        elif k == "post_run_summary":
            argv += ["--post-run-summary" if v else "--no-post-run-summary"]
        elif isinstance(v, bool):
            assert v
            argv += [opt]
        elif isinstance(v, float) and v < 0:
            argv += [f"{opt}={v}"]
        else:
            argv += [opt, str(v)]
    if pkw:
        argv += ["--searcher-kwargs", *[f"{k}={v}" for k, v in pkw.items()]]
    sys.argv = argv
    with contextlib.redirect_stdout(io.StringIO()):
        cli.main()


def reject(case, d, res):
    rng = random.Random(f"c23r-{case['seed']}")
    what, mode = case["what"], case["mode"]
    spec = gen_space(rng, False, False)
    (d / "pipe.py").write_text(PIPE.format(fail=None, space=spec))
    yaml_dump(d / "space.yaml", as_yaml(spec))
    root = d / "out" / "root"
    if case["populated"]:
        st, err = in_child(lambda: prior_run(root, {"seed": 1, "space": spec}, {}, 2, 0, None))
        if err:
            raise RuntimeError(err)
    a = {"run_pipeline": {"path": str(d / "pipe.py"), "name": "pipeline"}, "root_directory": str(root), "pipeline_space": str(d / "space.yaml"), "max_evaluations_total": 3, "searcher": "random_search"}
    if case["overwrite"]:
        a["overwrite_working_directory"] = True
    y, py = {}, {}
    for k in a:
        (y if mode == "yaml" or (mode == "mix" and rng.random() < 0.5) else py)[k] = a[k]
    use_yaml = True
    drop = lambda *ks: [(y.pop(k, None), py.pop(k, None)) for k in ks]
    raw = None
    if what == "unknown yaml key":
        y[rng.choice(["max_evals", "searcher_args", "seed", "Max_Evaluations_Total", "budget", "run_args"])] = rng.choice([1, "x", True])
    elif what == "unknown nested yaml key":
        y["group"] = {rng.choice(["max_evals", "number", "max_evaluations_totl"]): 3}
    elif what == "yaml type":
        k = rng.choice(sorted(ILL))
        drop(k)
        y[k] = rng.choice(ILL[k])
        if k == "root_directory":
            pass
    elif what == "missing pipeline":
        drop("run_pipeline")
    elif what == "missing root":
        drop("root_directory")
    elif what == "missing space":
        drop("pipeline_space")
    elif what == "missing budget":
        drop("max_evaluations_total")
    elif what == "unknown searcher":
        drop("searcher")
        (y if rng.random() < 0.5 else py)["searcher"] = rng.choice(["no_such_searcher", "hyper_band", "Random_Search"])
    elif what == "unknown searcher argument":
        drop("searcher")
        if rng.random() < 0.5:
            y["searcher"] = {"strategy": "bayesian_optimization", "no_such_argument": 3}
        else:
            py["searcher"] = "bayesian_optimization"
            py["no_such_argument"] = 3
    elif what == "missing object":
        drop("run_pipeline")
        y["run_pipeline"] = {"path": str(d / "pipe.py"), "name": "nothing_there"}
    elif what == "missing module":
        drop("run_pipeline")
        y["run_pipeline"] = {"path": str(d / "no_such_file.py"), "name": "pipeline"}
    elif what == "missing settings file":
        raw = "missing"
    elif what == "not yaml":
        raw = "a: [1, 2\nb: }"
    elif what == "bad space":
        drop("pipeline_space")
        bad = rng.choice([{"x": {"type": "float", "lower": 1.0, "upper": 0.0}}, {"x": {"type": "floaty", "lower": 0.0, "upper": 1.0}}, {"x": {"type": "float", "lower": 0.0}}, {"x": {"lower": 0.0, "upper": 1.0, "uper": 2}}])
        y["pipeline_space"] = bad
    elif what == "searcher type":
        drop("searcher")
        if rng.random() < 0.5:
            y["searcher"] = rng.choice([3, 1.5, [1]])
        else:
            py["searcher"] = rng.choice([3, 1.5])
    elif what == "unknown strategy":
        drop("searcher")
        y["searcher"] = {"strategy": "no_such_strategy"}
    elif what == "class type":
        drop("searcher")
        y["searcher"] = {"path": str(d / "pipe.py"), "name": rng.choice(["pipeline", "HERE"])} if rng.random() < 0.5 else {"path": "builtins_stub", "name": "x"}
    elif what == "working_directory":
        py["working_directory"] = str(root)
    use_yaml = bool(y) or raw is not None
    if use_yaml and raw != "missing":
        if raw:
            (d / "settings.yaml").write_text(raw)
        else:
            yaml_dump(d / "settings.yaml", y)
    before = snap(d / "out") if (d / "out").exists() else {}

    def go():
        import neps
        import importlib

        sys.path.insert(0, str(d))
        kwargs = dict(py)
        if "run_pipeline" in kwargs:
            kwargs["run_pipeline"] = importlib.import_module("pipe").pipeline
        if use_yaml:
            kwargs["run_args"] = str(d / "settings.yaml")
        neps.run(**kwargs)

    st, err = in_child(go)
    res.count("rejected")
    if st:
        res.viol("no-answer", f"died with {st} on {what}")
    elif err is None:
        res.viol("accepted", f"{what}: accepted; python {py} file {y}")
    if (d / "log.jsonl").exists():
        res.viol("evaluated-before-rejection", f"{what}: evaluated although rejected; python {py} file {y}")
    after = snap(d / "out") if (d / "out").exists() else {}
    if after != before:
        res.viol("changed-before-rejection", f"{what}: files changed although rejected ({len(before)} before, {len(after)} after); python {py} file {y}")
    res.sig(what, mode, case["populated"], case["overwrite"], sorted(py), sorted(y))
