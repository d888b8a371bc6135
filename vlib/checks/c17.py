"""C17: one search space, many notations; serialising, loading, cloning, changing defaults; illegal input."""
from __future__ import annotations

import copy
import json
import math
import random

from vlib import gen, mw
from vlib.checks.c15 import fp

LEVEL = "exploration"
RULE = ("a case is a generated search space written as Python objects, YAML dictionary, YAML files (typed, untyped, nested, scientific notation) and ConfigSpace, whose parameters are compared "
        "with the generator's specification, plus configurations that are serialised, loaded, cloned and modified, plus generated illegal definitions and values; "
        "distinct_nontrivial counts distinct (parameter kind, notation or operation)")
ASSUMPTIONS = ["strings in scientific notation denote numbers in YAML (documented)", "ConfigSpace hyperparameters always carry a default, which becomes the default here"]
MIN = {"quick": {"spaces": 250, "parameters_compared": 4000, "configs": 1500, "illegal_definitions": 1500, "illegal_values": 1500, "default_changes": 500, "unequal": 800}}


def cases(tier, seed):
    rng = random.Random(f"c17-{seed}")
    for i in range(300 if tier == "quick" else 5000):
        yield {"spec": gen.gen_space(rng, nmin=1, nmax=5), "seed": rng.randrange(1 << 30)}


SCI = {"1e-3", "1e5"}


def want(s):
    """What the parameter must be, from the specification."""
    t = s["type"]
    if t == "const":
        return ("ConstantParameter", repr(s["value"]))
    conf = s.get("default_confidence", "low")
    if t == "cat":
        return ("CategoricalParameter", repr(list(s["choices"])), repr(s.get("default")), {"low": 2, "medium": 4, "high": 6}[conf], "default" in s)
    return ("FloatParameter" if t == "float" else "IntegerParameter", repr(s["lower"]), repr(s["upper"]), bool(s["log"]), bool(s.get("is_fidelity", False)), repr(s.get("default")),
            {"low": 0.5, "medium": 0.25, "high": 0.125}[conf], "default" in s)


def have(p):
    n = type(p).__name__
    if n == "ConstantParameter":
        return (n, repr(p.value))
    if n == "CategoricalParameter":
        return (n, repr(list(p.choices)), repr(p.default), p.default_confidence_score, p.has_prior)
    return (n, repr(p.lower), repr(p.upper), p.log, p.is_fidelity, repr(p.default), p.default_confidence_score, p.has_prior)


def kind(s):
    return f"{s['type']}{'-log' if s.get('log') else ''}{'-default' if 'default' in s else ''}{'-fid' if s.get('is_fidelity') else ''}"


def equality(res, rng, spec):
    """Parameters declared alike are equal, and ones that differ in anything are not."""
    for k, s in spec.items():
        p = gen.build({k: s})[k]
        if not p == gen.build({k: s})[k]:
            res.viol("equal-definitions-differ", f"{s} is not equal to itself declared again")
        var = []
        if s["type"] in ("int", "float"):
            step = 1 if s["type"] == "int" else max(1.0, s["upper"] - s["lower"])
            var += [{"upper": s["upper"] + step}] + ([{"log": not s["log"]}] if s["lower"] > 0 else []) + ([{"lower": s["lower"] - step}] if not s["log"] else [])
            var += [{"is_fidelity": not s.get("is_fidelity", False)}]
        if s["type"] == "cat":
            var += [{"choices": [*s["choices"], "one more"]}]
        if s.get("default") is not None:
            var += [{"default": None}, {"default_confidence": {"low": "high", "medium": "low", "high": "medium"}[s["default_confidence"]]}]
        if s["type"] == "const":
            var += [{"value": "another"}]
        for v in var:
            t = {a: b for a, b in {**s, **v}.items() if not (a == "default" and b is None)}
            if t.get("is_fidelity"):
                t.pop("default", None), t.pop("default_confidence", None)
            try:
                q = gen.build({k: t})[k]
            except (ValueError, TypeError):
                continue
            res.count("unequal")
            res.sig(kind(s), "eq", *v)
            if p == q:
                res.viol("different-definitions-equal", f"{s} equals {t}")


def run_case(case, d, res):
    mw.seed_all(case["seed"])
    rng = random.Random(case["seed"])
    spec = case["spec"]
    res.count("spaces")
    notations(res, rng, spec, d)
    equality(res, rng, spec)
    configs(res, rng, spec)
    defaults(res, rng, spec)
    illegal(res, rng, spec, d)
    if case["seed"] % 30 == 0:
        res.sample = case


def compare(res, spec, params, how):
    if set(params) != set(spec):
        res.viol(f"names:{how}", f"{sorted(params)} instead of {sorted(spec)}")
        return
    for k, s in spec.items():
        res.count("parameters_compared")
        res.sig(kind(s), how)
        if have(params[k]) != want(s):
            res.viol(f"differs:{how}", f"{s} written as {how} became {have(params[k])}, expected {want(s)}")


def yaml_spec(rng, spec, typed, sci):
    out = {}
    for k, s in spec.items():
        s = copy.deepcopy(s)
        t = s.pop("type")
        if t == "const":
            out[k] = s["value"]
            continue
        if not s.get("log", True):
            if rng.random() < 0.5:
                s.pop("log")
        if typed:
            s["type"] = rng.choice({"int": ["int", "integer", "Int"], "float": ["float", "Float"], "cat": ["cat", "categorical"]}[t])
        if s.get("default_confidence") == "low" and rng.random() < 0.5:
            s.pop("default_confidence")
        if sci and t == "float":
            for a in ("lower", "upper", "default"):
                if a in s and (rng.random() < 0.8):
                    s[a] = rng.choice([f"{s[a]:.17e}", f"{s[a]:.17E}", f"{s[a]:.17e}".replace("e+", "e"), repr(s[a]) if "e" in repr(s[a]) else f"{s[a]:.17e}"])
        items = list(s.items())
        rng.shuffle(items)
        out[k] = dict(items)
    return out


def notations(res, rng, spec, d):
    import ConfigSpace as CS
    import yaml

    from neps.search_spaces.search_space import SearchSpace, pipeline_space_from_configspace, pipeline_space_from_yaml

    compare(res, spec, gen.build(spec), "python")
    sp = SearchSpace(**gen.build(spec))
    compare(res, spec, dict(sp.items()), "searchspace")
    if list(sp) != sorted(spec):
        res.viol("order", f"{list(sp)}")
    ys = {k: s for k, s in spec.items() if not (s["type"] == "cat" and any(c in SCI for c in s["choices"] if isinstance(c, str)) or s["type"] == "const" and s["value"] in SCI)}
    if ys:
        for typed in (True, False):
            for sci in (False, True):
                y = yaml_spec(rng, ys, typed or sci and rng.random() < 0.5, sci)
                how = f"yaml-{'typed' if typed else 'untyped'}{'-sci' if sci else ''}"
                dd = copy.deepcopy(y)
                compare(res, ys, pipeline_space_from_yaml(dd), how + "-dict")
                compare(res, ys, pipeline_space_from_yaml(dd), how + "-dict-again")
                f = d / f"s{len(list(d.iterdir()))}.yaml"
                text = yaml.safe_dump({"pipeline_space": y} if rng.random() < 0.3 else y)
                if sci:  # as a user would write it, unquoted
                    import re

                    text = re.sub(r"'(-?\d[\d.]*[eE][-+]?\d+)'", r"\1", text)
                f.write_text(text)
                compare(res, ys, pipeline_space_from_yaml(rng.choice([f, str(f)])), how + "-file")
    # ConfigSpace: fidelities do not exist there; every hyperparameter has a default
    cs = CS.ConfigurationSpace()
    cspec = {}
    for k, s in spec.items():
        if s.get("is_fidelity"):
            continue
        t = s["type"]
        if t == "const":
            if isinstance(s["value"], (bool,)):
                continue
            h = CS.Constant(k, s["value"])
            cspec[k] = {"type": "const", "value": s["value"]}
        elif t == "cat":
            if len({type(c) for c in s["choices"]}) > 1 or isinstance(s["choices"][0], bool):
                continue
            h = CS.CategoricalHyperparameter(k, s["choices"], default_value=s.get("default", s["choices"][0])) if rng.random() < 0.7 else CS.OrdinalHyperparameter(k, s["choices"], default_value=s.get("default", s["choices"][0]))
            cspec[k] = {"type": "cat", "choices": s["choices"], "default": s.get("default", s["choices"][0])}
        else:
            dv = s.get("default", s["upper"])
            try:
                h = (CS.UniformFloatHyperparameter if t == "float" else CS.UniformIntegerHyperparameter)(k, s["lower"], s["upper"], default_value=dv, log=s["log"])
            except Exception:  # noqa: BLE001  (ConfigSpace itself refuses some extreme ranges)
                continue
            if (h.lower, h.upper, h.default_value, h.log) != (s["lower"], s["upper"], dv, s["log"]):
                continue  # rounded by ConfigSpace itself
            cspec[k] = {"type": t, "lower": s["lower"], "upper": s["upper"], "log": s["log"], "default": dv}
        cs.add_hyperparameter(h)
    if cspec:
        compare(res, cspec, pipeline_space_from_configspace(cs), "configspace")
        # given to a run, alone or mixed with other parameters
        from neps.api import _run_args

        mixed = {**{k: p for k, p in gen.build(spec).items() if k not in cspec}, "cs": cs}
        for how, arg, exp in (("run-configspace", cs, cspec), ("run-mixed", mixed, {**{k: s for k, s in spec.items() if k not in cspec}, **cspec}), ("run-python", gen.build(spec), spec)):
            opt, _ = _run_args({"neps_decision_tree": True, "searcher_name": ""}, pipeline_space=arg, searcher="random_search", ignore_fidelity=True)
            compare(res, exp, dict(opt.pipeline_space.items()), how)


def configs(res, rng, spec):
    import yaml

    from neps.search_spaces.search_space import SearchSpace

    space = SearchSpace(**gen.build(spec))
    before = fp(space)
    for _ in range(6):
        cfg = gen.gen_config(rng, spec)
        res.count("configs")
        c = space.from_dict(dict(rng.sample(list(cfg.items()), len(cfg))))
        same(res, cfg, c.hp_values(), "from_dict")
        for k, p in c.items():
            if p.value is not None and p.normalized_value is not None and spec[k]["type"] != "const" and p.normalized_value != p.value_to_normalized(p.value):
                res.viol("stale-normalised", f"{k}={p.value!r} of {spec[k]} has normalised value {p.normalized_value}")
            if spec[k]["type"] in ("int", "float", "cat") and p.normalized_value is None:
                res.viol("stale-normalised", f"{k}={p.value!r} of {spec[k]} has no normalised value after loading")
        ser = c.serialize()
        same(res, cfg, ser, "serialize")
        same(res, cfg, space.from_dict(yaml.safe_load(yaml.safe_dump(ser))).hp_values(), "yaml-roundtrip")
        same(res, cfg, space.from_dict(json.loads(json.dumps(ser))).hp_values(), "json-roundtrip")
        cl = c.clone()
        same(res, cfg, cl.hp_values(), "clone")
        if fp(cl) != fp(c) or not cl.is_equal_value(c) or not c.is_equal_value(cl) or any(cl[k] != c[k] for k in spec):
            res.viol("clone-differs", f"{fp(c)} cloned to {fp(cl)}")
        fc = fp(c)
        other = gen.gen_config(rng, spec)
        for k in spec:
            if spec[k]["type"] != "const":
                cl[k].set_value(other[k])
                cl[k].set_default(other[k])
            if hasattr(cl[k], "choices"):
                cl[k].choices.append("zzz")
        if fp(c) != fc or fp(space) != before:
            res.viol("clone-shared", f"changing a clone changed the original {fc} to {fp(c)}")
        b = space.from_dict(other)
        eq = all(type(cfg[k]) is type(other[k]) and cfg[k] == other[k] for k in spec)
        far = any(abs(c[k].value_to_normalized(cfg[k]) - c[k].value_to_normalized(other[k])) > 1e-6 for k in spec if spec[k]["type"] != "const")
        if (eq and not c.is_equal_value(b)) or (far and c.is_equal_value(b)):
            res.viol("is_equal_value", f"{cfg} and {other}: {c.is_equal_value(b)}")
        res.sig("config", len(spec))


def same(res, a, b, how):
    if set(a) != set(b) or any(type(a[k]) is not type(b[k]) or a[k] != b[k] for k in a):
        res.viol(f"config-changed:{how}", f"{a} became {dict(b)}")


def defaults(res, rng, spec):
    """Setting a default or confidence is the same as declaring it."""
    for k, s in spec.items():
        if s["type"] == "const" or s.get("is_fidelity"):
            continue
        v = gen.gen_value(rng, s)
        conf = rng.choice(["low", "medium", "high"])
        p = gen.build({k: s})[k]
        p.set_default(v)
        p.set_default_confidence_score(conf)
        q = gen.build({k: {**s, "default": v, "default_confidence": conf}})[k]
        res.count("default_changes")
        for x in (p, p.clone()):
            if have(x) != have(q) or fp(x) != fp(q):
                res.viol("set-default-differs", f"{s} with default {v!r} ({conf}) set later: {fp(x)}, declared: {fp(q)}" + (" (cloned)" if x is not p else ""))
            for w in [gen.gen_value(rng, s) for _ in range(4)]:
                x.set_value(w)
                q.set_value(w)
                for lg in (False, True):
                    a, b = x.compute_prior(log=lg), q.compute_prior(log=lg)
                    if not (math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)):
                        res.viol("set-default-prior", f"{s} with default {v!r} ({conf}) set later: prior of {w!r} is {a}, declared: {b}")
            x.set_value(None)
            q.set_value(None)
        p.set_default(None)
        r = gen.build({k: {a: b for a, b in s.items() if not a.startswith("default")}})[k]
        if p.default is not None or p.has_prior or p.clone().has_prior or r.has_prior:
            res.viol("unset-default", f"{fp(p)}")


def illegal(res, rng, spec, d):
    import neps
    from neps.search_spaces.search_space import SearchSpace, pipeline_space_from_yaml
    from neps.search_spaces.yaml_search_space_utils import SearchSpaceFromYamlFileError

    def refuse(what, fn, exc=Exception):
        res.count("illegal_definitions")
        res.sig("illegal", what.split(":")[0])
        try:
            r = fn()
        except exc:
            return
        except Exception as e:  # noqa: BLE001
            res.viol(f"illegal-wrong-error:{what.split(':')[0]}", f"{what} raised {type(e).__name__}: {e}")
            return
        res.viol(f"illegal-accepted:{what.split(':')[0]}", f"{what} was accepted as {r}")

    for k, s in spec.items():
        bad = []
        if s["type"] in ("int", "float"):
            span = s["upper"] - s["lower"]
            bad += [("inverted-bounds", {"lower": s["upper"], "upper": s["lower"]}), ("equal-bounds", {"lower": s["lower"], "upper": s["lower"]}),
                    ("log-nonpositive", {"lower": rng.choice([0, -1]) if s["type"] == "int" else rng.choice([0.0, -1e-9, -3.0]), "upper": 10 if s["type"] == "int" else 10.0, "log": True, "default": None}),
                    ("default-outside", {"default": rng.choice([s["upper"] + max(1, span), s["lower"] - max(1, span)]) if s["type"] == "int" else rng.choice([math.nextafter(s["upper"], math.inf), math.nextafter(s["lower"], -math.inf), s["upper"] + span])}),
                    ("confidence", {"default_confidence": "verylow"}), ("log-not-bool", {"log": "yes"}), ("fidelity-not-bool", {"is_fidelity": 1})]
        elif s["type"] == "cat":
            bad += [("no-choice", {"choices": [], "default": None}), ("single-choice", {"choices": ["a"], "default": None}), ("duplicate-choices", {"choices": s["choices"] + [s["choices"][0]]}),
                    ("default-not-choice", {"default": "not-there"}), ("choice-type", {"choices": [*s["choices"], [1]]}), ("confidence", {"default_confidence": "verylow"})]
        for what, ch in bad:
            t = {a: b for a, b in {**s, **ch}.items() if not (a == "default" and b is None)}
            refuse(f"{what}:{t}", lambda t=t: gen.build({k: t})[k], (ValueError, TypeError, KeyError))
            y = {k: {**t}}
            refuse(f"yaml-{what}:{t}", lambda y=y: pipeline_space_from_yaml(y)[k], SearchSpaceFromYamlFileError)
        if s["type"] != "const":
            refuse(f"yaml-unknown-type:{s}", lambda: pipeline_space_from_yaml({k: {**s, "type": "double"}}), SearchSpaceFromYamlFileError)
            refuse(f"yaml-unknown-key:{s}", lambda: pipeline_space_from_yaml({k: {**s, "wrong_key": 1}}), SearchSpaceFromYamlFileError)
            miss = {a: b for a, b in s.items() if a not in ("upper", "choices")}
            refuse(f"yaml-missing-key:{miss}", lambda: pipeline_space_from_yaml({k: miss}), SearchSpaceFromYamlFileError)
    refuse("yaml-none", lambda: pipeline_space_from_yaml({"a": None}), SearchSpaceFromYamlFileError)
    refuse("yaml-no-file", lambda: pipeline_space_from_yaml(d / "nothing.yaml"), SearchSpaceFromYamlFileError)
    (d / "list.yaml").write_text("- 1\n- 2\n")
    refuse("yaml-list", lambda: pipeline_space_from_yaml(d / "list.yaml"), SearchSpaceFromYamlFileError)
    refuse("two-fidelities", lambda: SearchSpace(a=neps.Integer(1, 3, is_fidelity=True), b=neps.Float(1, 3, is_fidelity=True)), ValueError)
    # values
    space = SearchSpace(**gen.build(spec))
    cfg = gen.gen_config(rng, spec)
    c = space.from_dict(cfg)
    for k, s in spec.items():
        if s["type"] == "int":
            vals = [s["lower"] - 1, s["upper"] + 1, s["upper"] + 10**6, float("nan")]
        elif s["type"] == "float":
            vals = [math.nextafter(s["lower"], -math.inf), math.nextafter(s["upper"], math.inf), float("inf"), float("nan"), s["upper"] + 10 * (s["upper"] - s["lower"])]
        elif s["type"] == "cat":
            vals = ["not-there", -77]
        else:
            vals = ["another"]
        for v in vals:
            for how in ("set_value", "load_from", "from_dict", "set_default"):
                if how == "set_default" and (s.get("is_fidelity") or v != v):
                    continue
                before = fp(c)
                res.count("illegal_values")
                try:
                    r = c.from_dict({**cfg, k: v}) if how == "from_dict" else getattr(c[k], how)(v)
                except (ValueError, TypeError):
                    pass
                else:
                    res.viol(f"illegal-value-accepted:{how}", f"{how}({v!r}) of {s} gave {r if how == 'from_dict' else c[k]}")
                if fp(c) != before:
                    res.viol(f"rejected-but-changed:{how}", f"{how}({v!r}) of {s} changed {before} to {fp(c)}")
                    c = space.from_dict(cfg)
    try:
        space.from_dict({**cfg, "unknown-name": 1})
        res.viol("unknown-parameter-accepted", f"{sorted(spec)}")
    except (KeyError, ValueError):
        pass
