"""Generators for search spaces and values (JSON-able specs)."""
from __future__ import annotations

import math
import random


def gen_float(rng: random.Random, log=None, default=True, fid=False):
    log = rng.random() < 0.4 if log is None else log
    if log:
        k = rng.choice(["wide", "narrow", "tiny", "lr", "odd", "sub1"])
        lo, hi = {"wide": (1e-10, 1e10), "narrow": (1.0, 1.0 + rng.choice([1e-6, 1e-3, 0.1])), "tiny": (1e-12, 1e-9), "lr": (10.0 ** -rng.randint(2, 6), 10.0 ** -rng.randint(0, 1)),
                  "odd": (rng.uniform(0.01, 5), rng.uniform(5.5, 5000)), "sub1": (rng.uniform(1e-5, 0.1), rng.uniform(0.2, 0.99))}[k]
    else:
        k = rng.choice(["unit", "neg", "huge", "tiny", "odd", "narrow", "zero"])
        lo, hi = {"unit": (0.0, 1.0), "neg": (-rng.uniform(1, 100), -rng.uniform(0, 0.9)), "huge": (-1e12, 1e12), "tiny": (1e-9, 2e-9), "odd": (rng.uniform(-7, 0), rng.uniform(0.1, 9)),
                  "narrow": (5.0, 5.0 + 1e-6), "zero": (0.0, rng.choice([0.1, 0.3, 3.0, 1e6]))}[k]
    s = {"type": "float", "lower": lo, "upper": hi, "log": log}
    if fid:
        s["is_fidelity"] = True
    elif default and rng.random() < 0.5:
        s["default"] = rng.choice([lo, hi, _between(rng, lo, hi, log), _between(rng, lo, hi, log)])
        s["default_confidence"] = rng.choice(["low", "medium", "high"])
    return s


def gen_int(rng: random.Random, log=None, default=True, fid=False):
    log = rng.random() < 0.35 if log is None else log
    if log:
        lo = rng.choice([1, 1, 2, 3, 10, rng.randint(1, 50)])
        hi = lo + rng.choice([1, 2, 5, 30, 1000, 10**6])
    else:
        lo = rng.choice([0, 1, -5, -1000, rng.randint(-20, 20), 10**6])
        hi = lo + rng.choice([1, 2, 3, 9, 50, 1023, 10**5])
    s = {"type": "int", "lower": lo, "upper": hi, "log": log}
    if fid:
        s["is_fidelity"] = True
    elif default and rng.random() < 0.5:
        s["default"] = rng.choice([lo, hi, rng.randint(lo, hi)])
        s["default_confidence"] = rng.choice(["low", "medium", "high"])
    return s


CHOICES = [["a", "b"], ["x", "y", "z"], [1, 2, 3, 4], [0.5, 1.5], ["1", 1, 1.5], [True, False], ["", " ", "a b", "ü"], ["no", "yes", "null", "~"], ["1e-3", "0x1f", "12:30:45", "2020-01-01"],
           ["c%d" % i for i in range(12)], [0, 1], [10**20, -1], ["#x", "- y", "k: v", "'q'", '"d"', "a\nb", "\ttab"], [1e-300, 1e300, 0.1]]


def gen_cat(rng: random.Random, default=True, maxn=None):
    ch = list(rng.choice([c for c in CHOICES if maxn is None or len(c) <= maxn]))
    rng.shuffle(ch)
    s = {"type": "cat", "choices": ch}
    if default and rng.random() < 0.5:
        s["default"] = rng.choice(ch)
        s["default_confidence"] = rng.choice(["low", "medium", "high"])
    return s


def gen_const(rng: random.Random):
    return {"type": "const", "value": rng.choice([0, 1, -3, 0.1, 1e-12, "s", "", "true", True, False, 10**18, "1e5"])}


def _between(rng, lo, hi, log):
    if log:
        return min(hi, max(lo, math.exp(rng.uniform(math.log(lo), math.log(hi)))))
    return min(hi, max(lo, rng.uniform(lo, hi)))


def gen_space(rng: random.Random, *, nmin=1, nmax=5, fid=None, default=True, const=True, cat=True, num=True, maxcat=None):
    """{name: spec}; fid: None = maybe, True/False = with/without a fidelity."""
    n = rng.randint(nmin, nmax)
    sp = {}
    kinds = (["float", "int"] if num else []) + (["cat"] if cat else []) + (["const"] if const else [])
    names = [f"{c}{i}" for i, c in enumerate(rng.sample("abcdefghijklmnopqrstuvwxyz", n + 1))]
    for i in range(n):
        k = rng.choice(kinds) if i else rng.choice([x for x in kinds if x != "const"])
        sp[names[i]] = {"float": lambda: gen_float(rng, default=default), "int": lambda: gen_int(rng, default=default), "cat": lambda: gen_cat(rng, default=default, maxn=maxcat), "const": lambda: gen_const(rng)}[k]()
    if fid is None:
        fid = rng.random() < 0.3
    if fid:
        # fidelity bounds are positive
        if rng.random() < 0.6:
            lo = rng.choice([1, 1, 2, 3, 5])
            f = {"type": "int", "lower": lo, "upper": lo + rng.choice([1, 4, 8, 26, 80, 100]), "log": rng.random() < 0.3, "is_fidelity": True}
        else:
            lo = rng.choice([0.1, 0.01, 1.0, 0.5])
            f = {"type": "float", "lower": lo, "upper": lo * rng.choice([2.0, 3.0, 9.0, 10.0, 27.0, 100.0]), "log": rng.random() < 0.3, "is_fidelity": True}
        sp[names[n]] = f
    items = list(sp.items())
    rng.shuffle(items)
    return dict(items)


def build(spec: dict):
    """Spec -> dict of neps parameters."""
    import neps

    out = {}
    for name, s in spec.items():
        s = dict(s)
        t = s.pop("type")
        if t == "float":
            out[name] = neps.Float(**s)
        elif t == "int":
            out[name] = neps.Integer(**s)
        elif t == "cat":
            out[name] = neps.Categorical(**s)
        else:
            out[name] = neps.Constant(**s)
    return out


def in_domain(spec: dict, v, *, tol=0.0) -> str | None:
    """None if v is a legal value for the parameter, else the reason."""
    t = spec["type"]
    if t == "const":
        return None if type(v) is type(spec["value"]) and v == spec["value"] else f"{v!r} is not the constant {spec['value']!r}"
    if t == "cat":
        return None if any(type(v) is type(c) and v == c for c in spec["choices"]) else f"{v!r} ({type(v).__name__}) is not one of {spec['choices']}"
    if t == "int":
        if type(v) is not int:
            return f"{v!r} has type {type(v).__name__}, not int"
    elif type(v) is not float:
        return f"{v!r} has type {type(v).__name__}, not float"
    if math.isnan(v) or not spec["lower"] <= v <= spec["upper"]:
        return f"{v!r} is outside [{spec['lower']!r}, {spec['upper']!r}]"
    return None


def check_config(spec: dict, config, *, skip=()) -> str | None:
    if set(config) != set(spec):
        return f"parameters {sorted(config)} instead of {sorted(spec)}"
    for k, s in spec.items():
        if k in skip:
            continue
        r = in_domain(s, config[k])
        if r:
            return f"{k}: {r}"
    return None


def gen_value(rng: random.Random, s: dict):
    t = s["type"]
    if t == "const":
        return s["value"]
    if t == "cat":
        return rng.choice(s["choices"])
    if t == "int":
        return rng.choice([s["lower"], s["upper"], rng.randint(s["lower"], s["upper"]), rng.randint(s["lower"], s["upper"])])
    return rng.choice([s["lower"], s["upper"], _between(rng, s["lower"], s["upper"], s["log"]), _between(rng, s["lower"], s["upper"], False)])


def gen_config(rng, spec):
    return {k: gen_value(rng, s) for k, s in spec.items()}
