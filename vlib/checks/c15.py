"""C15: sampling, mutation, crossover, perturbation and normalisation stay in the domain."""
from __future__ import annotations

import math
import random

import numpy as np

from vlib import gen, mw

LEVEL = "exploration"
RULE = ("a case is a generated search space (log/linear, tiny, huge, narrow, negative and odd bounds, integers, choices, constants, defaults, fidelity) on which every way of obtaining a "
        "value is exercised many times; each value is judged against the declared domain, parents and space are fingerprinted around each call, and the distribution of large samples is "
        "tested; distinct_nontrivial counts distinct (parameter kind and scale, operation)")
ASSUMPTIONS = ["distribution tests use fixed seeds and reject only at p < 1e-9"]
MIN = {"quick": {"spaces": 150, "values": 100000, "mutations": 3000, "crossovers": 2000, "roundtrips": 20000, "distributions": 250, "perturbations": 2000}}


def cases(tier, seed):
    rng = random.Random(f"c15-{seed}")
    for i in range(260 if tier == "quick" else 4000):
        yield {"kind": "space", "spec": gen.gen_space(rng, nmin=1, nmax=5), "seed": rng.randrange(1 << 30)}
    for i in range(400 if tier == "quick" else 2000):
        yield {"kind": "dist", "spec": rng.choice([gen.gen_float, gen.gen_int, gen.gen_int, gen.gen_cat])(rng), "seed": rng.randrange(1 << 30)}


def fp(x):
    """Everything observable about a parameter or space."""
    if hasattr(x, "hyperparameters"):
        return tuple((k, fp(v)) for k, v in x.hyperparameters.items())
    out = [type(x).__name__, repr(x.value), repr(x.default), x.is_fidelity]
    for a in ("lower", "upper", "log", "choices", "default_confidence_choice", "default_confidence_score", "has_prior", "normalized_value", "log_default"):
        if hasattr(x, a):
            v = getattr(x, a)
            out.append((a, repr(float(v)) if isinstance(v, (float, np.floating)) else repr(v)))
    return tuple(out)


def kind(s):
    return f"{s['type']}{'-log' if s.get('log') else ''}{'-default' if 'default' in s else ''}{'-fid' if s.get('is_fidelity') else ''}"


def run_case(case, d, res):
    mw.seed_all(case["seed"])
    rng = random.Random(case["seed"])
    if case["kind"] == "dist":
        return dist(case, res)
    spec = case["spec"]
    params = gen.build(spec)
    for name, s in spec.items():
        one_param(res, rng, name, s, params[name])
    space_level(res, rng, spec, params)
    res.count("spaces")
    res.sample = {"spec": spec}


def value_ok(res, s, v, op):
    res.count("values")
    r = gen.in_domain(s, v)
    if r:
        res.viol(f"out-of-domain:{op}", f"{op} of {s}: {r}")
    return r is None


def one_param(res, rng, name, s, hp):
    from neps.search_spaces.parameter import ParameterWithPrior

    before = fp(hp)
    for k in range(30):
        value_ok(res, s, hp.sample_value(), "sample_value")
        value_ok(res, s, hp.sample().value, "sample")
        if isinstance(hp, ParameterWithPrior):
            value_ok(res, s, hp.sample(user_priors=True).value, "prior-sample")
            value_ok(res, s, hp.sample_value(user_priors=True), "prior-sample_value")
            res.sig(kind(s), "prior")
    res.sig(kind(s), "sample")
    if fp(hp) != before:
        res.viol("changed:sample", f"sampling changed {before} to {fp(hp)}")
    # normalised form and back
    if s["type"] != "const":
        vals = [gen.gen_value(rng, s) for _ in range(25)] + [hp.sample_value() for _ in range(10)]
        if s["type"] in ("int", "float"):
            vals += [s["lower"], s["upper"]]
        if s["type"] == "cat":
            vals += s["choices"]
        for v in vals:
            n = hp.value_to_normalized(v)
            res.count("roundtrips")
            if s["type"] == "cat":
                ok = 0 <= n <= len(s["choices"]) - 1 and n == int(n)
            else:
                ok = 0.0 <= n <= 1.0
            if type(n) is not float or not ok:
                res.viol("normalised-range", f"{v!r} of {s} normalises to {n!r}")
            back = hp.normalized_to_value(n)
            value_ok(res, s, back, "normalized_to_value")
            if s["type"] == "float":
                span = (s["upper"] - s["lower"]) if not s["log"] else abs(v) * max(1.0, math.log(s["upper"] / s["lower"]))
                if abs(back - v) > 1e-9 * span + 1e-12 * abs(v):
                    res.viol("roundtrip", f"{v!r} of {s} comes back as {back!r}")
            elif not (type(back) is type(v) and back == v):
                res.viol("roundtrip", f"{v!r} of {s} comes back as {back!r}")
        if s["type"] in ("int", "float"):
            last = None
            for n in sorted([0.0, 1.0, np.nextafter(1.0, 0), np.nextafter(0.0, 1), 0.5, 1e-300] + [rng.random() for _ in range(20)]):
                v = hp.normalized_to_value(n)
                value_ok(res, s, v, "normalized_to_value")
                if last is not None and v < last:
                    res.viol("normalised-order", f"normalized_to_value of {s} is not monotone at {n}: {last} then {v}")
                last = v
        if fp(hp) != before:
            res.viol("changed:normalise", f"{before} became {fp(hp)}")
    # mutation and crossover
    if s["type"] == "const" or s.get("is_fidelity"):
        return
    for _ in range(6):
        a, b = hp.sample(), hp.sample()
        if rng.random() < 0.3:
            a.set_value(gen.gen_value(rng, s))
        fa, fb = fp(a), fp(b)
        for how in ("local_search", "simple", "std"):
            kw = {"mutation_strategy": "local_search", "std": rng.choice([0.05, 0.25, 1.0])} if how == "std" else {"mutation_strategy": how}
            if how == "std" and s["type"] != "float":
                kw["std"] = 0.25
            tries = 0
            while True:
                tries += 1
                try:
                    c = a.mutate(**kw)
                except ValueError as e:
                    if "Parent is the same" in str(e) and tries < 300:
                        continue  # asked again by the callers
                    res.viol(f"mutate-failed:{how}", f"mutating {a.value!r} of {s} with {kw} failed {tries} times: {e}")
                    break
                value_ok(res, s, c.value, f"mutate-{how}")
                res.count("mutations")
                res.sig(kind(s), "mutate", how)
                if c is a or c.value == a.value:
                    res.viol("mutate-same", f"mutation of {a.value!r} of {s} is the parent")
                break
        for c in a.crossover(a, b) + a.crossover(b):
            value_ok(res, s, c.value, "crossover")
            res.count("crossovers")
            if s["type"] == "cat" and not any(type(c.value) is type(x) and c.value == x for x in (a.value, b.value)):
                res.viol("crossover-foreign", f"crossover of {a.value!r} and {b.value!r} gave {c.value!r}")
            if c is a or c is b:
                res.viol("crossover-aliases-parent", f"{s}")
        res.sig(kind(s), "crossover")
        if fp(a) != fa or fp(b) != fb or fp(hp) != before:
            res.viol("changed:mutate-crossover", f"{s}: parents {fa}, {fb} became {fp(a)}, {fp(b)}")


def space_level(res, rng, spec, params):
    from neps.optimizers.multi_fidelity_prior.utils import custom_crossover, local_mutation
    from neps.search_spaces.search_space import SearchSpace

    space = SearchSpace(**params)
    before = fp(space)
    fid = next((k for k, s in spec.items() if s.get("is_fidelity")), None)
    skip = (fid,) if fid else ()
    target = None

    def ok(cfg, op, fidelity=None):
        vals = cfg.hp_values()
        res.count("values", len(vals))
        r = gen.check_config(spec, vals, skip=skip if fidelity is None else ())
        if r:
            res.viol(f"out-of-domain:{op}", f"{op} of {spec}: {r}")
        if fid and fidelity is not None and vals.get(fid) != fidelity:
            res.viol(f"fidelity-moved:{op}", f"{op}: fidelity {vals.get(fid)!r} instead of {fidelity!r}")
        return r is None

    def filled(**kw):
        c = space.sample(**kw)
        if fid:
            c.fidelity.set_value(gen.gen_value(rng, spec[fid]))
        return c

    for up in (False, True):
        for _ in range(8):
            ok(space.sample(user_priors=up), "space.sample")
            c = space.sample(user_priors=up, ignore_fidelity=False)
            r = gen.check_config(spec, c.hp_values())
            if r:
                res.viol("out-of-domain:space.sample", f"{spec}: {r}")
    ok(space.sample_default_configuration(ignore_missing_defaults=True), "default")
    dc = space.sample_default_configuration(ignore_missing_defaults=True, ignore_fidelity=False)
    for k, s in spec.items():
        if s.get("default") is not None and dc[k].value != s["default"]:
            res.viol("default-not-used", f"{k}: {dc[k].value!r} instead of {s['default']!r}")
    if fid:
        c = space.clone()
        c.set_to_max_fidelity()
        target = spec[fid]["upper"]
        for _ in range(3):
            ok(c.sample(), "sample-at-target", target)
    mutable = [k for k, s in spec.items() if s["type"] != "const" and not s.get("is_fidelity")]
    for _ in range(10):
        a, b = filled(), filled()
        f = a.fidelity.value if fid else None
        g = b.fidelity.value if fid else None
        fa, fb = fp(a), fp(b)
        if mutable:
            m = a.mutate(patience=200)
            ok(m, "space.mutate", f)
            res.count("perturbations")
            if all(m[k].value == a[k].value for k in mutable):
                res.viol("mutate-same", f"{a.hp_values()} mutated to itself")
            x, y = a.crossover(b, crossover_probability_per_hyperparameter=rng.choice([0.0, 0.5, 1.0]))
            ok(x, "space.crossover", f)
            ok(y, "space.crossover", g)
            m = local_mutation(a, std=rng.choice([0.1, 0.25]), mutation_rate=rng.choice([0.2, 0.5, 1.0]))
            ok(m, "local_mutation", f)
            res.count("perturbations")
            if m is a:
                res.viol("local_mutation-aliases-parent", "")
            m = custom_crossover(a, b, crossover_prob=rng.choice([0.3, 0.5]))
            ok(m, "custom_crossover", f)
            res.count("perturbations")
            if any(not a.is_equal_value(_one(a, b, k)) for k in mutable):
                for k in mutable:
                    if m[k].value not in (a[k].value, b[k].value):
                        res.viol("crossover-foreign", f"{k}: {m[k].value!r} from {a[k].value!r} and {b[k].value!r}")
            # children are independent: changing them does not change their parents or the space
            for op, child in (("mutate", a.mutate(patience=200)), ("crossover", x), ("crossover", y), ("custom_crossover", m), ("local_mutation", local_mutation(a, std=0.25, mutation_rate=0.5)), ("sample", space.sample()), ("default", space.sample_default_configuration(ignore_missing_defaults=True))):
                for k in [*mutable, *skip]:
                    child[k].set_value(gen.gen_value(rng, spec[k]))
                if fp(a) != fa or fp(b) != fb or fp(space) != before:
                    res.viol(f"shared:{op}", f"changing the result of {op} changed the configuration or space it came from ({spec})")
                    return
        if fp(a) != fa or fp(b) != fb:
            res.viol("changed:parents", f"{fa} / {fb} became {fp(a)} / {fp(b)}")
        if fp(space) != before:
            res.viol("changed:space", f"{before} became {fp(space)}")
            break
    res.sig("space", len(spec), bool(fid))


def _one(a, b, k):
    c = a.clone()
    c[k].set_value(b[k].value)
    return c


def dist(case, res):
    """Uniform on the declared scale; prior samples concentrate at the default; every value can occur."""
    from scipy import stats

    s = case["spec"]
    hp = gen.build({"p": s})["p"]
    N = 1200
    xs = [hp.sample_value() for _ in range(N)]
    t = s["type"]
    res.count("distributions")
    if t == "cat" or (t == "int" and s["upper"] - s["lower"] < 12):
        dom = s["choices"] if t == "cat" else list(range(s["lower"], s["upper"] + 1))
        cnt = [sum(type(x) is type(v) and x == v for x in xs) for v in dom]
        if 0 in cnt and not (t == "int" and s.get("log") and s["upper"] / s["lower"] > 20):
            res.viol("value-never-drawn", f"{s}: counts {dict(zip(map(str, dom), cnt))} of {N}")
        if t == "cat" or not s["log"]:
            p = stats.chisquare(cnt).pvalue
            if p < 1e-9:
                res.viol("not-uniform", f"{s}: counts {cnt}, p={p}")
        else:  # on the log scale an integer stands for all reals that round to it
            w = np.array([math.log((v + 0.5) / (v - 0.5)) for v in dom])
            e = w / w.sum() * N
            p = stats.chisquare(cnt, e).pvalue if e.min() >= 5 else 1.0
            if p < 1e-9:
                res.viol("not-uniform", f"{s}: counts {cnt}, expected about {[round(q) for q in e]}, p={p}")
    else:
        z = np.log(xs) if s["log"] else np.array(xs, float)
        lo, hi = (math.log(s["lower"]), math.log(s["upper"])) if s["log"] else (s["lower"], s["upper"])
        if t == "float":
            p = stats.kstest((z - lo) / (hi - lo), "uniform").pvalue
            if p < 1e-9:
                res.viol("not-uniform", f"{s}: Kolmogorov-Smirnov p={p} on the declared scale")
        elif not s["log"] or s["upper"] / s["lower"] >= 100:
            below = np.mean(z <= (lo + hi) / 2)
            if not 0.25 < below < 0.8:
                res.viol("not-uniform", f"{s}: {below:.2f} of the values are below the middle of the declared scale")
    res.sig(kind(s), "uniform")
    if t == "cat" and len(s["choices"]) <= 12:
        v = s["choices"][case.get("seed", 0) % len(s["choices"])]
        hp.set_value(v)
        got = [hp.mutate(mutation_strategy="local_search").value for _ in range(60 * len(s["choices"]))]
        never = [c for i, c in enumerate(s["choices"]) if c is not v and i != s["choices"].index(v) and not any(type(g) is type(c) and g == c for g in got)]
        if never:
            res.viol("mutation-never-reaches", f"{s}: mutating {v!r} {len(got)} times never gave {never}")
        hp.set_value(None)
    if s.get("default") is None:
        return
    if t != "cat" and s["default_confidence"] == "low":
        N = 8000
        xs = [hp.sample_value() for _ in range(N)]
    ys = [hp.sample_value(user_priors=True) for _ in range(N)]
    for y in ys:
        value_ok(res, s, y, "prior-sample_value")
    if t == "cat":
        cnt = [sum(type(x) is type(v) and x == v for x in ys) for v in s["choices"]]
        di = [type(c) is type(s["default"]) and c == s["default"] for c in s["choices"]].index(True)
        k = len(cnt)
        w = {"low": 2, "medium": 4, "high": 6}[s["default_confidence"]]
        # the default is drawn more often than under the uniform distribution
        if stats.binomtest(cnt[di], N, 1 / k, alternative="greater").pvalue > 1e-3 or 0 in cnt:
            res.viol("prior-ignored", f"{s}: counts {cnt}, default at {di}, weight {w}")
    else:
        f = hp.value_to_normalized
        du = np.mean([abs(f(x) - f(s["default"])) for x in xs])
        dp = np.mean([abs(f(y) - f(s["default"])) for y in ys])
        if s["upper"] - s["lower"] > 8 or t == "float":
            lim = {"low": 0.965, "medium": 0.86, "high": 0.6}[s["default_confidence"]]
            if dp > lim * du:
                res.viol("prior-ignored", f"{s}: mean distance to the default is {dp:.3f} with and {du:.3f} without the prior")
    res.sig(kind(s), "prior-dist", s["default_confidence"])
