"""C18: samplers and priors: shape, range, reproducibility, distribution, density."""
from __future__ import annotations

import math
import random

from vlib import gen, mw

LEVEL = "exploration"
RULE = ("a case is a generated list of 1-6 target domains (float, integer, index; log, binned) with generated centres and confidences; all samplers are run on it with several shapes, dtypes and seeds; "
        "distinct_nontrivial counts distinct (sampler, target kind, dtype, shape kind) and (density check kind, coordinate kind) observed")
ASSUMPTIONS = ["border samplers give at most their 2^d distinct points and may only be mixed for that many (as documented)",
               "32-bit results are judged with 32-bit rounding", "statistical checks use a bound of 7.5 standard deviations",
               "reproducibility means: same state of torch's global generator (explicit generators are documented as not implemented)"]
MIN = {"quick": {"samples": 300000, "shape_checks": 3000, "distribution_checks": 1500, "density_points": 15000, "all_values_hit": 150, "parameter_priors": 100, "mixtures": 40}}
Z = 7.5


def gen_target(rng):
    k = rng.choice(["float", "float", "int", "int", "cat", "cat", "smallint"])
    if k == "float":
        s = gen.gen_float(rng, default=False)
        return {"k": "floating", "lower": s["lower"], "upper": s["upper"], "log": s["log"], "bins": rng.choice([None, None, None, 3, 10])}
    if k == "int":
        s = gen.gen_int(rng, default=False)
        return {"k": "integer", "lower": s["lower"], "upper": s["upper"], "log": s["log"]}
    if k == "smallint":
        lo = rng.randint(-3, 3)
        return {"k": "integer", "lower": lo, "upper": lo + rng.randint(1, 9), "log": False}
    return {"k": "indices", "n": rng.choice([2, 3, 4, 7, 12]), "is_categorical": True}


def cases(tier, seed):
    rng = random.Random(f"c18-{seed}")
    for i in range(260 if tier == "quick" else 4000):
        n = rng.choice([1, 1, 2, 3, 4, 6])
        doms = [gen_target(rng) for _ in range(n)]
        cen = [None if rng.random() < 0.35 else [gen_center(rng, t), rng.choice([0.0, 0.25, 0.5, 0.75, 0.9, round(rng.uniform(0.05, 0.95), 3)])] for t in doms]
        yield {"kind": "domains", "doms": doms, "centers": cen, "seed": rng.randrange(1 << 30)}
    for i in range(140 if tier == "quick" else 2500):
        yield {"kind": "params", "spec": gen.gen_space(rng, nmin=1, nmax=5, const=False, fid=False), "seed": rng.randrange(1 << 30)}


def gen_center(rng, t):
    if t["k"] == "indices":
        return rng.randrange(t["n"])
    lo, hi = t["lower"], t["upper"]
    if t["k"] == "integer":
        return rng.choice([lo, hi, rng.randint(lo, hi)])
    return rng.choice([lo, hi, gen._between(rng, lo, hi, t["log"]), gen._between(rng, lo, hi, t["log"])])


def build(t):
    from neps.search_spaces.domain import Domain

    t = dict(t)
    return getattr(Domain, t.pop("k"))(**t)


def tkind(t):
    return f"{t['k']}{'-log' if t.get('log') else ''}{'-bins' if t.get('bins') else ''}"


def lohi(t):
    return (0, t["n"] - 1) if t["k"] == "indices" else (t["lower"], t["upper"])


def unit(t, v):
    """Position of a value on the unit scale of its declared domain."""
    lo, hi = lohi(t)
    if t.get("log"):
        return (math.log(v) - math.log(lo)) / (math.log(hi) - math.log(lo))
    return (v - lo) / (hi - lo)


def value_at(t, u):
    """A legal value near unit position u."""
    lo, hi = lohi(t)
    v = math.exp(math.log(lo) + u * (math.log(hi) - math.log(lo))) if t.get("log") else lo + u * (hi - lo)
    v = min(hi, max(lo, v))
    return v if t["k"] == "floating" else int(round(v))


def run_case(case, d, res):
    mw.seed_all(case["seed"])
    rng = random.Random(case["seed"])
    if case["kind"] == "domains":
        samplers(case, rng, res)
        density(case, rng, res)
    else:
        params(case, rng, res)
    if case["seed"] % 40 == 0:
        res.sample = case


def check_inside(res, x, doms, what, f32):
    import torch

    for i, t in enumerate(doms):
        lo, hi = lohi(t)
        col = x[..., i].to(torch.float64).flatten()
        tol = 0.0
        if f32:
            tol = 4e-7 * max(abs(lo), abs(hi))
        if not bool(((col >= lo - tol) & (col <= hi + tol)).all()):
            bad = col[~((col >= lo - tol) & (col <= hi + tol))][0].item()
            res.viol(f"outside:{what}", f"{what} produced {bad!r} for the target {t}")
        if t["k"] != "floating" and not bool((col == torch.round(col)).all()):
            res.viol(f"not-integer:{what}", f"{what} produced non-integers for the target {t}")
        if t.get("bins") and not t.get("log"):
            b = t["bins"]
            grid = torch.tensor([lo + (hi - lo) * k / (b - 1) for k in range(b)], dtype=torch.float64)
            dist = (col[:200, None] - grid[None]).abs().min(dim=1).values.max().item() if len(col) else 0
            if dist > 1e-6 * (hi - lo) + (1e-6 * max(abs(lo), abs(hi)) if f32 else 1e-12 * max(abs(lo), abs(hi))):
                res.viol(f"off-bin:{what}", f"{what} produced values off the {b} bins of {t} by {dist!r}")


def samplers(case, rng, res):
    import torch

    from neps.sampling.priors import Prior
    from neps.sampling.samplers import Sampler, WeightedSampler

    doms = case["doms"]
    to = [build(t) for t in doms]
    n = len(doms)
    cen = [None if c is None else (c[0], c[1]) for c in case["centers"]]
    S = {"uniform": Sampler.uniform(n), "sobol": Sampler.sobol(n), "sobol-plain": Sampler.sobol(n, scramble=False), "border": Sampler.borders(n), "centered": Prior.make_centered(to, cen)}
    S["weighted"] = WeightedSampler([S["uniform"], S["centered"], S["sobol"]], torch.tensor([0.5, 0.3, 0.2]))
    allint = all(t["k"] != "floating" for t in doms)
    for name, s in S.items():
        if s.ncols != n:
            res.viol(f"ncols:{name}", f"{s.ncols} columns instead of {n}")
        for shape in (1, 2, rng.choice([5, 16, 64]), torch.Size((2, 1)), torch.Size((3, 2)), torch.Size((rng.choice([1, 4]),))):
            for dtype in (None, torch.float64, *((torch.int64,) if allint else ())):
                tgt = rng.choice([to, to[0]]) if len({repr(t) for t in doms}) == 1 else to
                seed = rng.randrange(1 << 30)
                tot = shape if isinstance(shape, int) else math.prod(shape)
                want = (shape, n) if isinstance(shape, int) else (*shape, n)
                if name == "border":
                    if tot > 2**n and not isinstance(shape, int):
                        continue
                    want = (min(shape, 2**n), n) if isinstance(shape, int) else want
                torch.manual_seed(seed)
                x = s.sample(shape, to=tgt, dtype=dtype)
                torch.manual_seed(seed)
                y = s.sample(shape, to=tgt, dtype=dtype)
                res.count("shape_checks")
                res.count("samples", tot * n)
                for t in doms:
                    res.sig(name, tkind(t), str(dtype), "size" if not isinstance(shape, int) else "int", "list" if tgt is to else "one")
                if tuple(x.shape) != want:
                    res.viol(f"shape:{name}", f"{name} gave {tuple(x.shape)} for {shape} of {n} columns")
                    continue
                if dtype is not None and x.dtype != dtype and name != "border" and not (isinstance(tgt, list) is False):
                    res.viol(f"dtype:{name}", f"{name} gave {x.dtype} instead of {dtype}")
                if not torch.equal(x, y):
                    res.viol(f"not-reproducible:{name}", f"{name} differs for the same seed")
                check_inside(res, x, doms, name, x.dtype == torch.float32)
                if name == "border" and len({tuple(r) for r in x.reshape(-1, n).tolist()}) != tot and tot <= 2**n:
                    res.viol("border-repeats", f"{tot} border points of {doms} with repetitions: {x.tolist()}")
                if name not in ("border", "sobol", "sobol-plain") and tot > 3 and x.dtype == torch.float64 and any(t["k"] == "floating" and not t.get("bins") and t["upper"] - t["lower"] > 1e-3 * abs(t["upper"]) for t in doms) and len({tuple(r) for r in x.reshape(-1, n).tolist()}) == 1:
                    res.viol(f"all-equal:{name}", f"{name} gave {tot} equal points for {doms}")
    # distribution
    N = 4000
    for name in ("uniform", "sobol", "centered", "weighted"):
        dt = torch.int64 if allint and rng.random() < 0.5 else torch.float64
        torch.manual_seed(rng.randrange(1 << 30))
        x = S[name].sample(N, to=to, dtype=dt)
        res.count("samples", N * n)
        check_inside(res, x, doms, name, False)
        for i, t in enumerate(doms):
            c = cen[i]
            mix = [(1.0, c)] if name == "centered" else [(0.7, None), (0.3, c)] if name == "weighted" else [(1.0, None)]
            distribution(res, x[:, i], t, mix, f"{name}", N)
    if n <= 6:
        torch.manual_seed(rng.randrange(1 << 30))
        b = S["border"].sample(2**n, to=to, dtype=torch.float64)
        seen = {tuple(r) for r in b.tolist()}
        if len(seen) != 2**n:
            res.viol("border-incomplete", f"{len(seen)} distinct of {2**n} corners of {doms}")
        for r in seen:
            for v, t in zip(r, doms):
                lo, hi = lohi(t)
                if not (math.isclose(v, lo, rel_tol=1e-9, abs_tol=1e-300) or math.isclose(v, hi, rel_tol=1e-9)) and abs(v - lo) > 1e-12 * (hi - lo):
                    res.viol("border-inner", f"corner coordinate {v!r} of {t}")
    # a mixture takes each part in proportion to its weight
    w = [rng.choice([0.0, 1.0, 2.0, 0.3]), rng.choice([1.0, 5.0, 0.1])]
    from neps.search_spaces.domain import Domain

    unitd = [Domain.unit_float()] * n
    parts = [Prior.make_centered(unitd, [(0.1, 0.98)] * n), Prior.make_centered(unitd, [(0.9, 0.98)] * n)]
    m = WeightedSampler(parts, torch.tensor(w))
    M = 3000
    torch.manual_seed(rng.randrange(1 << 30))
    y = m.sample(M, to=unitd, dtype=torch.float64)
    low = (y < 0.5)
    res.count("mixtures")
    if not bool((low.all(dim=1) | (~low).all(dim=1)).all()):
        res.viol("mixture-torn", "a row of a weighted sample mixes columns of several samplers")
    p = w[0] / sum(w)
    f = low[:, 0].double().mean().item()
    if abs(f - p) > Z * math.sqrt(p * (1 - p) / M) + 1e-6:
        res.viol("mixture-weights", f"weights {w}: {f} of the points from the first sampler, expected {p}")


def cdf(t, c, u):
    """P(unit position <= u) of one coordinate."""
    if c is None:
        return min(1.0, max(0.0, u))
    from scipy.stats import norm

    mu, sd = unit(t, c[0]), max(1 - c[1], 1e-6)
    a, b = norm.cdf(0, mu, sd), norm.cdf(1, mu, sd)
    return min(1.0, max(0.0, (norm.cdf(u, mu, sd) - a) / (b - a)))


def pmf(t, c, k, q):
    """Mass of the k-th of q equal cells."""
    if t["k"] == "indices" and c is not None:
        return c[1] if k == c[0] else (1 - c[1]) / (q - 1)
    return cdf(t, c, (k + 1) / q) - cdf(t, c, k / q)


def distribution(res, col, t, mix, name, N):
    import torch

    col = col.to(torch.float64)
    lo, hi = lohi(t)
    res.count("distribution_checks")
    res.sig("distribution", name, tkind(t), "centre" if any(c for _, c in mix) else "flat")
    discrete = t["k"] == "indices" or (t["k"] == "integer" and not t["log"])
    q = (hi - lo + 1) if discrete else None
    if discrete and q <= 60:
        cnt = torch.bincount((col - lo).long(), minlength=q).tolist()
        need_all = True
        for k in range(q):
            p = sum(w * pmf(t, c, k, q) for w, c in mix)
            if abs(cnt[k] / N - p) > Z * math.sqrt(max(p * (1 - p), 1e-9) / N) + 2e-4 + 3 / N:
                res.viol(f"distribution:{name}", f"{name}: value {lo + k} of {t} with {mix} in {cnt[k] / N:.4f} of {N} samples, expected {p:.4f}")
                return
            if p * N > 40 and cnt[k] == 0:
                res.viol(f"never:{name}", f"{name}: value {lo + k} of {t} never occurs in {N} samples")
            need_all &= p * N > 40
        if need_all:
            res.count("all_values_hit")
        return
    if t["k"] == "indices" or t.get("bins"):
        return
    for u in (0.1, 0.25, 0.5, 0.75, 0.9):
        edge = math.exp(math.log(lo) + u * (math.log(hi) - math.log(lo))) if t["log"] else lo + u * (hi - lo)
        if t["k"] == "integer":
            edge = math.floor(edge)
            if not lo <= edge < hi:
                continue
            # integers on a log scale are the rounded values of the continuous range, linear ones fill equal cells
            uu = (math.log(edge + 0.5) - math.log(lo)) / (math.log(hi) - math.log(lo)) if t["log"] else (edge - lo + 1) / (hi - lo + 1)
        else:
            uu = u
        p = sum(w * cdf(t, c, uu) for w, c in mix)
        f = (col <= edge).double().mean().item()
        if abs(f - p) > Z * math.sqrt(max(p * (1 - p), 1e-9) / N) + 2e-4 + 3 / N:
            res.viol(f"distribution:{name}", f"{name}: {f:.4f} of {N} samples of {t} with {mix} are <= {edge!r}, expected {p:.4f}")
            return


def log_density(t, c, v):
    from scipy.stats import norm

    if c is None:
        return 0.0
    if t["k"] == "indices" and t.get("is_categorical"):
        m = c[1] if v == c[0] else (1 - c[1]) / (t["n"] - 1)
        return math.log(m) if m > 0 else -math.inf
    mu, sd = unit(t, c[0]), 1 - c[1]
    return float(norm.logpdf(unit(t, v), mu, sd) - math.log(norm.cdf(1, mu, sd) - norm.cdf(0, mu, sd)))


def density(case, rng, res):
    import torch

    from neps.sampling.priors import Prior

    doms = [{**t, "bins": None} if "bins" in t else t for t in case["doms"]]
    to = [build(t) for t in doms]
    n = len(doms)
    cen = [None if c is None else (c[0], c[1]) for c in case["centers"]]
    prior = Prior.make_centered(to, cen)
    rows = [[value_at(t, rng.choice([0.0, 1.0, rng.random(), rng.random()])) for t in doms] for _ in range(30)]
    rows.append([c[0] if c else value_at(t, 0.3) for t, c in zip(doms, cen)])
    x = torch.tensor(rows, dtype=torch.float64)
    before = x.clone()
    lp = prior.log_prob(x, frm=to)
    if not torch.equal(x, before):
        res.viol("density-modifies-input", "log_prob changed the values given")
    if tuple(lp.shape) != (len(rows),):
        res.viol("density-shape", f"log_prob of {tuple(x.shape)} has shape {tuple(lp.shape)}")
        return
    for i in range(0, len(rows), 7):  # a single configuration as a vector
        v = prior.log_prob(x[i], frm=to)
        if v.numel() != 1 or not (v.flatten()[0] == lp[i] or torch.isclose(v.flatten()[0], lp[i], atol=1e-6)):
            res.viol("density-vector", f"log_prob of the vector {x[i].tolist()} is {v.tolist()}, as a row {lp[i].item()}")
    batch = prior.log_prob(x.view(1, len(rows), n), frm=to)
    if tuple(batch.shape) != (1, len(rows)) or not torch.allclose(batch[0], lp, equal_nan=True):
        res.viol("density-batch", "log_prob differs for batched input")
    pr = prior.prob(x, frm=to)
    res.count("density_points", len(rows) * n)
    for r, (row, l) in enumerate(zip(rows, lp.tolist())):
        want = sum(log_density(t, c, v) for t, c, v in zip(doms, cen, row))
        if math.isnan(l) or l == math.inf:
            res.viol("density-nan", f"log density {l} at {row} of {doms} with {cen}")
        elif not (l == want or abs(l - want) <= 2e-3 + 1e-4 * abs(want)):
            res.viol("density-value", f"log density {l!r} at {row} of {doms} with {cen}, expected {want!r}")
            return
        if not math.isclose(pr[r].item(), math.exp(l), rel_tol=1e-6, abs_tol=1e-12):
            res.viol("prob", f"prob {pr[r].item()} for log density {l}")
    for t, c in zip(doms, cen):
        res.sig("density", tkind(t), "centre" if c else "none", "confident" if c and c[1] > 0.5 else "")
    # the centre is the peak, coordinate by coordinate
    top = rows[-1]
    for i, (t, c) in enumerate(zip(doms, cen)):
        alts = [value_at(t, u) for u in (0.0, 0.2, 0.5, 0.8, 1.0)] if t["k"] != "indices" else list(range(t["n"]))
        y = torch.tensor([[*top[:i], v, *top[i + 1:]] for v in alts], dtype=torch.float64)
        v = prior.log_prob(y, frm=to).tolist()
        if c is None:
            if max(v) - min(v) > 1e-9:
                res.viol("density-no-default", f"column {i} of {doms} has no centre, yet log density varies {v}")
        elif t["k"] != "indices" and c[1] > 0 and max(v) > lp[-1].item() + 1e-6:
            res.viol("density-peak", f"log density {max(v)} exceeds {lp[-1].item()} at the centre of column {i} of {doms} with {cen}")
    # order of columns does not matter, nor the scale the values are given in
    perm = list(range(n))
    rng.shuffle(perm)
    p2 = Prior.make_centered([to[i] for i in perm], [cen[i] for i in perm])
    if not torch.allclose(p2.log_prob(x[:, perm], frm=[to[i] for i in perm]), lp, atol=1e-6):
        res.viol("density-order", f"log density depends on the order of {doms} with {cen}")
    from neps.search_spaces.domain import Domain

    mixed = [Domain.unit_float() if t["k"] == "floating" or t.get("log") else d for t, d in zip(doms, to)]
    xu = x.clone()
    for i, t in enumerate(doms):
        if mixed[i] is not to[i]:
            xu[:, i] = torch.tensor([unit(t, v) for v in x[:, i].tolist()])
    l3 = prior.log_prob(xu, frm=mixed)
    if not torch.allclose(l3, lp, atol=2e-3, rtol=1e-4):
        res.viol("density-scale", f"log density {l3.tolist()[:3]} of unit values, {lp.tolist()[:3]} of the same points in {doms}")


def params(case, rng, res):
    """Priors made from parameters: their defaults are the peak, in whatever order they are given."""
    import torch

    from neps.sampling.priors import Prior

    spec = case["spec"]
    ps = gen.build(spec)
    names = list(ps)
    prior = Prior.from_parameters(ps[k] for k in names)
    doms = [ps[k].domain for k in names]
    res.count("parameter_priors")
    if prior.ncols != len(names):
        res.viol("param-columns", f"{prior.ncols} columns for {len(names)} parameters")
        return

    def enc(k, v):
        return float(spec[k]["choices"].index(v)) if spec[k]["type"] == "cat" else float(v)

    top = {k: spec[k].get("default", gen.gen_value(rng, spec[k])) for k in names}
    rows = [top] + [{**top, **{k: gen.gen_value(rng, spec[k]) for k in rng.sample(names, rng.randint(1, len(names)))}} for _ in range(25)]
    x = torch.tensor([[enc(k, r[k]) for k in names] for r in rows], dtype=torch.float64)
    lp = prior.log_prob(x, frm=doms).tolist()
    res.count("density_points", len(rows))
    for r, l in zip(rows[1:], lp[1:]):
        if not l <= lp[0] + 1e-6:
            res.viol("param-peak", f"log density {l} at {r} exceeds {lp[0]} at the defaults {top} of {spec}")
            break
    for k in names:
        res.sig("param", spec[k]["type"], "log" if spec[k].get("log") else "", spec[k].get("default_confidence", "none"))
    # higher confidence, higher peak
    for k in names:
        s = spec[k]
        if "default" not in s or s["type"] == "cat":
            continue
        peaks = []
        for conf in ("low", "medium", "high"):
            p1 = gen.build({k: {**s, "default_confidence": conf}})[k]
            pr = Prior.from_parameters([p1])
            peaks.append(pr.log_prob(torch.tensor([[enc(k, s["default"])]], dtype=torch.float64), frm=[p1.domain]).flatten()[0].item())
        if not peaks[0] < peaks[1] < peaks[2]:
            res.viol("param-confidence", f"peak log densities {peaks} of {s} for low, medium, high confidence")
    N = 2000
    torch.manual_seed(case["seed"])
    y = prior.sample(N, to=doms, dtype=torch.float64)
    res.count("samples", N * len(names))
    mapping = {"low": 0.25, "medium": 0.5, "high": 0.75}
    for i, k in enumerate(names):
        s = spec[k]
        for v in y[:50, i].tolist():
            v = (s["choices"][int(v)] if v in range(len(s["choices"])) else v) if s["type"] == "cat" else int(v) if s["type"] == "int" and v == int(v) else v
            r = gen.in_domain(s, v)
            if r:
                res.viol("param-outside", f"{k}: {r}")
        if s["type"] == "cat":
            k = len(s["choices"])
            w = {"low": 2, "medium": 4, "high": 6}[s["default_confidence"]] if "default" in s else 1
            c = (next(j for j, v in enumerate(s["choices"]) if type(v) is type(s["default"]) and v == s["default"]), w / (w + k - 1)) if "default" in s else None
            distribution(res, y[:, i], {"k": "indices", "n": k, "is_categorical": True}, [(1.0, c)], "parameters", N)
            continue
        t = {"k": "floating" if s["type"] == "float" else "integer", **{a: s[a] for a in ("lower", "upper", "log")}}
        distribution(res, y[:, i], t, [(1.0, (s["default"], mapping[s["default_confidence"]]) if "default" in s else None)], "parameters", N)
