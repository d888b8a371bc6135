"""C16: config encodings and domain casts, judged against an independent reading of the declared domains."""
from __future__ import annotations

import math
import random

from vlib import gen, mw

LEVEL = "exploration"
RULE = ("a case is either a generated mixed space whose configurations (corners included) are encoded and decoded in batches, or a generated pair of domains (float/integer/index, log, binned) "
        "whose casts are checked on bounds, random and adjacent points; distinct_nontrivial counts distinct (domain kind, cast kind or transformer kind) observed")
ASSUMPTIONS = ["64-bit tensors (the default everywhere in the library)"]
MIN = {"quick": {"spaces": 250, "configs": 1800, "decoded_points": 8000, "domain_pairs": 700, "cast_values": 60000, "bins_hit": 2000, "positions": 5000}}


def gen_domain(rng):
    k = rng.choice(["float", "float", "int", "int", "indices"])
    if k == "float":
        s = gen.gen_float(rng, default=False)
        return {"k": "floating", "lower": s["lower"], "upper": s["upper"], "log": s["log"], "bins": rng.choice([None, None, 2, 3, 5, 10, 17])}
    if k == "int":
        s = gen.gen_int(rng, default=False)
        n = s["upper"] - s["lower"] + 1
        return {"k": "integer", "lower": s["lower"], "upper": s["upper"], "log": s["log"], "bins": rng.choice([None, None, None] + [b for b in (2, 3, 5, 10) if b <= n])}
    return {"k": "indices", "n": rng.choice([2, 3, 4, 7, 12, 50, 1000])}


def cases(tier, seed):
    rng = random.Random(f"c16-{seed}")
    for i in range(320 if tier == "quick" else 6000):
        spec = gen.gen_space(rng, nmin=1, nmax=6)
        if rng.random() < 0.2:  # a long list of choices
            ch = [[rng.choice([i, i + 0.5, f"c{i}"]) for i in range(n)] for n in [rng.choice([31, 40, 50, 64, 130])]][0]
            rng.shuffle(ch)
            spec[f"{rng.choice('amz')}9"] = {"type": "cat", "choices": ch}
        yield {"kind": "enc", "spec": spec, "seed": rng.randrange(1 << 30), "unitcat": rng.random() < 0.3}
    for i in range(900 if tier == "quick" else 10000):
        a, b = gen_domain(rng), gen_domain(rng)
        if rng.random() < 0.25:
            b = related(rng, a) or b
        if rng.random() < 0.5:
            a, b = b, a
        yield {"kind": "dom", "a": a, "b": b, "seed": rng.randrange(1 << 30)}


def related(rng, a):
    """A domain with the same bounds on another scale, with other bins, or over the logarithms of a log domain."""
    if a["k"] == "indices":
        return {"k": "integer", "lower": 0, "upper": a["n"] - 1, "log": False, "bins": None}
    kind = rng.choice(["scale", "bins", "logs", "type"])
    if kind == "scale" and a["lower"] > 0:
        return {**a, "log": not a["log"], "bins": rng.choice([None, a["bins"]])}
    if kind == "logs" and a["log"]:
        return {"k": "floating", "lower": math.log(a["lower"]), "upper": math.log(a["upper"]), "log": False, "bins": rng.choice([None, None, 5])}
    if kind == "type" and a["k"] == "integer":
        return {**a, "k": "floating", "bins": rng.choice([None, a["upper"] - a["lower"] + 1 if a["upper"] - a["lower"] < 2000 else None])}
    return {**a, "bins": rng.choice([2, 3, 7]) if a["k"] == "floating" or a["upper"] - a["lower"] >= 6 else None}


def build(s):
    from neps.search_spaces.domain import Domain

    s = dict(s)
    k = s.pop("k")
    return getattr(Domain, k)(**s)


def dkind(s):
    return f"{s['k']}{'-log' if s.get('log') else ''}{'-bins' if s.get('bins') else ''}"


def run_case(case, d, res):
    mw.seed_all(case["seed"])
    (encoder if case["kind"] == "enc" else domains)(case, random.Random(case["seed"]), res)
    if case["seed"] % 40 == 0:
        res.sample = case


def encoder(case, rng, res):
    import torch

    from neps.search_spaces.encoding import CategoricalToUnitNorm, ConfigEncoder
    from neps.search_spaces.search_space import SearchSpace

    spec = case["spec"]
    sp = SearchSpace(**gen.build(spec))
    params = {**sp.numerical, **sp.categoricals, **sp.fidelities}
    custom = {k: CategoricalToUnitNorm(sp[k].choices) for k in sp.categoricals} if case["unitcat"] else None
    items = list(params.items())
    rng.shuffle(items)
    enc = ConfigEncoder.default(dict(items), constants=sp.constants, custom_transformers=custom)
    names = sorted(params)
    n = rng.choice([0, 1, 2, 7, 30])
    configs = [gen.gen_config(rng, spec) for _ in range(n)]
    for c in configs:
        for k, s in spec.items():
            if s["type"] == "float" and rng.random() < 0.1:
                c[k] = min(s["upper"], max(s["lower"], math.nextafter(rng.choice([s["lower"], s["upper"]]), rng.choice([-math.inf, math.inf]))))
    given = [dict(rng.sample(list({**c, "unrelated": 3}.items()), len(c) + 1)) for c in configs]
    copy = [dict(c) for c in given]
    x = enc.encode(given)
    res.count("spaces")
    res.count("configs", n)
    if given != copy:
        res.viol("encode-changed-config", f"{copy} became {given}")
    if tuple(x.shape) != (n, len(names)) or x.dtype != torch.float64:
        res.viol("shape", f"{x.shape} {x.dtype} for {n} configurations of {names}")
        return
    if len(enc.domains) != len(names) or enc.ncols != len(names) or sorted(enc.index_of, key=enc.index_of.get) != list(enc.domain_of):
        res.viol("columns", f"{enc.index_of} {list(enc.domain_of)} {enc.ncols}")
    for name in names:
        j = enc.index_of[name]
        dom = enc.domain_of[name]
        for i in range(n):
            r = in_dom(dom, float(x[i, j]))
            if r:
                res.viol("encoded-outside", f"{name}={configs[i][name]!r} of {spec[name]} encodes to {float(x[i, j])!r}: {r}")
        # order preserving, and different values have different codes
        vs = [(configs[i][name], float(x[i, j])) for i in range(n)]
        for a, ea in vs:
            for b, eb in vs:
                if spec[name]["type"] in ("int", "float") and a < b and not (ea <= eb if spec[name]["type"] == "float" else ea < eb):
                    res.viol("encoded-order", f"{spec[name]}: {a!r} -> {ea!r}, {b!r} -> {eb!r}")
                if spec[name]["type"] == "cat" and (a == b and type(a) is type(b)) != (ea == eb):
                    res.viol("encoded-order", f"{spec[name]}: {a!r} -> {ea!r}, {b!r} -> {eb!r}")
        res.sig(spec[name]["type"], spec[name].get("log"), case["unitcat"])
    if n:
        i = rng.randrange(n)
        if not torch.equal(enc.encode([given[i]])[0], x[i]):
            res.viol("row-dependent", f"row {i} alone encodes to {enc.encode([given[i]])[0]} but in the batch to {x[i]}")
    x0 = x.clone()
    back = enc.decode(x)
    if not torch.equal(x, x0):
        res.viol("decode-changed-input", f"{x0} became {x}")
    if len(back) != n:
        res.viol("decode-count", f"{len(back)} of {n}")
        return
    for c, b in zip(configs, back):
        same_config(res, spec, c, b)
    # any point of the encoded domain decodes to a legal configuration
    m = 30
    z = torch.empty((m, len(names)), dtype=torch.float64)
    for name in names:
        dom = enc.domain_of[name]
        for i in range(m):
            u = rng.choice([0.0, 1.0, 1e-17, 1 - 2**-53, rng.random(), rng.random()])
            v = dom.lower + u * (dom.upper - dom.lower)
            if dom.cardinality is not None:
                q = dom.cardinality
                k = min(q - 1, int(u * q))
                v = dom.lower + (dom.upper - dom.lower) * k / (q - 1)
            z[i, enc.index_of[name]] = min(dom.upper, v)
    for i, c in enumerate(enc.decode(z)):
        res.count("decoded_points")
        r = gen.check_config(spec, c)
        if r:
            res.viol("decoded-outside", f"{z[i].tolist()} of {spec} decodes to {c}: {r}")


def same_config(res, spec, c, b):
    if set(c) != set(b):
        res.viol("decode-keys", f"{sorted(c)} became {sorted(b)}")
        return
    for k, s in spec.items():
        r = gen.in_domain(s, b[k])
        if r:
            res.viol("decoded-outside", f"{k}={c[k]!r} comes back as {b[k]!r}: {r}")
        if s["type"] == "float":
            tol = 1e-9 * (s["upper"] - s["lower"]) if not s["log"] else 1e-9 * abs(c[k]) * max(1.0, math.log(s["upper"] / s["lower"]))
            if abs(b[k] - c[k]) > tol + 1e-12 * abs(c[k]):
                res.viol("lossy-float", f"{k}={c[k]!r} of {s} comes back as {b[k]!r}")
        elif not (type(b[k]) is type(c[k]) and b[k] == c[k]):
            res.viol(f"lossy-{s['type']}", f"{k}={c[k]!r} of {s} comes back as {b[k]!r}")


def in_dom(dom, v, tol=0.0):
    if math.isnan(v) or not dom.lower - tol <= v <= dom.upper + tol:
        return f"outside [{dom.lower}, {dom.upper}]"
    if dom.round and v != round(v):
        return "not an integer"
    if dom.bins and dom.log_bounds is None and not dom.round:
        k = (v - dom.lower) / (dom.upper - dom.lower) * (dom.bins - 1)
        if abs(k - round(k)) > 1e-6:
            return f"not one of the {dom.bins} bin values"
    return None


def domains(case, rng, res):
    import torch

    from neps.search_spaces.domain import Domain

    sa, sb = case["a"], case["b"]
    A, B = build(sa), build(sb)
    res.count("domain_pairs")
    res.sig(dkind(sa), dkind(sb))
    us = sorted([0.0, 1.0, 1e-17, 1 - 2**-53, 0.5] + [rng.random() for _ in range(30)])
    u = torch.tensor(us, dtype=torch.float64)
    for s, D in ((sa, A), (sb, B)):
        lo, hi = (0, s["n"] - 1) if s["k"] == "indices" else (s["lower"], s["upper"])
        if (D.lower, D.upper) != (lo, hi):
            res.viol("domain-bounds", f"{s}: {D}")
        want_card = s.get("bins") or (None if s["k"] == "floating" else hi - lo + 1)
        if D.cardinality != want_card:
            res.viol("cardinality", f"{s}: {D.cardinality} instead of {want_card}")
        y = D.from_unit(u)
        if D.is_int != (s["k"] != "floating") or y.dtype != (torch.float64 if s["k"] == "floating" else torch.int64):
            res.viol("dtype", f"{s}: {y.dtype}")
        ok(res, D, s, y.tolist(), f"from_unit of {s}")
        mono(res, us, y.tolist(), f"from_unit of {s}")
        bnd(res, D, y[0].item(), lo, f"from_unit(0) of {s}")
        bnd(res, D, y[-1].item(), hi, f"from_unit(1) of {s}")
        back = D.to_unit(torch.tensor([lo, hi], dtype=torch.float64))
        if abs(back[0].item()) > 1e-12 or abs(back[1].item() - 1) > 1e-12:
            res.viol("bounds-to-bounds", f"to_unit of the bounds of {s}: {back.tolist()}")
        v = D.to_unit(y)
        if bool(((v < 0) | (v > 1)).any()):
            res.viol("unit-outside", f"to_unit of {s} gave {[q for q in v.tolist() if not 0 <= q <= 1]} for {y.tolist()}")
        if want_card is None:
            if not torch.allclose(v, u, atol=1e-6, rtol=0) and s["lower"] + (s["upper"] - s["lower"]) * 1e-9 != s["lower"] and not (s["log"] and s["upper"] / s["lower"] < 1 + 1e-5):
                res.viol("unit-roundtrip", f"{s}: {(v - u).abs().max().item()}")
        elif D.from_unit(v).tolist() != y.tolist() and s["k"] != "floating" and (not s.get("bins") or (hi - lo) % (s["bins"] - 1) == 0 and not s["log"]):
            res.viol("unit-roundtrip", f"{s}: values {y.tolist()} come back as {D.from_unit(v).tolist()}")
        # every value of a finite domain is reachable, and by some code of its own
        if want_card is not None and want_card <= 1100:
            g = torch.linspace(0, 1, 40 * want_card + 1, dtype=torch.float64)
            if s.get("log") and s["k"] == "integer" and not s.get("bins"):
                k = torch.arange(lo, hi + 1, dtype=torch.float64)
                g = torch.cat([g, (torch.log(k) - math.log(lo)) / (math.log(hi) - math.log(lo))]).clip(0, 1)
            got = set(D.from_unit(g).tolist())
            res.count("bins_hit", len(got))
            if s["k"] != "floating" and not s.get("bins"):
                if got != set(range(lo, hi + 1)):
                    res.viol("value-unreachable", f"{s}: never {sorted(set(range(lo, hi + 1)) - got)[:8]}, extra {sorted(got - set(range(lo, hi + 1)))[:5]}")
            elif len(got) != want_card and not (s.get("log") and s["k"] == "integer"):
                res.viol("value-unreachable", f"{s}: {len(got)} different values")
        # a domain cast to itself is the identity on its values
        same = D.cast(y, frm=D)
        if same.tolist() != y.tolist():
            res.viol("cast-to-self", f"{s}: {y.tolist()} became {same.tolist()}")
    # from one to the other
    x = torch.unique(A.from_unit(u))
    z = B.cast(x, frm=A)
    ok(res, B, sb, z.tolist(), f"cast from {sa} to {sb}")
    mono(res, x.tolist(), z.tolist(), f"cast from {sa} to {sb}")
    bnd(res, B, z[0].item(), B.lower, f"cast of the lower bound of {sa} to {sb}")
    bnd(res, B, z[-1].item(), B.upper, f"cast of the upper bound of {sa} to {sb}")
    if A.cardinality is None and B.cardinality is None:
        b = A.cast(z, frm=B)
        span = A.upper - A.lower
        narrow = any(s["log"] and s["upper"] / s["lower"] < 1 + 1e-5 or abs(s["upper"]) > 1e6 * (s["upper"] - s["lower"]) for s in (sa, sb))
        if not narrow and not torch.allclose(b, x, atol=1e-6 * span, rtol=1e-6):
            res.viol("cast-roundtrip", f"{sa} to {sb} and back: {x.tolist()[:5]} became {b.tolist()[:5]}")
    # relative positions (on the declared scales) are kept up to the resolution of the two domains
    eps = 1e-6 + sum(1 / D.cardinality for s, D in ((sa, A), (sb, B)) if D.cardinality is not None and (s.get("bins") or not (s["k"] == "integer" and s["log"])))
    if not any(s["k"] != "indices" and (s.get("log") and s["upper"] / s["lower"] < 1 + 1e-5 or abs(s["upper"]) > 1e6 * (s["upper"] - s["lower"])) for s in (sa, sb)):
        for a, b in zip(x.tolist(), z.tolist()):
            p = position(sa, A, a)
            lo, hi = value_at(sb, B, p - eps), value_at(sb, B, p + eps)
            slack = (0.5 if B.round else 0.0) + 1e-9 * abs(B.upper) + (1e-12 if not B.round and A.round and sa.get("log") else 0)
            if A.round and (sa.get("log") or sa.get("bins")):  # values of A may be rounded themselves
                lo, hi = min(lo, value_at(sb, B, position(sa, A, max(A.lower, a - 0.5)) - eps)), max(hi, value_at(sb, B, position(sa, A, min(A.upper, a + 0.5)) + eps))
            res.count("positions")
            if not lo - slack <= b <= hi + slack:
                res.viol("cast-position", f"cast from {sa} to {sb}: {a!r} became {b!r}, expected a value in [{lo!r}, {hi!r}]")
                break
    # one value at a time
    for a, b in list(zip(x.tolist(), z.tolist()))[:: max(1, len(x) // 4)]:
        c = B.cast_one(a, frm=A)
        if type(c) is not (int if B.is_int else float) or not (c == b or abs(c - b) <= 1e-9 * max(abs(b), B.upper - B.lower if sb["k"] == "floating" and not sb["log"] else 0)):
            res.viol("cast-one", f"{a!r} of {sa} alone casts to {c!r} of {sb}, in a tensor to {b!r}")
        w = A.to_unit_one(a)
        if abs(w - A.to_unit(torch.tensor([a], dtype=torch.float64))[0].item()) > 1e-9:
            res.viol("cast-one", f"{a!r} of {sa} alone normalises to {w!r}")
    # several columns at once
    pts = torch.stack([A.from_unit(u).to(torch.float64), B.from_unit(u).to(torch.float64)], dim=1)
    t = Domain.translate(pts, frm=[A, B], to=[B, A], dtype=torch.float64)
    if not torch.equal(t[:, 0], B.cast(pts[:, 0], frm=A, dtype=torch.float64)) or not torch.equal(t[:, 1], A.cast(pts[:, 1], frm=B, dtype=torch.float64)):
        res.viol("translate", f"translate differs from casting column by column for {sa}, {sb}")


def position(s, D, v):
    if s.get("log"):
        return (math.log(v) - math.log(s["lower"])) / (math.log(s["upper"]) - math.log(s["lower"]))
    return (v - D.lower) / (D.upper - D.lower)


def value_at(s, D, p):
    p = min(1.0, max(0.0, p))
    if s.get("log"):
        return math.exp(math.log(s["lower"]) + p * (math.log(s["upper"]) - math.log(s["lower"])))
    return D.lower + p * (D.upper - D.lower)


def ok(res, D, s, vals, what):
    for v in vals:
        res.count("cast_values")
        r = in_dom(D, v)
        if r:
            res.viol("cast-outside", f"{what}: {v!r} {r}")
            return


def mono(res, xs, ys, what):
    for (a, b), (c, e) in zip(zip(xs, ys), zip(xs[1:], ys[1:])):
        if a <= c and b > e:
            res.viol("not-monotone", f"{what}: {a!r} -> {b!r} but {c!r} -> {e!r}")
            return


def bnd(res, D, v, want, what):
    if (v != want) if D.round else abs(v - want) > 1e-9 * max(abs(want), D.upper - D.lower if D.log_bounds is None else 0):
        res.viol("bounds-to-bounds", f"{what} is {v!r} instead of {want!r}")
