"""C25: architectures of grammar-based parameters: derivable, closed under the operators, round trip."""
from __future__ import annotations

import math
import random
import warnings

LEVEL = "exploration"
RULE = ("a case is one generated grammar (nested topologies, recursion, identities, zeros, prefixes among the names) with a sequence of samples, mutations, crossovers, clones and reloads; "
        "every string is parsed by an independent recogniser of the declared grammar and its graph compared (colour refinement in both directions) with one composed independently; distinct_nontrivial counts distinct (operation, size of the derivation, structure of the grammar)")
ASSUMPTIONS = ["the start symbol derives a topology (NePS needs one to place primitives)", "every topology is given as many arguments as it has edges", "conversion to PyTorch is not covered: NePS 0.12.2 is the last version documented to support it"]
MIN = {"quick": {"samples": 1200, "mutations": 900, "crossovers": 350, "graphs": 1500, "priors": 400, "reloads": 1200, "frequencies": 60}}
CASE_TIMEOUT = 240

EDGES = {
    "seq1": [(1, 2)], "seq2": [(1, 2), (2, 3)], "seq3": [(1, 2), (2, 3), (3, 4)],
    "res": [(1, 2), (1, 3), (2, 3)], "dia": [(1, 2), (1, 3), (2, 4), (3, 4)],
    "mid": [(1, 2), (1, 3), (2, 3), (2, 4), (3, 4)], "den3": [(1, 2), (1, 3), (2, 3)],
    "den4": [(1, 2), (1, 3), (2, 3), (1, 4), (2, 4), (3, 4)],
}


def cases(tier, seed):
    rng = random.Random(f"c25-{seed}")
    for i in range(96 if tier == "quick" else 1600):
        yield {"g": gen_grammar(rng), "n": 16, "seed": rng.randrange(1 << 30)}


def gen_grammar(rng):
    """name -> list of productions; a production is a list of symbols, the topology first (or one primitive)"""
    tnames = rng.sample(["T", "Tt", "Seq", "Sequential", "DenseCell", "Res", "cell", "Cel", "x", "topo1", "topo12"], rng.randint(1, 4))
    topo = {n: rng.choice(list(EDGES)) for n in tnames}
    prims = rng.sample(["a", "ab", "abc", "conv", "conv3x3", "conv1x1", "avg_pool", "avg", "p1", "p12", "op"], rng.randint(2, 4))
    if rng.random() < 0.5:
        prims.append(rng.choice(["id", "Identity"]))
    if rng.random() < 0.3:
        prims.append(rng.choice(["zero", "Zero"]))
    names = rng.sample(["S", "SS", "C", "C2", "CELL", "OPS", "OP", "O", "OO", "Block", "B"], rng.randint(2, 5))
    rules = {}
    for i, n in enumerate(names):
        prods = []
        last = i == len(names) - 1
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            if last or (i > 0 and rng.random() < 0.2):
                prods.append([rng.choice(prims)])
                continue
            t = rng.choice(tnames)
            args = []
            for _e in EDGES[topo[t]]:
                args.append(rng.choice(names[i + 1:]) if rng.random() < 0.8 else rng.choice(prims))
            if prods and rng.random() < 0.15:  # recursion, after a production without it
                args[rng.randrange(len(args))] = n
            prods.append([t, *args])
        rules[n] = [p for j, p in enumerate(prods) if p not in prods[:j]]
    # the size of a tree stays small
    size = {}

    def sz(n):
        if n not in rules:
            return 1
        if n not in size:
            size[n] = 1
            size[n] = max(1 + sum(sz(s) for s in p) for p in rules[n])
        return size[n]

    if sz(names[0]) > 260 or not any(len(v) > 1 for v in rules.values()):
        return gen_grammar(rng)
    reach, todo = set(), [names[0]]
    while todo:
        n = todo.pop()
        if n in rules and n not in reach:
            reach.add(n)
            todo += [s for p in rules[n] for s in p]
    rules = {n: rules[n] for n in names if n in reach}
    if not any(len(v) > 1 for v in rules.values()):
        return gen_grammar(rng)
    prior = None
    if rng.random() < 0.6:
        prior = {}
        for n, ps in rules.items():
            w = [rng.choice([0, 1, 1, 2, 5]) for _ in ps]
            if any(n in p for p in ps):
                w = [1 if n not in p else 0.4 for p in ps]
            if not sum(w):
                w[0] = 1
            prior[n] = [x / sum(w) for x in w]
    return {"rules": rules, "topo": topo, "prims": prims, "prior": prior, "form": rng.choice(["dict", "dict", "str"])}


# ---------------------------------------------------------------- independent reading of an architecture
def parse(s):
    """the bracketed string as nested tuples (head, children...)"""
    toks = s.replace("(", " ( ").replace(")", " ) ").split()
    pos = 0

    def node():
        nonlocal pos
        if toks[pos] != "(":
            raise ValueError(f"unexpected {toks[pos]!r}")
        head, pos = toks[pos + 1], pos + 2
        kids = []
        while toks[pos] != ")":
            if toks[pos] == "(":
                kids.append(node())
            else:
                kids.append(toks[pos])
                pos += 1
        pos += 1
        return (head, *kids)

    t = node()
    if pos != len(toks):
        raise ValueError("more text after the tree")
    return t


def head(k):
    return k if isinstance(k, str) else k[0]


def derivable(t, rules, start):
    if t[0] != start:
        return f"starts with {t[0]!r} instead of {start!r}"
    todo = [t]
    while todo:
        n = todo.pop()
        rhs = [head(k) for k in n[1:]]
        if n[0] not in rules or rhs not in rules[n[0]]:
            return f"{n[0]} -> {' '.join(rhs)} is not a production"
        for k in n[1:]:
            if isinstance(k, str) != (k not in rules if isinstance(k, str) else False):
                return f"nonterminal {k!r} is not expanded"
            if not isinstance(k, str):
                todo.append(k)
    return None


def compose(t, g):
    """list of (u, v, op): the edges with their primitives"""
    out, new = [], [2]

    def put(n, u, v):
        while not isinstance(n, str):
            if isinstance(n[1], str) and n[1] in g["topo"]:
                break
            n = n[1]
        if isinstance(n, str):
            out.append((u, v, n))
            return
        el = EDGES[g["topo"][n[1]]]
        hi = max(max(e) for e in el)
        m = {1: u, hi: v}
        for k in range(2, hi):
            m[k] = new[0]
            new[0] += 1
        for (a, b), k in zip(el, n[2:]):
            put(k, m[a], m[b])

    put(t, 0, 1)
    return out


def graph(t, g):
    import networkx as nx

    ed = compose(t, g)
    G = nx.DiGraph()
    G.add_node("in", op="input")
    G.add_node("out", op="output")
    for i, (u, v, op) in enumerate(ed):
        G.add_node(i, op=op)
    for i, (u, v, _) in enumerate(ed):
        if u == 0:
            G.add_edge("in", i)
        if v == 1:
            G.add_edge(i, "out")
        for j, (a, b, _) in enumerate(ed):
            if v == a:
                G.add_edge(i, j)
    for i, (_, _, op) in enumerate(ed):
        if op in ("zero", "Zero"):
            G.remove_node(i)
    for i, (_, _, op) in enumerate(ed):
        if op in ("id", "Identity") and i in G:
            G.add_edges_from([(a, b) for a in list(G.predecessors(i)) for b in list(G.successors(i))])
            G.remove_node(i)
    if not nx.has_path(G, "in", "out"):
        return None
    keep = (nx.descendants(G, "in") | {"in"}) & (nx.ancestors(G, "out") | {"out"})
    return G.subgraph(keep)


def colours(G, key):
    """the stable colours of the nodes: equal for equal graphs, whatever the names of the nodes (isomorphism itself is exponential in the worst case)"""
    import collections
    import hashlib

    c = {n: str(d.get(key)) for n, d in G.nodes(data=True)}
    for _ in range(12):
        c = {n: hashlib.md5(repr((c[n], sorted(c[p] for p in G.predecessors(n)), sorted(c[s] for s in G.successors(n)))).encode()).hexdigest() for n in G}
    return G.number_of_edges(), collections.Counter(c.values())


def nodes(t, path=()):
    yield path, t
    for i, k in enumerate(t[1:], 1):
        if not isinstance(k, str):
            yield from nodes(k, (*path, i))


def at(t, path):
    for i in path:
        t = t[i]
    return t


def put_at(t, path, new):
    if not path:
        return new
    return (*t[: path[0]], put_at(t[path[0]], path[1:], new), *t[path[0] + 1:])


def text(t):
    return "(" + " ".join([t[0], *[k if isinstance(k, str) else text(k) for k in t[1:]]]) + ")"


# ---------------------------------------------------------------- driving the real thing
def make(g):
    import neps
    from neps.search_spaces.architecture import primitives as ops, topologies as topos

    T = {"seq1": topos.get_sequential_n_edge(1), "seq2": topos.get_sequential_n_edge(2), "seq3": topos.get_sequential_n_edge(3), "res": topos.Residual, "dia": topos.Diamond, "mid": topos.DiamondMid,
         "den3": topos.get_dense_n_node_dag(3), "den4": topos.get_dense_n_node_dag(4)}
    used = {s for ps in g["rules"].values() for p in ps for s in p}
    prim = {n: T[k] for n, k in g["topo"].items() if n in used}
    prim |= {p: {"op": ops.Identity, "which": p} for p in g["prims"] if p in used}
    if g["form"] == "dict":
        st = {n: [p[0] if len(p) == 1 else f"{p[0]}({', '.join(p[1:])})" for p in ps] for n, ps in g["rules"].items()}
    else:
        q = lambda s: s if s in g["rules"] else f'"{s}"'  # noqa: E731
        st = "\n".join(f"{n} -> " + " | ".join(" ".join(q(s) for s in p) for p in ps) for n, ps in g["rules"].items())
    kw = {"prior": g["prior"]} if g["prior"] else {}
    return neps.ArchitectureParameter(structure=st, primitives=prim, **kw)


def run_case(case, d, res):
    warnings.simplefilter("ignore")
    import numpy as np

    g = case["g"]
    rules, start = g["rules"], next(iter(g["rules"]))
    zero = bool({"zero", "Zero"} & set(g["prims"]))
    swap = {n for n, ps in rules.items() if len(ps) > 1}
    np.random.seed(case["seed"] & 0x7FFFFFFF)
    random.seed(case["seed"])
    rng = random.Random(case["seed"] + 1)
    A = make(g)
    shape = (len(rules), sum(len(p) for p in rules.values()), bool(g["prior"]), zero)

    def invalid(e):
        return zero and isinstance(e, ValueError) and "Invalid DAG" in str(e)

    def judge(x, how):
        """parsed architecture, or None after a violation"""
        try:
            t = parse(x.id)
        except (ValueError, IndexError) as e:
            res.viol(f"{how}-malformed", f"{how} produced {x.id!r}, which is not a tree: {e}")
            return None
        why = derivable(t, rules, start)
        if why:
            res.viol(f"{how}-not-derivable", f"{how} produced {x.id!r}: {why} of {rules}")
            return None
        if x.string_tree != x.id:
            res.viol(f"{how}-id", f"identifier {x.id!r} of {x.string_tree!r}")
        want = graph(t, g)
        if want is None:
            res.viol(f"{how}-disconnected", f"{x.id!r} has no connection of input and output and was accepted")
            return None
        got = x.value
        res.count("graphs")
        if colours(want, "op") != colours(got, "op_name"):
            res.viol("graph", f"{x.id!r} evaluates to {sorted((n, dd.get('op_name')) for n, dd in got.nodes(data=True))} {sorted(got.edges)}, expected {list(want.nodes(data='op'))} {list(want.edges)}")
        ops = {dd.get("op_name") for _, dd in got.nodes(data=True)} - {"input", "output"}
        if not ops <= set(g["prims"]):
            res.viol("graph-ops", f"{x.id!r} uses {ops - set(g['prims'])}")
        res.sig(how, min(len(list(nodes(t))), 40), shape)
        return t

    def image(x):
        return (x.id, x.string_tree, sorted(map(str, x.value.nodes(data=True))), sorted(x.value.edges))

    def reload(x, t):
        res.count("reloads")
        y = A.clone()
        y.load_from(x.id)
        z = x.clone()
        w = x.create_new_instance_from_id(x.id)
        v = A.clone()
        v.load_from(x)
        for n, o in (("load_from of the identifier", y), ("clone", z), ("new instance of the identifier", w), ("load_from of the parameter", v)):
            if o.id != x.id or o.string_tree != x.string_tree or image(o)[2:] != image(x)[2:]:
                res.viol("reload", f"{n} of {x.id!r} is {o.id!r}")
            if not (o == x):
                res.viol("reload-unequal", f"{n} of {x.id!r} does not compare equal")

    def prior_of(t):
        return [g["prior"][n[0]][rules[n[0]].index([head(k) for k in n[1:]])] for _, n in nodes(t)]

    pool = []
    freq = {True: {}, False: {}}
    for i in range(case["n"] * (3 if not zero else 1)):
        up = bool(g["prior"]) and rng.random() < 0.7
        try:
            x = A.sample(user_priors=up)
        except ValueError as e:
            if not invalid(e):
                raise
            res.count("disconnected_refused")
            continue
        res.count("samples")
        t = judge(x, "sample")
        if t is None:
            continue
        seen = set()
        for _, n in nodes(t):
            if n[0] not in seen:  # preorder: the first one of each nonterminal is a fresh draw
                seen.add(n[0])
                c = freq[up].setdefault(n[0], [0] * len(rules[n[0]]))
                c[rules[n[0]].index([head(k) for k in n[1:]])] += 1
        if up and 0.0 in prior_of(t):
            res.viol("zero-prior", f"sampling with priors {g['prior']} used a production with probability 0: {x.id!r}")
        if i % 3 == 0:
            reload(x, t)
        if g["prior"]:
            res.count("priors")
            ps = prior_of(t)
            want = math.prod(ps)
            got = x.compute_prior(log=False)
            if not math.isclose(got, want, rel_tol=1e-9, abs_tol=1e-300):
                res.viol("prior", f"prior of {x.id!r} is {got}, the product of its productions is {want}")
            gl = x.compute_prior()
            if min(ps) > 0 and not math.isclose(gl, sum(map(math.log, ps)), rel_tol=1e-6, abs_tol=1e-9):
                res.viol("log-prior", f"log prior of {x.id!r} is {gl}, expected {sum(map(math.log, ps))}")
        pool.append((x, t))
    if not zero:  # refused samples would distort the frequencies
        for up, c in freq.items():
            for n, k in c.items():
                m = sum(k)
                p = g["prior"][n] if up else [1 / len(k)] * len(k)
                if m < 30:
                    continue
                res.count("frequencies")
                for j, pj in enumerate(p):
                    sd = math.sqrt(m * pj * (1 - pj))
                    if abs(k[j] - m * pj) > 7 * sd + 1e-9:
                        res.viol("frequency", f"production {rules[n][j]} of {n} was used {k[j]} times out of {m}, probability {pj}")
    if not pool:
        return

    for i in range(case["n"]):
        x, t = rng.choice(pool)
        before = image(x)
        here = [(p, n) for p, n in nodes(t) if n[0] in swap]
        if not here:
            continue
        strat = rng.choice(["bananas", "bananas", "simple"])
        via = rng.choice([A, x])
        try:
            kid = via.mutate(x, mutation_strategy=strat) if via is A or rng.random() < 0.5 else via.mutate(mutation_strategy=strat)
        except Exception as e:  # noqa: BLE001
            if image(x) != before:
                res.viol("mutation-parent", f"mutation changed its parent from {before[0]!r} to {x.id!r}")
            if "Parent is the same" in str(e):
                res.count("mutation_same")
                continue
            if invalid(e):
                continue
            res.viol("mutation-failed", f"mutation ({strat}) of {before[0]!r} in {rules}: {type(e).__name__}: {e}")
            continue
        res.count("mutations")
        if image(x) != before:
            res.viol("mutation-parent", f"mutation changed its parent from {before[0]!r} to {x.id!r}")
        k = judge(kid, "mutation")
        if k is None:
            continue
        if k == t:
            res.viol("mutation-same", f"the mutation of {x.id!r} equals its parent")
        if strat == "simple":
            kn = dict(nodes(k))
            if not any(p in kn and kn[p][0] == n[0] and put_at(t, p, kn[p]) == k for p, n in here):
                res.viol("mutation-region", f"mutation of {x.id!r} into {kid.id!r} is not the replacement of one subtree")
        # what both have in common outside of replaced nonterminals: no swappable node above a difference means it may not differ
        bad = differs_outside(t, k, swap)
        if bad:
            res.viol("mutation-region", f"mutation of {x.id!r} into {kid.id!r} changed {bad} outside of a nonterminal with alternatives")
        reload(kid, k)
        pool.append((kid, k))

    for i in range(case["n"]):
        (x, t), (y, u) = rng.choice(pool), rng.choice(pool)
        ha, hb = {n[0] for _, n in nodes(t) if n[0] in swap}, {n[0] for _, n in nodes(u)}
        if not ha:
            continue
        bx, by = image(x), image(y)
        try:
            kids = A.crossover(x, y) if rng.random() < 0.5 else y.crossover(x)
        except Exception as e:  # noqa: BLE001
            if image(x) != bx or image(y) != by:
                res.viol("crossover-parent", "crossover changed a parent")
            if "Cannot create crossover" in str(e) and not ha <= hb:
                continue
            if invalid(e):
                continue
            res.viol("crossover-failed", f"crossover of {bx[0]!r} and {by[0]!r} in {rules}: {type(e).__name__}: {e}")
            continue
        res.count("crossovers")
        if image(x) != bx or image(y) != by:
            res.viol("crossover-parent", f"crossover changed a parent, {bx[0]!r} or {by[0]!r}")
        if len(kids) != 2:
            res.viol("crossover-children", f"crossover gave {len(kids)} children")
            continue
        k1, k2 = judge(kids[0], "crossover"), judge(kids[1], "crossover")
        if k1 is None or k2 is None:
            continue
        pairs = [(p, q) for p, n in nodes(t) if n[0] in swap for q, m in nodes(u) if m[0] == n[0]]
        if not any(put_at(t, p, at(u, q)) == k1 and put_at(u, q, at(t, p)) == k2 for p, q in pairs):
            res.viol("crossover-exchange", f"children {kids[0].id!r} and {kids[1].id!r} are not {x.id!r} and {y.id!r} with two subtrees of one nonterminal exchanged")
        reload(kids[0], k1)
        pool.append((kids[1], k2))
    res.sample = {"grammar": {n: [" ".join(p) for p in ps] for n, ps in rules.items()}, "an architecture": pool[-1][0].id[:400]}


def differs_outside(a, b, swap):
    """a node where the trees differ without a nonterminal with alternatives at or above it"""
    if a[0] in swap:
        return None
    if [head(k) for k in a[1:]] != [head(k) for k in b[1:]]:
        return a[0]
    for x, y in zip(a[1:], b[1:]):
        if not isinstance(x, str):
            r = differs_outside(x, y, swap)
            if r:
                return r
    return None
