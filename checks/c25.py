"""Down-sampling of graphs and metrics of graphs."""
import itertools
import json
import math
import random
import warnings

LEVEL = "exploration"
RULE = "one case is one sample of a graph or one metric of a graph; it is nontrivial when the graph has at least one edge, and distinct by graph, size and seed"
ASSUMPTIONS = [
    "sampled edges are edges of the graph; which of them are kept is up to chance and not judged",
    "the estimated clustering may deviate from the exact value by 7 standard deviations",
    "the largest eigenvalue is compared with a tolerance of 0.05, since matrices without a full set of eigenvectors are sensitive to rounding",
]
NEED = {"samples": 300, "isolated": 60, "disconnected": 60, "too many asked": 30, "named": 60, "everything": 20, "metrics": 300, "clustering": 100, "clustering exact": 30, "whole reached": 50, "multigraphs": 20, "one piece": 50}
PARALLEL = 6


def plan(tier, seed):
    big = tier == "thorough"
    return [{"name": "g%d" % i, "cases": 6000 if big else 600, "spin_ticks": 60, "timeout": 700} for i in range(6)]


def make(r):
    import networkx as nx

    kind = r.choice(["random", "random", "parts", "isolated", "star", "path", "cycle", "complete", "dag", "single", "scale_free", "loops"])
    n = r.choice([2, 3, 5, 12, 30])
    g = nx.DiGraph()
    if kind == "random":
        p = r.choice([0.05, 0.2, 0.6])
        g.add_nodes_from(range(n))
        g.add_edges_from((a, b) for a, b in itertools.permutations(range(n), 2) if r.random() < p)
    elif kind == "parts":
        base = 0
        for _ in range(r.choice([2, 3, 5])):
            m = r.choice([1, 2, 4, 7])
            g.add_nodes_from(range(base, base + m))
            g.add_edges_from((base + a, base + b) for a, b in itertools.permutations(range(m), 2) if r.random() < 0.6)
            base += m
    elif kind == "isolated":
        g.add_nodes_from(range(n + 5))
        g.add_edges_from((a, a + 1) for a in range(r.randint(0, n - 1)))
    elif kind == "star":
        g.add_edges_from((0, i) if r.random() < 0.5 else (i, 0) for i in range(1, n))
    elif kind == "path":
        nx.add_path(g, range(n))
    elif kind == "cycle":
        nx.add_cycle(g, range(n))
    elif kind == "complete":
        g.add_edges_from(itertools.permutations(range(min(n, 12)), 2))
    elif kind == "dag":
        g.add_nodes_from(range(n))
        g.add_edges_from((a, b) for a, b in itertools.combinations(range(n), 2) if r.random() < 0.3)
    elif kind == "single":
        g.add_node(0)
    elif kind == "scale_free":
        g = nx.scale_free_graph(max(n, 4), seed=r.randrange(10**6))
    else:
        g.add_edges_from((a, a) for a in range(n) if r.random() < 0.7)
        g.add_edges_from((r.randrange(n), r.randrange(n)) for _ in range(n))
    # Nodes may be anything that can be hashed, in any order.
    names = r.choice(["same", "shift", "text", "tuples", "shuffled"])
    nodes = list(g.nodes())
    if names == "shift":
        m = {x: x * 3 + 100 for x in nodes}
    elif names == "text":
        m = {x: "n%d" % x for x in nodes}
    elif names == "tuples":
        m = {x: (x, "t") for x in nodes}
    elif names == "shuffled":
        to = nodes[:]
        r.shuffle(to)
        m = dict(zip(nodes, to))
    else:
        m = None
    if m is not None:
        g = nx.relabel_nodes(g, m)
    return g, kind, names


def run(job, ctx):
    import numpy as np

    warnings.simplefilter("ignore")
    r = ctx.rng(job["name"])
    for k in range(job["cases"]):
        g, kind, names = make(r)
        with ctx.trial():
            sample(ctx, r, g, kind, names, k)
        with ctx.trial():
            metrics(ctx, r, g, kind, names, k)


def sample(ctx, r, g, kind, names, k):
    import networkx as nx
    import numpy as np
    from deepgnn.graph_engine.snark.preprocess.sampler import forest_fire

    n = len(g)
    size = r.choice([1, 2, max(1, n // 2), max(1, n - 1), n, n, n + 1, 2 * n + 3, 0])
    seed = r.randrange(2**31)
    case = {"kind": kind, "names": names, "nodes": n, "edges": g.number_of_edges(), "size": size, "seed": seed, "case": k}
    before = (list(g.nodes()), sorted(map(str, g.edges())))
    random.seed(seed)
    np.random.seed(seed)
    ctx.at({"op": "forest_fire", "cfg": case})
    s = ctx.call("forest_fire", forest_fire.forest_fire, g, size, case=case)
    if (list(g.nodes()), sorted(map(str, g.edges()))) != before:
        ctx.fail("the graph was changed", "", case)
    extra = set(s.nodes()) - set(g.nodes())
    if extra:
        ctx.fail("sampled nodes are not in the graph", str(list(extra)[:5]), case)
    if len(s) != min(size, n):
        ctx.fail("wrong number of nodes", "%d instead of %d" % (len(s), min(size, n)), case)
    wrong = [e for e in s.edges() if not g.has_edge(*e)]
    if wrong:
        ctx.fail("sampled edges are not in the graph", str(wrong[:5]), case)
    # A sample of all nodes of a connected graph grows along edges.
    ctx.count("samples")
    if size > n:
        ctx.count("too many asked")
    if size == n:
        ctx.count("everything")
    if any(True for _ in nx.isolates(g)):
        ctx.count("isolated")
    if not nx.is_weakly_connected(g):
        ctx.count("disconnected")
    if names != "same":
        ctx.count("named")
    if g.is_multigraph():
        ctx.count("multigraphs")
    if n > 2 and size >= n and nx.is_weakly_connected(g):
        # Burning follows edges: a connected graph is not collected by restarts alone.
        ctx.count("whole reached")
        if s.number_of_edges() == 0:
            ctx.fail("a sample of a connected graph has no edges", "%d nodes" % n, case)
    if kind in ("path", "cycle") and len(s) > 1:
        # Every burned node sets its only successor and its only predecessor on fire.
        ctx.count("one piece")
        if not nx.is_weakly_connected(s):
            ctx.fail("the sample of a path or cycle is not one piece", "%d pieces of %d nodes" % (nx.number_weakly_connected_components(s), len(s)), case)
    ctx.case(json.dumps(case), g.number_of_edges() > 0, case)
    # The same seeds give the same sample.
    random.seed(seed)
    np.random.seed(seed)
    t = forest_fire.forest_fire(g, size)
    if list(t.nodes()) != list(s.nodes()) or list(t.edges()) != list(s.edges()):
        ctx.fail("samples differ for the same seeds", "", case)


def distances(g, nodes):
    """Longest shortest path between listed nodes, along edges between them."""
    top = 0
    for a in nodes:
        seen = {a: 0}
        queue = [a]
        for x in queue:
            for y in g.successors(x):
                if y in nodes and y not in seen:
                    seen[y] = seen[x] + 1
                    queue.append(y)
        top = max(top, max(seen.values()))
    return top


def components(g):
    reach = {}
    for a in g.nodes():
        seen, queue = {a}, [a]
        for x in queue:
            for y in g.successors(x):
                if y not in seen:
                    seen.add(y)
                    queue.append(y)
        reach[a] = seen
    return [frozenset(b for b in reach[a] if a in reach[b]) for a in g.nodes()]


def metrics(ctx, r, g, kind, names, k):
    import networkx as nx
    import numpy as np
    from deepgnn.graph_engine.snark.preprocess.sampler import metric

    n, e = len(g), g.number_of_edges()
    seed = r.randrange(2**31)
    case = {"kind": kind, "names": names, "nodes": n, "edges": e, "seed": seed, "case": k}
    ctx.at({"op": "metrics", "cfg": case})
    got = ctx.call("densification", metric.densification, g, case=case)
    want = 0.0 if n <= 1 or e == 0 else math.log(e) / math.log(n)
    if abs(got - want) > 1e-9:
        ctx.fail("wrong densification", "%s instead of %s" % (got, want), case)
    parts = components(g)
    top = max(len(p) for p in parts)
    got = ctx.call("largest_connected_component", metric.largest_connected_component, g, case=case)
    if abs(got - top / n) > 1e-9:
        ctx.fail("wrong share of the largest component", "%s instead of %s" % (got, top / n), case)
    got = ctx.call("diameter", metric.diameter, g, case=case)
    # Any of the largest components will do.
    want = {distances(g, p) for p in set(parts) if len(p) == top}
    if got not in want:
        ctx.fail("wrong diameter", "%s instead of %s" % (got, sorted(want)), case)
    index = {x: i for i, x in enumerate(g.nodes())}
    m = np.zeros((n, n))
    for a, b in g.edges():
        m[index[a], index[b]] += 1
    want = 0.0
    for p in set(parts):
        ids = [index[x] for x in p]
        want = max(want, max(np.linalg.eigvals(m[np.ix_(ids, ids)]).real))
    got = ctx.call("max_adjacency", metric.max_adjacency, g, case=case)
    if abs(complex(got).real - want) > 0.05:
        ctx.fail("wrong largest eigenvalue", "%s instead of %s" % (got, want), case)
    ctx.count("metrics")
    if kind == "loops" or any(a == b for a, b in g.edges()):
        return
    trials = r.choice([20, 300, 2000])
    around = {x: set() for x in g.nodes()}
    for a, b in g.edges():
        around[a].add(b)
        around[b].add(a)
    exact = 0.0
    for x in around:
        d = len(around[x])
        if d > 1:
            exact += sum(1 for a, b in itertools.combinations(around[x], 2) if b in around[a]) / (d * (d - 1) / 2) / n
    random.seed(seed)
    got = ctx.call("average_clustering", metric.average_clustering, g, trials, case=case)
    sigma = math.sqrt(max(exact * (1 - exact), 0) / trials)
    if abs(got - exact) > 7 * sigma + 1e-9 + (0 if exact in (0.0, 1.0) else 3.0 / trials):
        ctx.fail("wrong clustering", "%s of %d trials instead of %s" % (got, trials, exact), case)
    ctx.count("clustering")
    if abs(exact) < 1e-12 or abs(exact - 1) < 1e-12:
        ctx.count("clustering exact")
    ctx.case(json.dumps(["metrics", case]), e > 0, dict(case, clustering=exact))
