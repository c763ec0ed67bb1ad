"""Multi-hop sampling, multi-hop lookup, subgraphs and skip-grams against a reference graph."""
import collections
import json
import os
import shutil
import warnings

import oracle

LEVEL = "exploration"
RULE = "one case is one call of a helper on one graph; it is nontrivial when the answer has at least one edge or pair, and distinct by graph, helper and arguments"
ASSUMPTIONS = [
    "parallel edges of one type are not generated, edges of several types between two nodes are",
    "every third graph is loaded in the native engine, the others are answered by a model in Python that records calls",
]
NEED = {
    "fanout_hops": 300,
    "fanout_defaults": 100,
    "fanout_native": 30,
    "neighbor_hops": 200,
    "neighbor_refused": 10,
    "neighbor_native": 30,
    "subgraphs": 200,
    "subgraphs_native": 30,
    "self_edges": 20,
    "skipgrams": 200,
    "asymmetric_windows": 100,
    "out_edges": 100,
}
BUILDS = ["rel"]
PARALLEL = 6


def plan(tier, seed):
    n, k = (6, 300) if tier == "quick" else (6, 3000)
    return [{"name": "g%d" % i, "cases": k, "config": "rel", "timeout": 800} for i in range(n)]


def run(job, ctx):
    warnings.simplefilter("ignore")
    r = ctx.rng(job["name"])
    for k in range(job["cases"]):
        one(ctx, r, k)


class Model:
    """A graph in Python answering what the helpers ask for."""

    def __init__(self, g, r):
        self.g, self.r = g, r
        self.asked = []

    def __getattr__(self, name):
        raise AttributeError(name)

    @staticmethod
    def types(edge_types):
        import numpy as np

        return [int(x) for x in np.array(edge_types).reshape(-1)]

    def around(self, node, edge_types):
        wanted = set(self.types(edge_types))
        res = [(e.dst, e.weight, e.type) for e in self.g.out(int(node)) if e.type in wanted]
        return sorted(res, key=lambda x: (x[2], x[0]))

    def neighbors(self, nodes, edge_types, timestamps=None, return_edge_created_ts=False):
        import numpy as np

        found = [self.around(n, edge_types) for n in nodes]
        flat = [x for xs in found for x in xs]
        return (
            np.array([x[0] for x in flat], dtype=np.int64),
            np.array([x[1] for x in flat], dtype=np.float32),
            np.array([x[2] for x in flat], dtype=np.int32),
            np.array([len(xs) for xs in found], dtype=np.uint64),
        )

    def sample_neighbors(self, nodes, edge_types, count=10, strategy="byweight", default_node=-1, default_weight=0.0, default_edge_type=-1, *args, **kwargs):
        import numpy as np

        nodes = np.array(nodes)
        if nodes.ndim != 1:
            raise ValueError("nodes should be one dimensional")
        self.asked.append(strategy)
        ids = np.empty((len(nodes), count), dtype=np.int64)
        weights = np.empty((len(nodes), count), dtype=np.float32)
        types = np.empty((len(nodes), count), dtype=np.int32)
        for i, n in enumerate(nodes):
            found = self.around(n, edge_types)
            for j in range(count):
                x = self.r.choice(found) if found else (default_node, default_weight, default_edge_type)
                ids[i, j], weights[i, j], types[i, j] = x
        return ids, weights, types, np.full(ids.shape, -1, dtype=np.int64)

    def edge_features(self, edges, features, feature_type, timestamps=None):
        import numpy as np

        return np.stack([np.array(edges)[:, 0] * 1000 + np.array(edges)[:, 1] * 10 + np.array(edges)[:, 2]], 1).astype(feature_type)


def make(ctx, r, k):
    import gmodel

    g = gmodel.random_graph(r, nodes=r.choice([1, 2, 6, 15, 30]), ntypes=2, etypes=r.choice([1, 2, 4]), degree=r.choice([0, 1, 3, 6]), parallel=False, features=0.0 if r.random() < 0.5 else 0.5)
    # Every edge has its own weight, so a result tells which edge it came from.
    for i, e in enumerate(g.edges):
        e.weight = float(i + 1)
    # Edges from a node to itself.
    return g


def one(ctx, r, k):
    import numpy as np
    import gmodel

    g = make(ctx, r, k)
    native = k % 3 == 0
    out = os.path.join(ctx.scratch, "g%d" % k)
    client = None
    if native:
        from deepgnn.graph_engine.snark import local

        os.makedirs(out)
        count = r.choice([1, 2])
        gmodel.convert(g, out, count, gmodel.even_assign(g, count))
        client = local.Client(out, list(range(count)))
        graph = client
    else:
        from deepgnn.graph_engine import Graph

        graph = Model(g, r)
    try:
        with ctx.trial():
            fanout(ctx, r, g, graph, native, k)
        with ctx.trial():
            lookup(ctx, r, g, graph, native, k)
        with ctx.trial():
            subgraph(ctx, r, g, graph, native, k)
        with ctx.trial():
            out_edges(ctx, r, g, graph, native, k)
        with ctx.trial():
            skipgrams(ctx, r, k)
    finally:
        if client is not None:
            client.reset()
            shutil.rmtree(out)


def pick_nodes(r, g, n, absent=True):
    pool = sorted(g.nodes) + sorted({e.dst for e in g.edges})
    if absent:
        pool = pool + [10**6 + 7]
    return [r.choice(pool) for _ in range(n)]


def pick_types(r, g):
    types = sorted({e.type for e in g.edges} | {0})
    return sorted(r.sample(types, r.randint(1, len(types))))


def fanout(ctx, r, g, graph, native, k):
    import numpy as np
    from deepgnn.graph_engine import multihop

    hops = r.choice([1, 1, 2, 3])
    counts = [r.choice([1, 2, 3, 5]) for _ in range(hops)]
    path = [pick_types(r, g) for _ in range(hops)]
    default = r.choice([-1, -1, 10**7, min(g.nodes)])
    nodes = np.array(pick_nodes(r, g, r.choice([1, 2, 4])), dtype=np.int64)
    strategy = r.choice(["byweight", "byweight", "random"])
    given = nodes.reshape(-1, 1) if r.random() < 0.3 else nodes
    case = {"op": "fanout", "hops": path, "counts": counts, "default": default, "nodes": nodes.tolist(), "strategy": strategy, "native": native, "graph": g.summary()}
    ctx.at({"op": "sample_fanout", "cfg": {"counts": counts}})
    before = given.copy()
    res = ctx.call("sample_fanout", multihop.sample_fanout, graph, given, *oracle.trim(r, [[list(p) for p in path], list(counts), default, strategy], ["byweight"]), case=case)
    if not np.array_equal(before, given):
        ctx.fail("nodes modified", "%s" % given, case)
    samples, weights, types = res
    if len(samples) != hops + 1 or len(weights) != hops or len(types) != hops:
        ctx.fail("wrong number of hops", "%d %d %d" % (len(samples), len(weights), len(types)), case)
    if not np.array_equal(samples[0], nodes):
        ctx.fail("first hop is not the input", str(samples[0]), case)
    if not native and (len(set(graph.asked)) != 1 or graph.asked[0] != strategy):
        ctx.fail("another sampling strategy", "%s" % graph.asked, case)
    if not native:
        del graph.asked[:]
    model = Model(g, r)
    found = 0
    for h in range(hops):
        expected = len(samples[h]) * counts[h]
        for name, part in [("nodes", samples[h + 1]), ("weights", weights[h]), ("types", types[h])]:
            if part.shape != (expected,):
                ctx.fail("wrong shape of %s" % name, "%s instead of %d" % (part.shape, expected), case)
        if samples[h + 1].dtype != np.int64 or weights[h].dtype != np.float32 or types[h].dtype != np.int32:
            ctx.fail("wrong types of arrays", "%s %s %s" % (samples[h + 1].dtype, weights[h].dtype, types[h].dtype), case)
        for i, n in enumerate(samples[h]):
            around = model.around(n, path[h])
            exact = {(d, w, t) for d, w, t in around}
            pairs = {(d, t) for d, w, t in around}
            for j in range(i * counts[h], (i + 1) * counts[h]):
                got = (int(samples[h + 1][j]), float(weights[h][j]), int(types[h][j]))
                if not around:
                    ctx.count("fanout_defaults")
                    if got[0] != default or got[2] != -1 or strategy == "byweight" and got[1] != 0:
                        ctx.fail("node without neighbors got something", "%d: %s" % (n, got), case)
                    continue
                found += 1
                if strategy == "byweight" and got not in exact or (got[0], got[2]) not in pairs:
                    ctx.fail("sampled edge does not exist", "hop %d node %d: %s" % (h, n, got), case)
        ctx.count("fanout_hops")
        ctx.count("fanout_native" if native else "fanout_model")
    ctx.case(json.dumps(case), found > 0, {x: case[x] for x in ["op", "hops", "counts", "default"]})


def lookup(ctx, r, g, graph, native, k):
    import numpy as np
    from deepgnn.graph_engine import multihop

    hops = r.choice([1, 2, 3])
    path = [pick_types(r, g) for _ in range(hops)]
    top = max([len(g.out(n)) for n in g.nodes] + [1])
    limit = r.choice([top, top + 2, max(1, top // 2), 1])
    nodes = np.array(pick_nodes(r, g, r.choice([1, 2, 4, 9])), dtype=np.int64)
    case = {"op": "lookup", "hops": path, "limit": limit, "nodes": nodes.tolist(), "native": native, "graph": g.summary()}
    ctx.at({"op": "get_neighbor", "cfg": {"hops": path}})
    model = Model(g, r)
    # What is expected: nodes of every hop and edges between hops.
    level, size, expected, refused = nodes.tolist(), len(nodes), [], False
    for types in path:
        edges = []
        for i, n in enumerate(level):
            edges += [(i, d, w) for d, w, t in model.around(n, types)]
        following = sorted({d for _, d, _ in edges})
        if len(edges) > limit * size:
            refused = True
            break
        size = limit * size
        expected.append((level, edges, following, size))
        level = following
    before = nodes.copy()
    try:
        ctx.at({"op": "get_neighbor"})
        res = multihop.get_neighbor(graph, nodes, [np.array(t, dtype=np.int32) for t in path], limit)
    except UserWarning as e:
        if not refused:
            ctx.fail("lookup refused", "%s" % e, case)
        ctx.count("neighbor_refused")
        return
    except Exception as e:
        ctx.fail("lookup raised %s" % type(e).__name__, "%s" % e, case)
    if refused:
        ctx.fail("more neighbors than allowed were accepted", "limit %d" % limit, case)
    if not np.array_equal(before, nodes):
        ctx.fail("nodes modified", "%s" % nodes, case)
    layers, adjacent = res
    if len(layers) != hops + 1 or len(adjacent) != hops:
        ctx.fail("wrong number of hops", "%d %d" % (len(layers), len(adjacent)), case)
    if not np.array_equal(layers[0][0], nodes) or int(layers[0][1][0]) != len(nodes):
        ctx.fail("first hop is not the input", str(layers[0]), case)
    total = 0
    for h, (level, edges, following, size) in enumerate(expected):
        ids, length = layers[h + 1]
        where = "hop %d: " % (h + 1)
        if len(ids) != size or int(length[0]) != len(following) or sorted(ids[: len(following)].tolist()) != following or np.any(ids[len(following) :]):
            ctx.fail("wrong nodes", where + "%s instead of %s in %d" % (ids.tolist(), following, size), case)
        index, values, shape, number = adjacent[h]
        if index.shape != (size, 2) or values.shape != (size,):
            ctx.fail("wrong shape of adjacency", where + "%s %s" % (index.shape, values.shape), case)
        if int(number[0]) != len(edges) or [int(x) for x in shape] != [len(level), len(following)]:
            ctx.fail("wrong size of adjacency", where + "%s %s" % (number, shape), case)
        got = collections.Counter((int(a), int(ids[b]), float(w)) for (a, b), w in zip(index[: len(edges)], values))
        if got != collections.Counter(edges):
            ctx.fail("wrong adjacency", where + "%s instead of %s" % (sorted(got.elements()), sorted(edges)), case)
        if np.any(index[len(edges) :]) or np.any(values[len(edges) :]):
            ctx.fail("padding is not empty", where + str(index[len(edges) :]), case)
        if any(x.dtype != t for x, t in ((ids, np.int64), (length, np.int64), (index, np.int64), (values, np.float32), (shape, np.int64), (number, np.int64))):
            ctx.fail("wrong types of arrays", where + "%s" % [x.dtype for x in (ids, length, index, values, shape, number)], case)
        total += len(edges)
        ctx.count("neighbor_hops")
        ctx.count("neighbor_native" if native else "neighbor_model")
    ctx.case(json.dumps(case), total > 0, {x: case[x] for x in ["op", "hops", "limit"]})


def subgraph(ctx, r, g, graph, native, k):
    import numpy as np
    from deepgnn.graph_engine import graph_ops

    types = pick_types(r, g)
    nodes = np.array(pick_nodes(r, g, r.choice([1, 2, 4])), dtype=np.int64)
    hops = r.choice([1, 2, 3, 4])
    loop, both, as_edges = r.random() < 0.5, r.random() < 0.5, r.random() < 0.5
    case = {"op": "subgraph", "types": types, "nodes": nodes.tolist(), "hops": hops, "loop": loop, "undirected": both, "edges": as_edges, "native": native, "graph": g.summary()}
    ctx.at({"op": "sub_graph", "cfg": {"hops": hops}})
    model = Model(g, r)
    inner = set(nodes.tolist())
    edge = set(inner)
    for _ in range(hops - 1):
        edge = {d for n in edge for d, w, t in model.around(n, types)}
        inner |= edge
    arcs = {(n, d) for n in inner for d, w, t in model.around(n, types)}
    everything = set(nodes.tolist()) | {x for a in arcs for x in a}
    loops = {a for a in arcs if a[0] == a[1]}
    if loops:
        ctx.count("self_edges")
    if both:
        arcs |= {(b, a) for a, b in arcs}
    if loop:
        arcs |= {(a, a) for a in everything}
    before = nodes.copy()
    got_nodes, got, where = ctx.call("sub_graph", graph_ops.sub_graph, graph, nodes, np.array(types, dtype=np.int32), *oracle.trim(r, [hops, loop, both, as_edges], [1, True, True, False]), case=case)
    if not np.array_equal(before, nodes):
        ctx.fail("nodes modified", "%s" % nodes, case)
    if sorted(got_nodes.tolist()) != sorted(everything):
        ctx.fail("wrong nodes of a subgraph", "%s instead of %s" % (got_nodes.tolist(), sorted(everything)), case)
    if where.shape != nodes.shape or not np.array_equal(got_nodes[where], nodes):
        ctx.fail("wrong places of input nodes", "%s in %s" % (where, got_nodes), case)
    if as_edges:
        if got.ndim != 2 or got.shape[1] != 2:
            ctx.fail("wrong shape of edges", str(got.shape), case)
        listed = [(int(got_nodes[a]), int(got_nodes[b])) for a, b in got]
        if set(listed) != arcs:
            ctx.fail("wrong edges of a subgraph", "%s instead of %s" % (sorted(listed), sorted(arcs)), case)
        if (loop or both) and len(listed) != len(set(listed)):
            ctx.fail("repeated edges in a subgraph", str(sorted(listed)), case)
    else:
        if got.dtype != np.float32:
            ctx.fail("wrong type of adjacency matrix", str(got.dtype), case)
        if got.shape != (len(everything), len(everything)):
            ctx.fail("wrong shape of adjacency matrix", str(got.shape), case)
        want = np.zeros(got.shape, dtype=np.float32)
        place = {int(n): i for i, n in enumerate(got_nodes)}
        for a, b in arcs:
            want[place[a], place[b]] = 1
        if not np.array_equal(want, got):
            ctx.fail("wrong adjacency matrix", "%s instead of %s" % (got.tolist(), want.tolist()), case)
    ctx.count("subgraphs_native" if native else "subgraphs")
    ctx.case(json.dumps(case), len(arcs) > 0, {x: case[x] for x in ["op", "hops", "loop", "undirected", "edges"]})


def out_edges(ctx, r, g, graph, native, k):
    import numpy as np
    from deepgnn.graph_engine import graph_ops

    types = pick_types(r, g)
    nodes = np.array(pick_nodes(r, g, r.choice([1, 2, 4])), dtype=np.int64)
    count = r.choice([1, 2, 5])
    case = {"op": "out edges", "types": types, "nodes": nodes.tolist(), "count": count, "native": native, "graph": g.summary()}
    ctx.at({"op": "sample_out_edges", "cfg": {"count": count}})
    meta = None if native or r.random() < 0.5 else np.array([[0, 1]], dtype=np.int32)
    strategy = r.choice(["byweight", "random"])
    edges, feat = ctx.call("sample_out_edges", graph_ops.sample_out_edges, graph, nodes, np.array(types, dtype=np.int32), *oracle.trim(r, [count, strategy, meta, np.float32], ["byweight", None, np.float32]), case=case)
    if edges.shape != (len(nodes) * count, 3):
        ctx.fail("wrong shape of out edges", str(edges.shape), case)
    model = Model(g, r)
    found = 0
    for i, (src, dst, t) in enumerate(edges.tolist()):
        n = int(nodes[i // count])
        around = {(d, x) for d, w, x in model.around(n, types)} or {(-1, -1)}
        found += (-1, -1) not in around
        if src != n or (dst, t) not in around:
            ctx.fail("out edge does not exist", "%s of node %d" % ([src, dst, t], n), case)
    if (feat is None) != (meta is None):
        ctx.fail("features not returned as asked", str(feat), case)
    if meta is not None and not np.array_equal(feat, graph.edge_features(edges, meta, np.float32)):
        ctx.fail("features of other edges", str(feat), case)
    if not native:
        del graph.asked[:]
    ctx.count("out_edges")
    ctx.case(json.dumps(case), found > 0, {x: case[x] for x in ["op", "types", "count"]})


def skipgrams(ctx, r, k):
    import numpy as np
    from deepgnn.graph_engine import graph_ops

    rows, size = r.choice([1, 2, 5]), r.choice([1, 2, 3, 5, 9])
    left, right = r.choice([0, 1, 2, 4, 12]), r.choice([0, 1, 2, 4, 12])
    repeat = r.random() < 0.3
    top = 5 if repeat else 10**6
    paths = np.array([[r.randrange(-1, top) for _ in range(size)] for _ in range(rows)], dtype=r.choice([np.int64, np.int32]))
    case = {"op": "skipgrams", "paths": paths.tolist(), "left": left, "right": right}
    ctx.at({"op": "gen_skipgrams", "cfg": {"left": left, "right": right}})
    expected = []
    for path in paths.tolist():
        for i in range(size):
            for j in range(max(0, i - left), min(size, i + right + 1)):
                if i != j:
                    expected.append((path[i], path[j]))
    before = paths.copy()
    n = ctx.call("get_skipgrams_size", graph_ops.get_skipgrams_size, size, left, right, case=case)
    if n * rows != len(expected):
        ctx.fail("wrong number of pairs", "%d instead of %d" % (n, len(expected) // rows), case)
    got = ctx.call("gen_skipgrams", graph_ops.gen_skipgrams, paths, left, right, case=case)
    if not np.array_equal(before, paths):
        ctx.fail("walks modified", "%s" % paths, case)
    if got.shape != (len(expected), 2) or got.dtype != paths.dtype:
        ctx.fail("wrong shape of pairs", "%s %s" % (got.shape, got.dtype), case)
    per = n
    for i in range(rows):
        a = collections.Counter(map(tuple, got[i * per : (i + 1) * per].tolist()))
        b = collections.Counter(expected[i * per : (i + 1) * per])
        if a != b:
            ctx.fail("wrong pairs", "walk %s: missing %s, extra %s" % (paths[i].tolist(), sorted((b - a).elements())[:8], sorted((a - b).elements())[:8]), case)
    ctx.count("skipgrams")
    if left != right:
        ctx.count("asymmetric_windows")
    ctx.case(json.dumps(case), len(expected) > 0, {"op": "skipgrams", "left": left, "right": right, "length": size})
