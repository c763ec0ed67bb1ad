"""Neighbor queries, counts and node types against the reference graph."""
import os

import numpy as np

import gmodel
import native

LEVEL = "exploration"
RULE = "one case is one query call on a generated graph; it is nontrivial when at least one edge or node type has to be returned, and distinct by graph, load form, nodes and types"
ASSUMPTIONS = [
    "graphs of at most 60 nodes and about 500 edges",
    "edge weights are multiples of 1/4, so weights kept as single precision sums come back exact",
    "the order of neighbors inside one node is not part of the property",
]
BUILDS = ["rel"]
NEED = {"edges_compared": 500, "counts_compared": 500, "types_compared": 500}


def plan(tier, seed):
    n = 6 if tier == "quick" else 18
    return [{"name": "g%d" % i, "config": "rel", "rounds": 40 if tier == "quick" else 120} for i in range(n)]


def node_list(r, g, n):
    ids = list(g.nodes)
    unknown = [max(ids) + 100 + k for k in range(3)] + [2**62 + 11, -1, 2**63 - 1]
    unknown = [u for u in unknown if u not in g.nodes]
    res = [r.choice(ids) if r.random() < 0.85 else r.choice(unknown) for _ in range(n)]
    if r.random() < 0.3 and res:
        res += res[: r.randint(1, len(res))]
    return res


def type_list(r, g):
    known = g.edge_types()
    c = r.random()
    if c < 0.2 and known:
        return known
    pool = list(range(0, (max(known) if known else 0) + 3)) + [-1, 1000]
    res = [r.choice(pool) for _ in range(r.randint(1, 5))]
    return res


def split(dst, weights, types, counts, extra=None):
    res, pos = [], 0
    for c in counts:
        c = int(c)
        cols = [dst[pos : pos + c].tolist(), weights[pos : pos + c].tolist(), types[pos : pos + c].tolist()]
        if extra is not None:
            cols.append(extra[pos : pos + c].tolist())
        res.append(sorted(zip(*cols)))
        pos += c
    return res, pos


def check_graph(ctx, g, mg, r, form, rounds):
    for k in range(rounds):
        nodes = node_list(r, g, r.choice([0, 1, 2, 5, 20, 60]))
        types = type_list(r, g)
        case = {"form": form, "nodes": nodes, "types": types}
        with ctx.trial():
            arg = types[0] if len(types) == 1 and r.random() < 0.5 else types
            dst, w, tp, counts = ctx.call("neighbors", mg.neighbors, np.array(nodes, dtype=np.int64), arg, case=case)
            want = [sorted((e.dst, e.weight, e.type) for e in g.neighbors(n, types)) for n in nodes]
            total = sum(map(len, want))
            ctx.case((ctx.name, form, k, "n"), total > 0, {"call": "neighbors", "nodes": nodes[:5], "types": types, "edges": total})
            ctx.count("edges_compared", total)
            if counts.tolist() != [len(x) for x in want]:
                i = next(i for i in range(len(nodes)) if int(counts[i]) != len(want[i]))
                ctx.fail("neighbors: wrong number of neighbors", "node %d types %s: got %d expected %d (%s)" % (nodes[i], types, counts[i], len(want[i]), want[i][:5]), case)
            if not (len(dst) == len(w) == len(tp) == total):
                ctx.fail("neighbors: result length differs from the counts", "%d %d %d, counts sum to %d" % (len(dst), len(w), len(tp), total), case)
            got, _ = split(dst, w, tp, counts)
            for n, a, b in zip(nodes, got, want):
                if a != b:
                    ctx.fail("neighbors: wrong neighbors", "node %d types %s: got %s expected %s" % (n, types, a[:6], b[:6]), case)
        with ctx.trial():
            got = ctx.call("neighbor_counts", mg.neighbor_counts, np.array(nodes, dtype=np.int64), types, case=case)
            want = [len(g.neighbors(n, types)) for n in nodes]
            ctx.case((ctx.name, form, k, "c"), any(want))
            ctx.count("counts_compared", len(nodes))
            if got.tolist() != want:
                i = next((i for i in range(len(nodes)) if int(got[i]) != want[i]), -1)
                ctx.fail("neighbor_counts: wrong count", "node %s types %s: got %s expected %s" % (nodes[i], types, got[i], want[i]), case)
        with ctx.trial():
            default = r.choice([-1, -7, 55])
            got = ctx.call("node_types", mg.node_types, np.array(nodes, dtype=np.int64), default, case=case)
            want = [g.nodes[n].type if n in g.nodes else default for n in nodes]
            ctx.case((ctx.name, form, k, "t"), bool(nodes))
            ctx.count("types_compared", len(nodes))
            if got.tolist() != want:
                i = next((i for i in range(len(nodes)) if int(got[i]) != want[i]), -1)
                ctx.fail("node_types: wrong type", "node %s: got %s expected %s" % (nodes[i], got[i], want[i]), case)
    with ctx.trial():
        for kind, per, fn in (("node", lambda t: sum(n.type == t for n in g.nodes.values()), mg.get_node_type_count), ("edge", lambda t: sum(e.type == t for e in g.edges), mg.get_edge_type_count)):
            ts = [r.choice([-1, 0, 1, 2, 3, 4, 5, 77]) for _ in range(3)]
            got = ctx.call("get_%s_type_count" % kind, fn, ts, case={"types": ts})
            want = sum(per(t) for t in set(ts))
            ctx.case((ctx.name, form, kind, "count"), want > 0)
            if got != want:
                ctx.fail("get_%s_type_count: wrong total" % kind, "types %s: got %s expected %s" % (ts, got, want))


def graph_for(r, temporal=False):
    return gmodel.random_graph(
        r,
        nodes=r.choice([1, 3, 12, 30, 60]),
        ntypes=r.randint(1, 4),
        etypes=r.randint(1, 6),
        degree=r.choice([2, 5, 12]),
        weights=r.choice(["exact", "exact0"]),
        node_weights="exact",
        features=r.choice([0, 0.5]),
        kinds=("dense",),
        parallel=r.choice([0, 0.7]),
        temporal=temporal,
    )


def run(job, ctx):
    from deepgnn.graph_engine.snark.client import PartitionStorageType

    r = ctx.rng(job["name"])
    for gi in range(8):
        g = graph_for(r, temporal=r.random() < 0.25)
        for parts in (1, r.randint(2, 5)):
            parts = min(parts, len(g.nodes))
            spread = parts > 1 and r.random() < 0.6
            out = os.path.join(ctx.scratch, "g%d_%d" % (gi, parts))
            ctx.at({"op": "convert", "graph": g.summary()})
            gmodel.convert(g, out, parts, gmodel.even_assign(g, parts), (lambda s, k, p=parts: (s + k) % p) if spread else None)
            order = list(range(parts))
            r.shuffle(order)
            for storage in (PartitionStorageType.memory, PartitionStorageType.disk):
                form = "g%d-%d parts%s-%s" % (gi, parts, " spread" if spread else "", storage.name)
                with ctx.trial():
                    mg = ctx.call("load", native.memory_graph, out, order, storage_type=storage, case={"form": form})
                    ctx.count("graphs_loaded")
                    check_graph(ctx, g, mg, r, form, job["rounds"])
                    mg.reset()
