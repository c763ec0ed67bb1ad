"""Queries at a time against the reference history."""
import os

import gmodel
import native
import oracle

LEVEL = "exploration"
RULE = "one case is one query with timestamps on a generated history; it is nontrivial when some edge is alive or some feature version exists at the times asked, and distinct by graph, load form and arguments"
ASSUMPTIONS = [
    "histories of at most 60 nodes within 45 time steps, starting at 0, 2^31-20, 2^32-20 or 2^40",
    "two edges of one node with the same type, creation and removal time may be returned in any order",
    "features of an edge are looked up by its ends and type, alive or not",
]
BUILDS = ["rel"]
OPS = ["neighbors", "neighbor_counts", "lastn_neighbors", "node_features", "edge_features", "node_string_features", "edge_string_features", "sample_neighbors weighted", "sample_neighbors uniform", "sample_neighbors distinct"]
NEED = {op: 150 for op in OPS}
NEED["first moment"] = 3


def plan(tier, seed):
    n = 6 if tier == "quick" else 16
    return [{"name": "g%d" % i, "config": "rel", "graphs": 20 if tier == "quick" else 60, "rounds": 6 if tier == "quick" else 12} for i in range(n)]


def history(r):
    g = gmodel.random_graph(
        r,
        nodes=r.choice([1, 4, 15, 40, 60]),
        ntypes=r.randint(1, 3),
        etypes=r.randint(1, 4),
        degree=r.choice([2, 6, 25]),
        temporal=True,
        weights=r.choice(["exact", "exact0", "equal"]),
        features=r.choice([0, 0.5, 1]),
        parallel=r.choice([0, 0.6]),
        big_time=r.random() < 0.4,
    )
    if r.random() < 0.4:
        # Lifetimes that nest, chain or coincide.
        base = g.base
        for e in g.edges:
            e.created = base + r.choice([0, 5, 5, 10, 20])
            e.removed = r.choice([-1, e.created + 1, base + 21, base + 30, base + 30])
    if r.random() < 0.3:
        for i in g.nodes:
            es = g.out(i)
            if es:
                # Edges live within the life of their source.
                gone = [x.removed for x in es]
                e = r.choice(es)
                e.created, e.removed = min(x.created for x in es), -1 if -1 in gone else max(gone)
                g.node_times[i] = (e.created, e.removed)
    return g


def run(job, ctx):
    from deepgnn.graph_engine.snark.client import PartitionStorageType

    r = ctx.rng(job["name"])
    for gi in range(job["graphs"]):
        g = history(r)
        parts = min(r.choice([1, 2, 4]), len(g.nodes))
        spread = parts > 1 and not g.node_times and r.random() < 0.5
        out = os.path.join(ctx.scratch, "g%d" % gi)
        ctx.at({"op": "convert", "graph": g.summary()})
        gmodel.convert(g, out, parts, gmodel.even_assign(g, parts), (lambda s, k, p=parts: (s + k) % p) if spread else None)
        if g.node_times:
            ctx.count("inherited times")
        if g.watermark == 0:
            ctx.count("first moment")
        if g.watermark > 2**31:
            ctx.count("large times")
        storage = r.choice([PartitionStorageType.memory, PartitionStorageType.disk])
        label = "g%d-%d parts%s-%s" % (gi, parts, " spread" if spread else "", storage.name)
        with ctx.trial():
            mg = ctx.call("load", native.memory_graph, out, list(range(parts)), storage_type=storage, case={"graph": label})
            p = oracle.Probe(ctx, g, mg, r, label)
            for k in range(job["rounds"]):
                n = 0 if k == 3 else None
                for f in [
                    lambda: p.neighbors(True, n),
                    lambda: p.counts(True, n),
                    lambda: p.lastn(n),
                    lambda: p.neighbors(False, n),
                    lambda: p.dense("node", True, n),
                    lambda: p.dense("edge", True, n),
                    lambda: p.string("node", True, n),
                    lambda: p.string("edge", True, n),
                    lambda: p.sample("weighted", True, n),
                    lambda: p.sample("uniform", True, n),
                    lambda: p.sample("distinct", True, n),
                ]:
                    with ctx.trial():
                        f()
            mg.reset()
