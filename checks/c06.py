"""Feature queries against the reference graph."""
import os

import gmodel
import native
import oracle

LEVEL = "exploration"
RULE = "one case is one feature query on a generated graph; it is nontrivial when some requested feature exists, and distinct by graph, load form, items and features"
ASSUMPTIONS = [
    "graphs of at most 60 nodes; sparse features of one id share type and number of coordinates",
    "parallel edges carry no features, because a query cannot tell them apart",
    "features with versions are covered by the temporal property",
]
BUILDS = ["rel"]
OPS = ["node_features", "edge_features", "node_string_features", "edge_string_features", "node_sparse_features", "edge_sparse_features"]
NEED = {**{op: 200 for op in OPS}, "wide groups": 3}


def plan(tier, seed):
    n = 6 if tier == "quick" else 16
    return [{"name": "g%d" % i, "config": "rel", "graphs": 14 if tier == "quick" else 40, "rounds": 12 if tier == "quick" else 25} for i in range(n)]


def blank(r, g):
    """Empty strings, also as the last thing of a partition."""
    for items in (list(g.nodes.values()), g.edges):
        for it in items[-1:] + r.sample(items, min(5, len(items))):
            for f in it.feats.values():
                if f.kind == "string":
                    f.text = ""


def run(job, ctx):
    from deepgnn.graph_engine.snark.client import PartitionStorageType

    r = ctx.rng(job["name"])
    for gi in range(job["graphs"]):
        g = oracle.prepare(
            r,
            gmodel.random_graph(
                r,
                nodes=r.choice([1, 4, 15, 40, 60]),
                ntypes=r.randint(1, 3),
                etypes=r.randint(1, 5),
                degree=r.choice([2, 6, 25]),
                kinds=r.choice([("dense",), ("sparse",), ("string",), ("dense", "string"), ("dense", "sparse", "string")]),
                features=r.choice([0.3, 0.9, 1]),
                parallel=r.choice([0, 0.5]),
            ),
        )
        if r.random() < 0.4:
            blank(r, g)
        if any(len(g.neighbors(n, [t])) > 16 for n in g.nodes for t in g.edge_types()):
            ctx.count("wide groups")
        parts = min(r.choice([1, 2, 4]), len(g.nodes))
        spread = parts > 1 and r.random() < 0.5
        out = os.path.join(ctx.scratch, "g%d" % gi)
        ctx.at({"op": "convert", "graph": g.summary()})
        gmodel.convert(g, out, parts, gmodel.even_assign(g, parts), (lambda s, k, p=parts: (s + k) % p) if spread else None)
        order = list(range(parts))
        r.shuffle(order)
        for storage in (PartitionStorageType.memory, PartitionStorageType.disk):
            label = "g%d-%d parts%s-%s" % (gi, parts, " spread" if spread else "", storage.name)
            with ctx.trial():
                mg = ctx.call("load", native.memory_graph, out, order, storage_type=storage, case={"graph": label})
                p = oracle.Probe(ctx, g, mg, r, label)
                for k in range(job["rounds"]):
                    for kind in ("node", "edge"):
                        for f in (p.dense, p.string, p.sparse):
                            with ctx.trial():
                                f(kind, n=0 if k == 3 else 300 if k == 4 else None)
                mg.reset()
