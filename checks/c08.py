"""Sampled neighbors are edges of the graph, and a seed fixes the result."""
import os

import gmodel
import native
import oracle

LEVEL = "exploration"
RULE = "one case is one sampling call, compared edge by edge with the reference graph; it is nontrivial when some node has an eligible edge, and distinct by graph, load form and arguments"
ASSUMPTIONS = [
    "graphs of at most 60 nodes with weights exact in single precision",
    "an edge without weight is never eligible for weighted sampling",
    "without query times the creation time of an edge may be reported as unknown",
]
BUILDS = ["rel"]
OPS = ["sample_neighbors weighted", "sample_neighbors uniform", "sample_neighbors distinct"]
NEED = {**{op: 400 for op in OPS}, "remote": 30, "compared runs": 2}


def plan(tier, seed):
    big = tier == "thorough"
    n = 10 if big else 4
    jobs = [{"name": "g%d" % i, "config": "rel", "base": "g%d" % i, "graphs": 400 if big else 100, "rounds": 14 if big else 8} for i in range(n)]
    # The same work in another process has to give the same samples.
    jobs += [dict(jobs[i], name="again%d" % i, env={"PYTHONHASHSEED": "7"}) for i in range(2)]
    return jobs


def run(job, ctx):
    from deepgnn.graph_engine.snark.client import PartitionStorageType

    r = ctx.rng(job["base"])
    digests = []
    for gi in range(job["graphs"]):
        temporal = r.random() < 0.35
        g = gmodel.random_graph(
            r,
            nodes=r.choice([1, 4, 15, 40, 60]),
            ntypes=r.randint(1, 2),
            etypes=r.randint(1, 5),
            degree=r.choice([1, 4, 25]),
            temporal=temporal,
            weights=r.choice(["exact", "exact", "exact0", "equal"]),
            features=0,
            parallel=r.choice([0, 0.6]),
            big_time=r.random() < 0.3,
        )
        parts = min(r.choice([1, 2, 4]), len(g.nodes))
        spread = parts > 1 and r.random() < 0.7
        out = os.path.join(ctx.scratch, "g%d" % gi)
        ctx.at({"op": "convert", "graph": g.summary()})
        gmodel.convert(g, out, parts, gmodel.even_assign(g, parts), (lambda s, k, p=parts: (s + k) % p) if spread else None, skip_node_sampler=True, skip_edge_sampler=True)
        storage = r.choice([PartitionStorageType.memory, PartitionStorageType.disk])
        remote = r.random() < 0.25
        label = "g%d-%d parts%s-%s%s" % (gi, parts, " spread" if spread else "", storage.name, " remote" if remote else "")

        def work(graph):
            p = oracle.Probe(ctx, g, graph, r, label)
            for k in range(job["rounds"]):
                for how in ("weighted", "uniform", "distinct"):
                    with ctx.trial():
                        # Replies of several servers may be merged in any order, so only one server repeats exactly.
                        p.sample(how, temporal and r.random() < 0.7, 0 if k == 3 else None, repeat=not remote or parts == 1)
            if not remote:
                digests.append(p.digest.hexdigest())

        with ctx.trial():
            if remote:
                ctx.count("remote")
                with native.cluster(out, [[i] for i in range(parts)]) as c:
                    client = c.client()
                    work(client)
                    client.reset()
            else:
                mg = ctx.call("load", native.memory_graph, out, list(range(parts)), storage_type=storage, case={"graph": label})
                work(mg)
                mg.reset()
    ctx.stat("digest " + job["base"], digests)


def conclude(agg):
    for key, lists in agg.stats.items():
        if len(lists) < 2:
            continue
        agg.count("compared runs")
        if lists[0] != lists[1]:
            i = next((i for i, (a, b) in enumerate(zip(*lists)) if a != b), -1)
            agg.violation("sampling: same seed, different result in another process", "%s graph %d" % (key, i))
