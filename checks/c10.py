"""The same graph loaded in different ways gives the same answers."""
import os
import random
import shutil

import numpy as np

import gmodel
import native
import oracle

LEVEL = "exploration"
RULE = "one case is one query call on one load form of a graph, compared with the reference graph; it is nontrivial when there is something to return, and distinct by graph, load form and arguments"
ASSUMPTIONS = [
    "graphs of at most 50 nodes with weights exact in single precision",
    "the order of neighbors inside one node may depend on the partition layout, but not on the storage",
]
BUILDS = [os.environ.get("VERIF_BUILD", "rel")]
NEED = {"storages compared": 100, "layouts": 100, "subset": 30, "separate folders": 30, "reordered": 30, "no features": 20, "no times": 10, "samples compared": 50, "large files": 3}


def plan(tier, seed):
    big = tier == "thorough"
    return [{"name": "g%d" % i, "config": os.environ.get("VERIF_BUILD", "rel"), "graphs": 130 if big else 26, "rounds": 24 if big else 12} for i in range(10 if big else 6)] + [
        {"name": "large%d" % i, "config": os.environ.get("VERIF_BUILD", "rel"), "graphs": 12 if big else 4, "rounds": 20} for i in range(2)
    ]


def shift(folder, what, by):
    """Move feature data behind a hole, as in a file with that much data before it."""
    index, data = (os.path.join(folder, "%s_features_0_0.%s" % (what, ext)) for ext in ("index", "data"))
    offsets = np.fromfile(index, dtype=np.uint64)
    (offsets + np.uint64(by)).tofile(index)
    with open(data, "r+b") as f:
        content = f.read()
        f.seek(0)
        f.truncate(0)
        f.seek(by)
        f.write(content)


def large(job, ctx):
    """Feature files of more than 2 and 4 gigabytes, mostly holes."""
    from deepgnn.graph_engine.snark.client import PartitionStorageType as S

    r = ctx.rng(job["name"])
    for gi in range(job["graphs"]):
        temporal = r.random() < 0.4
        g = gmodel.random_graph(r, nodes=12, ntypes=2, etypes=2, degree=3, temporal=temporal, weights="exact", features=0.9, kinds=("dense",) if temporal else ("dense", "string", "sparse"))
        g = oracle.prepare(r, g)
        out = os.path.join(ctx.scratch, "large%d" % gi)
        gmodel.convert(g, out, 1, lambda n: 0, None, {}, skip_node_sampler=True, skip_edge_sampler=True)
        by = r.choice([2**31 - 40, 2**31 + 12345, 3 * 2**30, 2**32 - 40, 2**32 + 100, 5 * 2**32 + 24])
        for what in ("node", "edge"):
            shift(out, what, by)
        label = "large%d features %d bytes into the file" % (gi, by)
        mg = ctx.call("load", native.memory_graph, out, [0], storage_type=S.disk, case={"graph": label})
        p = oracle.Probe(ctx, g, mg, r, label)
        for _ in range(job["rounds"]):
            with ctx.trial():
                getattr(p, "dense" if temporal else r.choice(["dense", "string", "sparse"]))(r.choice(["node", "edge"]))
        mg.reset()
        ctx.count("large files")
        shutil.rmtree(out)


def make(r):
    temporal = r.random() < 0.4
    g = gmodel.random_graph(
        r,
        nodes=r.choice([1, 3, 12, 30, 50]),
        ntypes=r.randint(1, 3),
        etypes=r.randint(1, 4),
        degree=r.choice([1, 3, 10]),
        temporal=temporal,
        weights=r.choice(["exact", "exact0"]),
        features=r.choice([0, 0.4, 0.8]),
        kinds=("dense",) if temporal else ("dense", "string", "sparse"),
        big_time=temporal and r.random() < 0.3,
    )
    return oracle.prepare(r, g)


def run(job, ctx):
    from deepgnn.graph_engine.snark import client
    from deepgnn.graph_engine.snark.client import PartitionStorageType as S

    if job["name"].startswith("large"):
        return large(job, ctx)
    r = ctx.rng(job["name"])
    for gi in range(job["graphs"]):
        g = make(r)
        qseed = r.randint(0, 2**40)
        layouts = {1, min(len(g.nodes), r.choice([2, 3])), min(len(g.nodes), r.choice([4, 7]))}
        for parts in sorted(layouts):
            out = os.path.join(ctx.scratch, "g%d_%d" % (gi, parts))
            spread = parts > 1 and r.random() < 0.5
            ctx.at({"op": "convert", "graph": g.summary(), "parts": parts})
            where, edge_where = gmodel.even_assign(g, parts), {}
            gmodel.convert(g, out, parts, where, (lambda s, k, p=parts: (s + k) % p) if spread else None, edge_where, skip_node_sampler=True, skip_edge_sampler=True)
            label = "g%d-%d parts%s" % (gi, parts, " spread" if spread else "")
            ctx.count("layouts")
            logs = {}

            def work(graph, model, form, features=True, times=True, repeat=True):
                rec = oracle.Recorder(graph)
                q = random.Random(qseed)
                p = oracle.Probe(ctx, model, rec, q, label + " " + form)
                for k in range(job["rounds"]):
                    with ctx.trial():
                        p.any(0 if k == 5 else None, features, times)
                for how in ("weighted", "uniform", "distinct"):
                    with ctx.trial():
                        p.sample(how, model.temporal and times and q.random() < 0.6, repeat=repeat)
                return rec.log

            whole = list(range(parts))
            for storage in (S.memory, S.disk):
                mg = ctx.call("load", native.memory_graph, out, whole, storage_type=storage, case={"graph": label})
                logs[storage.name] = work(mg, g, storage.name)
                mg.reset()
            ctx.count("storages compared")
            ctx.count("samples compared", 3)
            compare(ctx, "memory and disk differ", label, logs["memory"], logs["disk"])
            # Integers instead of paths, and loaded in another order.
            order = whole[:]
            r.shuffle(order)
            mg = ctx.call("load", client.MemoryGraph, out, order, case={"graph": label, "order": order})
            work(mg, g, "order %s" % order)
            mg.reset()
            ctx.count("reordered")
            if parts > 1:
                top, locations = gmodel.scatter(out, os.path.join(ctx.scratch, "s%d_%d" % (gi, parts)), parts)
                r.shuffle(locations)
                storage = r.choice([S.memory, S.disk])
                mg = ctx.call("load", client.MemoryGraph, top, locations, storage, case={"graph": label})
                work(mg, g, "separate folders")
                mg.reset()
                ctx.count("separate folders")
                shutil.rmtree(top)
                some = r.sample(whole, r.randint(1, parts - 1))
                sub = g.subset([n for n in g.nodes if where(n) in some])
                if spread:
                    # A partition may hold edges of a node without the node itself.
                    sub.edges = [e for e in g.edges if edge_where[e.src, e.dst, e.type] in some]
                mg = ctx.call("load", client.MemoryGraph, out, some, r.choice([S.memory, S.disk]), case={"graph": label, "some": some})
                work(mg, sub, "only %s" % some)
                mg.reset()
                with ctx.call("start servers", native.cluster, out, [[p] for p in some], case={"graph": label}) as c:
                    dg = c.client()
                    work(dg, sub, "only %s on servers" % some, repeat=False)
                    dg.reset()
                ctx.count("subset")
            # Servers can leave out features or times.
            skip_f, skip_t = r.choice([(True, False), (False, True), (True, True)])
            if skip_t and not g.temporal:
                skip_t, skip_f = False, True
            storage = r.choice([S.memory, S.disk])
            bare = strip(g, skip_f, skip_t)
            with ctx.call("start servers", native.cluster, out, [whole], skip_feature_loading=skip_f, skip_temporal_loading=skip_t, storage_type=storage, case={"graph": label}) as c:
                dg = c.client()
                form = "%s%s%s" % ("no features " if skip_f else "", "no times " if skip_t else "", storage.name)
                work(dg, bare, form, features=not skip_t, times=not skip_t)
                dg.reset()
            if skip_f:
                ctx.count("no features")
            if skip_t:
                ctx.count("no times")
            shutil.rmtree(out)


def strip(g, features, times):
    import copy

    res = copy.deepcopy(g)
    if times:
        res.watermark = None
    if features:
        for it in list(res.nodes.values()) + res.edges:
            it.feats = {}
    return res


def compare(ctx, mech, label, a, b):
    if a == b:
        return
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    ctx.violation(mech, "%s: call %d %s" % (label, i, (a + b + [("", "")])[i][0] if i < len(a) else "missing"), {"graph": label, "call": i})
