"""A remote graph against a local one, with replies arriving in every order."""
import os
import random
import shutil
import threading

import numpy as np

import gmodel
import native
import oracle

LEVEL = "exploration"
RULE = "one case is one remote call compared with the reference graph and with a local graph; it is nontrivial when there is something to return, and distinct by graph, server layout and arguments"
ASSUMPTIONS = [
    "servers run in the same process over a transport that delays and reorders replies as told by the seed",
    "the order of neighbors of a node whose edges are on several servers is not compared",
    "requests of up to 50000 nodes",
]
BUILDS = ["rel"]
NEED = {"replies out of order": 200, "calls in flight at once": 4, "compared with local": 1000, "spread": 8, "concurrent": 200, "empty server": 10, "large requests": 10}


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "g%d" % i, "config": "rel", "kind": "mixed", "graphs": 160 if big else 40, "rounds": 40 if big else 24} for i in range(8 if big else 5)]
    jobs += [{"name": "large%d" % i, "config": "rel", "kind": "large", "rounds": 12 if big else 4} for i in range(4 if big else 2)]
    return jobs


def layout_for(r, parts):
    """Partitions over servers: any grouping, any order, maybe with a server that has none."""
    order = list(range(parts))
    r.shuffle(order)
    n = r.randint(1, parts)
    layout = [[] for _ in range(n)]
    for i, p in enumerate(order):
        layout[i if i < n else r.randrange(n)].append(p)
    if r.random() < 0.25:
        layout.insert(r.randint(0, len(layout)), [])
    return layout


def options(r):
    kw = {}
    if r.random() < 0.5:
        kw["num_threads"] = r.choice([1, 2, 5])
    if r.random() < 0.5:
        kw["num_cq_per_thread"] = r.choice([1, 2, 4])
    return kw


def observe(ctx):
    d = native.dump()
    ctx.count("replies out of order", d["inversions"])
    ctx.count("calls", d["calls"])
    ctx.count("calls in flight at once", max(0, d["max_in_flight"] - ctx.counters.get("calls in flight at once", 0)))
    native.reset_counters()


def run(job, ctx):
    if job["kind"] == "large":
        return large(job, ctx)
    r = ctx.rng(job["name"])
    for gi in range(job["graphs"]):
        temporal = r.random() < 0.35
        g = gmodel.random_graph(
            r,
            nodes=r.choice([1, 6, 25, 60]),
            ntypes=r.randint(1, 3),
            etypes=r.randint(1, 4),
            degree=r.choice([1, 4, 12]),
            temporal=temporal,
            weights="exact",
            features=r.choice([0, 0.5, 0.9]),
            kinds=("dense",) if temporal else ("dense", "string", "sparse"),
        )
        oracle.prepare(r, g)
        parts = min(r.choice([1, 2, 4, 6]), len(g.nodes))
        spread = parts > 1 and r.random() < 0.5
        out = os.path.join(ctx.scratch, "g%d" % gi)
        ctx.at({"op": "convert", "graph": g.summary()})
        gmodel.convert(g, out, parts, gmodel.even_assign(g, parts), (lambda s, k, p=parts: (s + k) % p) if spread else None, skip_node_sampler=True, skip_edge_sampler=True)
        layout = layout_for(r, parts)
        opts = options(r)
        label = "g%d-%s%s %s" % (gi, layout, " spread" if spread else "", opts)
        ctx.count("spread", int(spread))
        ctx.count("empty server", int([] in layout))
        seed = r.randint(0, 2**40)

        def work(graph, name, rounds=job["rounds"], seed=seed):
            rec = oracle.Recorder(graph)
            q = random.Random(seed)
            p = oracle.Probe(ctx, g, rec, q, name)
            for k in range(rounds):
                with ctx.trial():
                    p.any(0 if k == 7 else None)
            for how in ("weighted", "uniform", "distinct"):
                with ctx.trial():
                    p.sample(how, g.temporal and q.random() < 0.6, repeat=sum(map(bool, layout)) < 2)
            return rec.log

        mg = native.memory_graph(out, list(range(parts)))
        local = work(mg, label + " local")
        with ctx.call("start servers", native.cluster, out, layout, case={"layout": layout}) as c:
            native.reset_counters()
            dg = ctx.call("connect", c.client, case={"layout": layout}, **opts)
            native.random_delay(r.choice([0, 300, 1500]), r.randint(1, 2**40))
            if r.random() < 0.3:
                native.address_delay(r.choice(c.addresses), 2000)
            remote = work(dg, label)
            observe(ctx)
            with ctx.trial():
                compare(ctx, label, local, remote, spread)
            # Several threads and clients at once.
            native.random_delay(1000, r.randint(1, 2**40))
            other = c.client()
            errors = []

            def thread(i):
                try:
                    work([dg, other][i % 2], label + " thread %d" % i, 8, seed + i)
                    ctx.count("concurrent", 8)
                except BaseException as e:  # noqa
                    errors.append(e)

            ts = [threading.Thread(target=thread, args=(i,)) for i in range(4)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errors:
                raise errors[0]
            observe(ctx)
            native.clear()
            other.reset()
            dg.reset()
        mg.reset()
        shutil.rmtree(out)


def compare(ctx, label, local, remote, spread):
    skip = {"weighted_sample_neighbors", "uniform_sample_neighbors", "lastn_neighbors"}
    if spread:
        skip |= {"neighbors"}
    a = [x for x in local if x[0] not in skip]
    b = [x for x in remote if x[0] not in skip]
    ctx.count("compared with local", len(b))
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        ctx.fail("%s: remote and local results differ" % (b[i][0] if i < len(b) else "calls"), "%s call %d" % (label, i), {"graph": label})


def large(job, ctx):
    """Requests of many nodes over several servers."""
    r = ctx.rng(job["name"])
    g = gmodel.random_graph(r, nodes=2000, ntypes=2, etypes=3, degree=6, weights="exact", features=0)
    for n in g.nodes.values():
        n.feats[0] = gmodel.Feat("dense", "float32", values=gmodel.rand_values(r, "float32", 40))
    for n in list(g.nodes.values())[::7]:
        n.feats[1] = gmodel.Feat("string", text="s%d" % n.id * r.randint(1, 40))
    parts = 4
    out = os.path.join(ctx.scratch, "large")
    ctx.at({"op": "convert"})
    gmodel.convert(g, out, parts, gmodel.even_assign(g, parts), skip_node_sampler=True, skip_edge_sampler=True)
    mg = native.memory_graph(out, list(range(parts)))
    with native.cluster(out, [[0], [1, 3], [2]]) as c:
        for k in range(job["rounds"]):
            dg = c.client(**options(r))
            native.random_delay(2000, r.randint(1, 2**40))
            n = r.choice([1000, 20000, 50000])
            ids = np.array(r.choices(list(g.nodes) + [10**12], k=n), dtype=np.int64)
            calls = {
                "neighbors": lambda x: x.neighbors(ids, [0, 1, 2]),
                "counts": lambda x: x.neighbor_counts(ids, [0, 2]),
                "types": lambda x: x.node_types(ids, -3),
                "features": lambda x: x.node_features(ids, np.array([[0, 40]], dtype=np.int32), np.float32),
                "strings": lambda x: x.node_string_features(ids, np.array([0, 1], dtype=np.int32), np.uint8),
            }
            for name, fn in calls.items():
                with ctx.trial():
                    case = {"call": name, "nodes": n}
                    want = fn(mg)
                    got = ctx.call("large " + name, fn, dg, case=case)
                    want = want if isinstance(want, tuple) else (want,)
                    got = got if isinstance(got, tuple) else (got,)
                    for a, b in zip(want, got):
                        if a.shape != b.shape or a.tobytes() != b.tobytes():
                            ctx.fail("large %s: remote and local results differ" % name, "%d nodes" % n, case)
                ctx.count("large requests")
                ctx.case((ctx.name, k, name), True, case)
            observe(ctx)
            dg.reset()
    native.clear()
    mg.reset()
