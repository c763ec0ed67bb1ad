"""Graphs, samplers and clients used by many threads at once: data races by the thread sanitizer, answers by the reference graph."""
import os
import random
import shutil
import sys
import threading
import time

import numpy as np

import gmodel
import native
import oracle

LEVEL = "exploration"
RULE = "one case is one call made while other threads call as well; it is nontrivial when something has to be returned, and distinct by graph, thread and call"
ASSUMPTIONS = [
    "four to eight threads; schedules come from the operating system, random delays of replies and pauses between calls",
    "the thread sanitizer sees this repository's code, not the inside of the serialization library and the interpreter",
    "calls of samplers are compared with the same call made alone where the order of replies cannot matter",
]
BUILDS = ["rel", "tsan"]
NEED = {"overlapping": 5000, "local": 10, "remote": 10, "samplers": 100, "created": 300, "walks": 50, "tsan calls": 1000, "same sampler": 3, "reply threads": 3, "spread over servers": 1, "samplers of the shared graph": 300, "first samplers": 300, "copies": 50}


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "tsan%d" % i, "config": "tsan", "graphs": 24 if big else 8, "rounds": 250 if big else 100, "threads": 4} for i in range(6 if big else 3)]
    jobs += [{"name": "replies%d" % i, "config": "tsan", "graphs": 20 if big else 6, "rounds": 150 if big else 80, "threads": 3, "replies": True} for i in range(4 if big else 2)]
    return jobs + [{"name": "rel%d" % i, "config": "rel", "graphs": 40 if big else 12, "rounds": 300, "threads": 8} for i in range(6 if big else 3)]


class Active:
    """Numbers of calls that ran at the same time."""

    def __init__(self, ctx):
        self.ctx, self.n, self.lock = ctx, 0, threading.Lock()

    def __enter__(self):
        with self.lock:
            self.n += 1
            if self.n > 1:
                self.ctx.count("overlapping")

    def __exit__(self, *a):
        with self.lock:
            self.n -= 1


def run(job, ctx):
    sys.setswitchinterval(1e-4)
    r = ctx.rng(job["name"])
    replies = job.get("replies", False)
    for gi in range(job["graphs"]):
        temporal = r.random() < 0.3
        g = gmodel.random_graph(
            r, nodes=r.choice([12, 40]), ntypes=r.choice([2, 3]), etypes=r.choice([2, 4]), degree=r.choice([3, 8]), kinds=("versions",) if temporal else ("dense", "sparse", "string"),
            weights="exact", node_weights="exact", temporal=temporal, features=2, parallel=0)
        oracle.prepare(r, g)
        parts = 4 if replies else r.choice([1, 2, 4, 4])
        spread = parts > 1 and r.random() < 0.5
        out = os.path.join(ctx.scratch, "g%d" % gi)
        ctx.at({"op": "convert", "graph": g.summary()})
        gmodel.convert(g, out, parts, gmodel.even_assign(g, parts), (lambda s, k, p=parts: (s + k) % p) if spread else None)
        remote = replies or (gi + int(job["name"][-1])) % 2 == 1
        with ctx.trial():
            if remote:
                single, split, halves = [list(range(parts))], [[p] for p in range(parts)], [[p for p in range(parts) if p % 2 == k] for k in range(min(2, parts))]
                layout = r.choice([split, halves]) if replies else r.choice([single, split, halves])
                opts = [{"num_threads": 3, "num_cq_per_thread": 2}, {"num_threads": 4, "num_cq_per_thread": 1}, {"num_threads": 4, "num_cq_per_thread": 4}]
                opts = r.choice(opts if replies else opts + [{}])
                with native.cluster(out, layout) as cl:
                    native.random_delay(r.choice([0, 50, 400]), r.randint(1, 2**40))
                    native.take_delay(r.choice([100, 300] if replies else [0, 100]))
                    ctx.count("reply threads", int(bool(opts) and len(layout) > 1))
                    ctx.count("spread over servers", int(bool(opts) and len(layout) > 1 and spread))
                    make = lambda: cl.client(**opts)
                    drive(job, ctx, r, g, make, "remote %s" % layout, len(layout) == 1)
                if replies:
                    # Servers that have the same items: replies of all of them are about the same places of the answer.
                    with native.cluster(out, single * 2) as cl:
                        native.take_delay(200)
                        copies(job, ctx, r, g, cl.client(**opts))
                ctx.count("remote")
            else:
                from deepgnn.graph_engine.snark.client import PartitionStorageType

                storage = r.choice([PartitionStorageType.memory, PartitionStorageType.disk])
                make = lambda: native.memory_graph(out, list(range(parts)), storage_type=storage)
                drive(job, ctx, r, g, make, "local %s" % storage.name, True)
                ctx.count("local")
        native.clear()
        shutil.rmtree(out)


def together(job, work):
    """Runs work(k) in all threads and passes on what they raise."""
    errors = []
    gate = threading.Barrier(job["threads"])

    def body(k):
        try:
            gate.wait()
            work(k)
        except BaseException as e:
            errors.append(e)

    threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(job["threads"])]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    if errors:
        raise errors[0]


def copies(job, ctx, r, g, graph):
    seeds = [r.getrandbits(60) for _ in range(job["threads"])]

    def work(k):
        mine = random.Random(seeds[k])
        probe = oracle.Probe(ctx, g, graph, mine, "two servers with the same items, thread %d" % k)
        for _ in range(job["rounds"] // 4):
            with ctx.trial():
                kind = mine.choice(["node", "edge"])
                how = mine.choice(["string"] + (["dense"] if kind == "node" else []) + ([] if g.temporal else ["sparse"]))
                if how == "sparse":
                    probe.sparse(kind)
                else:
                    getattr(probe, how)(kind, g.temporal)
                ctx.count("copies")

    together(job, work)
    graph.reset()


def drive(job, ctx, r, g, make, label, single):
    from deepgnn.graph_engine.snark import client

    have = sorted({n.type for n in g.nodes.values()})
    active = Active(ctx)
    r_seeds = [r.getrandbits(60) for _ in range(job["threads"])]
    # The first samplers of a graph, created by all threads at once.
    for i in range(4):
        fresh = ctx.call("create", make, case={"graph": label})

        def first(k):
            mine = random.Random(r_seeds[k] + i)
            with ctx.trial(), active:
                for _ in range(3):
                    sampler_of(ctx, mine, g, fresh, have, label)
                ctx.count("first samplers")

        together(job, first)
        fresh.reset()
    shared = ctx.call("create", make, case={"graph": label})
    kinds = ["weighted", "uniform", "withoutreplacement"]
    samplers = []
    for kind in kinds:
        s = client.NodeSampler(shared, have, kind)
        size = min(10, len(g.nodes) if kind != "withoutreplacement" else sum(n.type in have for n in g.nodes.values()))
        samplers.append((kind + " nodes", s, size))
        types = sorted({e.type for e in g.edges})
        if types:
            s = client.EdgeSampler(shared, types, kind)
            samplers.append((kind + " edges", s, min(10, len(g.edges))))
    expected = {}
    for name, s, size in samplers:
        for seed in (5, 6, 2**40 + 7):
            expected[name, seed] = [np.array(x) for x in s.sample(size, seed)]
    walks = {}
    starts = np.array(list(g.nodes)[:10], dtype=np.int64)
    for seed in (1, 2):
        walks[seed] = shared.random_walk(starts, g.edge_types() or [0], 6, 0.5, 2.0, seed=seed)
    ctx.count("same sampler")

    def work(k):
        mine = random.Random(r_seeds[k])
        probe = oracle.Probe(ctx, g, Watched(shared, active, mine), mine, "%s, thread %d" % (label, k))
        for i in range(job["rounds"]):
            with ctx.trial():
                what = mine.random()
                if what < 0.62:
                    probe.any() if mine.random() < 0.7 else probe.sample(mine.choice(["weighted", "uniform", "distinct"]), g.temporal and mine.random() < 0.5, repeat=single)
                    ctx.count("tsan calls", int(job["config"] == "tsan"))
                elif what < 0.78:
                    use_sampler(ctx, mine, g, samplers, expected, single, active, label)
                elif what < 0.86:
                    seed = mine.choice([1, 2])
                    with active:
                        got = ctx.call("random_walk", shared.random_walk, starts, g.edge_types() or [0], 6, 0.5, 2.0, seed=seed, case={"graph": label})
                    if not np.array_equal(got, walks[seed]):
                        ctx.fail("random_walk: another answer than alone", "%s instead of %s" % (got.tolist()[:2], walks[seed].tolist()[:2]), {"graph": label})
                    ctx.count("walks")
                    ctx.case((ctx.name, label, k, i), True)
                elif what < 0.9:
                    with active:
                        ids, scores = ctx.call("ppr_neighbors", shared.ppr_neighbors, starts, g.edge_types() or [0], 5, 0.5, 1e-3, case={"graph": label})
                    if any(n not in row and len(g.neighbors(n, g.edge_types())) == 0 for n, row in zip(starts.tolist(), ids.tolist())):
                        ctx.fail("ppr_neighbors: the node itself is missing", "", {"graph": label})
                else:
                    create(ctx, mine, g, shared, make, have, active, label)

    together(job, work)
    # Released by several threads while none is using them.
    ends = [threading.Thread(target=s.reset) for _, s, _ in samplers]
    for t in ends:
        t.start()
    for t in ends:
        t.join()
    shared.reset()


class Watched:
    """The graph, with calls noted while they run."""

    def __init__(self, graph, active, r):
        self._g, self._a, self._r = graph, active, r

    def __getattr__(self, name):
        fn = getattr(self._g, name)
        if not callable(fn):
            return fn

        def call(*a, **kw):
            if self._r.random() < 0.1:
                time.sleep(self._r.random() * 0.002)
            with self._a:
                return fn(*a, **kw)

        return call


def use_sampler(ctx, mine, g, samplers, expected, single, active, label):
    name, s, size = mine.choice(samplers)
    seed = mine.choice([5, 6, 2**40 + 7])
    with active:
        got = ctx.call("sample", s.sample, size, seed, case={"graph": label, "sampler": name})
    want = expected[name, seed]
    if single and any(not np.array_equal(a, b) for a, b in zip(got, want)):
        ctx.fail("%s: another sample than alone" % name, "%s instead of %s" % ([x.tolist()[:5] for x in got], [x.tolist()[:5] for x in want]), {"graph": label, "seed": seed})
    if name.endswith("nodes"):
        bad = [(int(n), int(t)) for n, t in zip(*got) if int(n) not in g.nodes or g.nodes[int(n)].type != int(t)]
    else:
        bad = [(int(a), int(b), int(t)) for a, b, t in zip(*got) if not g.find(int(a), int(b), int(t))]
    if bad:
        ctx.fail("%s: sampled element does not exist" % name, "%s" % (bad[:3],), {"graph": label, "seed": seed})
    if name.startswith("without") and len(set(zip(*[x.tolist() for x in got]))) != len(got[0]):
        ctx.fail("%s: sampled twice" % name, "%s" % [x.tolist() for x in got], {"graph": label, "seed": seed})
    ctx.count("samplers")
    ctx.case((ctx.name, label, name, seed, ctx.counters.get("samplers")), True)


def create(ctx, mine, g, shared, make, have, active, label):
    """A graph and a sampler of its own, released again."""
    from deepgnn.graph_engine.snark import client

    with active:
        if mine.random() < 0.5:
            return sampler_of(ctx, mine, g, shared, have, label)
        other = ctx.call("create", make, case={"graph": label})
        probe = oracle.Probe(ctx, g, other, mine, label + ", own")
        probe.neighbors()
        s = ctx.call("create sampler", client.NodeSampler, other, have, mine.choice(["weighted", "uniform"]), case={"graph": label})
        got = ctx.call("sample", s.sample, 5, mine.getrandbits(40), case={"graph": label})
        if any(int(n) not in g.nodes for n in got[0]):
            ctx.fail("sampled element does not exist", "%s" % got[0].tolist(), {"graph": label})
        s.reset()
        other.reset()
    ctx.count("created")


def sampler_of(ctx, mine, g, shared, have, label):
    """A sampler of the shared graph, created while others use the graph."""
    from deepgnn.graph_engine.snark import client

    edges = sorted({e.type for e in g.edges})
    kind = mine.choice(["weighted", "uniform", "withoutreplacement"])
    if mine.random() < 0.5 and edges:
        types = mine.sample(edges, mine.randint(1, len(edges)))
        s = ctx.call("create sampler", client.EdgeSampler, shared, types, kind, case={"graph": label})
        size = min(4, sum(e.type in types for e in g.edges))
        got = ctx.call("sample", s.sample, size, mine.getrandbits(40), case={"graph": label})
        bad = [x for x in zip(*(y.tolist() for y in got)) if x[2] not in types or not g.find(*x)]
    else:
        types = mine.sample(have, mine.randint(1, len(have)))
        s = ctx.call("create sampler", client.NodeSampler, shared, types, kind, case={"graph": label})
        size = min(4, sum(n.type in types for n in g.nodes.values()))
        got = ctx.call("sample", s.sample, size, mine.getrandbits(40), case={"graph": label})
        bad = [x for x in zip(*(y.tolist() for y in got)) if x[1] not in types or x[0] not in g.nodes or g.nodes[x[0]].type != x[1]]
    if bad or len(got[0]) != size:
        ctx.fail("%s: sampled element does not exist" % kind, "%s of types %s" % (bad[:3], types), {"graph": label})
    s.reset()
    ctx.count("samplers of the shared graph")
