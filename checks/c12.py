"""Server failures seen from the client."""
import json
import os
import random
import shutil
import time

import numpy as np

import gmodel
import native
import oracle

LEVEL = "fault_enumeration"
RULE = "one case is one remote call during which chosen servers fail chosen calls; it is nontrivial when at least one failure was injected, and distinct by operation, failure pattern and settings"
ASSUMPTIONS = [
    "failures are a failed request or a lost reply with a status code, or a stopped server",
    "waiting between attempts is recorded instead of carried out",
]
BUILDS = ["rel", "asan"]
OPS = ["neighbors", "counts", "node_types", "dense node", "dense edge", "string node", "string edge", "sparse node", "sparse edge", "weighted", "uniform", "distinct", "random_walk", "ppr", "lastn", "sample nodes", "sample edges", "create node sampler", "create edge sampler"]
NEED = {**{"permanent " + op: 3 for op in OPS}, **{"transient " + op: 3 for op in OPS}, "late replies": 20, "connect": 3, "stopped server": 3}


class Failed(BaseException):
    pass


class Watch:
    """Passes calls on; notes whether the call raised."""

    def __init__(self, graph, expect_failure, ctx, case):
        self.graph, self.expect, self.ctx, self.case = graph, expect_failure, ctx, case
        self.meta = graph.meta

    def __getattr__(self, name):
        fn = getattr(self.graph, name)

        def call(*a, **kw):
            if not self.expect:
                return fn(*a, **kw)
            try:
                res = fn(*a, **kw)
            except Exception as e:
                raise Failed(repr(e))
            return res

        return call


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "%s%d" % (c, i), "config": c, "graphs": (30 if big else 8) if c == "rel" else (14 if big else 3), "rounds": 2} for c, n in (("rel", 6 if big else 4), ("asan", 4 if big else 3)) for i in range(n)]
    return jobs


def settings(r):
    initial = r.choice(["0s", "0.1s", "1s", "2s"])
    cap = r.choice(["3s", "10s", "0.5s", "30s"])
    if float(cap[:-1]) < float(initial[:-1]):
        cap = initial
    policy = {"maxAttempts": r.randint(1, 4), "initialBackoff": initial, "maxBackoff": cap, "backoffMultiplier": r.choice([1, 2, 3]), "retryableStatusCodes": ["UNAVAILABLE"]}
    return policy, [("grpc.enable_retries", 1), ("grpc.service_config", json.dumps({"methodConfig": [{"name": [{}], "retryPolicy": policy}]}))]


def run(job, ctx):
    r = ctx.rng(job["name"])
    naps = []
    real = time.sleep
    for gi in range(job["graphs"]):
        temporal = r.random() < 0.4
        g = gmodel.random_graph(r, nodes=r.choice([8, 25]), ntypes=2, etypes=3, degree=5, temporal=temporal, weights="exact", features=0.7, kinds=("dense",) if temporal else ("dense", "string", "sparse"))
        oracle.prepare(r, g)
        parts = r.choice([1, 2, 3])
        spread = parts > 1 and r.random() < 0.5
        out = os.path.join(ctx.scratch, "g%d" % gi)
        ctx.at({"op": "convert", "graph": g.summary()})
        gmodel.convert(g, out, parts, gmodel.even_assign(g, parts), (lambda s, k, p=parts: (s + k) % p) if spread else None)
        policy, options = settings(r)
        with native.cluster(out, [[p] for p in range(parts)]) as c:
            client = c.client(grpc_options=options, num_threads=r.choice([1, 3]))
            time.sleep = naps.append
            try:
                work(job, ctx, r, g, c, client, policy, naps)
            finally:
                time.sleep = real
            if r.random() < 0.7:
                stopped(ctx, r, c, client, naps)
            client.reset()
        connect(ctx, r, out)
        shutil.rmtree(out)


def operations(g, p, r):
    import deepgnn.graph_engine.snark.client as cl

    t = g.temporal
    ops = {
        "neighbors": lambda: p.neighbors(t and r.random() < 0.5),
        "counts": lambda: p.counts(t and r.random() < 0.5),
        "node_types": lambda: p.node_types(),
        "dense node": lambda: p.dense("node", t),
        "dense edge": lambda: p.dense("edge", t),
        "string node": lambda: p.string("node", t),
        "string edge": lambda: p.string("edge", t),
        "random_walk": lambda: walk(p, r),
        "ppr": lambda: ppr(p, r),
        "sample nodes": lambda: sampler(p, r, cl.NodeSampler, False),
        "sample edges": lambda: sampler(p, r, cl.EdgeSampler, False),
        "create node sampler": lambda: sampler(p, r, cl.NodeSampler, True),
        "create edge sampler": lambda: sampler(p, r, cl.EdgeSampler, True),
    }
    for how in ("weighted", "uniform", "distinct"):
        ops[how] = lambda how=how: p.sample(how, t and r.random() < 0.5, repeat=False)
    if t:
        ops["lastn"] = lambda: p.lastn()
    else:
        ops["sparse node"] = lambda: p.sparse("node")
        ops["sparse edge"] = lambda: p.sparse("edge")
    return ops


def walk(p, r):
    g = p.g
    nodes = [r.choice(list(g.nodes)) for _ in range(4)]
    p.begin("random_walk", {"nodes": nodes})
    res = p.call(p.graph.random_walk, np.array(nodes), g.edge_types() or [0], 3, 1.0, 1.0, -1, r.randint(0, 2**40))
    for row in res.tolist():
        for a, b in zip(row, row[1:]):
            near = {e.dst for e in g.out(a)}
            if not (b in near or b == -1):
                p.bad("step without an edge", "%s to %s" % (a, b))
            if b == -1 and a != -1 and near:
                p.bad("stops although there are edges", "at %s" % a)
    p.done(True)


def ppr(p, r):
    g = p.g
    nodes = [r.choice(list(g.nodes)) for _ in range(3)]
    p.begin("ppr_neighbors", {"nodes": nodes})
    ids, w = p.call(p.graph.ppr_neighbors, np.array(nodes), g.edge_types() or [0], 5, 0.5, 1e-3)
    for i, n in enumerate(nodes):
        seen, todo = {n}, [n]
        while todo:
            for e in g.out(todo.pop()):
                if e.dst not in seen:
                    seen.add(e.dst)
                    todo.append(e.dst)
        got = [x for x in ids[i].tolist() if x != -1]
        if not got or not set(got) <= seen:
            p.bad("not reachable", "%d: %s" % (n, got))
        if g.out(n) and {e.dst for e in g.out(n)} != {n} and set(got) == {n}:
            p.bad("neighbors missing", "%d: %s" % (n, got))
    p.done(True)


def sampler(p, r, cls, create):
    g = p.g
    node = cls.__name__ == "NodeSampler"
    kind = r.choice(["weighted", "uniform", "withoutreplacement"])
    types = g.node_types() if node else g.edge_types()
    if not types:
        return
    p.begin("%s %s" % (cls.__name__, kind), {})
    watch = p.graph
    raw = watch.graph

    def make():
        return cls(raw, types, kind)

    if create:
        s = p.call(attempt, watch, make)
    else:
        hold = p.suspended()
        with hold:
            s = make()
    size = min(3, len(g.nodes) if node else len({(e.src, e.dst, e.type) for e in g.edges}))
    res = p.call(attempt, watch, s.sample, size, r.randint(0, 2**40))
    for row in zip(*[x.tolist() for x in res]):
        ok = (row[0] in g.nodes and g.nodes[row[0]].type == row[1]) if node else bool(g.find(*row))
        if not ok:
            p.bad("not an element of the graph", "%s" % (row,))
    p.done(True)


def attempt(watch, fn, *a):
    if not watch.expect:
        return fn(*a)
    try:
        return fn(*a)
    except Exception as e:
        raise Failed(repr(e))


class Suspended:
    def __init__(self, plan):
        self.plan = plan

    def __enter__(self):
        native.clear()

    def __exit__(self, *a):
        self.plan()


def work(job, ctx, r, g, c, client, policy, naps):
    attempts = policy["maxAttempts"]
    lo, hi = float(policy["initialBackoff"][:-1]), float(policy["maxBackoff"][:-1])
    for k in range(job["rounds"]):
        probe = oracle.Probe(ctx, g, None, r, "faults")
        names = list(operations(g, probe, r))
        r.shuffle(names)
        for name in names:
            for permanent in (True, False):
                if not permanent and attempts == 1:
                    continue
                targets = r.sample(c.addresses, r.randint(1, len(c.addresses)))
                code, phase = r.choice([14, 14, 4, 13, 2, 8]), r.choice([0, 1])
                single = len(targets) == 1
                fails = 10**9 if permanent else r.randint(1, attempts - 1) if single else 1
                late = r.random() < 0.5
                case = {"operation": name, "servers": len(c.addresses), "failing": len(targets), "permanent": permanent, "failures": min(fails, 99), "attempts": attempts, "code": code, "phase": phase, "late": late}
                dseed = r.randint(1, 2**40)

                def install():
                    native.clear()
                    if late:
                        native.random_delay(3000, dseed)
                        for a in c.addresses:
                            if a not in targets:
                                native.address_delay(a, 4000)
                    for a in targets:
                        native.fault(a, "", 0, fails, code, phase)

                native.reset_counters()
                watch = Watch(client, permanent, ctx, case)
                p = oracle.Probe(ctx, g, watch, r, "faults", case=case)
                p.suspended = lambda: Suspended(install)
                install()
                del naps[:]
                outcome = "returned"
                with ctx.trial():
                    try:
                        operations(g, p, r)[name]()
                    except Failed:
                        outcome = "raised"
                    d = native.dump()
                    injected = d["injected"]
                    if permanent:
                        if outcome != "raised" and injected:
                            ctx.fail("%s: no exception although a server failed" % name, json.dumps(case), case)
                        if single and injected and not name.startswith("create") and injected != attempts:
                            ctx.fail("%s: wrong number of attempts" % name, "%d failed calls, %d configured: %s" % (injected, attempts, json.dumps(case)), case)
                    waits = [x for x in naps if x > 0 or lo == 0]
                    if any(x < lo - 1e-6 or x > max(hi, lo) + 1e-6 for x in waits):
                        ctx.fail("%s: waiting outside the configured limits" % name, "%s, limits %s to %s" % (waits, lo, hi), case)
                    ctx.count(("permanent " if permanent else "transient ") + name, int(injected > 0))
                    ctx.count("injected", injected)
                    ctx.case((ctx.name, k, name, permanent, len(targets), fails, code, phase, json.dumps(policy)), injected > 0, case)
                    if late and len(c.addresses) > len(targets):
                        ctx.count("late replies")
                native.clear()
                wait_idle()
                # The client keeps working.
                q = oracle.Probe(ctx, g, client, r, "after %s" % name, case={"after": case})
                with ctx.trial():
                    q.any()


def wait_idle():
    end = time.monotonic() + 5
    while native.ctl().vf_in_flight() > 0 and time.monotonic() < end:
        pass


def stopped(ctx, r, c, client, naps):
    """A server that goes away for good."""
    real, time.sleep = time.sleep, naps.append
    try:
        victim = r.randrange(len(c.servers))
        ctx.at({"op": "call with a stopped server"})
        c.servers[victim].reset()
        with ctx.trial():
            try:
                client.neighbor_counts(np.array([0, 1], dtype=np.int64), [0])
                ctx.fail("stopped server: no exception", "server %d of %d" % (victim, len(c.servers)))
            except Exception as e:
                if type(e).__name__ == "Violation":
                    raise
            ctx.count("stopped server")
    finally:
        time.sleep = real


def connect(ctx, r, out):
    """Connecting to servers of which one does not answer."""
    import deepgnn.graph_engine.snark.client as cl

    with native.cluster(out, [[0]]) as c:
        bad = native.address()
        addresses = r.choice([[bad], [bad, c.addresses[0]], [c.addresses[0], bad]])
        ctx.at({"op": "connect", "addresses": len(addresses)})
        ctx.count("connect")
        try:
            g = cl.DistributedGraph(addresses, grpc_options=settings(r)[1])
        except Exception:
            return
        if addresses != [c.addresses[0], bad]:
            with ctx.trial():
                ctx.fail("connect: no exception although a server is missing", "%d addresses" % len(addresses))
        g.reset()
