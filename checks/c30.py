"""Convenience clients: every method, strategy and argument against the reference graph."""
import os
import pickle
import random
import shutil
from argparse import Namespace

import numpy as np

import gmodel
import native
import oracle

LEVEL = "exploration"
RULE = "one case is one call through a client object; it is nontrivial when the graph has something to return for it, and distinct by graph, client form, method and arguments"
ASSUMPTIONS = [
    "graphs of at most 40 nodes and about 300 edges, weights exact in single precision",
    "frequencies are judged on at least 4000 draws, with a margin of 7 standard deviations",
    "the order of neighbors of one node is not part of the property",
]
BUILDS = ["rel", "asan"]
FORMS = ["local", "subset", "local backend", "remote", "remote backend", "pickled"]
NEED = {
    "form local": 4, "form subset": 4, "form local backend": 4, "form remote": 4, "form remote backend": 4, "form pickled": 4,
    "neighbors": 60, "neighbor_counts": 60, "node_types": 30, "node_features": 60, "edge_features": 60,
    "sample_neighbors weighted": 60, "sample_neighbors uniform": 60, "sample_neighbors distinct": 60, "lastn_neighbors": 30,
    "sample_nodes": 100, "sample_edges": 100, "many types": 20, "ppr": 60, "walk": 60, "walk bias": 20, "strategy frequencies": 20, "counts of elements": 60,
    "reproducible": 60, "array of two dimensions": 40, "default arguments": 40, "unknown strategy": 10,
}


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "rel%d" % i, "config": "rel", "graphs": 36 if big else 18, "rounds": 60 if big else 40} for i in range(8 if big else 5)]
    return jobs + [{"name": "asan%d" % i, "config": "asan", "graphs": 18 if big else 6, "rounds": 40} for i in range(3 if big else 1)]


class Adapter:
    """Gives a client object the interface of the engine's graph, so that the queries of the oracle go through it."""

    def __init__(self, ctx, r, client):
        self.ctx, self.r, self.client = ctx, r, client

    def types(self, types):
        """A type argument in one of the accepted forms."""
        types = types if isinstance(types, list) else [types]
        if len(types) == 1 and self.r.random() < 0.6:
            return types[0]
        arr = np.array(types, dtype=self.r.choice([np.int32, np.int64]))
        if len(types) % 2 == 0 and self.r.random() < 0.5:
            self.ctx.count("array of two dimensions")
            return arr.reshape(2, -1)
        return arr

    def ts(self, kw):
        if "timestamps" in kw and self.r.random() < 0.5:
            kw["timestamps"] = kw["timestamps"].tolist()
        return kw

    def neighbors(self, nodes, types, **kw):
        return self.client.neighbors(nodes, self.types(types), **self.ts(kw))

    def neighbor_counts(self, nodes, types, **kw):
        return self.client.neighbor_count(nodes, self.types(types), **self.ts(kw))

    def node_types(self, nodes, default):
        res = np.array(self.client.node_types(nodes))
        return np.where(res == -1, default, res)

    def node_features(self, nodes, features, dtype, **kw):
        return self.client.node_features(nodes, features, dtype, **self.ts(kw))

    def edge_features(self, src, dst, tp, features, dtype, **kw):
        edges = np.stack([src, dst, tp], axis=1)
        if self.r.random() < 0.5:
            edges = edges.tolist()
        return self.client.edge_features(edges, features, dtype, **self.ts(kw))

    def check4(self, res, created):
        if len(res) not in (3, 4) or (created and len(res) != 4):
            self.ctx.fail("sample_neighbors: wrong number of arrays", "%d" % len(res))
        if not created and len(res) == 4 and not (np.asarray(res[3]) == -1).all():
            self.ctx.fail("sample_neighbors: times without asking for them", "%s" % np.asarray(res[3]).tolist()[:3])
        return res

    def weighted_sample_neighbors(self, nodes, types, seed, **kw):
        random.seed(seed)
        created = kw.get("return_edge_created_ts", False)
        res = self.check4(self.client.sample_neighbors(nodes, self.types(types), **self.strategy("byweight"), **self.ts(kw)), created)
        return tuple(res[:4] if created else res[:3])

    def strategy(self, name):
        """The strategy, which may be left out when it is the default."""
        return {} if name == "byweight" and self.r.random() < 0.5 else {"strategy": name}

    def uniform_sample_neighbors(self, distinct, nodes, types, seed, count=10, **kw):
        if "default_type" in kw:
            kw["default_edge_type"] = kw.pop("default_type")
        if count != 10 or self.r.random() < 0.5:
            kw["count"] = count
        created = kw.get("return_edge_created_ts", False)
        full = []
        # Other allocations in between, so that memory is not reused as it was.
        for fill in (3.5, 77.25):
            dirt = [np.full((len(nodes), count), fill, dtype=np.float32) for _ in range(4)]
            del dirt
            random.seed(seed)
            kw2 = self.ts(dict(kw))
            full.append(self.check4(self.client.sample_neighbors(nodes, types if isinstance(types, int) else np.array(types, dtype=np.int32), strategy="randomwithoutreplacement" if distinct else "random", **kw2), created))
        a, b = full
        # Servers queried together leave the order of a sample open.
        if self.single:
            if any(np.asarray(x).tobytes() != np.asarray(y).tobytes() for x, y in zip(a, b)):
                names = [n for n, x, y in zip(["nodes", "weights", "types", "times"], a, b) if np.asarray(x).tobytes() != np.asarray(y).tobytes()]
                self.ctx.fail("sample_neighbors: the same random state gives different %s" % " and ".join(names), "%s and %s" % ([np.asarray(x).tolist()[:1] for x in a], [np.asarray(x).tolist()[:1] for x in b]), {"nodes": nodes.tolist(), "types": types, "count": count, "seed": seed})
            self.ctx.count("reproducible")
        if np.asarray(a[1]).shape != np.asarray(a[0]).shape or not np.array_equal(a[1], b[1], equal_nan=True):
            self.ctx.fail("sample_neighbors: weights of a uniform sample are not determined", "%s and %s" % (np.asarray(a[1]).tolist()[:2], np.asarray(b[1]).tolist()[:2]))
        return (a[0], a[2], a[3]) if created else (a[0], a[2])

    def lastn_neighbors(self, nodes, types, ts, return_edge_created_ts=False, default_timestamp=-1, **kw):
        res = self.client.sample_neighbors(nodes, self.types(types), strategy="lastn", timestamps=ts, return_edge_created_ts=return_edge_created_ts, **kw)
        if return_edge_created_ts:
            times = np.array(res[3])
            times[(np.asarray(res[0]) == kw.get("default_node", -1)) & (np.asarray(res[2]) == kw.get("default_edge_type", -1)) & (times == -1)] = default_timestamp
            return res[0], res[1], res[2], times
        return res[:3]


def run(job, ctx):
    r = ctx.rng(job["name"])
    for gi in range(job["graphs"]):
        form = FORMS[gi % len(FORMS)]
        temporal = r.random() < 0.4
        g = gmodel.random_graph(
            r, nodes=r.choice([4, 12, 40]), ntypes=r.choice([1, 2, 4]), etypes=r.choice([1, 3, 5]), degree=r.choice([2, 5, 9]),
            kinds=("versions",) if temporal else ("dense",), weights=r.choice(["exact", "exact0"]), node_weights="exact", temporal=temporal, features=r.choice([1, 3]), parallel=False)
        oracle.prepare(r, g)
        parts = r.choice([1, 2, 3, 4]) if form != "subset" else r.choice([3, 4, 5])
        assign = gmodel.even_assign(g, parts)
        out = os.path.join(ctx.scratch, "g%d" % gi)
        ctx.at({"op": "convert", "graph": g.summary()})
        gmodel.convert(g, out, parts, assign)
        with ctx.trial():
            one(job, ctx, r, g, out, parts, assign, form)
            ctx.count("form " + form)
        native.clear()
        shutil.rmtree(out)


def one(job, ctx, r, g, out, parts, assign, form):
    from deepgnn.graph_engine.backends.options import BackendOptions, GraphType
    from deepgnn.graph_engine.graph_dataset import BackendType, create_backend
    from deepgnn.graph_engine.snark import client, distributed, local

    whole = g
    label = {"graph": g.summary(), "parts": parts, "form": form}
    layout, ids = None, list(range(parts))
    if form in ("local", "subset", "local backend"):
        if form == "subset":
            ids = r.sample(range(parts), r.choice([0, 1, 2, parts - 1]))
            if ids == list(range(len(ids))) and ids:
                ids = [parts - 1]
            g = g.subset([i for i in {n for n in g.nodes} | {e.src for e in g.edges} if assign(i) in (ids or [0])])
        elif r.random() < 0.5:
            r.shuffle(ids)
        label["partitions"] = ids
        ctx.at({"op": "load", "case": label})
        if form == "local backend":
            opts = BackendOptions(Namespace(data_dir=out, graph_type=GraphType.LOCAL, backend=BackendType.SNARK, partitions=ids))
            backend = ctx.call("create_backend", create_backend, opts, True, case=label)
            c = backend.graph
        else:
            backend = None
            c = ctx.call("create client", local.Client, out, list(ids), case=label)
        checks(job, ctx, r, g, whole, c, label, True)
        if backend:
            backend.close()
        c.reset()
        return
    layout = [[p for p in range(parts) if p % k == i] for k in [r.choice([1, 2, parts])] for i in range(min(k, parts))]
    label["layout"] = layout
    with native.cluster(out, layout) as cl:
        native.random_delay(200, r.randint(1, 2**40))
        if form == "remote backend":
            opts = BackendOptions(Namespace(data_dir=out, graph_type=GraphType.REMOTE, backend=BackendType.SNARK, servers=list(cl.addresses), skip_ge_start=True))
            backend = ctx.call("create_backend", create_backend, opts, True, case=label)
            c = backend.graph
        else:
            backend = None
            servers = cl.addresses[0] if len(cl.addresses) == 1 and r.random() < 0.5 else cl.addresses
            threads, cqs = r.choice([(None, None), (3, 2), (2, 1)])
            opts = r.choice([None, [("grpc.max_receive_message_length", "7654321"), ("verif.note", "a b")]])
            c = ctx.call("create client", distributed.Client, servers, None, opts, threads, cqs, case=label)
            if form == "pickled":
                mine = lambda: [x for x in native.dump()["channels"] if x["target"] in cl.addresses]
                channels = mine()
                twin = ctx.call("pickle the client", lambda: pickle.loads(pickle.dumps(c)), case=label)
                again = mine()
                strip = lambda ch: sorted((x["target"], x["secure"], str(x["ints"]), str(x["strings"])) for x in ch)
                if sorted(set(strip(again))) != sorted(set(strip(channels))) or len(again) != 2 * len(channels):
                    ctx.fail("pickled client: connected with other settings", "%s and then %s" % (strip(channels), strip(again)), label)
                c.reset()
                c = twin
        checks(job, ctx, r, g, whole, c, label, len(layout) == 1)
        if backend:
            backend.close()
        else:
            c.reset()


def checks(job, ctx, r, g, whole, c, label, single):
    ad = Adapter(ctx, r, c)
    ad.single = single
    probe = oracle.Probe(ctx, g, ad, r, "graph %s" % label["form"], forms=False, case={"load": {k: label[k] for k in ("parts", "partitions", "layout") if k in label}})
    for _ in range(job["rounds"]):
        ops = [probe.neighbors, probe.counts, probe.node_types]
        times = g.temporal
        ops += [lambda h=h, t=t: probe.sample(h, t, repeat=single) for h in ("weighted", "uniform", "distinct") for t in ({False, times})]
        ops += [lambda k=k: probe.dense(k, times) for k in ("node", "edge")] * 2
        if times:
            ops += [lambda: probe.neighbors(True), lambda: probe.counts(True), probe.lastn, probe.lastn]
        extra = [sample_elements, defaults, ppr, walk, counts_of_elements]
        with ctx.trial():
            if r.random() < 0.35:
                op = r.choice(extra)
                ctx.at({"op": op.__name__, "case": label})
                op(ctx, r, g, whole, c, label, single)
            else:
                r.choice(ops)()
    if job["config"] == "rel":
        with ctx.trial():
            frequencies(ctx, r, g, c, label)
        with ctx.trial():
            many_types(ctx, r, g, c, label)
    with ctx.trial():
        try:
            c.sample_neighbors(np.array([1], dtype=np.int64), 0, 1, "no such strategy")
        except NotImplementedError:
            ctx.count("unknown strategy")
        else:
            ctx.fail("sample_neighbors: accepts an unknown strategy", "no exception", label)


def counts_of_elements(ctx, r, g, whole, c, label, single):
    """Counts come from the metadata, which describes the whole graph."""
    for what, fn, have, items in (("node", c.node_count, whole.node_types(), list(whole.nodes.values())), ("edge", c.edge_count, whole.edge_types(), whole.edges)):
        if not have:
            continue
        types = r.sample(have, r.randint(1, len(have)))
        arg = types[0] if len(types) == 1 and r.random() < 0.5 else np.array(types, dtype=r.choice([np.int32, np.int64]))
        got = ctx.call("%s_count" % what, fn, arg, case={**label, "types": types})
        want = sum(1 for x in items if x.type in types)
        if got != want:
            ctx.fail("%s_count: wrong number" % what, "types %s: got %s expected %d" % (types, got, want), label)
        ctx.count("counts of elements")
        ctx.case((ctx.name, str(label), what, str(types)), want > 0, {"call": what + "_count", "types": types, "count": want})


def strategies():
    from deepgnn.graph_engine import SamplingStrategy as S

    return {"weighted": S.Weighted, "uniform": S.Random, "withoutreplacement": S.RandomWithoutReplacement}


def sample_elements(ctx, r, g, whole, c, label, single):
    for what in ("node", "edge"):
        items = list(g.nodes.values()) if what == "node" else g.edges
        have = sorted({x.type for x in items})
        if not have:
            continue
        types = r.sample(have, r.randint(1, len(have)))
        kind = r.choice(list(strategies()))
        pool = [x for x in items if x.type in types]
        if kind == "weighted":
            if any(not any(x.weight > 0 for x in pool if x.type == t) for t in types):
                kind = "uniform"
            else:
                pool = [x for x in pool if x.weight > 0]
        size = r.choice([1, 5, 60]) if kind != "withoutreplacement" else r.randint(1, len(pool))
        one_type = len(types) == 1 and r.random() < 0.6
        arg = types[0] if one_type else np.array(types, dtype=np.int32)
        case = {**label, "types": types, "strategy": kind, "size": size}
        seed = r.randint(0, 2**60)
        fn = c.sample_nodes if what == "node" else c.sample_edges
        random.seed(seed)
        res = ctx.call("sample_%ss" % what, fn, size, arg, strategies()[kind], case=case)
        random.seed(seed)
        again = ctx.call("sample_%ss" % what, fn, size, arg, strategies()[kind], case=case)
        name = "sample_%ss" % what
        if what == "node":
            if one_type:
                ids, got_types = res, np.full(size, types[0])
                same = np.array_equal(res, again)
            else:
                if not isinstance(res, tuple) or len(res) != 2:
                    ctx.fail("sample_nodes: no types for an array of types", "%s" % type(res), case)
                ids, got_types = res
                same = np.array_equal(res[0], again[0]) and np.array_equal(res[1], again[1])
            rows = list(zip(np.asarray(ids).tolist(), np.asarray(got_types).tolist()))
            known = {(x.id, x.type) for x in pool}
            shape = np.asarray(ids).shape == (size,)
        else:
            same = np.array_equal(res, again)
            shape = res.shape == (size, 3)
            rows = [tuple(x) for x in res.tolist()]
            known = {(x.src, x.dst, x.type) for x in pool}
        if not shape or len(rows) != size:
            ctx.fail(name + ": wrong shape", "%s for %d" % (np.asarray(res[0] if isinstance(res, tuple) else res).shape, size), case)
        odd = [x for x in rows if x not in known]
        if odd:
            ctx.fail(name + ": not an element of the asked types", "%s" % odd[:3], case)
        if kind == "withoutreplacement" and len(set(rows)) != size:
            ctx.fail(name + ": repeats an element", "%s" % rows[:10], case)
        if not same:
            ctx.fail(name + ": the same random state gives another sample", "%s" % rows[:4], case)
        if kind != "withoutreplacement" and len({round(x.weight, 3) for x in pool}) >= 1 and len(pool) > 3:
            lots = set()
            for _ in range(4):
                v = fn(40, arg, strategies()[kind])
                lots.add(np.asarray(v[0] if isinstance(v, tuple) else v).tobytes())
            top = max(x.weight for x in pool) / sum(x.weight for x in pool) if kind == "weighted" else 1 / len(pool)
            if top < 0.6 and len(lots) < 2:
                ctx.fail(name + ": later calls repeat the first sample", "%d different of 4" % len(lots), case)
        ctx.count(name)
        ctx.case((ctx.name, str(label), what, kind, str(types), size), len(pool) > 1, {"call": name, "strategy": kind, "types": types, "size": size, "first": rows[:2]})


def defaults(ctx, r, g, whole, c, label, single):
    """Arguments left out mean ten neighbors by weight, filled with -1, 0.0 and -1."""
    nodes = np.array([r.choice(list(g.nodes) + [10**9 + 7]) for _ in range(6)], dtype=np.int64)
    types = np.array(g.edge_types() or [0], dtype=np.int32)
    res = ctx.call("sample_neighbors", c.sample_neighbors, nodes, types, case=label)
    if any(np.asarray(x).shape != (6, 10) for x in res[:3]):
        ctx.fail("sample_neighbors: default count", "%s" % [np.asarray(x).shape for x in res], label)
    for i, n in enumerate(nodes.tolist()):
        pool = [(e.dst, e.weight, e.type) for e in g.neighbors(n, types.tolist()) if e.weight > 0] or [(-1, 0.0, -1)]
        for row in zip(*[np.asarray(x)[i].tolist() for x in res[:3]]):
            if row not in pool:
                ctx.fail("sample_neighbors: wrong values with default arguments", "node %d: %s of %s" % (n, row, pool[:6]), label)
    walks = ctx.call("random_walk", c.random_walk, np.array([10**9 + 7], dtype=np.int64), types, 3, 1.0, 1.0, case=label)
    if walks.tolist() != [[10**9 + 7, -1, -1, -1]]:
        ctx.fail("random_walk: wrong default node", "%s" % walks.tolist(), label)
    ctx.count("default arguments")
    ctx.case((ctx.name, str(label), "defaults", str(nodes.tolist())), True, {"call": "defaults", "nodes": nodes.tolist()[:3]})


def ppr(ctx, r, g, whole, c, label, single):
    """Arguments reach the engine: scores sum up and spread as the parameters say, and repeat."""
    nodes = np.array([r.choice(list(g.nodes) + [10**9 + 7]) for _ in range(4)], dtype=np.int64)
    types = r.sample(g.edge_types(), r.randint(1, len(g.edge_types()))) if g.edge_types() else [0]
    alpha, eps, count = r.choice([0.15, 0.5, 0.9]), r.choice([1e-2, 1e-4, 1e-6]), r.choice([1, 4, 60])
    case = {**label, "nodes": nodes.tolist(), "types": types, "alpha": alpha, "eps": eps, "count": count}
    res = ctx.call("ppr-go", c.sample_neighbors, nodes, np.array(types, dtype=np.int32), count, "ppr-go", -8, -2.5, alpha=alpha, eps=eps, case=case)
    if len(res) > 3 and not (np.asarray(res[3]) == -1).all():
        ctx.fail("ppr-go: times without asking for them", "%s" % np.asarray(res[3]).tolist()[:3], case)
    ids, scores = np.asarray(res[0]), np.asarray(res[1])
    if ids.shape != (4, count) or scores.shape != (4, count):
        ctx.fail("ppr-go: wrong shape", "%s %s" % (ids.shape, scores.shape), case)
    for i, n in enumerate(nodes.tolist()):
        p, left, deg = push(g, n, types, alpha)
        got = {a: b for a, b in zip(ids[i].tolist(), scores[i].tolist()) if (a, b) != (-8, -2.5)}
        if n not in got and count == 60:
            ctx.fail("ppr-go: the node itself is missing", "node %d: %s" % (n, list(got.items())[:4]), case)
        for a, b in got.items():
            true = p.get(a, 0.0)
            # The push leaves less than alpha*eps*degree at each node, all of which could still arrive at one node.
            slack = eps * deg + 1e-4
            if b > true + 1e-4 or b < true - slack:
                ctx.fail("ppr-go: score does not fit the parameters", "node %d neighbor %d: %.6f, exact %.6f, alpha %s eps %s" % (n, a, b, true, alpha, eps), case)
        if count == 60:
            total = sum(got.values())
            if total > 1 + 1e-3:
                ctx.fail("ppr-go: scores sum to more than one", "%f" % total, case)
    ctx.count("ppr")
    ctx.case((ctx.name, str(label), "ppr", str(nodes.tolist()), alpha, eps), bool(g.edges), {"call": "ppr-go", "alpha": alpha, "eps": eps, "scores": scores[0].tolist()[-3:]})


def push(g, start, types, alpha):
    """Exact personalized scores: walks stop at every step with probability alpha and vanish where there is nowhere to go."""
    cur, p, deg = {start: 1.0}, {}, 0
    nbs = {}
    for _ in range(400):
        nxt = {}
        for n, m in cur.items():
            p[n] = p.get(n, 0.0) + alpha * m
            if n not in nbs:
                nbs[n] = [e.dst for e in g.neighbors(n, types)]
                deg += len(nbs[n])
            for d in nbs[n]:
                nxt[d] = nxt.get(d, 0.0) + (1 - alpha) * m / len(nbs[n])
        cur = {n: m for n, m in nxt.items() if m > 1e-12}
        if not cur:
            break
    return p, cur, deg


def walk(ctx, r, g, whole, c, label, single):
    types = r.sample(g.edge_types(), r.randint(1, len(g.edge_types()))) if g.edge_types() else [0]
    starts = np.array([r.choice(list(g.nodes) + [10**9 + 7]) for _ in range(10)], dtype=np.int64)
    n, p, q, dn = r.choice([1, 3, 8]), r.choice([0.25, 1.0, 4.0]), r.choice([0.25, 1.0, 4.0]), -8
    ts = None
    if g.temporal and r.random() < 0.6:
        ts = [r.choice([e.created for e in g.edges] or [0]) for _ in range(10)]
    case = {**label, "starts": starts.tolist(), "types": types, "length": n, "p": p, "q": q, "timestamps": ts}
    seed = r.randint(0, 2**60)
    arg = types[0] if len(types) == 1 and r.random() < 0.5 else np.array(types, dtype=np.int32)
    random.seed(seed)
    got = ctx.call("random_walk", c.random_walk, starts, arg, n, p, q, dn, timestamps=ts, case=case)
    random.seed(seed)
    again = ctx.call("random_walk", c.random_walk, starts, arg, n, p, q, dn, timestamps=ts, case=case)
    if got.shape != (10, n + 1):
        ctx.fail("random_walk: wrong shape", "%s" % (got.shape,), case)
    if single and not np.array_equal(got, again):
        ctx.fail("random_walk: the same random state gives other walks", "%s and %s" % (got.tolist()[:1], again.tolist()[:1]), case)
    steps = 0
    for i, row in enumerate(got.tolist()):
        if row[0] != starts[i]:
            ctx.fail("random_walk: starts elsewhere", "%s" % row, case)
        for a, b in zip(row, row[1:]):
            nbs = {e.dst for e in g.neighbors(a, types, ts[i] if ts else None)} if a != dn else set()
            if (b not in nbs) if nbs else b != dn:
                ctx.fail("random_walk: step is not an edge", "%d to %d, neighbors %s" % (a, b, sorted(nbs)[:6]), case)
            steps += bool(nbs)
    ctx.count("walk")
    ctx.case((ctx.name, str(label), "walk", str(starts.tolist()), n), steps > 0, {"call": "random_walk", "walk": got[0].tolist()})


def frequencies(ctx, r, g, c, label):
    """Strategies differ in how often they return which neighbor; return and in-out parameters in where walks go."""
    types = g.edge_types()
    best = [(n, [e for e in g.neighbors(n, types) if e.weight > 0]) for n in g.nodes]
    best = [(n, es) for n, es in best if len({e.dst for e in es}) > 1 and len(es) == len(g.neighbors(n, types))]
    arr = np.array(types or [0], dtype=np.int32)
    r.shuffle(best)
    for n, es in best[:2]:
        total = sum(e.weight for e in es)
        draws = 6000
        for strategy in ("byweight", "random"):
            # One draw of each row: draws of one row may depend on each other, see C09.
            res = ctx.call("sample_neighbors", c.sample_neighbors, np.full(draws, n, dtype=np.int64), arr, 1, strategy, case=label)
            got = np.asarray(res[0]).flatten().tolist()
            for d in {e.dst for e in es}:
                prob = sum((e.weight / total) if strategy == "byweight" else 1 / len(es) for e in es if e.dst == d)
                seen = got.count(d)
                sd = max(1.0, (draws * prob * (1 - prob)) ** 0.5)
                if abs(seen - draws * prob) > 7 * sd + 8:
                    ctx.fail("sample_neighbors: frequencies of strategy %s" % strategy, "node %d neighbor %d: %d of %d, expected %.0f" % (n, d, seen, draws, draws * prob), label)
            ctx.count("strategy frequencies")
    # Second steps of walks: exact probabilities follow from weights and both parameters.
    for n, es in best[:2]:
        p, q = r.choice([(0.02, 1.0), (50.0, 1.0), (1.0, 0.02), (1.0, 50.0), (0.1, 10.0)])
        draws = 4000
        walks = ctx.call("random_walk", c.random_walk, np.full(draws, n, dtype=np.int64), arr, 2, p, q, case=label)
        near = {e.dst for e in g.neighbors(n, types)}
        for first in near:
            rows = walks[walks[:, 1] == first]
            if len(rows) < 300:
                continue
            mass = {}
            for e in g.neighbors(first, types):
                mass[e.dst] = mass.get(e.dst, 0.0) + e.weight * (1 / p if e.dst == n else 1.0 if e.dst in near else 1 / q)
            total = sum(mass.values())
            if total <= 0:
                continue
            for d, m in mass.items():
                prob = m / total
                seen = int((rows[:, 2] == d).sum())
                sd = max(1.0, (len(rows) * prob * (1 - prob)) ** 0.5)
                if abs(seen - len(rows) * prob) > 7 * sd + 8:
                    ctx.fail("random_walk: steps do not follow the parameters", "from %d via %d to %d: %d of %d, expected %.0f (p %s q %s)" % (n, first, d, seen, len(rows), len(rows) * prob, p, q), label)
            ctx.count("walk bias")


def many_types(ctx, r, g, c, label):
    """Long lists of types that differ only in the middle."""
    have = g.node_types()
    if len(have) < 2:
        return
    a, b = r.sample(have, 2)
    pad = [900 + i for i in range(600)]
    for kind in ("uniform", "withoutreplacement"):
        for t in (a, b):
            arg = np.array(pad + [t] + [x + 700 for x in pad], dtype=np.int32)
            case = {**label, "strategy": kind, "type in the middle": t}
            size = 1
            ids, types = ctx.call("sample_nodes", c.sample_nodes, size, arg, strategies()[kind], case=case)
            if [(int(i), int(x)) for i, x in zip(ids, types) if int(x) != t or g.nodes.get(int(i)) is None or g.nodes[int(i)].type != t]:
                ctx.fail("sample_nodes: not an element of the asked types", "asked for %d among unknown types, got %s of type %s" % (t, ids.tolist(), types.tolist()), case)
            ctx.count("many types")
