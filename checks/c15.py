"""Samplers of nodes and edges."""
import os
import random
import shutil

import numpy as np

import gmodel
import native

LEVEL = "exploration"
RULE = "one case is one sampler (elements, type set, strategy, layout) drawn from many times; it is nontrivial when at least two elements are eligible, and distinct by configuration"
ASSUMPTIONS = [
    "at least 40000 draws for each sampler with replacement; a deviation counts when it is more than 7 standard deviations for one element or has a probability below 1e-11 by the chi square test",
    "no more elements are asked for without replacement than exist",
    "frequencies of samplers without replacement are not specified beyond every element being reachable",
]
BUILDS = ["rel", "asan"]
NEED = {
    "node weighted": 15, "node uniform": 15, "node withoutreplacement": 15,
    "edge weighted": 15, "edge uniform": 15, "edge withoutreplacement": 15,
    "remote": 8, "empty shard": 2, "separate folders": 5, "wrapper": 8, "all taken": 20, "repeated": 60, "zero weights": 10, "unknown types": 20, "wrapper edges": 10,
}
KINDS = ["weighted", "uniform", "withoutreplacement"]


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "rel%d" % i, "config": "rel", "graphs": 40 if big else 14, "draws": 120000 if big else 40000} for i in range(8 if big else 5)]
    return jobs + [{"name": "asan%d" % i, "config": "asan", "graphs": 20 if big else 6, "draws": 1500} for i in range(3)]


def make(r):
    kind = r.choice(["exact", "equal", "skewed", "exact0"])
    g = gmodel.random_graph(r, nodes=r.choice([3, 10, 40]), ntypes=r.choice([1, 2, 4]), etypes=r.choice([1, 3, 5]), degree=r.choice([2, 6]), features=0, weights=kind, node_weights=r.choice(["exact", "equal", "skewed", "exact0"]))
    if r.random() < 0.3:
        # One type lives in a single node.
        g.nodes[next(iter(g.nodes))].type = 4
    return g


def judge(ctx, case, what, counts, weights, draws):
    from scipy import stats

    probs = weights / weights.sum()
    want = draws * probs
    if np.any((probs == 0) & (counts > 0)):
        ctx.fail("%s: samples an element without weight" % what, "%s" % counts.tolist()[:20], case)
    var = np.maximum(draws * probs * (1 - probs), 1e-9)
    z = np.where(probs > 0, (counts - want) / np.sqrt(np.maximum(var, 0.05)), 0)
    worst = int(np.argmax(np.abs(z)))
    detail = "element %d: %d of %d draws, expected %.1f (z %.1f)" % (worst, counts[worst], draws, want[worst], z[worst])
    # Counts expected to be small are far from normal.
    if abs(z[worst]) > 7 and (want[worst] > 5 or counts[worst] > want[worst] * 5 + 25):
        ctx.fail("%s: frequencies are off" % what, detail, case)
    live = want > 10
    if live.sum() > 1:
        chi = float((((counts - want) ** 2) / np.maximum(want, 1e-9))[live].sum())
        if stats.chi2.sf(chi, int(live.sum()) - 1) < 1e-11:
            ctx.fail("%s: frequencies are off" % what, "chi square %.1f of %d; %s" % (chi, live.sum(), detail), case)


class Table:
    """Lookup of elements."""

    def __init__(self, keys, weights):
        order = sorted(range(len(keys)), key=lambda i: keys[i])
        self.keys = [keys[i] for i in order]
        self.weights = np.array([weights[i] for i in order], dtype=np.float64)
        self.rows = np.array(self.keys, dtype=np.int64).reshape(len(keys), -1)
        self.index = {k: i for i, k in enumerate(self.keys)}

    def tally(self, ctx, case, what, rows):
        uniq, n = np.unique(rows, axis=0, return_counts=True)
        counts = np.zeros(len(self.keys))
        for u, c in zip(uniq.tolist(), n.tolist()):
            i = self.index.get(tuple(u))
            if i is None:
                ctx.fail("%s: returns something that is not an element" % what, "%s (%d times)" % (u, c), case)
            counts[i] = c
        return counts


def elements(g, what, types):
    if what == "node":
        pick = [(n.id, n.type, n.weight) for n in g.nodes.values() if n.type in types]
        return [(a, b) for a, b, _ in pick], [w for _, _, w in pick]
    merged = {}
    for e in g.edges:
        if e.type in types:
            merged[(e.src, e.dst, e.type)] = merged.get((e.src, e.dst, e.type), 0) + e.weight
    return list(merged), list(merged.values())


def run(job, ctx):
    from deepgnn.graph_engine.snark import client, distributed, local

    r = ctx.rng(job["name"])
    for gi in range(job["graphs"]):
        g = make(r)
        parts = r.choice([1, 2, 3, 5])
        out = os.path.join(ctx.scratch, "g%d" % gi)
        spread = parts > 1 and r.random() < 0.4
        ctx.at({"op": "convert", "graph": g.summary()})
        ids = list(g.nodes)
        bare = parts > 1 and r.random() < 0.4
        # Sometimes the last partition stays without anything.
        assign = (lambda n, k=parts - 1: n % k) if bare else gmodel.even_assign(g, parts)
        gmodel.convert(g, out, parts, assign, (lambda s, k, p=parts: (s + k) % p) if spread else None)
        mode = r.choice(["local", "folders", "remote", "remote", "wrapper", "remote wrapper"])
        label = {"graph": g.summary(), "parts": parts, "mode": mode, "bare": bare, "spread": spread}
        if mode == "local":
            mg = native.memory_graph(out, r.sample(range(parts), parts))
            draw(job, ctx, r, g, mg, label)
            mg.reset()
        elif mode == "folders":
            top, where = gmodel.scatter(out, out + "s", parts)
            mg = client.MemoryGraph(top, where)
            draw(job, ctx, r, g, mg, label)
            mg.reset()
            ctx.count("separate folders")
        elif mode == "wrapper":
            c = local.Client(out, list(range(parts)))
            wrapped(job, ctx, r, g, c, label)
            c.reset()
            ctx.count("wrapper")
        else:
            layout = [[p] for p in range(parts)] if r.random() < 0.6 else [[p for p in range(parts) if p % 2 == 0], [p for p in range(parts) if p % 2]]
            if r.random() < 0.3:
                layout.append([])
            layout = [x for x in layout if x] if r.random() < 0.5 else layout
            ctx.count("remote")
            held = [sum(1 for n in ids if assign(n) in x) for x in layout]
            ctx.count("empty shard", int(min(held) == 0))
            label["layout"] = layout
            with native.cluster(out, layout) as cl:
                native.random_delay(300, r.randint(1, 2**40))
                if mode == "remote":
                    c = cl.client()
                    draw(job, ctx, r, g, c, label)
                else:
                    c = distributed.Client(cl.addresses)
                    wrapped(job, ctx, r, g, c, label)
                    ctx.count("wrapper")
                c.reset()
                native.clear()
        shutil.rmtree(out)


def choose(r, g, what):
    """A type list as given by the caller, and the types it stands for."""
    known = g.node_types() if what == "node" else g.edge_types()
    c = r.random()
    if c < 0.2:
        return -1, known, False
    if c < 0.4:
        t = r.choice(known)
        return t, [t], False
    pick = r.sample(known, r.randint(1, len(known)))
    if c < 0.7:
        return pick, pick, False
    return pick + [99, pick[0]] + ([-5] if r.random() < 0.5 else []), pick, True


def sizes(r, total, kind):
    if kind == "withoutreplacement":
        return r.choice([1, min(2, total), total, total, max(1, total - 1), r.randint(1, total)]) if total else 0
    return r.choice([1, 2, 7, 50, 400, 3000])


def draw(job, ctx, r, g, graph, label):
    from deepgnn.graph_engine.snark import client

    for what in ("node", "edge"):
        if what == "edge" and not g.edges:
            continue
        for kind in KINDS:
            given, types, odd = choose(r, g, what)
            keys, weights = elements(g, what, types)
            if kind == "weighted" and any(sum(w for k, w in zip(keys, weights) if k[-1] == t) == 0 for t in types):
                # A type without any weight: what to sample from it is open.
                continue
            cls = client.NodeSampler if what == "node" else client.EdgeSampler
            name = "%s %s" % (what, kind)
            case = {**label, "sampler": name, "types": given}
            ctx.at({"op": "create sampler", "case": case})
            with ctx.trial():
                s = ctx.call("create %s sampler" % name, cls, graph, given, kind, case=case)
                once(job, ctx, r, name, kind, keys, weights, case, lambda n, seed: s.sample(n, seed), True)
                ctx.count("unknown types", int(odd))
                s.reset()


def once(job, ctx, r, name, kind, keys, weights, case, sample, seeded):
    table = Table(keys, weights)
    total = len(keys)
    counts, draws, calls = np.zeros(total), 0, 0
    if kind == "withoutreplacement":
        # Enough calls for every element to show up: a miss has a probability below 1e-12.
        seen = np.zeros(total)
        size = sizes(r, total, kind)
        while calls < 5 or (calls < 40 * total / max(size, 1) + 30 and job["draws"] > 5000):
            n = size if calls % 3 else sizes(r, total, kind)
            seed = r.randint(-(2**63), 2**63 - 1)
            res = ctx.call("sample " + name, sample, n, seed, case=case)
            rows = stack(res)
            if len(rows) != n:
                ctx.fail("%s: wrong number of results" % name, "%d of %d" % (len(rows), n), case)
            c = table.tally(ctx, case, name, rows)
            if c.max() > 1:
                ctx.fail("%s: returns an element twice" % name, "size %d of %d" % (n, total), case)
            ctx.count("all taken", int(n == total))
            seen += c
            calls += 1
            draws += n
        if job["draws"] > 5000 and (seen == 0).any():
            ctx.fail("%s: never returns an element" % name, "%s in %d calls, %d draws of %d" % (table.keys[int(np.argmin(seen))], calls, draws, total), case)
    else:
        while draws < job["draws"]:
            n = sizes(r, total, kind) if calls < 30 else 5000
            seed = r.randint(-(2**63), 2**63 - 1)
            res = ctx.call("sample " + name, sample, n, seed, case=case)
            rows = stack(res)
            if len(rows) != n:
                ctx.fail("%s: wrong number of results" % name, "%d of %d" % (len(rows), n), case)
            counts += table.tally(ctx, case, name, rows)
            draws += n
            calls += 1
        w = table.weights if kind == "weighted" else np.ones(total)
        if job["draws"] > 5000:
            judge(ctx, case, name, counts, w, draws)
            ctx.count("zero weights", int((table.weights == 0).any()))
    if seeded:
        n = sizes(r, total, kind)
        seed = r.randint(-(2**63), 2**63 - 1)
        a, b = stack(sample(n, seed)), stack(sample(n, seed))
        if not np.array_equal(a, b):
            ctx.fail("%s: the same seed gives different samples" % name, "size %d" % n, case)
        ctx.count("repeated")
        # Other seeds give other samples.
        if kind != "withoutreplacement" and total > 1 and np.count_nonzero(table.weights if kind == "weighted" else np.ones(total)) > 1:
            lots = {stack(sample(60, r.randint(0, 2**62))).tobytes() for _ in range(6)}
            free = {stack(sample(60, None)).tobytes() for _ in range(6)}
            top = (table.weights / table.weights.sum()).max() if kind == "weighted" else 1 / total
            if top < 0.6 and (len(lots) < 3 or len(free) < 3):
                ctx.fail("%s: samples do not depend on the seed" % name, "%d and %d different of 6" % (len(lots), len(free)), case)
    ctx.count(name)
    ctx.case((ctx.name, name, case["graph"], str(case["types"]), case["mode"], case["parts"]), total > 1, {"sampler": name, "elements": total, "draws": draws, "counts": counts.astype(int).tolist()[:8], "weights": table.weights.tolist()[:8], "mode": case["mode"]})


def stack(res):
    return np.stack([np.asarray(x, dtype=np.int64) for x in res], axis=1)


def wrapped(job, ctx, r, g, c, label):
    """The convenience clients, which keep samplers for later and take seeds from the random module."""
    from deepgnn.graph_engine import SamplingStrategy as S

    kinds = {"weighted": S.Weighted, "uniform": S.Random, "withoutreplacement": S.RandomWithoutReplacement}
    plans = []
    for what in ("node", "edge"):
        if what == "edge" and not g.edges:
            continue
        _, types, _ = choose(r, g, what)
        for types in (types, choose(r, g, what)[1]):
            plans += [(what, k, types) for k in KINDS]
    r.shuffle(plans)
    for what, kind, types in plans:
        keys, weights = elements(g, what, types)
        if kind == "weighted" and any(sum(w for k, w in zip(keys, weights) if k[-1] == t) == 0 for t in types):
            continue
        name = "%s %s" % (what, kind)
        single = len(types) == 1 and r.random() < 0.5
        arg = types[0] if single else np.array(types, dtype=np.int32)
        case = {**label, "sampler": "client " + name, "types": types}

        def sample(n, seed):
            random.seed(seed)
            if what == "node":
                res = c.sample_nodes(n, arg, kinds[kind])
                return (res, np.full(n, types[0])) if single else res
            res = c.sample_edges(n, arg, kinds[kind])
            return res[:, 0], res[:, 1], res[:, 2]

        with ctx.trial():
            once(job, ctx, r, name, kind, keys, weights, case, sample, True)
            ctx.count("wrapper edges", int(what == "edge"))
