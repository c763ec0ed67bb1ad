"""Frequencies of sampled neighbors over many seeds."""
import os

import numpy as np

import gmodel
import native

LEVEL = "exploration"
RULE = "one case is one node with a type list, strategy and layout, sampled many times; it is nontrivial when at least two edges are eligible, and distinct by configuration"
ASSUMPTIONS = [
    "at least 60000 draws for each case; a deviation counts when it is more than 7 standard deviations for one edge or has a probability below 1e-11 by the chi square test",
    "single edges are told apart by destination and type",
]
BUILDS = ["rel"]
NEED = {"weighted": 20, "uniform": 20, "distinct": 20, "remote": 10, "spread": 20, "temporal": 5, "shares": 3, "pairs": 30}


TOGETHER = "weighted sampling frequencies of several draws are off for a node with edges in several partitions of one engine"

DEPENDENT = "draws of one uniform sample from servers depend on each other"


def plan(tier, seed):
    big = tier == "thorough"
    return [{"name": "f%d" % i, "config": "rel", "graphs": 30 if big else 14, "scale": 3 if big else 1} for i in range(8 if big else 6)]


def star(r):
    """A few hubs with chosen weight vectors."""
    temporal = r.random() < 0.2
    g = gmodel.Graph(50 if temporal else None)
    hubs = list(range(3))
    for h in hubs:
        g.nodes[h] = gmodel.Node(h, 0, 1.0)
    nxt = 100
    for h in hubs:
        etypes = r.sample(range(6), r.randint(1, 4))
        n = r.choice([2, 3, 5, 8, 20, 60])
        style = r.choice(["equal", "linear", "skewed", "one big", "zeros"])
        for i in range(n):
            w = {"equal": 1.0, "linear": float(i + 1), "skewed": float(2.0 ** r.randint(-4, 6)), "one big": 64.0 if i == 0 else 0.5, "zeros": r.choice([0.0, 1.0, 2.0])}[style]
            e = gmodel.Edge(h, nxt, r.choice(etypes), w)
            if temporal:
                e.created = r.choice([0, 5, 10])
                e.removed = r.choice([-1, 15, 25, 40])
            g.edges.append(e)
            nxt += 1
    return g


def judge(ctx, how, case, counts, probs, draws, distinct_k=None, mech=None):
    """counts and probs by edge; with distinct_k every draw takes that many different edges."""
    mech = mech or "%s sampling frequencies are off" % how
    from scipy import stats

    total = counts.sum()
    if distinct_k is None:
        var = draws * probs * (1 - probs)
    else:
        var = draws * probs * (1 - probs) + 1e-9
    want = draws * probs
    z = np.where(var > 1e-6, (counts - want) / np.sqrt(np.maximum(var, 1e-9)), 0)
    if np.any((probs == 0) & (counts > 0)):
        ctx.fail("%s sampling picks an edge without weight" % how, "counts %s" % counts.tolist(), case)
    worst = int(np.argmax(np.abs(z)))
    detail = "edge %d: %d of %d draws, expected %.1f (z %.1f); counts %s expected %s" % (worst, counts[worst], draws, want[worst], z[worst], counts.tolist()[:12], np.round(want, 1).tolist()[:12])
    if abs(z[worst]) > 7:
        ctx.fail(mech, detail, case)
    live = want > 10
    if distinct_k is None and live.sum() > 1 and total:
        chi = float((((counts - want) ** 2) / np.maximum(want, 1e-9))[live].sum())
        p = stats.chi2.sf(chi, int(live.sum()) - 1)
        if p < 1e-11:
            ctx.fail(mech, "chi square probability %g; %s" % (p, detail), case)


def tally(dst, tp, edges):
    """Occurrences of each edge, and of anything else."""
    base = {e.dst: i for i, e in enumerate(edges)}
    lo = min(base, default=0)
    lut = np.full(max(base, default=0) - lo + 1, -1)
    types = np.zeros(len(edges), dtype=np.int64)
    for e in edges:
        lut[e.dst - lo] = base[e.dst]
        types[base[e.dst]] = e.type
    d = dst.reshape(-1)
    ok = (d >= lo) & (d - lo < len(lut))
    idx = np.where(ok, lut[np.where(ok, d - lo, 0)], -1)
    good = (idx >= 0) & (types[idx] == tp.reshape(-1))
    return np.bincount(idx[good], minlength=len(edges)), int((~good).sum())


def run(job, ctx):
    r = ctx.rng(job["name"])
    for gi in range(job["graphs"]):
        g = star(r)
        parts = r.choice([1, 2, 3])
        spread = parts > 1
        out = os.path.join(ctx.scratch, "g%d" % gi)
        ctx.at({"op": "convert", "graph": g.summary()})
        skew = r.random() < 0.5
        assign = (lambda s, k, p=parts, q=skew: (0 if q and k % 5 else k % p)) if spread else None
        where = {}
        gmodel.convert(g, out, parts, gmodel.even_assign(g, parts), assign, where, skip_node_sampler=True, skip_edge_sampler=True)
        remote = r.random() < 0.5
        if spread:
            ctx.count("spread")
        if remote:
            ctx.count("remote")
            layout = [[i] for i in range(parts)]
            if parts == 3 and r.random() < 0.4:
                layout = [[0, 2], [1]]
            with native.cluster(out, layout) as c:
                client = c.client()
                sample(job, ctx, r, g, client, "g%d %s" % (gi, layout), where, layout, True)
                client.reset()
        else:
            mg = native.memory_graph(out, list(range(parts)))
            sample(job, ctx, r, g, mg, "g%d %d parts" % (gi, parts), where, [list(range(parts))], False)
            mg.reset()


def sample(job, ctx, r, g, graph, label, where, layout, remote):
    copies, count_budget = 200, 60000 * job["scale"]
    for h in g.nodes:
        present = sorted({e.type for e in g.out(h)})
        for how in ("weighted", "uniform", "distinct"):
            types = present if r.random() < 0.5 else r.sample(present, r.randint(1, len(present))) + [77]
            ts = r.choice([0, 5, 12, 20, 30]) if g.temporal else None
            edges = g.neighbors(h, types, ts)
            n = len(edges)
            if n < 2:
                continue
            weights = np.array([e.weight for e in edges]) if how == "weighted" else np.ones(n)
            if weights.sum() == 0:
                continue
            k = r.choice([1, 2, 7]) if how != "distinct" else r.choice([x for x in [1, 2, n // 2, n - 1] if 0 < x < n] or [1])
            case = {"graph": label, "how": how, "edges": [(e.dst, e.type, e.weight) for e in edges][:70], "types": types, "count": k, "time": ts}
            nodes = np.full(copies, h, dtype=np.int64)
            kw = {} if ts is None else {"timestamps": np.full(copies, ts, dtype=np.int64)}
            counts, other, draws, pairs = np.zeros(n), 0, 0, []
            # Draws of one call through servers depend on each other, which is a known finding: judge one draw of each call.
            single = how == "uniform" and k > 1 and remote
            with ctx.trial():
                while draws * k < count_budget or draws < 4000:
                    seed = r.randint(0, 2**62)
                    if how == "weighted":
                        dst, _, tp = ctx.call("weighted sampling", graph.weighted_sample_neighbors, nodes, types, k, -1, 0.0, -1, seed, case=case, **kw)
                    else:
                        dst, tp = ctx.call(how + " sampling", graph.uniform_sample_neighbors, how == "distinct", nodes, types, k, -1, -1, seed, case=case, **kw)
                    c, o = tally(dst, tp, edges)
                    if single:
                        column = r.randrange(k)
                        c, _ = tally(dst[:, column : column + 1], tp[:, column : column + 1], edges)
                    if k > 1:
                        key = dst.astype(np.int64) * 131 + tp
                        pairs.append(sum((key[:, a] == key[:, b]).astype(np.int64) for a in range(k) for b in range(a)))
                    counts += c
                    other += o
                    draws += copies
                if other:
                    ctx.fail("%s sampling returns something else than the eligible edges" % how, "%d of %d" % (other, draws * k), case)
                if how == "distinct":
                    judge(ctx, how, case, counts, np.full(n, k / n), draws, k)
                else:
                    places = [where.get((h, e.dst, e.type), 0) for e in edges]
                    together = [sorted({p for p, e in zip(places, edges) if p in engine}) for engine in layout]
                    if how == "weighted" and k > 1 and max(len(t) for t in together) > 1:
                        # A known finding covers the frequencies of single edges; the totals of two partitions hold.
                        ctx.count("together")
                        if len(layout) == 1 and len(together[0]) == 2:
                            ctx.count("shares")
                            by = [np.array([a == p for a in places]) for p in together[0]]
                            judge(ctx, how, case, np.array([counts[b].sum() for b in by]), np.array([weights[b].sum() for b in by]) / weights.sum(), draws * k, mech="weighted sampling shares of partitions are off")
                        judge(ctx, how, case, counts, weights / weights.sum(), draws * k, mech=TOGETHER)
                    else:
                        judge(ctx, how, case, counts, weights / weights.sum(), draws * (1 if single else k))
                        if k > 1:
                            # Draws with replacement agree as often as independent ones.
                            same = float(((weights / weights.sum()) ** 2).sum())
                            rows = np.concatenate(pairs)
                            want = same * k * (k - 1) / 2
                            margin = 7 * rows.std() / len(rows) ** 0.5 + 15 * k / len(rows)
                            ctx.count("pairs")
                            if abs(rows.mean() - want) > margin:
                                ctx.violation(DEPENDENT if single else "%s sampling: draws of one call depend on each other" % how, "%.4f pairs of %d draws agree, expected %.4f, over %d calls" % (rows.mean(), k, want, len(rows)), case)
            ctx.count(how)
            ctx.count("draws", int(draws * k))
            if g.temporal:
                ctx.count("temporal")
            ctx.case((ctx.name, label, h, how, tuple(types), k), True, {"how": how, "label": label, "edges": n, "draws": draws * k})
