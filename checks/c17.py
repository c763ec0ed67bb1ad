"""Personalized page rank neighbors against exact scores from a linear system."""
import os
import shutil

import numpy as np

import gmodel
import native
import oracle

LEVEL = "exploration"
RULE = "one case is one call; it is nontrivial when a score other than the one of the starting node has to be returned, and distinct by graph, layout and arguments"
ASSUMPTIONS = [
    "graphs of at most 40 nodes; thresholds from 1e-6 to 0.3, teleport probabilities from 0.05 to 0.95",
    "walks that reach a node without edges vanish there",
    "the error allowed by the threshold is the exact one: the threshold times the number of edges of a node, spread from that node; single precision adds 5e-5",
]
BUILDS = ["rel", "asan"]
NEED = {"rows": 2000, "scores": 10000, "filled": 500, "cut": 300, "temporal": 200, "remote": 5, "spread": 5, "mixed times": 100, "unknown": 50, "tight": 500}


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "ppr%d" % i, "config": "rel", "graphs": 300 if big else 80, "rounds": 25} for i in range(8 if big else 4)]
    return jobs + [{"name": "asan%d" % i, "config": "asan", "graphs": 100 if big else 25, "rounds": 15} for i in range(3 if big else 1)]


def exact(g, types, ts, alpha):
    """Scores of all pairs of nodes, and numbers of edges."""
    ids = sorted(set(g.nodes) | {e.src for e in g.edges} | {e.dst for e in g.edges})
    pos = {n: i for i, n in enumerate(ids)}
    w = np.zeros((len(ids), len(ids)))
    deg = np.zeros(len(ids))
    for n in ids:
        out = [e.dst for e in g.neighbors(n, types, ts)]
        deg[pos[n]] = len(out)
        for d in out:
            w[pos[n], pos[d]] += 1.0 / len(out)
    return pos, alpha * np.linalg.inv(np.eye(len(ids)) - (1 - alpha) * w), deg


def run(job, ctx):
    r = ctx.rng(job["name"])
    for gi in range(job["graphs"]):
        g = gmodel.random_graph(
            r, nodes=r.choice([1, 3, 10, 40]), ntypes=r.choice([1, 3]), etypes=r.choice([1, 2, 5]), degree=r.choice([1, 2, 4, 9]), features=0, kinds=("dense",),
            weights=r.choice(["exact", "exact0"]), node_weights="exact", temporal=r.random() < 0.5, parallel=r.choice([0, 0.5]))
        out = os.path.join(ctx.scratch, "g%d" % gi)
        parts = r.choice([1, 1, 2, 3])
        spread = parts > 1 and r.random() < 0.5
        salt = r.randrange(100)
        ctx.at({"op": "convert", "graph": g.summary()})
        gmodel.convert(g, out, parts, gmodel.even_assign(g, parts), (lambda s, k, p=parts: (s + k * 7 + salt) % p) if spread else None)
        ctx.count("spread", int(spread))
        how = {"parts": parts, "spread": spread, "servers": None}
        with ctx.trial():
            cl = None
            if r.random() < 0.4:
                how["servers"] = r.choice([[list(range(parts))], [[p] for p in range(parts)]])
                cl = native.Cluster(out, how["servers"])
                native.random_delay(100, r.randint(1, 2**40))
                mg = cl.client()
                ctx.count("remote")
            else:
                mg = native.memory_graph(out, list(range(parts)))
            for _ in range(job["rounds"]):
                with ctx.trial():
                    one(ctx, r, g, mg, how)
            mg.reset()
            del cl
        native.clear()
        shutil.rmtree(out)


def one(ctx, r, g, mg, how):
    ids = list(g.nodes)
    strange = [x for x in (max(ids) + 5, 2**62 + 3, -1) if x not in g.nodes]
    nodes = [r.choice(ids) if r.random() < 0.93 else r.choice(strange) for _ in range(r.choice([0, 1, 3, 12]))]
    known = g.edge_types() or [0]
    types = r.choice([known, r.sample(known, r.randint(1, len(known))), [r.choice(known)], [max(known) + 3]])
    count = r.choice([0, 1, 2, 5, 10, 10, 60])
    alpha, eps = r.choice([0.05, 0.15, 0.5, 0.5, 0.95]), r.choice([1e-6, 1e-5, 1e-4, 1e-4, 1e-2, 0.3])
    dn, dw = r.choice([-1, -1, -8, 10**12]), r.choice([-2.5, 0.0])
    ts = None
    if g.temporal and r.random() < 0.75:
        times = [t for e in g.edges for t in (e.created, e.created - 1, e.removed, e.removed - 1) if t is not None and t >= 0] or [0]
        ts = [r.choice(times) for _ in nodes]
        if r.random() < 0.3:
            ts = ts[:1] * len(nodes)
        if r.random() < 0.3 and nodes:
            nodes = nodes[:1] * len(nodes)
        ctx.count("temporal")
        ctx.count("mixed times", int(len(set(ts)) > 1))
    case = {"graph": g.summary(), **how, "nodes": nodes, "types": types, "count": count, "alpha": alpha, "eps": eps, "times": ts}
    kept = np.array(nodes, dtype=np.int64)
    times = None if ts is None else r.choice([list(ts), np.array(ts, dtype=np.int64)])
    ctx.at({"op": "ppr_neighbors", "case": case})
    got, scores = ctx.call("ppr_neighbors", mg.ppr_neighbors, kept, types[0] if len(types) == 1 and r.random() < 0.5 else types, *oracle.trim(r, [count, alpha, eps, dn, dw], [10, 0.5, 1e-4, -1, 0.0]), timestamps=times, case=case)
    if got.shape != (len(nodes), count) or scores.shape != got.shape:
        ctx.fail("page rank results have the wrong shape", "%s %s" % (got.shape, scores.shape), case)
    if kept.tolist() != nodes or (ts is not None and list(times) != ts):
        ctx.fail("page rank changes its arguments", "%s %s" % (kept.tolist(), times), case)
    spread = False
    tables = {}
    for i, n in enumerate(nodes):
        t = None if ts is None else ts[i]
        if n not in g.nodes and not any(e.src == n or e.dst == n for e in g.edges):
            ctx.count("unknown")
            pos, row, slack = {n: 0}, np.array([alpha]), np.array([0.0])
        else:
            if t not in tables:
                tables[t] = exact(g, types, t, alpha)
            pos, m, deg = tables[t]
            row = m[pos[n]]
            slack = eps * (deg @ m)
        pairs = list(zip(got[i].tolist(), scores[i].tolist()))
        real = [x for x in pairs if x != (dn, dw)]
        where = "node %d%s: %s" % (n, "" if t is None else " at %d" % t, real[-6:])
        if pairs != real + [(dn, dw)] * (count - len(real)):
            ctx.fail("page rank results have filler in between", where, case)
        if len({a for a, _ in real}) != len(real):
            ctx.fail("page rank results list a node twice", where, case)
        if any(b < a - 1e-12 for (_, a), (_, b) in zip(real, real[1:])):
            ctx.fail("page rank scores are not in order", where, case)
        ctx.count("filled", int(len(real) < count))
        seen = dict(real)
        low = min(seen.values(), default=0.0)
        for a, b in real:
            if a not in pos or row[pos[a]] <= 0:
                ctx.fail("page rank returns a node that cannot be reached", "%s: node %s" % (where, a), case)
            true = row[pos[a]]
            if not true - slack[pos[a]] - 5e-5 <= b <= true + 5e-5:
                ctx.fail("a page rank score is off", "%s: node %d has %.7f, exact %.7f, allowed error %.2g" % (where, a, b, true, slack[pos[a]]), case)
            ctx.count("scores")
            ctx.count("tight", int(slack[pos[a]] < 1e-3))
        for a, k in pos.items():
            least = row[k] - slack[k] - 5e-5
            if a in seen or least <= 0:
                continue
            if len(real) < count:
                ctx.fail("page rank leaves out a node", "%s: node %d with score of at least %.7f" % (where, a, least), case)
            elif count and least > low + 1e-9:
                ctx.fail("page rank leaves out a better node", "%s: node %d with score of at least %.7f" % (where, a, least), case)
        if count and len(real) == count and count < (row > 1e-4).sum():
            ctx.count("cut")
        if sum(b for _, b in real) > 1 + 1e-3:
            ctx.fail("page rank scores sum to more than one", where, case)
        if count >= 60 and n not in seen:
            ctx.fail("page rank leaves out the starting node", where, case)
        spread |= len(real) > 1
        ctx.count("rows")
    ctx.case((ctx.name, str(case)), spread, {"alpha": alpha, "eps": eps, "times": ts is not None, "scores": scores[0].tolist()[:4] if len(nodes) else []})
