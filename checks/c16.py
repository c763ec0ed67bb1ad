"""Random walks: every step against the reference graph, and frequencies of steps against exact probabilities."""
import os
import shutil

import numpy as np

import gmodel
import native

LEVEL = "exploration"
RULE = "one case is one call, or one pair of consecutive nodes whose next steps were counted; it is nontrivial when a step along an edge was taken, and distinct by graph, layout and arguments"
ASSUMPTIONS = [
    "graphs of at most 40 nodes; frequencies come from at least 100000 steps on each graph, counted for each pair of previous and current node",
    "a deviation counts when it is more than 7 standard deviations and 8 steps for one destination, or has a probability below 1e-11 by the chi square test",
    "several edges between two nodes count with the sum of their weights",
]
BUILDS = ["rel", "asan"]
NEED = {
    "steps": 5000, "finished": 200, "contexts": 150, "first steps": 20, "remote": 5, "spread": 5, "temporal": 5, "repeated": 100, "pairs of walks": 10,
    "default node in graph": 5, "returns": 200, "inward": 50, "outward": 200,
}


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "valid%d" % i, "config": "rel", "mode": "valid", "graphs": 150 if big else 50, "rounds": 40 if big else 25} for i in range(6 if big else 2)]
    jobs += [{"name": "asan%d" % i, "config": "asan", "mode": "valid", "graphs": 80 if big else 20, "rounds": 20} for i in range(2 if big else 1)]
    jobs += [{"name": "stat%d" % i, "config": "rel", "mode": "stat", "graphs": 40 if big else 12, "walks": 60000 if big else 25000} for i in range(8 if big else 4)]
    return jobs


def load(ctx, r, g, out):
    """A local or remote graph over one or several partitions, with edges of one node in one place or spread."""
    parts = r.choice([1, 1, 2, 3])
    spread = parts > 1 and r.random() < 0.5
    salt = r.randrange(100)
    ctx.at({"op": "convert", "graph": g.summary()})
    gmodel.convert(g, out, parts, gmodel.even_assign(g, parts), (lambda s, k, p=parts: (s + k * 7 + salt) % p) if spread else None)
    if spread:
        ctx.count("spread")
    if r.random() < 0.45:
        layout = r.choice([[list(range(parts))], [[p] for p in range(parts)]])
        c = native.Cluster(out, layout)
        native.random_delay(120, r.randint(1, 2**40))
        ctx.count("remote")
        return c.client(), c, {"parts": parts, "spread": spread, "servers": layout}
    return native.memory_graph(out, list(range(parts))), None, {"parts": parts, "spread": spread, "servers": None}


def mass(g, types, ts, p, q, parent, node):
    """Unnormalized probabilities of the next node."""
    near = {e.dst for e in g.neighbors(parent, types, ts)} if parent is not None else set()
    res = {}
    for e in g.neighbors(node, types, ts):
        scale = 1 / q if parent is None else 1 / p if e.dst == parent else 1.0 if e.dst in near else 1 / q
        res[e.dst] = res.get(e.dst, 0.0) + e.weight * scale
    return res


def verify(ctx, g, got, starts, types, n, ts, dn, case):
    if got.shape != (len(starts), n + 1) or got.dtype != np.int64:
        ctx.fail("a walk has the wrong shape", "%s %s instead of %s" % (got.dtype, got.shape, (len(starts), n + 1)), case)
    moved = 0
    for i, row in enumerate(got.tolist()):
        if row[0] != starts[i]:
            ctx.fail("a walk starts elsewhere", "walk %d from %d: %s" % (i, starts[i], row), case)
        over = False
        for k, (a, b) in enumerate(zip(row, row[1:])):
            nbs = set() if over else {e.dst for e in g.neighbors(a, types, ts[i] if ts else None)}
            if nbs and b not in nbs:
                ctx.fail("a step of a walk is not an edge", "walk %s: step %d from %d to %d, neighbors %s" % (row, k, a, b, sorted(nbs)[:8]), case)
            if not nbs and b != dn:
                ctx.fail("a walk goes on although there is no way", "walk %s: step %d from %d to %d" % (row, k, a, b), case)
            if not nbs:
                over = True
            moved += bool(nbs)
        ctx.count("finished", int(over))
    ctx.count("steps", moved)
    return moved


def run_valid(job, ctx):
    r = ctx.rng(job["name"])
    for gi in range(job["graphs"]):
        g = gmodel.random_graph(
            r, nodes=r.choice([1, 3, 10, 40]), ntypes=r.choice([1, 3]), etypes=r.choice([1, 2, 5]), degree=r.choice([1, 2, 4, 9]), features=0, kinds=("dense",),
            weights=r.choice(["exact", "exact0", "equal"]), node_weights="exact", temporal=r.random() < 0.4, parallel=r.choice([0, 0.5]))
        out = os.path.join(ctx.scratch, "g%d" % gi)
        with ctx.trial():
            mg, servers, how = load(ctx, r, g, out)
            if g.temporal:
                ctx.count("temporal")
            for _ in range(job["rounds"]):
                with ctx.trial():
                    one(ctx, r, g, mg, how)
            mg.reset()
            del servers
        native.clear()
        shutil.rmtree(out)


def one(ctx, r, g, mg, how):
    ids = list(g.nodes)
    strange = [x for x in (max(ids) + 5, 2**62 + 3, -1, 2**63 - 1) if x not in g.nodes]
    starts = [r.choice(ids) if r.random() < 0.9 else r.choice(strange) for _ in range(r.choice([0, 1, 5, 30]))]
    known = g.edge_types() or [0]
    types = r.choice([known, r.sample(known, r.randint(1, len(known))), [r.choice(known)], [r.randrange(-1, 8) for _ in range(3)], [max(known) + 3]])
    n = r.choice([0, 1, 2, 5, 12, 40])
    p, q = r.choice([0.25, 1.0, 4.0, 1e-4, 1e4]), r.choice([0.25, 1.0, 4.0, 1e-4, 1e4])
    dn = r.choice([-1, -5, r.choice(ids), 10**12])
    ts = None
    if g.temporal and r.random() < 0.7:
        times = [t for e in g.edges for t in (e.created, e.created - 1, e.removed, e.removed - 1) if t is not None and t >= 0] or [0]
        ts = [r.choice(times) for _ in starts]
    seed = r.choice([0, 1, -1, 2**63 - 1, r.getrandbits(64), r.getrandbits(30)])
    case = {"graph": g.summary(), **how, "starts": starts[:30], "types": types, "length": n, "p": p, "q": q, "default": dn, "times": ts, "seed": seed}
    if dn in g.nodes:
        ctx.count("default node in graph")
    arg = types[0] if len(types) == 1 and r.random() < 0.5 else r.choice([list, np.array])(types)
    nodes = np.array(starts, dtype=np.int64)
    before = nodes.copy()
    given = {} if dn == -1 and r.random() < 0.6 else {"default_node": dn}
    got = ctx.call("random_walk", mg.random_walk, nodes, arg, n, p, q, seed=seed, timestamps=ts, case=case, **given)
    moved = verify(ctx, g, got, starts, types, n, ts, dn, case)
    if not np.array_equal(nodes, before):
        ctx.fail("a walk changes the given starting nodes", "%s" % nodes.tolist()[:5], case)
    again = ctx.call("random_walk", mg.random_walk, nodes, arg, n, p, q, dn, seed, timestamps=ts, case=case)
    if not np.array_equal(got, again):
        i = int(np.argmax((got != again).any(axis=1)))
        ctx.fail("the same seed gives different walks", "%s and %s" % (got[i].tolist(), again[i].tolist()), case)
    ctx.count("repeated")
    ctx.case((ctx.name, str(case)), moved > 0, {"walk": got[0].tolist() if len(got) else [], "p": p, "q": q, "types": list(types)})


def stat_graph(r):
    """Few nodes with loops, one-way edges, shared neighbors and several edges between two nodes."""
    temporal = r.random() < 0.3
    g = gmodel.Graph(60 if temporal else None)
    ids = r.sample(range(1, 50), r.choice([4, 5, 7, 9]))
    for i in ids:
        g.nodes[i] = gmodel.Node(i, 0, 1.0)
    for a in ids:
        targets = r.sample(ids, r.randint(1, min(4, len(ids))))
        for b in targets:
            for t in r.sample(range(3), r.choice([1, 1, 1, 2])):
                e = gmodel.Edge(a, b, t, r.choice([0.5, 1.0, 1.0, 2.0, 4.0]))
                if temporal:
                    e.created, e.removed = r.choice([0, 5, 10]), r.choice([-1, 25, 40])
                g.edges.append(e)
    return g


def unlikely(counts, want):
    """Deviation of counted from expected numbers, or None."""
    from scipy import stats

    total = sum(counts.values())
    live = {d: w for d, w in want.items() if w > 0}
    scale = total / sum(live.values())
    for d, w in live.items():
        w *= scale
        sd = max(1.0, w * (1 - w / total)) ** 0.5
        if abs(counts.get(d, 0) - w) > 7 * sd + 8:
            return "%d steps to %d, expected %.1f (%.1f standard deviations)" % (counts.get(d, 0), d, w, (counts.get(d, 0) - w) / sd)
    big = {d: w * scale for d, w in live.items() if w * scale > 10}
    if len(big) > 1:
        chi = sum((counts.get(d, 0) - w) ** 2 / w for d, w in big.items())
        p = stats.chi2.sf(chi, len(big) - 1)
        if p < 1e-11:
            return "chi square probability %g: %s, expected %s" % (p, counts, {d: round(w, 1) for d, w in big.items()})
    return None


def run_stat(job, ctx):
    r = ctx.rng(job["name"])
    for gi in range(job["graphs"]):
        g = stat_graph(r)
        out = os.path.join(ctx.scratch, "g%d" % gi)
        with ctx.trial():
            mg, servers, how = load(ctx, r, g, out)
            if servers is not None:
                native.random_delay(0, 1)
            p, q = r.choice([(1.0, 1.0), (0.05, 1.0), (20.0, 1.0), (1.0, 0.05), (1.0, 20.0), (0.25, 4.0), (4.0, 0.25), (3.0, 3.0)])
            types = r.choice([[0, 1, 2], [0, 1], [2, 0]])
            ts = r.choice([0, 7, 20, 30]) if g.temporal else None
            if g.temporal:
                ctx.count("temporal")
            n = r.choice([2, 4, 6])
            ids = list(g.nodes)
            starts = np.array([ids[i % len(ids)] for i in range(job["walks"])], dtype=np.int64)
            case = {"graph": [(e.src, e.dst, e.type, e.weight, e.created, e.removed) for e in g.edges], **how, "types": types, "length": n, "p": p, "q": q, "time": ts}
            walks = []
            calls = r.choice([1, 5])
            for part in np.array_split(starts, calls):
                walks.append(ctx.call("random_walk", mg.random_walk, part, types, n, p, q, -1, r.choice([r.getrandbits(63), None]), timestamps=None if ts is None else [ts] * len(part), case=case))
            walks = np.concatenate(walks)
            judge(ctx, r, g, walks, starts, types, ts, p, q, case)
            mg.reset()
            del servers
        native.clear()
        shutil.rmtree(out)


def judge(ctx, r, g, walks, starts, types, ts, p, q, case):
    if not np.array_equal(walks[:, 0], starts):
        ctx.fail("a walk starts elsewhere", "", case)
    firsts, seconds = {}, {}
    for k in range(walks.shape[1] - 1):
        cols = walks[:, k : k + 2] if k == 0 else walks[:, k - 1 : k + 2]
        rows, num = np.unique(cols, axis=0, return_counts=True)
        for row, c in zip(rows.tolist(), num.tolist()):
            if -1 in row[:-1]:
                continue
            if k == 0:
                firsts.setdefault(row[0], {})[row[1]] = c
            else:
                # The second step and all later ones are judged apart.
                d = seconds.setdefault((min(k, 2), row[0], row[1]), {})
                d[row[2]] = d.get(row[2], 0) + c
    for node, counts in firsts.items():
        want = mass(g, types, ts, p, q, None, node)
        settle(ctx, counts, want, "first", None, node, case)
    for (k, parent, node), counts in seconds.items():
        want = mass(g, types, ts, p, q, parent, node)
        near = {e.dst for e in g.neighbors(parent, types, ts)}
        for d, c in counts.items():
            ctx.count("returns" if d == parent else "inward" if d in near else "outward", c)
        settle(ctx, counts, want, "second" if k == 1 else "later", parent, node, case)
    # Two walks of one call from the same node go their ways independently.
    period = len(g.nodes)
    a, b = walks[: -period or None], walks[period:]
    for node in g.nodes:
        want = mass(g, types, ts, p, q, None, node)
        live = {d: w for d, w in want.items() if w > 0}
        if len(live) < 2:
            continue
        keep = a[:, 0] == node
        x, y = a[keep][::2, 1], b[keep][::2, 1]
        total = sum(live.values())
        pairs, num = np.unique(np.stack([x, y], axis=1), axis=0, return_counts=True)
        counts = {tuple(k): c for k, c in zip(pairs.tolist(), num.tolist())}
        exp = {(d, e): live[d] * live[e] / total**2 for d in live for e in live}
        from scipy import stats

        m = len(x)
        big = {k: w * m for k, w in exp.items() if w * m > 10}
        if len(big) < 3:
            continue
        chi = sum((counts.get(k, 0) - w) ** 2 / w for k, w in big.items())
        if stats.chi2.sf(chi, len(big) - 1) < 1e-11:
            ctx.fail("walks of one call depend on each other", "from node %d: %s, expected %s" % (node, counts, {k: round(v, 1) for k, v in big.items()}), case)
        ctx.count("pairs of walks")


def settle(ctx, counts, want, which, parent, node, case):
    total = sum(counts.values())
    if not want:
        if set(counts) != {-1}:
            ctx.fail("a walk goes on although there is no way", "from %d to %s" % (node, sorted(counts)[:5]), case)
        return
    bad = [d for d in counts if d not in want]
    if bad:
        ctx.fail("a step of a walk is not an edge", "from %d to %d, neighbors %s" % (node, bad[0], sorted(want)), case)
    if sum(want.values()) <= 0 or total < 200:
        return
    wrong = unlikely(counts, want)
    if wrong:
        ctx.fail("%s steps of walks do not follow weights and parameters" % which, "from %s%d: %s" % ("" if parent is None else "%d via " % parent, node, wrong), case)
    ctx.count("first steps" if parent is None else "contexts")
    ctx.case((ctx.name, str(case["graph"]), which, parent, node), len(want) > 1, {"previous": parent, "node": node, "steps": {str(k): v for k, v in counts.items()}})


def run(job, ctx):
    (run_valid if job["mode"] == "valid" else run_stat)(job, ctx)
