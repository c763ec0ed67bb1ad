"""Alias tables: the probability of every element is its share of the weight."""
import os
import subprocess
import sys
from collections import Counter

import numpy as np

import binfmt
import gmodel

LEVEL = "exploration"
RULE = "one case is one alias table decoded into exact element probabilities; nontrivial when it has at least two elements with different weights; distinct by job, graph, partition, kind and type"
ASSUMPTIONS = ["weights are finite, not negative and stored as 32 bit floats", "tolerance of 1e-4 of the probability plus 1e-5 of the mean probability", "tables of at most 3000 elements in quick and 200000 in thorough runs"]
NEED = {"tables_node": 100, "tables_edge": 100, "direct": 50, "zero_weights": 30, "skipped": 2, "sampled": 1}


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "g%d" % i, "cases": 120 if big else 25, "kind": "graph"} for i in range(4)]
    jobs += [{"name": "d%d" % i, "cases": 400 if big else 80, "kind": "direct", "most": 200000 if big else 3000} for i in range(3)]
    jobs += [{"name": "skip", "cases": 6, "kind": "skip"}, {"name": "sample", "cases": 12 if big else 4, "kind": "sample"}]
    return jobs


def share(table):
    """{element: probability} of drawing an index uniformly and then the element or its alias."""
    p = Counter()
    for left, right, q in table:
        q = min(1.0, q)
        p[left] += q / len(table)
        if q < 1:
            p[right] += (1 - q) / len(table)
    return p


def judge(ctx, table, weights, what, case, stored=np.float32):
    """weights: [(element, weight)], an element may be repeated."""
    want_list, got_list = Counter(e for e, _ in weights), Counter(t[0] for t in table)
    if want_list != got_list:
        ctx.fail("%s table lists other elements" % what, "missing %s, extra %s" % (list(want_list - got_list)[:5], list(got_list - want_list)[:5]), case)
    for _, _, q in table:
        if not q >= 0 or not q <= 1 + 1e-6:
            ctx.fail("%s table has a threshold that is not a probability" % what, str(q), case)
    total = float(sum(np.float64(stored(w)) for _, w in weights))
    if not total > 0:
        return
    want = Counter()
    for e, w in weights:
        want[e] += float(stored(w)) / total
    got = share(table)
    for e in got:
        if e not in want:
            ctx.fail("%s table can give an unknown element" % what, "%s with probability %g" % (e, got[e]), case)
    n = len(weights)
    for e, w in want.items():
        g = got[e]
        if w == 0 and g != 0:
            ctx.fail("%s table can give an element without weight" % what, "%s with probability %g of mean %g" % (e, g, 1 / n), case)
        if w == 0:
            ctx.count("zero_weights")
        if abs(g - w) > 1e-4 * w + 1e-5 / n:
            ctx.fail("%s table gives a wrong probability" % what, "%s: %.9g, weight says %.9g (%d elements)" % (e, g, w, n), case)


def rand_weights(r, n):
    style = r.choice(["equal", "uniform", "skewed", "zeros", "one", "powers", "tiny", "huge", "thirds"])
    if style == "equal":
        w = [r.choice([1.0, 0.1, 3.0])] * n
    elif style == "uniform":
        w = [r.random() for _ in range(n)]
    elif style == "skewed":
        w = [r.random() ** 20 * 1000 for _ in range(n)]
    elif style == "zeros":
        w = [0.0 if r.random() < 0.5 else r.random() for _ in range(n)]
    elif style == "one":
        w = [0.0] * n
        w[r.randrange(n)] = 0.7
    elif style == "powers":
        w = [2.0 ** r.randint(-10, 10) for _ in range(n)]
    elif style == "tiny":
        w = [r.random() * 1e-30 for _ in range(n)]
    elif style == "huge":
        w = [r.random() * 1e30 for _ in range(n)]
    else:
        w = [r.choice([1 / 3, 2 / 3, 0.1]) for _ in range(n)]
    return style, w


def direct(ctx, r, k, most):
    from deepgnn.graph_engine.snark.alias import Vose

    n = r.choice([1, 2, 3, 5, 17, 100, 1000, most])
    if ctx.tier == "thorough" and k % 20:
        n = min(n, 3000)
    style, w = rand_weights(r, n)
    ids = np.array([i * 3 + 1 for i in range(n)], dtype=np.int64)
    arr = np.array(w, dtype=r.choice([np.float32, np.float32, np.float64]))
    if style in ("tiny", "huge"):
        arr = arr.astype(np.float64)
    keep = arr.copy()
    case = {"elements": n, "weights": style, "dtype": str(arr.dtype)}
    ctx.at({"op": "alias table", "case": case})
    v = ctx.call("alias table", Vose, ids, arr, case=case)
    if len(v.elements) != n or len(v.prob) != n:
        ctx.fail("alias table has another size", "%d for %d" % (len(v.prob), n), case)
    table = []
    for i in range(n):
        q = float(v.prob[i])
        a = int(v.alias[i]) if q < 1 else i
        if not 0 <= a < n:
            ctx.fail("alias outside of the table", "%d of %d" % (a, n), case)
        table.append((int(v.elements[i]), int(v.elements[a]), q))
    if not np.array_equal(keep, arr):
        ctx.count("changed_input")
    scale = 1e30 if style == "tiny" else 1e-30 if style == "huge" else 1
    judge(ctx, table, [(int(i), float(x) * scale) for i, x in zip(ids, keep)], "direct", case, np.float64)
    ctx.count("direct")
    ctx.case((ctx.name, k), len(set(w)) > 1, case)


def graph(ctx, r, k):
    g = gmodel.random_graph(
        r,
        nodes=r.choice([1, 5, 30, 80]),
        ntypes=r.randint(1, 3),
        etypes=r.randint(1, 4),
        degree=r.choice([2, 6]),
        kinds=(),
        weights=r.choice(["exact", "exact0", "skewed"]),
        node_weights=r.choice(["exact", "skewed"]),
        parallel=r.choice([0, 0.4]),
        features=0,
    )
    if r.random() < 0.4:
        _, w = rand_weights(r, len(g.nodes))
        for n, x in zip(g.nodes.values(), w):
            n.weight = x
    parts = r.choice([1, 1, 2, 5])
    out = os.path.join(ctx.scratch, "o%d" % k)
    case = {"partitions": parts, **g.summary()}
    ctx.at({"op": "convert", "case": case})
    os.makedirs(out, exist_ok=True)
    ctx.call("convert", gmodel.convert, g, out, parts, gmodel.even_assign(g, parts) if r.random() < 0.5 else None, case=case)
    nt = max([n.type for n in g.nodes.values()], default=-1) + 1
    et = max([e.type for e in g.edges], default=-1) + 1
    for p in range(parts):
        part = binfmt.Partition(out, p)
        for tp in range(nt):
            have = [(id, g.nodes[id].weight) for id, t, _ in part.nodes if t == tp]
            table = part.alias("node", tp)
            if table is None:
                ctx.fail("node table missing", "partition %d type %d" % (p, tp), case)
            judge(ctx, table, have, "node", case)
            ctx.count("tables_node")
            ctx.case((ctx.name, k, p, "node", tp), len({w for _, w in have}) > 1, {"partition": p, "type": tp, "size": len(have), **case})
        for tp in range(et):
            have = [((e[0], e[1]), e[3]) for e in part.edges if e[2] == tp]
            table = part.alias("edge", tp)
            if table is None:
                ctx.fail("edge table missing", "partition %d type %d" % (p, tp), case)
            judge(ctx, table, have, "edge", case)
            ctx.count("tables_edge")
            ctx.case((ctx.name, k, p, "edge", tp), len({w for _, w in have}) > 1, {"partition": p, "type": tp, "size": len(have), **case})


def skip(ctx, r, k):
    """Tables are left out exactly when asked."""
    from deepgnn.graph_engine.snark.convert import MultiWorkersConverter
    from deepgnn.graph_engine.snark.decoders import JsonDecoder
    from deepgnn.graph_engine.snark.dispatcher import PipeDispatcher, QueueDispatcher

    g = gmodel.random_graph(r, nodes=10, ntypes=2, etypes=3, degree=3, kinds=(), weights="exact", features=0)
    src = os.path.join(ctx.scratch, "in%d" % k)
    out = os.path.join(ctx.scratch, "o%d" % k)
    os.makedirs(out)
    gmodel.write_lines(src, gmodel.json_lines(g))
    node, edge = [(True, False), (False, True), (True, True)][k % 3]
    case = {"skip_node_sampler": node, "skip_edge_sampler": edge}
    flags = dict(skip_node_sampler=node, skip_edge_sampler=edge)
    if k == 3:
        args = ["-d", src, "-o", out, "-p", "2"] + (["--skip_node_sampler", "True"] if node else []) + (["--skip_edge_sampler", "True"] if edge else [])
        p = subprocess.run([sys.executable, "-m", "deepgnn.graph_engine.snark.convert"] + args, cwd=ctx.scratch, capture_output=True, text=True)
        if p.returncode:
            ctx.fail("the command line converter fails", p.stderr[-800:], case)
    elif k == 4:
        ctx.call("convert", lambda: MultiWorkersConverter(src, out, JsonDecoder(), 2, dispatcher=QueueDispatcher(out, 2, lambda line: len(line) % 2, JsonDecoder(), use_threads=True, **flags)).convert(), case=case)
    elif k == 5:
        ctx.call("convert", lambda: MultiWorkersConverter(src, out, JsonDecoder(), 2, dispatcher=PipeDispatcher(out, 2, JsonDecoder(), use_threads=True, **flags)).convert(), case=case)
    else:
        ctx.call("convert", lambda: MultiWorkersConverter(src, out, JsonDecoder(), 2, **flags).convert(), case=case)
    names = [f for f in os.listdir(out) if f.endswith(".alias")]
    for kind, left_out, types in (("node", node, 1 + max(n.type for n in g.nodes.values())), ("edge", edge, 1 + max(e.type for e in g.edges))):
        n = sum(f.startswith(kind + "_") for f in names)
        if n != (0 if left_out else 2 * types):
            ctx.fail("wrong %s tables for the skip flags" % kind, "%s" % sorted(names), case)
    ctx.count("skipped")
    ctx.case((ctx.name, k), True, case)


def sample(ctx, r, k):
    """Draws of the table in the library follow the weights."""
    import random

    from scipy import stats

    from deepgnn.graph_engine.snark.alias import Vose

    n = r.choice([2, 5, 9])
    w = [r.choice([0.0, 1.0, 2.0, 5.0]) for _ in range(n)]
    w[0] = 1.0
    v = Vose([100 + i for i in range(n)], np.array(w, dtype=np.float32))
    random.seed(r.randint(0, 1 << 30))
    draws = 20000
    got = Counter(int(v.sample()) for _ in range(draws))
    case = {"weights": w, "draws": draws}
    total = sum(w)
    obs, exp = [], []
    for i, x in enumerate(w):
        if x == 0 and got[100 + i]:
            ctx.fail("an element without weight is drawn", "%d times" % got[100 + i], case)
        if x:
            obs.append(got[100 + i])
            exp.append(draws * x / total)
    if len(obs) > 1 and stats.chisquare(obs, exp).pvalue < 1e-9:
        ctx.fail("draws do not follow the weights", "%s expected %s" % (obs, exp), case)
    ctx.count("sampled")
    ctx.case((ctx.name, k), True, case)


def run(job, ctx):
    r = ctx.rng(job["name"])
    for k in range(job["cases"]):
        with ctx.trial():
            if job["kind"] == "direct":
                direct(ctx, r, k, job["most"])
            else:
                {"graph": graph, "skip": skip, "sample": sample}[job["kind"]](ctx, r, k)
