"""Metadata files agree with the converted partitions, alone and after merging."""
import json
import os

import numpy as np

import binfmt
import gmodel

LEVEL = "exploration"
RULE = "one case is one converted (and possibly merged) graph whose metadata is compared with the parsed files; nontrivial when the graph has at least two nodes; distinct by graph, worker and partition counts"
ASSUMPTIONS = ["graphs of at most 60 nodes, up to 13 workers and 26 partitions", "weight totals are compared with a relative tolerance of 1e-5"]
BUILDS = ["rel"]
NEED = {"merged": 10, "workers_over_10": 3, "single": 10, "partitions_compared": 300, "loaded": 30, "sampled": 200, "empty_partitions": 5, "missing_types": 10, "synthetic": 20, "reader": 20}


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "s%d" % i, "config": "rel", "kind": "single", "cases": 60 if big else 16} for i in range(3)]
    jobs += [{"name": "m%d" % i, "config": "rel", "kind": "merged", "cases": 40 if big else 12} for i in range(4)]
    jobs += [{"name": "y%d" % i, "config": "rel", "kind": "synthetic", "cases": 400 if big else 60} for i in range(1)]
    return jobs


def expectation(g, folder, parts):
    """Totals taken from the parsed files and, where the files do not hold them, from the model."""
    node_types = max([n.type for n in g.nodes.values()], default=-1) + 1
    edge_types = max([e.type for e in g.edges], default=-1) + 1
    res = {
        "node_count": len(g.nodes),
        "edge_count": len(g.edges),
        "node_type_count": node_types,
        "edge_type_count": edge_types,
        "node_feature_count": max([max(n.feats, default=-1) + 1 for n in g.nodes.values()], default=0),
        "edge_feature_count": max([max(e.feats, default=-1) + 1 for e in g.edges], default=0),
        "node_count_per_type": [0] * node_types,
        "edge_count_per_type": [0] * edge_types,
        "watermark": -1 if g.watermark is None else g.watermark,
    }
    weights = {}
    for p in parts:
        part = binfmt.Partition(folder, p)
        nw, ew = [0.0] * node_types, [0.0] * edge_types
        for id, tp, _ in part.nodes:
            if tp >= 0:
                nw[tp] += g.nodes[id].weight
                res["node_count_per_type"][tp] += 1
        for e in part.edges:
            ew[e[2]] += e[3]
            res["edge_count_per_type"][e[2]] += 1
        weights[p] = (nw, ew)
    return res, weights


def same_weights(a, b):
    return len(a) == len(b) and np.allclose(a, b, rtol=1e-5, atol=1e-6)


def check_meta(ctx, g, folder, parts, case):
    try:
        want, weights = expectation(g, folder, parts)
    except (binfmt.FormatError, OSError, KeyError, IndexError) as e:
        ctx.fail("partition files are inconsistent", repr(e), case)
    m = binfmt.meta(folder)
    for k, v in want.items():
        if m.get(k) != v:
            ctx.fail("wrong %s" % k, "%s, the files say %s" % (m.get(k), v), case)
    if m.get("binary_data_version") != "v2":
        ctx.fail("wrong version", str(m.get("binary_data_version")), case)
    if sorted(m["partitions"]) != sorted(str(p) for p in parts):
        ctx.fail("wrong set of partitions", "%s expected %s" % (sorted(m["partitions"]), parts), case)
    for p in parts:
        d = m["partitions"][str(p)]
        nw, ew = weights[p]
        if not same_weights(d["node_weight"], nw):
            ctx.fail("wrong node weights of a partition", "partition %d: %s expected %s" % (p, d["node_weight"], nw), case)
        if not same_weights(d["edge_weight"], ew):
            ctx.fail("wrong edge weights of a partition", "partition %d: %s expected %s" % (p, d["edge_weight"], ew), case)
        ctx.count("partitions_compared")
        if not sum(nw) and not sum(ew):
            ctx.count("empty_partitions")
        if any(w == 0 for w in nw + ew):
            ctx.count("missing_types")
    # The reader of the metadata in the library.
    from deepgnn.graph_engine.snark.meta import Meta

    ctx.count("reader")
    r = ctx.call("read metadata", Meta, folder, case=case)
    for k in ("node_count", "edge_count", "node_type_count", "edge_type_count", "node_count_per_type", "edge_count_per_type", "watermark"):
        if getattr(r, k) != want[k]:
            ctx.fail("the reader gives a wrong %s" % k, "%s expected %s" % (getattr(r, k), want[k]), case)
    if r.partition_count != len(parts):
        ctx.fail("the reader gives a wrong partition count", "%s" % r.partition_count, case)
    total = [np.sum([w[i] for w in weights.values()], axis=0) for i in (0, 1)]
    if not same_weights(r._node_weights, total[0]) or not same_weights(r._edge_weights, total[1]):
        ctx.fail("the reader gives wrong total weights", "%s %s expected %s" % (r._node_weights, r._edge_weights, total), case)
    return want, weights


def empty_type(ctx, sampler, mg, tp, count, case):
    ctx.at({"op": "sampler of an empty type", "case": case})
    try:
        sampler(mg, [tp])
    except AssertionError:
        # It says so when the graph has no such elements at all.
        if count:
            ctx.fail("no sampler for a type with elements", "type %d" % tp, case)


def load(ctx, r, g, folder, parts, want, weights, case):
    """The engine can load and sample what the metadata describes."""
    from deepgnn.graph_engine.snark import client, local

    for pick in [list(parts)] + ([[r.choice(parts)]] if len(parts) > 1 else []):
        ctx.at({"op": "load", "partitions": pick, "case": case})
        mg = ctx.call("load", client.MemoryGraph, folder, pick, case=case)
        for f, per, name in ((mg.get_node_type_count, want["node_count_per_type"], "node"), (mg.get_edge_type_count, want["edge_count_per_type"], "edge")):
            types = [t for t in range(len(per)) if r.random() < 0.7]
            if types and f(types) != sum(per[t] for t in types):
                ctx.fail("the engine reports a wrong %s count" % name, "types %s: %s expected %s" % (types, f(types), sum(per[t] for t in types)), case)
        ctx.count("loaded")
        for tp in range(want["node_type_count"]):
            ids = {id for id, n in g.nodes.items() if n.type == tp}
            here = {id for p in pick for id, t, _ in binfmt.Partition(folder, p).nodes if t == tp}
            w = sum(weights[p][0][tp] for p in pick)
            if not w > 0:
                # Tables of types without weight in these partitions must still load.
                empty_type(ctx, client.NodeSampler, mg, tp, want["node_count_per_type"][tp], case)
                continue
            for kind in ("weighted", "uniform"):
                s = ctx.call("node sampler", client.NodeSampler, mg, [tp], kind, case=case)
                ctx.at({"op": "sample nodes", "type": tp, "partitions": pick, "case": case})
                got = set(int(x) for x in s.sample(20, seed=r.randint(0, 1 << 30))[0])
                if not got <= here or not got <= ids:
                    ctx.fail("sampled a node that is not in the loaded partitions", "%s of type %d" % (sorted(got - here)[:5], tp), case)
                ctx.count("sampled")
        for tp in range(want["edge_type_count"]):
            here = {(e[0], e[1]) for p in pick for e in binfmt.Partition(folder, p).edges if e[2] == tp}
            w = sum(weights[p][1][tp] for p in pick)
            if not w > 0:
                empty_type(ctx, client.EdgeSampler, mg, tp, want["edge_count_per_type"][tp], case)
                continue
            s = ctx.call("edge sampler", client.EdgeSampler, mg, [tp], case=case)
            ctx.at({"op": "sample edges", "type": tp, "partitions": pick, "case": case})
            a, b, _ = s.sample(20, seed=r.randint(0, 1 << 30))
            got = set(zip([int(x) for x in a], [int(x) for x in b]))
            if not got <= here:
                ctx.fail("sampled an edge that is not in the loaded partitions", "%s of type %d" % (sorted(got - here)[:5], tp), case)
            ctx.count("sampled")
    c = ctx.call("local client", local.Client, folder, list(parts), case=case)
    for tp in range(want["node_type_count"]):
        if c.node_count(tp) != want["node_count_per_type"][tp]:
            ctx.fail("the client reports a wrong node count", "type %d: %s" % (tp, c.node_count(tp)), case)
    for tp in range(want["edge_type_count"]):
        if c.edge_count(tp) != want["edge_count_per_type"][tp]:
            ctx.fail("the client reports a wrong edge count", "type %d: %s" % (tp, c.edge_count(tp)), case)


def graph(r, temporal=None):
    return gmodel.random_graph(
        r,
        nodes=r.choice([1, 2, 6, 20, 40]),
        ntypes=r.randint(1, 5),
        etypes=r.randint(1, 5),
        degree=r.choice([1, 3, 6]),
        kinds=("dense", "string"),
        weights=r.choice(["exact", "skewed"]),
        node_weights=r.choice(["exact", "skewed"]),
        temporal=r.random() < 0.3 if temporal is None else temporal,
        features=r.choice([0, 0.4]),
    )


def single(ctx, r, k):
    from deepgnn.graph_engine.snark.convert import MultiWorkersConverter
    from deepgnn.graph_engine.snark.decoders import JsonDecoder
    from deepgnn.graph_engine.snark.dispatcher import QueueDispatcher
    import contextlib
    import io

    g = graph(r)
    parts = r.choice([1, 2, 4, 7])
    how = r.choice(["pipe", "queue", "debug"])
    if how == "debug":
        parts = 1
    lines = gmodel.json_lines(g)
    out = os.path.join(ctx.scratch, "o%d" % k)
    os.makedirs(out)
    src = gmodel.write_lines(os.path.join(ctx.scratch, "in%d" % k), lines) or os.path.join(ctx.scratch, "in%d" % k)
    case = {"how": how, "partitions": parts, **g.summary()}
    ctx.at({"op": "convert", "case": case})
    kw = dict(graph_path=src, output_dir=out, decoder=JsonDecoder(), partition_count=parts, watermark=g.watermark)
    if how == "queue":
        # Some partitions may stay unused.
        used = sorted(r.sample(range(parts), r.randint(1, parts)))
        number = {line: r.choice(used) for line in lines}
        case["used"] = sorted(set(number.values()))
        kw["dispatcher"] = QueueDispatcher(out, parts, lambda line: number[line], JsonDecoder(), use_threads=True, watermark=g.watermark)
    with contextlib.redirect_stdout(io.StringIO()):
        ctx.call("convert", lambda: MultiWorkersConverter(debug=how == "debug", **kw).convert(), case=case)
    ctx.count("single")
    want, weights = check_meta(ctx, g, out, list(range(parts)), case)
    load(ctx, r, g, out, list(range(parts)), want, weights, case)
    ctx.case((ctx.name, k), len(g.nodes) > 1, case)


def merged(ctx, r, k):
    from deepgnn.graph_engine.snark.convert import MultiWorkersConverter
    from deepgnn.graph_engine.snark.decoders import JsonDecoder
    from deepgnn.graph_engine.snark.meta_merger import merge_metadata_files

    g = graph(r)
    workers = r.choice([2, 3, 5, 11, 13])
    parts = r.choice([workers, workers + 1, 2 * workers, 2 * workers - 1])
    lines = list(gmodel.json_lines(g))
    if r.random() < 0.5:
        # Workers then see different types.
        lines.sort(key=lambda line: (json.loads(line)["node_type"], line))
    out = os.path.join(ctx.scratch, "o%d" % k)
    src = os.path.join(ctx.scratch, "in%d" % k)
    os.makedirs(out)
    os.makedirs(src)
    cuts = sorted(r.randint(0, len(lines)) for _ in range(workers - 1))
    if r.random() < 0.6:
        cuts = [len(lines) * (w + 1) // workers for w in range(workers - 1)]
    cuts = [0] + cuts + [len(lines)]
    for w in range(workers):
        gmodel.write_lines(os.path.join(src, "f%02d" % w), lines[cuts[w] : cuts[w + 1]])
    case = {"workers": workers, "partitions": parts, **g.summary()}
    for w in range(workers):
        ctx.at({"op": "convert", "worker": w, "case": case})
        ctx.call(
            "convert by worker",
            lambda: MultiWorkersConverter(graph_path=src, output_dir=out, decoder=JsonDecoder(), partition_count=parts, worker_index=w, worker_count=workers, watermark=g.watermark).convert(),
            case=case,
        )
        if not os.path.exists(os.path.join(out, "meta_%d.json" % w)):
            ctx.fail("a worker leaves no metadata", "worker %d" % w, case)
    ctx.at({"op": "merge", "case": case})
    ctx.call("merge metadata", merge_metadata_files, out, case=case)
    ctx.count("merged")
    if workers > 10:
        ctx.count("workers_over_10")
    want, weights = check_meta(ctx, g, out, list(range(parts)), case)
    load(ctx, r, g, out, list(range(parts)), want, weights, case)
    ctx.case((ctx.name, k), len(g.nodes) > 1, case)


def synthetic(ctx, r, k):
    """Metadata of workers written directly; partitions carry numbers of their own or all start from 0."""
    from deepgnn.graph_engine.snark.meta_merger import merge_metadata_files

    out = os.path.join(ctx.scratch, "y%d" % k)
    os.makedirs(out)
    workers = r.choice([1, 2, 5, 10, 11, 12, 23])
    own = r.random() < 0.5
    each = [r.randint(1, 3) for _ in range(workers)]
    nt, et = r.randint(1, 4), r.randint(0, 4)
    want_parts, nsum, esum, offset = {}, [0] * nt, [0] * et, 0
    nf = [r.randint(0, 5) for _ in range(workers)]
    for w in range(workers):
        parts = {}
        n, e = [r.randint(0, 9) for _ in range(nt)], [r.randint(0, 9) for _ in range(et)]
        for i in range(each[w]):
            d = {"node_weight": [r.randint(0, 100) / 4 for _ in range(nt)], "edge_weight": [r.randint(0, 100) / 4 for _ in range(et)]}
            parts[str(offset + i) if own else str(i)] = d
            want_parts[str(offset + i)] = d
        offset += each[w]
        nsum, esum = [a + b for a, b in zip(nsum, n)], [a + b for a, b in zip(esum, e)]
        m = {"binary_data_version": "v2", "node_count": sum(n), "edge_count": sum(e), "node_type_count": nt, "edge_type_count": et, "node_feature_count": nf[w], "edge_feature_count": nf[w] // 2, "partitions": parts, "node_count_per_type": n, "edge_count_per_type": e, "watermark": 17}
        with open(os.path.join(out, "meta_%d.json" % w), "w") as f:
            json.dump(m, f)
    case = {"workers": workers, "own_numbers": own, "each": each}
    ctx.at({"op": "merge", "case": case})
    if k % 3 == 0:
        import subprocess
        import sys

        p = subprocess.run([sys.executable, "-m", "deepgnn.graph_engine.snark.meta_merger", "-d", out], capture_output=True, text=True) if k % 12 == 0 else None
        if p is not None and p.returncode:
            ctx.fail("the merger fails from the command line", p.stderr[-800:], case)
        if p is None:
            ctx.call("merge metadata", merge_metadata_files, out, case=case)
    else:
        ctx.call("merge metadata", merge_metadata_files, out, case=case)
    m = binfmt.meta(out)
    want = {
        "binary_data_version": "v2",
        "node_count": sum(nsum),
        "edge_count": sum(esum),
        "node_type_count": nt,
        "edge_type_count": et,
        "node_feature_count": max(nf),
        "edge_feature_count": max(x // 2 for x in nf),
        "node_count_per_type": nsum,
        "edge_count_per_type": esum,
        "watermark": 17,
    }
    for key, v in want.items():
        if m.get(key) != v:
            ctx.fail("wrong %s after merging" % key, "%s expected %s" % (m.get(key), v), case)
    if m["partitions"] != want_parts:
        bad = [p for p in want_parts if m["partitions"].get(p) != want_parts[p]]
        ctx.fail("partition weights mixed up by merging", "partitions %s" % bad[:8], case)
    ctx.count("synthetic")
    ctx.case((ctx.name, k), workers > 1, case)


def run(job, ctx):
    r = ctx.rng(job["name"])
    f = {"single": single, "merged": merged, "synthetic": synthetic}[job["kind"]]
    for k in range(job["cases"]):
        with ctx.trial():
            f(ctx, r, k)
