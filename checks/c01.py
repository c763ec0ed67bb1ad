"""Conversion: the files of all partitions together hold exactly the input graph."""
import json
import os
import subprocess
import sys
from collections import Counter

import numpy as np

import binfmt
import gmodel

LEVEL = "exploration"
RULE = "one case is one conversion of a generated graph; it is nontrivial when the graph has an edge or a feature, and distinct by graph, input form, dispatcher and reader settings"
ASSUMPTIONS = [
    "graphs of at most 60 nodes; values that the text form can express exactly",
    "the order of nodes and edges inside a partition is free apart from the documented order of types",
    "the layout of the converted files is the published version 2 of the format",
]
NEED = {"nodes_compared": 1000, "edges_compared": 3000, "features_compared": 1500, "form_json": 10, "form_edgelist": 10, "form_tsv": 10, "by_process": 2, "by_cli": 1, "multi_worker": 5, "debug": 2}


def plan(tier, seed):
    n = 6 if tier == "quick" else 16
    k = 80 if tier == "quick" else 300
    jobs = [{"name": "g%d" % i, "cases": k} for i in range(n)]
    jobs += [{"name": "proc%d" % i, "cases": 4 if tier == "quick" else 10, "kind": "process"} for i in range(2)]
    jobs += [{"name": "cli", "cases": 3 if tier == "quick" else 8, "kind": "cli"}]
    jobs += [{"name": "worker%d" % i, "cases": 40 if tier == "quick" else 150, "kind": "worker"} for i in range(1)]
    jobs += [{"name": "hand", "kind": "hand"}]
    return jobs


# --- input forms -------------------------------------------------------------------------------------------------


def no_mark(g, kinds):
    for el in list(g.nodes.values()) + g.edges:
        for k in [k for k, f in el.feats.items() if f.kind not in kinds]:
            del el.feats[k]


def clean_text(g, banned):
    for el in list(g.nodes.values()) + g.edges:
        for f in el.feats.values():
            if f.kind == "string":
                for c in banned:
                    f.text = f.text.replace(c, "_")
                f.text = f.text or "s"


def gen(r, form, temporal=False, size=None):
    kinds = {"json": ("dense", "sparse", "string"), "edgelist": ("dense", "sparse", "string"), "tsv": ("dense", "string")}[form]
    g = gmodel.random_graph(
        r,
        nodes=size or r.choice([1, 2, 5, 12, 30, 60]),
        ntypes=r.randint(1, 4),
        etypes=r.randint(1, 5),
        degree=r.choice([2, 5, 10]),
        kinds=kinds,
        weights=r.choice(["exact", "exact0", "skewed"]),
        node_weights=r.choice(["exact", "skewed"]),
        temporal=temporal,
        features=r.choice([0, 0.5, 0.9]),
        parallel=r.choice([0, 0.6]),
        big_time=temporal and r.random() < 0.3,
    )
    if form == "tsv":
        clean_text(g, ";:|,\t\"")
    if temporal and form == "edgelist":
        # Versions of a feature can't be written in this form.
        for el in list(g.nodes.values()) + g.edges:
            el.feats = {}
    g._out = None
    return g


def json_text(g, r):
    style = r.choice([True, False])
    inherit = g.temporal and r.random() < 0.4
    lines = []
    for n in g.nodes.values():
        d = json.loads(gmodel.json_line(g, n))
        r.shuffle(d["edge"])
        if inherit:
            # Edges without times of their own take those of the node.
            life = (r.randint(0, 5), r.choice([-1, 60]))
            d["created_at"], d["removed_at"] = life
            for e, m in zip(d["edge"], [None] * len(d["edge"])):
                if e["created_at"] < life[0]:
                    e["created_at"] = life[0]
                    e["removed_at"] = max(e["removed_at"], life[0] + 1) if e["removed_at"] != -1 else -1
                if life[1] != -1 and (e["removed_at"] == -1 or e["removed_at"] > life[1]):
                    e["removed_at"] = life[1]
                if e["created_at"] >= 60:
                    e["created_at"] = life[0]
            # Rebuild the model from what is written.
            out = []
            for e in d["edge"]:
                c, rm = e["created_at"], e["removed_at"]
                if r.random() < 0.3:
                    del e["created_at"]
                    c = life[0]
                if r.random() < 0.3:
                    del e["removed_at"]
                    rm = life[1]
                out.append((e["dst_id"], e["edge_type"], e["weight"], c, rm))
            d["_rebuilt"] = out
        keys = list(d)
        r.shuffle(keys)
        d = {k: d[k] for k in keys}
        lines.append(d)
    if inherit:
        feats = {}
        for e in g.edges:
            feats.setdefault((e.src, e.dst, e.type, e.weight), []).append(e.feats)
        g.edges = []
        for d in lines:
            for dst, tp, w, c, rm in d.pop("_rebuilt"):
                g.edges.append(gmodel.Edge(d["node_id"], dst, tp, w, feats[(d["node_id"], dst, tp, w)].pop(), c, rm))
        g._out = None
    return [json.dumps(d, ensure_ascii=style) for d in lines]


def edge_list_text(g, r):
    """Lines and a decoder; some of the columns may be given as defaults of the decoder."""
    from deepgnn.graph_engine.snark.decoders import EdgeListDecoder

    kw, drop_node, drop_edge = {}, set(), set()
    if r.random() < 0.3:
        kw["default_node_type"] = 1
        for n in g.nodes.values():
            n.type = 1
        drop_node.add(2)
    if r.random() < 0.3:
        kw["default_node_weight"] = 0.5
        for n in g.nodes.values():
            n.weight = 0.5
        drop_node.add(3)
    if r.random() < 0.3:
        kw["default_edge_type"] = 2
        for e in g.edges:
            e.type = 2
        drop_edge.add(1)
    if r.random() < 0.3:
        kw["default_edge_weight"] = 1.5
        for e in g.edges:
            e.weight = 1.5
        drop_edge.add(3)
    if g.temporal:
        kw["is_temporal"] = True
        if r.random() < 0.3:
            kw["default_created_at"] = 3
            for e in g.edges:
                e.created = 3
                e.removed = -1 if e.removed == -1 else max(4, e.removed)
            drop_node.add(4)
            drop_edge.add(4)
    if kw.get("default_edge_type") is not None:
        # Two edges between the same nodes are now parallel; keep their features apart from the comparison.
        count = Counter(e.key() for e in g.edges)
        for e in g.edges:
            if count[e.key()] > 1:
                e.feats = {}
    delim, ldelim, esc = r.choice([(",", "/", "\\"), (",", "/", "\\"), (";", ":", "\\"), ("\t", "/", "^")])
    clean_text(g, "\\^")
    if delim == "\t":
        clean_text(g, "\t")
    if delim != ",":
        kw.update(delimiter=delim, length_delimiter=ldelim, binary_escape=esc)
    uniform = None
    if r.random() < 0.25:
        # Every node has the same dense features, whose types and lengths are then left out of the file.
        uniform = [(r.choice(gmodel.NUMERIC), r.randint(1, 4)) for _ in range(r.randint(1, 3))]
        kw["default_node_feature_types"] = [t for t, _ in uniform]
        kw["default_node_feature_lens"] = [[n] for _, n in uniform]
        for n in g.nodes.values():
            n.feats = {i: gmodel.Feat("dense", t, gmodel.rand_values(r, t, k)) for i, (t, k) in enumerate(uniform)}
    g._out = None
    lines = []
    node_removed = -1
    for n in g.nodes.values():
        head = [str(n.id), "-1", str(n.type), repr(n.weight)]
        if g.temporal:
            head += ["3" if 4 in drop_node else "0", str(node_removed)]
        head = [c for i, c in enumerate(head) if i not in drop_node]
        for f in gmodel.dense_items(n.feats):
            head += [repr(v) for v in f.values] if uniform else field(f, delim, ldelim, esc)
        lines.append(delim.join(head))
        for e in sorted(g.out(n.id), key=lambda e: (e.type, e.created, e.dst) if g.temporal else (e.type,)):
            row = [str(e.src), str(e.type), str(e.dst), repr(e.weight)]
            if g.temporal:
                row += [str(e.created), str(e.removed)]
            row = [c for i, c in enumerate(row) if i not in drop_edge]
            for f in gmodel.dense_items(e.feats):
                row += field(f, delim, ldelim, esc)
            lines.append(delim.join(row) + (delim if r.random() < 0.05 else ""))
    return lines, EdgeListDecoder(**kw), kw


def field(f, delim, ldelim, esc):
    if f is None:
        return ["int32", "0"]
    if f.kind == "string":
        return ["binary", "1", f.text.replace(delim, esc + delim)]
    if f.kind == "sparse":
        flat = not isinstance(f.coords[0], (list, tuple))
        dim = 0 if flat else len(f.coords[0])
        coords = f.coords if flat else [c for row in f.coords for c in row]
        return [f.dtype, "%d%s%d" % (len(f.values), ldelim, dim)] + [str(c) for c in coords] + [repr(v) for v in f.values]
    return [f.dtype, str(len(f.values))] + [repr(v) for v in f.values]


def describe(g, form, r):
    """(lines, decoder, description); may normalise the model to what the form can say."""
    from deepgnn.graph_engine.snark import decoders

    if form == "json":
        return json_text(g, r), r.choice([decoders.JsonDecoder(), decoders.JsonDecoder]), {}
    if form == "tsv":
        return list(gmodel.tsv_lines(g)), r.choice([decoders.TsvDecoder(), decoders.TsvDecoder]), {}
    return edge_list_text(g, r)


# --- comparison --------------------------------------------------------------------------------------------------


def compare(ctx, g, folder, parts, case, placed=None):
    """parts: the partitions expected to exist; placed: {node id: partition} when the placement is known."""
    have = binfmt.partitions(folder)
    if not set(parts) <= set(have):
        ctx.fail("partition missing", "files of partitions %s, expected %s" % (have, parts), case)
    nodes, edges = {}, []
    for p in parts:
        try:
            part = binfmt.Partition(folder, p)
        except (binfmt.FormatError, OSError) as e:
            ctx.fail("partition files are inconsistent", "partition %d: %s" % (p, e), case)
        if (part.watermark is not None) != g.temporal:
            ctx.fail("time information of the wrong kind", "partition %d, watermark %s, graph %s" % (p, part.watermark, g.watermark), case)
        if g.temporal and part.watermark != g.watermark:
            ctx.fail("wrong watermark", "partition %d: %s expected %s" % (p, part.watermark, g.watermark), case)
        for id, tp, feats in part.nodes:
            if tp == -1:
                if any(feats):
                    ctx.fail("a placeholder node has features", "node %d" % id, case)
                continue
            if id in nodes:
                ctx.fail("a node is written twice", "node %d in partition %d" % (id, p), case)
            nodes[id] = (tp, feats, p)
        edges += part.edges
    if set(nodes) != set(g.nodes):
        ctx.fail("nodes lost or invented", "missing %s, extra %s" % (sorted(set(g.nodes) - set(nodes))[:5], sorted(set(nodes) - set(g.nodes))[:5]), case)
    for id, (tp, feats, p) in nodes.items():
        n = g.nodes[id]
        if tp != n.type:
            ctx.fail("wrong node type", "node %d: %d expected %d" % (id, tp, n.type), case)
        d = binfmt.features_equal(feats, n.feats)
        if d:
            ctx.fail("wrong node feature", "node %d %s" % (id, d), case)
        if placed is not None and placed(id) != p:
            ctx.fail("a node is in another partition than asked", "node %d in %d, asked for %d" % (id, p, placed(id)), case)
        ctx.count("features_compared", len(n.feats))
    ctx.count("nodes_compared", len(nodes))

    def f32(w):
        return float(np.float32(w))

    t = (lambda e: (e.created, e.removed)) if g.temporal else (lambda e: (None, None))
    want = Counter((e.src, e.dst, e.type, f32(e.weight)) + t(e) for e in g.edges)
    got = Counter((e[0], e[1], e[2], e[3], e[5], e[6]) for e in edges)
    if want != got:
        ctx.fail("edges lost, repeated or changed", "missing %s, extra %s" % (list((want - got).items())[:4], list((got - want).items())[:4]), case)
    by_key = {}
    for e in edges:
        by_key.setdefault((e[0], e[1], e[2]), []).append(e[4])
    for e in g.edges:
        for feats in by_key[e.key()]:
            d = binfmt.features_equal(feats, e.feats)
            if d:
                ctx.fail("wrong edge feature", "edge %s %s" % (e.key(), d), case)
        ctx.count("features_compared", len(e.feats))
    ctx.count("edges_compared", len(edges))


def clear(path):
    for f in os.listdir(path):
        os.remove(os.path.join(path, f))


def settings(r):
    return {"record_per_step": r.choice([1, 2, 7, 512]), "buffer_size": r.choice([0.0001, 0.00037, 0.005, 1, 50]), "queue_size": r.choice([1, 2, 30]), "thread_count": r.choice([1, 2, 5])}


def one(ctx, r, k, kind):
    from deepgnn.graph_engine.snark.convert import MultiWorkersConverter
    from deepgnn.graph_engine.snark.dispatcher import PipeDispatcher, QueueDispatcher

    form = ["json", "edgelist", "tsv"][k % 3] if kind != "worker" else r.choice(["json", "tsv"])
    temporal = form != "tsv" and r.random() < 0.35
    g = gen(r, form, temporal)
    lines, decoder, dk = describe(g, form, r)
    out = os.path.join(ctx.scratch, "o%d" % k)
    os.makedirs(out)
    src = os.path.join(ctx.scratch, "in%d" % k)
    s = settings(r)
    parts = r.choice([1, 1, 2, 3, 5])
    how = r.choice(["pipe", "pipe", "queue", "default", "debug"]) if kind is None else kind
    case = {"form": form, "decoder": dk, "how": how, "partitions": parts, "temporal": temporal, **s, **g.summary()}
    ctx.count("form_" + form)
    ctx.at({"op": "convert", "case": case})
    placed = None
    if kind == "worker":
        workers = r.choice([2, 3, 4, 12])
        parts = r.choice([workers, workers + 1, 2 * workers, 2 * workers + 1, workers + workers // 2])
        case.update(workers=workers, partitions=parts)
        os.makedirs(src)
        for w in range(workers):
            gmodel.write_lines(os.path.join(src, "f%02d" % w), lines[w::workers])
        for w in range(workers):
            ctx.call(
                "convert by worker",
                lambda: MultiWorkersConverter(graph_path=src, output_dir=out, decoder=decoder, partition_count=parts, worker_index=w, worker_count=workers, watermark=g.watermark, **s).convert(),
                case=case,
            )
        ctx.count("multi_worker")
    else:
        gmodel.write_lines(src, lines)
        kw = dict(graph_path=src, output_dir=out, decoder=decoder, partition_count=parts, watermark=g.watermark, **s)
        if how == "debug":
            parts = 1
            kw["partition_count"] = 1

            def go():
                # It prints every line.
                import contextlib
                import io

                with contextlib.redirect_stdout(io.StringIO()):
                    MultiWorkersConverter(debug=True, **kw).convert()

            ctx.count("debug")
        elif how == "pipe":

            def go():
                MultiWorkersConverter(dispatcher=PipeDispatcher(out, parts, decoder, use_threads=True, watermark=g.watermark), **kw).convert()

        elif how == "queue":
            choice = [r.randrange(parts) for _ in range(max(1, len(lines)))]
            number = {}
            for line in lines:
                number.setdefault(line, choice[len(number)])
            if form == "json":
                placed = {json.loads(line)["node_id"]: p for line, p in number.items()}.get

            def go():
                MultiWorkersConverter(dispatcher=QueueDispatcher(out, parts, lambda line: number[line], decoder, use_threads=True, watermark=g.watermark), **kw).convert()

        else:

            def go():
                MultiWorkersConverter(**kw).convert()

        ctx.call("convert", go, case=case)
        used = range(parts) if how != "queue" else sorted(set(number.values()))
        compare(ctx, g, out, list(used), case, placed)
        finish(ctx, g, k, case, out)
        return
    compare(ctx, g, out, list(range(parts)), case)
    finish(ctx, g, k, case, out)


def finish(ctx, g, k, case, out):
    ctx.case((ctx.name, k), bool(g.edges) or any(n.feats for n in g.nodes.values()), case)
    clear(out)


CHILD = """
import json, sys, pickle
sys.path[:0] = [%r]
import gmodel
d = pickle.load(open(sys.argv[1], "rb"))
from deepgnn.graph_engine.snark import decoders
from deepgnn.graph_engine.snark.convert import MultiWorkersConverter
from deepgnn.graph_engine.snark.dispatcher import PipeDispatcher, QueueDispatcher
dec = {"json": decoders.JsonDecoder, "tsv": decoders.TsvDecoder}[d["form"]]()
def place(line):
    return d["number"][line]
if d["dispatcher"] == "pipe":
    disp = PipeDispatcher(d["out"], d["parts"], dec, use_threads=False, watermark=d["watermark"])
else:
    disp = QueueDispatcher(d["out"], d["parts"], place, dec, use_threads=False, watermark=d["watermark"])
MultiWorkersConverter(graph_path=d["src"], output_dir=d["out"], decoder=dec, partition_count=d["parts"], dispatcher=disp, watermark=d["watermark"], **d["settings"]).convert()
print("converted")
"""


def by_process(ctx, r, k):
    import pickle

    form = r.choice(["json", "tsv"])
    temporal = form == "json" and r.random() < 0.5
    g = gen(r, form, temporal)
    lines, _, _ = describe(g, form, r)
    out = os.path.join(ctx.scratch, "o%d" % k)
    os.makedirs(out)
    src = os.path.join(ctx.scratch, "in%d" % k)
    gmodel.write_lines(src, lines)
    parts = r.choice([1, 2, 4])
    number = {line: r.randrange(parts) for line in lines}
    d = {"form": form, "dispatcher": ["pipe", "queue"][k % 2], "parts": parts, "out": out, "src": src, "watermark": g.watermark, "number": number, "settings": settings(r)}
    case = {"form": form, "dispatcher": d["dispatcher"] + " with processes", "partitions": parts, **d["settings"], **g.summary()}
    path = os.path.join(ctx.scratch, "d%d" % k)
    with open(path, "wb") as f:
        pickle.dump(d, f)
    with open(os.path.join(ctx.scratch, "child.py"), "w") as f:
        f.write(CHILD % os.path.dirname(os.path.abspath(gmodel.__file__)))
    ctx.at({"op": "convert with processes", "case": case})
    p = subprocess.run([sys.executable, os.path.join(ctx.scratch, "child.py"), path], cwd=ctx.scratch, capture_output=True, text=True)
    if p.returncode != 0:
        ctx.fail("convert with processes fails", p.stderr[-1500:], case)
    ctx.count("by_process")
    used = range(parts) if d["dispatcher"] == "pipe" else sorted(set(number.values()))
    compare(ctx, g, out, list(used), case)
    finish(ctx, g, k, case, out)


def hand(ctx):
    """Forms that the formats allow and the generator does not produce."""
    from deepgnn.graph_engine.snark import decoders

    def run(name, decoder, lines, want):
        with ctx.trial():
            case = {"lines": lines}

            def go():
                return [x for line in lines for x in decoder.decode(line)]

            got = ctx.call("decode " + name, go, case=case)
            ctx.case(("hand", name), True, {"name": name, "lines": lines})
            norm = [(a, b, c, float(d), [plain(x) for x in f]) for a, b, c, d, _, _, f in got]
            if norm != want:
                ctx.fail("decoded wrongly: " + name, "%s expected %s" % (norm, want), case)

    run("json with an empty feature list", decoders.JsonDecoder(), [json.dumps({"node_id": 1, "node_type": 0, "node_weight": 1, "float_feature": {"0": [], "1": [2.0]}, "edge": []})], [(1, -1, 0, 1.0, [[], [2.0]])])
    run("json with null features", decoders.JsonDecoder(), [json.dumps({"node_id": 1, "node_type": 0, "node_weight": 1, "float_feature": None, "uint8_feature": {"2": [7]}, "edge": []})], [(1, -1, 0, 1.0, [None, None, [7]])])
    run("tsv with a bare neighbor", decoders.TsvDecoder(), ["1\t2\t0.5\t\t7|8,1|9,1,0.25"], [(1, -1, 2, 0.5, []), (1, 7, 0, 0.0, []), (1, 8, 1, 0.0, []), (1, 9, 1, 0.25, [])])
    run("tsv with the id only", decoders.TsvDecoder(), ["5"], [(5, -1, 0, 0.0, [])])
    run("tsv with spaces in the neighbor list", decoders.TsvDecoder(), ["1\t0\t0.5\tf:0.5 0.25;b:text;i16:1 -2 3\t2, 1, 0.5,f:0.5 0.25;b:text;u8:1 2 3"], [(1, -1, 0, 0.5, [[0.5, 0.25], "text", [1, -2, 3]]), (1, 2, 1, 0.5, [[0.5, 0.25], "text", [1, 2, 3]])])
    run("edge list with bool features", decoders.EdgeListDecoder(), ["1,-1,0,1,bool,3,1,0,1", "1,-1,0,1,bool,4,True,False,true,false"], [(1, -1, 0, 1.0, [[True, False, True]]), (1, -1, 0, 1.0, [[True, False, True, False]])])
    run("edge list with skipped features", decoders.EdgeListDecoder(), ["1,-1,0,1,int32,0,float32,1,0.5,int8,0,binary,1,x"], [(1, -1, 0, 1.0, [None, [0.5], None, "x"])])
    run("edge list with escaped delimiters", decoders.EdgeListDecoder(), ["1,-1,0,1,binary,1,a\\,b\\,c,int8,1,5"], [(1, -1, 0, 1.0, ["a,b,c", [5]])])
    run(
        "edge list with the documented defaults",
        decoders.EdgeListDecoder(default_node_type=1, default_node_weight=0.5, default_node_feature_types=["int32", "float32"], default_node_feature_lens=[[3], [2]], default_edge_type=0, default_edge_weight=0.5, default_edge_feature_types=["uint8"], default_edge_feature_lens=[[3, 0]]),
        ["0,-1,1,1,1,1.5,1.5", "0,1,0,4,10,1,1,1"],
        [(0, -1, 1, 0.5, [[1, 1, 1], [1.5, 1.5]]), (0, 1, 0, 0.5, [([0, 4, 10], [1, 1, 1])])],
    )


def plain(x):
    if isinstance(x, tuple):
        return tuple(plain(y) for y in x)
    return x.tolist() if hasattr(x, "tolist") else x


def run(job, ctx):
    r = ctx.rng(job["name"])
    kind = job.get("kind")
    if kind == "hand":
        hand(ctx)
        return
    for k in range(job["cases"]):
        with ctx.trial():
            if kind == "process":
                by_process(ctx, r, k)
            elif kind == "cli":
                cli(ctx, r, k)
            else:
                one(ctx, r, k, kind)


def cli(ctx, r, k):
    form = ["json", "tsv", "edgelist"][k % 3]
    temporal = form == "json" and r.random() < 0.5
    g = gen(r, form, temporal)
    if form == "json":
        lines = json_text(g, r)
    elif form == "tsv":
        lines = list(gmodel.tsv_lines(g))
    else:
        clean_text(g, "\\")
        lines = list(gmodel.edge_list_lines(g))
    out = os.path.join(ctx.scratch, "o%d" % k)
    os.makedirs(out)
    src = os.path.join(ctx.scratch, "in%d" % k)
    gmodel.write_lines(src, lines)
    parts = r.choice([1, 2, 3])
    name = {"json": "json", "tsv": "tsv", "edgelist": "edgelist"}[form]
    args = ["-d", src, "-o", out, "-p", str(parts), "-t", name]
    if temporal:
        args += ["--watermark", str(g.watermark)]
    case = {"form": form, "how": "command line", "partitions": parts, **g.summary()}
    ctx.at({"op": "convert from the command line", "args": args, "case": case})
    p = subprocess.run([sys.executable, "-m", "deepgnn.graph_engine.snark.convert"] + args, cwd=ctx.scratch, capture_output=True, text=True)
    if p.returncode != 0:
        ctx.fail("the command line converter fails for %s" % form, "%s\n%s" % (args, p.stderr[-1500:]), case)
    ctx.count("by_cli")
    compare(ctx, g, out, list(range(parts)), case)
    finish(ctx, g, k, case, out)
