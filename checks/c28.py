"""Datasets built from archives against the contents of the archives."""
import io
import json
import os
import random
import shutil
import zipfile

import numpy as np

LEVEL = "exploration"
RULE = "one case is one dataset built from one archive with one set of arguments; it is nontrivial when the archive has at least one edge, and distinct by archive and arguments"
ASSUMPTIONS = [
    "generated archives have at most 60 nodes, with the number of features of the real ones where the builder insists on it",
    "the two citation archives of the package are built in full",
    "downloads are answered by a stand-in for the standard library's retrieval function",
]
BUILDS = ["rel"]
NEED = {"nodes compared": 300, "edges compared": 500, "several partitions": 3, "random selection": 1, "downloads": 1, "rebuilt": 2, "citation": 2, "command line": 2}


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [{"name": "full%d" % i, "config": "rel", "mode": "full", "archives": 10 if big else 4} for i in range(6 if big else 3)]
    jobs += [{"name": "sage%d" % i, "config": "rel", "mode": "sage", "archives": 16 if big else 6} for i in range(4 if big else 2)]
    jobs += [{"name": "package-%s" % n, "config": "rel", "mode": "package", "which": n} for n in ("cora_full", "citeseer_full")]
    jobs += [{"name": "citation-%s" % n, "config": "rel", "mode": "citation", "which": n} for n in ("cora", "citeseer")]
    return jobs


def numbers(path):
    return [int(x) for x in open(path).read().split()]


def floor_of(n, ratio):
    return {int(n * ratio), int(n * ratio + 1e-9)}


class Expected:
    """What a graph must contain: types, features and edges by node number."""

    def __init__(self, types, feats, edges, partitions, dims):
        self.types, self.feats, self.edges, self.partitions, self.dims = types, feats, edges, partitions, dims


def compare(ctx, ds, want, out, case, r):
    """The graph of a dataset as answered by the engine."""
    from deepgnn.graph_engine import SamplingStrategy

    ids = sorted(want.types)
    for t in set(want.types.values()) | {0, 1, 2}:
        n = sum(v == t for v in want.types.values())
        got = ctx.call("node_count", ds.node_count, t, case=case)
        if got != n:
            ctx.fail("a dataset has the wrong number of nodes", "type %d: %d nodes, %d in the source" % (t, got, n), case)
        n = sum(e[2] == t for e in want.edges)
        got = ctx.call("edge_count", ds.edge_count, t, case=case)
        if got != n:
            ctx.fail("a dataset has the wrong number of edges", "type %d: %d edges, %d in the source" % (t, got, n), case)
    arr = np.array(ids, dtype=np.int64)
    got = ctx.call("node_types", ds.node_types, arr, case=case)
    for i, t in zip(ids, got):
        if int(t) != want.types[i]:
            ctx.fail("a node of a dataset has the wrong type", "node %d has type %d instead of %d" % (i, t, want.types[i]), case)
    got = ctx.call("node_types", ds.node_types, np.array([max(ids) + 1, max(ids) + 17], dtype=np.int64), case=case)
    if list(got) != [-1, -1]:
        ctx.fail("a dataset has nodes that are not in the source", str(list(got)), case)
    for f, dim in enumerate(want.dims):
        got = ctx.call("node_features", ds.node_features, arr, np.array([[f, dim]], dtype=np.int32), np.float32, case=case)
        for row, i in zip(got, ids):
            exp = want.feats[i][f]
            if not np.allclose(row, exp, rtol=2e-4, atol=2e-5):
                k = int(np.argmax(np.abs(row - exp)))
                ctx.fail("a node of a dataset has the wrong features", "node %d feature %d element %d: %r instead of %r" % (i, f, k, float(row[k]), float(exp[k])), case)
        # Nothing is stored beyond the stated width.
        more = ctx.call("node_features", ds.node_features, arr[:20], np.array([[f, dim + 3]], dtype=np.int32), np.float32, case=case)
        if more[:, dim:].any():
            ctx.fail("a feature of a dataset is wider than in the source", "feature %d: %r" % (f, more[:, dim:].tolist()[0]), case)
    ctx.count("nodes compared", len(ids))
    dst, weights, types, counts = ctx.call("neighbors", ds.neighbors, arr, np.array([0, 1, 2, 3], dtype=np.int32), case=case)
    by = {}
    for s, d, t in want.edges:
        by.setdefault(s, []).append((d, t))
    pos = 0
    for i, c in zip(ids, counts):
        c = int(c)
        got = sorted(zip(dst[pos : pos + c].tolist(), types[pos : pos + c].tolist()))
        pos += c
        if got != sorted(by.get(i, [])):
            lost = [e for e in sorted(by.get(i, [])) if e not in got]
            extra = [e for e in got if e not in by.get(i, [])]
            ctx.fail("a node of a dataset has the wrong edges", "node %d: missing %s, not in the source %s, %d edges instead of %d" % (i, lost[:4], extra[:4], c, len(by.get(i, []))), case)
    if len(weights) and not (weights == 1.0).all():
        ctx.fail("an edge of a dataset has the wrong weight", str(sorted(set(weights.tolist()))[:4]), case)
    ctx.count("edges compared", len(want.edges))
    for t in sorted(set(want.types.values())):
        got = ctx.call("sample_nodes", ds.sample_nodes, 64, t, r.choice([SamplingStrategy.Random, SamplingStrategy.Weighted]), case=case)
        bad = [int(i) for i in got if want.types.get(int(i)) != t]
        if bad:
            ctx.fail("sampling a dataset returns nodes of another type", "type %d: node %d" % (t, bad[0]), case)
    meta = json.load(open(os.path.join(out, "meta.json")))
    if len(meta["partitions"]) != want.partitions:
        ctx.fail("a dataset has another number of partitions than requested", "%d instead of %d" % (len(meta["partitions"]), want.partitions), case)
    for p in range(want.partitions):
        if not os.path.exists(os.path.join(out, "node_%d_0.map" % p)):
            ctx.fail("a dataset has another number of partitions than requested", "no files of partition %d" % p, case)
    if want.partitions > 1:
        ctx.count("several partitions")


def lists(ctx, out, want, names, case):
    """Lists of nodes for training and testing."""
    seen = []
    for t, name in names.items():
        path = os.path.join(out, name)
        if not os.path.exists(path):
            ctx.fail("a list of nodes is missing", name, case)
        got = numbers(path)
        exp = sorted(i for i, v in want.types.items() if v == t)
        if sorted(got) != exp:
            ctx.fail("a list of nodes differs from the types in the graph", "%s has %d nodes instead of %d, differing in %s" % (name, len(got), len(exp), sorted(set(got) ^ set(exp))[:5]), case)
        seen += got
    if sorted(seen) != sorted(want.types):
        ctx.fail("lists of nodes overlap or are not complete", "%d entries for %d nodes" % (len(seen), len(want.types)), case)


def parse_full(content, cites):
    """Independent reading of the two text files of a citation archive."""
    papers, feats, labels = {}, {}, {}
    for line in content.split("\n"):
        cells = line.split()
        if cells:
            n = len(papers) + 1
            papers[cells[0]] = n
            feats[n] = np.array(cells[1:-1], dtype=np.float32)
            labels[n] = cells[-1]
    pairs = set()
    for line in cites.split("\n"):
        cells = line.split()
        if cells and cells[0] in papers and cells[1] in papers:
            a, b = papers[cells[0]], papers[cells[1]]
            pairs |= {(a, b), (b, a)}
    return feats, labels, pairs


def judge_full(ctx, ds, content, cites, out, args, case, r):
    feats, labels, pairs = parse_full(content, cites)
    n = len(feats)
    train = set(numbers(os.path.join(out, "train.nodes")))
    if len(train) not in floor_of(n, args["ratio"]):
        ctx.fail("a dataset has another share of training nodes than requested", "%d of %d with ratio %s" % (len(train), n, args["ratio"]), case)
    if not args["random"] and train and train != set(range(1, len(train) + 1)):
        ctx.fail("training nodes of an ordered selection are not the first ones", str(sorted(train)[:10]), case)
    got = ctx.call("node_features", ds.node_features, np.arange(1, n + 1, dtype=np.int64), np.array([[1, 1]], dtype=np.int32), np.float32, case=case)[:, 0]
    names = {}
    for i in range(1, n + 1):
        v = float(got[i - 1])
        if names.setdefault(labels[i], v) != v:
            ctx.fail("nodes of one class have different labels", "class %s has labels %s and %s" % (labels[i], names[labels[i]], v), case)
    if sorted(names.values()) != [float(k) for k in range(len(names))]:
        ctx.fail("classes do not have labels of their own", "%s" % names, case)
    full = {i: [feats[i], np.array([names[labels[i]]], dtype=np.float32)] for i in feats}
    types = {i: 0 if i in train else 1 for i in feats}
    edges = [(a, b, 0 if a in train and b in train else 1) for a, b in pairs]
    want = Expected(types, full, edges, args["partitions"], [len(feats[1]), 1])
    compare(ctx, ds, want, out, case, r)
    lists(ctx, out, want, {0: "train.nodes", 1: "test.nodes"}, case)
    if args["random"]:
        ctx.count("random selection")
    return len(edges)


def full_archive(r, kind):
    dim = 1433 if kind == "cora" else 3703
    n = r.choice([2, 5, 17, 40, 60])
    style = r.randrange(3)
    names = []
    while len(names) < n:
        name = str(r.randrange(1, 10**7)) if style != 1 else "%s%02d%s" % (r.choice("abcdefg"), r.randrange(100), r.choice(["nets", "ml", "x1", "t:3"]))
        if name not in names:
            names.append(name)
    classes = ["Class_%d" % i for i in range(r.randint(1, 6))]
    lines = []
    for p in names:
        on = set(r.sample(range(dim), r.randint(1, 40))) | set(r.sample([0, dim - 1], r.randint(0, 2)))
        lines.append("\t".join([p] + ["1" if k in on else "0" for k in range(dim)] + [r.choice(classes)]))
    cites = []
    for _ in range(r.choice([0, n // 2, 3 * n])):
        a, b = r.choice(names), r.choice(names)
        if kind == "citeseer" and r.random() < 0.1:
            b = "unknown%d" % r.randrange(5)
        cites.append("%s\t%s" % ((a, b) if r.random() < 0.9 else (b, a)))
    content = "\n".join(lines) + "\n"
    return content, "".join(c + "\n" for c in cites)


def write_full(path, kind, content, cites):
    folder, stem = ("cora", "cora") if kind == "cora" else ("citeseer-doc-classification", "citeseer")
    with zipfile.ZipFile(path, "w") as z:
        z.writestr("%s/%s.content" % (folder, stem), content)
        z.writestr("%s/%s.cites" % (folder, stem), cites)


def build_full(kind, out, args, url):
    from deepgnn.graph_engine.data.citeseer import CiteseerFull
    from deepgnn.graph_engine.data.cora import CoraFull

    if kind == "cora":
        return CoraFull(out, args["ratio"], args["random"], url=url, num_partitions=args["partitions"])
    return CiteseerFull(out, args["ratio"], args["random"], url=url)


def run_full(job, ctx):
    import urllib.request

    r = ctx.rng(job["name"])
    os.makedirs(os.path.join(ctx.scratch, "cwd"))
    os.chdir(os.path.join(ctx.scratch, "cwd"))
    last = {}
    for k in range(job["archives"]):
        kind = r.choice(["cora", "cora", "citeseer"])
        content, cites = full_archive(r, kind)
        args = {"ratio": r.choice([1.0, 0.8, 0.5, 0.29, 0.0]), "random": r.random() < 0.5, "partitions": r.choice([1, 2, 3, 4]) if kind == "cora" else 1}
        zpath = os.path.join(ctx.scratch, "a%d.zip" % k)
        write_full(zpath, kind, content, cites)
        out = os.path.join(ctx.scratch, "out%d" % k)
        reuse = last.get(kind) if k and r.random() < 0.35 else None
        if reuse:
            out = reuse
        how = r.choice(["path", "path", "http"]) if k > 1 else ["path", "http"][k]
        case = {"dataset": kind, "arguments": args, "source": how, "nodes": content.count("\n"), "citations": cites.count("\n"), "folder used before": bool(reuse)}
        with ctx.trial():
            ctx.at({"op": "build", **case})
            if how == "http":
                fetched = []

                def retrieve(url, filename=None, *a, **kw):
                    fetched.append(url)
                    shutil.copy(zpath, filename)
                    return filename, None

                url = "http://archive.invalid/sets/%s_full.zip" % kind
                for leftover in ("cora_full.zip", "citeseer_full.zip"):
                    if os.path.exists(leftover):
                        os.remove(leftover)
                keep, urllib.request.urlretrieve = urllib.request.urlretrieve, retrieve
                try:
                    ds = ctx.call("building from a download", build_full, kind, out, args, url, case=case)
                finally:
                    urllib.request.urlretrieve = keep
                if fetched != [url]:
                    ctx.fail("another address was downloaded", "%s instead of %s" % (fetched, url), case)
                ctx.count("downloads")
            else:
                ds = ctx.call("building", build_full, kind, out, args, zpath, case=case)
            edges = judge_full(ctx, ds, content, cites, out, args, case, r)
            ctx.case((ctx.name, k), edges > 0, case)
            if reuse:
                ctx.count("rebuilt")
            ds.reset()
        last[kind] = out


def run_package(job, ctx):
    import deepgnn.graph_engine.data as package

    r = ctx.rng(job["name"])
    kind = job["which"].split("_")[0]
    with zipfile.ZipFile(os.path.join(os.path.dirname(package.__file__), job["which"] + ".zip")) as z:
        content = z.read(next(n for n in z.namelist() if n.endswith(".content"))).decode()
        cites = z.read(next(n for n in z.namelist() if n.endswith(".cites"))).decode()
    out = os.path.join(ctx.scratch, "out")
    args = {"ratio": r.choice([0.8, 0.37, 1.0]), "random": r.random() < 0.5, "partitions": 2 if kind == "cora" else 1}
    case = {"dataset": job["which"], "arguments": args}
    with ctx.trial():
        ctx.at({"op": "build", **case})
        ds = ctx.call("building", build_full, kind, out, args, "local", case=case)
        feats, labels, _ = parse_full(content, cites)
        facts = (ds.NUM_NODES, ds.FEATURE_DIM, ds.NUM_CLASSES)
        if facts != (len(feats), len(feats[1]), len(set(labels.values()))):
            ctx.fail("the sizes stated by a dataset are wrong", "%s" % (facts,), case)
        judge_full(ctx, ds, content, cites, out, args, case, r)
        ctx.case((ctx.name,), True, case)
        ds.reset()
    # The same from the command line.
    import runpy
    import sys

    from deepgnn.graph_engine.snark.local import Client

    out = os.path.join(ctx.scratch, "command")
    args = {"ratio": r.choice([0.8, 0.37, 1.0]), "random": r.random() < 0.5, "partitions": 3 if kind == "cora" else 1}
    case = {"dataset": job["which"], "arguments": args, "command line": True}
    argv = ["--data_dir", out, "--train_node_ratio", str(args["ratio"])] + (["--random_selection"] if args["random"] else []) + (["--num_partitions", "3"] if kind == "cora" else [])
    with ctx.trial():
        keep, sys.argv = sys.argv, [kind] + argv
        try:
            name = "deepgnn.graph_engine.data." + kind
            sys.modules.pop(name, None)
            ctx.call("building from the command line", runpy.run_module, name, run_name="__main__", alter_sys=True, case=case)
        finally:
            sys.argv = keep
        ds = ctx.call("loading", Client, out, list(range(args["partitions"])), case=case)
        judge_full(ctx, ds, content, cites, out, args, case, r)
        ctx.case((ctx.name, "command line"), True, case)
        ctx.count("command line")
        ds.reset()


def sage_archive(r, kind):
    n = r.choice([3, 8, 25, 60])
    classes = r.choice([3, 7, 121]) if kind == "ppi" else 50
    dim = r.choice([1, 5, 50])
    order = list(range(n))
    if kind == "ppi":
        ids = r.sample(range(n), n) if r.random() < 0.5 else list(range(n))
        r.shuffle(order)
    else:
        ids = ["t3_%x" % (1000 + r.randrange(10**6) * n + i) for i in range(n)]
    # Entry i of the archive is node number order[i].
    if kind == "reddit":
        order = list(range(n))
    marks = [r.choice(["train", "train", "val", "test"]) for _ in range(n)]
    if "train" not in marks:
        marks[0] = "train"
    pairs = set()
    for _ in range(r.choice([0, n, 4 * n])):
        a, b = r.randrange(n), r.randrange(n)
        pairs.add((min(a, b), max(a, b)))
    pairs = [p if r.random() < 0.5 else p[::-1] for p in sorted(pairs)]
    feats = np.array([[r.uniform(-3, 3) if k % 4 else float(r.random() < 0.3) for k in range(dim)] for _ in range(n)])
    if dim > 2:
        feats[:, 2] = 1.5
    labels = [[int(r.random() < 0.4) for _ in range(classes)] for _ in range(n)] if kind == "ppi" else [r.randrange(50) for _ in range(n)]
    number = {ids[i]: order[i] for i in range(n)}
    key = (lambda x: str(x))
    g = {
        "directed": False,
        "nodes": [{"id": ids[i], "test": marks[i] == "test", "val": marks[i] == "val"} for i in range(n)],
        "links": [{"source": ids[a], "target": ids[b]} if kind == "ppi" else {"source": a, "target": b} for a, b in pairs],
    }
    by_number = {order[i]: i for i in range(n)}
    files = {
        "%s-G.json" % kind: json.dumps(g),
        "%s-id_map.json" % kind: json.dumps({key(k): v for k, v in number.items()}),
        "%s-class_map.json" % kind: json.dumps({key(ids[i]): labels[i] for i in range(n)}),
    }
    rows = np.array([feats[by_number[k]] for k in range(n)])
    buf = io.BytesIO()
    np.save(buf, rows)
    files["%s-feats.npy" % kind] = buf.getvalue()
    train = np.array([rows[order[i]] for i in range(n) if marks[i] == "train"])
    mean, std = train.mean(0), train.std(0)
    std = np.where(std < 1e-12, 1.0, std)
    scaled = (rows - mean) / std
    types = {order[i]: {"train": 0, "val": 1, "test": 2}[marks[i]] for i in range(n)}
    out = {}
    for i in range(n):
        lb = labels[i] if kind == "ppi" else [int(k == labels[i]) for k in range(50)]
        out[order[i]] = [np.array(lb, dtype=np.float32), scaled[order[i]].astype(np.float32)]
    links = [(order[a], order[b]) for a, b in pairs]
    return files, types, out, links, [classes, dim]


def both(links, types):
    edges = []
    for a, b in links:
        t = 0 if types[a] == 0 and types[b] == 0 else 1
        edges.append((a, b, t))
        if a != b:
            edges.append((b, a, t))
    return edges


def run_sage(job, ctx):
    from deepgnn.graph_engine.data.ppi import PPI
    from deepgnn.graph_engine.data.reddit import Reddit

    r = ctx.rng(job["name"])
    for k in range(job["archives"]):
        kind = ["ppi", "reddit"][(k + job["name"].count("1")) % 2]
        files, types, feats, links, dims = sage_archive(r, kind)
        parts = r.choice([1, 2, 3])
        pct = r.choice([1.0, 1.0, 0.5, 0.0])
        seed = r.randrange(1000)
        seen = []
        case = {"dataset": kind, "nodes": len(types), "links": len(links), "partitions": parts, "share of edges": pct if kind == "reddit" else 1.0}
        with ctx.trial():
            for again in range(2 if kind == "reddit" and 0 < pct < 1 else 1):
                out = os.path.join(ctx.scratch, "out%d_%d" % (k, again))
                os.makedirs(os.path.join(out, "raw"))
                with zipfile.ZipFile(os.path.join(out, "raw", kind + ".zip"), "w") as z:
                    for name, text in files.items():
                        z.writestr("%s/%s" % (kind, name), text)
                ctx.at({"op": "build", **case})
                if kind == "ppi":
                    ds = ctx.call("building", PPI, out, num_partitions=parts, case=case)
                    edges = both(links, types)
                else:
                    ds = ctx.call("building", Reddit, out, edge_downsample_pct=pct, num_partitions=parts, seed=seed, case=case)
                    dst, _, _, counts = ctx.call("neighbors", ds.neighbors, np.arange(len(types), dtype=np.int64), np.array([0, 1], dtype=np.int32), case=case)
                    src = np.repeat(np.arange(len(types)), counts.astype(np.int64))
                    kept = {(int(a), int(b)) for a, b in zip(src, dst)}
                    seen.append(kept)
                    part = [e for e in links if e in kept] if pct < 1 else links
                    if pct < 1 and not len(links) * pct - 6 * (len(links) * pct * (1 - pct)) ** 0.5 - 1 <= len(part) <= len(links) * pct + 6 * (len(links) * pct * (1 - pct)) ** 0.5 + 1:
                        ctx.fail("the share of kept edges is far from the requested one", "%d of %d with share %s" % (len(part), len(links), pct), case)
                    edges = both(part, types)
                want = Expected(types, feats, edges, parts, dims)
                facts = (ds.NUM_NODES, ds.FEATURE_DIM, ds.NUM_CLASSES)
                if facts != (len(types), dims[1], dims[0]):
                    ctx.fail("the sizes stated by a dataset are wrong", "%s instead of %s" % (facts, (len(types), dims[1], dims[0])), case)
                compare(ctx, ds, want, out, case, r)
                lists(ctx, out, want, {0: "train.nodes", 1: "val.nodes", 2: "test.nodes"}, case)
                ctx.case((ctx.name, k, again), len(edges) > 0, case)
                if ds.data_dir() != out:
                    ctx.fail("a dataset names another folder", str(ds.data_dir()), case)
                ds.reset()
            if len(seen) == 2 and seen[0] != seen[1]:
                ctx.fail("the same seed keeps different edges", "%d and %d" % (len(seen[0]), len(seen[1])), case)


def run_citation(job, ctx):
    """Prepared citation datasets against the raw files they were made from, twice in one folder."""
    import pickle

    import deepgnn.graph_engine.data as package
    from deepgnn.graph_engine.data.citation import Citeseer, Cora, load_data, random_split

    r = ctx.rng(job["name"])
    name = job["which"]
    out = os.path.join(ctx.scratch, "out")
    case = {"dataset": name}
    raw = os.path.join(ctx.scratch, "raw")
    with zipfile.ZipFile(os.path.join(os.path.dirname(package.__file__), name + ".zip")) as z:
        for entry in z.namelist():
            if "/raw/" in entry and not entry.endswith("/"):
                os.makedirs(raw, exist_ok=True)
                with open(os.path.join(raw, os.path.basename(entry)), "wb") as f:
                    f.write(z.read(entry))
    part = lambda s: pickle.load(open(os.path.join(raw, "ind.%s.%s" % (name, s)), "rb"), encoding="latin1")
    allx, tx, ally, ty, y, links = part("allx").toarray(), part("tx").toarray(), part("ally"), part("ty"), part("y"), part("graph")
    test = numbers(os.path.join(raw, "ind.%s.test.index" % name))
    n = max(test) + 1
    x = np.zeros((n, allx.shape[1]))
    lab = np.zeros((n, ally.shape[1]))
    x[: len(allx)], lab[: len(ally)] = allx, ally
    for i, t in enumerate(test):
        x[t], lab[t] = tx[i], ty[i]
    total = x.sum(1, keepdims=True)
    norm = np.divide(x, total, out=np.zeros_like(x), where=total != 0)
    label = lab.argmax(1)
    types = {i: 3 for i in range(n)}
    types.update({i: 0 for i in range(len(y))})
    types.update({i: 1 for i in range(len(y), len(y) + 500)})
    types.update({i: 2 for i in test})
    pairs = {(a, b) for a, bs in links.items() for b in bs}
    pairs |= {(b, a) for a, b in pairs}
    feats = {i: [norm[i].astype(np.float32), np.array([label[i]], dtype=np.float32)] for i in range(n)}
    want = Expected(types, feats, [(a, b, 0) for a, b in pairs], None, [x.shape[1], 1])
    for again in range(2):
        with ctx.trial():
            ctx.at({"op": "build", "again": again, **case})
            ds = ctx.call("building", {"cora": Cora, "citeseer": Citeseer}[name], out, case=case)
            want.partitions = len(json.load(open(os.path.join(out, "meta.json")))["partitions"])
            if again == 0 or name == "cora":
                compare(ctx, ds, want, out, case, r)
                for t, file in {0: "train.nodes", 2: "test.nodes"}.items():
                    if sorted(numbers(os.path.join(out, file))) != sorted(i for i, v in types.items() if v == t):
                        ctx.fail("a list of nodes differs from the types in the graph", file, case)
            if ds.data_dir() != out:
                ctx.fail("a dataset names another folder", str(ds.data_dir()), case)
            ds.reset()
            ctx.case((ctx.name, again), True, case)
            ctx.count("citation")
            if again == 0:
                ctx.count("rebuilt")
        shutil.rmtree(out, ignore_errors=True)
    with ctx.trial():
        adj, features, labels, ytr, yva, yte, tr, va, te = ctx.call("load_data", load_data, raw, name, case=case)
        if not (features.toarray() == x).all() or not (labels == lab).all():
            ctx.fail("raw features or labels are read into the wrong rows", name, case)
        got = set(zip(*[a.tolist() for a in adj.nonzero()]))
        if got != pairs:
            ctx.fail("raw edges are read wrong", "%d instead of %d" % (len(got), len(pairs)), case)
        for mask, ys, t in ((tr, ytr, 0), (va, yva, 1), (te, yte, 2)):
            ids = {int(i) for i in np.nonzero(mask)[0]}
            if ids != {i for i, v in types.items() if v == t}:
                ctx.fail("a split of the raw data has the wrong nodes", "type %d" % t, case)
            if not (ys == np.where(np.array(mask)[:, None], lab, 0)).all():
                ctx.fail("a split of the raw data has the wrong labels", "type %d" % t, case)
        ctx.case((ctx.name, "raw"), True, case)
    for _ in range(8):
        per, nval, ntest = r.choice([1, 5, 20, 33]), r.choice([0, 10, 500]), r.choice([10, 1000])
        np.random.seed(r.randrange(2**31))
        c = {"per class": per, "validation": nval, "test": ntest, **case}
        with ctx.trial():
            masks = [np.array(m) for m in ctx.call("random_split", random_split, label, int(label.max()) + 1, per, nval, ntest, case=c)]
            if any((a & b).any() for a, b in ((masks[0], masks[1]), (masks[0], masks[2]), (masks[1], masks[2]))):
                ctx.fail("parts of a random split overlap", name, c)
            for cl in range(int(label.max()) + 1):
                if int((masks[0] & (label == cl)).sum()) != min(per, int((label == cl).sum())):
                    ctx.fail("a random split has the wrong number of training nodes of a class", "class %d: %d instead of %d" % (cl, (masks[0] & (label == cl)).sum(), per), c)
            if int(masks[1].sum()) != nval or int(masks[2].sum()) != ntest:
                ctx.fail("a random split has the wrong size", "%d and %d" % (masks[1].sum(), masks[2].sum()), c)
            ctx.case((ctx.name, "split", per, nval, ntest), True, c)


def run(job, ctx):
    {"full": run_full, "package": run_package, "sage": run_sage, "citation": run_citation}[job["mode"]](job, ctx)
